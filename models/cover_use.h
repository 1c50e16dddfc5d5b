// instantiates everything of the templates of the generated model
#include "core_use.h"
#include "cover/HasEnergy.h"
#include "cover/Other.h"
template class podio::LinkCollection<PlainHit, cov::Cluster>;
template class podio::LinkCollection<cov::Particle, cov::Particle>;
template class podio::LinkCollection<OnlyVectors, HasEnergy>;
template class podio::LinkCollection<HasEnergy, OnlyVectors>;
namespace podio {
template class LinkT<PlainHit, cov::Cluster, false>;
template class LinkT<PlainHit, cov::Cluster, true>;
template class LinkT<cov::Particle, cov::Particle, false>;
template class LinkT<cov::Particle, cov::Particle, true>;
template class LinkT<OnlyVectors, HasEnergy, true>;
template class LinkT<OnlyVectors, HasEnergy, false>;
template class LinkT<HasEnergy, OnlyVectors, true>;
template class LinkT<HasEnergy, OnlyVectors, false>;
template class LinkCollectionIteratorT<PlainHit, cov::Cluster, false>;
template class LinkCollectionIteratorT<PlainHit, cov::Cluster, true>;
template class LinkCollectionIteratorT<cov::Particle, cov::Particle, false>;
template class LinkCollectionIteratorT<cov::Particle, cov::Particle, true>;
}
template class podio::LinkNavigator<podio::LinkCollection<PlainHit, cov::Cluster>>;
template class podio::LinkNavigator<podio::LinkCollection<cov::Particle, cov::Particle>>;
template class podio::RelationRange<cov::Cluster>;

namespace vp {
template <typename It>
inline void useIterator(It a, It b) {
  (void)(1 + a);
  (void)(a + 1);
  (void)(a - 1);
  (void)(a - b);
  (void)(a < b);
  (void)(a == b);
  (void)(a != b);
  (void)*a;
  (void)a[1];
  (void)a.operator->();
  a++;
  ++a;
  a--;
  --a;
  a += 2;
  a -= 2;
  It c = b;
  It d = std::move(b);
  a = c;
  a = std::move(d);
}

template <typename Coll>
inline void useRange(Coll& c, const Coll& cc) {
  useIterator(c.begin(), c.end());
  useIterator(cc.begin(), cc.end());
}

inline void useColls(std::vector<PlainHit> ih, std::vector<MutablePlainHit> mh, std::vector<cov::Cluster> ic,
                     std::vector<cov::MutableCluster> mc,
                     std::vector<podio::LinkCollection<PlainHit, cov::Cluster>::value_type> il,
                     std::vector<podio::LinkCollection<PlainHit, cov::Cluster>::mutable_type> ml) {
  PlainHitCollection a;
  a.create(1ull, 2., 3.f);
  (void)PlainHitCollection::from(ih);
  (void)PlainHitCollection::from(mh);
  cov::ClusterCollection b;
  b.create(1., Point{}, cov::Nested{}, std::array<double, 4>{}, std::array<Fixed, 2>{}, int16_t(3));
  (void)cov::ClusterCollection::from(ic);
  (void)cov::ClusterCollection::from(mc);
  useRange(a, a);
  useRange(b, b);
  cov::ParticleCollection d;
  d.create(1., 11);
  (void)podio::LinkCollection<PlainHit, cov::Cluster>::from(il);
  (void)podio::LinkCollection<PlainHit, cov::Cluster>::from(ml);
}

template <typename FromT, typename ToT, typename F2, typename T2>
inline void useLink(const podio::Link<FromT, ToT>& l, podio::MutableLink<FromT, ToT>& m, FromT f, ToT t, F2 mf, T2 mt) {
  auto c = l.clone();
  auto d = m.clone(false);
  auto e = podio::Link<FromT, ToT>::makeEmpty();
  podio::Link<FromT, ToT> i = m;
  podio::MutableLink<FromT, ToT> w(2.f);
  m.setFrom(f);
  m.setTo(t);
  m.setFrom(mf);
  m.setTo(mt);
  m.setWeight(1.f);
  (void)l.template get<0>();
  (void)l.template get<1>();
  (void)l.template get<2>();
  (void)m.template get<0>();
  (void)m.template get<1>();
  (void)m.template get<2>();
  (void)(l == e);
  (void)(l == m);
  (void)(m == l);
  (void)(l != m);
  (void)(m != l);
  (void)(l < e);
  swap(i, e);
  swap(c, d);
  (void)std::hash<podio::Link<FromT, ToT>>{}(l);
  (void)std::hash<podio::MutableLink<FromT, ToT>>{}(m);
  if constexpr (!std::is_same_v<FromT, ToT>) {
    m.set(f);
    m.set(t);
    (void)l.template get<FromT>();
    (void)l.template get<ToT>();
  }
  podio::LinkCollection<FromT, ToT> a;
  const auto& ca = a;
  useRange(a, a);
  for (auto x : a) {
    x.setWeight(1.f);
  }
  for (auto x : ca) {
    (void)x.getWeight();
  }
}

inline void useLinks(PlainHit h, MutablePlainHit mh, cov::Cluster c, cov::MutableCluster mc, cov::Particle p,
                     cov::MutableParticle mp, OnlyVectors v, MutableOnlyVectors mv, HasEnergy i) {
  podio::MutableLink<PlainHit, cov::Cluster> l1;
  podio::MutableLink<cov::Particle, cov::Particle> l2;
  podio::MutableLink<OnlyVectors, HasEnergy> l3;
  podio::MutableLink<HasEnergy, OnlyVectors> l4;
  useLink<PlainHit, cov::Cluster>(l1, l1, h, c, mh, mc);
  useLink<cov::Particle, cov::Particle>(l2, l2, p, p, mp, mp);
  useLink<OnlyVectors, HasEnergy>(l3, l3, v, i, mv, mp);
  useLink<HasEnergy, OnlyVectors>(l4, l4, i, v, h, mv);
  l3.set(h);
  l4.set(p);
  const podio::LinkCollection<PlainHit, cov::Cluster> lc;
  podio::LinkNavigator<podio::LinkCollection<PlainHit, cov::Cluster>> nav(lc);
  (void)nav.getLinked(h);
  (void)nav.getLinked(c);
  (void)nav.getLinked(mh);
  (void)nav.getLinked(mc);
  const podio::LinkCollection<OnlyVectors, HasEnergy> li;
  podio::LinkNavigator<podio::LinkCollection<OnlyVectors, HasEnergy>> inav(li);
  (void)inav.getLinked(v);
  (void)inav.getLinked(i);
  (void)inav.getLinkedTo(v);
  (void)inav.getLinkedFrom(i);
}

template <typename I, typename T, typename M>
inline void useInterface(I a, const I& b, T t, M m) {
  I c{t};
  I d{m};
  I e = b;
  I f = std::move(e);
  a = b;
  a = std::move(f);
  a = t;
  (void)(a == b);
  (void)(a != b);
  (void)(a < b);
  (void)std::hash<I>{}(b);
  (void)b.template isA<T>();
  (void)b.template as<T>();
  (void)b.id();
  (void)b.isAvailable();
  (void)b.energy();
  a.unlink();
  std::cout << b;
  (void)I::makeEmpty();
  I g{b.template as<T>()};
  (void)(g == t);
}

inline void useInterfaces(HasEnergy a, cov::Other b, PlainHit h, MutablePlainHit mh, cov::Particle p,
                          cov::MutableParticle mp, inner_ns::Deep d, inner_ns::MutableDeep md) {
  useInterface(a, a, h, mh);
  useInterface(a, a, p, mp);
  useInterface(b, b, p, mp);
  useInterface(b, b, d, md);
}

template <typename T>
inline void usePrint(std::ostream& os, const T& t) {
  if constexpr (requires { os << t; }) {
    os << t;
  }
}

template <typename T>
inline void useJson(nlohmann::json& j, const T& t) {
  if constexpr (requires { to_json(j, t); }) {
    to_json(j, t);
  }
}

template <typename F, typename T>
inline void useLinkOutput(std::ostream& os, nlohmann::json& j, const podio::Link<F, T>& l,
                          const podio::MutableLink<F, T>& m, const podio::LinkCollection<F, T>& c) {
  usePrint(os, l);
  usePrint(os, m);
  usePrint(os, c);
  useJson(j, l);
  useJson(j, m);
  useJson(j, c);
}

inline void useOutput(std::ostream& os, nlohmann::json& j) {
  useLinkOutput<PlainHit, cov::Cluster>(os, j, {}, {}, {});
  useLinkOutput<cov::Particle, cov::Particle>(os, j, {}, {}, {});
  useLinkOutput<OnlyVectors, HasEnergy>(os, j, {}, {}, {});
  useLinkOutput<HasEnergy, OnlyVectors>(os, j, {}, {}, {});
}
} // namespace vp
