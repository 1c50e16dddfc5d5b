// instantiates the templates of the extension model
#include "ext/ExtLinkCollection.h"
#include "ext/HasPair.h"
#include "ext/Holder.h"
#include "ext/HolderCollection.h"
#include "ext/SecondHolder.h"
#include "ext/ThirdHolder.h"
#include <iostream>
template class podio::LinkCollection<SecondHolder, cov::Cluster>;
namespace podio {
template class LinkT<SecondHolder, cov::Cluster, false>;
template class LinkT<SecondHolder, cov::Cluster, true>;
template class LinkCollectionIteratorT<SecondHolder, cov::Cluster, false>;
template class LinkCollectionIteratorT<SecondHolder, cov::Cluster, true>;
}
namespace vpx {
template <typename I, typename T, typename M>
inline void useInterface(I a, const I& b, T t, M m) {
  I c{t};
  I d{m};
  I e = b;
  I f = std::move(e);
  a = b;
  a = std::move(f);
  a = t;
  (void)(a == b);
  (void)(a != b);
  (void)(a < b);
  (void)std::hash<I>{}(b);
  (void)b.template isA<T>();
  (void)b.template as<T>();
  (void)b.id();
  (void)b.isAvailable();
  (void)b.getPair();
  a.unlink();
  std::cout << b;
  (void)I::makeEmpty();
}
inline void useInterfaces(ext::HasPair a, ThirdHolder h, MutableThirdHolder mh, SecondHolder p, MutableSecondHolder mp) {
  useInterface(a, a, h, mh);
  useInterface(a, a, p, mp);
}
inline void useLink(const podio::Link<SecondHolder, cov::Cluster>& l, podio::MutableLink<SecondHolder, cov::Cluster>& m,
                    SecondHolder f, cov::Cluster t, MutableSecondHolder mf, cov::MutableCluster mt) {
  auto c = l.clone();
  auto d = m.clone(false);
  auto e = podio::Link<SecondHolder, cov::Cluster>::makeEmpty();
  podio::Link<SecondHolder, cov::Cluster> i = m;
  m.setFrom(f);
  m.setTo(t);
  m.setFrom(mf);
  m.setTo(mt);
  m.setWeight(1.f);
  (void)l.get<0>();
  (void)l.get<1>();
  (void)l.get<2>();
  (void)m.get<0>();
  (void)m.get<1>();
  (void)m.get<2>();
  (void)(l == e);
  (void)(l == m);
  (void)(m == l);
  (void)(l < e);
  swap(i, e);
  swap(c, d);
  (void)std::hash<podio::Link<SecondHolder, cov::Cluster>>{}(l);
  (void)std::hash<podio::MutableLink<SecondHolder, cov::Cluster>>{}(m);
}
template <typename It>
inline void useIterator(It a, It b) {
  (void)(1 + a);
  (void)(a + 1);
  (void)(a - 1);
  (void)(a - b);
  (void)(a < b);
  (void)(a == b);
  (void)(a != b);
  (void)*a;
  (void)a[1];
  (void)a.operator->();
  a++;
  ++a;
  a--;
  --a;
  a += 2;
  a -= 2;
}
inline void useIterators(podio::LinkCollection<SecondHolder, cov::Cluster>& c,
                         const podio::LinkCollection<SecondHolder, cov::Cluster>& cc) {
  useIterator(c.begin(), c.end());
  useIterator(cc.begin(), cc.end());
}
inline void useColls(ext::HolderCollection a, std::vector<ext::Holder> ih, std::vector<ext::MutableHolder> mh) {
  a.create(ext::Pair{}, Point{}, true, std::array<float, 3>{});
  (void)ext::HolderCollection::from(ih);
  (void)ext::HolderCollection::from(mh);
}
} // namespace vpx
