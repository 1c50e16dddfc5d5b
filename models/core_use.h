// Uses of the templates of the core library so that clang instantiates them.
#include "podio/CollectionBase.h"
#include "podio/CollectionBuffers.h"
#include "podio/Frame.h"
#include "podio/GenericParameters.h"
#include "podio/ROOTFrameData.h"
#include "podio/LinkCollection.h"
#include "podio/LinkNavigator.h"
#include "podio/RelationRange.h"
#include "podio/UserDataCollection.h"
#include "podio/podioVersion.h"
#include "podio/utilities/Glob.h"
#include "podio/utilities/MaybeSharedPtr.h"
#include "podio/utilities/MiscHelpers.h"
#include "podio/utilities/StaticConcatenate.h"
#include "podio/utilities/StringKeyMap.h"
#include "podio/detail/RelationIOHelpers.h"
#include "podio/utilities/DatamodelRegistryIOHelpers.h"
#include "podio/utilities/ReaderCommon.h"

namespace vp {
struct FrameData {
  podio::CollectionIDTable getIDTable() const;
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& name);
  std::vector<std::string> getAvailableCollections() const;
  std::unique_ptr<podio::GenericParameters> getParameters();
};

template <typename T>
inline void useParams(podio::GenericParameters& p, const podio::GenericParameters& cp, podio::Frame& f,
                      const podio::Frame& cf, T v, std::vector<T> vv) {
  (void)cp.get<T>("a");
  (void)cp.get<std::vector<T>>("a");
  p.set("a", v);
  p.set("a", vv);
  (void)cp.getN<T>("a");
  (void)cp.getKeys<T>();
  (void)cp.getKeysAndValues<T>();
  p.loadFrom(std::vector<std::string>{}, std::vector<std::vector<T>>{});
  f.putParameter("a", v);
  f.putParameter("a", vv);
  (void)cf.getParameter<T>("a");
  (void)cf.getParameter<std::vector<T>>("a");
  (void)cf.getParameterKeys<T>();
}

inline void useFrame(std::unique_ptr<FrameData> d, podio::UserDataCollection<float>&& c,
                     std::unique_ptr<podio::CollectionBase> b) {
  podio::Frame f(std::move(d));
  const podio::Frame& cf = f;
  f.put(std::move(c), "a");
  f.put(std::move(b), "b");
  (void)cf.get<podio::UserDataCollection<float>>("a");
  (void)cf.get("a");
  (void)cf.getAvailableCollections();
  (void)cf.getName(3);
  (void)cf.getCollectionForWrite("a");
  (void)cf.getCollectionIDTableForWrite();
  (void)cf.getParameters();
  podio::GenericParameters p;
  useParams<int>(p, p, f, cf, 1, {});
  useParams<float>(p, p, f, cf, 1, {});
  useParams<double>(p, p, f, cf, 1, {});
  useParams<std::string>(p, p, f, cf, "", {});
  podio::GenericParameters p2(p);
  podio::GenericParameters p3(std::move(p2));
  p = std::move(p3);
  podio::Frame g;
  g = std::move(f);
}
} // namespace vp

#define VP_USER(T)                                                                                                     \
  template class podio::UserDataCollection<T>;                                                                         \
  template podio::UserDataCollection<T> podio::UserDataCollection<T>::from(std::vector<T>&&);         \
  inline void vpAssign(podio::UserDataCollection<T>& a, podio::UserDataCollection<T>& b) {                             \
    a = std::move(b);                                                                                                  \
  }
VP_USER(float)
VP_USER(double)
VP_USER(int8_t)
VP_USER(int16_t)
VP_USER(int32_t)
VP_USER(int64_t)
VP_USER(uint8_t)
VP_USER(uint16_t)
VP_USER(uint32_t)
VP_USER(uint64_t)
template podio::UserDataCollection<double> podio::UserDataCollection<double>::from(const std::vector<float>&);
template class podio::RelationRange<int>;
