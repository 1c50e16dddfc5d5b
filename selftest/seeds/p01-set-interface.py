PROPERTY = "P01"
EDITS = [("include/podio/detail/Link.h",
          "    requires(Mutable && detail::isInterfaceInitializableFrom<ToT, ToU>)\n",
          "    requires(detail::isInterfaceInitializableFrom<ToT, ToU>)\n"),
         ("include/podio/detail/Link.h",
          "  void setTo(ToU value) {\n    setTo(ToT(value));",
          "  void setTo(ToU value) {\n    m_obj->m_to = std::make_unique<ToT>(value);")]
NEEDS = "an immutable link with an interface as its To type"
BREAKS = "immutable links to interfaces can be pointed at other objects"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include "datamodel/TypeWithEnergy.h"
#include "podio/LinkCollection.h"

template <typename L, typename T>
bool change(L link, T value) {
  if constexpr (requires { link.setTo(value); }) {
    link.setTo(value);
    return true;
  }
  return false;
}

int main() {
  using Coll = podio::LinkCollection<ExampleHit, TypeWithEnergy>;
  ExampleClusterCollection clusters;
  auto a = clusters.create();
  auto b = clusters.create();
  Coll links;
  auto m = links.create();
  m.setTo(TypeWithEnergy(a));
  const Coll& view = links;
  change(view[0], ExampleCluster(b));
  return view[0].getTo() == TypeWithEnergy(a) ? 0 : 1;
}
'''
