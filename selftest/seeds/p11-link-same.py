PROPERTY = "P11"
EDITS = [("include/podio/detail/Link.h",
          "    if constexpr (Index == 0) {\n      return getFrom();\n    } else if constexpr (Index == 1) {\n      return getTo();",
          "    if constexpr (std::is_same_v<std::tuple_element_t<Index, std::tuple<FromT, ToT, float>>, FromT>) {\n      return getFrom();\n    } else if constexpr (Index == 1) {\n      return getTo();")]
NEEDS = "structured bindings or get<1> on a link between two objects of the same type"
BREAKS = "the second element of a link between objects of the same type is its From end instead of its To end"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "podio/LinkCollection.h"

int main() {
  ExampleClusterCollection clusters;
  auto a = clusters.create(1.0);
  auto b = clusters.create(2.0);
  podio::MutableLink<ExampleCluster, ExampleCluster> m;
  m.setFrom(a);
  m.setTo(b);
  m.setWeight(3.f);
  const podio::Link<ExampleCluster, ExampleCluster> link = m;
  const auto& [from, to, weight] = link;
  return from == a && to == b && weight == 3.f ? 0 : 1;
}
'''
