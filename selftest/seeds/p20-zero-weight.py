PROPERTY = "P20"
EDITS = [("include/podio/LinkNavigator.h",
          "    const auto& [begin, end] = m_to2from.equal_range(object);\n",
          "    const auto begin = m_to2from.lower_bound(object);\n    auto end = begin;\n"
          "    while (end != m_to2from.end() && !(object < end->first) && (end == begin || end->second.weight != 0)) {\n      ++end;\n    }\n")]
NEEDS = "several links to the same object, one of which, but not the first, has weight 0"
BREAKS = "the lookup stops at links with weight 0"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include "podio/LinkCollection.h"
#include "podio/LinkNavigator.h"
#include <cstdio>

int main() {
  ExampleHitCollection hits;
  ExampleClusterCollection clusters;
  auto c = clusters.create();
  podio::LinkCollection<ExampleHit, ExampleCluster> links;
  for (int i = 0; i < 4; ++i) {
    auto l = links.create();
    l.setFrom(hits.create());
    l.setTo(c);
    l.setWeight(i == 2 ? 0.f : 1.f);
  }
  const auto& cl = links;
  podio::LinkNavigator nav{cl};
  const auto n = nav.getLinked(c).size();
  std::printf("%zu\n", n);
  return n == 4 ? 0 : 1;
}
'''
