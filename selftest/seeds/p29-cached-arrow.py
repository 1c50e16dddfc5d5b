PROPERTY = "P29"
EDITS = [("include/podio/detail/LinkCollectionIterator.h",
          "    m_object.m_obj = podio::utils::MaybeSharedPtr<LinkObjT>((*m_collection)[m_index]);\n    return &m_object;",
          "    if (!m_object.m_obj) {\n      m_object.m_obj = podio::utils::MaybeSharedPtr<LinkObjT>((*m_collection)[m_index]);\n    }\n    return &m_object;")]
NEEDS = "the arrow operator is used on the same iterator object at two different positions"
BREAKS = "the arrow operator keeps yielding the link of the first position it was used at"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include "podio/LinkCollection.h"
#include <cstdio>

int main() {
  ExampleHitCollection hits;
  ExampleClusterCollection clusters;
  podio::LinkCollection<ExampleHit, ExampleCluster> links;
  for (int i = 0; i < 3; ++i) {
    auto h = hits.create();
    auto c = clusters.create();
    auto l = links.create();
    l.setFrom(h);
    l.setTo(c);
    l.setWeight(i + 1.f);
  }
  float sum = 0;
  const auto& view = links;
  for (auto it = view.begin(); it != view.end(); ++it) {
    sum = 10 * sum + it->getWeight();
  }
  std::printf("%f\n", sum);
  return sum == 123.f ? 0 : 1;
}
'''
