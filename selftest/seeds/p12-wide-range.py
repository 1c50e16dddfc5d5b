PROPERTY = "P12"
EDITS = [("include/podio/RelationRange.h",
          "  constexpr size_t size() const {\n    return m_size;",
          "  constexpr size_t size() const {\n    return static_cast<unsigned short>(m_size);")]
NEEDS = "an object with at least 65536 related objects"
BREAKS = "the size of a range does not agree with its elements"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include <cstdio>

int main() {
  ExampleHitCollection hits;
  auto h = hits.create();
  ExampleClusterCollection clusters;
  auto c = clusters.create();
  const std::size_t n = 65537;
  for (std::size_t i = 0; i < n; ++i) {
    c.addHits(h);
  }
  const auto range = c.Hits();
  std::printf("%zu\n", range.size());
  return range.size() == n ? 0 : 1;
}
'''
