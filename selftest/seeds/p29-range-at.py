PROPERTY = "P29"
EDITS = [("include/podio/RelationRange.h",
          "      m_begin(begin), m_end(end), m_size(std::distance(m_begin, m_end)) {",
          "      m_begin(begin), m_end(end), m_size(static_cast<unsigned short>(std::distance(m_begin, m_end))) {")]
NEEDS = "an object has more than 65535 related objects"
BREAKS = "size and at of the range of related objects disagree with iteration"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include <cstdio>

int main() {
  ExampleHitCollection hits;
  ExampleClusterCollection clusters;
  auto c = clusters.create();
  auto h = hits.create();
  for (int i = 0; i < 66000; ++i) {
    c.addHits(h);
  }
  unsigned n = 0;
  for (auto x : c.Hits()) {
    n += x == h;
  }
  std::printf("%u %zu\n", n, c.Hits().size());
  return n == c.Hits().size() ? 0 : 1;
}
'''
