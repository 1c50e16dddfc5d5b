PROPERTY = "P13"
EDITS = [("python/templates/Collection.cc.jinja2",
          "  m_storage.prepareForWrite(m_isSubsetColl);\n  m_isPrepared = true;\n}",
          "  m_isPrepared = true;\n  m_storage.prepareForWrite(m_isSubsetColl);\n}")]
NEEDS = "preparing that fails because of a relation to an untracked object, and is repeated after the relation became valid"
BREAKS = "after a failed attempt the collection counts as prepared, the second attempt does nothing and incomplete buffers are written"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include <cstdio>
#include <stdexcept>
int main() {
  ExampleHitCollection hits;
  MutableExampleHit hit;
  ExampleClusterCollection clusters;
  auto c = clusters.create();
  c.addHits(hit);
  hits.setID(3);
  try {
    clusters.prepareForWrite();
    return 2;
  } catch (const std::runtime_error&) {
  }
  hits.push_back(hit);
  clusters.prepareForWrite();
  auto b = clusters.getBuffers();
  const auto& refs = *(*b.references)[0];
  const bool ok = refs.size() == 1 && refs[0].index == 0 && refs[0].collectionID == 3;
  std::printf("%s: %zu\n", ok ? "ok" : "relation missing", refs.size());
  return ok ? 0 : 1;
}
'''
