PROPERTY = "P33"
EDITS = [("python/templates/Collection.cc.jinja2",
          "void {{ collection_type }}::clear() {\n  m_storage.clear(m_isSubsetColl);\n  m_isPrepared = false;\n}",
          "void {{ collection_type }}::clear() {\n  // an empty collection has nothing to write\n"
          "  if (!m_storage.entries.empty()) {\n    m_storage.clear(m_isSubsetColl);\n    m_isPrepared = m_isSubsetColl;\n  }\n}")]
NEEDS = "a subset collection that is prepared for writing, cleared, filled again and prepared again"
BREAKS = "a cleared subset collection stays prepared, so what is filled in afterwards is never written"
DEMO = r'''
#include "datamodel/ExampleHitCollection.h"
#include <cstdio>
int main() {
  ExampleHitCollection hits;
  for (int i = 0; i < 4; ++i) {
    hits.create();
  }
  hits.setID(17);
  ExampleHitCollection sub;
  sub.setSubsetCollection();
  sub.push_back(hits[1]);
  sub.prepareForWrite();
  sub.clear();
  sub.push_back(hits[2]);
  sub.push_back(hits[3]);
  sub.prepareForWrite();
  auto buffers = sub.getBuffers();
  const auto& refs = *(*buffers.references)[0];
  const bool ok = refs.size() == 2 && refs[0].index == 2 && refs[1].index == 3;
  std::printf("%s: %zu references\n", ok ? "ok" : "wrong", refs.size());
  return ok ? 0 : 1;
}
'''
