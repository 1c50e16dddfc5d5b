PROPERTY = "P08"
EDITS = [("python/templates/Collection.h.jinja2",
          "    m_collectionID = ID;\n    if (!m_isSubsetColl) {",
          "    const bool first = !hasID();\n    m_collectionID = ID;\n    if (!m_isSubsetColl || first) {")]
NEEDS = "a subset collection that gets its ID (is put into a frame) after it was filled"
BREAKS = "assigning the first ID to a subset collection overwrites the collection ID of the referenced objects"
DEMO = r'''
#include "datamodel/ExampleHitCollection.h"
#include "podio/Frame.h"
#include <cstdio>
int main() {
  podio::Frame frame;
  ExampleHitCollection hits;
  hits.create();
  hits.create();
  const auto& stored = frame.put(std::move(hits), "hits");
  ExampleHitCollection sub;
  sub.setSubsetCollection();
  sub.push_back(stored[1]);
  frame.put(std::move(sub), "sub");
  const bool ok = stored[1].id().collectionID == stored.getID() && stored[1].id().index == 1;
  std::printf("%s\n", ok ? "ok" : "the object lost its identity");
  return ok ? 0 : 1;
}
'''
