PROPERTY = "P05"
EDITS = [("include/podio/Frame.h",
          "      it->second->setID(m_idTable.add(name));\n",
          "      const auto id = m_idTable.add(name);\n      if (!it->second->hasID()) {\n        it->second->setID(id);\n      }\n")]
NEEDS = "a collection that already has an ID (for example because it was set by hand or it was in another frame) when it is put"
BREAKS = "the collection keeps its old ID, which the ID table of the frame does not know"
DEMO = r'''
#include "datamodel/ExampleHitCollection.h"
#include "podio/Frame.h"
#include <cstdio>
int main() {
  podio::Frame frame;
  ExampleHitCollection hits;
  hits.create();
  hits.setID(42);
  const auto& stored = frame.put(std::move(hits), "hits");
  const auto id = frame.getCollectionIDTableForWrite().collectionID("hits");
  const bool ok = id && stored.getID() == *id && frame.getName(stored) == std::optional<std::string>("hits");
  std::printf("%s\n", ok ? "ok" : "the ID of the table is not used");
  return ok ? 0 : 1;
}
'''
