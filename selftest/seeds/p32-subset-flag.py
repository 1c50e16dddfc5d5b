PROPERTY = "P32"
EDITS = [("include/podio/detail/LinkCollectionImpl.h",
          "    if (!m_storage.entries.empty()) {\n      throw std::logic_error(\"Cannot change",
          "    m_isSubsetColl = setSubset;\n    if (!m_storage.entries.empty()) {\n      throw std::logic_error(\"Cannot change"),
         ("include/podio/detail/LinkCollectionImpl.h", "    m_isSubsetColl = setSubset;\n    m_isPrepared = false;\n", "    m_isPrepared = false;\n")]
NEEDS = "declaring a filled link collection a subset collection, and using it after the exception"
BREAKS = "the collection counts as a subset collection although the change was refused"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include "podio/LinkCollection.h"
#include <cstdio>
#include <stdexcept>

int main() {
  podio::LinkCollection<ExampleHit, ExampleCluster> links;
  links.create();
  bool thrown = false;
  try {
    links.setSubsetCollection();
  } catch (const std::logic_error&) {
    thrown = true;
  }
  const bool ok = thrown && !links.isSubsetCollection() && links.size() == 1;
  std::printf("%s\n", ok ? "ok" : "refused, but is a subset collection");
  return ok ? 0 : 1;
}
'''
