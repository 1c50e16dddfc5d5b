PROPERTY = "P02"
EDITS = [("include/podio/detail/Link.h",
          "    return std::hash<typename podio::LinkT<FromT, ToT, Mutable>::LinkObjT*>{}(obj.m_obj.get());",
          "    const auto* ptr = obj.m_obj.get();\n    const auto base = std::hash<const void*>{}(ptr);\n    return ptr && ptr->id.index >= 0 ? base ^ static_cast<std::size_t>(ptr->id.index + 1) : base;")]
NEEDS = "a link is put into a hash table before it is added to a collection, and looked up afterwards"
BREAKS = "the hash of a link handle depends on whether and where the link is stored in a collection"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include "podio/LinkCollection.h"
#include <unordered_set>
#include <cstdio>

int main() {
  podio::LinkCollection<ExampleHit, ExampleCluster> links;
  std::unordered_set<podio::MutableLink<ExampleHit, ExampleCluster>> known;
  podio::MutableLink<ExampleHit, ExampleCluster> link;
  known.insert(link);
  const auto before = std::hash<podio::MutableLink<ExampleHit, ExampleCluster>>{}(link);
  links.push_back(link);
  const auto after = std::hash<podio::MutableLink<ExampleHit, ExampleCluster>>{}(link);
  const auto stored = std::hash<podio::Link<ExampleHit, ExampleCluster>>{}(std::as_const(links)[0]);
  std::printf("%d %d\n", before == after, after == stored);
  return before == after && after == stored && known.count(link) == 1 ? 0 : 1;
}
'''
