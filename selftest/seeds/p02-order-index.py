PROPERTY = "P02"
EDITS = [("include/podio/detail/Link.h",
          "    return m_obj < other.m_obj;",
          "    const auto mine = getObjectID();\n    const auto others = other.getObjectID();\n    if (mine.index >= 0 && others.index >= 0) {\n      return mine.index < others.index;\n    }\n    return m_obj < other.m_obj;")]
NEEDS = "links of two collections at the same position are compared or put into an ordered set"
BREAKS = "different links are equivalent with respect to the ordering if they are at the same position of their collections"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include "podio/LinkCollection.h"
#include <cstdio>
#include <set>

int main() {
  podio::LinkCollection<ExampleHit, ExampleCluster> a, b;
  for (int i = 0; i < 3; ++i) {
    a.create();
    b.create();
  }
  const auto& ca = a;
  const auto& cb = b;
  std::set<podio::Link<ExampleHit, ExampleCluster>> all;
  for (auto l : ca) {
    all.insert(l);
  }
  for (auto l : cb) {
    all.insert(l);
  }
  std::printf("%zu\n", all.size());
  return all.size() == 6 ? 0 : 1;
}
'''
