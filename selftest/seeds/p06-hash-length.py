PROPERTY = "P06"
EDITS = [("src/CollectionIDTable.cc",
          "  const auto result = std::ranges::find(m_names, name);\n  uint32_t ID = 0;\n  if (result == m_names.end()) {\n    m_names.emplace_back(name);\n    MurmurHash3_x86_32(name.c_str(), name.size(), 0, &ID);",
          "  const auto result = std::ranges::find(m_names, name);\n  uint32_t ID = 0;\n  if (result == m_names.end()) {\n    // names in the same table differ, take their position as seed\n    const auto seed = static_cast<uint32_t>(m_names.size() >> 3);\n    m_names.emplace_back(name);\n    MurmurHash3_x86_32(name.c_str(), name.size(), seed, &ID);")]
NEEDS = "a table with more than eight entries, compared with another one that has the entry at another position"
BREAKS = "the ID of a name depends on how many names the table held before"
DEMO = r'''
#include "podio/CollectionIDTable.h"
#include <cstdio>
#include <string>
int main() {
  podio::CollectionIDTable a, b;
  for (int i = 0; i < 20; ++i) {
    a.add("coll_" + std::to_string(i));
  }
  for (int i = 19; i >= 0; --i) {
    b.add("coll_" + std::to_string(i));
  }
  for (int i = 0; i < 20; ++i) {
    const auto n = "coll_" + std::to_string(i);
    if (a.collectionID(n) != b.collectionID(n)) {
      std::printf("%s has different IDs\n", n.c_str());
      return 1;
    }
  }
  return 0;
}
'''
