PROPERTY = "P14"
EDITS = [("include/podio/CollectionBuffers.h",
          "      schemaVersion = other.schemaVersion;\n      type = other.type;\n",
          "      if (!deleteBuffers) {\n        schemaVersion = other.schemaVersion;\n      }\n      type = other.type;\n")]
NEEDS = "buffers are move assigned over others that own their data"
BREAKS = "the assigned buffers carry the version of the replaced ones, so that they are converted from the wrong version"
DEMO = r'''
#include "podio/CollectionBuffers.h"
#include <cstdio>
#include <vector>

podio::CollectionReadBuffers make(unsigned v) {
  podio::CollectionReadBuffers b;
  b.data = new std::vector<int>(3);
  b.schemaVersion = v;
  b.deleteBuffers = [](podio::CollectionReadBuffers& x) {
    delete static_cast<std::vector<int>*>(x.data);
    x.data = nullptr;
  };
  return b;
}

int main() {
  auto a = make(1);
  a = make(2);
  std::printf("%u\n", (unsigned)a.schemaVersion);
  return a.schemaVersion == 2 ? 0 : 1;
}
'''
