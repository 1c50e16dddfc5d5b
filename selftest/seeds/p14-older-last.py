PROPERTY = "P14"
EDITS = [("src/CollectionBufferFactory.cc",
          "    if (prevSize < version) {\n",
          "    if (prevSize != version) {\n")]
NEEDS = "a creation function is registered for an older version after the one for the current version"
BREAKS = "all versions after the older one have no buffers any more"
DEMO = r'''
#include "podio/CollectionBufferFactory.h"
#include "podio/CollectionBuffers.h"
#include <cstdio>

int main() {
  auto& f = podio::CollectionBufferFactory::mutInstance();
  auto make = [](unsigned v) {
    return [v](bool) {
      podio::CollectionReadBuffers b;
      b.schemaVersion = v;
      return b;
    };
  };
  f.registerCreationFunc("Some", 4, make(4));
  f.registerCreationFunc("Some", 2, make(2));
  int bad = 0;
  const unsigned expected[] = {4, 2, 4, 4};
  for (unsigned v = 1; v <= 4; ++v) {
    auto b = f.createBuffers("Some", v, false);
    const unsigned got = b ? b->schemaVersion : 0;
    std::printf("%u %u\n", v, got);
    bad += got != expected[v - 1];
  }
  return bad ? 1 : 0;
}
'''
