PROPERTY = "P34"
EDITS = [("src/UserDataCollection.cc",
          "                                              podio::userDataCollTypeName<T>(),\n",
          "                                              podio::userDataTypeName<T>(),\n")]
NEEDS = "buffers for a user data collection are read and their type is used (for schema evolution)"
BREAKS = "the buffers carry the name of the basic type instead of that of the collection"
DEMO = r'''
#include "podio/CollectionBufferFactory.h"
#include "podio/CollectionBuffers.h"
#include "podio/UserDataCollection.h"
#include <cstdio>

int main() {
  podio::UserDataCollection<float> f;
  auto b = podio::CollectionBufferFactory::instance().createBuffers(std::string(f.getTypeName()), 1, false);
  if (!b) {
    return 2;
  }
  std::printf("%s\n", std::string(b->type).c_str());
  return b->type == f.getTypeName() ? 0 : 1;
}
'''
