PROPERTY = "P07"
EDITS = [("python/templates/Collection.cc.jinja2",
          "    if (obj->id.index == podio::ObjectID::untracked) {",
          "    // free objects and those whose slot is not in use here yet can be taken\n"
          "    if (obj->id.index < 0 || static_cast<std::size_t>(obj->id.index) > m_storage.entries.size()) {")]
NEEDS = "an object at a high index of one collection that is pushed into another, shorter normal collection"
BREAKS = "a normal collection takes over an object that another collection already owns instead of rejecting it"
DEMO = r'''
#include "datamodel/ExampleHitCollection.h"
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
int main() {
  auto* big = new ExampleHitCollection();
  auto* small = new ExampleHitCollection();
  for (int i = 0; i < 5; ++i) {
    big->create();
  }
  small->create();
  bool rejected = false;
  try {
    small->push_back((*big)[4]);
  } catch (const std::invalid_argument&) {
    rejected = true;
  }
  const bool ok = rejected && small->size() == 1 && (*big)[4].id().index == 4;
  std::printf("%s\n", ok ? "ok" : "object of another collection was accepted");
  std::fflush(stdout);
  std::_Exit(ok ? 0 : 1);
}
'''
