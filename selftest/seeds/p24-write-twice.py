PROPERTY = "P24"
EDITS = [("include/podio/UserDataCollection.h",
          "    _vecPtr = &_vec; // Set the pointer to the correct internal vector\n",
          "    if (!_vecPtr) {\n      _vecPtr = &_vec; // Set the pointer to the internal vector\n    }\n")]
NEEDS = "a collection that was written (or put into a frame that was written), moved, and written again"
BREAKS = "the write buffers of a moved collection refer to the values of the collection it was moved from"
DEMO = r'''
#include "podio/UserDataCollection.h"
#include <cstdio>
#include <memory>

int main() {
  auto first = std::make_unique<podio::UserDataCollection<float>>();
  first->push_back(1.f);
  first->push_back(2.f);
  (void)first->getBuffers();
  podio::UserDataCollection<float> second(std::move(*first));
  auto buffers = second.getBuffers();
  const auto* vec = *static_cast<std::vector<float>**>(buffers.data);
  std::printf("%d\n", static_cast<int>(vec == &second.vec()));
  return vec == &second.vec() ? 0 : 1;
}
'''
