PROPERTY = "P26"
EDITS = [("include/podio/utilities/MaybeSharedPtr.h",
          "    // Increase the reference count if there is a control block\n    m_ctrlBlock && m_ctrlBlock->count++;\n",
          "    // Increase the reference count as long as the object is ours\n    m_ctrlBlock && m_ctrlBlock->owned && m_ctrlBlock->count++;\n")]
NEEDS = "a handle that is copied after its object has been pushed into a collection"
BREAKS = "the control block is deleted while there are handles that refer to it"
DEMO = r'''
#include "datamodel/ExampleHitCollection.h"
#include "datamodel/MutableExampleHit.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>

// Memory is never given back, so that wrong accesses do no harm. Every block
// has a header that tells whether it was deleted; the content of a deleted
// block looks like a counter that is one.
static long bad = 0;
struct Head {
  std::size_t size;
  std::size_t dead;
};
void* operator new(std::size_t n) {
  auto* h = static_cast<Head*>(std::malloc(sizeof(Head) + n));
  h->size = n;
  h->dead = 0;
  return h + 1;
}
static void drop(void* p) {
  if (!p) {
    return;
  }
  auto* h = static_cast<Head*>(p) - 1;
  if (h->dead) {
    ++bad;
    return;
  }
  h->dead = 1;
  volatile unsigned char* c = static_cast<unsigned char*>(p);
  for (std::size_t i = 0; i < h->size; ++i) {
    c[i] = i == 0;
  }
}
void operator delete(void* p) noexcept {
  drop(p);
}
void operator delete(void* p, std::size_t) noexcept {
  drop(p);
}

int main() {
  {
    ExampleHitCollection hits;
    MutableExampleHit hit;
    hits.push_back(hit);
    MutableExampleHit copy = hit;
    MutableExampleHit other = copy;
    if (other.id() != hits[0].id()) {
      ++bad;
    }
  }
  std::printf("%s\n", bad ? "ownership is wrong" : "ok");
  return bad ? 1 : 0;
}
'''
