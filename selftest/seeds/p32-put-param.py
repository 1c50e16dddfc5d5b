PROPERTY = "P32"
EDITS = [("include/podio/Frame.h",
          "  return *static_cast<const CollT*>(m_self->put(std::make_unique<CollT>(std::move(coll)), name));",
          "  auto newColl = std::make_unique<CollT>(std::move(coll));\n  m_self->parameters().set(name + \"_size\", static_cast<int>(newColl->size()));\n"
          "  return *static_cast<const CollT*>(m_self->put(std::move(newColl), name));")]
NEEDS = "putting a collection under a name that is in use, and looking at the parameters afterwards"
BREAKS = "a put that is refused has changed the parameters of the frame"
DEMO = r'''
#include "datamodel/ExampleHitCollection.h"
#include "podio/Frame.h"
#include <cstdio>
#include <stdexcept>

int main() {
  podio::Frame frame;
  ExampleHitCollection first;
  first.create();
  frame.put(std::move(first), "hits");
  const auto before = frame.getParameter<int>("hits_size");
  ExampleHitCollection second;
  second.create();
  second.create();
  bool thrown = false;
  try {
    frame.put(std::move(second), "hits");
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  const bool ok = thrown && frame.getParameter<int>("hits_size") == before;
  std::printf("%s\n", ok ? "ok" : "parameters changed");
  return ok ? 0 : 1;
}
'''
