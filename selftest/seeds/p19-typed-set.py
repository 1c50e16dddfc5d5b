PROPERTY = "P19"
EDITS = [("include/podio/detail/Link.h",
          "    setTo(ToT(value));\n",
          "    if (!m_obj->m_to || !m_obj->m_to->template isA<detail::GetDefaultHandleType<ToU>>()) {\n      setTo(ToT(value));\n    }\n")]
NEEDS = "the to end of a link with an interface type is replaced by another object of the same type"
BREAKS = "the old to object stays in the link"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include "datamodel/TypeWithEnergy.h"
#include "podio/LinkCollection.h"
#include <cstdio>

int main() {
  ExampleHitCollection hits;
  auto h1 = hits.create();
  auto h2 = hits.create();
  ExampleClusterCollection clusters;
  auto c = clusters.create();
  podio::LinkCollection<ExampleCluster, TypeWithEnergy> links;
  auto l = links.create();
  l.setFrom(c);
  l.setTo(h1);
  l.setTo(h2);
  const bool ok = l.getTo() == h2 && l.getFrom() == c;
  std::printf("%s\n", ok ? "ok" : "wrong end");
  return ok ? 0 : 1;
}
'''
