PROPERTY = "P31"
EDITS = [("include/podio/detail/LinkCollectionImpl.h", "  o.flags(old_flags);\n  return o;\n",
          "  o.unsetf(std::ios::showpos);\n  o.setf(old_flags & std::ios::floatfield, std::ios::floatfield);\n  return o;\n")]
NEEDS = "a stream that shows the sign of numbers before a collection of links is printed"
BREAKS = "printing a collection of links changes the format flags of the stream"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include "datamodel/TestLinkCollection.h"
#include <sstream>

int main() {
  auto links = TestLinkCollection{};
  auto hits = ExampleHitCollection{};
  auto clusters = ExampleClusterCollection{};
  auto link = links.create();
  link.setFrom(hits.create());
  link.setTo(clusters.create());
  std::ostringstream a, b;
  b << std::showpos;
  const auto fa = a.flags(), fb = b.flags();
  a << links;
  b << links;
  return a.flags() == fa && b.flags() == fb ? 0 : 1;
}
'''
