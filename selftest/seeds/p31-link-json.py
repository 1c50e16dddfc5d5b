PROPERTY = "P31"
EDITS = [("include/podio/detail/Link.h", "  j[\"to\"] = nlohmann::json{{\"collectionID\", link.getTo().getObjectID().collectionID},\n",
          "  j[\"to\"] = nlohmann::json{{\"collectionID\", (link.getFrom().isAvailable() ? link.getFrom().getObjectID() : link.getTo().getObjectID()).collectionID},\n")]
NEEDS = "a link between objects of two collections is converted to JSON"
BREAKS = "the JSON of a link shows the collection of the other end"
DEMO = r'''
#define PODIO_JSON_OUTPUT 1
#include <nlohmann/json.hpp>
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include "datamodel/TestLinkCollection.h"
#include <sstream>

int main() {
  auto hits = ExampleHitCollection{};
  auto clusters = ExampleClusterCollection{};
  auto links = TestLinkCollection{};
  hits.setID(3);
  clusters.setID(4);
  auto link = links.create();
  link.setFrom(hits.create());
  link.setTo(clusters.create());
  const nlohmann::json j(links[0]);
  const auto o = j.is_array() ? j[0] : j;
  return o["from"]["collectionID"] == 3 && o["to"]["collectionID"] == 4 ? 0 : 1;
}
'''
