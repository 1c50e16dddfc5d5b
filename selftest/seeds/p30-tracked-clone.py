PROPERTY = "P30"
EDITS = [("include/podio/detail/Link.h",
          "    auto tmp = new LinkObjT(podio::ObjectID{}, m_obj->data);\n",
          "    auto tmp = new LinkObjT(podio::ObjectID{podio::ObjectID::untracked, m_obj->id.collectionID}, m_obj->data);\n    if (m_obj->id.index > 0) {\n      tmp->id = m_obj->id;\n    }\n")]
NEEDS = "a link is cloned that is not the first one of a collection"
BREAKS = "the clone of a tracked link has the ID of the original and can not be added to a collection"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include "podio/LinkCollection.h"
#include <exception>

int main() {
  podio::LinkCollection<ExampleHit, ExampleCluster> links;
  links.create();
  auto l = links.create();
  l.setWeight(3.f);
  auto copy = l.clone();
  if (copy.id().index != podio::ObjectID::untracked) {
    return 1;
  }
  try {
    links.push_back(copy);
  } catch (const std::exception&) {
    return 1;
  }
  return links.size() == 3 && links[2].getWeight() == 3.f ? 0 : 1;
}
'''
