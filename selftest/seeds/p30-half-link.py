PROPERTY = "P30"
EDITS = [("include/podio/detail/Link.h",
          "        tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);\n      }\n      if (m_obj->m_to) {\n        tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);\n      }\n",
          "        tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);\n        if (m_obj->m_to) {\n          tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);\n        }\n      }\n")]
NEEDS = "a link is cloned of which only the To end is set"
BREAKS = "the clone of a link without a From end loses its To end"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
#include "podio/LinkCollection.h"

int main() {
  ExampleClusterCollection clusters;
  auto c = clusters.create();
  podio::MutableLink<ExampleHit, ExampleCluster> link;
  link.setTo(c);
  const auto copy = link.clone();
  return copy.getTo() == c && !copy.getFrom().isAvailable() ? 0 : 1;
}
'''
