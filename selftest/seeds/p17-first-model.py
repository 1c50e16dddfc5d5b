PROPERTY = "P17"
EDITS = [("src/DatamodelRegistryIOHelpers.cc", "    if (edmIndex != DatamodelRegistry::NoDefinitionNecessary) {",
          "    if (edmIndex + 1 > 1) {")]
NEEDS = "a file with collections of the data model that was registered first (index 0)"
BREAKS = "index 0 is taken for a missing definition, so the definition of the first model is not written"
DEMO = r'''
#include "podio/DatamodelRegistry.h"
#include "podio/UserDataCollection.h"
#include "podio/utilities/DatamodelRegistryIOHelpers.h"
#include "datamodel/ExampleHitCollection.h"
#include "datamodel/DatamodelDefinition.h"

int main() {
  ExampleHitCollection hits;
  podio::UserDataCollection<float> floats;
  podio::DatamodelDefinitionCollector c;
  c.registerDatamodelDefinition(&hits, "hits");
  c.registerDatamodelDefinition(&floats, "floats");
  const auto defs = c.getDatamodelDefinitionsToWrite();
  return defs.size() == 1 && std::get<0>(defs[0]) == "datamodel" ? 0 : 1;
}
'''
