PROPERTY = "P04"
EDITS = [("include/podio/Frame.h",
          "      if (buffers->data == nullptr) {\n",
          "      if (buffers->data == nullptr || (buffers->references->empty() && buffers->vectorMembers->empty())) {\n"),
         ("include/podio/Frame.h",
          "        coll = buffers->createCollection(std::move(buffers.value()), true);\n",
          "        const auto isSubset = buffers->data == nullptr;\n        coll = buffers->createCollection(std::move(buffers.value()), isSubset);\n")]
NEEDS = "data of an old schema version of a datatype that has neither relations nor vector members"
BREAKS = "the collection is handed out without having been converted to the current schema"
DEMO = r'''
#include "datamodel/ExampleHitCollection.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/Frame.h"
#include "podio/SchemaEvolution.h"
#include <cstdio>
#include <memory>

struct Data {
  podio::CollectionIDTable table;
  Data() {
    table.add("hits");
  }
  podio::CollectionIDTable getIDTable() {
    return {table.ids(), table.names()};
  }
  std::vector<std::string> getAvailableCollections() {
    return {"hits"};
  }
  std::unique_ptr<podio::GenericParameters> getParameters() {
    return std::make_unique<podio::GenericParameters>();
  }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string&) {
    auto b = podio::CollectionBufferFactory::instance().createBuffers("ExampleHitCollection", 2, false);
    b->schemaVersion = 1;
    b->dataAsVector<ExampleHitData>()->resize(2);
    return b;
  }
};

static int converted = 0;

int main() {
  auto& evo = podio::SchemaEvolution::mutInstance();
  evo.registerEvolutionFunc(
      "ExampleHitCollection", 1, 2,
      [](podio::CollectionReadBuffers b, podio::SchemaVersionT) {
        ++converted;
        return b;
      },
      podio::SchemaEvolution::Priority::UserDefined);
  podio::Frame frame(std::make_unique<Data>());
  const auto& hits = frame.get<ExampleHitCollection>("hits");
  const bool ok = hits.size() == 2 && converted == 1;
  std::printf("%s\n", ok ? "ok" : "not converted");
  return ok ? 0 : 1;
}
'''
