PROPERTY = "P04"
EDITS = [("include/podio/Frame.h",
          "  std::lock_guard dataLock{*m_dataMtx};\n",
          "  std::unique_lock dataLock{*m_dataMtx};\n"),
         ("include/podio/Frame.h",
          "      // The collection is in the map already, so requests for it that happen\n",
          "      dataLock.unlock();\n      // The collection is in the map already, so requests for it that happen\n")]
NEEDS = "a second thread that requests a collection while the first one connects its relations"
BREAKS = "a collection can be obtained before its relations are set"
DEMO = r'''
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleWithOneRelationCollection.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/Frame.h"
#include <atomic>
#include <cstdio>
#include <memory>
#include <thread>

constexpr std::size_t N = 300000;

struct Data {
  podio::CollectionIDTable table;
  std::atomic<bool>* started;
  Data(std::atomic<bool>* s) : started(s) {
    table.add("one");
    table.add("clusters");
  }
  podio::CollectionIDTable getIDTable() {
    return {table.ids(), table.names()};
  }
  std::vector<std::string> getAvailableCollections() {
    return {"one", "clusters"};
  }
  std::unique_ptr<podio::GenericParameters> getParameters() {
    return std::make_unique<podio::GenericParameters>();
  }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& name) {
    auto& f = podio::CollectionBufferFactory::instance();
    if (name == "one") {
      *started = true;
      auto b = f.createBuffers("ExampleWithOneRelationCollection", 2, false);
      b->dataAsVector<ExampleWithOneRelationData>()->resize(N);
      for (std::size_t i = 0; i < N; ++i) {
        (*b->references)[0]->push_back({0, *table.collectionID("clusters")});
      }
      return b;
    }
    auto b = f.createBuffers("ExampleClusterCollection", 2, false);
    b->dataAsVector<ExampleClusterData>()->resize(1);
    return b;
  }
};

int main() {
  for (int k = 0; k < 10; ++k) {
    std::atomic<bool> started{false};
    podio::Frame frame(std::make_unique<Data>(&started));
    frame.get("clusters");
    std::thread t([&] { frame.get("one"); });
    while (!started) {
      std::this_thread::yield();
    }
    const auto& one = frame.get<ExampleWithOneRelationCollection>("one");
    const bool ok = one.size() == N && one[N - 1].cluster().isAvailable();
    t.join();
    if (!ok) {
      std::printf("seen without its relations\n");
      return 1;
    }
  }
  return 0;
}
'''
