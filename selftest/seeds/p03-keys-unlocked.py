PROPERTY = "P03"
EDITS = [("include/podio/GenericParameters.h",
          "  std::vector<std::string> keys;\n  const auto& map = getMap<T>();\n  {\n    auto& mtx = getMutex<T>();\n    std::lock_guard lock{mtx};\n    keys.reserve(map.size());",
          "  std::vector<std::string> keys;\n  const auto& map = getMap<T>();\n  // allocate before taking the lock\n  keys.reserve(map.size());\n  {\n    auto& mtx = getMutex<T>();\n    std::lock_guard lock{mtx};")]
NEEDS = "one thread that lists the keys while another one sets a parameter"
BREAKS = "the size of the parameter map is read without holding its lock"
FLAGS = "-fsanitize=thread"
DEMO = r'''
#include "podio/GenericParameters.h"
#include <string>
#include <thread>
int main() {
  podio::GenericParameters p;
  std::thread t([&] {
    for (int i = 0; i < 2000; ++i) {
      p.set("key" + std::to_string(i), i);
    }
  });
  std::size_t n = 0;
  for (int i = 0; i < 2000; ++i) {
    n += p.getKeys<int>().size();
  }
  t.join();
  return n == 12345678 ? 1 : 0;
}
'''
