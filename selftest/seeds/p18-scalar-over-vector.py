PROPERTY = "P18"
EDITS = [("include/podio/GenericParameters.h",
          "    // Wrap the value into a vector with exactly one entry and store that\n    std::vector<T> v = {std::move(value)};\n    std::lock_guard lock{mtx};\n    map.insert_or_assign(key, std::move(v));",
          "    std::lock_guard lock{mtx};\n    // Reuse the vector if there is one already\n    auto& v = map[key];\n    if (v.empty()) {\n      v.emplace_back(std::move(value));\n    } else {\n      v[0] = std::move(value);\n    }")]
NEEDS = "a single value that is set under a key that held several values before, and is then read as a vector"
BREAKS = "setting a single value keeps the other values of a vector that was set earlier under the same name"
DEMO = r'''
#include "podio/GenericParameters.h"
#include <cstdio>
#include <vector>
int main() {
  podio::GenericParameters p;
  p.set("a", std::vector<int>{1, 2, 3});
  p.set("a", 7);
  const auto one = p.get<int>("a");
  const auto all = p.get<std::vector<int>>("a");
  const bool ok = one && *one == 7 && all && *all == std::vector<int>{7} && p.getN<int>("a") == 1;
  std::printf("%s\n", ok ? "ok" : "stale values");
  return ok ? 0 : 1;
}
'''
