PROPERTY = "P31"
EDITS = [("src/GenericParameters.cc", "    for (size_t i = 1; i < values.size(); ++i) {\n      os << \", \" << values[i];\n",
          "    for (unsigned char i = 1; i != static_cast<unsigned char>(values.size()); ++i) {\n      os << \", \" << values[i];\n")]
NEEDS = "a parameter with more than 255 values"
BREAKS = "only some of the values of a long parameter are printed"
DEMO = r'''
#include "podio/GenericParameters.h"
#include <sstream>
#include <numeric>

int main() {
  for (int n : {1, 3, 300}) {
    podio::GenericParameters params;
    std::vector<int> values(n);
    std::iota(values.begin(), values.end(), 1000);
    params.set("key", values);
    std::ostringstream out;
    params.print(out);
    for (int v : values) {
      if (out.str().find(std::to_string(v)) == std::string::npos) {
        return 1;
      }
    }
  }
  return 0;
}
'''
