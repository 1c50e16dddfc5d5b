PROPERTY = "P31"
EDITS = [("include/podio/UserDataCollection.h", "      os << _vec[0];\n      for (size_t i = 1; i < _vec.size(); ++i) {\n        os << \", \" << _vec[i];\n      }\n",
          "      os << _vec[0];\n      for (size_t i = 1; i < _vec.size(); ++i) {\n        if (_vec.size() > 1000 && i >= 500 && i < _vec.size() - 500) {\n          continue;\n        }\n        os << \", \" << _vec[i];\n      }\n")]
NEEDS = "a user data collection with more than 1000 values"
BREAKS = "the values in the middle of a long user data collection are not printed"
DEMO = r'''
#include "podio/UserDataCollection.h"
#include <sstream>

int main() {
  for (int n : {0, 1, 5, 5000}) {
    podio::UserDataCollection<int> coll;
    for (int i = 0; i < n; ++i) {
      coll.push_back(10000 + i);
    }
    std::ostringstream out;
    coll.print(out);
    for (int i = 0; i < n; ++i) {
      if (out.str().find(std::to_string(10000 + i)) == std::string::npos) {
        return 1;
      }
    }
  }
  return 0;
}
'''
