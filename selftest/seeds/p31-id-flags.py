PROPERTY = "P31"
EDITS = [("include/podio/ObjectID.h", "  os.flags(oldFlags);\n  return os << \"|\" << id.index;\n",
          "  os << std::dec;\n  return os << \"|\" << id.index;\n")]
NEEDS = "an ID is printed in a stream that shows numbers in another base"
BREAKS = "printing an ID changes the base in which the stream shows numbers"
DEMO = r'''
#include "podio/ObjectID.h"
#include <iostream>
#include <sstream>

int main() {
  std::ostringstream out;
  out << podio::ObjectID{3, 5};
  if (out.str().find("5|3") == std::string::npos) {
    return 1;
  }
  std::ostringstream hex;
  hex << std::hex;
  const auto flags = hex.flags();
  hex << podio::ObjectID{3, 5};
  return hex.flags() == flags ? 0 : 1;
}
'''
