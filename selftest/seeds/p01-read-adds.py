PROPERTY = "P01"
EDITS = [("include/podio/Frame.h",
          "  inline auto getParameter(const std::string& key) const {\n    return m_self->parameters().get<T>(key);",
          "  inline auto getParameter(const std::string& key) const {\n    auto& parameters = m_self->parameters();\n    auto value = parameters.get<T>(key);\n    if constexpr (detail::isVector<T>) {\n      if (!value) {\n        parameters.set(key, T{});\n      }\n    }\n    return value;")]
NEEDS = "a vector parameter that does not exist is asked for, and the parameters of the (constant) frame are looked at later"
BREAKS = "asking a constant frame for a vector parameter adds an empty parameter to it"
DEMO = r'''
#include "podio/Frame.h"

int main() {
  podio::Frame frame;
  frame.putParameter("a", 1);
  const podio::Frame& cframe = frame;
  const auto missing = cframe.getParameter<std::vector<int>>("b");
  const auto again = cframe.getParameter<std::vector<int>>("b");
  return !missing && !again && cframe.getParameterKeys<int>().size() == 1 ? 0 : 1;
}
'''
