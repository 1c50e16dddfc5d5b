PROPERTY = "P17"
EDITS = [("src/DatamodelRegistry.cc", "  auto index = registerDatamodel(name, definition, relationNames);",
          "  auto index = registerDatamodel(std::move(name), definition, relationNames);")]
NEEDS = "a data model that is registered with a version, and a look-up of this version by the name of the model"
BREAKS = "the name was already moved away when the version is stored, so it is stored under the empty name"
DEMO = r'''
#include "podio/DatamodelRegistry.h"

int main() {
  auto& reg = podio::DatamodelRegistry::mutInstance();
  static const podio::RelationNameMapping none{};
  const auto a = reg.registerDatamodel("a_data_model_with_a_long_name", "{}", none, podio::version::Version{1, 2, 3});
  const auto b = reg.registerDatamodel("another_data_model_with_a_long_name", "{}", none, podio::version::Version{4, 5, 6});
  const auto va = reg.getDatamodelVersion(reg.getDatamodelName(a));
  const auto vb = reg.getDatamodelVersion(reg.getDatamodelName(b));
  return va && vb && *va == podio::version::Version{1, 2, 3} && *vb == podio::version::Version{4, 5, 6} ? 0 : 1;
}
'''
