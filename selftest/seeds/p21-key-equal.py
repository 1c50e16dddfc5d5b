PROPERTY = "P21"
EDITS = [("include/podio/detail/OrderKey.h",
          "    return std::less<const void*>{}(lhs.m_orderKey, rhs.m_orderKey);\n",
          "    return std::less_equal<const void*>{}(lhs.m_orderKey, rhs.m_orderKey);\n")]
NEEDS = "an object is ordered against itself (a container of interfaces is asked for an object that it has)"
BREAKS = "the ordering of interfaces is not a strict weak ordering any more: an object is ordered before itself"
DEMO = r'''
#include "datamodel/ExampleHitCollection.h"
#include "datamodel/TypeWithEnergy.h"

int main() {
  ExampleHitCollection hits;
  auto h = hits.create();
  TypeWithEnergy a{h}, b{h};

  return !(a < b) && !(b < a) ? 0 : 1;
}
'''
