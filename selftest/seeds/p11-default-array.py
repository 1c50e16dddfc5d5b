PROPERTY = "P11"
EDITS = [("python/podio_gen/generator_utils.py",
          "            scoped_type = self.full_type\n\n        if self.default_val:\n            definition = rf",
          "            scoped_type = self.full_type\n\n        if self.default_val and (not self.is_array or self.default_val.count(\",\") + 1 == int(self.array_size)):\n            definition = rf")]
NEEDS = "an array member with initial values for only its first elements"
BREAKS = "array members with fewer initial values than elements start as zeros"
DEMO = r'''
#include "datamodel/CompWithInit.h"
#include "datamodel/ExampleWithFixedWidthIntegersCollection.h"

int main() {
  CompWithInit c;
  return c.i == 42 && c.arr[0] == 1.2 && c.arr[1] == 3.4 && c.arr[2] == 0 ? 0 : 1;
}
'''
