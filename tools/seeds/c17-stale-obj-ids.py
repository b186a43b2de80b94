PROPERTY = "C17"
NEEDS = "a store whose object ids are saved, that then loses an entry, and is saved again"
BREAKS = "keys no longer stored keep their old object id among the saved ids"
EDITS = [("src/toolkit/res_map.h", "    obj_ids_.clear();\n    iterator it = resources_.begin();", "    iterator it = resources_.begin();")]
DEMO = r"""
#include "toolkit/res_map.h"
#include "product.h"
int main() {
  toolkit::ResMap<std::string, Product> s;
  s["a"] = Product::CreateUntracked(1, "q");
  s["b"] = Product::CreateUntracked(2, "q");
  EXPECT(s.obj_ids().size() == 2);
  s.Pop("a");
  EXPECT(s.obj_ids().size() == 1);
  EXPECT(s.obj_ids().count("a") == 0);
  return bad ? 1 : 0;
}
"""
