PROPERTY = "C05"
NEEDS = "popping the newest resource off a buffer and pushing the same resource back later"
BREAKS = "the buffer still believes it holds a resource removed with PopBack, so a legitimate push of it is refused as a duplicate"
EDITS = [("src/toolkit/res_buf.h", """    typename T::Ptr r = rs_.back();
    rs_.pop_back();
    rs_present_.erase(r);
""", """    typename T::Ptr r = rs_.back();
    rs_.pop_back();
    if (rs_.empty()) {
      rs_present_.clear();
    }
""")]
DEMO = r"""
#include "toolkit/res_buf.h"
int main() {
  toolkit::ResBuf<Product> b;
  Product::Ptr x = Product::CreateUntracked(3, "a"), y = Product::CreateUntracked(4, "a");
  b.Push(x);
  b.Push(y);
  Product::Ptr z = b.PopBack();
  EXPECT(z == y);
  EXPECT(b.count() == 1 && b.quantity() == 3);
  bool refused = false;
  try { b.Push(z); } catch (Error& e) { refused = true; }
  EXPECT(!refused);
  EXPECT(b.count() == 2 && b.quantity() == 7);
  return bad ? 1 : 0;
}
"""
