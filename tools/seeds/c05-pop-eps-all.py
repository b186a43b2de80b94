PROPERTY = "C05"
NEEDS = "popping a quantity a little below what the buffer holds with a non-zero tolerance"
BREAKS = "Pop(qty, eps) empties the buffer when qty is within eps below the contents instead of returning exactly qty"
EDITS = [("src/toolkit/res_buf.h", """    if (qty >= this->quantity()) {
      return Squash(PopN(count()));""", """    if (qty >= this->quantity() - eps) {
      return Squash(PopN(count()));""")]
DEMO = r"""
#include "toolkit/res_buf.h"
int main() {
  toolkit::ResBuf<Product> b;
  b.Push(Product::CreateUntracked(3, "a"));
  b.Push(Product::CreateUntracked(4, "a"));
  Product::Ptr p = b.Pop(6.9, 0.5);
  EXPECT(p->quantity() > 6.89 && p->quantity() < 6.91);
  EXPECT(b.count() == 1);
  return bad ? 1 : 0;
}
"""
