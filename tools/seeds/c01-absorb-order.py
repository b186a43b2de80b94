PROPERTY = "C01"
NEEDS = "absorbing a product of another quality, catching the refusal, and looking at the quantities afterwards"
BREAKS = "a refused Product::Absorb has already taken the other product's quantity"
EDITS = [("src/product.cc", """  if (other->quality() != quality()) {
    throw ValueError("incompatible resource types.");
  }
  quantity_ += other->quantity();
""", """  quantity_ += other->quantity();
  if (other->quality() != quality()) {
    throw ValueError("incompatible resource types.");
  }
""")]
DEMO = r"""
int main() {
  Product::Ptr a = Product::CreateUntracked(3, "bananas"), b = Product::CreateUntracked(4, "oranges");
  bool refused = false;
  try { a->Absorb(b); } catch (ValueError& e) { refused = true; }
  EXPECT(refused);
  EXPECT(a->quantity() == 3);
  EXPECT(b->quantity() == 4);
  return bad ? 1 : 0;
}
"""
