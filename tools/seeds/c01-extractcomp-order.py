PROPERTY = "C01"
NEEDS = "extracting a composition the material does not contain enough of, so that the extraction is refused"
BREAKS = "a refused Material::ExtractComp has already reduced the quantity"
EDITS = [("src/material.cc", """  // TODO: decide if ExtractComp should force lazy-decay by calling comp()
  if (comp_ != c) {
    CompMap v(comp_->mass());
    compmath::Normalize(&v, qty_);
""", """  double before = qty_;
  qty_ -= qty;

  // TODO: decide if ExtractComp should force lazy-decay by calling comp()
  if (comp_ != c) {
    CompMap v(comp_->mass());
    compmath::Normalize(&v, before);
"""), ("src/material.cc", """  qty_ -= qty;
  Material::Ptr other(new Material(ctx_, qty, c, Package::unpackaged_name()));
""", """  Material::Ptr other(new Material(ctx_, qty, c, Package::unpackaged_name()));
""")]
DEMO = r"""
int main() {
  CompMap u, o;
  u[922350000] = 1; u[922380000] = 9;
  o[80160000] = 1;
  Material::Ptr m = Material::CreateUntracked(10, Composition::CreateFromMass(u));
  bool refused = false;
  try { m->ExtractComp(4, Composition::CreateFromMass(o)); } catch (ValueError& e) { refused = true; }
  EXPECT(refused);
  EXPECT(m->quantity() == 10);
  return bad ? 1 : 0;
}
"""
