PROPERTY = "C02"
NEEDS = "absorbing into a material whose quantity is exactly zero but whose composition differs"
BREAKS = "a material of zero quantity keeps its stale composition when it absorbs another, so nuclides turn into other nuclides"
EDITS = [("src/material.cc", "  if (c0 != c1) {\n    CompMap v(c0->mass());", "  if (c0 != c1 && qty_ > 0) {\n    CompMap v(c0->mass());")]
DEMO = r"""
int main() {
  CompMap u, o;
  u[922350000] = 1; u[922380000] = 9;
  o[80160000] = 1;
  Material::Ptr a = Material::CreateUntracked(5, Composition::CreateFromMass(u));
  Material::Ptr b = Material::CreateUntracked(7, Composition::CreateFromMass(o));
  a->ExtractQty(5);
  a->Absorb(b);
  CompMap m = a->comp()->mass();
  compmath::Normalize(&m, a->quantity());
  EXPECT(near(a->quantity(), 7));
  EXPECT(near(m[80160000], 7));
  EXPECT(near(m[922380000], 0));
  return bad ? 1 : 0;
}
"""
