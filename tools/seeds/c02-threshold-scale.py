PROPERTY = "C02"
NEEDS = "an extraction by composition from a large quantity that leaves a nuclide with little more than the threshold"
BREAKS = "the threshold is scaled by the quantity, so nuclides well above the stated threshold are dropped"
EDITS = [("src/material.cc", "    compmath::ApplyThreshold(&newv, threshold);", "    compmath::ApplyThreshold(&newv, threshold * std::max(1.0, qty_));")]
DEMO = r"""
int main() {
  CompMap u, o;
  u[922350000] = 1; u[922380000] = 999;
  o[922380000] = 1;
  Material::Ptr a = Material::CreateUntracked(1000, Composition::CreateFromMass(u));
  a->ExtractComp(900, Composition::CreateFromMass(o), 0.01);
  CompMap m = a->comp()->mass();
  compmath::Normalize(&m, a->quantity());
  EXPECT(near(m[922350000], 1));
  EXPECT(near(m[922380000], 99));
  return bad ? 1 : 0;
}
"""
