PROPERTY = "C13"
NEEDS = "a material with U-235 but no U-238"
BREAKS = "the mass assay of uranium that is all U-235 is reported as zero"
EDITS = [("src/toolkit/enrichment.cc", """                          << u235 << " with u238 mass fraction: "
                          << u238;

  if (u235 + u238 > 0) {""", """                          << u235 << " with u238 mass fraction: "
                          << u238;

  if (u235 > 0 && u238 > 0) {""")]
DEMO = r"""
#include "toolkit/enrichment.h"
#include "composition.h"
int main() {
  CompMap m;
  m[922350000] = 2; m[80160000] = 1;
  Material::Ptr x = Material::CreateUntracked(3, Composition::CreateFromMass(m));
  EXPECT(toolkit::UraniumAssayMass(x) == 1);
  return bad ? 1 : 0;
}
"""
