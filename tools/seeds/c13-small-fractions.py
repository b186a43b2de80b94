PROPERTY = "C13"
NEEDS = "an assay below the numerical tolerance (1e-6), such as very depleted tails"
BREAKS = "the value of a very small assay is taken as zero, so the separative work is off"
EDITS = [("src/toolkit/enrichment.cc", """  if (frac >= 1) {
    std::stringstream msg;""", """  if (frac > 0 && frac < eps()) {
    return 0;
  }

  if (frac >= 1) {
    std::stringstream msg;""")]
DEMO = r"""
#include "toolkit/enrichment.h"
#include <cmath>
int main() {
  for (int k = 1; k < 12; ++k) {
    double x = std::pow(10.0, -k);
    double e = (1 - 2 * x) * std::log(1 / x - 1);
    EXPECT(std::fabs(toolkit::ValueFunc(x) - e) < 1e-9 * std::fabs(e) + 1e-12);
  }
  return bad ? 1 : 0;
}
"""
