PROPERTY = "C06"
NEEDS = "an amount that leaves a few per cent of a package over after full packages, below the minimum fill"
BREAKS = "a small remainder is swept into the last package, which then holds more than the maximum fill"
EDITS = [("src/package.cc", """    packages.push_back(qty);
  }
    
""", """    packages.push_back(qty);
  } else if (!packages.empty() && qty < 0.02 * fill_max_) {
    // not worth leaving behind
    packages.back() += qty;
  }
    
""")]
DEMO = r"""
#include "package.h"
int main() {
  Package::Ptr p = Package::Create("p", 4, 10, "first");
  for (int k = 0; k < 300; ++k) {
    double q = 4 + 0.13 * k, s = 0;
    std::vector<double> f = p->GetFillMass(q);
    for (size_t i = 0; i < f.size(); ++i) { s += f[i]; EXPECT(f[i] > 4 - 1e-5 && f[i] < 10 + 1e-5); }
    EXPECT(s < q + 1e-5);
  }
  return bad ? 1 : 0;
}
"""
