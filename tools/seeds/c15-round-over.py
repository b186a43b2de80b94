PROPERTY = "C15"
NEEDS = "a normal draw between half and one above the upper bound"
BREAKS = "the bounds of an integer normal draw are tested before rounding, so the result can be one above the upper bound"
EDITS = [("src/random_number_generator.cc", """        double val = rn();
        while (val < low || val > high){
            val = rn();
        }
        int rounded_val = std::lrint(val);""", """        double val = rn();
        while (val < low || std::floor(val) > high){
            val = rn();
        }
        int rounded_val = std::lrint(val);""")]
DEMO = r"""
#include "random_number_generator.h"
int main() {
  RandomNumberGenerator g;
  SimInfo si(5);
  si.seed = 7;
  g.Initialize(si);
  for (int i = 0; i < 5000; i++) { int x = g.random_normal_int(4, 2, 0, 5); if (x < 0 || x > 5) bad++; }
  EXPECT(bad == 0);
  return bad ? 1 : 0;
}
"""
