PROPERTY = "C03"
NEEDS = "two compositions whose relative difference is above the threshold seen from one side and below it seen from the other"
BREAKS = "approximate equality is no longer symmetric"
EDITS = [("src/comp_math.cc", """    } else if (std::abs(diff) > std::abs(minuend)*threshold ||
               std::abs(diff) > std::abs(subtrahend)*threshold) {
""", """    } else if (std::abs(diff) > std::abs(subtrahend)*threshold) {
""")]
DEMO = r"""
int main() {
  CompMap a, b;
  a[922350000] = 1.0; b[922350000] = 1.15;
  for (double t = 0.05; t < 0.2; t += 0.001) EXPECT(compmath::AlmostEq(a, b, t) == compmath::AlmostEq(b, a, t));
  return bad ? 1 : 0;
}
"""
