// the distribution classes live in the header: use them so that their bodies are dumped
#include "random_number_generator.h"
#include "random_number_generator.cc"
namespace cyclus {
double touch_distributions() {
  FixedDoubleDist a(1);
  UniformDoubleDist b(0, 1);
  NormalDoubleDist c(0, 1, 0, 1);
  FixedIntDist d(1);
  UniformIntDist e(0, 1);
  NormalIntDist f(0, 1, 0, 1);
  BinomialIntDist g(1, 0.5);
  NegativeBinomialIntDist h(1, 0.5);
  PoissonIntDist i(1);
  ExponentialIntDist j(1);
  BinaryIntDist k(0.5, 1, 2);
  return a.sample() + a.max() + b.sample() + b.max() + c.sample() + c.max() + d.sample() + e.sample() + e.max() + f.sample() + f.max() + g.sample() + g.trials() + g.p() + h.sample() + h.successes() + h.p() + i.sample() + i.mean() + j.sample() + j.lambda() + k.sample() + k.p();
}
}
