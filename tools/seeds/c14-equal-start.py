PROPERTY = "C14"
NEEDS = "a piece appended at exactly the start of the last piece"
BREAKS = "a piece with the same start as the last one is accepted and replaces it"
EDITS = [("src/toolkit/symbolic_function_factories.cc", "    if (starting_coord <= last.xoffset) {", "    if (starting_coord < last.xoffset) {")]
DEMO = r"""
#include "toolkit/symbolic_function_factories.h"
#include "error.h"
int main() {
  toolkit::PiecewiseFunctionFactory f;
  f.AddFunction(toolkit::SymFunction::Ptr(new toolkit::LinearFunction(1, 2)), 3, false);
  bool refused = false;
  try { f.AddFunction(toolkit::SymFunction::Ptr(new toolkit::LinearFunction(5, 9)), 3, false); } catch (Error&) { refused = true; }
  EXPECT(refused);
  EXPECT(f.GetFunctionPtr()->value(3) == 2);
  return bad ? 1 : 0;
}
"""
