PROPERTY = "C09"
NEEDS = "a package refused for its limits and then added correctly under the same name, or looked up"
BREAKS = "a refused package still takes its name: looking it up yields nothing instead of a refusal and adding it properly is refused"
EDITS = [("src/context.cc", """    Package::Ptr pkg = Package::Create(name, fill_min, fill_max, strategy);
    packages_[name] = pkg;
    RecordPackage(pkg);
""", """    Package::Ptr& pkg = packages_[name];
    pkg = Package::Create(name, fill_min, fill_max, strategy);
    RecordPackage(pkg);
""")]
DEMO = r"""
#include "package.h"
int main() {
  World w;
  bool refused = false, unknown = false;
  try { w.ctx->AddPackage("box", 3, 2, "first"); } catch (ValueError&) { refused = true; }
  EXPECT(refused);
  try { w.ctx->GetPackage("box"); } catch (KeyError&) { unknown = true; }
  EXPECT(unknown);
  bool added = true;
  try { w.ctx->AddPackage("box", 1, 2, "first"); } catch (KeyError&) { added = false; }
  EXPECT(added);
  return bad ? 1 : 0;
}
"""
