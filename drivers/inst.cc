// explicit instantiations of the header-only templates of cyclus, so that the
// AST dumper sees the real template code with concrete types (no other code)
#include "material.h"
#include "product.h"
#include "resource.h"
template std::vector<cyclus::Material::Ptr> cyclus::Resource::Package<cyclus::Material>(cyclus::Package::Ptr);
template std::vector<cyclus::Product::Ptr> cyclus::Resource::Package<cyclus::Product>(cyclus::Package::Ptr);
