// instantiations only: the bodies verified are the ones in /repo's headers
#include "toolkit/res_buf.h"
#include "toolkit/res_manip.h"
#include "toolkit/res_map.h"
#include "toolkit/total_inv_tracker.h"
template class cyclus::toolkit::ResBuf<cyclus::Material>;
template class cyclus::toolkit::ResBuf<cyclus::Product>;
template void cyclus::toolkit::ResBuf<cyclus::Material>::Push<cyclus::Material::Ptr>(std::vector<cyclus::Material::Ptr>);
template void cyclus::toolkit::ResBuf<cyclus::Product>::Push<cyclus::Product::Ptr>(std::vector<cyclus::Product::Ptr>);
template void cyclus::toolkit::ResBuf<cyclus::Material>::Push<cyclus::Resource::Ptr>(std::vector<cyclus::Resource::Ptr>);
