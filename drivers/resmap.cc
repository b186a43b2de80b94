// instantiations only: the bodies verified are the ones in /repo's headers
#include "toolkit/res_map.h"
#include "toolkit/total_inv_tracker.h"
template class cyclus::toolkit::ResMap<int, cyclus::Material>;
template class cyclus::toolkit::ResMap<std::string, cyclus::Product>;
