PROPERTY = "C14"
NEEDS = "adding a commodity that the producer already produces after its capacity was set"
BREAKS = "adding a commodity again resets the capacity and cost that were set"
EDITS = [("src/toolkit/commodity_producer.h", "    commodities_.insert(std::make_pair(commodity, info));", "    commodities_[commodity] = info;")]
DEMO = r"""
#include "toolkit/commodity_producer.h"
int main() {
  toolkit::CommodityProducer p;
  toolkit::Commodity c("power");
  p.Add(c);
  p.SetCapacity(c, 7);
  p.SetCost(c, 3);
  p.Add(c);
  EXPECT(p.Capacity(c) == 7);
  EXPECT(p.Cost(c) == 3);
  return bad ? 1 : 0;
}
"""
