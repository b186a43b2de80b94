// instantiates the trade execution templates so that their bodies are dumped
#include "trade_executor.h"
#include "material.h"
#include "product.h"
namespace cyclus {
template class TradeExecutor<Material>;
template class TradeExecutor<Product>;
template struct TradeExecutionContext<Material>;
template struct TradeExecutionContext<Product>;
template struct Trade<Material>;
template struct Trade<Product>;
}
