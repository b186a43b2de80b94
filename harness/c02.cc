// C02: histories of resource operations, checking nuclide masses
#include "reshist.h"
static void history(vh::Rng& r) { reshist::history(reshist::NUC, r); }
int main(int c, char** v) { return vh::run(c, v, {{"history", history}}); }
