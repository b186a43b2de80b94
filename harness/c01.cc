// C01: histories of resource operations, checking quantities
#include "reshist.h"
static void history(vh::Rng& r) { reshist::history(reshist::QTY, r); }
int main(int c, char** v) { return vh::run(c, v, {{"history", history}}); }
