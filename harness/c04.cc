// C04: histories of resource operations, checking records
#include "reshist.h"
static void history(vh::Rng& r) { reshist::history(reshist::REC, r); }
int main(int c, char** v) { return vh::run(c, v, {{"history", history}}); }
