#include "catalog.h"
std::vector<cat::Op> &cat::ops() { static std::vector<Op> v; return v; }
int cat::dirty = 0;
