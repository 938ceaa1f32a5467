#include "common.hh"
void fam_script(Env &) {} // the C++ interface has no script registration
