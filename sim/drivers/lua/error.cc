#include "clingo.h"
char const *last_error() { char const *m = clingo_error_message(); return m ? m : "no message"; }
