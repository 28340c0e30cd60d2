#define RUN run_tu1
#include "c17_tu.hh"
