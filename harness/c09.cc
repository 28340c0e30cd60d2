// C09: suppression of images and aliases (see c08.cc)
#define STOP
#include "c08.cc"
