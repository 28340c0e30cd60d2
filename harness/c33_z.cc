// last object file of the program
#include "c33_life.hh"
namespace {
struct Static { Static() { life_phase (PH_STATIC_Z); } ~Static() { life_phase (PH_STATIC_Z_DTOR); } } instance;
}
