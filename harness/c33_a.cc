// first object file of the program: its static objects are constructed before those of all others
#include "c33_life.hh"
namespace {
struct Static { Static() { life_phase (PH_STATIC_A); } ~Static() { life_phase (PH_STATIC_A_DTOR); } } instance;
}
__attribute__ ((constructor (101))) static void ctor() { life_phase (PH_CTOR); }
__attribute__ ((destructor (101))) static void dtor() { life_phase (PH_DTOR); }
