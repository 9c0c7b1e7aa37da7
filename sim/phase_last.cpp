#include "phase_lib.hpp"
struct Last { Last() { phase(PH_STATIC_LAST); } ~Last() { phase(PH_DTOR_LAST); } };
static Last last;
