#ifndef VERIF_SCEN
#define VERIF_SCEN
#include "world.h"
namespace world {
std::vector<vx::Scenario> scenariosFor(const string &prop, bool thorough);
}
#endif
