#include "world.h"
#include "scenarios.h"
using namespace world;

static std::vector<vx::Scenario> make(const std::string &prop, const std::string &tier)
{
    return scenariosFor(prop, tier == "thorough");
}

int main(int argc, char **argv) { return vx::harnessMain(argc, argv, make); }
