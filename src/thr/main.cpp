#include "tworld.h"
static std::vector<vx::Scenario> factory(const std::string &, const std::string &tier)
{
    std::vector<vx::Scenario> out;
    tw::addConfig(out, tier == "thorough");
    tw::addServer(out, tier == "thorough");
    return out;
}
int main(int argc, char **argv)
{
    return vx::harnessMain(argc, argv, factory);
}
