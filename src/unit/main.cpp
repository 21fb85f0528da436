#include "unit.h"
static std::vector<vx::Scenario> factory(const std::string &prop, const std::string &tier)
{
    std::vector<vx::Scenario> out;
    bool                      th = tier == "thorough";
    if (prop == "C03")
        un::addCodec(out, th, true);
    if (prop == "C04")
        un::addCodec(out, th, false);
    if (prop == "C20")
        un::addEvents(out, th);
    if (prop == "C21")
        un::addDns(out, th);
    if (prop == "C16")
        un::addStats(out, th);
    if (prop == "C17")
        un::addPool(out, th);
    return out;
}
int main(int argc, char **argv)
{
    return vx::harnessMain(argc, argv, factory);
}
