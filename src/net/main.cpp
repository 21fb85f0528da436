#include "nworld.h"
static std::vector<vx::Scenario> factory(const std::string &prop, const std::string &tier)
{
    std::vector<vx::Scenario> out;
    bool                      th = tier == "thorough";
    if (prop == "C12") {
        nw::addC12(out, th);
        nw::addC12e(out, th);
    }
    if (prop == "C23") {
        nw::addC23(out, th);
        nw::addC23e(out, th);
    }
    if (prop == "C24")
        nw::addC24s(out, th);
    if (prop == "C19")
        nw::addC19(out, th);
    if (prop == "C05")
        nw::addC05(out, th);
    if (prop == "C13")
        nw::addC13e(out, th);
    if (prop == "C17")
        nw::addC17e(out, th);
    if (prop == "C18")
        nw::addC18e(out, th);
    if (prop == "C16")
        nw::addC16(out, th);
    return out;
}
int main(int argc, char **argv)
{
    return vx::harnessMain(argc, argv, factory);
}
