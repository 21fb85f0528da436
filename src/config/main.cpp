#include "cworld.h"
int main(int argc, char **argv)
{
    return vx::harnessMain(argc, argv, cw::scenarios);
}
