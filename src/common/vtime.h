// Virtual time: every clock the code under test reads is under test control.
#ifndef VERIF_VTIME
#define VERIF_VTIME
#include <cstdint>
namespace vtime {
void    enable();            // from now on the clocks stand still
void    set(int64_t nanos);  // nanoseconds since enable()'s epoch
void    advance(int64_t nanos);
int64_t now();
}
#endif
