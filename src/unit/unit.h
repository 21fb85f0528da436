// Harness for single components: codec, event signals, name resolver, buffer pool.
#ifndef VERIF_UNIT
#define VERIF_UNIT
#include <explore.h>
#include <vtime.h>
namespace un {
using std::string;
void addCodec(std::vector<vx::Scenario> &out, bool th, bool roundTrip);
void addEvents(std::vector<vx::Scenario> &out, bool th);
void addDns(std::vector<vx::Scenario> &out, bool th);
void addStats(std::vector<vx::Scenario> &out, bool th);
void addPool(std::vector<vx::Scenario> &out, bool th);
}
#endif
