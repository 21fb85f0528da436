// Stateless exhaustive search over the choices of a deterministic simulation.
//
// A scenario is a function that drives real code and asks Chooser::choose()
// whenever the environment has more than one legal continuation.  Alternative
// 0 is the default; any other alternative is a deviation.  The explorer runs
// every execution whose deviations stay within the scenario's budget (FREE
// choices cost nothing, so all their alternatives are always explored).
#ifndef VERIF_EXPLORE
#define VERIF_EXPLORE
#include <prelude.h>

namespace vx {

enum Kind { SCHED = 0, SEG = 1, FAULT = 2, OP = 3, FREE = 4, KINDS = 5 };

struct Budget {
    int total = 1;
    int per[KINDS] = {99, 99, 99, 99, 99};
    Budget() {}
    explicit Budget(int t, int sched = 99, int seg = 99, int fault = 99, int op = 99)
    {
        total = t;
        per[SCHED] = sched;
        per[SEG]   = seg;
        per[FAULT] = fault;
        per[OP]    = op;
    }
};

enum { MAXDEV = 96 };
struct Task {
    int32_t  scen = 0;
    int32_t  n    = 0;
    uint32_t pos[MAXDEV];
    uint16_t alt[MAXDEV];
};

struct EndExecution {};  // thrown to abandon an execution after a violation

class Chooser {
  public:
    struct Point {
        uint32_t pos;
        uint16_t n;
        uint16_t taken;
        uint8_t  kind;
    };

    int  choose(Kind k, int n, const char *label);
    void step(uint64_t fingerprint = 0);  // one transition, to this state
    // Record a violation of `prop`.  `key` identifies the defect for the
    // known-findings file.  Does not return normally.
    [[noreturn]] void violate(const char *prop, const std::string &key, const std::string &msg);
    void outcome(const std::string &name);
    void log(const std::string &line);
    bool verbose() const { return d_verbose; }
    bool tooDeep() const { return d_steps > d_maxSteps; }

    Budget             budget;
    Task               task;
    std::vector<Point> branch;  // points where alternatives may be explored
    std::string        trace;
    bool               d_verbose = false;
    bool               diverged  = false;
    uint64_t           d_steps    = 0;
    uint64_t           d_maxSteps = 40000;
    uint64_t           d_fp       = 1469598103934665603ull;
    void               begin(const Task &t, const Budget &b, bool verbose);

  private:
    uint32_t d_pos  = 0;
    int      d_next = 0;
    int      d_used = 0;
    int      d_usedPer[KINDS];
};

struct Scenario {
    std::string                    name;
    Budget                         budget;
    std::function<void(Chooser &)> run;
    uint64_t                       maxSteps = 40000;
};

// Main entry used by all harness binaries:
//   BIN --prop C01 --tier quick --out DIR --jobs 8 --deadline SECONDS [--known FILE]
//   BIN --replay FILE
// Writes DIR/result.json.  Exit 0: search finished (violations, if any, are in
// result.json), 2: usage or internal error.
using ScenarioFactory =
    std::function<std::vector<Scenario>(const std::string &prop, const std::string &tier)>;
int harnessMain(int argc, char **argv, const ScenarioFactory &factory);

// True if the property being checked is one of those in `props` ("C01,C13").
bool               watching(const std::string &props);
const std::string &watched();

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}
inline uint64_t hashBytes(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
std::string hex(const std::string &s, size_t max = 64);
std::string jsonEscape(const std::string &s);

}
#endif
