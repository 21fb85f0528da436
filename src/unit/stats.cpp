// C16: the statistics collector over the states of sessions, used as the
// periodic clean-up uses it: collect every session, take the statistics,
// forget the sessions that are deleted, reset.
#include "statbench.h"

namespace un {
namespace {
void sequences(Chooser &c, int depth, bool mix)
{
    Bench w(c);
    int   share = mix ? c.choose(FREE, 8, "shared") : 0;
    w.start(1, 1, 1);
    w.start(share & 1 ? 1 : 2, share & 2 ? 1 : 2, share & 4 ? 1 : 2);
    static const char *N[] = {"up", "down 5e9", "up on the other", "latency", "end", "pause", "period", "period, deleting", "start", "flag", "per source"};
    for (int i = 0; i < depth; ++i) {
        int op = c.choose(FREE, 11, "operation");
        w.hist += string(" ") + N[op] + ";";
        One *a = w.all.empty() ? nullptr : w.all.front().get(), *b = w.all.empty() ? nullptr : w.all.back().get();
        if (!a && op < 10 && op != 6 && op != 7 && op != 8)
            continue;
        switch (op) {
        case 0: w.up(*a, (1ull << 32) + 3, (1ull << 40) + 1000); break;
        case 1: w.down(*a, 1ull << 33, 5000000000ull); break;
        case 2: w.up(*b, 1, 8); break;
        case 3: w.latency(*a, 7, 5000000000ull); break;
        case 4: {
            static const Disco D[] = {Disco::DISCONNECTED_CLIENT, Disco::DISCONNECTED_SERVER, Disco::DISCONNECTED_CLEANLY};
            w.end(*a, D[i % 3]);
            break;
        }
        case 5:
            b->paused = !b->paused;
            b->s->setPaused(b->paused);
            break;
        case 6: w.period(false); break;
        case 7: w.period(true); break;
        case 8: w.start(1, 2, 2); break;
        case 9:
            if (i % 2) {
                b->limited = true;
                b->s->setLimitedConnection();
            }
            else {
                b->denied = true;
                b->s->setAuthDeniedConnection(true);
            }
            break;
        default:
            w.perSource = !w.perSource;
            w.sc.collectPerSourceStats(w.perSource);
        }
    }
    w.period(true);
    w.period(true);
}

// many sessions at once, in many vhosts
void many(Chooser &c, int n)
{
    Bench w(c);
    int   vh = c.choose(FREE, 2, "vhosts") ? 37 : 1, churn = c.choose(FREE, 3, "churn");
    for (int i = 0; i < n; ++i) w.start(i % vh, i % 5, i % 11);
    for (int p = 0; p < 4; ++p) {
        int k = 0;
        for (auto &o : w.all) {
            ++k;
            if ((k + p) % 3)
                w.up(*o, k, 17 * k + p);
            if ((k + p) % 4)
                w.down(*o, 1, 70000 + k);
            if (k % 5 == p)
                w.latency(*o, k, 2 * k);
            if (churn && k % 7 == p)
                w.end(*o, k % 2 ? Disco::DISCONNECTED_CLIENT : Disco::DISCONNECTED_CLEANLY);
        }
        w.hist += " traffic of " + std::to_string(w.all.size()) + " sessions;";
        w.period(churn != 2 || p % 2);
        for (int i = 0; i < 20; ++i) w.start(i % vh, i % 5, i % 11);
    }
    w.period(true);
}
}

void addStats(std::vector<Scenario> &out, bool th)
{
    Scenario s;
    s.budget = Budget(0);
    s.name   = "collector";
    s.run    = [th](Chooser &c) { sequences(c, th ? 6 : 4, false); };
    out.push_back(s);
    s.name = "collector, shared names";
    s.run  = [th](Chooser &c) { sequences(c, th ? 5 : 3, true); };
    out.push_back(s);
    for (int n : {100, 300, 1100}) {
        s.name = "collector, " + std::to_string(n) + " sessions";
        s.run  = [n](Chooser &c) { many(c, n); };
        out.push_back(s);
    }
}
}
