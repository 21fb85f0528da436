// Sessions' states, the collector, and what it should report of them.
#ifndef VERIF_STATBENCH
#define VERIF_STATBENCH
#include "unit.h"

#include <amqpprox_sessionstate.h>
#include <amqpprox_statcollector.h>
#include <amqpprox_statsnapshot.h>

#include <map>
#include <memory>

namespace un {
using vx::Budget;
using vx::Chooser;
using vx::FREE;
using vx::Scenario;
using std::string;
using namespace Bloomberg::amqpprox;
namespace {
using Totals = std::map<string, uint64_t>;
const char *TRAFFIC[] = {"packetsSent", "packetsReceived", "framesSent", "framesReceived", "bytesSent", "bytesReceived"};
const char *COUNTS[]  = {"activeConnectionCount", "removedConnectionClientSnapped", "removedConnectionBrokerSnapped", "removedConnectionGraceful", "pausedConnectionCount",
                         "authDeniedConnectionCount", "limitedConnectionCount"};
using Disco = SessionState::DisconnectType;

struct One {
    std::unique_ptr<SessionState> s;
    string                        vhost, backend, source;
    Totals                        now, seen;
    Disco                         disco   = Disco::NOT_DISCONNECTED;
    bool                          counted = false, paused = false, denied = false, limited = false;
};

struct Bench {
    Chooser                          &c;
    boost::asio::io_context           io;
    StatCollector                     sc;
    bool                              perSource = true;
    std::vector<std::unique_ptr<One>> all;
    string                            hist;

    explicit Bench(Chooser &c) : c(c) {}
    // called with what is to be reported, before the collector is reset
    std::function<void(const Totals &, const std::map<string, Totals> &, const std::map<string, Totals> &, const std::map<string, Totals> &)> report;

    One &start(int v, int b, int src)
    {
        return start("v" + std::to_string(v), "10.2.0." + std::to_string(b / 2), 5672 + b % 2, "10.1.0." + std::to_string(src));
    }
    One &start(const string &vhost, const string &broker, int port, const string &source)
    {
        auto o     = std::make_unique<One>();
        o->s       = std::make_unique<SessionState>(nullptr);
        o->vhost   = vhost;
        o->source  = source;
        o->backend = broker + "_" + std::to_string(port);
        o->s->setVirtualHost(o->vhost);
        auto ep = [](const string &a, int p) { return boost::asio::ip::tcp::endpoint(boost::asio::ip::make_address(a), p); };
        o->s->setIngress(io, ep("10.0.0.1", 5672), ep(o->source, 30000 + int(all.size())));
        o->s->setEgress(io, ep("10.0.0.1", 40000 + int(all.size())), ep(broker, port));
        all.push_back(std::move(o));
        return *all.back();
    }
    void up(One &o, uint64_t frames, uint64_t bytes)
    {
        o.s->incrementIngressTotals(frames, bytes);
        o.now["packetsReceived"] += 1;
        o.now["framesReceived"] += frames;
        o.now["bytesReceived"] += bytes;
    }
    void down(One &o, uint64_t frames, uint64_t bytes)
    {
        o.s->incrementEgressTotals(frames, bytes);
        o.now["packetsSent"] += 1;
        o.now["framesSent"] += frames;
        o.now["bytesSent"] += bytes;
    }
    void latency(One &o, uint64_t in, uint64_t out)
    {
        o.s->addIngressLatency(in);
        o.s->addEgressLatency(out);
        o.now["receiveLatency total"] += in;
        o.now["receiveLatency count"] += 1;
        o.now["sendLatency total"] += out;
        o.now["sendLatency count"] += 1;
    }
    void end(One &o, Disco d)
    {
        o.s->setDisconnected(d);
        o.disco = d;
    }
    void compare(const string &what, const ConnectionStats *got, const Totals &want)
    {
        Totals g;
        if (got) {
            for (auto n : TRAFFIC) g[n] = got->statsValue(n);
            for (auto n : COUNTS) g[n] = got->statsValue(n);
            for (string n : {"receiveLatency", "sendLatency"}) {
                auto p          = got->distributionPair(n);
                g[n + " count"] = got->distributionCount(n);
                g[n + " total"] = p.first == got->distributionCount(n) ? p.second : p.first;
            }
        }
        for (auto &w : want)
            if (g[w.first] != w.second)
                c.violate("C16", "collected", what + ": " + w.first + " is " + std::to_string(g[w.first]) + " rather than " + std::to_string(w.second) + " after" + hist);
        for (auto &x : g)
            if (x.second && !want.count(x.first))
                c.violate("C16", "collected", what + ": " + x.first + " is " + std::to_string(x.second) + " rather than 0 after" + hist);
    }
    // del: sessions that have ended are deleted after this collection
    void period(bool del)
    {
        Totals                   overall;
        std::map<string, Totals> v, b, s;
        for (auto &o : all) {
            Totals t;
            for (auto &x : o->now)
                if (uint64_t d = x.second - o->seen[x.first])
                    t[x.first] = d;
            o->seen = o->now;
            if (o->disco == Disco::NOT_DISCONNECTED)
                t["activeConnectionCount"] = 1;
            else if (!o->counted) {
                t[o->disco == Disco::DISCONNECTED_CLIENT ? "removedConnectionClientSnapped" : o->disco == Disco::DISCONNECTED_SERVER ? "removedConnectionBrokerSnapped" : "removedConnectionGraceful"] = 1;
                o->counted = true;
            }
            if (o->paused)
                t["pausedConnectionCount"] = 1;
            if (o->denied)
                t["authDeniedConnectionCount"] = 1;
            if (o->limited)
                t["limitedConnectionCount"] = 1;
            for (auto &x : t) {
                overall[x.first] += x.second;
                v[o->vhost][x.first] += x.second;
                b[o->backend][x.first] += x.second;
                if (perSource)
                    s[o->source][x.first] += x.second;
            }
            sc.collect(*o->s);
        }
        StatSnapshot snap;
        sc.populateStats(&snap);
        if (report)
            report(overall, v, b, s);
        for (size_t i = 0; del && i < all.size();)
            if (all[i]->disco != Disco::NOT_DISCONNECTED) {
                sc.deletedSession(*all[i]->s);
                all.erase(all.begin() + i);
            }
            else
                ++i;
        sc.reset();
        hist += " period;";
        compare("overall", &snap.overall(), overall);
        auto axis = [&](const string &name, auto &got, std::map<string, Totals> &want) {
            for (auto &w : want) {
                auto i = got.find(w.first);
                compare(name + " " + w.first, i == got.end() ? nullptr : &i->second, w.second);
            }
            for (auto &g : got)
                if (!want.count(g.first))
                    compare(name + " " + g.first, &g.second, {});
        };
        axis("vhost", snap.vhosts(), v);
        axis("backend", snap.backends(), b);
        axis("source", snap.sources(), s);
        c.step(vx::mix(vx::hashBytes(hist), all.size()));
    }
};

}
}
#endif
