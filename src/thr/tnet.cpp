// C22, second layer: the real server and its sessions on one thread, the
// operator's commands and the periodic clean-up on another.
#include "tworld.h"
#include <../net/nworld.h>

#include <amqpprox_dnsresolver.h>
#include <amqpprox_sessioncleanup.h>

namespace tw {
using nw::Agent;
using nw::Broker;
using nw::Net;

namespace {
string num(long long n) { return std::to_string(n); }
string body(size_t n, unsigned salt)
{
    string s;
    for (size_t i = 0; i < n; ++i) s += (char)(i * 5 + salt * 31 + 1);
    return amqp::frame(3, 1, s);
}
struct Site : Net {
    int                                  port;
    DNSResolver::OverrideFunctionGuard   dns;
    std::unique_ptr<SessionCleanup>      cleaner;
    explicit Site(Chooser &c, const Strings &setup)
    : Net(c)
    , port(nw::portBase(16))
    , dns([](std::vector<boost::asio::ip::tcp::endpoint> *out, std::string_view host, std::string_view svc) {
        out->push_back({boost::asio::ip::make_address(string(host)), (unsigned short)atoi(string(svc).c_str())});
        return boost::system::error_code();
    })
    , cleaner(new SessionCleanup(&w.statCollector, &w.eventSource))
    {
        for (int i = 0; i < 3; ++i) broker();
        for (auto &l : setup) handle(w, expand(l));
        pollServer();
    }
    // %0 %1 %2: ports of the brokers, %p: of the proxy, %q: another, %s: the first session
    string expand(const string &l)
    {
        string r;
        for (size_t i = 0; i < l.size(); ++i) {
            if (l[i] != '%') {
                r += l[i];
                continue;
            }
            char k = l[++i];
            r += k == 'p' ? num(port) : k == 'q' ? num(port + 1) : k == 's' ? num(first()) : num(brokers[k - '0']->l.port);
        }
        return r;
    }
    long first()
    {
        long best = -1;
        w.server->visitSessions([&](const std::shared_ptr<Session> &s) {
            if (best < 0 || (long)s->state().id() < best)
                best = s->state().id();
        });
        return best;
    }
    bool peers()
    {
        bool moved = false;
        for (auto &b : brokers) moved |= b->step();
        for (auto &a : clients) moved |= a->step();
        return moved;
    }
    void rest()
    {
        for (int idle = 0, n = 0; idle < 3 && n < 3000; ++n) {
            bool moved = pollServer() != 0;
            moved |= peers();
            idle = moved ? 0 : idle + 1;
        }
    }
    void operate(const string &l)
    {
        if (l == "CLEANUP")
            cleaner->cleanup(sharedControl(), w.server);
        else
            handle(w, l);
    }
    Agent &start(const string &vhost) { return client(port, vhost); }
    // up to the point where the client would open its vhost
    Agent &tuned(const string &vhost)
    {
        Agent &a = client(port, vhost);
        a.hold   = true;
        if (!await([&] { return !a.held.empty(); }))
            c.violate("C22", "no-session", "a client of " + vhost + " could not start");
        return a;
    }
    Agent &opened(const string &vhost)
    {
        Agent &a = client(port, vhost);
        if (!await([&] { return a.open; }))
            c.violate("C22", "no-session", "a client of " + vhost + " could not connect");
        return a;
    }
    // what can be seen from outside, and the state of the sessions
    string report(bool strict)
    {
        std::ostringstream o;
        int                n = 0;
        for (auto &a : clients) {
            o << "client" << n++ << (a->open ? " open" : "") << (a->closed ? " Close" : "") << (a->p.gone() ? " gone" : "");
            if (strict)
                o << " " << a->closeCode << " in=" << a->app.size();
            o << "; ";
        }
        if (strict) {
            n = 0;
            for (auto &b : brokers) {
                o << "broker" << n++ << ":";
                for (auto &x : b->conns) o << (x->open ? " open" : " new") << (x->p.gone() ? " gone" : "") << " in=" << x->app.size();
                o << "; ";
            }
        }
        std::map<uint64_t, std::shared_ptr<Session>> all;
        w.server->visitSessions([&](const std::shared_ptr<Session> &s) { all[s->state().id()] = s; });
        for (auto &p : all) o << "session" << (p.second->state().getPaused() ? " paused" : "") << (p.second->finished() ? " finished" : "") << "; ";
        return o.str();
    }
};

struct Case {
    string                      name;
    Strings                     setup, cmds;
    std::function<void(Site &)> prepare;
    bool                        strict = true;
    std::function<string(Site &, const string &)> rule;  // what is wrong, if anything
    std::function<string(Site &)>                 probe; // further observations, at the end
    string label() const
    {
        string r;
        for (auto &x : cmds) r += (r.empty() ? "" : " ; ") + x;
        return name + " || " + r;
    }
};

string finish(Site &s, const Case &k)
{
    s.rest();
    string r = s.report(k.strict);
    if (k.probe)
        r += k.probe(s);
    return r;
}

// The server thread: handlers one after the other until nothing moves.
// after: called after each
void serve(Site &s, const std::function<void(int)> &after)
{
    auto &io = s.w.server->ioContext();
    for (int idle = 0, n = 0; idle < 2 && n < 600; ++n) {
        io.restart();
        bool moved = io.poll_one() != 0;
        {
            thr::Quiet q;
            moved |= s.peers();
        }
        idle = moved ? 0 : idle + 1;
        if (after)
            after(n + 1);
    }
}

const std::set<string> &serialOutcomes(Chooser &c, const Case &k)
{
    static std::map<string, std::set<string>> cache;
    auto it = cache.find(k.label());
    if (it != cache.end())
        return it->second;
    auto &out   = cache[k.label()];
    int   steps = 0;
    // the positions of the commands, in order
    std::vector<int> at(k.cmds.size(), 0);
    for (;;) {
        Site s(c, k.setup);
        k.prepare(s);
        Strings lines;
        for (auto &l : k.cmds) lines.push_back(s.expand(l));
        auto inject = [&](int n) {
            for (size_t i = 0; i < lines.size(); ++i)
                if (at[i] == n)
                    s.operate(lines[i]);
        };
        inject(0);
        int last = 0;
        serve(s, [&](int n) {
            last = n;
            inject(n);
        });
        for (size_t i = 0; i < lines.size(); ++i)
            if (at[i] > last)
                s.operate(lines[i]);
        steps = std::max(steps, last);
        out.insert(finish(s, k));
        // next non-decreasing vector
        int i = at.size() - 1;
        while (i >= 0 && at[i] > steps) --i;
        if (i < 0)
            break;
        int v = at[i] + 1;
        for (size_t j = i; j < at.size(); ++j) at[j] = v;
    }
    return out;
}

void execute(Chooser &c, const Case &k)
{
    const std::set<string> &ok = serialOutcomes(c, k);
    Site s(c, k.setup);
    k.prepare(s);
    Strings lines;
    for (auto &l : k.cmds) lines.push_back(s.expand(l));
    thr::Result r = thr::run(
        c, {[&] {
                for (auto &l : lines) s.operate(l);
            },
            [&] { serve(s, nullptr); }},
        vx::hashBytes(k.label()));
    if (r.bad)
        c.violate("C22", r.key, k.label() + ": " + r.msg);
    string o = finish(s, k);
    // loopback delivery may lag behind when the machine is busy
    for (int i = 0; i < 40 && !ok.count(o); ++i) {
        nw::napMicros(2000);
        if (k.probe)
            break;
        o = finish(s, k);
    }
    c.log(o);
    if (k.rule) {
        string bad = k.rule(s, o);
        if (!bad.empty())
            c.violate("C22", "wrong-final-state", k.label() + ": " + bad + " (" + o + ")");
    }
    if (!ok.count(o))
        c.violate("C22", "torn-effect", k.label() + " gave: " + o + " which no order of commands and handlers gives; one that some order gives: " + *ok.begin());
    c.outcome(k.cmds[0].substr(0, 12) + num(vx::hashBytes(o) % 100000));
}
}

void addServer(std::vector<Scenario> &out, bool th)
{
    Strings setup = {"BACKEND ADD b0 dc 127.0.0.1 %0",
                     "BACKEND ADD b1 dc 127.0.0.1 %1",
                     "BACKEND ADD b2 dc2 127.0.0.1 %2",
                     "FARM ADD f round-robin b1 b2",
                     "MAP BACKEND v0 b0",
                     "MAP FARM v1 f",
                     "LISTEN START %p"};
    auto add = [&](Case k, int bound) {
        Scenario s;
        s.name   = k.label();
        s.budget = vx::Budget(bound);
        s.run    = [k](Chooser &c) { execute(c, k); };
        out.push_back(s);
    };
    auto pausedRule = [](bool paused) {
        return [paused](Site &s, const string &) {
            string bad;
            s.w.server->visitSessions([&](const std::shared_ptr<Session> &x) {
                if (!x->finished() && x->state().getVirtualHost() == "v0" && x->state().getPaused() != paused)
                    bad = paused ? "a session of v0 is not paused although the vhost is" : "a session of v0 is still paused although the vhost is not";
            });
            return bad;
        };
    };
    auto rated = [](Site &s) {
        // how fast the client's bytes come through now
        string r = "rate";
        Agent &a = *s.clients[0];
        for (auto &b : s.brokers)
            for (auto &x : b->conns) {
                if (!x->open || x->p.gone())
                    continue;
                for (int i = 0; i < 6; ++i) {
                    if (i < 4)
                        a.p.write(body(1000, i));
                    s.rest();
                    r += " " + num(x->app.size() + (x->p.in.size() - x->pos));
                    if (i >= 4)
                        vtime::advance(1000000000ll);
                }
                return r;
            }
        return r + " none";
    };
    struct Prep {
        const char                 *name;
        std::function<void(Site &)> f;
    };
    std::vector<Prep> preps = {
        {"opening v0",
         [](Site &s) {
             Agent &a = s.tuned("v0");
             a.p.write(a.held);
             s.peers();
         }},
        {"opening v1",
         [](Site &s) {
             Agent &a = s.tuned("v1");
             a.p.write(a.held);
             s.peers();
         }},
        {"accepting",
         [](Site &s) {
             s.start("v0");
             s.peers();
         }},
        {"open, data in flight",
         [](Site &s) {
             Agent &a = s.opened("v0");
             a.p.write(body(40, 1));
             s.brokers[0]->conns[0]->p.write(body(30, 2));
             s.peers();
         }},
        {"client going",
         [](Site &s) {
             Agent &a = s.opened("v0");
             a.p.write(body(20, 1));
             a.p.flush();
             a.p.shut();
             s.peers();
         }},
        {"broker going",
         [](Site &s) {
             s.opened("v0");
             s.brokers[0]->conns[0]->p.shut();
             s.peers();
         }},
        {"open, another accepting",
         [](Site &s) {
             s.opened("v0");
             s.start("v1");
             s.peers();
         }},
        {"another ended, opening v0",
         [](Site &s) {
             Agent &e = s.opened("v1");
             Agent &a = s.tuned("v0");
             e.p.shut();
             if (!s.await([&] { return e.p.gone(); }))
                 s.c.violate("C22", "no-end", "a session does not end with its client");
             a.p.write(a.held);
             s.peers();
         }},
    };
    struct Op {
        Strings cmds;
        bool    strict = true;
        int     paused = -1;
        bool    rate   = false;
        int     from = 0, to = 6;  // which preparations
    };
    std::vector<Op> ops = {
        {{"MAP BACKEND v0 b1"}, true, -1, false, 0, 1},
        {{"MAP UNMAP v0"}, true, -1, false, 0, 1},
        {{"BACKEND DELETE b0"}, true, -1, false, 0, 1},
        {{"MAP DEFAULT f"}, true, -1, false, 0, 2},
        {{"FARM ADD f round-robin b0"}, true, -1, false, 1, 2},
        {{"FARM DELETE f"}, true, -1, false, 1, 2},
        {{"BACKEND DELETE b1"}, true, -1, false, 1, 2},
        {{"FARM PARTITION f datacenter-affinity"}, true, -1, false, 1, 2},
        {{"DATACENTER SET dc2"}, true, -1, false, 1, 2},
        {{"LIMIT CONN_RATE VHOST v0 0"}, true, -1, false, 0, 1},
        {{"LIMIT CONN_RATE DEFAULT 0"}, true, -1, false, 0, 2},
        {{"LIMIT DATA_RATE VHOST v0 400"}, true, -1, true, 0, 5},
        {{"LIMIT DATA_RATE DEFAULT 400"}, true, -1, true, 0, 5},
        {{"LIMIT DATA_RATE_ALARM VHOST v0 400"}, true, -1, true, 0, 5},
        {{"VHOST PAUSE v0"}, true, 1},
        {{"VHOST PAUSE v0", "VHOST UNPAUSE v0"}, false, 0},
        {{"VHOST PAUSE v0", "VHOST UNPAUSE v0", "VHOST PAUSE v0"}, false, 1},
        {{"VHOST FORCE_DISCONNECT v0"}, false},
        {{"VHOST BACKEND_DISCONNECT v0"}, false},
        {{"SESSION %s FORCE_DISCONNECT"}, false, -1, false, 0, 1},
        {{"SESSION %s DISCONNECT_GRACEFUL"}, false, -1, false, 0, 1},
        {{"SESSION %s PAUSE"}, true, -1, false, 0, 1},
        {{"SESSION %s FORCE_DISCONNECT"}, false, -1, false, 3, 6},
        {{"SESSION %s DISCONNECT_GRACEFUL"}, false, -1, false, 3, 6},
        {{"SESSION %s PAUSE"}, true, -1, false, 3, 6},
        {{"SESSION %s FORCE_DISCONNECT"}, false, -1, false, 6, 7},
        {{"SESSION %s DISCONNECT_GRACEFUL"}, false, -1, false, 6, 7},
        {{"SESSION %s PAUSE"}, true, -1, false, 6, 7},
        {{"CLEANUP"}, false, -1, false, 7, 8},
        {{"CLEANUP", "VHOST PAUSE v0"}, false, 1, false, 7, 8},
        {{"CONN"}},
        {{"CLEANUP"}, false},
        {{"CLEANUP", "CLEANUP"}, false},
        {{"VHOST PRINT"}, true, -1, false, 0, 1},
        {{"MAP PRINT"}, true, -1, false, 0, 1},
        {{"LIMIT PRINT"}, true, -1, false, 0, 1},
        {{"AUTH ALWAYS_ALLOW"}, true, -1, false, 0, 3},
        {{"AUTH PRINT"}, true, -1, false, 0, 3},
        {{"LISTEN STOP %p"}, true, -1, false, 2, 3},
        {{"LISTEN STOP"}, true, -1, false, 2, 3},
        {{"LISTEN START %q"}, true, -1, false, 2, 3},
        {{"LISTEN STOP %p", "LISTEN START %p"}, true, -1, false, 2, 3},
    };
    for (auto &op : ops)
        for (int i = op.from; i < op.to; ++i) {
            Case k;
            k.name    = preps[i].name;
            k.setup   = setup;
            k.cmds    = op.cmds;
            k.prepare = preps[i].f;
            k.strict  = op.strict;
            if (op.paused >= 0)
                k.rule = pausedRule(op.paused == 1);
            if (op.rate)
                k.probe = rated;
            // two preemptions where the state of a session depends on who comes last
            bool deep = (op.paused >= 0 && op.cmds.size() < 3) || op.cmds[0] == "LIMIT DATA_RATE VHOST v0 400";
            add(k, th ? (deep && i == 0 ? 3 : 2) : (deep && (i == 0 || i == 3)) ? 2 : 1);
        }
}
}
