// C22, first layer: control commands against connection decisions, on the
// real stores and selectors.
#include "tworld.h"

namespace tw {

string handle(cw::World &w, const string &line)
{
    string out;
    size_t sp   = line.find(' ');
    string verb = line.substr(0, sp), rest = sp == string::npos ? "" : line.substr(sp);
    bool   fin  = false;
    auto   fn   = [&](const string &o, bool f) {
        out += o;
        fin |= f;
        return true;
    };
    w.direct.at(verb)->handleCommand(verb, rest, fn, w.server, sharedControl());
    if (!fin)
        out += "(unanswered)";
    return out;
}
Control *sharedControl()
{
    static Control *shared = [] {
        return new Control(nullptr, nullptr, string(1, '\0') + "verif-amqpprox-thr-" + std::to_string(getpid()));
    }();
    return shared;
}
string decide(cw::World &w, const string &vhost)
{
    std::shared_ptr<ConnectionManager> mgr;
    SessionState                       st;
    st.setVirtualHost(vhost);
    string lim;
    // read when a client connects, replaced when it names its vhost
    w.dataRateLimitManager.getDefaultDataRateLimit();
    w.dataRateLimitManager.getDefaultDataRateAlarm();
    for (size_t n : {w.dataRateLimitManager.getDataRateLimit(vhost), w.dataRateLimitManager.getDataRateAlarm(vhost)})
        lim += " " + (n > 1000 ? string("-") : std::to_string(n));
    auto   s = w.connectionSelector.acquireConnection(&mgr, st);
    string r = vhost + ":" + std::to_string((int)s);
    if (mgr)
        for (uint64_t i = 0; i < 16; ++i) {
            const Backend *b = mgr->getConnection(i);
            if (!b)
                break;
            r += " " + cw::show(b);
        }
    return r + lim;
}
string sorted(const string &s)
{
    std::istringstream       is(s);
    std::vector<string>      v;
    string                   l;
    while (std::getline(is, l)) v.push_back(l);
    std::sort(v.begin(), v.end());
    string r;
    for (auto &x : v) r += x + "\n";
    return r;
}

static const char *SETUP[] = {"BACKEND ADD b1 dc1 127.0.0.1 5001",
                              "BACKEND ADD b2 dc2 127.0.0.2 5002 TLS",
                              "BACKEND ADD b3 dc1 127.0.0.3 5003 SEND-PROXY",
                              "DATACENTER SET dc1",
                              "FARM ADD f1 round-robin b1 b2",
                              "FARM PARTITION f1 datacenter-affinity",
                              "FARM ADD f2 round-robin b3 b2",
                              "MAP FARM v f1",
                              "MAP BACKEND w b3",
                              "MAP DEFAULT f2"};

static string finalState(cw::World &w)
{
    string r;
    for (auto l : {"BACKEND PRINT", "FARM PRINT", "MAP PRINT", "LIMIT PRINT", "DATACENTER PRINT"}) r += sorted(handle(w, l));
    for (auto v : {"v", "v", "v", "w", "u", "u"}) r += decide(w, v) + "\n";
    return r;
}

struct Plan {
    Strings setup, cmds, conns;
};
struct Allowed {
    std::set<string> joint, dec, fin;
};
// Commands whose bit is set are applied before connection number at[i]...
static void serial(Chooser &c, const Plan &p, Allowed *a)
{
    size_t k = p.cmds.size(), m = p.conns.size();
    auto   one = [&](const std::vector<int> &order) {
        // order: indices 0..k-1 are commands, k.. are connections
        cw::World w(c);
        for (auto &l : p.setup) handle(w, l);
        string d;
        for (int i : order) {
            if (i < (int)k)
                handle(w, p.cmds[i]);
            else
                d += decide(w, p.conns[i - k]) + "\n";
        }
        string f = finalState(w);
        a->dec.insert(d);
        a->fin.insert(f);
        a->joint.insert(d + "--\n" + f);
    };
    if (m == 1) {
        for (int s = 0; s < 1 << k; ++s) {
            std::vector<int> o;
            for (size_t i = 0; i < k; ++i)
                if (s & 1 << i)
                    o.push_back(i);
            o.push_back(k);
            for (size_t i = 0; i < k; ++i)
                if (!(s & 1 << i))
                    o.push_back(i);
            one(o);
        }
        return;
    }
    // all interleavings
    for (int s = 0; s < 1 << (k + m); ++s) {
        if (__builtin_popcount(s) != (int)k)
            continue;
        std::vector<int> o;
        int              x = 0, y = k;
        for (size_t i = 0; i < k + m; ++i) o.push_back(s & 1 << i ? x++ : y++);
        one(o);
    }
}

static const Allowed &allowed(Chooser &c, const Plan &p)
{
    static std::map<string, Allowed> cache;
    string                           key;
    for (auto &l : p.setup) key += l + "\n";
    key += "|";
    for (auto &l : p.cmds) key += l + "\n";
    key += "|";
    for (auto &l : p.conns) key += l + "\n";
    auto it = cache.find(key);
    if (it == cache.end()) {
        it = cache.insert({key, Allowed()}).first;
        serial(c, p, &it->second);
    }
    return it->second;
}

static string join(const Strings &v)
{
    string r;
    for (auto &x : v) r += (r.empty() ? "" : " ; ") + x;
    return r;
}

static void execute(Chooser &c, const Plan &p)
{
    const Allowed &a = allowed(c, p);
    cw::World      w(c);
    for (auto &l : p.setup) handle(w, l);
    string d;
    c.log("operator: " + join(p.cmds) + "   connections: " + join(p.conns));
    thr::Result r = thr::run(
        c, {[&] {
                for (auto &l : p.cmds) handle(w, l);
            },
            [&] {
                for (auto &v : p.conns) d += decide(w, v) + "\n";
            }},
        vx::hashBytes(join(p.cmds) + "|" + join(p.conns)));
    c.log(d);
    if (r.bad)
        c.violate("C22", r.key, join(p.cmds) + " while connecting " + join(p.conns) + ": " + r.msg);
    string f = finalState(w);
    if (!a.dec.count(d))
        c.violate("C22", "torn-decision", join(p.cmds) + " while connecting " + join(p.conns) + " gave " + d + " which no order gives; one that some order gives: " + *a.dec.begin());
    if (!a.fin.count(f) || (p.conns.size() + p.cmds.size() == 2 && !a.joint.count(d + "--\n" + f)))
        c.violate("C22", "torn-state", join(p.cmds) + " while connecting " + join(p.conns) + " (" + d + ") left " + f + " which no order leaves; one that some order leaves: " + *a.fin.begin());
    c.outcome(d.substr(0, 70) + std::to_string(vx::hashBytes(f) % 1000));
}

static const char *CMDS[] = {"BACKEND DELETE b1",
                             "BACKEND DELETE b3",
                             "BACKEND ADD b4 dc1 127.0.0.4 5004",
                             "BACKEND PRINT",
                             "FARM ADD f1 round-robin b3",
                             "FARM ADD f2 round-robin b1",
                             "FARM ADD f3 round-robin b1 b2 b3",
                             "FARM DELETE f1",
                             "FARM DELETE f2",
                             "FARM PARTITION f2 datacenter-affinity",
                             "FARM PRINT",
                             "MAP FARM v f2",
                             "MAP BACKEND v b3",
                             "MAP UNMAP v",
                             "MAP BACKEND x b1",
                             "MAP FARM u f1",
                             "MAP DEFAULT f1",
                             "MAP REMOVE_DEFAULT",
                             "MAP PRINT",
                             "DATACENTER SET dc2",
                             "DATACENTER PRINT",
                             "LIMIT CONN_RATE VHOST v 1",
                             "LIMIT CONN_RATE VHOST v 0",
                             "LIMIT CONN_RATE DEFAULT 1",
                             "LIMIT CONN_RATE_ALARM VHOST v 1",
                             "LIMIT CONN_RATE_ALARM DEFAULT 0",
                             "LIMIT DISABLE CONN_RATE VHOST v",
                             "LIMIT DISABLE CONN_RATE DEFAULT",
                             "LIMIT DISABLE CONN_RATE_ALARM DEFAULT",
                             "LIMIT DISABLE CONN_RATE_ALARM VHOST v",
                             "LIMIT DATA_RATE VHOST v 5",
                             "LIMIT DATA_RATE DEFAULT 6",
                             "LIMIT DATA_RATE_ALARM VHOST v 5",
                             "LIMIT DATA_RATE_ALARM DEFAULT 6",
                             "LIMIT DISABLE DATA_RATE VHOST v",
                             "LIMIT DISABLE DATA_RATE DEFAULT",
                             "LIMIT DISABLE DATA_RATE_ALARM VHOST v",
                             "LIMIT DISABLE DATA_RATE_ALARM DEFAULT",
                             "LIMIT PRINT"};

void addConfig(std::vector<Scenario> &out, bool th)
{
    Strings base(SETUP, SETUP + sizeof SETUP / sizeof *SETUP);
    auto    limited = base;
    for (auto l : {"LIMIT CONN_RATE VHOST v 2", "LIMIT CONN_RATE DEFAULT 3", "LIMIT CONN_RATE_ALARM VHOST v 1", "LIMIT DATA_RATE VHOST v 7", "LIMIT DATA_RATE DEFAULT 8",
                   "LIMIT DATA_RATE_ALARM VHOST v 7"}) limited.push_back(l);
    auto stale = base;
    for (auto l : {"BACKEND DELETE b2", "BACKEND ADD b2 dc1 127.0.0.5 5005", "BACKEND DELETE b1", "BACKEND ADD b1 dc2 127.0.0.6 5006"}) stale.push_back(l);
    auto add = [&](const string &name, const Strings &setup, const Strings &cmds, const Strings &conns, int bound) {
        Scenario s;
        s.name   = name;
        s.budget = vx::Budget(bound);
        s.run    = [=](Chooser &c) { execute(c, Plan{setup, cmds, conns}); };
        out.push_back(s);
    };
    for (auto cmd : CMDS) {
        for (auto &cn : {Strings{"v"}, Strings{"w"}, Strings{"u"}, Strings{"v", "v"}})
            add(string(cmd) + " || " + join(cn), base, {cmd}, cn, th ? 3 : 2);
        add(string(cmd) + " || v, limited", limited, {cmd}, {"v"}, th ? 3 : 2);
        add(string(cmd) + " || v v, limited", limited, {cmd}, {"v", "v"}, th ? 2 : 1);
        // the farm has yet to notice what became of its members
        add(string(cmd) + " || v, stale farm", stale, {cmd}, {"v"}, th ? 3 : 2);
        for (auto cmd2 : CMDS) {
            if (strstr(cmd, "PRINT") || strstr(cmd2, "PRINT") || strstr(cmd, " DATA_RATE") || strstr(cmd2, " DATA_RATE"))
                continue;
            add(string(cmd) + " ; " + cmd2 + " || v", base, {cmd, cmd2}, {"v"}, th ? 2 : 1);
            if (th)
                add(string(cmd) + " ; " + cmd2 + " || u", base, {cmd, cmd2}, {"u"}, 2);
        }
    }
}
}
