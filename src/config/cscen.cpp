#include "cworld.h"

namespace cw {
using vx::Budget;
using vx::Chooser;
using vx::FREE;
using vx::Scenario;
using Status = SessionState::ConnectionStatus;

namespace {

string join(const Strings &v)
{
    string s;
    for (auto &x : v) s += (s.empty() ? "" : " ") + x;
    return s;
}

// Rotation of each farm's first partition since it was last (re)built.
struct Rotation {
    std::map<string, Strings> first;
    void config(const Model &m)
    {
        for (auto &f : m.touched) first[f].clear();
    }
    // size: members of the first partition
    void chosen(Chooser &c, const string &farm, const string &backend, size_t size)
    {
        auto &l = first[farm];
        l.push_back(backend);
        if (size == 0)
            return;
        size_t n = std::min(size, l.size());
        std::set<string> win(l.end() - n, l.end());
        if (win.size() != n)
            c.violate("C10", "repeated", "farm " + farm + " with " + std::to_string(size) + " members in its first partition started sessions at " + join(l));
        if (n == size && l.size() > size && l[l.size() - 1 - size] != backend)
            c.violate("C10", "not-cyclic", "farm " + farm + " with " + std::to_string(size) + " members started sessions at " + join(l));
    }
};

// One connection of `vhost`, compared with what the model says.
World::Probe check(World &w, const string &vhost, Rotation *rot)
{
    Chooser            &c = w.c;
    std::vector<string> want;
    string              farm;
    bool                routed = w.model.route(vhost, &want, &farm);
    auto                p      = w.connect(vhost);
    string              ctx    = "vhost " + vhost + " got " + p.str() + ", configuration:\n" + w.model.dump();
    if (p.status == Status::LIMIT)
        c.violate("C07", "limited", "refused by a limit although none is set: " + ctx);
    if (!routed) {
        if (p.status == Status::SUCCESS)
            c.violate("C07", "not-refused", "should be refused: " + ctx);
        return p;
    }
    if (p.status != Status::SUCCESS)
        c.violate("C07", "refused", "should be routed to " + (farm.empty() ? want[0] : "farm " + farm) + ": " + ctx);
    Strings got, exp;
    for (auto b : p.cand) got.push_back(show(b));
    for (auto &b : want) exp.push_back(w.model.backendLine(b));
    if (got.empty() != exp.empty())
        c.violate("C07", "empty", "wrong candidates: " + ctx);
    std::set<string> gs(got.begin(), got.end()), es(exp.begin(), exp.end());
    bool             any = false;
    for (auto &x : gs) any |= es.count(x) != 0;
    if (!any && !exp.empty())
        c.violate("C07", "elsewhere", "should go to " + (farm.empty() ? want[0] : "farm " + farm) + ": " + ctx);
    if (farm.empty()) {
        if (got != exp)
            c.violate("C07", "backend", "should go to " + want[0] + " only: " + ctx);
        return p;
    }
    if (gs != es)
        c.violate("C09", "members", "candidates are not the members of farm " + farm + ": " + ctx);
    if (gs.size() != got.size())
        c.violate("C09", "duplicate", "a member is offered twice: " + ctx);
    size_t local = 0;
    if (w.model.farms[farm].policies) {
        for (auto b : p.cand) local += b->datacenterTag() == w.model.dc;
        for (size_t i = 0; i < local; ++i)
            if (p.cand[i]->datacenterTag() != w.model.dc)
                c.violate("C09", "affinity", "a backend of another datacenter comes before a local one: " + ctx);
    }
    if (rot && !p.cand.empty()) {
        size_t part = local && local < p.cand.size() ? local : p.cand.size();
        rot->chosen(c, farm, p.cand[0]->name(), part);
    }
    return p;
}

void fingerprint(World &w, uint64_t extra = 0)
{
    w.c.step(vx::mix(vx::hashBytes(w.model.dump()), extra));
}

struct Bank {
    string  name;
    Strings base;    // setting up
    Strings lines;   // alternatives at each step
    Strings vhosts;  // probed
    int     depth;
    int     mode;    // 0: probe after every command, 1: only at the end, 2: choose one vhost to probe
};

void runBank(Chooser &c, const Bank &b)
{
    World    w(c);
    Rotation rot;
    std::vector<World::Probe> old;
    for (auto &l : b.base) {
        w.cmd(l);
        rot.config(w.model);
    }
    auto probeAll = [&] {
        for (auto &v : b.vhosts) old.push_back(check(w, v, &rot));
    };
    if (b.mode == 0)
        probeAll();
    uint64_t h = 0;
    for (int i = 0; i < b.depth; ++i) {
        size_t k = c.choose(FREE, b.lines.size(), "command");
        const string &l = b.lines[k];
        h               = vx::mix(h, k);
        if (l[0] == '?')
            check(w, l.substr(1), &rot);
        else {
            w.cmd(l);
            rot.config(w.model);
        }
        if (b.mode == 0)
            probeAll();
        fingerprint(w);
    }
    // twice, so that what the first connection changes is seen too
    probeAll();
    probeAll();
    // sessions routed before the changes may still use what they were given
    for (auto &p : old)
        for (auto x : p.cand) h += show(x).size();
    for (auto &p : old)
        if (p.mgr)
            for (int i = 0; i < 5; ++i)
                if (auto x = p.mgr->getConnection(i))
                    h += show(x).size();
    fingerprint(w, h);
    std::ostringstream o;
    o << b.name << ":";
    for (auto &v : b.vhosts) {
        std::vector<string> want;
        string              farm;
        bool                r = w.model.route(v, &want, &farm);
        o << " " << v << (r ? (farm.empty() ? "=backend" : "=farm" + std::to_string(want.size())) : "=refused");
    }
    c.outcome(o.str());
}

void add(std::vector<Scenario> &out, const Bank &b)
{
    Scenario s;
    s.name   = b.name + " depth " + std::to_string(b.depth) + " mode " + std::to_string(b.mode);
    s.budget = Budget(0);
    s.run    = [b](Chooser &c) { runBank(c, b); };
    out.push_back(s);
}

const Strings BACKENDS = {"BACKEND ADD b1 dc1 10.0.0.1 5671", "BACKEND ADD b2 dc2 10.0.0.2 5672 TLS", "BACKEND ADD b3 dc1 10.0.0.3 5673 SEND-PROXY",
                          "BACKEND ADD_DNS b4 dc2 h4 5674 SEND-PROXY TLS"};

Strings plus(Strings a, const Strings &b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

void c07(std::vector<Scenario> &out, bool th)
{
    Strings full = plus(BACKENDS, {"FARM ADD f1 round-robin b1 b2", "FARM ADD f2 round-robin b3", "MAP FARM v1 f1", "MAP BACKEND v2 b2", "MAP DEFAULT f2"});
    Strings dang = plus(BACKENDS, {"FARM ADD f2 round-robin b3", "MAP FARM v1 f1", "MAP BACKEND v2 b9", "MAP DEFAULT f9"});
    Strings none = BACKENDS;
    Strings cmds = {"MAP FARM v1 f1", "MAP FARM v1 f2", "MAP BACKEND v1 b1", "MAP BACKEND v1 b2", "MAP UNMAP v1", "MAP FARM v2 f1", "MAP BACKEND v2 b1", "MAP UNMAP v2",
                    "MAP DEFAULT f1", "MAP DEFAULT f2", "MAP REMOVE_DEFAULT", "FARM ADD f1 round-robin b1", "FARM ADD f1 round-robin b2 b3", "FARM ADD f2 round-robin b4",
                    "FARM DELETE f1", "FARM DELETE f2", "BACKEND DELETE b1", "BACKEND DELETE b2", "BACKEND ADD b1 dc2 10.0.1.1 5771", "BACKEND ADD b2 dc1 10.0.1.2 5772"};
    Strings vh   = {"v1", "v2", "v3", "V1"};
    int     d    = th ? 4 : 3;
    add(out, {"routing from full", full, cmds, vh, d, 0});
    add(out, {"routing from dangling", dang, cmds, vh, d, 0});
    add(out, {"routing from none", none, cmds, vh, d, 0});
    add(out, {"routing from full, late look", full, cmds, vh, d, 1});
    add(out, {"routing from none, late look", none, cmds, vh, d, 1});
    // names that are awkward: the same name for a farm, a backend and a vhost; other letter case; prefixes
    Strings awk = {"BACKEND ADD x dc1 10.0.0.1 5671", "BACKEND ADD X dc1 10.0.0.2 5672", "BACKEND ADD xx dc1 10.0.0.3 5672", "FARM ADD x round-robin xx", "FARM ADD X round-robin x X"};
    Strings ac  = {"MAP FARM x x", "MAP BACKEND x x", "MAP FARM X x", "MAP BACKEND X X", "MAP FARM / x", "MAP BACKEND xx X", "MAP UNMAP x", "MAP UNMAP X", "MAP UNMAP /", "MAP DEFAULT x",
                   "MAP DEFAULT X", "MAP REMOVE_DEFAULT", "FARM DELETE x", "BACKEND DELETE x", "MAP FARM Default X", "MAP BACKEND x xx"};
    add(out, {"routing with awkward names", awk, ac, {"x", "X", "xx", "/", "Default", "", "/x", "x/", "//", "%2f", "%78"}, d, 0});
    // long histories of the essential commands
    Strings es = {"MAP FARM v1 f1", "MAP BACKEND v1 b1", "MAP UNMAP v1", "MAP DEFAULT f1", "MAP REMOVE_DEFAULT", "FARM DELETE f1", "FARM ADD f1 round-robin b2"};
    add(out, {"routing, long", BACKENDS, es, {"v1", "v2"}, th ? 7 : 5, 0});
}

void c09(std::vector<Scenario> &out, bool th)
{
    Strings base = plus(BACKENDS, {"FARM ADD f1 round-robin b1 b2 b3 b4", "FARM PARTITION f1 datacenter-affinity", "FARM ADD f2 round-robin b2 b1", "MAP FARM v1 f1", "MAP FARM v2 f2", "DATACENTER SET dc1"});
    Strings bare = plus(BACKENDS, {"FARM ADD f1 round-robin b1 b2 b3", "FARM ADD f2 round-robin b4 b1", "MAP FARM v1 f1", "MAP FARM v2 f2"});
    Strings cmds = {"DATACENTER SET dc1", "DATACENTER SET dc2", "DATACENTER SET dc3", "DATACENTER SET", "FARM PARTITION f1 datacenter-affinity", "FARM PARTITION f2 datacenter-affinity",
                    "FARM ADD f1 round-robin b1 b2", "FARM ADD f1 round-robin b4 b3 b2", "FARM ADD f1 round-robin b1 b1 b2", "FARM ADD f2 round-robin b1 b2 b3 b4", "FARM DELETE f1",
                    "BACKEND DELETE b1", "BACKEND DELETE b2", "BACKEND DELETE b4", "BACKEND ADD b1 dc2 10.0.1.1 5771", "BACKEND ADD b2 dc1 10.0.1.2 5772 SEND-PROXY", "BACKEND ADD b5 dc1 10.0.0.5 5775",
                    "FARM ADD f2 round-robin b5 b1"};
    int d = th ? 4 : 3;
    add(out, {"farm members from affinity", base, cmds, {"v1", "v2"}, d, 0});
    add(out, {"farm members from bare", bare, cmds, {"v1", "v2"}, d, 0});
    add(out, {"farm members, late look", base, cmds, {"v1", "v2"}, d, 1});
    Strings es = {"DATACENTER SET dc1", "DATACENTER SET dc2", "FARM PARTITION f1 datacenter-affinity", "BACKEND DELETE b1", "BACKEND ADD b1 dc2 10.0.1.1 5771", "FARM ADD f1 round-robin b3 b1 b2"};
    add(out, {"farm members, long", bare, es, {"v1", "v2"}, th ? 7 : 5, 0});
    add(out, {"farm members, long, late look", bare, es, {"v1", "v2"}, th ? 7 : 5, 1});
    // datacenter names that resemble one another
    Strings near = {"BACKEND ADD n1 dc1 10.0.0.1 5671", "BACKEND ADD n2 dc10 10.0.0.2 5672", "BACKEND ADD n3 DC1 10.0.0.3 5673", "BACKEND ADD n4 d 10.0.0.4 5674", "BACKEND ADD n5 xdc1 10.0.0.5 5675",
                    "FARM ADD f1 round-robin n1 n2 n3 n4 n5", "FARM PARTITION f1 datacenter-affinity", "MAP FARM v1 f1"};
    Strings nc   = {"DATACENTER SET dc1", "DATACENTER SET dc10", "DATACENTER SET DC1", "DATACENTER SET d", "DATACENTER SET dc", "DATACENTER SET xdc1", "DATACENTER SET c1", "DATACENTER SET dc11",
                    "BACKEND ADD n4 dc11 10.0.0.4 5674", "BACKEND DELETE n1", "FARM ADD f1 round-robin n5 n4 n3"};
    add(out, {"farm members, similar datacenters", near, nc, {"v1"}, d, 0});
    // the farm itself, its members changed one at a time
    for (int pol = 0; pol < 2; ++pol) {
        Scenario s;
        s.name   = string("farm changed in place") + (pol ? " by datacenter" : "");
        s.budget = Budget(0);
        s.run    = [pol, th](Chooser &c) {
            BackendStore            store;
            Datacenter              dc;
            RobinBackendSelector    robin;
            AffinityPartitionPolicy aff(&dc);
            auto mk = [&](int i, int where) {
                string n = std::to_string(i);
                store.insert(Backend("b" + n, "dc" + std::to_string(where), "10.0.0." + n, "10.0.0." + n, 5670 + i));
            };
            std::map<string, int> have;  // in the store, and where
            std::set<string>      mem;
            for (int i = 1; i <= 3; ++i) {
                mk(i, 1 + i % 2);
                have["b" + std::to_string(i)] = 1 + i % 2;
            }
            Farm farm("f", {"b1", "b2"}, &store, &robin);
            mem = {"b1", "b2"};
            bool   affinity = false;
            int    here     = 0, atPartition = 0;
            string hist;
            auto   look = [&] {
                auto set = farm.backendSet();
                ConnectionManager        m(set, farm.backendSelector());
                std::vector<const Backend *> cand;
                for (int i = 0; i < 12; ++i)
                    if (auto b = m.getConnection(i))
                        cand.push_back(b);
                    else
                        break;
                std::set<string> got, want;
                string           str;
                for (auto b : cand) {
                    got.insert(b->name());
                    str += " " + b->name();
                }
                for (auto &x : mem)
                    if (have.count(x))
                        want.insert(x);
                if (got != want)
                    c.violate("C09", "members", "the farm offers" + str + " after" + hist);
                if (got.size() != cand.size())
                    c.violate("C09", "duplicate", "the farm offers" + str + " after" + hist);
                if (affinity && here == atPartition) {
                    bool far = false;
                    for (auto b : cand) {
                        bool l = b->datacenterTag() == dc.get();
                        if (l && far)
                            c.violate("C09", "affinity", "the farm offers" + str + " after" + hist);
                        far |= !l;
                    }
                }
                std::vector<string> names;
                farm.members(&names);
                if (std::set<string>(names.begin(), names.end()) != mem || names.size() != mem.size())
                    c.violate("C09", "members", "the farm lists other members than it has after" + hist);
                c.step(vx::hashBytes(str + "/" + std::to_string(here) + (affinity ? "a" : "")));
            };
            bool every = c.choose(FREE, 2, "look after every change");
            if (pol) {
                farm.addPartitionPolicy(&aff);
                affinity = true;
            }
            look();
            for (int k = 0; k < (th ? 5 : 4); ++k) {
                int    op = c.choose(FREE, 11, "change");
                if (op < 3) {
                    string b = "b" + std::to_string(op + 1);
                    farm.addMember(b);
                    mem.insert(b);
                    atPartition = here;
                    hist += " add " + b;
                }
                else if (op < 6) {
                    string b = "b" + std::to_string(op - 2);
                    farm.removeMember(b);
                    mem.erase(b);
                    atPartition = here;
                    hist += " remove " + b;
                }
                else if (op < 8) {
                    string b = "b" + std::to_string(op - 5);
                    store.remove(b);
                    have.erase(b);
                    hist += " delete " + b;
                }
                else if (op == 8) {
                    int w = have.count("b1") ? have["b1"] : 2;
                    store.remove("b1");
                    mk(1, 3 - w);
                    have["b1"] = 3 - w;
                    hist += " replace b1";
                }
                else if (op == 9) {
                    here = here % 2 + 1;
                    dc.set("dc" + std::to_string(here));
                    farm.repartition();
                    atPartition = here;
                    hist += " datacenter " + std::to_string(here);
                }
                else {
                    farm.addPartitionPolicy(&aff);
                    affinity    = true;
                    atPartition = here;
                    hist += " partition";
                }
                if (every)
                    look();
            }
            look();
            look();
        };
        out.push_back(s);
    }
    // farms of many members, of which some, all or none are local
    {
        Scenario s;
        s.name   = "farm members, large farms";
        s.budget = Budget(0);
        s.run    = [](Chooser &c) {
            static const int     N[] = {1, 2, 9, 16, 17, 33, 63, 64, 65, 66, 100, 129, 255, 256, 257, 300};
            int                  n = N[c.choose(FREE, sizeof N / sizeof *N, "members")], local = c.choose(FREE, 5, "local"), gone = c.choose(FREE, 3, "deleted");
            BackendStore            store;
            Datacenter              dc;
            RobinBackendSelector    robin;
            AffinityPartitionPolicy aff(&dc);
            dc.set("here");
            std::vector<string> names;
            std::set<string>    want;
            size_t              near = 0;
            for (int i = 0; i < n; ++i) {
                string b = "b" + std::to_string(i);
                bool   l = local == 0 ? false : local == 1 ? true : local == 2 ? i % 2 : local == 3 ? i < n / 2 : i + 1 == n;
                names.push_back(b);
                store.insert(Backend(b, l ? "here" : "there", "10.0." + std::to_string(i / 200) + "." + std::to_string(1 + i % 200), "", 5672));
            }
            Farm farm("f", names, &store, &robin);
            bool affinity = c.choose(FREE, 2, "by datacenter");
            if (affinity)
                farm.addPartitionPolicy(&aff);
            for (int i = 0; i < n; ++i) {
                string b = "b" + std::to_string(i);
                if (gone == 1 ? i == n / 2 : gone == 2 ? i % 3 == 0 : false) {
                    store.remove(b);
                    continue;
                }
                want.insert(b);
                bool l = local == 0 ? false : local == 1 ? true : local == 2 ? i % 2 : local == 3 ? i < n / 2 : i + 1 == n;
                near += l;
            }
            for (int round = 0; round < 3; ++round) {
                ConnectionManager m(farm.backendSet(), farm.backendSelector());
                std::set<string>  got;
                int               i = 0;
                for (; i < 2 * n + 5; ++i) {
                    auto b = m.getConnection(i);
                    if (!b)
                        break;
                    if (!got.insert(b->name()).second)
                        c.violate("C09", "duplicate", "a farm of " + std::to_string(n) + " offers " + b->name() + " twice");
                    if (affinity && (b->datacenterTag() == "here") != (size_t(i) < near))
                        c.violate("C09", "affinity", "a farm of " + std::to_string(n) + ", " + std::to_string(near) + " of them local, offers " + b->name() + " of '" + b->datacenterTag() + "' as number " + std::to_string(i));
                }
                if (got != want)
                    c.violate("C09", "members", "a farm of " + std::to_string(want.size()) + " backends offers " + std::to_string(got.size()));
                c.step(vx::mix(n * 64 + local * 8 + gone, round * 2 + affinity));
            }
        };
        out.push_back(s);
    }
    // every membership of up to four, each datacenter assignment, each datacenter
    {
        Scenario s;
        s.name   = "farm members, every farm";
        s.budget = Budget(0);
        s.run    = [](Chooser &c) {
            World   w(c);
            int     mask = 1 + c.choose(FREE, 31, "members");
            int     dcs  = c.choose(FREE, 32, "datacenters");
            string  f    = "FARM ADD f1 round-robin";
            for (int i = 0; i < 5; ++i) {
                string n = std::to_string(i);
                w.cmd("BACKEND ADD b" + n + " dc" + string(dcs >> i & 1 ? "1" : "2") + " 10.0.0." + n + " 567" + n);
                if (mask >> i & 1)
                    f += " b" + n;
            }
            w.cmd(f);
            if (c.choose(FREE, 2, "policy"))
                w.cmd("FARM PARTITION f1 datacenter-affinity");
            w.cmd("MAP DEFAULT f1");
            int d = c.choose(FREE, 3, "datacenter");
            if (d)
                w.cmd("DATACENTER SET dc" + std::to_string(d));
            Rotation r;
            for (int i = 0; i < 12; ++i) check(w, "v" + std::to_string(i % 3), &r);
            fingerprint(w);
        };
        out.push_back(s);
    }
}

void c10(std::vector<Scenario> &out, bool th)
{
    // other commands, which must leave the rotation of f1 alone
    Strings other = {"?v1", "?v2", "BACKEND ADD b9 dc1 10.0.0.9 5679", "BACKEND DELETE b5", "FARM ADD f2 round-robin b4 b5", "FARM PARTITION f2 datacenter-affinity", "FARM DELETE f2", "MAP FARM v3 f1",
                     "MAP UNMAP v2", "MAP DEFAULT f1", "LIMIT CONN_RATE DEFAULT 1000", "FARM PARTITION f1 datacenter-affinity", "DATACENTER SET dc1"};
    Strings b     = plus(BACKENDS, {"BACKEND ADD b5 dc1 10.0.0.5 5675"});
    const char *farms[] = {"b1", "b1 b2", "b1 b2 b3", "b1 b2 b3 b4"};
    for (int i = 0; i < 4; ++i) {
        Strings base = plus(b, {string("FARM ADD f1 round-robin ") + farms[i], "FARM ADD f2 round-robin b4 b5", "MAP FARM v1 f1", "MAP FARM v2 f2"});
        Bank    k{"rotation of " + std::to_string(i + 1), base, other, {"v1", "v1", "v2", "v1", "v1", "v1"}, th ? 4 : 3, 1};
        add(out, k);
        k.base.push_back("FARM PARTITION f1 datacenter-affinity");
        k.base.push_back("DATACENTER SET dc1");
        k.name += " by datacenter";
        add(out, k);
        k.vhosts = {"v1"};
        k.mode   = 0;
        add(out, k);
    }
    // long runs and large farms
    for (int n : {1, 2, 3, 5, 7, 10, 33, 100}) {
        Scenario s;
        s.name   = "rotation of " + std::to_string(n) + ", long";
        s.budget = Budget(0);
        s.run    = [n, th](Chooser &c) {
            World    w(c);
            Rotation rot;
            string   f = "FARM ADD f1 round-robin";
            bool     aff = c.choose(FREE, 2, "affinity");
            for (int i = 0; i < n; ++i) {
                w.cmd("BACKEND ADD b" + std::to_string(i) + " dc1 10.0." + std::to_string(i / 250) + "." + std::to_string(i % 250) + " 5672");
                f += " b" + std::to_string(i);
            }
            w.cmd(f);
            if (aff) {
                w.cmd("BACKEND ADD far dc2 10.1.0.1 5672");
                w.cmd(f + " far");
                w.cmd("DATACENTER SET dc1");
                w.cmd("FARM PARTITION f1 datacenter-affinity");
            }
            w.cmd("MAP DEFAULT f1");
            rot.config(w.model);
            std::vector<std::shared_ptr<ConnectionManager>> kept;
            std::vector<string> seen;
            int runs = n == 3 || n == 7 ? 66000 : 700;
            for (int i = 0; i < runs; ++i) {
                auto p = w.connect("v" + std::to_string(i % 3));
                if (p.status != Status::SUCCESS || p.cand.size() != size_t(n + aff))
                    c.violate("C10", "candidates", "session " + std::to_string(i) + " is offered " + std::to_string(p.cand.size()) + " backends");
                seen.push_back(p.cand[0]->name());
                std::set<string> win(seen.end() - std::min<size_t>(n, seen.size()), seen.end());
                if (win.size() != std::min<size_t>(n, seen.size()))
                    c.violate("C10", "repeated", "session " + std::to_string(i) + " of a farm of " + std::to_string(n) + " starts at " + seen.back() + " again");
            }
            fingerprint(w);
        };
        out.push_back(s);
    }
    // interleavings of sessions to two farms with common members
    for (int n = 1; n <= 4; ++n) {
        Strings base = plus(b, {string("FARM ADD f1 round-robin ") + farms[n - 1], "FARM ADD f2 round-robin b3 b1 b2", "MAP FARM v1 f1", "MAP FARM v2 f2", "MAP FARM v3 f1", "MAP BACKEND v4 b1"});
        add(out, {"rotations interleaved, " + std::to_string(n), base, {"?v1", "?v2", "?v3", "?v4"}, {"v1", "v2", "v3"}, th ? 9 : 7, 1});
    }
}

// --------------------------------------------------------------- C11
// What "per window" may mean: windows may start with the limit being set or
// with the first attempt, follow one another or start anew with the next
// attempt, and setting a limit again may or may not start a new window.
// Whatever the proxy does must agree with one of these throughout.
struct Hyp {
    bool first, grid, resetOwn, resetDef;
    struct W {
        bool    active = false, own = false;
        int64_t start = -1;
        long    count = 0;
    };
    std::map<string, W> w;
    bool                dead = false;
};
struct Limits {
    std::vector<Hyp> hyps;
    std::map<string, long> own;
    long                   def = -1;
    Limits()
    {
        for (int i = 0; i < 16; ++i) {
            Hyp h;
            h.first    = i & 1;
            h.grid     = i & 2;
            h.resetOwn = i & 4;
            h.resetDef = i & 8;
            hyps.push_back(h);
        }
    }
    static int64_t ms() { return vtime::now() / 1000000; }
    void           restart(Hyp &h, Hyp::W &x)
    {
        x.start = h.first ? -1 : ms();
        x.count = 0;
    }
    // the limit `vhost` ("" for the default) was set (n >= 0) or removed (-1)
    void set(const string &vhost, long n)
    {
        if (vhost.empty()) {
            def = n;
            for (auto &h : hyps)
                for (auto &x : h.w)
                    if (!own.count(x.first) && (h.resetDef || n < 0 || !x.second.active)) {
                        restart(h, x.second);
                        x.second.active = n >= 0;
                    }
        }
        else {
            bool had = own.count(vhost);
            if (n < 0)
                own.erase(vhost);
            else
                own[vhost] = n;
            for (auto &h : hyps) {
                auto &x = h.w[vhost];
                if (h.resetOwn || !x.active || had != (n >= 0))
                    if (h.resetOwn || !x.active) {
                        restart(h, x);
                    }
                x.active = own.count(vhost) || def >= 0;
            }
        }
    }
    long limit(const string &v) const
    {
        auto it = own.find(v);
        return it != own.end() ? it->second : def;
    }
    void attempt(Chooser &c, const string &v, bool admitted, const string &hist)
    {
        long n = limit(v);
        if (n < 0) {
            if (!admitted)
                c.violate("C11", "unlimited-refused", "a connection of " + v + " was refused although no limit is in force: " + hist);
            return;
        }
        int64_t t    = ms();
        bool    some = false;
        for (auto &h : hyps) {
            if (h.dead)
                continue;
            auto &x  = h.w[v];
            x.active = true;
            if (x.start < 0)
                x.start = t;
            if (t - x.start >= 1000) {
                x.start = h.grid ? x.start + (t - x.start) / 1000 * 1000 : t;
                x.count = 0;
            }
            bool ok = x.count < n;
            if (ok)
                x.count++;
            if (ok != admitted)
                h.dead = true;
            else
                some = true;
        }
        if (!some)
            c.violate("C11", admitted ? "too-many" : "too-few",
                      "a connection of " + v + " with limit " + std::to_string(n) + " was " + (admitted ? "admitted" : "refused") + ": " + hist);
    }
};

struct LimitBank {
    string  name;
    Strings base, ops;
    int     depth;
    int     burst;  // connections of each vhost at the end
};

void runLimits(Chooser &c, const LimitBank &b)
{
    World  w(c);
    Limits ref;
    string hist;
    w.cmd("BACKEND ADD b1 dc1 10.0.0.1 5671");
    w.cmd("MAP BACKEND v1 b1");
    auto doCmd = [&](const string &l) {
        w.cmd(l);
        Strings t = split(l);
        if (upper(t[0]) != "LIMIT")
            return;
        size_t i   = 1;
        bool   dis = upper(t[1]) == "DISABLE";
        i += dis;
        if (upper(t[i++]) != "CONN_RATE")
            return;
        string v = upper(t[i++]) == "VHOST" ? t[i++] : "";
        ref.set(v, dis ? -1 : atol(t[i].c_str()));
    };
    auto conn = [&](const string &v) {
        auto p = w.connect(v);
        hist += "connect " + v + (p.status == Status::LIMIT ? " refused; " : " ok; ");
        ref.attempt(c, v, p.status != Status::LIMIT, hist);
    };
    auto op = [&](const string &o) {
        hist += o + "; ";
        if (o[0] == '?')
            conn(o.substr(1));
        else if (o[0] == '+') {
            vtime::advance(atol(o.c_str() + 1) * 1000000ll);
            c.log(o);
        }
        else if (o[0] == '*')
            for (int i = 0; i < atoi(o.c_str() + 1); ++i) conn(o.substr(o.find('v')));
        else
            doCmd(o);
    };
    for (auto &o : b.base) op(o);
    uint64_t h = 0;
    for (int i = 0; i < b.depth; ++i) {
        size_t k = c.choose(FREE, b.ops.size(), "op");
        h        = vx::mix(h, k);
        op(b.ops[k]);
        uint64_t alive = 0;
        for (auto &y : ref.hyps) alive = alive * 2 + y.dead;
        fingerprint(w, vx::mix(vtime::now(), alive));
    }
    for (int i = 0; i < b.burst; ++i) {
        conn("v1");
        conn("v2");
        conn("");
    }
    fingerprint(w, h);
    int  alive = 0;
    for (auto &y : ref.hyps) alive += !y.dead;
    c.outcome(b.name + ": v1 limit " + std::to_string(ref.limit("v1")) + ", v2 limit " + std::to_string(ref.limit("v2")));
}

void addL(std::vector<Scenario> &out, const LimitBank &b)
{
    Scenario s;
    s.name   = b.name + " depth " + std::to_string(b.depth);
    s.budget = Budget(0);
    s.run    = [b](Chooser &c) { runLimits(c, b); };
    out.push_back(s);
}

void c11(std::vector<Scenario> &out, bool th)
{
    int x = th ? 1 : 0;
    for (int n = 0; n <= 3; ++n) {
        string N = std::to_string(n);
        addL(out, {"window of " + N, {"LIMIT CONN_RATE VHOST v1 " + N}, {"?v1", "?v2", "+1", "+499", "+500", "+999", "+1000"}, 5 + x, 4});
        addL(out, {"default window of " + N, {"LIMIT CONN_RATE DEFAULT " + N}, {"?v1", "?v2", "?", "+1", "+500", "+999", "+1000"}, 5 + x, 4});
        addL(out, {"alarm of " + N, {"LIMIT CONN_RATE_ALARM VHOST v1 " + N, "LIMIT CONN_RATE_ALARM DEFAULT 1", "LIMIT CONN_RATE VHOST v1 2"}, {"?v1", "?v2", "+500", "+1000"}, 5 + x, 4});
    }
    Strings cmds = {"?v1", "*3v1", "*3v2", "+500", "+1000", "LIMIT CONN_RATE VHOST v1 2", "LIMIT CONN_RATE VHOST v1 1", "LIMIT CONN_RATE VHOST v2 0", "LIMIT CONN_RATE DEFAULT 1", "LIMIT CONN_RATE DEFAULT 3",
                    "LIMIT DISABLE CONN_RATE VHOST v1", "LIMIT DISABLE CONN_RATE DEFAULT", "LIMIT CONN_RATE_ALARM VHOST v1 1", "LIMIT CONN_RATE_ALARM DEFAULT 0", "LIMIT DISABLE CONN_RATE_ALARM VHOST v1",
                    "LIMIT DISABLE CONN_RATE_ALARM DEFAULT", "LIMIT DATA_RATE VHOST v1 1"};
    addL(out, {"limits from nothing", {}, cmds, 3 + x, 4});
    addL(out, {"limits from both", {"LIMIT CONN_RATE DEFAULT 1", "LIMIT CONN_RATE VHOST v1 3"}, cmds, 3 + x, 4});
    addL(out, {"limits in use", {"LIMIT CONN_RATE DEFAULT 2", "*2v1", "*2v2", "LIMIT CONN_RATE_ALARM DEFAULT 1"}, cmds, 3 + x, 4});
    addL(out, {"limits, own in use", {"LIMIT CONN_RATE DEFAULT 1", "LIMIT CONN_RATE VHOST v1 2", "*2v1", "*1v2"}, cmds, 3 + x, 4});
    // large limits are exact as well
    addL(out, {"limit of 300", {"LIMIT CONN_RATE VHOST v1 300"}, {"*299v1", "*300v1", "?v1", "+999", "+1000"}, 4, 2});
    addL(out, {"limit of 70000", {"LIMIT CONN_RATE VHOST v1 70000"}, {"*69999v1", "?v1", "+999", "+1000"}, 3, 2});
    // windows long after one another
    addL(out, {"long pauses", {"LIMIT CONN_RATE VHOST v1 2", "LIMIT CONN_RATE DEFAULT 1"}, {"*2v1", "?v2", "+60000", "+3600000", "+2147483000", "+4294967290", "+300000000000"}, 5, 3});
}
}

std::vector<Scenario> scenarios(const string &prop, const string &tier)
{
    std::vector<Scenario> out;
    bool                  th = tier == "thorough";
    if (prop == "C07") c07(out, th);
    if (prop == "C09") c09(out, th);
    if (prop == "C10") c10(out, th);
    if (prop == "C11") c11(out, th);
    if (prop == "C24") addC24(out, th);
    return out;
}
}
