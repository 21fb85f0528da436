// Whole-proxy scenarios: real server, sessions, commands; loopback peers.
#include "nworld.h"
#include <amqpprox_authinterceptinterface.h>
#include <amqpprox_hostnamemapper.h>
#include <amqpprox_sessioncleanup.h>
#include <authrequest.pb.h>
#include <authresponse.pb.h>
#include <arpa/inet.h>
#include <sys/stat.h>

namespace nw {
using namespace Bloomberg::amqpprox;
using vx::Budget;
using vx::FREE;
using vx::OP;
using vx::Scenario;

namespace {
const size_t NONE = (size_t)-1;
string num(long long n) { return std::to_string(n); }

string body(size_t n, unsigned salt)
{
    string s;
    for (size_t i = 0; i < n; ++i) s += (char)(i * 5 + salt * 31 + 1);
    return amqp::frame(3, 1, s);
}

// A running proxy with brokers, and clients on them.
struct Site : Net {
    int               port;
    const char       *prop;
    std::vector<long> ids;  // of all sessions seen
    explicit Site(Chooser &c, const char *prop, int brokers) : Net(c), prop(prop)
    {
        port = portBase(16);
        for (int i = 0; i < brokers; ++i) {
            Broker &b = broker();
            cmd("BACKEND ADD b" + num(i) + " dc 127.0.0.1 " + num(b.l.port));
            cmd("MAP BACKEND v" + num(i) + " b" + num(i));
        }
        cmd("LISTEN START " + num(port));
        pollServer();
    }
    std::shared_ptr<Session> newest()
    {
        std::shared_ptr<Session> best;
        w.server->visitSessions([&](const std::shared_ptr<Session> &s) {
            if (!best || s->state().id() > best->state().id())
                best = s;
        });
        return best;
    }
    // an open client of this vhost
    Agent &open(const string &vhost, bool tls = false, int p = 0)
    {
        Agent &a = client(p ? p : port, vhost, tls);
        if (!await([&] { return a.open; }))
            c.violate(prop, "no-session", "a client of " + vhost + " could not connect");
        return a;
    }
};

// ------------------------------------------------------------- C12
// Bytes of one client that have come out of the proxy, over time.
struct Flow {
    Agent *client;
    Agent *broker;
    size_t sent = 0, seen = 0, biggest = 0;
    string want;
    struct Ev {
        int64_t t;
        size_t  n;
    };
    std::vector<Ev> reads;
    struct Lim {
        int64_t t;
        size_t  n, at;
    };
    std::vector<Lim> limits;
    static int64_t now() { return vtime::now() / 1000000; }
    void note(Chooser &c)
    {
        size_t n = broker->app.size();
        if (n > seen) {
            reads.push_back({now(), n - seen});
            biggest = std::max(biggest, n - seen);
            seen    = n;
            if (want.compare(0, seen, broker->app) != 0)
                c.violate("C12", "wrong-bytes", "the broker received other bytes than the client sent");
        }
    }
    void limit(size_t n)
    {
        if (limits.empty() || limits.back().n != n)
            limits.push_back({now(), n, reads.size()});
    }
    size_t readIn(int64_t from)
    {
        size_t s = 0;
        for (auto &e : reads)
            if (e.t > from)
                s += e.n;
        return s;
    }
    size_t smallest(int64_t from)
    {
        size_t m = NONE;
        for (size_t i = 0; i < limits.size(); ++i)
            if (i + 1 == limits.size() || limits[i + 1].t > from)
                m = std::min(m, limits[i].n);
        return m;
    }
    string upper()
    {
        size_t n = limits.back().n;
        if (n == NONE)
            return "";
        size_t read = 0;
        for (size_t i = limits.back().at; i < reads.size(); ++i) read += reads[i].n;
        size_t allowed = ((now() - limits.back().t) / 1000 + 3) * (n + biggest);
        return read > allowed ? num(read) + " bytes of a client limited to " + num(n) + " bytes/s came through within " + num(now() - limits.back().t) + " ms (largest piece " +
                                    num(biggest) + ")"
                              : "";
    }
    string lower()
    {
        if (seen == sent)
            return "";
        size_t m = smallest(now() - 1000);
        if (m == NONE || readIn(now() - 1000) < m)
            return num(sent - seen) + " bytes of a client are held back although only " + num(readIn(now() - 1000)) + " came through in the last second, limit " +
                   (m == NONE ? "none" : num(m));
        return "";
    }
};

// held: the first client comes while its vhost is paused, and limits are set
// before it goes on
void limitRun(Chooser &c, int depth, bool held = false)
{
    Site              s(c, "C12", 2);
    std::vector<Flow> flows;
    auto              effective = [&](const string &vh) {
        auto &l = s.w.model.dataLimit;
        auto  i = l.find(vh);
        if (i == l.end())
            i = l.find("");
        return i == l.end() ? NONE : (size_t)i->second;
    };
    auto note = [&] {
        for (auto &f : flows) f.note(c);
    };
    auto pump = [&] {
        for (int idle = 0, n = 0; idle < 3 && n < 4000; ++n) {
            s.w.server->ioContext().restart();
            bool moved = s.w.server->ioContext().poll_one() != 0;
            for (auto &b : s.brokers) moved |= b->step();
            for (auto &a : s.clients) moved |= a->step();
            note();
            idle = moved ? 0 : idle + 1;
        }
    };
    const char *cmds[] = {"LIMIT DATA_RATE VHOST v0 100", "LIMIT DATA_RATE DEFAULT 200", "LIMIT DISABLE DATA_RATE VHOST v0", "LIMIT DISABLE DATA_RATE DEFAULT",
                          "LIMIT DATA_RATE_ALARM VHOST v0 50", "LIMIT DATA_RATE VHOST v0 250"};
    auto add = [&](const string &vh, int b, bool paused = false) {
        if (paused)
            s.cmd("VHOST PAUSE " + vh);
        Agent &a = s.client(s.port, vh);
        if (paused) {
            for (int i = 0; i < 6; ++i) pump();
            for (int i = 0; i < 2; ++i)
                if (int k = c.choose(FREE, 7, "while held")) {
                    s.cmd(cmds[k - 1]);
                    pump();
                }
            s.cmd("VHOST UNPAUSE " + vh);
        }
        // a limited client may need several seconds for its handshake
        int64_t t = realMs();
        for (int i = 0; !a.open && (i < 60 || realMs() - t < 2500); ++i) {
            pump();
            if (!a.open && effective(vh) != NONE && i > 3)
                s.advance(1000);
            if (!a.open && i > 3)
                napMicros(200);
        }
        if (!a.open)
            c.violate("C12", "stalled", "the handshake of a limited client does not complete");
        Flow f;
        f.client = &a;
        f.broker = s.brokers[b]->conns.back().get();
        f.limit(effective(vh));
        // the handshake was read too
        f.reads.push_back({Flow::now(), a.p.raw.size() ? 150ul : 0});
        f.limits.back().at = 1;
        flows.push_back(f);
    };
    add("v0", 0, held);
    add("v1", 1);
    auto judge = [&](bool final) {
        auto bad = [&]() -> string {
            for (auto &f : flows) {
                string m = f.lower();
                if (!m.empty())
                    return m;
                if (final && f.seen != f.sent)
                    return "not everything came through in the end";
            }
            return "";
        };
        int64_t t = realMs();
        while (!bad().empty() && realMs() - t < 1500) {
            pump();
            napMicros(200);
        }
        if (!bad().empty())
            c.violate("C12", "stalled", bad());
        for (auto &f : flows)
            if (!f.upper().empty())
                c.violate("C12", "not-throttled", f.upper());
    };
    for (int i = 0; i < depth; ++i) {
        int k = c.choose(FREE, 12, "op");
        if (k == 0)
            break;
        if (k <= 6) {
            s.cmd(cmds[k - 1]);
            for (size_t j = 0; j < flows.size(); ++j) flows[j].limit(effective(flows[j].client->vhost));
        }
        else if (k <= 8) {
            Flow &f = flows[k - 7];
            for (int j = 0; j < 20; ++j) {
                string d = body(32, f.sent);
                f.sent += d.size();
                f.want += d;
                f.client->p.write(d);
                pump();
            }
        }
        else if (k == 9)
            s.advance(1000);
        else if (k == 10)
            s.advance(400);
        else
            add("v0", 0);
        pump();
        judge(false);
        c.step(vx::mix(flows[0].seen, flows[1].seen));
    }
    for (int i = 0; i < 30; ++i) {
        bool left = false;
        for (auto &f : flows) left |= f.seen != f.sent;
        if (!left)
            break;
        s.advance(1000);
        pump();
        judge(false);
    }
    judge(true);
}
}

void addC12e(std::vector<Scenario> &out, bool th)
{
    out.push_back({"LIMIT commands on running sessions", Budget(0), [th](Chooser &c) { limitRun(c, th ? 5 : 4); }});
    out.push_back({"LIMIT commands on held sessions", Budget(0), [th](Chooser &c) { limitRun(c, th ? 3 : 2, true); }});
}

// ------------------------------------------------------------- C19
namespace {
void listenRun(Chooser &c, int depth, const std::vector<int> &ops = {})
{
    Net      n(c);
    int      base = portBase(16);
    int      P[3] = {base, base + 1, base + 2};
    Listener taken(P[2]);
    Broker  &b = n.broker();
    n.cmd("BACKEND ADD b0 dc 127.0.0.1 " + num(b.l.port));
    n.cmd("MAP BACKEND v0 b0");
    int                  kind[2] = {0, 0};  // 0 off, 1 plain, 2 secure
    std::vector<Agent *> held;
    bool                 polled = true;
    auto                 probe  = [&](int i) {
        Peer  t;
        bool  up   = t.connectTo(P[i]);
        string what = "port " + num(i) + (kind[i] == 0 ? " should be closed" : kind[i] == 1 ? " should accept plain connections" : " should accept TLS connections");
        if (kind[i] == 0) {
            if (up)
                c.violate("C19", "accepts", what + " but accepts a connection");
            return;
        }
        if (!up)
            c.violate("C19", "refused", what + " but refuses a connection");
        t.drop();
        bool   tls = kind[i] == 2;
        Agent &a   = n.client(P[i], "v0", tls);
        if (!n.await([&] { return a.open; }))
            c.violate("C19", tls ? "not-tls" : "not-plain", what + " but an AMQP " + (tls ? "TLS" : "plain") + " client gets no session");
        // a session that speaks what it should must not also accept the other
        a.p.drop();
        n.clients.pop_back();
        n.settle();
    };
    auto check = [&] {
        n.settle();
        for (int i = 0; i < 2; ++i) probe(i);
        for (auto *a : held) {
            string d = body(10, 7);
            size_t k = b.conns.size();
            (void)k;
            if (a->p.gone())
                c.violate("C19", "session-ended", "an established session was ended by a listen command");
        }
    };
    auto set = [&](int i, int k) {
        if (!kind[i])
            kind[i] = k;
    };
    for (int i = 0; i < depth; ++i) {
        int k = c.choose(FREE, ops.size() ? (int)ops.size() + 1 : 13, "op");
        if (k == 0)
            break;
        if (ops.size())
            k = ops[k - 1];
        switch (k) {
        case 1: n.cmd("LISTEN START " + num(P[0])); set(0, 1); break;
        case 2: n.cmd("LISTEN START_SECURE " + num(P[0])); set(0, 2); break;
        case 3: n.cmd("LISTEN STOP " + num(P[0])); kind[0] = 0; break;
        case 4: n.cmd("LISTEN START " + num(P[1])); set(1, 1); break;
        case 5: n.cmd("LISTEN START_SECURE " + num(P[1])); set(1, 2); break;
        case 6: n.cmd("LISTEN STOP " + num(P[1])); kind[1] = 0; break;
        case 7: n.cmd("LISTEN STOP"); kind[0] = kind[1] = 0; break;
        case 8: n.cmd("LISTEN START " + num(P[2])); break;
        case 11: n.cmd("LISTEN STOP x" + num(P[0])); break;
        case 12:
            // accepting the next connection fails, accepting it again does not
            if (polled && kind[0]) {
                failAccepts(c.choose(FREE, 2, "times") + 1, EMFILE);
                Agent &a = n.client(P[0], "v0", kind[0] == 2);
                if (!n.await([&] { return a.open; }))
                    c.violate("C19", "deaf", "a connection that could not be accepted at first is never accepted");
                failAccepts(0, 0);
                held.push_back(&a);
            }
            break;
        case 9:
            // a client that stays
            if (polled && kind[0]) {
                Agent &a = n.client(P[0], "v0", kind[0] == 2);
                if (!n.await([&] { return a.open; }))
                    c.violate("C19", "no-session", "a client of a listening port gets no session");
                held.push_back(&a);
            }
            break;
        case 10:
            // connections that are waiting to be accepted when the next command comes
            if (polled && kind[0]) {
                Agent &a    = n.client(P[0], "v0", kind[0] == 2);
                a.automatic = false;
                Agent &a2    = n.client(P[0], "v0", kind[0] == 2);
                a2.automatic = false;
            }
            break;
        }
        polled = k < 9 || k == 11 ? c.choose(FREE, 2, "event loop") != 1 : polled;
        if (polled && (k < 9 || k == 11)) {
            try {
                n.settle();
            }
            catch (const vx::EndExecution &) {
                throw;
            }
            catch (std::exception &e) {
                c.violate("C19", "server-ended", string("the event loop was ended by an exception: ") + e.what());
            }
        }
        c.step(vx::mix(kind[0] * 3 + kind[1], held.size() * 2 + polled));
    }
    try {
        check();
        // established sessions still carry data
        for (auto *a : held) {
            string d = body(40, 3);
            a->p.write(d);
            if (!n.await([&] {
                    for (auto &x : b.conns)
                        if (x->app.find(d) != string::npos)
                            return true;
                    return false;
                }))
                c.violate("C19", "session-stuck", "an established session no longer carries data");
            for (auto &x : b.conns) x->app.clear();
        }
        // and the ports can still be controlled
        n.cmd("LISTEN STOP");
        kind[0] = kind[1] = 0;
        check();
        n.cmd("LISTEN START " + num(P[1]));
        kind[1] = 1;
        check();
    }
    catch (const vx::EndExecution &) {
        throw;
    }
    catch (std::exception &e) {
        c.violate("C19", "server-ended", string("the event loop was ended by an exception: ") + e.what());
    }
    c.outcome(num(kind[0]) + num(kind[1]) + " held " + num(held.size()));
}
}

void addC19(std::vector<Scenario> &out, bool th)
{
    out.push_back({"sequences of " + num(th ? 4 : 3), Budget(0), [th](Chooser &c) { listenRun(c, th ? 4 : 3); }});
    out.push_back({"longer sequences on one port", Budget(0), [th](Chooser &c) { listenRun(c, th ? 6 : 5, {1, 2, 3, 10}); }});
    out.push_back({"longer sequences on two ports", Budget(0), [th](Chooser &c) { listenRun(c, th ? 5 : 4, {1, 3, 5, 7, 9}); }});
}

// ------------------------------------------------------------- C16
namespace {
const char *TRAFFIC[] = {"packetsSent", "packetsReceived", "framesSent", "framesReceived", "bytesSent", "bytesReceived"};
const char *COUNTS[]  = {"activeConnectionCount", "removedConnectionClientSnapped", "removedConnectionBrokerSnapped", "removedConnectionGraceful", "pausedConnectionCount",
                         "authDeniedConnectionCount", "limitedConnectionCount"};

using Totals = std::map<string, uint64_t>;
Totals totalsOf(const SessionState &s)
{
    uint64_t a[10];
    s.getTotals(a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7, a + 8, a + 9);
    return {{"packetsReceived", a[0]}, {"framesReceived", a[1]}, {"bytesReceived", a[2]}, {"receiveLatency total", a[3]}, {"receiveLatency count", a[4]},
            {"packetsSent", a[5]}, {"framesSent", a[6]}, {"bytesSent", a[7]}, {"sendLatency total", a[8]}, {"sendLatency count", a[9]}};
}
void add(Totals &t, const Totals &o)
{
    for (auto &p : o) t[p.first] += p.second;
}
Totals flat(const ConnectionStats &s)
{
    Totals t;
    for (auto n : TRAFFIC) t[n] = s.statsValue(n);
    for (auto n : COUNTS) t[n] = s.statsValue(n);
    for (string n : {"receiveLatency", "sendLatency"}) {
        auto p          = s.distributionPair(n);
        t[n + " count"] = s.distributionCount(n);
        t[n + " total"] = p.first == s.distributionCount(n) ? p.second : p.first;
    }
    return t;
}
string diff(const Totals &a, const Totals &b)
{
    string s;
    for (auto &p : a) {
        auto i = b.find(p.first);
        if (i != b.end() && i->second != p.second)
            s += (s.empty() ? "" : ", ") + p.first + " " + num(p.second) + " rather than " + num(i->second);
    }
    return s;
}

struct Tracked {
    std::shared_ptr<Session> s;
    Agent                   *client = nullptr;
    Agent                   *broker = nullptr;
    string                   vhost;
    bool                     counted = false;
    SessionState::DisconnectType reason{};
    Totals                   base;       // when the handshake was over
    size_t                   up = 0, down = 0, upFrames = 0, downFrames = 0;
};

// Runs the rest of the proxy in the middle of a collection: collecting asks
// for host names, and sessions go on meanwhile on their own thread.
struct BusyMapper : HostnameMapper {
    std::function<void()> *hook;
    explicit BusyMapper(std::function<void()> *h) : hook(h) {}
    void   prime(boost::asio::io_context &, std::initializer_list<boost::asio::ip::tcp::endpoint>) override {}
    string mapToHostname(const boost::asio::ip::tcp::endpoint &e) const override
    {
        if (*hook)
            (*hook)();
        return e.address().to_string();
    }
};
struct DenyV3 : AuthInterceptInterface {
    boost::asio::io_context &io;
    explicit DenyV3(boost::asio::io_context &io) : AuthInterceptInterface(io), io(io) {}
    void authenticate(const authproto::AuthRequest req, const ReceiveResponseCb &cb) override
    {
        authproto::AuthResponse r;
        r.set_result(req.vhostname() == "v3" ? authproto::AuthResponse::DENY : authproto::AuthResponse::ALLOW);
        r.set_reason("no");
        boost::asio::post(io, [cb, r] { cb(r); });
    }
    void print(std::ostream &) const override {}
};

void statRun(Chooser &c, int depth, bool busy, const std::vector<int> &ops = {})
{
    std::function<void()> hook;
    Site                  s(c, "C16", 2);
    s.w.server->setAuthIntercept(std::make_shared<DenyV3>(s.w.server->ioContext()));
    if (busy)
        s.w.server->setHostnameMapper(std::make_shared<BusyMapper>(&hook));
    SessionCleanup       cleaner(&s.w.statCollector, &s.w.eventSource);
    std::deque<Tracked>  all;
    Totals               sum;
    std::map<string, Totals> vh, be, so;
    bool                 perSource = true, pausedV1 = false;
    Totals               last;  // the latest period
    StatSnapshot         snap;
    int                  periods = 0;
    auto sub = s.w.eventSource.statisticsAvailable().subscribe([&](StatCollector *col) {
        StatSnapshot sn;
        col->populateStats(&sn);
        ++periods;
        Totals o = flat(sn.overall());
        for (auto &p : o)
            if (p.second > (1ull << 40))
                c.violate("C16", "wrapped", p.first + " is " + num(p.second) + " in one period");
        auto dim = [&](const StatSnapshot::StatsMap &m, std::map<string, Totals> &acc, const char *name) {
            Totals t;
            for (auto &p : m) {
                Totals f = flat(p.second);
                for (auto &x : f)
                    if (x.second > (1ull << 40))
                        c.violate("C16", "wrapped", string(name) + " " + p.first + ": " + x.first + " is " + num(x.second) + " in one period");
                add(t, f);
                add(acc[p.first], f);
            }
            if (m.empty())
                for (auto &x : o) t[x.first] = 0;
            string d = diff(t, o);
            if (!d.empty())
                c.violate("C16", string("sum-") + name, string("the ") + name + " statistics of a period add up to " + d + " overall");
        };
        dim(sn.vhosts(), vh, "vhost");
        dim(sn.backends(), be, "backend");
        if (perSource)
            dim(sn.sources(), so, "source");
        else if (!sn.sources().empty())
            c.violate("C16", "source-off", "per source statistics although switched off");
        add(sum, o);
        last = o;
    });
    auto collect = [&] {
        // the reason counted is the one in force when it is first reported
        for (auto &t : all)
            if (!t.counted && t.s->finished()) {
                t.counted = true;
                t.reason  = t.s->state().getDisconnectType();
            }
        cleaner.cleanup(nullptr, s.w.server);
        c.log("collected");
    };
    auto track = [&](const string &v) {
        auto     was  = s.newest();
        uint64_t last = was ? was->state().id() : 0;
        Agent   &a    = s.client(s.port, v);
        a.automatic   = !v.empty();
        s.await([&] {
            auto n = s.newest();
            return (v.empty() && n && n->state().id() != last) || a.open || a.p.gone() || a.closed || (v == "v2" && n && n->state().getVirtualHost() == v);
        });
        if (v == "v2" || v.empty())
            s.settle();
        Tracked t;
        t.client = &a;
        t.vhost  = v;
        t.s      = s.newest();
        if (!t.s)
            c.violate("C16", "no-session", "no session for a client");
        if (a.open) {
            for (auto &b : s.brokers)
                for (auto &x : b->conns)
                    if (x->open && !x->closed && !x->p.gone()) {
                        bool used = false;
                        for (auto &o : all) used |= o.broker == x.get();
                        if (!used)
                            t.broker = x.get();
                    }
        }
        t.base = totalsOf(t.s->state());
        if (t.base["bytesReceived"] != 0)
            c.violate("C16", "handshake-bytes", "handshake bytes of the client were counted as transferred");
        all.push_back(t);
    };
    s.cmd("LIMIT CONN_RATE VHOST v2 0");
    s.cmd("MAP BACKEND v2 b0");
    s.cmd("MAP BACKEND v3 b0");
    track("v0");
    track("v1");
    auto sendUp = [&](Tracked &t, int n) {
        if (!t.broker || t.client->p.gone())
            return;
        for (int i = 0; i < n; ++i) t.client->p.write(body(20 + i, t.up));
    };
    auto sendDown = [&](Tracked &t) {
        if (!t.broker || t.broker->p.gone())
            return;
        t.broker->p.write(body(33, t.down));
    };
    auto live = [&] {
        uint64_t n = 0;
        for (auto &t : all) n += !t.s->finished();
        return n;
    };
    auto exact = [&](bool paused) {
        // nothing is going on: the counts are those of the sessions
        uint64_t act = live(), pau = 0, den = 0, lim = 0;
        std::set<uint64_t> present;
        s.w.server->visitSessions([&](const std::shared_ptr<Session> &x) { present.insert(x->state().id()); });
        for (auto &t : all) {
            if (!present.count(t.s->state().id()))
                continue;
            pau += t.s->finished() ? t.s->state().getPaused() : pausedV1 && t.vhost == "v1";
            den += t.vhost == "v3";
            lim += t.vhost == "v2";
        }
        Totals want = {{"activeConnectionCount", act}, {"pausedConnectionCount", pau}, {"authDeniedConnectionCount", den}, {"limitedConnectionCount", lim}};
        // what the peers saw
        for (auto &t : all) {
            if (!t.broker)
                continue;
            Totals now = totalsOf(t.s->state());
            if (!t.s->finished() && (now["bytesReceived"] - t.base["bytesReceived"] != t.broker->app.size() || now["bytesSent"] - t.base["bytesSent"] != t.client->app.size()))
                c.violate("C16", "session-bytes", "a session of " + t.vhost + " counts " + num(now["bytesReceived"] - t.base["bytesReceived"]) + " bytes up and " +
                                                      num(now["bytesSent"] - t.base["bytesSent"]) + " down, its peers received " + num(t.broker->app.size()) + " and " +
                                                      num(t.client->app.size()));
            size_t nf = 0, p = 0;
            amqp::Frame f;
            while (amqp::parseFrame(t.broker->app, &p, &f) == 1) ++nf;
            if (!t.s->finished() && now["framesReceived"] - t.base["framesReceived"] != nf)
                c.violate("C16", "session-frames", "a session of " + t.vhost + " counts " + num(now["framesReceived"] - t.base["framesReceived"]) + " frames up, the broker received " + num(nf));
            nf = p = 0;
            while (amqp::parseFrame(t.client->app, &p, &f) == 1) ++nf;
            if (!t.s->finished() && now["framesSent"] - t.base["framesSent"] != nf)
                c.violate("C16", "session-frames", "a session of " + t.vhost + " counts " + num(now["framesSent"] - t.base["framesSent"]) + " frames down, the client received " + num(nf));
        }
        collect();
        string d = diff(want, last);
        if (!d.empty())
            c.violate("C16", "counts", "there are now " + d + " in the statistics");
    };
    string rest[2];
    for (int i = 0; i < depth; ++i) {
        int  k     = c.choose(FREE, ops.size() ? (int)ops.size() + 1 : busy ? 12 : 16, "op");
        if (k && ops.size())
            k = ops[k - 1];
        bool quiet = true;
        if (k == 0)
            break;
        // what is sent at once, and read at once, is one packet
        bool   single = !busy && (k == 1 || k == 3 || k == 16 || k == 17) && all[0].broker;
        Totals before;
        if (single) {
            s.settle();
            single = !all[0].s->finished() && !all[0].broker->p.gone() && !all[0].client->p.gone();
            before = totalsOf(all[0].s->state());
        }
        switch (k) {
        case 1: sendUp(all[0], 2); break;
        case 2: sendUp(all[1], 1); quiet = false; break;
        case 3: sendDown(all[0]); break;
        case 4: s.settle(); if (busy) collect(); else exact(true); break;
        case 5: collect(); quiet = false; break;
        case 6: all[0].client->p.shut(); break;
        case 7: if (all[1].broker) all[1].broker->p.shut(); quiet = false; break;
        case 8: s.cmd("SESSION " + num(all[1].s->state().id()) + " FORCE_DISCONNECT"); break;
        case 9:
            if (all.size() < 4)
                track("v0");
            break;
        case 10:
            perSource = !perSource;
            s.cmd(perSource ? "STAT ENABLE per-source" : "STAT DISABLE per-source");
            break;
        case 11:
            if (busy) {
                // the sessions run while the next collection goes on
                int at = c.choose(FREE, 5, "moment"), what = c.choose(FREE, 4, "meanwhile");
                int n  = 0;
                hook   = [&, at, what, n]() mutable {
                    if (n++ != at)
                        return;
                    if (what == 0)
                        sendUp(all[0], 1);
                    else if (what == 1)
                        sendDown(all[1]);
                    else if (what == 2)
                        all[0].client->p.shut();
                    else
                        s.w.send("SESSION " + num(all[1].s->state().id()) + " FORCE_DISCONNECT");
                    s.settle();
                };
                collect();
                hook = nullptr;
                break;
            }
            s.cmd("VHOST PAUSE v1");
            pausedV1 = true;
            break;
        case 12: s.cmd("VHOST UNPAUSE v1"); pausedV1 = false; break;
        case 13:
            if (all.size() < 4)
                track("v2");  // limited; refused after a while
            else
                s.advance(800);
            break;
        case 14:
            if (all.size() < 4)
                track("v3");  // denied
            break;
        case 15: all[1].client->p.write(body(50, 1).substr(0, 30)); break;
        case 19:
            if (all.size() < 4)
                track("");  // never says which virtual host
            break;
        case 20: all.back().client->p.shut(); break;
        case 16:
        case 17: {
            // a frame and the rest of one, and part of the next
            bool   down = k == 16;
            Peer  *from = down ? (all[0].broker ? &all[0].broker->p : nullptr) : &all[0].client->p;
            string f    = body(40, i);
            if (from && !from->gone())
                from->write(rest[down] + f + f.substr(0, 20 + i));
            rest[down] = f.substr(20 + i);
            break;
        }
        case 18:
            for (int down : {0, 1}) {
                Peer *from = down ? (all[0].broker ? &all[0].broker->p : nullptr) : &all[0].client->p;
                if (from && !from->gone())
                    from->write(rest[down]);
                rest[down].clear();
            }
            break;
        }
        if (quiet)
            s.settle();
        if (single && !all[0].s->finished()) {
            Totals now = totalsOf(all[0].s->state());
            string what = k == 1 || k == 17 ? "packetsReceived" : "packetsSent";
            string other = k == 1 || k == 17 ? "packetsSent" : "packetsReceived";
            if (now[what] - before[what] != 1 || now[other] != before[other])
                c.violate("C16", "session-packets", "one packet was transferred, " + what + " rose by " + num(now[what] - before[what]) + " and " + other + " by " + num(now[other] - before[other]));
        }
        c.step(vx::mix(vx::mix(sum["bytesReceived"], sum["bytesSent"]), vx::mix(live(), k)));
    }
    s.settle();
    collect();
    // everything ends
    s.cmd("VHOST UNPAUSE v1");
    for (auto &t : all) t.client->p.shut();
    if (!s.await([&] { return live() == 0; }))
        c.violate("C16", "no-end", "sessions do not end with their clients");
    collect();
    collect();
    Totals                   want;
    std::map<string, Totals> wantV;
    for (auto &t : all) {
        Totals f = totalsOf(t.s->state());
        using D  = SessionState::DisconnectType;
        D d      = t.reason;
        f["removedConnectionClientSnapped"] = d == D::DISCONNECTED_CLIENT;
        f["removedConnectionBrokerSnapped"] = d == D::DISCONNECTED_SERVER;
        f["removedConnectionGraceful"]      = d == D::DISCONNECTED_CLEANLY || d == D::DISCONNECTED_PROXY;
        if (busy) {  // only that it was counted
            for (auto n : {"removedConnectionClientSnapped", "removedConnectionBrokerSnapped", "removedConnectionGraceful"}) f.erase(n);
            f["removed"] = 1;
        }
        add(want, f);
        add(wantV[t.vhost], f);
    }
    auto removed = [](Totals &t) { t["removed"] = t["removedConnectionClientSnapped"] + t["removedConnectionBrokerSnapped"] + t["removedConnectionGraceful"]; };
    removed(sum);
    for (auto &v : vh) removed(v.second);
    string d = diff(want, sum);
    if (!d.empty())
        c.violate("C16", "sum", "over all periods the sessions had " + d + " reported");
    for (auto &v : wantV) {
        d = diff(v.second, vh[v.first]);
        if (!d.empty())
            c.violate("C16", "vhost-sum", "over all periods the sessions of " + v.first + " had " + d + " reported");
    }
    collect();
    uint64_t left = 0;
    for (auto &p : last) left += p.second;
    if (left)
        c.violate("C16", "after-end", "statistics of a period without sessions are not zero");
    c.outcome(num(sum["bytesReceived"]) + "/" + num(sum["bytesSent"]));
}
}

void addC16(std::vector<Scenario> &out, bool th)
{
    out.push_back({"traffic, ends and collections", Budget(0), [th](Chooser &c) { statRun(c, th ? 4 : 3, false); }});
    out.push_back({"longer histories", Budget(0), [th](Chooser &c) { statRun(c, th ? 6 : 5, false, {2, 3, 5, 6, 9, 10}); }});
    out.push_back({"frames in parts", Budget(0), [th](Chooser &c) { statRun(c, th ? 5 : 4, false, {16, 17, 18, 4, 5, 6}); }});
    out.push_back({"clients that say nothing", Budget(0), [th](Chooser &c) { statRun(c, th ? 5 : 4, false, {19, 20, 4, 5, 13, 14}); }});
    out.push_back({"collection while sessions run", Budget(0), [th](Chooser &c) { statRun(c, th ? 4 : 3, true); }});
}

// ------------------------------------------------------------- C13, C17
namespace {
int openSockets()
{
    int n = 0;
    for (int fd = 0; fd < 512; ++fd) {
        struct stat st;
        n += fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode);
    }
    return n;
}

// Sessions of every kind on the real server, plain and TLS, ended in every
// way, with cleanups in between: both sockets are closed, whatever the other
// peer does, and nothing of them is left.
void lifeRun(Chooser &c, const char *prop, int depth, const std::vector<int> &ops)
{
    Site s(c, prop, 2);
    s.w.server->setAuthIntercept(std::make_shared<DenyV3>(s.w.server->ioContext()));
    s.brokers[1]->tls = true;
    s.cmd("BACKEND DELETE b1");
    s.cmd("BACKEND ADD b1 dc 127.0.0.1 " + num(s.brokers[1]->l.port) + " TLS");
    s.cmd("LISTEN START_SECURE " + num(s.port + 1));
    s.cmd("LIMIT CONN_RATE VHOST v2 0");
    for (auto v : {"v2", "v3"}) s.cmd(string("MAP BACKEND ") + v + " b0");
    s.settle();
    const int      base = openSockets();
    SessionCleanup cleaner(&s.w.statCollector, &s.w.eventSource);
    struct T {
        Agent                 *client, *broker = nullptr;
        std::weak_ptr<Session> s;
        uint64_t               id;
        string                 what;
        bool                   ends = false;  // something has ended it
        bool                   timer = false; // still to expire
        bool                   waits = false; // for a broker that does not answer
    };
    std::deque<T> all;
    bool          paused = false;
    auto          start  = [&](const string &v, bool tls, bool talk, const string &what) {
        size_t conns[2] = {s.brokers[0]->conns.size(), s.brokers[1]->conns.size()};
        Agent &a = s.client(s.port + tls, v, tls && talk);
        a.answerClose = true;
        a.automatic   = talk;
        T t;
        t.client = &a;
        t.what   = what;
        auto before = s.newest();
        uint64_t was = all.empty() ? 0 : all.back().id;
        if (!s.await([&] { auto n = s.newest(); return n && n->state().id() > was; }))
            c.violate(prop, "no-session", "a client is not accepted");
        t.s  = s.newest();
        t.id = s.newest()->state().id();
        if (talk && (v == "v0" || v == "v1") && !(paused && v == "v0")) {
            if (!s.await([&] { return a.open; }))
                c.violate(prop, "no-session", "a client of " + v + " could not connect");
            for (int i = 0; i < 2; ++i)
                if (s.brokers[i]->conns.size() > conns[i])
                    t.broker = s.brokers[i]->conns.back().get();
            if (t.broker)
                t.broker->answerClose = true;
        }
        s.settle();
        t.ends  = talk && (v == "v3" || v == "v9");
        t.timer = v == "v2";
        all.push_back(t);
    };
    auto finishedOrGone = [](const T &t) {
        auto x = t.s.lock();
        return !x || x->finished();
    };
    auto check = [&](const string &after) {
        s.settle();
        for (auto &t : all) {
            if (!t.ends)
                continue;
            if (!s.await([&] { return finishedOrGone(t); }))
                c.violate(prop, "not-finished", "the session of " + t.what + " is not finished after " + after);
            if (!s.await([&] { return t.client->p.fd < 0 || t.client->p.gone(); }))
                c.violate(prop, "client-open", "the client of " + t.what + " is still connected after " + after);
            if (t.broker && !s.await([&] { return t.broker->p.fd < 0 || t.broker->p.gone(); }))
                c.violate(prop, "broker-open", "the broker of " + t.what + " is still connected after " + after);
        }
    };
    auto cleanup = [&] {
        cleaner.cleanup(nullptr, s.w.server);
        c.log("cleanup");
        s.settle();
        for (auto &t : all)
            // the timer of a limited session is one of its operations
            if (t.ends && !t.timer && !s.await([&] { return t.s.expired(); }))
                c.violate(prop, "session-kept", "the session of " + t.what + " still exists after it ended and was cleaned up");
    };
    auto passTime = [&] {
        s.advance(800);
        s.settle();
        for (auto &t : all) {
            t.ends |= t.timer;
            t.timer = false;
        }
    };
    for (int i = 0; i < depth; ++i) {
        int k = c.choose(FREE, ops.size() + 1, "op");
        if (k == 0)
            break;
        k = ops[k - 1];
        T     *t = all.empty() ? nullptr : &all.back();
        string id = t ? num(t->id) : "0";
        switch (k) {
        case 1: start("v0", false, true, "a plain client"); break;
        case 2: start("v1", true, true, "a TLS client with a TLS broker"); break;
        case 3: start("v0", false, false, "a client that says nothing"); break;
        case 4: start("v0", true, false, "a client that does not start TLS"); break;
        case 5: start("v2", false, true, "a limited client"); break;
        case 6: start("v3", false, true, "a denied client"); break;
        case 7: start("v9", true, true, "an unmapped TLS client"); break;
        case 8:
        case 9:
            if (t) {
                if (k == 8)
                    t->client->p.shut();
                else
                    t->client->p.drop();
                // the broker of a session being closed is asked to close first
                t->ends |= !paused && !t->waits;
            }
            break;
        case 10:
        case 11:
            if (t && t->broker) {
                if (k == 10)
                    t->broker->p.shut();
                else
                    t->broker->p.drop();
                t->ends = true;
            }
            break;
        case 12:
            if (t) {
                s.cmd("SESSION " + id + " FORCE_DISCONNECT");
                t->ends        = true;
            }
            break;
        case 13:
            if (t) {
                t->waits |= t->broker && !t->broker->answerClose;
                s.cmd("SESSION " + id + " DISCONNECT_GRACEFUL");
                t->ends |= (!paused && t->client->answerClose && (!t->broker || t->broker->answerClose)) || !t->broker;
            }
            break;
        case 14:
            // data on its way; the next operation comes before it is read
            if (t && t->broker && t->client->p.fd >= 0) {
                t->client->p.write(body(300, 1));
                t->client->p.flush();
                if (t->broker->p.fd >= 0) {
                    t->broker->p.write(body(400, 2));
                    t->broker->p.flush();
                }
                continue;
            }
            break;
        case 15: check("an end"); cleanup(); break;
        case 16:
            paused = !paused;
            s.cmd(paused ? "VHOST PAUSE v0" : "VHOST UNPAUSE v0");
            if (!paused)
                for (auto &x : all)
                    if (x.what == "a plain client" && x.broker)
                        x.ends = true;
            break;
        case 17:
            // a peer that neither reads nor answers any more
            if (t && t->broker) {
                t->client->automatic = t->broker->automatic = false;
                t->client->answerClose = t->broker->answerClose = false;
            }
            break;
        case 18: passTime(); break;
        }
        check("operation " + num(k));
        c.step(vx::mix(all.size(), s.brokers[0]->conns.size() * 64 + s.brokers[1]->conns.size() * 8 + paused));
    }
    check("the last operation");
    if (paused) {
        s.cmd("VHOST UNPAUSE v0");
        paused = false;
        s.settle();
    }
    passTime();
    for (auto &t : all) {
        t.client->p.shut();
        if (t.broker && !t.broker->answerClose)
            t.broker->p.shut();  // otherwise it may be asked to close first
        t.ends = true;
    }
    check("its client ended");
    cleanup();
    if (s.newest())
        c.violate(prop, "listed", "the server still has sessions although all have ended and were cleaned up");
    s.clients.clear();
    for (auto &b : s.brokers) b->conns.clear();
    s.settle();
    if (openSockets() != base)
        c.violate(prop, "socket-leak", num(openSockets() - base) + " sockets are left open after all sessions have ended");
    std::vector<BufferPool::BufferAllocationStat> st;
    uint64_t                                      spill = 0;
    s.w.bufferPool.getPoolStatistics(&st, &spill);
    for (auto &x : st)
        if (std::get<1>(x))
            c.violate(prop, "buffer-leak", num(std::get<1>(x)) + " buffers of " + num(std::get<0>(x)) + " bytes are held although there is no session");
    c.outcome(num(all.size()));
}
}

void addC13e(std::vector<Scenario> &out, bool th)
{
    out.push_back({"real server: ends of established sessions", Budget(0), [th](Chooser &c) { lifeRun(c, "C13", th ? 5 : 4, {1, 2, 8, 9, 10, 11, 12, 13, 14, 17}); }});
    out.push_back({"real server: ends of unfinished handshakes", Budget(0), [th](Chooser &c) { lifeRun(c, "C13", th ? 4 : 3, {3, 4, 5, 6, 7, 8, 9, 12, 13, 16}); }});
}
void addC17e(std::vector<Scenario> &out, bool th)
{
    out.push_back({"real server: sessions, ends and cleanups", Budget(0), [th](Chooser &c) { lifeRun(c, "C17", th ? 4 : 3, {1, 2, 3, 5, 6, 8, 9, 11, 12, 13, 14, 15, 16, 18}); }});
}

// ------------------------------------------------------------- C18
namespace {
// What brokers of every kind get on the wire from the real sockets.
void wireRun(Chooser &c)
{
    Site s(c, "C18", 2);
    s.cmd("LISTEN START_SECURE " + num(s.port + 1));
    bool proxy[2], tls[2];
    int  port[2];
    for (int i = 0; i < 2; ++i) {
        int k    = c.choose(FREE, 4, "backend");
        proxy[i] = k & 1;
        tls[i]   = k & 2;
        bool dns = c.choose(FREE, 2, "by name") == 1;
        s.cmd("BACKEND DELETE b" + num(i));
        port[i]            = s.brokers[i]->l.port;
        s.brokers[i]->tls  = tls[i];
        s.brokers[i]->line = proxy[i];
        s.cmd(string(dns ? "BACKEND ADD_DNS b" : "BACKEND ADD b") + num(i) + " dc 127.0.0.1 " + num(port[i]) + (proxy[i] ? " SEND-PROXY" : "") + (tls[i] ? " TLS" : ""));
    }
    s.cmd("FARM ADD f round-robin b0 b1");
    s.cmd("MAP FARM vf f");
    s.settle();
    int dead = c.choose(FREE, 3, "refusing");
    if (dead)
        s.brokers[dead - 1].reset(new Broker(s.port + 12 + dead)), s.brokers[dead - 1]->tls = true;
    bool ctls = c.choose(FREE, 2, "client TLS");
    for (int k = 0; k < 3; ++k) {
        size_t conns[2] = {s.brokers[0]->conns.size(), s.brokers[1]->conns.size()};
        Agent &a        = s.client(s.port + ctls, "vf", ctls);
        s.await([&] { return a.open || a.p.gone(); });
        int which = s.brokers[0]->conns.size() > conns[0] ? 0 : s.brokers[1]->conns.size() > conns[1] ? 1 : -1;
        if (which < 0)
            c.violate("C18", "no-broker", "no broker was contacted");
        Agent &b = *s.brokers[which]->conns.back();
        sockaddr_in sa = {};
        socklen_t   l  = sizeof sa;
        getsockname(a.p.fd, (sockaddr *)&sa, &l);
        string line = proxy[which] ? "PROXY TCP4 127.0.0.1 127.0.0.1 " + num(ntohs(sa.sin_port)) + " " + num(port[which]) + "\r\n" : "";
        string what = string(proxy[which] ? "PROXY " : "") + (tls[which] ? "TLS" : "plain") + " backend";
        if (b.p.raw.compare(0, line.size(), line) != 0)
            c.violate("C18", "proxy-line", "a " + what + " receives other bytes than the PROXY line first: " + vx::hex(b.p.raw.substr(0, 40)));
        string rest = b.p.raw.substr(line.size());
        if (tls[which]) {
            if (rest.compare(0, 2, "\x16\x03") != 0)
                c.violate("C18", "no-tls", "a " + what + " receives no TLS handshake next: " + vx::hex(rest.substr(0, 20)));
            if (rest.find("AMQP") != string::npos)
                c.violate("C18", "clear", "AMQP in clear to a " + what);
        }
        else if (rest.compare(0, 8, amqp::header()) != 0)
            c.violate("C18", "no-amqp", "a " + what + " does not receive AMQP next: " + vx::hex(rest.substr(0, 20)));
        if (!a.open)
            c.violate("C18", "no-session", "a client whose broker is a " + what + " could not connect");
        if (b.p.in.compare(0, 8, amqp::header()) != 0)
            c.violate("C18", "no-amqp", "what a " + what + " receives does not start with the protocol header");
        string d = body(300, k), e = body(500, k + 4);
        a.p.write(d);
        b.p.write(e);
        if (!s.await([&] { return b.app == d && a.app == e; }))
            c.violate("C18", "stuck", "a session with a " + what + " carries no data");
        if (tls[which] && (b.p.raw.find(d) != string::npos || b.p.raw.find("AMQP") != string::npos))
            c.violate("C18", "clear", "data in clear to a " + what);
        if (c.choose(FREE, 2, "end first") == 1) {
            a.p.drop();
            s.settle();
        }
        c.step(vx::mix(which, dead));
    }
    c.outcome(num(dead));
}
}
void addC18e(std::vector<Scenario> &out, bool)
{
    out.push_back({"on the wire", Budget(0), [](Chooser &c) { wireRun(c); }});
}

// ------------------------------------------------------------- C24
namespace {
void commandRun(Chooser &c, int depth)
{
    Site s(c, "C24", 2);
    struct T {
        Agent                   *client, *broker;
        std::shared_ptr<Session> s;
        string                   vhost;
        bool                     alive = true, paused = false, backendOnly = false;
    };
    std::deque<T>  all;
    std::set<string> pausedVh;
    auto           add = [&](const string &v) {
        int    b     = v == "v0" ? 0 : 1;
        size_t conns = s.brokers[b]->conns.size();
        Agent &a     = s.client(s.port, v);
        a.answerClose = true;
        T t;
        t.vhost  = v;
        t.client = &a;
        t.broker = nullptr;
        t.paused = pausedVh.count(v) != 0;
        if (!s.await([&] { return t.paused ? a.frames.size() >= 2 : a.open; }))
            c.violate("C24", "no-session", "a client of " + v + " could not connect");
        t.s = s.newest();
        if (!t.paused) {
            if (s.brokers[b]->conns.size() != conns + 1)
                c.violate("C24", "no-session", "a client of " + v + " was not connected to its broker");
            t.broker              = s.brokers[b]->conns.back().get();
            t.broker->answerClose = true;
        }
        all.push_back(t);
    };
    add("v0");
    add("v0");
    add("v1");
    auto id = [&](int i) { return num(all[i].s->state().id()); };
    auto states = [&](const string &after) {
        auto bad = [&]() -> string {
            for (size_t i = 0; i < all.size(); ++i) {
                auto &t = all[i];
                string who = "session " + num(i) + " of " + t.vhost;
                if (t.alive && (t.client->p.gone() || t.s->finished()))
                    return who + " was ended by " + after;
                if (!t.alive && ((!t.backendOnly && !t.client->p.gone()) || !t.s->finished() || (t.broker && !t.broker->p.gone())))
                    return who + " was not ended by " + after;
                if (t.alive && t.paused != t.s->state().getPaused())
                    return who + (t.paused ? " is not paused after " : " is paused after ") + after;
            }
            return "";
        };
        if (!s.await([&] { return bad().empty(); }))
            c.violate("C24", "session-state", bad());
    };
    for (int i = 0; i < depth; ++i) {
        int    k = c.choose(FREE, 16, "op");
        string line;
        if (k == 0)
            break;
        auto end = [&](T &t) { t.alive = false; };
        switch (k) {
        case 1: line = "VHOST PAUSE v0"; break;
        case 2: line = "VHOST UNPAUSE v0"; break;
        case 3: line = "VHOST FORCE_DISCONNECT v0"; break;
        case 4: line = "VHOST BACKEND_DISCONNECT v0"; break;
        case 5: line = "VHOST PAUSE v1"; break;
        case 6: line = "SESSION " + id(0) + " PAUSE"; break;
        case 7: line = "session " + id(1) + " force_disconnect"; break;
        case 8: line = "SESSION " + id(0) + " DISCONNECT_GRACEFUL"; break;
        case 9: line = "SESSION 99999999 FORCE_DISCONNECT"; break;
        case 10: line = "SESSION x FORCE_DISCONNECT"; break;
        case 11: line = "SESSION " + id(2) + " NOTHING"; break;
        case 12: line = "VHOST FORCE_DISCONNECT v9"; break;
        case 13: line = "CONN"; break;
        case 14:
            if (all.size() < 5)
                add("v0");
            break;
        case 15: line = "vhost unpause v1"; break;
        }
        if (!line.empty()) {
            string out = s.w.send(line);
            if ((k == 9 || k == 10 || k == 11) && out.empty())
                c.violate("C24", "rejection-silent", "'" + line + "' should have been rejected but nothing was reported");
            if (k == 13)
                for (auto &t : all)
                    if (t.alive && out.find(t.vhost) == string::npos)
                        c.violate("C24", "conn-print", "CONN does not show a session of " + t.vhost);
        }
        string vh = k == 5 || k == 15 ? "v1" : "v0";
        for (auto &t : all) {
            if (!t.alive)
                continue;
            if ((k == 1 || k == 5) && t.vhost == vh)
                t.paused = true;
            if ((k == 2 || k == 15) && t.vhost == vh && t.paused) {
                if (t.broker)
                    end(t);
                else
                    t.paused = false;
            }
            if (k == 3 && t.vhost == "v0")
                end(t);
            if (k == 4 && t.vhost == "v0" && t.broker) {
                end(t);
                t.backendOnly = true;
            }
        }
        if (k == 1 || k == 5)
            pausedVh.insert(vh);
        if (k == 2 || k == 15)
            pausedVh.erase(vh);
        if (k == 6 && all[0].alive)
            all[0].paused = true;
        if (k == 7)
            end(all[1]);
        // a client that is not read from cannot answer a Close
        if (k == 8 && all[0].alive) {
            if (all[0].paused) {
                s.settle();
                break;
            }
            end(all[0]);
        }
        // unpaused sessions go on to connect
        for (auto &t : all)
            if (t.alive && !t.paused && !t.broker) {
                if (!s.await([&] { return t.client->open; }))
                    c.violate("C24", "not-connected", "a session that was held back does not connect after " + line);
                t.broker              = s.brokers[0]->conns.back().get();
                t.broker->answerClose = true;
            }
        states("'" + line + "'");
        uint64_t fp = 0;
        for (auto &t : all) fp = vx::mix(fp, t.alive * 2 + t.paused);
        c.step(fp);
    }
    // what is left works
    for (size_t i = 0; i < all.size(); ++i) {
        auto &t = all[i];
        if (!t.alive || !t.broker || t.client->closed)
            continue;
        string d = body(24, i), e = body(31, i + 5);
        t.client->p.write(d);
        t.broker->p.write(e);
        if (!s.await([&] { return t.client->app.find(e) != string::npos && (t.paused || t.broker->app.find(d) != string::npos); }))
            c.violate("C24", "session-stuck", "session " + num(i) + " of " + t.vhost + " no longer carries data");
        if (t.paused && t.broker->app.find(d) != string::npos)
            c.violate("C24", "pause-without-effect", "session " + num(i) + " forwards data although paused");
    }
}

// ------------------------------------------------------------- C23
// A TLS client's frames, cut into records, through a whole session.
void tlsSession(Chooser &c, int pieces)
{
    Site s(c, "C23", 1);
    s.cmd("LISTEN START_SECURE " + num(s.port + 1));
    s.settle();
    Agent &a = s.open("v0", true, s.port + 1);
    Agent &b = *s.brokers[0]->conns.back();
    string up = body(5, 1) + body(40, 2) + amqp::heartbeat() + body(1, 3);
    // record boundaries
    std::vector<size_t> cuts = {0};
    const size_t        marks[] = {1, 6, 7, 12, 13, 14, 20, 60, 61, 62, 68, 69, up.size() - 1};
    for (int i = 0; i < pieces; ++i) {
        int k = c.choose(FREE, 14, "cut");
        if (k == 0)
            break;
        if (marks[k - 1] > cuts.back())
            cuts.push_back(marks[k - 1]);
        else
            return;  // the same cuts in another order
    }
    cuts.push_back(up.size());
    int how = c.choose(FREE, 3, "delivery");  // each record at once; all together; wire bytes in two halves
    for (size_t i = 0; i + 1 < cuts.size(); ++i) {
        a.p.write(up.substr(cuts[i], cuts[i + 1] - cuts[i]));
        if (how == 0)
            s.settle();
        if (how == 2) {
            a.p.flush(a.p.out.size() / 2 + 1);
            s.pollServer();
            s.settle();
        }
        c.step(vx::mix(b.app.size(), i));
    }
    string down = body(700, 4);
    b.p.write(down);
    if (!s.await([&] { return b.app.size() >= up.size() && a.app.size() >= down.size(); }))
        c.violate("C23", "stuck", num(b.app.size()) + " of " + num(up.size()) + " bytes from a TLS client reached the broker, " + num(a.app.size()) + " of " + num(down.size()) + " came back");
    if (b.app != up || a.app != down)
        c.violate("C23", "wrong-bytes", "the bytes that came through differ from those sent");
    // the end of the stream comes after all bytes
    int    e    = c.choose(FREE, 3, "end");
    string last = body(90, 9);
    a.p.write(last);
    if (e == 1)
        a.p.closeNotifyOnly();
    if (e) {
        a.p.flush();
        a.p.shut();
    }
    if (!s.await([&] { return b.app.size() >= up.size() + last.size(); }) || b.app != up + last)
        c.violate("C23", "cut-short", "the last bytes before the end of the stream did not reach the broker");
    if (e && !s.await([&] { return b.p.gone(); }))
        c.violate("C23", "no-end", "the end of the stream was not passed on");
    c.outcome(num(b.app.size()));
}
}

void addC24s(std::vector<Scenario> &out, bool th)
{
    out.push_back({"session commands", Budget(0), [th](Chooser &c) { commandRun(c, th ? 4 : 3); }});
}
void addC23e(std::vector<Scenario> &out, bool th)
{
    out.push_back({"session of a TLS client", Budget(0), [th](Chooser &c) { tlsSession(c, th ? 4 : 3); }});
}
}
