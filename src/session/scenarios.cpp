#include "scenarios.h"
#include <wellformed.h>

// Every scenario is a small closed system around real sessions.  The budget
// bounds the number of departures from the default schedule (see explore.h).

namespace world {
using vx::Budget;
using vx::Scenario;

namespace {
struct B {
    std::vector<Scenario> out;
    bool                  th = false;
    int                   policies = 7;
    void add(const string &name, const Budget &b, const Cfg &cfg, const Final &f = Final())
    {
        Scenario s;
        s.name   = name;
        s.budget = b;
        s.run    = [cfg, f](vx::Chooser &c) { runScenario(c, cfg, f); };
        out.push_back(s);
    }
    // in all three base schedules
    void all(const string &name, const Budget &b, Cfg cfg, const Final &f = Final())
    {
        for (int p = 0; p < 3; ++p) {
            if (!(policies & (1 << p)))
                continue;
            cfg.policy = p;
            add(name + " p" + std::to_string(p), b, cfg, f);
        }
    }
};

Cfg dataCfg()
{
    Cfg c          = baseCfg();
    c.clientScript = {{W_OPENOK, 0, data(3, 'a'), T_DATA}, {W_NONE, 0, data(20, 'A') + data(0, 'x'), T_DATA}, {W_NONE, 0, amqp::heartbeat(), T_DATA}};
    c.brokerScript = {{W_NONE, 0, data(5, 'b'), T_DATA}, {W_NONE, 0, data(30, 'B'), T_DATA}};
    return c;
}

Cfg tlsBoth(Cfg c)
{
    c.clientTls = true;
    for (auto &b : c.backends) b.tls = true;
    return c;
}

Cfg proxied(Cfg c)
{
    for (auto &b : c.backends) b.proxy = true;
    return c;
}

Cfg twoAddr(Cfg c)
{
    c.backends = {{"b1", "dc1", "h1", "", 5672, false, false, true}};
    c.dns      = {{"h1", {"10.0.0.1", "10.0.0.2"}}};
    return c;
}

authproto::AuthResponse answer(int r, const string &reason = "", const string &mech = "", const string &creds = "")
{
    authproto::AuthResponse a;
    a.set_result((authproto::AuthResponse::AuthResult)r);
    a.set_reason(reason);
    if (!mech.empty()) {
        a.mutable_authdata()->set_authmechanism(mech);
        a.mutable_authdata()->set_credentials(creds);
    }
    return a;
}
}

// ------------------------------------------------------------------ C01

static void c01(B &b)
{
    int x = b.th ? 1 : 0;
    Cfg c = dataCfg();
    b.all("order", Budget(3 + x), c);
    c.seg = true;
    b.all("segments", Budget(2 + x), c);
    c.seg        = false;
    c.wseg       = true;
    c.block      = true;
    c.bucketPool = true;
    b.all("partial writes", Budget(2 + x), c);
    c.wseg = c.block = false;
    c.avail          = true;
    c.seg            = true;
    b.all("partial reads", Budget(2 + x, 1), c);
    c.avail = c.seg = false;
    c.spurious      = true;
    b.all("spurious wakeups", Budget(2 + x), c);

    for (int n : {1, 2, 5, 7, 8, 9, 13, 31, 33}) {
        Cfg d        = dataCfg();
        d.readChunk  = n;
        d.bucketPool = n % 2;
        b.all("arrival in pieces of " + std::to_string(n), Budget(x ? 2 : 1), d);
        d.writeChunk = n > 3 ? n - 2 : n;
        b.all("arrival and sending in pieces of " + std::to_string(n), Budget(x), d);
    }
    {
        Cfg d = tlsBoth(dataCfg());
        b.all("tls", Budget(2 + x), d);
        d.seg = d.wseg = true;
        d.bucketPool   = true;
        b.all("tls segments", Budget(1 + x), d);
    }
    {
        // frames of many sizes, back to back, both directions
        Cfg d          = baseCfg();
        d.bucketPool   = true;
        string up, down;
        for (int n : {0, 1, 22, 23, 24, 25, 56, 57, 118, 120, 121, 247, 249, 1015, 1016, 1017, 4087, 4089}) {
            up += data(n, 'a' + n % 7);
            down += data(n, 'A' + n % 7, n % 2 ? 2 : 3, 7);
        }
        d.clientScript = {{W_OPENOK, 0, up, T_DATA}, {W_DATA, down.size(), up, T_DATA}};
        d.brokerScript = {{W_NONE, 0, down, T_DATA}, {W_DATA, up.size(), down, T_DATA}};
        b.all("frame sizes", Budget(1 + x), d);
        for (int n : {31, 32, 33, 63, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 1025, 4096}) {
            d.readChunk  = n;
            d.writeChunk = n % 3 ? 0 : n - 1;
            d.policy     = n % 3;
            b.add("frame sizes in pieces of " + std::to_string(n), Budget(x), d);
        }
    }
    {
        Cfg d          = baseCfg();
        d.bucketPool   = true;
        d.clientScript = {{W_OPENOK, 0, data(131064, 'a'), T_DATA}, {W_NONE, 0, data(70000, 'q'), T_DATA}};
        d.brokerScript = {{W_NONE, 0, data(131064, 'b') + data(10, 'k'), T_DATA}};
        d.readChunk    = 30000;
        b.all("large frames", Budget(1), d);
        d.readChunk  = 65536;
        d.writeChunk = 40000;
        b.all("large frames, large pieces", Budget(1), d);
        // up to the largest frame there may be, whose end arrives on its own
        for (int n : {131065, 140000, 149991, 149992})
            for (int piece : {65536, n / 2 + 4, n + 7}) {
                Cfg e          = baseCfg();
                e.bucketPool   = true;
                e.clientScript = {{W_OPENOK, 0, data(n, 'a') + data(3, 'c'), T_DATA}};
                e.brokerScript = {{W_NONE, 0, data(n, 'b') + data(3, 'd'), T_DATA}};
                e.readChunk    = piece;
                b.all("frames of " + std::to_string(n + 8) + " in pieces of " + std::to_string(piece), Budget(0), e);
            }
    }
    {
        Cfg d     = dataCfg();
        d.nClients = 2;
        b.all("two sessions", Budget(1 + x), d);
        d.sequential = true;
        b.all("two sessions in turn", Budget(1 + x), d);
    }
    {
        Cfg d         = dataCfg();
        d.clientEarly = {{W_TUNE, 0, amqp::heartbeat(), T_EARLY}, {W_TUNE, 0, amqp::heartbeat(), T_EARLY}};
        b.all("early heartbeats", Budget(2 + x), d);
    }
    for (int n : {70, 300, 1100, 5000}) {
        // many small frames that arrive at once
        Cfg    d = baseCfg();
        string up, down;
        for (int i = 0; i < n; ++i) {
            up += i % 3 ? data(i % 5, 'a' + i % 7) : amqp::heartbeat();
            down += i % 4 ? data(i % 3, 'A' + i % 7, 2, 3) : amqp::heartbeat();
        }
        d.clientScript = {{W_OPENOK, 0, up, T_DATA}, {W_DATA, down.size(), data(2, 'z'), T_DATA}};
        d.brokerScript = {{W_NONE, 0, down, T_DATA}, {W_DATA, up.size(), data(2, 'z'), T_DATA}};
        b.all(std::to_string(n) + " frames at once", Budget(n > 1000 ? x : 1 + x), d);
    }
    {
        // the broker sends data (and a heartbeat) right behind its OpenOk
        Cfg d          = baseCfg();
        d.stdBroker    = false;
        d.brokerScript = {{W_HEADER, 0, amqp::start(), T_HANDSHAKE},
                          {W_STARTOK, 0, amqp::tune(), T_HANDSHAKE},
                          {W_OPEN, 0, amqp::openOk() + data(9, 'b'), T_HANDSHAKE},
                          {W_NONE, 0, amqp::heartbeat() + data(2, 'c'), T_DATA}};
        d.clientScript = {{W_OPENOK, 0, data(3, 'a'), T_DATA}, {W_DATA, 20, data(4, 'z'), T_DATA}};
        Final f = [](World &w) {
            SessionCtx &s = w.S();
            if (!s.client.openOk || s.client.rx.size() - s.client.openOkEnd != s.conns.back()->dataTx.size() ||
                s.conns.back()->rx.size() - s.conns.back()->openEnd != s.client.dataTx.size())
                w.fail("C01", "stuck", "data sent right behind OpenOk is not passed on completely");
        };
        b.all("data behind OpenOk", Budget(2 + x), d, f);
        d.seg = true;
        b.all("data behind OpenOk in segments", Budget(2 + x, 1), d, f);
    }
    {
        Cfg d          = dataCfg();
        d.clientScript.push_back({W_NONE, 0, amqp::close(), T_CLOSE});
        b.all("client closes", Budget(2 + x), d);
        d              = dataCfg();
        d.brokerScript.push_back({W_NONE, 0, amqp::close(320, "going down"), T_CLOSE});
        b.all("broker closes", Budget(2 + x), d);
        d        = dataCfg();
        d.clientHangsUp = true;
        b.all("client hangs up after sending", Budget(2 + x), d);
        d        = dataCfg();
        d.faults = F_BROKER_EOF | F_CLIENT_EOF;
        b.all("end of stream", Budget(2 + x, 1, 0, 1, 0), d);
    }
    {
        // the same things behind a closing exchange that looks like data
        Cfg d          = baseCfg();
        d.clientScript = {{W_OPENOK, 0, amqp::method(20, 40, amqp::u16(200) + amqp::sstr("x") + amqp::u16(0) + amqp::u16(0), 1) + data(4, 'a'), T_DATA},
                          {W_NONE, 0, amqp::method(20, 41, "", 3) + amqp::method(60, 40, "abcdef", 2) + data(5, 'p'), T_DATA}};
        d.brokerScript = {{W_NONE, 0, amqp::method(20, 41, "", 1) + data(7, 'b'), T_DATA}, {W_NONE, 0, amqp::method(60, 60, "xyz", 1) + data(1, 'c', 2), T_DATA}};
        b.all("channel methods", Budget(2 + x), d);
    }
}

// ------------------------------------------------------------------ C02

static void c02(B &b)
{
    int x = b.th ? 1 : 0;
    Cfg c = baseCfg();
    b.all("order", Budget(3 + x), c);
    c.pipelineOpen = false;
    b.all("separate Open", Budget(3 + x), c);
    c.seg = true;
    b.all("segments", Budget(2 + x), c);
    for (int n : {1, 3, 7, 11}) {
        Cfg d       = baseCfg();
        d.readChunk = n;
        b.all("arrival in pieces of " + std::to_string(n), Budget(1), d);
    }
    Cfg d         = baseCfg();
    d.clientEarly = {{W_START, 0, amqp::heartbeat(), T_EARLY}, {W_TUNE, 0, amqp::heartbeat(), T_EARLY}};
    d.pipelineOpen = false;
    b.all("early heartbeats", Budget(2 + x), d);
    d = proxied(tlsBoth(baseCfg()));
    b.all("tls and proxy line", Budget(2 + x), d);
    d          = baseCfg();
    d.nClients = 2;
    b.all("two sessions", Budget(1 + x), d);
    d            = twoAddr(baseCfg());
    d.faults     = F_CONNECT;
    d.maxFaults  = 1;
    b.all("failover", Budget(2 + x), d);
    d          = baseCfg();
    d.fakeAuth = true;
    d.authAnswers = {answer(0)};
    b.all("auth", Budget(2 + x), d);
    // Two clients, auth answers in any order
    d.nClients = 2;
    b.all("auth, two sessions", Budget(1 + x), d);

    // what the peers agree on must not matter
    for (int ch : {0, 1, 65535})
        for (uint32_t fm : {0u, 4096u, 131072u, 0xffffffffu})
            for (int hb : {0, 1, 65535}) {
                Cfg e    = baseCfg();
                e.tuneCh = ch;
                e.tuneFm = fm;
                e.tuneHb = hb;
                e.policy = hb % 3;
                b.add("tuned to " + std::to_string(ch) + " " + std::to_string(fm) + " " + std::to_string(hb), Budget(0), e);
            }
    for (auto vh : {string(""), string("/"), string(255, 'v')}) {
        Cfg e         = baseCfg();
        e.vhost       = vh;
        e.defaultFarm = e.farms[0].name;
        e.creds       = "";
        e.mech        = vh.empty() ? "" : "EXTERNAL";
        e.locale      = "";
        e.props       = {};
        b.all("empty values, vhost of " + std::to_string(vh.size()), Budget(1), e);
    }

    // legacy protocol header
    d              = baseCfg();
    d.stdHandshake = false;
    d.clientScript = {{W_NONE, 0, amqp::legacyHeader(), T_HANDSHAKE},
                      {W_START, 0, amqp::startOk(d.props, d.mech, d.creds, d.locale), T_HANDSHAKE},
                      {W_TUNE, 0, amqp::tuneOk() + amqp::open("vh"), T_HANDSHAKE}};
    Final open = [](World &w) {
        if (!w.S().client.openOk)
            w.fail("C02", "handshake-stuck", "both peers follow the protocol but the handshake never completes");
    };
    b.all("legacy header", Budget(2), d, open);

    // clients that send the broker's messages themselves, at every stage
    struct Spoof {
        const char *name;
        string      bytes;
    } spoof[] = {{"Start", amqp::start()},
                 {"Tune", amqp::tune()},
                 {"OpenOk", amqp::openOk()},
                 {"all answers", amqp::start() + amqp::tune() + amqp::openOk()},
                 {"StartOk again", amqp::startOk(baseCfg().props, "PLAIN", "x", "en_US")},
                 {"TuneOk again", amqp::tuneOk()},
                 {"Open again", amqp::open("vh")}};
    for (auto &sp : spoof) {
        for (int when = 0; when < 4; ++when) {
            Cfg e = baseCfg();
            e.stdHandshake = false;
            string sok = amqp::startOk(e.props, e.mech, e.creds, e.locale), tok = amqp::tuneOk(), op = amqp::open("vh");
            std::vector<Item> sc = {{W_NONE, 0, amqp::header(), T_RAW}, {W_START, 0, sok, T_RAW}, {W_TUNE, 0, tok, T_RAW}, {W_TUNE, 0, op, T_RAW}};
            if (when < 3)
                sc.insert(sc.begin() + when + 1, {W_START, 0, sp.bytes, T_RAW});
            else
                sc.push_back({W_NONE, 0, sp.bytes, T_RAW});
            e.clientScript = sc;
            b.all(string("client sends ") + sp.name + " at " + std::to_string(when), Budget(when == 3 ? 2 : 1), e);
        }
    }
    // ... and while the broker is in its handshake
    for (auto &sp : spoof) {
        Cfg e         = baseCfg();
        e.clientEarly = {{W_TUNE, 0, sp.bytes, T_EARLY}};
        e.expectRefused = false;
        e.clientScript  = {{W_NEVER, 0, "", T_RAW}};
        // the completion requirement does not apply to such a client
        e.stdHandshake = false;
        string sok = amqp::startOk(e.props, e.mech, e.creds, e.locale), tok = amqp::tuneOk(), op = amqp::open("vh");
        e.clientScript = {{W_NONE, 0, amqp::header(), T_RAW}, {W_START, 0, sok, T_RAW}, {W_TUNE, 0, tok + op, T_RAW}};
        b.all(string("client sends ") + sp.name + " during the broker handshake", Budget(3, 3), e);
    }
    // the broker repeats itself or answers out of order
    {
        Cfg e          = baseCfg();
        e.stdBroker    = false;
        std::vector<std::vector<string>> seqs = {{amqp::tune()}, {amqp::openOk()}, {amqp::start(), amqp::openOk()}, {amqp::start(), amqp::start()}};
        int k = 0;
        for (auto &q : seqs) {
            e.brokerScript.clear();
            Wait ws[] = {W_HEADER, W_STARTOK, W_OPEN};
            for (size_t i = 0; i < q.size(); ++i) e.brokerScript.push_back({ws[i], 0, q[i], T_HANDSHAKE});
            b.all("broker out of order " + std::to_string(k++), Budget(1), e);
        }
    }
}

// ------------------------------------------------------------------ C03

static void c03(B &b)
{
    int x = b.th ? 1 : 0;
    std::vector<std::pair<string, std::vector<amqp::Field>>> sets;
    auto F = [](const string &n, const string &v) { return amqp::Field{n, v}; };
    using namespace amqp;
    sets.push_back({"none", {}});
    sets.push_back({"strings", {F("a", vS("")), F("b", vS("x")), F("", vS("noname")), F(string(255, 'n'), vS(string(300, 'v')))}});
    sets.push_back({"duplicates", {F("a", vS("1")), F("a", vS("2")), F("A", vS("3"))}});
    sets.push_back({"bytes", {F("z", vS(string("\0\xff\xce\x01", 4))), F("x", "x" + lstr(string("\0\1\2", 3)))}});
    sets.push_back({"bool and octets", {F("t", vt(true)), F("f", vt(false)), F("b", string("b\x80")), F("B", string("B\xff"))}});
    sets.push_back({"shorts", {F("s", "s" + u16(0x8000)), F("u", "u" + u16(0xffff)), F("s2", "s" + u16(1))}});
    sets.push_back({"ints", {F("I", "I" + u32(0x80000000u)), F("i", "i" + u32(0xffffffffu)), F("I2", "I" + u32(7))}});
    sets.push_back({"longs", {F("l", "l" + u64(0x8000000000000000ull)), F("l2", "l" + u64(5)), F("T", "T" + u64(1700000000))}});
    sets.push_back({"floats", {F("f", "f" + u32(0x3f800000)), F("d", "d" + u64(0x4000000000000000ull)), F("nan", "d" + u64(0x7ff8000000000001ull))}});
    sets.push_back({"void", {F("v", "V"), F("after", vS("x"))}});
    sets.push_back({"capabilities", {F("capabilities", vF({F("authentication_failure_close", vt(true)), F("basic.nack", vt(true)), F("connection.blocked", vt(false))})), F("product", vS("p"))}});
    sets.push_back({"empty nested", {F("e", vF({})), F("a", "A" + u32(0)), F("n", vF({F("e", vF({}))}))}});
    sets.push_back({"arrays", {F("a", "A" + lstr(vS("1") + vt(true) + "I" + u32(3))), F("aa", "A" + lstr("A" + lstr(vS("x") + "A" + u32(0)) + vF({F("k", vS("v"))})))}});
    sets.push_back({"deep", {F("d", vF({F("d", vF({F("d", vF({F("d", "A" + lstr(vF({F("l", vS("leaf"))})))}))}))}))}});
    sets.push_back({"decimal", {F("D", string("D\x02") + u32(314))}});
    {
        std::vector<Field> many;
        for (int i = 0; i < 60; ++i) many.push_back(F("k" + std::to_string(i), i % 3 ? vS(string(i, 'q')) : vt(i & 1)));
        sets.push_back({"many", many});
    }
    for (auto &s : sets) {
        Cfg c   = baseCfg();
        c.props = s.second;
        if (s.first == "decimal")
            continue;  // decimals are not supported: the session is refused, see C04
        b.all("properties: " + s.first, Budget(1), c);
        c.seg = true;
        c.bucketPool = true;
        b.add("properties in segments: " + s.first, Budget(1 + x), c);
    }
    struct { const char *n; string mech, creds, locale; } cr[] = {
        {"empty", "", "", ""}, {"binary", "PLAIN", string("\0u\xff\0p\x00", 6), "en_US"}, {"long", string(255, 'm'), string(5000, 'c'), string(255, 'l')},
        {"external", "EXTERNAL", "", "de_DE"}};
    for (auto &k : cr) {
        Cfg c    = baseCfg();
        c.mech   = k.mech;
        c.creds  = k.creds;
        c.locale = k.locale;
        b.all(string("credentials: ") + k.n, Budget(1), c);
    }
    struct { int ch; uint32_t fm; int hb; } tn[] = {{0, 0, 0}, {1, 4096, 1}, {65535, 0xffffffffu, 65535}, {2047, 131072, 580}, {256, 0x01020304, 0x0506}};
    for (auto &t : tn) {
        Cfg c    = baseCfg();
        c.tuneCh = t.ch;
        c.tuneFm = t.fm;
        c.tuneHb = t.hb;
        b.all("tune " + std::to_string(t.ch), Budget(1), c);
    }
    for (string v : {string("/"), string(""), string(255, 'v'), string("a\0b", 3), string("\xc3\xa9")}) {
        Cfg c       = baseCfg();
        c.vhost     = v;
        c.vhostFarm = {{v, "f1"}};
        b.all("vhost " + vx::hex(v, 6), Budget(1), c);
    }
    // identity of the client: address families, TLS, two different clients
    {
        Cfg c      = baseCfg();
        c.clientEp = {ep("fe80::1:2", 40001)};
        b.all("ipv6 client", Budget(1), c);
        b.all("tls", Budget(1), tlsBoth(baseCfg()));
        c          = baseCfg();
        c.nClients = 3;
        b.all("three clients", Budget(1 + x), c);
        c           = twoAddr(baseCfg());
        c.faults    = F_CONNECT;
        b.all("failover", Budget(2), c);
    }
    // what an allowing auth decision may change
    std::vector<authproto::AuthResponse> ans = {answer(0), answer(0, "because"), answer(0, "", "EXTERNAL", ""), answer(0, "why", "EXTERNAL", ""), answer(0, "ok then", "PLAIN", string("\0n\0w", 4)),
                                                answer(0, string(400, 'r'), "X", string(600, 'y'))};
    for (bool in : {false, true}) {
        Cfg c         = baseCfg();
        c.fakeAuth    = true;
        c.authInline  = in;
        c.authAnswers = ans;
        b.all(string("auth answers") + (in ? " inline" : ""), Budget(1), c);
        c.nClients = 2;
        c.vhosts   = {"vh", "vh2"};
        c.vhostFarm = {{"vh", "f1"}, {"vh2", "f1"}};
        b.all(string("auth answers, two clients") + (in ? " inline" : ""), Budget(0 + x), c);
    }
}

// ------------------------------------------------------------------ C04

namespace {
enum Stage { G_HEADER, G_STARTOK, G_TUNEOK, G_OPEN, G_CLIENT_DATA, G_START, G_TUNE, G_OPENOK, G_BROKER_DATA, STAGES };
const char *stageName[] = {"protocol header", "StartOk", "TuneOk", "Open", "client frame", "Start", "Tune", "OpenOk", "broker frame"};
const int   stageMsg[]  = {-1, wf::STARTOK, wf::TUNEOK, wf::OPEN, -1, wf::START, wf::TUNE, wf::OPENOK, -1};

// Must input beginning with this end the session?  (Not: may it.)
bool mustEnd(int stage, const string &m)
{
    if (stage == G_HEADER)
        return m.size() >= 8 && m.substr(0, 8) != amqp::header() && m.substr(0, 8) != amqp::legacyHeader();
    if (m.size() < 8)
        return false;
    uint64_t n = amqp::rd32(m, 3);
    if (n + 8 > 150000 && n + 8 > m.size())
        return true;
    if (n + 8 > m.size())
        return false;
    if ((unsigned char)m[7 + n] != 0xce)
        return true;
    if (stageMsg[stage] < 0 || m[0] != 1)
        return false;
    if (n < 4)
        return true;
    if (amqp::rd16(m, 7) != 10)
        return false;
    if (amqp::rd16(m, 9) != (unsigned)wf::msgId[stageMsg[stage]])
        return true;
    string canon;
    int    deepest = 0;
    return !wf::reference(stageMsg[stage], m.substr(11, n - 4), &canon, &deepest);
}

string original(int stage, const Cfg &c)
{
    switch (stage) {
    case G_HEADER: return amqp::header();
    case G_STARTOK: return amqp::startOk({{"a", amqp::vF({{"n", amqp::vt(true)}, {"l", "A" + amqp::lstr("b\x05V")}})}, {"connection_name", amqp::vS("cn")}, {"i", "I" + amqp::u32(7)}}, c.mech, c.creds, c.locale);
    case G_TUNEOK: return amqp::tuneOk();
    case G_OPEN: return amqp::open("vh");
    case G_START: return amqp::start({{"p", amqp::vS("q")}, {"c", amqp::vF({{"n", amqp::vt(true)}})}});
    case G_TUNE: return amqp::tune();
    case G_OPENOK: return amqp::openOk();
    default: return data(6, 'd');
    }
}

Cfg badPeer(int stage, const string &msg)
{
    Cfg c        = dataCfg();
    c.nClients   = 2;
    c.badSession = 0;
    auto at      = [&](int st) { return st == stage ? msg : original(st, c); };
    c.badClient  = {{W_NONE, 0, at(G_HEADER), T_HANDSHAKE}, {W_START, 0, at(G_STARTOK), T_HANDSHAKE}, {W_TUNE, 0, at(G_TUNEOK), T_HANDSHAKE}, {W_TUNE, 0, at(G_OPEN), T_HANDSHAKE}, {W_OPENOK, 0, at(G_CLIENT_DATA), T_DATA}};
    c.badBroker  = {{W_HEADER, 0, at(G_START), T_HANDSHAKE}, {W_STARTOK, 0, at(G_TUNE), T_HANDSHAKE}, {W_OPEN, 0, at(G_OPENOK), T_HANDSHAKE}, {W_NONE, 0, at(G_BROKER_DATA), T_DATA}};
    return c;
}

void runBad(vx::Chooser &ch, int stage, const string &msg, int policy, size_t chunk)
{
    Cfg c       = badPeer(stage, msg);
    c.policy    = policy;
    c.readChunk = chunk;
    bool end    = mustEnd(stage, msg);
    runScenario(ch, c, [=](World &w) {
        SessionCtx &s = w.S(0), &o = w.S(1);
        if (end && (!w.isFinished(s) || s.ing.isOpen || s.egr.isOpen))
            w.fail("C04", "malformed-kept", string("a malformed ") + stageName[stage] + " does not end the session: " + vx::hex(msg, 200));
        if (w.isFinished(s) && (s.ing.isOpen || s.egr.isOpen))
            w.fail("C04", "half-closed", string("after a bad ") + stageName[stage] + " a socket of the session stays open: " + vx::hex(msg, 200));
        if (!o.client.openOk || w.isFinished(o) || !o.conn || o.client.rx.size() - o.client.openOkEnd != o.conn->dataTx.size() || o.conn->rx.size() - o.conn->openEnd != o.client.dataTx.size())
            w.fail("C04", "other-session-hurt", string("a bad ") + stageName[stage] + " in one session disturbed another: " + vx::hex(msg, 200));
    });
}
}

static void c04(B &b)
{
    // well-formed properties of unexpected types, for every way a session goes on
    for (string name : {"capabilities", "connection_name", "product", "amqpprox_client"})
        for (string v : {amqp::vF({}), amqp::vF({{"authentication_failure_close", amqp::vF({})}}), amqp::vF({{"authentication_failure_close", string("V")}}), amqp::vS("x"), amqp::vS(string(300, 'y')), amqp::vt(true), string("V"), string("I\0\0\0\1", 5), string("b\1", 2),
                         string("A\0\0\0\0", 5), string("A\0\0\0\1V", 6), string("x\0\0\0\1z", 6), string("T\0\0\0\0\0\0\0\1", 9), string("D\1\0\0\0\2", 6), string("f\0\0\0\0", 5), string("d\0\0\0\0\0\0\0\0", 9)}) {
            Cfg c = baseCfg();
            for (auto &f : c.props)
                if (f.name == name)
                    f.name = "other";
            c.props.push_back({name, v});
            c.nClients    = 2;
            c.fakeAuth    = true;
            c.authAnswers = {answer(0), answer(1, "no"), answer(1)};
            b.add("property " + name + " of type " + v.substr(0, 1) + std::to_string(v.size()), Budget(0), c);
            c.vhostFarm.clear();
            b.add("property " + name + " of type " + v.substr(0, 1) + std::to_string(v.size()) + ", unmapped", Budget(0), c);
        }
    for (int stage = 0; stage < STAGES; ++stage)
        for (int v = 0; v < 2; ++v) {
            bool     th = b.th;
            Scenario s;
            s.name   = string("changed byte in ") + stageName[stage] + (v ? ", in pieces" : "");
            s.budget = Budget(0);
            s.run    = [stage, v, th](vx::Chooser &c) {
                Cfg    cf  = baseCfg();
                string m   = original(stage, cf);
                size_t pos = c.choose(vx::FREE, m.size(), "position");
                bool   key = pos < 11 || pos + 1 == m.size() || stage == G_HEADER;
                int    val;
                if (th || (key && !v))
                    val = c.choose(vx::FREE, 256, "value");
                else {
                    static const int some[] = {0, 1, 2, 0x7f, 0x80, 0xff, 'A', 'F', 'S', 'V', 0xce};
                    val = some[c.choose(vx::FREE, 11, "value")];
                }
                m[pos] = val;
                runBad(c, stage, m, v, v ? 5 : 0);
            };
            b.out.push_back(s);
            if (stage == G_HEADER)
                continue;
            s.name = string("shortened ") + stageName[stage] + (v ? ", in pieces" : "");
            s.run  = [stage, v](vx::Chooser &c) {
                Cfg    cf  = baseCfg();
                string m   = original(stage, cf);
                size_t n   = m.size() - 8;
                size_t cut = c.choose(vx::FREE, n, "kept");
                int    how = c.choose(vx::FREE, 3, "how");
                string p   = m.substr(7, cut);
                if (how == 1)  // from the front
                    p = m.substr(7 + n - cut, cut);
                string f = amqp::frame((unsigned char)m[0], (unsigned char)m[2], p);
                if (how == 2)  // cut off without a frame end, something else follows
                    f = m.substr(0, 7 + cut) + string(n - cut + 1, '\0') + data(3, 'z');
                runBad(c, stage, f, v, v ? 3 : 0);
            };
            b.out.push_back(s);
            s.name = string("garbage for ") + stageName[stage] + (v ? ", in pieces" : "");
            s.run  = [stage, v](vx::Chooser &c) {
                Cfg                 cf = baseCfg();
                string              m  = original(stage, cf);
                string              deep = "V";
                for (int i = 0; i < 9000; ++i) deep = "A" + amqp::lstr(deep);
                std::vector<string> g  = {
                    string(64, '\0'), string(64, '\xff'), string("GET / HTTP/1.1\r\nHost: x\r\n\r\n"), amqp::header(), string(1, '\x01') + amqp::u16(0) + amqp::u32(149993) + "x", string("\x01") + amqp::u16(0) + amqp::u32(0x7fffffff) + string(20, 'y'),
                    string(1, '\x03') + amqp::u16(1) + amqp::u32(0xffffffff) + string(20, 'y'), amqp::frame(3, 1, string(149992, 'q')), amqp::frame(3, 1, string(149993, 'q')), amqp::frame(1, 0, ""), amqp::frame(1, 0, string("\0\x0a\0", 3)), m.substr(0, m.size() - 1) + string("\xcf") + m,
                    amqp::startOk({{"deep", deep}}, "PLAIN", "c", "l"), amqp::method(10, 10, string("\0\x09", 2) + amqp::table({{"deep", deep}}) + amqp::lstr("P") + amqp::lstr("e")), amqp::heartbeat() + m, m + amqp::frame(1, 0, ""),
                };
                runBad(c, stage, g[c.choose(vx::FREE, g.size(), "which")], v, v ? 7777 : 0);
            };
            s.maxSteps = 400000;
            b.out.push_back(s);
        }
}

// ------------------------------------------------------------------ C05

static void c05(B &b)
{
    int x = b.th ? 1 : 0;
    std::vector<authproto::AuthResponse> ans = {answer(0), answer(1, "no"), answer(2, "?"), answer(7, "??"), answer(-1), answer(1), answer(0, "r", "EXTERNAL", "z"), answer(1, "n", "EXTERNAL", "z")};
    for (bool in : {false, true}) {
        Cfg c         = baseCfg();
        c.fakeAuth    = true;
        c.authInline  = in;
        c.authAnswers = ans;
        string tag    = in ? " inline" : "";
        b.all("answers" + tag, Budget(2 + x), c);
        c.faults = F_CLIENT_EOF | F_CLIENT_RST;
        b.all("answers, client lost" + tag, Budget(2 + x, 1, 0, 1, 0), c);
        c.faults = 0;
        c.ops    = {{OP_FORCE}};
        b.all("answers, forced disconnect" + tag, Budget(2 + x, 1, 0, 0, 1), c);
        c.ops    = {{OP_PAUSE}, {OP_UNPAUSE}};
        b.all("answers, pause" + tag, Budget(2 + x, 1, 0, 0, 2), c);
        c.ops    = {{OP_PAUSE}};
        b.all("answers, paused" + tag, Budget(2, 1, 0, 0, 1), c);
        c.ops.clear();
        c.nClients  = 2;
        c.vhosts    = {"vh", "vh2"};
        c.vhostFarm = {{"vh", "f1"}, {"vh2", "f1"}};
        c.authAnswers = {answer(0), answer(1, "no")};
        b.all("two clients" + tag, Budget(1 + x), c);
        c.faults = F_CLIENT_EOF;
        b.all("two clients, one lost" + tag, Budget(1 + x, 1, 0, 1, 0), c);
        c.faults    = 0;
        c.nClients  = 1;
        c.backends  = {{"b1", "dc1", "h1", "10.0.0.1", 5672}, {"b2", "dc1", "h2", "10.0.0.2", 5672}};
        c.farms     = {{"f1", {"b1", "b2"}}};
        c.faults    = F_CONNECT;
        c.maxFaults = 2;
        b.all("failover" + tag, Budget(2 + x), c);
    }
    for (const char *cap : {"yes", "no", "absent", "odd"}) {
        Cfg c   = baseCfg();
        string k = cap;
        if (k != "absent")
            c.props.push_back({"capabilities", amqp::vF({{"authentication_failure_close", k == "odd" ? amqp::vS("true") : amqp::vt(k == "yes")}})});
        c.fakeAuth    = true;
        c.authAnswers = ans;
        b.all(string("capability ") + cap, Budget(1 + x), c);
    }
    // what the client says about itself, of every kind and length
    auto prop = [](Cfg &c, const string &name, const string &value) {
        std::vector<amqp::Field> keep;
        for (auto &f : c.props)
            if (f.name != name)
                keep.push_back(f);
        keep.push_back({name, value});
        c.props = keep;
    };
    auto content = [&](const string &name, const std::function<void(Cfg &)> &set) {
        Cfg c         = baseCfg();
        c.fakeAuth    = true;
        c.authAnswers = {answer(0), answer(1, "no"), answer(7)};
        set(c);
        b.all("asked with " + name, Budget(0), c);
        c.authInline = true;
        b.all("asked inline with " + name, Budget(0), c);
    };
    for (string m : {string(), string("PLAIN"), string("EXTERNAL"), string("ANONYMOUS"), string(255, 'M')})
        content("mechanism of " + std::to_string(m.size()) + " " + m.substr(0, 4), [m](Cfg &c) { c.mech = m; });
    for (int n : {0, 1, 2, 3, 31, 32, 33, 255, 256, 4095, 4096, 4097, 60000})
        content("credentials of " + std::to_string(n), [n](Cfg &c) { c.creds = string(n, '\0') + (n > 3 ? string("\xff\x80") : string()); });
    for (int n : {0, 1, 31, 32, 33, 127, 128, 254, 255})
        content("vhost of " + std::to_string(n), [n](Cfg &c) {
            c.vhost     = string(n, 'h');
            c.vhostFarm = {{c.vhost, "f1"}};
        });
    for (int n : {0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1024, 5000})
        content("connection name of " + std::to_string(n), [n, prop](Cfg &c) { prop(c, "connection_name", amqp::vS(string(n, 'n'))); });
    for (string v : {amqp::vF({{"connection_name", amqp::vS("x")}}), amqp::vt(true), string("V"), string("I\0\0\0\1", 5), string("A\0\0\0\0", 5), string("x\0\0\0\1z", 6)}) {
        content(string("connection name of type ") + v[0], [v, prop](Cfg &c) { prop(c, "connection_name", v); });
        content(string("capabilities of type ") + v[0], [v, prop](Cfg &c) { prop(c, "capabilities", v); });
    }
    content("no properties", [](Cfg &c) { c.props.clear(); });
}

// ------------------------------------------------------------------ C06

static void c06(B &b)
{
    int x = b.th ? 1 : 0;
    // another protocol
    for (string h : {string("AMQP\x00\x01\x00\x00", 8), string("GET / HT"), string("AMQP\x01\x01\x08\x00", 8), string("AMQP\x00\x00\x09\x00", 8), string("\x16\x03\x01\x02\x00\x01\x00\x01", 8),
                     string("AMQP\x00\x00\x09\x01", 8).substr(0, 7) + "\x02", string(64, 'z')}) {
        for (bool tls : {false, true}) {
            Cfg c           = baseCfg();
            c.clientTls     = tls;
            c.stdHandshake  = false;
            c.clientScript  = {{W_NONE, 0, h, T_RAW}};
            c.expectRefused = true;
            c.refuseHeader  = true;
            c.noBroker      = true;
            b.all("header " + vx::hex(h, 10) + (tls ? " tls" : ""), Budget(2), c);
            c.seg = true;
            if (h.size() == 8)
                b.all("header in segments " + vx::hex(h, 10) + (tls ? " tls" : ""), Budget(2 + x), c);
        }
    }
    // auth
    for (const char *cap : {"yes", "no", "absent", "odd", "capabilities is a string", "empty capabilities"}) {
        for (int reason = 0; reason < 4; ++reason) {
            for (bool in : {false, true}) {
                if (in && reason)
                    continue;
                Cfg    c = baseCfg();
                string k = cap, r = reason == 0 ? "not you" : reason == 1 ? "" : reason == 2 ? string(255, 'r') : string(300, 'r') + "END";
                if (k == "capabilities is a string")
                    c.props.push_back({"capabilities", amqp::vS("authentication_failure_close")});
                else if (k == "empty capabilities")
                    c.props.push_back({"capabilities", amqp::vF({})});
                else if (k != "absent")
                    c.props.push_back({"capabilities", amqp::vF({{"a", amqp::vt(false)}, {"authentication_failure_close", k == "odd" ? amqp::vS("true") : amqp::vt(k == "yes")}})});
                c.fakeAuth      = true;
                c.authInline    = in;
                c.authAnswers   = {answer(1, r)};
                c.expectRefused = true;
                c.noBroker      = true;
                c.refuseCode    = k == "yes" ? 403 : 0;
                c.refuseText    = r.substr(0, 255);
                c.exactText     = true;
                b.all(string("denied, ") + cap + " " + std::to_string(reason) + (in ? " inline" : ""), Budget(k == "yes" || k == "no" ? 2 : 1), c);
                if (k == "yes" && reason == 0) {
                    Cfg d       = tlsBoth(c);
                    b.all(string("denied tls") + (in ? " inline" : ""), Budget(2), d);
                    d           = c;
                    d.nClients  = 2;
                    b.all(string("two denied") + (in ? " inline" : ""), Budget(1 + x), d);
                    for (auto re : {R_CLOSE_THEN_OK, R_EOF, R_RST, R_SILENT}) {
                        d               = c;
                        d.clientOnClose = re;
                        b.all("denied, client reaction " + std::to_string(re) + (in ? " inline" : ""), Budget(1), d);
                    }
                }
            }
        }
    }
    // no mapping, bad mappings
    for (int k = 0; k < 5; ++k) {
        Cfg c           = baseCfg();
        c.vhostFarm     = {};
        c.expectRefused = c.noBroker = true;
        c.refuseCode    = 506;
        if (k == 1)
            c.vhostFarm = {{"vh", "nofarm"}};
        if (k == 2)
            c.vhostBackend = {{"vh", "nobackend"}};
        if (k == 3)
            c.vhost = string(200, 'v');
        if (k == 4)
            c.vhost = string(255, 'w');
        c.refuseText = c.vhost;
        b.all("unmapped " + std::to_string(k), Budget(2), c);
        c.seg = true;
        b.add("unmapped in segments " + std::to_string(k), Budget(1 + x), c);
        c.seg      = false;
        if (k == 0) {
            b.all("unmapped tls", Budget(2), tlsBoth(c));
            for (auto re : {R_CLOSE_THEN_OK, R_CLOSE_ONLY, R_EOF, R_RST, R_SILENT}) {
                Cfg d           = c;
                d.clientOnClose = re;
                b.all("unmapped, client reaction " + std::to_string(re), Budget(1), d);
            }
        }
    }
    // limited: at once when already over the limit, after a short while
    for (int v = 0; v < 2; ++v) {
        Cfg c           = baseCfg();
        c.limitPerSec   = 0;
        c.expectRefused = c.noBroker = true;
        c.refuseCode    = 506;
        c.timeSteps     = 3;
        if (v)
            c.vhost = string(240, 'q'), c.vhostFarm = {{c.vhost, "f1"}};
        c.refuseText    = c.vhost;
        b.all("limited " + std::to_string(v), Budget(2), c);
        c.faults        = F_CLIENT_EOF | F_CLIENT_RST;
        b.all("limited and lost " + std::to_string(v), Budget(2, 1, 0, 1, 0), c);
    }
    // the broker rejects
    for (int stage = 0; stage < 3; ++stage) {
        for (string text : {string("ACCESS_REFUSED - vhost"), string(""), string(255, 't')}) {
            for (int code : {403, 530}) {
                Cfg c = baseCfg();
                c.stdBroker = false;
                std::vector<Item> sc = {{W_HEADER, 0, amqp::start(), T_HANDSHAKE}, {W_STARTOK, 0, amqp::tune(), T_HANDSHAKE}, {W_OPEN, 0, amqp::openOk(), T_HANDSHAKE}};
                sc.resize(stage + 1);
                sc[stage].bytes = amqp::close(code, text, 10, 40);
                sc[stage].tag   = T_CLOSE;
                c.brokerScript  = sc;
                c.expectRefused = true;
                c.refuseCode    = code;
                c.refuseText    = text;
                c.exactText     = true;
                string n        = "broker rejects at " + std::to_string(stage) + " code " + std::to_string(code) + " text " + std::to_string(text.size());
                b.all(n, Budget(code == 403 ? 2 : 1), c);
                if (text.size() > 1 && code == 530) {
                    c.seg = true;
                    b.all(n + " in segments", Budget(1 + x), c);
                    c.seg = false;
                    b.all(n + " tls", Budget(1), tlsBoth(c));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C08

static void checkFailover(World &w)
{
    for (auto &p : w.ss) {
        SessionCtx &s = *p;
        if (!s.started || !s.client.openSent)
            continue;
        const Cfg &cf = w.cfg;
        // candidate backends, local datacenter first when the farm has affinity
        std::vector<string> members;
        string              farm = cf.vhostFarm.count(s.vhost) ? cf.vhostFarm.at(s.vhost) : "";
        bool                aff  = false;
        for (auto &f : cf.farms)
            if (f.name == farm) {
                members = f.members;
                aff     = f.affinity;
            }
        if (cf.vhostBackend.count(s.vhost))
            members = {cf.vhostBackend.at(s.vhost)};
        std::vector<std::vector<string>> parts(2);
        for (auto &m : members)
            for (auto &bk : cf.backends)
                if (bk.name == m)
                    parts[aff && bk.dc != cf.localDc ? 1 : 0].push_back(m);
        // the order within a partition is the farm's own
        if (!farm.empty() && members.size() > 1) {
            auto   set = w.farmStore.getFarmByName(farm).backendSet();
            size_t i   = 0;
            for (auto &part : parts) {
                if (part.empty())
                    continue;
                std::vector<string> real;
                if (i < set->partitions().size())
                    for (auto *bk : set->partitions()[i])
                        if (bk)
                            real.push_back(bk->name());
                ++i;
                if (std::multiset<string>(real.begin(), real.end()) == std::multiset<string>(part.begin(), part.end()))
                    part = real;
            }
        }
        // what was tried, grouped by backend
        std::vector<string> order;
        bool                reached = false;
        std::map<string, std::vector<string>> tried;
        for (auto &a : s.attempts) {
            if (reached)
                w.fail("C08", "attempt-after-success", "another address is tried after a successful connection");
            if (order.empty() || order.back() != a.backend) {
                if (tried.count(a.backend))
                    w.fail("C08", "candidate-twice", "backend " + a.backend + " is tried twice");
                order.push_back(a.backend);
            }
            tried[a.backend].push_back(a.to.address().to_string());
            reached = a.ok;
        }
        // a backend whose resolution failed is skipped
        std::set<string> skipped;
        for (auto &bk : cf.backends)
            if (bk.dns && w.resolveFailed.count({s.id, bk.host}))
                skipped.insert(bk.name);
        // within each partition the order is a rotation of the member order
        std::vector<string> want;
        size_t              at = 0;
        for (auto &part : parts) {
            if (part.empty())
                continue;
            size_t n = part.size();
            bool   matched = false;
            for (size_t r = 0; r < n && !matched; ++r) {
                std::vector<string> exp;
                for (size_t i = 0; i < n; ++i)
                    if (!skipped.count(part[(r + i) % n]))
                        exp.push_back(part[(r + i) % n]);
                bool ok = true;
                size_t k = 0;
                for (; k < exp.size() && at + k < order.size(); ++k)
                    if (exp[k] != order[at + k])
                        ok = false;
                if (ok && (k == exp.size() || at + k == order.size())) {
                    matched = true;
                    at += k;
                }
            }
            if (!matched)
                w.fail("C08,C09", "candidate-order", "the candidates are not tried in selection order");
        }
        if (at < order.size())
            w.fail("C08,C09", "unexpected-candidate", "a backend outside the farm, or one twice, is tried: " + order[at]);
        for (auto &t : tried) {
            const BackendCfg *bk = nullptr;
            for (auto &x : cf.backends)
                if (x.name == t.first)
                    bk = &x;
            if (!bk)
                continue;
            std::vector<string> addrs = bk->dns ? cf.dns.at(bk->host) : std::vector<string>{bk->ip};
            bool last = t.first == order.back();
            for (size_t i = 0; i < t.second.size(); ++i)
                if (i >= addrs.size() || addrs[i] != t.second[i])
                    w.fail("C08", "address-order", "the addresses of " + t.first + " are not tried in order, each once");
            if (t.second.size() < addrs.size() && !(last && reached) && !s.cClientGone && !s.cProxy && !s.paused)
                w.fail("C08", "address-skipped", "an address of " + t.first + " is never tried");
        }
        bool lost = s.cClientGone || s.cProxy || s.authDenied || s.everPaused;
        if (!lost) {
            size_t all = 0;
            for (auto &part : parts) all += part.size();
            if (!reached && order.size() + skipped.size() < all)
                w.fail("C08", "candidate-skipped", "the session gives up although " + std::to_string(all - order.size() - skipped.size()) + " backends were not tried");
            if (reached && !s.client.openOk && !s.cBrokerGone && !w.hsFailed)
                w.fail("C08", "reached-not-open", "a backend accepted the connection but the session does not open");
            if (reached && (w.isFinished(s) || !s.ing.isOpen) && !s.cBrokerGone && !w.hsFailed)
                w.fail("C08", "reached-but-closed", "a backend accepted the connection but the client is disconnected");
            if (!reached && (!w.isFinished(s) || s.ing.isOpen))
                w.fail("C08", "not-disconnected", "all candidates failed but the client is not disconnected");
        }
    }
}

static void c08(B &b)
{
    int x = b.th ? 1 : 0;
    auto mk = [](int n, bool dns, int addrs, bool aff) {
        Cfg c = baseCfg();
        c.backends.clear();
        c.farms = {{"f1", {}, aff}};
        for (int i = 1; i <= n; ++i) {
            BackendCfg bk;
            bk.name = "b" + std::to_string(i);
            bk.dc   = i % 2 ? "dc2" : "dc1";
            bk.host = "h" + std::to_string(i);
            bk.ip   = dns ? "" : "10.0.0." + std::to_string(i);
            bk.port = 5670 + i;
            bk.dns  = dns;
            if (dns)
                for (int a = 0; a < addrs; ++a) c.dns[bk.host].push_back("10.0." + std::to_string(i) + "." + std::to_string(a + 1));
            c.backends.push_back(bk);
            c.farms[0].members.push_back(bk.name);
        }
        c.faults    = F_CONNECT;
        c.maxFaults = 99;
        return c;
    };
    for (int n = 1; n <= 4; ++n)
        for (bool aff : {false, true}) {
            Cfg c = mk(n, false, 1, aff);
            b.all("static " + std::to_string(n) + (aff ? " affinity" : ""), Budget(n + 1, 1), c, checkFailover);
            c.faults |= F_SOCKOPT;
            if (n <= 2)
                b.all("socket errors " + std::to_string(n) + (aff ? " affinity" : ""), Budget(n + 1, 0), c, checkFailover);
        }
    for (int n = 1; n <= 3; ++n)
        for (int a = 1; a <= 3; ++a) {
            if (n * a > 6)
                continue;
            Cfg c = mk(n, true, a, n == 3);
            c.faults |= F_DNS;
            b.all("dns " + std::to_string(n) + "x" + std::to_string(a), Budget(n * a + 1, n * a <= 4 ? 1 : 0), c, checkFailover);
        }
    for (int a : {4, 5, 8, 17}) {
        // many addresses, all but one of which do not answer
        Cfg c = mk(1, true, a, false);
        b.all("dns 1x" + std::to_string(a), Budget(a, 0), c, checkFailover);
        c = mk(2, true, a, false);
        b.add("dns 2x" + std::to_string(a), Budget(b.th ? 4 : 3, 0), c, checkFailover);
    }
    for (int n : {5, 8, 17}) {
        Cfg c = mk(n, false, 1, false);
        b.all("static " + std::to_string(n), Budget(n, 0), c, checkFailover);
    }
    for (int n : {4, 5, 8}) {
        // names that do not resolve or do not answer, in every combination
        Cfg c = mk(n, true, 1, n == 5);
        c.faults |= F_DNS;
        b.all("dns " + std::to_string(n), Budget(n, 0), c, checkFailover);
    }
    {
        // mixed static and dns, mixed address families, tls and proxy settings
        Cfg c       = baseCfg();
        c.backends  = {{"b1", "dc1", "h1", "", 5671, false, false, true}, {"b2", "dc1", "h2", "10.0.2.1", 5672, true, false, false},
                       {"b3", "dc1", "h3", "fd00::3", 5673, false, true, false}};
        c.dns       = {{"h1", {"fd00::1", "10.0.1.1"}}};
        c.farms     = {{"f1", {"b1", "b2", "b3"}}};
        c.faults    = F_CONNECT | F_DNS;
        c.maxFaults = 99;
        b.all("mixed", Budget(5, 1), c, checkFailover);
        c.faults |= F_SOCKOPT;
        b.all("mixed, socket errors", Budget(3, 0), c, checkFailover);
        // client lost, forced disconnect meanwhile
        c.faults = F_CONNECT | F_CLIENT_EOF | F_CLIENT_RST;
        b.all("mixed, client lost", Budget(2 + x, 1), c, checkFailover);
        c.faults = F_CONNECT;
        c.ops    = {{OP_FORCE}};
        b.all("mixed, forced disconnect", Budget(3, 1, 0, 1, 1), c, checkFailover);
    }
    {
        Cfg c          = mk(3, false, 1, false);
        c.vhostFarm    = {};
        c.vhostBackend = {{"vh", "b2"}};
        b.all("direct backend", Budget(2, 1), c, checkFailover);
        c              = mk(2, true, 2, false);
        c.vhostFarm    = {};
        c.vhostBackend = {{"vh", "b2"}};
        c.faults |= F_DNS;
        b.all("direct dns backend", Budget(3, 1), c, checkFailover);
    }
    {
        // several sessions: one client's failures leave the others alone
        Cfg c      = mk(2, false, 1, false);
        c.nClients = 2;
        b.all("two sessions", Budget(2 + x, 1), c, checkFailover);
        c            = mk(3, true, 2, false);
        c.nClients   = 2;
        c.sequential = true;
        c.faults |= F_DNS;
        b.all("two sessions in turn", Budget(2 + x, 0), c, checkFailover);
    }
}

// ------------------------------------------------------------------ C10

static void checkRobin(World &w)
{
    std::map<string, std::vector<string>> firsts;
    for (auto &p : w.ss) {
        SessionCtx &s = *p;
        if (s.attempts.empty())
            w.fail("C10", "no-attempt", "a session makes no connection attempt");
        else
            firsts[w.cfg.vhostFarm.at(s.vhost)].push_back(s.attempts[0].backend);
    }
    for (auto &f : firsts) {
        size_t n = 0;
        for (auto &fc : w.cfg.farms)
            if (fc.name == f.first) {
                std::set<string> loc, rest;
                for (auto &m : fc.members)
                    for (auto &bk : w.cfg.backends)
                        if (bk.name == m)
                            (fc.affinity && bk.dc != w.cfg.localDc ? rest : loc).insert(m);
                n = loc.empty() ? rest.size() : loc.size();
                for (auto &x : f.second)
                    if (!loc.count(x) && !(loc.empty() && rest.count(x)))
                        w.fail("C10,C09", "wrong-partition", "the first choice " + x + " is not in the first partition");
            }
        auto &v = f.second;
        for (size_t i = 0; i + n <= v.size(); ++i) {
            std::set<string> seen(v.begin() + i, v.begin() + i + n);
            if (seen.size() != n) {
                string l;
                for (auto &x : v) l += x + " ";
                w.fail("C10", "uneven-rotation", "farm " + f.first + " with " + std::to_string(n) + " backends: successive sessions start at " + l);
            }
        }
    }
}

static void c10(B &b)
{
    int x = b.th ? 1 : 0;
    auto mk = [](int n, int clients) {
        Cfg c = baseCfg();
        c.backends.clear();
        c.farms      = {{"f1", {}}, {"f2", {}}};
        c.nClients   = clients;
        c.sequential = true;
        for (int i = 1; i <= n; ++i) {
            BackendCfg bk;
            bk.name = "b" + std::to_string(i);
            bk.dc   = i % 3 == 0 ? "dc2" : "dc1";
            bk.host = "h";
            bk.ip   = "10.0.0." + std::to_string(i);
            bk.port = 5672;
            c.backends.push_back(bk);
            c.farms[0].members.push_back(bk.name);
            if (i != 2)
                c.farms[1].members.push_back(bk.name);
        }
        return c;
    };
    for (int n = 1; n <= 5; ++n) {
        Cfg c = mk(n, std::min(10, 2 * n + 1));
        b.all("farm of " + std::to_string(n), Budget(n <= 3 ? 1 + x : 0), c, checkRobin);
        c.sequential = false;
        c.nClients   = std::min(10, n + 1);
        b.all("farm of " + std::to_string(n) + ", sessions overlap", Budget(n <= 3 ? 1 : 0), c, checkRobin);
        c.fakeAuth    = true;
        c.authAnswers = {answer(0)};
        b.all("farm of " + std::to_string(n) + ", sessions overlap in auth", Budget(n <= 3 ? 1 : 0), c, checkRobin);
        // affinity
        c          = mk(n, std::min(10, 2 * n + 1));
        c.farms[0].affinity = true;
        b.all("affinity farm of " + std::to_string(n), Budget(0), c, checkRobin);
        c.localDc = "dc2";
        b.all("affinity farm of " + std::to_string(n) + ", local dc2", Budget(0), c, checkRobin);
        c.localDc = "dc9";
        b.all("affinity farm of " + std::to_string(n) + ", no local", Budget(0), c, checkRobin);
        // two farms sharing backends, sessions alternating in several patterns
        for (int pat = 1; pat < 6 && n > 1; ++pat) {
            c        = mk(n, 10);
            c.vhostFarm = {{"vh", "f1"}, {"w", "f2"}};
            c.vhosts.clear();
            for (int i = 0; i < 10; ++i) c.vhosts.push_back((i * pat / 3 + (pat > 3 ? i : 0)) % 2 ? "w" : "vh");
            b.add("two farms of " + std::to_string(n) + " pattern " + std::to_string(pat), Budget(0), c, checkRobin);
        }
        // dns backends
        c = mk(n, std::min(10, 2 * n + 1));
        for (auto &bk : c.backends) {
            bk.dns  = true;
            bk.host = "h" + bk.name;
            c.dns[bk.host] = {bk.ip};
            bk.ip   = "";
        }
        b.all("dns farm of " + std::to_string(n), Budget(0), c, checkRobin);
        // proxy line and tls
        c = tlsBoth(proxied(mk(n, std::min(10, 2 * n + 1))));
        b.all("tls farm of " + std::to_string(n), Budget(0), c, checkRobin);
    }
}

// ------------------------------------------------------------------ C13, C17

static void teardown(B &b, bool pool)
{
    int x = b.th ? 1 : 0;
    auto base = [&](Cfg c) {
        c.bucketPool = pool;
        return c;
    };
    std::vector<std::pair<string, Cfg>> kinds;
    kinds.push_back({"plain", base(dataCfg())});
    kinds.push_back({"tls", base(tlsBoth(dataCfg()))});
    kinds.push_back({"proxy", base(proxied(dataCfg()))});
    if (b.th)
        kinds.push_back({"two addresses", base(twoAddr(dataCfg()))});
    {
        Cfg c         = base(dataCfg());
        c.fakeAuth    = true;
        c.authAnswers = {answer(0), answer(1, "no")};
        kinds.push_back({"auth", c});
    }
    int all = F_CLIENT_EOF | F_CLIENT_RST | F_BROKER_EOF | F_BROKER_RST;
    for (auto &k : kinds) {
        if (!b.th)  // every schedule for the plain and the TLS session, two for the others
            b.policies = pool ? 1 : k.first == "plain" ? 7 : 3;
        Cfg c    = k.second;
        c.faults = all;
        b.all(k.first + ": peer lost", Budget(2 + x, 1, 0, 1, 0), c);
        c.maxFaults = 2;
        b.all(k.first + ": both lost", Budget(2, 0, 0, 2, 0), c);
        c.maxFaults = 1;
        if (k.first == "tls")
            c.faults = all | F_TLS;
        c.seg  = true;
        b.add(k.first + ": peer lost, segments", Budget(2, 0, 1, 1, 0), c);
        c.seg  = false;
        c.wseg = c.block = true;
        b.all(k.first + ": peer lost, blocked writes", Budget(2 + x, 0, 1, 1, 0), c);
        c          = k.second;
        c.ops      = {{OP_FORCE}};
        b.all(k.first + ": forced disconnect", Budget(2 + x, 1, 0, 0, 1), c);
        c.faults = all;
        b.all(k.first + ": forced disconnect and peer lost", Budget(2, 0, 0, 1, 1), c);
        c.faults = 0;
        c.wseg = c.block = true;
        b.all(k.first + ": forced disconnect, blocked writes", Budget(2, 0, 1, 0, 1), c);
        c.wseg = c.block = false;
        c.ops    = {{OP_FORCE}, {OP_FORCE}};
        b.all(k.first + ": forced twice", Budget(2, 0, 0, 0, 2), c);
        c.ops    = {{OP_BACKEND_DISC}};
        b.all(k.first + ": backend disconnect", Budget(2 + x, 1, 0, 0, 1), c);
        c.faults = all;
        b.all(k.first + ": backend disconnect and peer lost", Budget(2, 0, 0, 1, 1), c);
    }
    b.policies = pool && !b.th ? 2 : 7;
    for (auto &k : kinds) {
        // shutting down and closing sockets reports errors
        Cfg c         = k.second;
        c.closeErrors = true;
        c.faults      = all;
        b.all(k.first + ": peer lost, errors on closing", Budget(1, 0, 0, 1, 0), c);
        c.faults = 0;
        c.ops    = {{OP_FORCE}};
        b.all(k.first + ": forced disconnect, errors on closing", Budget(1, 0, 0, 0, 1), c);
    }
    for (auto &k : kinds) {
        // writing fails while reading goes on; connections lost in other ways
        Cfg c    = k.second;
        c.faults = F_WRITE;
        b.all(k.first + ": writing fails", Budget(2, 1, 0, 1, 0), c);
        c.writeError = k.first == "tls" ? error_code(boost::asio::ssl::error::stream_truncated) : error_code(boost::asio::error::timed_out);
        b.all(k.first + ": writing fails otherwise", Budget(1, 0, 0, 1, 0), c);
        c.wseg = true;
        b.all(k.first + ": writing fails half way", Budget(2, 0, 1, 1, 0), c);
        c.wseg   = false;
        c.faults = F_CLIENT_RST | F_BROKER_RST;
        for (auto e : {error_code(boost::asio::error::timed_out), error_code(boost::asio::error::host_unreachable), error_code(ENOBUFS, boost::system::system_category()),
                       error_code(boost::asio::error::network_reset), error_code(boost::asio::error::connection_aborted), error_code(1, boost::asio::error::get_ssl_category())}) {
            c.lostError = e;
            b.all(k.first + ": peer lost, error " + std::to_string(e.value()) + (e.category() == boost::system::system_category() ? "" : " of TLS"), Budget(1, 0, 0, 1, 0), c);
        }
    }
    {
        Cfg c    = base(tlsBoth(dataCfg()));
        c.faults = F_TLS;
        b.all("tls handshake fails", Budget(2 + x, 1, 0, 1, 0), c);
        c        = base(proxied(tlsBoth(dataCfg())));
        c.faults = F_TLS | all;
        b.all("tls handshake fails after proxy line", Budget(2, 1, 0, 1, 0), c);
    }
    {
        Cfg c       = base(twoAddr(dataCfg()));
        c.faults    = F_CONNECT | F_DNS | F_SOCKOPT | F_CLIENT_EOF | F_CLIENT_RST;
        c.maxFaults = 3;
        b.all("failover and client lost", Budget(3, 1, 0, 2 + x, 0), c);
        c.ops = {{OP_FORCE}};
        b.all("failover and forced disconnect", Budget(3, 0, 0, 2, 1), c);
    }
    {
        Cfg c           = base(dataCfg());
        c.limitPerSec   = 0;
        c.timeSteps     = 3;
        c.faults        = all;
        b.all("limited and lost", Budget(2, 1, 0, 1, 0), c);
        c.faults = 0;
        c.ops    = {{OP_FORCE}};
        b.all("limited and forced disconnect", Budget(2, 1, 0, 0, 1), c);
    }
    {
        Cfg c      = base(dataCfg());
        c.nClients = 2;
        c.faults   = all;
        Final other = [](World &w) {
            // the session that was not touched keeps working
            for (auto &p : w.ss)
                if (!p->cClientGone && !p->cBrokerGone && !p->cProxy && !p->cWriteErr) {
                    SessionCtx &s = *p;
                    if (!s.client.openOk || w.isFinished(s) || s.client.rx.size() - s.client.openOkEnd != s.conn->dataTx.size())
                        w.fail("C13", "other-session-hurt", "a session that lost nobody stopped working when another one ended");
                }
        };
        b.all("two sessions, one lost", Budget(1 + x, 0, 0, 1, 0), c, other);
        c.faults = 0;
        c.ops    = {{OP_FORCE, 1}};
        b.all("two sessions, one disconnected", Budget(2, 1, 0, 0, 1), c, other);
    }
    {
        Cfg c          = base(dataCfg());
        c.clientScript.push_back({W_NONE, 0, amqp::close(), T_CLOSE});
        c.faults = all;
        b.all("client closes, peer lost", Budget(2, 1, 0, 1, 0), c);
        c          = base(dataCfg());
        c.brokerScript.push_back({W_NONE, 0, amqp::close(320, "bye"), T_CLOSE});
        c.faults = all;
        b.all("broker closes, peer lost", Budget(2, 1, 0, 1, 0), c);
    }
}

// ------------------------------------------------------------------ C14

static void c14(B &b)
{
    int  x    = b.th ? 1 : 0;
    auto busy = [] {
        // frames cross the Close in both directions, and some are too long to
        // arrive or leave in one piece
        Cfg c          = baseCfg();
        c.clientScript = {{W_OPENOK, 0, data(3, 'a'), T_DATA}, {W_NONE, 0, data(20, 'A') + data(0, 'x'), T_DATA}, {W_DATA, 60, data(9, 'c'), T_DATA}};
        c.brokerScript = {{W_NONE, 0, data(5, 'b'), T_DATA}, {W_NONE, 0, data(30, 'B'), T_DATA}, {W_DATA, 11, data(7, 'd'), T_DATA}};
        c.ops          = {{OP_GRACEFUL}};
        return c;
    };
    std::vector<std::pair<string, Cfg>> kinds;
    kinds.push_back({"plain", busy()});
    kinds.push_back({"tls", tlsBoth(busy())});
    const char *names[] = {"CloseOk", "Close and CloseOk", "Close", "hang-up", "reset", "nothing"};
    for (auto &k : kinds) {
        bool tls = k.first == "tls";
        for (auto re : {R_CLOSEOK, R_CLOSE_THEN_OK, R_CLOSE_ONLY, R_EOF, R_RST, R_SILENT})
            for (auto rb : {R_CLOSEOK, R_CLOSE_THEN_OK, R_CLOSE_ONLY, R_EOF, R_RST, R_SILENT}) {
                if (rb == R_CLOSE_ONLY && re > R_CLOSE_ONLY && !b.th)
                    continue;
                Cfg c           = k.second;
                c.clientOnClose = re;
                c.brokerOnClose = rb;
                string n        = k.first + ": client answers " + names[re] + ", broker " + names[rb];
                bool   main     = re <= R_CLOSE_ONLY && rb == R_CLOSEOK;
                if (!b.th && tls)  // every schedule for the plain session, fewer for the others
                    b.policies = re == R_CLOSEOK ? 3 : 1;
                else if (!b.th)
                    b.policies = main ? 7 : 3;
                b.all(n, Budget((main ? 2 : 1) + x, main ? 2 : 1, 0, 0, 1), c);
                if (!b.th)
                    b.policies = tls ? 1 : re == R_CLOSEOK ? 7 : 2;
                if ((main && (!tls || re == R_CLOSEOK)) || b.th) {
                    c.wseg = c.block = true;
                    c.bucketPool     = true;
                    b.all(n + ", slow writes", Budget(2 + x, 1, tls && !x ? 1 : 2, 0, 1), c);
                    c.wseg = c.block = false;
                    c.seg            = true;
                    b.all(n + ", segments", Budget(2, 0, tls ? 1 : 2, 0, 1), c);
                }
            }
        b.policies = b.th ? 7 : tls ? 2 : 3;
        int all  = F_CLIENT_EOF | F_CLIENT_RST | F_BROKER_EOF | F_BROKER_RST;
        Cfg c    = k.second;
        c.faults = all;
        b.all(k.first + ": peer lost", Budget(2 + x, 0, 0, 1, 1), c);
        c.wseg = c.block = true;
        c.bucketPool     = true;
        b.all(k.first + ": peer lost, slow writes", b.th ? Budget(3, 0, 1, 1, 1) : Budget(2, 0, 1, 1, 1), c);
        c     = k.second;
        c.ops = {{OP_GRACEFUL}, {OP_GRACEFUL}};
        b.all(k.first + ": asked twice", Budget(2 + x, 1, 0, 0, 2), c);
        c.ops = {{OP_GRACEFUL}, {OP_FORCE}};
        b.all(k.first + ": forced after all", Budget(2 + x, 1, 0, 0, 2), c);
        c.ops = {{OP_FORCE}, {OP_GRACEFUL}};
        b.all(k.first + ": already forced", Budget(2 + x, 1, 0, 0, 2), c);
        c = k.second;
        c.clientScript.push_back({W_NONE, 0, amqp::close(), T_CLOSE});
        c.brokerHangsUp = true;
        b.all(k.first + ": client closes too", Budget(2 + x, 1, 0, 0, 1), c);
        c               = k.second;
        c.brokerHangsUp = true;
        b.all(k.first + ": broker hangs up after CloseOk", Budget(2 + x, 1, 0, 0, 1), c);
        c.clientOnClose = R_CLOSE_THEN_OK;
        b.all(k.first + ": broker hangs up after CloseOk, client closes", Budget(2 + x, 1, 0, 0, 1), c);
        c = k.second;
        c.brokerScript.push_back({W_NONE, 0, amqp::close(320, "bye"), T_CLOSE});
        b.all(k.first + ": broker closes too", Budget(2 + x, 1, 0, 0, 1), c);
        c               = k.second;
        c.clientHangsUp = true;
        b.all(k.first + ": client hangs up", Budget(2 + x, 1, 0, 0, 1), c);
        c            = k.second;
        c.readChunk  = 5;
        c.writeChunk = 3;
        b.all(k.first + ": in small pieces", Budget(1 + x, 0, 0, 0, 1), c);
        c          = k.second;
        c.nClients = 2;
        Final other = [](World &w) {
            SessionCtx &s = *w.ss[1];
            if (!s.client.openOk || w.isFinished(s) || s.client.rx.size() - s.client.openOkEnd != s.conn->dataTx.size())
                w.fail("C14", "other-session-hurt", "another session stopped working at the graceful disconnect of one");
        };
        b.all(k.first + ": two sessions", Budget(1 + x, 0, 0, 0, 1), c, other);
    }
    b.policies = 7;
    {
        // large frames, slow on both sides
        Cfg c          = baseCfg();
        c.bucketPool   = true;
        c.clientScript = {{W_OPENOK, 0, data(5000, 'a'), T_DATA}, {W_NONE, 0, data(300, 'q'), T_DATA}};
        c.brokerScript = {{W_NONE, 0, data(6000, 'b') + data(10, 'k'), T_DATA}};
        c.readChunk    = 1500;
        c.writeChunk   = 1000;
        c.ops          = {{OP_GRACEFUL}};
        c.block        = true;
        b.all("large frames", Budget(2 + x, 1, 1, 0, 1), c);
    }
}

// ------------------------------------------------------------------ C15

static void checkPause(World &w)
{
    SessionCtx &s = w.S();
    if (s.paused) {
        // everything came to rest while paused
        if (s.conns.size() == 1 && s.client.openOk && w.cfg.ops.size() == 1) {
            BrokerConn &bc = *s.conns[0];
            if (s.client.rx.size() - s.client.openOkEnd < bc.dataTx.size() && !s.cBrokerGone)
                w.fail("C15", "egress-stopped", "data from the broker does not reach the paused client");
        }
        if (s.client.proxyClosed)
            w.fail("C15", "paused-closed", "a paused session is disconnected");
        return;
    }
    if (!s.everPaused)
        return;
    if (s.waitingAtUnpause) {
        if (!s.client.openOk)
            w.fail("C15", "not-resumed", "a session that was waiting to connect does not go on after unpause");
        else {
            BrokerConn &bc = *s.conns.back();
            if (bc.rx.size() - bc.openEnd < s.client.dataTx.size())
                w.fail("C15", "ingress-stuck-after-unpause", "after unpause the client's data does not reach the broker: " + std::to_string(bc.rx.size() - bc.openEnd) + " of " + std::to_string(s.client.dataTx.size()));
            if (s.client.rx.size() - s.client.openOkEnd < bc.dataTx.size())
                w.fail("C15", "egress-stuck-after-unpause", "after unpause the broker's data does not reach the client");
        }
    }
    else if (s.decidedAtUnpause) {
        if (s.ing.isOpen || s.egr.isOpen || !w.isFinished(s))
            w.fail("C15", "not-disconnected", "a paused session that was not waiting to connect is not disconnected by unpause");
    }
}

static void c15(B &b)
{
    int x = b.th ? 1 : 0;
    std::vector<std::pair<string, Cfg>> kinds;
    kinds.push_back({"plain", dataCfg()});
    kinds.push_back({"tls", tlsBoth(dataCfg())});
    kinds.push_back({"two addresses", twoAddr(dataCfg())});
    {
        Cfg c         = dataCfg();
        c.fakeAuth    = true;
        c.authAnswers = {answer(0)};
        kinds.push_back({"auth", c});
        c.authInline = true;
        kinds.push_back({"auth inline", c});
        c = dataCfg();
        c.pipelineOpen = false;
        c.clientEarly = {{W_TUNE, 0, amqp::heartbeat(), T_EARLY}};
        kinds.push_back({"early heartbeat", c});
    }
    for (auto &k : kinds) {
        Cfg c = k.second;
        bool plain = k.first == "plain" || k.first == "early heartbeat";
        c.ops = {{OP_PAUSE}};
        b.all(k.first + ": pause", Budget(2 + x, 1, 0, 0, 1), c, checkPause);
        c.ops = {{OP_PAUSE}, {OP_UNPAUSE}};
        b.all(k.first + ": pause, unpause", Budget((plain ? 3 : 2) + x, 1, 0, 0, 2), c, checkPause);
        c.seg = true;
        b.add(k.first + ": pause, unpause, segments", Budget(plain || b.th ? 3 : 2, 0, 1, 0, 2), c, checkPause);
        c.seg = false;
        c.ops = {{OP_PAUSE}, {OP_UNPAUSE}, {OP_PAUSE}, {OP_UNPAUSE}};
        b.all(k.first + ": paused twice", Budget(b.th ? 4 : plain ? 3 : 2, 0, 0, 0, 4), c);
        c.ops = {{OP_PAUSE}, {OP_PAUSE}, {OP_UNPAUSE}, {OP_UNPAUSE}};
        b.add(k.first + ": pause and unpause repeated", Budget(plain || b.th ? 3 : 2, 0, 0, 0, 4), c);
        c.ops = {{OP_PAUSE}, {OP_FORCE}};
        b.all(k.first + ": pause, forced disconnect", Budget(2, 0, 0, 0, 2), c, [](World &w) {
            if (w.opsRun == 2 && (w.S().ing.isOpen || w.S().egr.isOpen || !w.isFinished(w.S())))
                w.fail("C15,C13", "paused-force", "a forced disconnect of a paused session does not end it");
        });
    }
    {
        Cfg c       = twoAddr(dataCfg());
        c.faults    = F_CONNECT;
        c.maxFaults = 3;
        c.ops       = {{OP_PAUSE}, {OP_UNPAUSE}};
        b.all("failover: pause, unpause", Budget(b.th ? 4 : 3, 0, 0, 2, 2), c);
        c.backends.push_back({"b2", "dc1", "h2", "10.0.0.9", 5672});
        c.farms = {{"f1", {"b1", "b2"}}};
        c.maxFaults = 1;
        b.all("failover to another backend: pause, unpause", Budget(3, 0, 0, 1, 2), c, checkPause);
    }
}

// ------------------------------------------------------------------ C18

static void checkProxyTls(World &w)
{
    for (auto &p : w.ss)
        for (auto &bc : p->conns) {
            const BackendCfg *bk = w.backendOf(bc->to);
            if (bk && bk->proxy && bc->sawHeader && !bc->sawProxy)
                w.fail("C18", "no-proxy-line", "no PROXY line was sent");
        }
}

static void c18(B &b)
{
    int x = b.th ? 1 : 0;
    for (int cl = 0; cl < 3; ++cl)
        for (int m = 0; m < 4; ++m)
            for (int fam = 0; fam < 4; ++fam) {
                Cfg c              = dataCfg();
                c.clientTls        = cl == 1;
                c.backends[0].proxy = m & 1;
                c.backends[0].tls   = m & 2;
                if (fam & 1)
                    c.clientEp = {ep("fd12::7:9", 50123)};
                if (fam & 2)
                    c.backends[0].ip = "fd00::5";
                if (cl == 2) {
                    c.backends[0].dns = true;
                    c.dns             = {{"h1", {c.backends[0].ip, fam & 2 ? "fd00::6" : "10.0.0.2"}}};
                    c.backends[0].ip  = "";
                    c.faults          = F_CONNECT;
                }
                string n = string("client ") + (cl == 1 ? "tls" : "plain") + (cl == 2 ? ", dns backend" : "") + (m & 1 ? " proxy" : "") + (m & 2 ? " tls" : "") + (fam & 1 ? " v6client" : "") + (fam & 2 ? " v6backend" : "");
                b.all(n, Budget(fam == 0 ? 2 : 1), c, checkProxyTls);
                if (m && fam == 0 && cl < 2) {
                    c.wseg = true;
                    b.all(n + ", partial writes", Budget(2 + x, 1), c, checkProxyTls);
                    c.wseg = false;
                    c.faults = F_TLS | F_CLIENT_EOF | F_BROKER_EOF | F_BROKER_RST;
                    b.all(n + ", peers lost", Budget(2, 1, 0, 1, 0), c, checkProxyTls);
                }
            }
    // failover between backends with different settings
    for (int m = 0; m < 16; ++m) {
        Cfg c      = dataCfg();
        c.backends = {{"b1", "dc1", "h1", "10.0.0.1", 5671, (m & 1) != 0, (m & 2) != 0, false}, {"b2", "dc1", "h2", "10.0.0.2", 5672, (m & 4) != 0, (m & 8) != 0, false}};
        c.farms    = {{"f1", {"b1", "b2"}}};
        c.faults   = F_CONNECT | F_SOCKOPT;
        b.all("failover settings " + std::to_string(m), Budget(2, 1), c, checkProxyTls);
        c.faults   = 0;
        c.nClients = 2;
        c.sequential = true;
        b.add("two sessions settings " + std::to_string(m), Budget(1), c, checkProxyTls);
    }
}

std::vector<Scenario> scenariosFor(const string &prop, bool th)
{
    B b;
    b.th = th;
    if (prop == "C01") c01(b);
    else if (prop == "C02") c02(b);
    else if (prop == "C03") c03(b);
    else if (prop == "C05") c05(b);
    else if (prop == "C04") c04(b);
    else if (prop == "C06") c06(b);
    else if (prop == "C08") c08(b);
    else if (prop == "C10") c10(b);
    else if (prop == "C13") teardown(b, false);
    else if (prop == "C14") c14(b);
    else if (prop == "C15") c15(b);
    else if (prop == "C17") teardown(b, true);
    else if (prop == "C18") c18(b);
    return b.out;
}
}
