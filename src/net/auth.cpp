// C05 with the real HTTP client: a scripted authentication service on a
// loopback port, the real server and sessions, brokers and clients.
#include "nworld.h"
#include <amqpprox_dnsresolver.h>
#include <authrequest.pb.h>
#include <authresponse.pb.h>

namespace nw {
using namespace Bloomberg::amqpprox;
using vx::Budget;
using vx::FREE;
using vx::OP;
using vx::Scenario;

namespace {
string num(long long n) { return std::to_string(n); }

struct Req {
    Peer                   p;
    bool                   whole = false, bad = false;
    bool                   reads = true;
    string                 target;
    authproto::AuthRequest body;
    int                    extra = 0;  // bytes after the request
};

struct Service {
    Listener                          l;
    bool                              accepts = true, reads = true;
    std::vector<std::unique_ptr<Req>> reqs;
    explicit Service(int port) : l(port) {}
    bool step()
    {
        bool moved = false;
        int  fd;
        while (accepts && (fd = l.accept()) >= 0) {
            reqs.emplace_back(new Req);
            reqs.back()->p.fd  = fd;
            reqs.back()->reads = reads;
            moved              = true;
        }
        for (auto &r : reqs) {
            if (r->p.fd < 0 || !r->reads)
                continue;
            moved |= r->p.pump();
            parse(*r);
        }
        return moved;
    }
    static void parse(Req &r)
    {
        if (r.whole || r.bad)
            return;
        size_t h = r.p.in.find("\r\n\r\n");
        if (h == string::npos)
            return;
        string head = r.p.in.substr(0, h + 2), low = head;
        for (auto &ch : low) ch = tolower((unsigned char)ch);
        size_t cl = low.find("\r\ncontent-length:");
        size_t n  = cl == string::npos ? 0 : strtoul(low.c_str() + cl + 17, nullptr, 10);
        if (r.p.in.size() < h + 4 + n)
            return;
        r.extra   = r.p.in.size() - (h + 4 + n);
        size_t a = head.find(' '), b = head.find(' ', a + 1);
        r.target = head.substr(a + 1, b - a - 1);
        r.bad    = head.compare(0, 5, "POST ") != 0 || !r.body.ParseFromString(r.p.in.substr(h + 4, n));
        r.whole  = true;
    }
};

string http(int status, const string &body, const string &more = "", bool length = true, const char *version = "HTTP/1.1")
{
    return string(version) + " " + num(status) + " Whatever\r\n" + more + (length ? "Content-Length: " + num(body.size()) + "\r\n" : "") + "\r\n" + body;
}
string pb(int result, const string &reason = "", const string &mech = "", const string &creds = "")
{
    authproto::AuthResponse r;
    r.set_result((authproto::AuthResponse::AuthResult)result);
    r.set_reason(reason);
    if (!mech.empty()) {
        r.mutable_authdata()->set_authmechanism(mech);
        r.mutable_authdata()->set_credentials(creds);
    }
    return r.SerializeAsString();
}
string chunked(const string &b, size_t n)
{
    string s;
    for (size_t i = 0; i < b.size(); i += n) {
        string part = b.substr(i, n);
        char   h[32];
        snprintf(h, sizeof h, "%zx\r\n", part.size());
        s += h + part + "\r\n";
    }
    return s + "0\r\n\r\n";
}

enum End { STAYS, FIN, RST };
struct Answer {
    string name, bytes;
    End    end;
    int    allow;  // 1 allowed, 0 denied, -1 either but decided
    string mech, creds;  // given to the broker instead of the client's
};

std::vector<Answer> answers()
{
    string              yes = pb(0, "fine"), no = pb(1, "no");
    std::vector<Answer> v = {
        {"allow", http(200, yes), STAYS, 1},
        {"allow, empty message", http(200, pb(0)), STAYS, 1},
        {"allow with data", http(200, pb(0, "r", "EXTERNAL", string("a\0b", 3))), STAYS, 1, "EXTERNAL", string("a\0b", 3)},
        {"allow, long reason", http(200, pb(0, string(255, 'r'))), STAYS, 1},
        {"allow 201", http(201, yes), STAYS, 1},
        {"allow, chunked", http(200, chunked(yes, 3), "Transfer-Encoding: chunked\r\n", false), STAYS, 1},
        {"allow, until close", http(200, yes, "Connection: close\r\n", false), FIN, 1},
        {"allow, HTTP/1.0", http(200, yes, "", false, "HTTP/1.0"), FIN, 1},
        {"allow, then end", http(200, yes, "Connection: close\r\n"), FIN, 1},
        {"allow, headers", http(200, yes, "Server: x\r\nContent-Type: application/octet-stream\r\nX-Long: " + string(3000, 'h') + "\r\n"), STAYS, 1},
        {"deny", http(200, no), STAYS, 0},
        {"deny, no reason", http(200, pb(1)), STAYS, 0},
        {"deny with data", http(200, pb(1, "r", "PLAIN", "x")), STAYS, 0},
        {"deny, long reason", http(200, pb(1, string(400, 'r'))), STAYS, 0},
        {"unknown decision 2", http(200, pb(2, "?")), STAYS, 0},
        {"unknown decision 77", http(200, pb(77, "?")), STAYS, 0},
        {"unknown decision -1", http(200, pb(-1, "?")), STAYS, 0},
        {"deny, chunked", http(200, chunked(no, 2), "Transfer-Encoding: chunked\r\n", false), STAYS, 0},
        {"not a message", http(200, "ALLOW"), STAYS, 0},
        {"json", http(200, "{\"result\":\"ALLOW\"}"), STAYS, 0},
        {"cut message", http(200, pb(0, "a reason that is cut").substr(0, 10)), STAYS, 0},
        {"message and garbage", http(200, yes + "\xff\xff\xff"), STAYS, 0},
        {"bad length in message", http(200, string("\x12\x7f", 2) + "abc"), STAYS, 0},
        {"cut body, end", http(200, yes).substr(0, http(200, yes).size() - 2), FIN, 0},
        {"cut body, reset", http(200, yes).substr(0, http(200, yes).size() - 2), RST, 0},
        {"longer length, end", "HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n" + yes, FIN, 0},
        {"cut empty message, end", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n", FIN, 0},
        {"cut chunks, end", http(200, chunked(yes, 3), "Transfer-Encoding: chunked\r\n", false).substr(0, 70), FIN, 0},
        {"bad chunks", http(200, "zz\r\n" + yes, "Transfer-Encoding: chunked\r\n", false), STAYS, 0},
        {"status line only, end", "HTTP/1.1 200 OK\r\n", FIN, 0},
        {"nothing, end", "", FIN, 0},
        {"nothing, reset", "", RST, 0},
        {"garbage", "\x16\x03\x01\x02garbage\r\n\r\n", STAYS, 0},
        {"garbage, end", "AMQP\x00\x00\x09\x01", FIN, 0},
        {"other protocol version", http(200, yes, "", true, "HTTP/9.7"), FIN, 0},
        {"bad length", "HTTP/1.1 200 OK\r\nContent-Length: many\r\n\r\n" + yes, STAYS, 0},
        {"huge length", "HTTP/1.1 200 OK\r\nContent-Length: 99999999999\r\n\r\n" + yes, FIN, 0},
        {"huge headers", "HTTP/1.1 200 OK\r\nX: " + string(100000, 'h') + "\r\n\r\n", FIN, 0},
    };
    // answers that end before they are complete, at every byte of the message
    string whole = pb(0, "r", "PLAIN", "xyz");
    for (size_t i = 0; i < whole.size(); ++i)
        for (End e : {FIN, RST}) v.push_back({"ends after " + num(i) + " bytes", http(200, whole).substr(0, http(200, whole).size() - whole.size() + i), e, 0});
    {
        string ch = http(200, chunked(whole, 3), "Transfer-Encoding: chunked\r\n", false);
        size_t h  = ch.find("\r\n\r\n") + 4;
        for (size_t i = h; i + 5 < ch.size(); ++i) v.push_back({"chunks end after " + num(i - h) + " bytes", ch.substr(0, i), FIN, 0});
    }
    for (int s : {300, 301, 302, 304, 307, 400, 401, 403, 404, 407, 408, 418, 429, 500, 501, 502, 503, 504, 599}) {
        if (s != 304)
            v.push_back({"status " + num(s) + " with allow", http(s, yes), STAYS, 0});
        v.push_back({"status " + num(s) + " without body", http(s, ""), s % 2 ? FIN : STAYS, 0});
        v.push_back({"status " + num(s) + " until close", http(s, "", "Connection: close\r\n", false), FIN, 0});
    }
    return v;
}

struct Customer {
    string vhost, creds, mech = "PLAIN", name;
    Agent *agent = nullptr;
    Req   *req   = nullptr;
    int    state = 0;  // 0 undecided, 1 allowed, 2 denied
    bool   gone = false;   // left, or was disconnected by the operator
    bool   asked = true;   // is subject to the service
    Broker *broker = nullptr;
    size_t brokerBase = 0;
    string wantMech, wantCreds;
};

struct AuthSite : Net {
    int                                  port, authPort;
    std::unique_ptr<Service>             svc;
    std::deque<Customer>                 cust;
    DNSResolver::OverrideFunctionGuard   dns;
    std::vector<boost::asio::ip::tcp::endpoint> addrs;
    boost::system::error_code            dnsError;
    bool                                 caps = false;
    std::set<string>                     held;  // vhosts that were paused

    explicit AuthSite(Chooser &c, int nb = 1)
    : Net(c)
    , dns([this](std::vector<boost::asio::ip::tcp::endpoint> *v, const std::string_view &host, const std::string_view &service) {
        if (host != "authhost") {
            *v = {boost::asio::ip::tcp::endpoint(boost::asio::ip::make_address(string(host)), atoi(string(service).c_str()))};
            return boost::system::error_code();
        }
        *v = addrs;
        return dnsError;
    })
    {
        port     = portBase(16);
        authPort = port + 12;
        addrs    = {boost::asio::ip::tcp::endpoint(boost::asio::ip::make_address("127.0.0.1"), authPort)};
        for (int i = 0; i < nb; ++i) {
            Broker &b = broker();
            cmd("BACKEND ADD b" + num(i) + " dc 127.0.0.1 " + num(b.l.port));
            cmd("MAP BACKEND v" + num(i) + " b" + num(i));
        }
        svc.reset(new Service(authPort));
        extra.push_back([this] { return svc->step(); });
        cmd("AUTH SERVICE authhost " + num(authPort) + " /check/it");
        cmd("LISTEN START " + num(port));
        pollServer();
    }
    Customer &join(int v, const string &creds, const string &name, const string &mech = "PLAIN")
    {
        cust.emplace_back();
        Customer &k  = cust.back();
        k.vhost      = "v" + num(v);
        k.broker     = brokers[v].get();
        k.brokerBase = k.broker->conns.size();
        k.creds      = creds;
        k.mech       = mech;
        k.name       = name;
        Agent &a     = client(port, k.vhost);
        a.answerClose = true;
        std::vector<amqp::Field> props = {{"product", amqp::vS("t")}, {"connection_name", amqp::vS(name)}};
        if (caps)
            props.push_back({"capabilities", amqp::vF({{"authentication_failure_close", amqp::vt(true)}})});
        a.startOk = amqp::startOk(props, mech, creds, "en_US");
        k.agent   = &a;
        k.wantMech  = mech;
        k.wantCreds = creds;
        return k;
    }
    // the request of this customer, once it has arrived
    Req *find(Customer &k)
    {
        if (!k.req)
            for (auto &r : svc->reqs)
                if (r->whole && !r->bad && r->body.vhostname() == k.vhost && r->body.connectionname() == k.name)
                    k.req = r.get();
        return k.req;
    }
    void awaitRequest(Customer &k)
    {
        if (!await([&] { return find(k) != nullptr; })) {
            check();
            c.violate("C05", "not-asked", "the service is never asked about a client of " + k.vhost + " with the data the client gave");
        }
        contents(k);
    }
    void contents(Customer &k)
    {
        auto &q = k.req->body;
        if (q.authdata().authmechanism() != k.mech || q.authdata().credentials() != k.creds || q.clienthostname() != "127.0.0.1")
            c.violate("C05", "request", "the service is asked about other data than the client gave: " + q.ShortDebugString());
        if (k.req->target != "/check/it")
            c.violate("C05", "target", "the request goes to " + k.req->target);
    }
    void send(Req &r, const string &bytes, End e)
    {
        r.p.out += bytes;
        r.p.flush();
        if (e == FIN && r.p.out.empty())
            r.p.shut();
        if (e == RST)
            r.p.drop();
    }
    // nobody gets through who was not allowed
    void check()
    {
        for (auto &k : cust) {
            bool contact = k.broker->conns.size() > k.brokerBase;
            if (k.asked && k.state != 1 && contact)
                c.violate("C05", "broker-contacted", "a broker is contacted for a client that was " + string(k.state ? "denied" : "not decided upon"));
            if (k.asked && k.state != 1 && k.agent->open)
                c.violate("C05", "opened", "a session is opened for a client that was not allowed");
        }
        for (auto &r : svc->reqs) {
            if (r->bad)
                c.violate("C05", "bad-request", "the service receives a request it cannot decode");
            if (r->whole && r->extra)
                c.violate("C05", "bad-request", "the service receives bytes behind a request");
            if (!r->whole)
                continue;
            int same = 0;
            for (auto &q : svc->reqs)
                if (q->whole && q->p.in == r->p.in)
                    ++same;
            int asking = 0;
            for (auto &k : cust)
                if (k.vhost == r->body.vhostname() && k.name == r->body.connectionname())
                    ++asking;
            // a session that was paused asks again when it goes on
            if (same > asking && !held.count(r->body.vhostname()))
                c.violate("C05", "asked-twice", "the service is asked " + num(same) + " times about " + num(asking) + " clients");
        }
    }
    void expectOpen(Customer &k)
    {
        if (!await([&] { return k.agent->open; }))
            c.violate("C05", "allowed-not-open", "a client that was allowed is not connected");
        check();
        if (k.broker->conns.size() != k.brokerBase + 1)
            c.violate("C05", "contacts", num(k.broker->conns.size() - k.brokerBase) + " broker connections for one allowed client");
        Agent &b = *k.broker->conns.back();
        for (auto &f : b.frames)
            if (f.isConn(amqp::STARTOK) && f.args.find(amqp::sstr(k.wantMech) + amqp::lstr(k.wantCreds)) == string::npos)
                c.violate("C05", "credentials", "the broker is given other credentials than were decided upon");
    }
    void expectGone(Customer &k)
    {
        if (!await([&] { return k.agent->p.gone(); }))
            c.violate("C05", "denied-not-gone", "a client that was not allowed stays connected");
        check();
    }
};

void oneAnswer(Chooser &c, int cutMode)
{
    static const std::vector<Answer> all = answers();
    AuthSite  s(c);
    s.caps          = c.choose(FREE, 2, "capability");
    const Answer &a = all[c.choose(FREE, all.size(), "answer")];
    Customer &k     = s.join(0, string("\0user\0pass", 10), "me");
    s.awaitRequest(k);
    s.check();
    c.log("answer: " + a.name);
    // the bytes in one or two pieces
    size_t n = a.bytes.size(), cut = n;
    if (cutMode && n > 1) {
        if (n > 1000 && cutMode == 2)
            cut = 1 + c.choose(FREE, 20, "cut") * (n - 1) / 20;
        else if (cutMode == 2)
            cut = 1 + c.choose(FREE, n - 1, "cut");
        else {
            size_t h   = a.bytes.find("\r\n\r\n");
            size_t at[] = {1, h == string::npos ? n / 2 : h + 3, h == string::npos ? n - 1 : h + 4, n - 1};
            cut         = std::min(n - 1, std::max<size_t>(1, at[c.choose(FREE, 4, "cut")]));
        }
    }
    if (cut < n) {
        s.send(*k.req, a.bytes.substr(0, cut), STAYS);
        // the decision may be taken early only where it is a refusal
        s.settle();
        s.settle();
        if (a.allow == 1 && k.agent->p.gone())
            c.violate("C05", "decided-early", "a client is refused although the answer is not complete");
        s.check();
    }
    if (a.allow == 1)
        k.state = 1;
    else
        k.state = 2;
    if (!a.mech.empty()) {
        k.wantMech  = a.mech;
        k.wantCreds = a.creds;
    }
    if (k.req->p.fd >= 0)
        s.send(*k.req, cut < n ? a.bytes.substr(cut) : a.bytes, a.end);
    if (a.allow == 1)
        s.expectOpen(k);
    else
        s.expectGone(k);
    // nothing happens later either
    s.advance(61000);
    s.settle();
    s.check();
    if (a.allow == 1 && k.agent->p.gone())
        c.violate("C05", "allowed-lost", "an allowed session ends by itself");
    c.step(vx::hashBytes(a.name) + a.allow);
    c.outcome(a.allow ? "allowed" : "denied");
}

// the exchange fails before there is an answer
void noAnswer(Chooser &c)
{
    AuthSite s(c);
    s.caps   = c.choose(FREE, 2, "capability");
    int kind = c.choose(FREE, 12, "failure");
    c.log("failure " + num(kind));
    auto ep = [&](int port) { return boost::asio::ip::tcp::endpoint(boost::asio::ip::make_address("127.0.0.1"), port); };
    int  dead = s.port + 15;
    bool works = false;
    if (kind == 0)
        s.dnsError = boost::asio::error::host_not_found;
    if (kind == 1)
        s.addrs.clear();
    if (kind == 2)
        s.addrs = {ep(dead)};
    if (kind == 3) {
        s.addrs = {ep(dead), ep(s.authPort)};
        works   = true;
    }
    if (kind == 4)
        s.dnsError = boost::asio::error::host_not_found_try_again;
    if (kind >= 5)
        s.svc->reads = false;
    if (kind == 11) {
        s.addrs.clear();
        s.dnsError = boost::asio::error::operation_aborted;
    }
    // large requests do not fit into the socket buffers
    size_t big = kind >= 8 && kind <= 10 ? 100000 : 4;
    Customer &k = s.join(0, string(big, 'c'), "me");
    if (works) {
        s.awaitRequest(k);
        k.state = 1;
        s.send(*k.req, http(200, pb(0)), STAYS);
        s.expectOpen(k);
        return;
    }
    if (kind >= 5 && kind <= 10) {
        if (!s.await([&] { return !s.svc->reqs.empty(); }))
            c.violate("C05", "not-asked", "the service is never contacted");
        s.settle();
        s.check();
        Req &r = *s.svc->reqs[0];
        if (kind == 5 || kind == 8)
            r.p.drop();
        else if (kind == 6 || kind == 9) {
            // an answer before the request was read, then a reset
            r.p.out = http(kind == 6 ? 500 : 403, pb(0));
            r.p.flush();
            s.settle();
            r.p.drop();
        }
        else {
            // silence
            for (int i = 0; i < 20; ++i) {
                s.advance(5000);
                s.settle();
                s.check();
            }
            r.p.drop();
        }
    }
    k.state = 2;
    s.expectGone(k);
    s.advance(61000);
    s.settle();
    s.check();
    c.step(kind);
    c.outcome("no answer");
}

// contents and sizes of requests
void contents(Chooser &c)
{
    AuthSite s(c, 2);
    static const size_t sizes[] = {0, 1, 12, 13, 255, 256, 1000, 1460, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 100000};
    size_t              n       = sizes[c.choose(FREE, 16, "credentials")];
    size_t              m       = sizes[c.choose(FREE, 6, "name")];
    string              creds;
    for (size_t i = 0; i < n; ++i) creds += (char)(i * 7);
    Customer &k = s.join(0, creds, string(m, 'n') + "!", c.choose(FREE, 2, "mechanism") ? "" : "AMQPLAIN");
    s.awaitRequest(k);
    s.check();
    bool yes = c.choose(FREE, 2, "decision");
    k.state  = yes ? 1 : 2;
    s.send(*k.req, http(200, pb(yes ? 0 : 1)), STAYS);
    if (yes)
        s.expectOpen(k);
    else
        s.expectGone(k);
    c.step(n * 10 + m);
    c.outcome("contents");
}

// several clients, answers in every order, clients and the operator acting in between
void several(Chooser &c, int depth, int n)
{
    AuthSite s(c, 3);
    for (int i = 0; i < n; ++i) s.join(i == 2 ? 0 : i, "cred" + num(i), "name" + num(i));
    for (int i = 0; i < n; ++i) s.awaitRequest(s.cust[i]);
    s.check();
    auto idOf = [&](Customer &k) {
        long id = -1;
        s.w.server->visitSessions([&](const std::shared_ptr<Session> &x) {
            if (x->state().getVirtualHost() == k.vhost)
                id = x->state().id();
        });
        return id;
    };
    bool service = true;
    std::set<string> paused;
    auto open = [&](Req *r) { return r && r->p.fd >= 0 && r->p.out.empty(); };
    for (int d = 0; d < depth; ++d) {
        // per customer: allow, deny, error, end, leave; operator: force, always allow, service again, pause, unpause; a new client
        int op = c.choose(OP, 5 * n + 6, "op");
        if (op < 5 * n) {
            Customer &k = s.cust[op / 5];
            int       w = op % 5;
            if (w < 4) {
                if (!open(k.req) || k.req->p.gone())
                    continue;
                bool decided = k.state != 0;
                if (!decided && !k.gone)
                    k.state = w == 0 ? 1 : 2;
                static const char *what[] = {"allow", "deny", "error", "end"};
                c.log(k.vhost + ": " + what[w]);
                s.send(*k.req, w == 0 ? http(200, pb(0)) : w == 1 ? http(200, pb(1, "no")) : w == 2 ? http(500, pb(0)) : string(), w == 3 ? FIN : STAYS);
            }
            else {
                c.log(k.vhost + " leaves");
                if (k.gone)
                    continue;
                k.gone = true;
                k.agent->p.drop();
            }
        }
        else {
            int w = op - 5 * n;
            if (w == 0) {
                long id = idOf(s.cust[0]);
                if (id < 0 || paused.count("v0"))
                    continue;
                s.cmd("SESSION " + num(id) + " FORCE_DISCONNECT");
                for (auto &k : s.cust)
                    if (k.vhost == "v0" && n < 3)
                        k.gone = true;
                if (n >= 3)
                    continue;
            }
            else if (w == 1) {
                s.cmd("AUTH ALWAYS_ALLOW");
                service = false;
            }
            else if (w == 2) {
                s.cmd("AUTH SERVICE authhost " + num(s.authPort) + " /check/it");
                service = true;
            }
            else if (w == 3) {
                s.cmd("VHOST PAUSE v1");
                paused.insert("v1");
                s.held.insert("v1");
            }
            else if (w == 4) {
                s.cmd("VHOST UNPAUSE v1");
                paused.erase("v1");
            }
            else {
                Customer &k = s.join(2, "late" + num(d), "late" + num(d));
                k.asked     = service;
                if (service)
                    s.awaitRequest(k);
                else {
                    k.state = 1;
                    if (!s.await([&] { return k.agent->open; }))
                        c.violate("C05", "allowed-not-open", "a client is not connected although everybody is allowed");
                    if (s.find(k))
                        c.violate("C05", "asked-needlessly", "the service is asked although everybody is allowed");
                    // several clients of v2 share a broker
                    for (auto &x : s.cust)
                        if (x.vhost == "v2")
                            x.brokerBase = std::max(x.brokerBase, x.state == 1 ? x.brokerBase : s.brokers[2]->conns.size());
                }
            }
        }
        s.settle();
        s.settle();
        for (auto &k : s.cust)
            if (k.agent->open)
                for (auto &x : s.cust)  // another one's broker connection is not held against those who wait
                    if (&x != &k && x.broker == k.broker && x.state != 1)
                        x.brokerBase = k.broker->conns.size();
        s.check();
        uint64_t h = 0;
        for (auto &k : s.cust) h = vx::mix(h, k.state * 2 + k.gone);
        c.step(h);
    }
    // whoever was allowed and is still there works, whoever was denied is gone
    for (auto &k : s.cust) {
        if (k.gone || s.held.count(k.vhost) || (n >= 3 && k.vhost == "v0"))
            continue;
        if (k.state == 1 && k.asked) {
            if (!s.await([&] { return k.agent->open; }))
                c.violate("C05", "allowed-not-open", "a client that was allowed is not connected");
        }
        else if (k.state == 2)
            s.expectGone(k);
        else if (k.state == 0 && k.agent->p.gone())
            c.violate("C05", "undecided-gone", "a client is disconnected before the service has answered");
    }
    s.check();
    c.outcome("sequence");
}
}

void addC05(std::vector<vx::Scenario> &out, bool th)
{
    auto add = [&](const string &name, Budget b, std::function<void(Chooser &)> f) {
        Scenario s;
        s.name   = name;
        s.budget = b;
        s.run    = f;
        out.push_back(s);
    };
    add("http answers", Budget(0), [](Chooser &c) { oneAnswer(c, 0); });
    add("http answers in two pieces", Budget(0), [th](Chooser &c) { oneAnswer(c, th ? 2 : 1); });
    add("http exchange fails", Budget(0), noAnswer);
    add("http requests", Budget(0), contents);
    add("http, one client", Budget(99), [th](Chooser &c) { several(c, th ? 5 : 3, 1); });
    add("http, two clients", Budget(99), [th](Chooser &c) { several(c, th ? 4 : 3, 2); });
}
}
