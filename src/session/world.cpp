#include "world.h"
#include <boost/lexical_cast.hpp>

#include <boost/asio/detail/op_queue.hpp>
#include <boost/asio/detail/scheduler.hpp>

// Access to the scheduler's queue, to know whether a handler is ready to run.
namespace {
namespace ad = boost::asio::detail;
int pendingHandlers(ad::scheduler &s);
template <auto Q, auto T>
struct Rob {
    friend int pendingHandlers(ad::scheduler &s)
    {
        int   n        = 0;
        void *sentinel = static_cast<ad::scheduler::operation *>(&(s.*T));
        for (auto *o = (s.*Q).front(); o; o = ad::op_queue_access::next(o))
            if (o != sentinel)
                ++n;
        return n;
    }
};
template struct Rob<&ad::scheduler::op_queue_, &ad::scheduler::task_operation_>;
}

namespace world {

endpoint ep(const string &ip, int port) { return endpoint(boost::asio::ip::make_address(ip), port); }

string data(int n, char fill, int type, int ch)
{
    string p;
    for (int i = 0; i < n; ++i) p += (char)(fill + (i % 23));
    return amqp::frame(type, ch, p);
}

Cfg baseCfg()
{
    Cfg c;
    c.backends    = {{"b1", "dc1", "h1", "10.0.0.1", 5672}};
    c.farms       = {{"f1", {"b1"}}};
    c.vhostFarm   = {{"vh", "f1"}};
    c.clientEp    = {ep("192.168.1.7", 40001), ep("192.168.1.8", 40002), ep("192.168.1.9", 40003), ep("192.168.1.10", 40004),
                  ep("192.168.1.11", 40005), ep("192.168.1.12", 40006), ep("192.168.1.13", 40007), ep("192.168.1.14", 40008),
                  ep("192.168.1.15", 40009), ep("192.168.1.16", 40010)};
    return c;
}

// ---------------------------------------------------------------- FakeSocket

void FakeSocket::reset()
{
    inbound.clear();
    wire.clear();
    wireEof = eof = rst = false;
    shutdownSent = hsStarted = hsDone = false;
}

endpoint FakeSocket::remote_endpoint(error_code &ec)
{
    if (!isOpen || !connected) {
        ec = isOpen ? error_code(aerr::not_connected) : error_code(aerr::bad_descriptor);
        return endpoint();
    }
    if (!ingress && (w->cfg.faults & F_SOCKOPT) && w->faultsLeft > 0 && w->choose(vx::FAULT, 2, "remote_endpoint error")) {
        w->faultsLeft--;
        w->faulted = true;
        ec         = aerr::not_connected;
        if (!ctx->attempts.empty())
            ctx->attempts.back().ok = false;
        if (ctx->conn)
            ctx->conn->dead = true;
        return endpoint();
    }
    return remoteEp;
}

endpoint FakeSocket::local_endpoint(error_code &ec)
{
    if (!isOpen) {
        ec = aerr::bad_descriptor;
        return endpoint();
    }
    if (!ingress && (w->cfg.faults & F_SOCKOPT) && w->faultsLeft > 0 && w->choose(vx::FAULT, 2, "local_endpoint error")) {
        w->faultsLeft--;
        w->faulted = true;
        ec         = aerr::not_connected;
        if (!ctx->attempts.empty())
            ctx->attempts.back().ok = false;
        if (ctx->conn)
            ctx->conn->dead = true;
        return endpoint();
    }
    return localEp;
}

void FakeSocket::close(error_code &ec)
{
    w->c.log(string("  proxy closes ") + name());
    if (!isOpen) {
        ec = error_code();
        return;
    }
    isOpen     = false;
    everClosed = true;
    connected  = false;
    family     = 0;
    ec         = w->cfg.closeErrors ? error_code(aerr::connection_reset) : error_code();
    auto &ioc  = w->ioc;
    for (auto &h : reads) {
        auto hh = h;
        boost::asio::post(ioc, [hh] { hh(aerr::operation_aborted, 0); });
    }
    reads.clear();
    for (auto &b : blocked) {
        auto hh = b.h;
        auto *self = this;
        boost::asio::post(ioc, [hh, self] {
            self->writesInFlight--;
            hh(aerr::operation_aborted, 0);
        });
    }
    blocked.clear();
    if (connectH) {
        auto hh  = connectH;
        connectH = nullptr;
        boost::asio::post(ioc, [hh] { hh(aerr::operation_aborted); });
    }
    if (hsH) {
        auto hh = hsH;
        hsH     = nullptr;
        boost::asio::post(ioc, [hh] { hh(aerr::operation_aborted); });
    }
    if (shutH) {
        auto hh = shutH;
        shutH   = nullptr;
        boost::asio::post(ioc, [hh] { hh(aerr::operation_aborted); });
    }
    if (ingress)
        ctx->client.proxyClosed = true;
    else if (ctx->conn) {
        ctx->conn->proxyClosed = true;
        ctx->conn              = nullptr;
    }
    inbound.clear();
    wire.clear();
}

void FakeSocket::setDefaultOptions(error_code &ec)
{
    if (!isOpen) {
        ec = aerr::bad_descriptor;
        return;
    }
    if (!ingress && (w->cfg.faults & F_SOCKOPT) && w->faultsLeft > 0 && w->choose(vx::FAULT, 2, "setDefaultOptions error")) {
        w->faultsLeft--;
        w->faulted = true;
        ec         = aerr::invalid_argument;
        if (!ctx->attempts.empty())
            ctx->attempts.back().ok = false;
        if (ctx->conn)
            ctx->conn->dead = true;
    }
}

std::size_t FakeSocket::available(error_code &ec)
{
    if (!isOpen) {
        ec = aerr::bad_descriptor;
        return 0;
    }
    size_t n = inbound.size();
    if (w->cfg.avail && n > 1) {
        // More may arrive between this query and the read that follows it.
        std::vector<size_t> alt = {n, 1, n / 2};
        int                 k   = w->choose(vx::SEG, n > 3 ? 3 : 2, "available");
        return alt[k];
    }
    return n;
}

void FakeSocket::async_connect(const endpoint &e, AsyncConnectHandler h)
{
    ConnectAttempt a;
    a.to                 = e;
    a.session            = ctx->id;
    const BackendCfg *b  = w->backendOf(e);
    a.backend            = b ? b->name : "?";
    ctx->attempts.push_back(a);
    w->c.log("  connect to " + boost::lexical_cast<string>(e) + " (" + a.backend + ")");

    // --- monitors on connection attempts ---
    if (ctx->finishedSeen || (ctx->session && ctx->session->finished()))
        w->fail("C13,C05,C08", "connect-after-end", "a backend connection is started after the session ended");
    if (!ctx->client.openSent)
        w->fail("C02", "connect-before-open", "backend contacted before the client named its vhost");
    if (w->cfg.fakeAuth && !ctx->authAllowed)
        w->fail("C05", "connect-without-allow", "backend contacted without an ALLOW decision for this session");
    if (ctx->paused)
        w->fail("C15", "connect-while-paused", "a backend connection is started for a paused session");

    isOpen           = true;
    ctx->cBrokerGone = false;  // whoever was lost, this is another connection
    int fam = e.address().is_v6() ? 6 : 4;
    if (family == 0)
        family = fam;
    if (family != fam) {
        // a socket keeps the address family it was opened with
        ctx->attempts.back().decided = true;
        ctx->attempts.back().ok      = false;
        w->fail("C08", "family-mismatch", "connect attempt to " + boost::lexical_cast<string>(e) +
                                              " on a socket of the other address family: it can only fail, so this candidate is never really tried");
        boost::asio::post(w->ioc, [h] { h(aerr::address_family_not_supported); });
        return;
    }
    reset();
    connected = false;
    connectH  = h;
    connectEp = e;
}

void FakeSocket::async_handshake(handshake_type, AsyncHandshakeHandler h)
{
    if (!secure) {
        hsDone = false;
        h(error_code());
        return;
    }
    hsStarted = true;
    if (!isOpen) {
        boost::asio::post(w->ioc, [h] { h(aerr::bad_descriptor); });
        return;
    }
    hsH = h;
}

void FakeSocket::async_shutdown(AsyncShutdownHandler h)
{
    if (!secure || !hsDone) {
        error_code ec;
        if (!isOpen)
            ec = aerr::bad_descriptor;
        else if (!connected || rst)
            ec = aerr::not_connected;
        else {
            if (w->cfg.closeErrors)
                ec = aerr::not_connected;
            // noticed by the event loop only when it next looks at the socket
            shutdownSent = true;
            eof          = true;
        }
        if (!secure) {
            h(ec);
            return;
        }
        boost::asio::post(w->ioc, [h, ec] { h(ec ? ec : error_code(aerr::eof)); });
        return;
    }
    if (!isOpen) {
        boost::asio::post(w->ioc, [h] { h(aerr::bad_descriptor); });
        return;
    }
    shutdownSent = true;
    eof          = true;  // the receive direction is shut down first
    shutH        = h;
}

void FakeSocket::postWrite(AsyncWriteHandler h, error_code ec, size_t n)
{
    auto *self = this;
    boost::asio::post(w->ioc, [h, ec, n, self] {
        self->writesInFlight--;
        h(ec, n);
    });
}

void FakeSocket::transmit(const char *p, size_t n)
{
    if (ingress)
        w->clientRx(*ctx, p, n);
    else
        w->brokerRx(*ctx, p, n);
}

void FakeSocket::async_write_some(const std::vector<std::pair<const void *, size_t>> &b, AsyncWriteHandler h)
{
    const char *p = nullptr;
    size_t      n = 0;
    for (auto &x : b)
        if (x.second) {
            p = (const char *)x.first;
            n = x.second;
            break;
        }
    if (writesInFlight > 0 && !(ctx->cGraceful && (ctx->cClientGone || ctx->cBrokerGone || (ctx->conn && ctx->conn->sentClose))))
        w->fail("C14", string("overlapping-writes-") + name(),
                string("a write is started on the ") + name() + " while another one is still in progress");
    writesInFlight++;
    if (!isOpen) {
        postWrite(h, aerr::bad_descriptor, 0);
        return;
    }
    if (!connected || rst || shutdownSent) {
        ctx->cWriteErr = true;
        postWrite(h, rst ? w->cfg.lostError : error_code(aerr::broken_pipe), 0);
        return;
    }
    if (n == 0) {
        postWrite(h, error_code(), 0);
        return;
    }
    if ((w->cfg.faults & F_WRITE) && w->faultsLeft > 0 && w->choose(vx::FAULT, 2, "write error")) {
        w->faultsLeft--;
        w->faulted     = true;
        ctx->cWriteErr = ctx->cWriteFault = true;
        w->c.log(string("FAULT: writing to the ") + name() + " fails");
        postWrite(h, w->cfg.writeError, 0);
        return;
    }
    string snap(p, n);  // also makes the sanitizer look at every byte
    size_t dflt = w->cfg.writeChunk ? std::min(n, w->cfg.writeChunk) : n;
    int    nalt = 1;
    size_t alts[5] = {dflt, 0, 0, 0, 0};
    if (w->cfg.wseg) {
        for (size_t k : {(size_t)1, n / 2, n - 1})
            if (k > 0 && k < n && k != alts[0] && k != alts[1] && k != alts[2])
                alts[nalt++] = k;
    }
    int nblock = w->cfg.block ? 1 : 0;
    int k      = w->choose(vx::SEG, nalt + nblock, "write amount");
    if (k == nalt) {
        blocked.push_back({p, n, snap, h});
        return;
    }
    transmit(p, alts[k]);
    postWrite(h, error_code(), alts[k]);
}

std::size_t FakeSocket::read_some(const std::vector<std::pair<void *, size_t>> &b, error_code &ec)
{
    if (!isOpen) {
        ec = aerr::bad_descriptor;
        return 0;
    }
    size_t cap = 0;
    char  *p   = nullptr;
    for (auto &x : b)
        if (x.second) {
            p   = (char *)x.first;
            cap = x.second;
            break;
        }
    if (cap == 0)
        return 0;
    if (!inbound.empty()) {
        size_t n = std::min(cap, inbound.size());
        readTotal += n;
        memcpy(p, inbound.data(), n);
        inbound.erase(0, n);
        return n;
    }
    if (rst) {
        ec = w->cfg.lostError;
        return 0;
    }
    if (eof) {
        ec = secure ? error_code(boost::asio::ssl::error::stream_truncated) : error_code(aerr::eof);
        return 0;
    }
    ec = aerr::would_block;
    return 0;
}

void FakeSocket::async_read_some(const std::vector<std::pair<void *, size_t>> &, AsyncReadHandler h)
{
    if (!isOpen) {
        boost::asio::post(w->ioc, [h] { h(aerr::bad_descriptor, 0); });
        return;
    }
    if (!reads.empty() && secure && hsDone)
        w->fail("C14", string("overlapping-reads-") + name(), "two reads are outstanding on one TLS stream");
    reads.push_back(h);
    if (reads.size() > 4)
        w->fail("C14", string("many-reads-") + name(), "read operations pile up on one socket");
    if (w->cfg.spurious && !readable() && w->choose(vx::SEG, 2, "spurious readability")) {
        for (auto &x : reads) {
            auto hh = x;
            boost::asio::post(w->ioc, [hh] { hh(error_code(), 0); });
        }
        reads.clear();
        return;
    }
    checkReadable();
}

void FakeSocket::checkReadable()
{
    if (!readable())
        return;
    for (auto &x : reads) {
        auto hh = x;
        // TLS: readability is detected by a read, which can itself hit the end
        if (secure && hsDone && inbound.empty()) {
            error_code e = rst ? w->cfg.lostError : error_code(boost::asio::ssl::error::stream_truncated);
            boost::asio::post(w->ioc, [hh, e] { hh(e, 0); });
        }
        else
            boost::asio::post(w->ioc, [hh] { hh(error_code(), 0); });
    }
    reads.clear();
}

void FakeSocket::doRst()
{
    rst = true;
    wire.clear();
    for (auto &b : blocked)
        postWrite(b.h, w->cfg.lostError, 0);
    if (!blocked.empty())
        ctx->cWriteErr = true;
    blocked.clear();
    if (hsH) {
        auto h = hsH;
        hsH    = nullptr;
        boost::asio::post(w->ioc, [h, e = w->cfg.lostError] { h(e); });
    }
    checkReadable();
}

// ---------------------------------------------------------------- auth

void FakeAuth::authenticate(const authproto::AuthRequest req, const ReceiveResponseCb &cb)
{
    // which session asks is known from the vhost/client identity only; the
    // harness checks that identity, so attribute by the session being run
    SessionCtx *s = nullptr;
    for (auto &x : w->ss)
        if (x->started && x->client.openSent && x->authAsked == 0 && x->vhost == req.vhostname()) {
            s = x.get();
            break;
        }
    if (!s)
        for (auto &x : w->ss)
            if (x->started && x->client.openSent && x->vhost == req.vhostname())
                s = x.get();
    if (!s) {
        w->fail("C05", "auth-unknown-session", "the auth service is asked about a vhost no client named: " + req.vhostname());
        s = w->ss[0].get();
    }
    s->authAsked++;
    s->authReqs.push_back(req);
    s->authCbs.push_back(cb);
    w->c.log("  auth service asked for vhost " + req.vhostname());
    if (w->cfg.authInline)
        w->answerAuth(*s);
}

void World::answerAuth(SessionCtx &s)
{
    auto cb = s.authCbs.front();
    s.authCbs.erase(s.authCbs.begin());
    int k = cfg.authAnswers.size() > 1 ? choose(vx::FREE, cfg.authAnswers.size(), "auth answer") : 0;
    authproto::AuthResponse r;
    if (!cfg.authAnswers.empty())
        r = cfg.authAnswers[k];
    s.authAnswered++;
    if (r.result() == authproto::AuthResponse::ALLOW)
        s.authAllowed = true;
    else
        s.authDenied = true;
    s.authResp = r;
    c.log("auth answer: " + r.ShortDebugString());
    if (cfg.authInline)
        cb(r);
    else
        boost::asio::post(ioc, [cb, r] { cb(r); });
}

// ---------------------------------------------------------------- World

SessionCtx::SessionCtx(World *w, int i)
: id(i)
, ingI(ing)
, egrI(egr)
{
    ing.w = egr.w = w;
    ing.ctx = egr.ctx = this;
    ing.ingress       = true;
}

static std::vector<size_t> poolBuckets(bool b)
{
    if (!b)
        return {};
    return {32, 64, 128, 256, 512, 1024, 4096, 16384, 32768, 65536, 131072, 150000};
}

World::World(vx::Chooser &ch, const Cfg &cf)
: c(ch)
, cfg(cf)
, pool(poolBuckets(cf.bucketPool))
, selector(&farmStore, &backendStore, &mapper, &limiter)
, dns(ioc)
, affinity(&datacenter)
{
    datacenter.set(cfg.localDc);
    faultsLeft = cfg.maxFaults;
    timeLeft   = cfg.timeSteps;
    vtime::set(0);
    for (auto &b : cfg.backends)
        backendStore.insert(Backend(b.name, b.dc, b.host, b.ip, b.port, b.proxy, b.tls, b.dns));
    for (auto &f : cfg.farms) {
        std::vector<string> m = f.members;
        auto                farm = std::make_unique<Farm>(f.name, m, &backendStore, &robin);
        if (f.affinity)
            farm->addPartitionPolicy(&affinity);
        farmStore.addFarm(std::move(farm));
    }
    for (auto &m : cfg.vhostFarm) mapper.mapVhostToFarm(m.first, m.second);
    for (auto &m : cfg.vhostBackend) mapper.mapVhostToBackend(m.first, m.second);
    if (!cfg.defaultFarm.empty())
        selector.setDefaultFarm(cfg.defaultFarm);
    if (cfg.limitPerSec >= 0)
        limiter.addConnectionRateLimiter(cfg.vhost, cfg.limitPerSec);

    DNSResolver::setOverrideFunction(
        [this](std::vector<endpoint> *out, const string &host, const string &service) -> error_code {
            c.log("  resolve " + host + ":" + service);
            int fault = 0;
            auto it = cfg.dns.find(host);
            if (it != cfg.dns.end() && (cfg.faults & F_DNS) && faultsLeft > 0)
                fault = choose(vx::FAULT, 3, "resolution");
            if (fault) {
                faultsLeft--;
                faulted = true;
            }
            if (fault)
                for (auto &x : ss)
                    if (x->client.openSent && x->started && (!x->conn || x->conn->dead))
                        resolveFailed.insert({x->id, host});
            if (fault == 1)
                return error_code(aerr::host_not_found);
            if (fault == 2)
                return error_code();  // success, but empty: seen in practice
            if (it != cfg.dns.end()) {
                for (auto &a : it->second) out->push_back(ep(a, std::stoi(service)));
                return error_code();
            }
            error_code ec;
            auto       addr = boost::asio::ip::make_address(host, ec);
            if (ec)
                return error_code(aerr::host_not_found);
            out->push_back(endpoint(addr, std::stoi(service)));
            return error_code();
        });

    if (cfg.fakeAuth)
        auth = std::make_shared<FakeAuth>(ioc, this);
    else
        auth = std::make_shared<DefaultAuthIntercept>(ioc);
    for (int i = 0; i < cfg.nClients; ++i) {
        ss.push_back(std::make_unique<SessionCtx>(this, i));
        ss.back()->vhost = cfg.vhosts.empty() ? cfg.vhost : cfg.vhosts[i];
    }
    startClient(0);
    if (!cfg.sequential)
        for (int i = 1; i < cfg.nClients; ++i) startClient(i);
}

World::~World()
{
    DNSResolver::setOverrideFunction(DNSResolver::OverrideFunction());
}

void World::startClient(int i)
{
    SessionCtx &s  = *ss[i];
    s.started      = true;
    s.ing.isOpen   = true;
    s.ing.connected = true;
    s.ing.secure   = cfg.clientTls;
    s.ing.localEp  = ep("192.168.1.1", 30672);
    s.ing.remoteEp = cfg.clientEp[i];
    s.ing.family   = cfg.clientEp[i].address().is_v6() ? 6 : 4;
    s.egr.localEp  = ep("192.168.1.1", 50000 + i);
    s.ingA         = std::make_shared<MaybeSecureSocketAdaptor<>>(ioc, s.ingI, cfg.clientTls);
    s.egrA         = std::make_shared<MaybeSecureSocketAdaptor<>>(ioc, s.egrI, false);

    ClientPeer &cl = s.client;
    if (cfg.stdHandshake) {
        cl.script.push_back({W_NONE, 0, amqp::header(), T_HANDSHAKE});
        cl.script.push_back({W_START, 0, amqp::startOk(cfg.props, cfg.mech, cfg.creds, cfg.locale), T_HANDSHAKE});
        string tok = amqp::tuneOk(cfg.tuneCh, cfg.tuneFm, cfg.tuneHb);
        if (cfg.pipelineOpen)
            cl.script.push_back({W_TUNE, 0, tok + amqp::open(s.vhost), T_HANDSHAKE});
        else {
            cl.script.push_back({W_TUNE, 0, tok, T_HANDSHAKE});
            cl.script.push_back({W_TUNE, 0, amqp::open(s.vhost), T_HANDSHAKE});
        }
    }
    for (auto &it : cl.script) s.handshakeBytes += it.bytes.size();
    for (auto &it : cfg.clientScript) cl.script.push_back(it);
    if (i == cfg.badSession && !cfg.badClient.empty())
        cl.script = cfg.badClient;

    s.session = std::make_shared<Session>(
        ioc, s.ingA, s.egrA, &selector, &events, &pool, &dns, hostMapper, "proxyhost", auth, cfg.clientTls, &rates);
    s.weak = s.session;
    c.log("client " + std::to_string(i) + " connects");
    s.session->start();
}

const BackendCfg *World::backendOf(const endpoint &e)
{
    string a = e.address().to_string();
    for (auto &b : cfg.backends) {
        if (b.port != e.port())
            continue;
        if (!b.dns && b.ip == a)
            return &b;
        if (b.dns) {
            auto it = cfg.dns.find(b.host);
            if (it != cfg.dns.end())
                for (auto &x : it->second)
                    if (x == a)
                        return &b;
        }
    }
    return nullptr;
}

void World::fail(const char *prop, const string &key, const string &msg)
{
    c.log(string("  !! ") + prop + " " + key + ": " + msg);
    if (bad || tearingDown > 1 || !vx::watching(prop))
        return;
    bad     = true;
    badProp = vx::watched().empty() ? prop : vx::watched();
    badKey  = key;
    badMsg  = msg;
}

void World::checkBad()
{
    if (bad)
        c.violate(badProp.c_str(), badKey, badMsg);
}

bool World::queued() { return pendingHandlers(boost::asio::use_service<ad::scheduler>(ioc)) > 0; }

uint64_t World::fingerprint()
{
    uint64_t h = vx::mix(7, nextOp);
    h = vx::mix(h, faultsLeft * 64 + timeLeft);
    h = vx::mix(h, pendingHandlers(boost::asio::use_service<ad::scheduler>(ioc)));
    for (auto &p : ss) {
        SessionCtx &s = *p;
        h = vx::mix(h, s.client.rx.size() * 1315423911u + s.client.next * 64 + s.client.early);
        h = vx::mix(h, s.conns.size() * 1000003u + s.attempts.size());
        if (s.conn)
            h = vx::mix(h, s.conn->rx.size() * 31 + s.conn->script);
        for (FakeSocket *f : {&s.ing, &s.egr}) {
            h = vx::mix(h, f->inbound.size() * 65537u + f->wire.size());
            h = vx::mix(h, f->isOpen | f->connected << 1 | f->hsDone << 2 | f->eof << 3 | f->rst << 4 | f->shutdownSent << 5 |
                               (f->connectH ? 64 : 0) | (f->hsH ? 128 : 0) | (f->shutH ? 256 : 0));
            h = vx::mix(h, f->blocked.size() * 16 + f->reads.size() * 256 + f->writesInFlight);
        }
        if (s.session)
            h = vx::mix(h, (int)s.session->state().getDisconnectType() * 8 + s.session->state().getPaused() * 2 + 1);
        h = vx::mix(h, s.authCbs.size() * 4 + s.authAllowed * 2 + s.authDenied);
    }
    return vx::mix(h, reinterpret_cast<uintptr_t>(&cfg) & 0) + c.task.scen * 0x9e3779b97f4a7c15ull;
}

// ---------------------------------------------------------------- peers

// whole frames out of `want`, then the beginning of a Close that is still being sent
static bool framesThenCloseHead(const string &got, const string &want)
{
    size_t n = 0, p = 0, last = 0;
    while (n < got.size() && n < want.size() && got[n] == want[n]) ++n;
    amqp::Frame f;
    string      pre = got.substr(0, n);
    while (amqp::parseFrame(pre, &p, &f) == 1) last = p;
    string tail = got.substr(last), head = string("\x01\x00\x00", 3);
    if (tail.size() > 11 && tail.substr(7, 4) != string("\x00\x0a\x00\x32", 4))
        return false;
    return tail.compare(0, std::min<size_t>(tail.size(), 3), head, 0, std::min<size_t>(tail.size(), 3)) == 0;
}

void World::clientRx(SessionCtx &s, const char *p, size_t n)
{
    ClientPeer &cl = s.client;
    if (cl.dead)
        return;
    cl.rx.append(p, n);
    c.log("  -> client " + std::to_string(s.id) + " gets " + std::to_string(n) + " bytes " + vx::hex(string(p, n), 24));
    if (s.paused && s.conn == nullptr && false)
        return;
    while (!cl.garbage) {
        if (cl.frames.empty() && cl.rx.size() >= 4 && cl.pos == 0 && cl.rx.compare(0, 4, "AMQP") == 0) {
            if (cl.rx.size() < 8)
                break;
            cl.headerEcho = true;
            if (cl.rx.substr(0, 8) != amqp::header())
                fail("C06", "bad-header-echo", "the client is sent a protocol header that is not the supported one");
            cl.pos = 8;
            if (cl.rx.size() > 8)
                fail("C06", "bytes-after-header", "bytes follow the protocol header sent to a refused client");
            break;
        }
        amqp::Frame f;
        size_t      pos = cl.pos;
        int         rc  = amqp::parseFrame(cl.rx, &pos, &f);
        if (rc == 0)
            break;
        if (rc < 0) {
            cl.garbage = true;
            if (s.cGraceful && s.cClientGone)
                break;  // it has left in the middle
            fail(s.cGraceful ? "C14" : cl.openOk ? "C01" : "C02", "client-stream-corrupt",
                 "the client receives bytes that are not AMQP frames at offset " + std::to_string(cl.pos) + ": " +
                     vx::hex(cl.rx.substr(cl.pos), 32));
            break;
        }
        size_t at = cl.pos;
        cl.pos    = pos;
        cl.frames.push_back(f);
        if (cl.headerEcho) {
            fail("C06", "bytes-after-header", "bytes follow the protocol header sent to a refused client");
            break;
        }
        if (cl.sawClose && !cl.sentClose && !(s.cGraceful && (s.cClientGone || s.cBrokerGone || (s.conn && s.conn->sentClose))))
            fail(s.cGraceful ? "C14" : "C06", "frame-after-close", "the client receives another frame after a Close: method " + std::to_string(f.meth));
        if (s.paused && (f.isConn(amqp::START) || f.isConn(amqp::TUNE)))
            fail("C15", "acted-while-paused", "a paused session answers the client's handshake");
        if (f.isConn(amqp::START)) {
            if (cl.start || cl.tune || cl.openOk)
                fail("C02", "client-order", "the client receives Start twice or out of order");
            cl.start = true;
        }
        else if (f.isConn(amqp::TUNE)) {
            if (!cl.start || cl.tune || cl.openOk)
                fail("C02", "client-order", "the client receives Tune twice or out of order");
            cl.tune = true;
        }
        else if (f.isConn(amqp::OPENOK)) {
            if (!cl.tune || cl.openOk || !cl.openSent)
                fail("C02", "client-order", "the client receives OpenOk twice or out of order");
            bool said = s.conn && s.conn->openOkSent;
            for (auto &b : s.conns) said = said || b->openOkSent;
            if (!said)
                fail("C02", "openok-before-broker", "the client is told the connection is open before the broker said so");
            cl.openOk    = true;
            cl.openOkEnd = cl.pos;
        }
        else if (f.isConn(amqp::CLOSE)) {
            cl.sawClose = true;
            cl.closeCount++;
            if (cl.closeCount == 1)
                cl.closeAt = at;
            if (!amqp::parseClose(f.args, &cl.closeCode, &cl.closeText))
                fail("C06", "malformed-close", "the client receives a malformed Close");
        }
        else if (f.isConn(amqp::CLOSEOK)) {
            cl.sawCloseOk = true;
        }
        else if (!cl.openOk && f.type != 8) {
            fail("C02", "client-unexpected", "the client receives an unexpected frame before OpenOk: type " + std::to_string(f.type) + " method " +
                                                 std::to_string(f.cls) + "." + std::to_string(f.meth));
        }
    }
    // prefix invariant on the open stream
    if (cl.openOk && cl.rx.size() > cl.openOkEnd) {
        string got = cl.rx.substr(cl.openOkEnd);
        string want;
        for (auto &b : s.conns)
            if (b->openOkSent)
                want = b->dataTx;
        if (s.cGraceful) {
            string cut = cl.closeCount ? cl.rx.substr(cl.openOkEnd, cl.closeAt - cl.openOkEnd) : got;
            string end = got.substr(cut.size());
            // frames of the broker, then the Close (one answer to a Close of the client may follow)
            if (want.compare(0, got.size(), got) != 0 && !s.cClientGone && !s.ing.wireEof) {
                if (cut.size() > want.size() || want.compare(0, cut.size(), cut) != 0) {
                    if (cl.closeCount || !framesThenCloseHead(cut, want))
                        fail("C14", "egress-mixed", "at a graceful disconnect the client received bytes that are not frames of the broker followed by the Close: " + vx::hex(got, 60));
                }
            }
        }
        else if (got.size() > want.size() || want.compare(0, got.size(), got) != 0)
            fail("C01", "egress-not-prefix", "the client received bytes the broker did not send in that order: got " + vx::hex(got, 40) + " of " + vx::hex(want, 40));
    }
}

void World::brokerRx(SessionCtx &s, const char *p, size_t n)
{
    BrokerConn *b = s.conn;
    if (!b) {
        fail("C13", "write-no-peer", "bytes are written to a backend socket that is not connected");
        return;
    }
    c.log("  -> broker gets " + std::to_string(n) + " bytes " + vx::hex(string(p, n), 24));
    const BackendCfg *bc = backendOf(b->to);
    bool wantProxy = bc && bc->proxy, wantTls = bc && bc->tls;
    bool tlsNow = s.egr.secure && s.egr.hsStarted;
    if (b->dead)
        return;
    if (s.egr.hsStarted && !s.egr.hsDone)
        fail("C18", "bytes-during-handshake", "bytes are written while the TLS handshake is in progress");
    b->rx.append(p, n);
    if (wantProxy && !b->sawProxy) {
        if (tlsNow)
            fail("C18", "proxy-inside-tls", "the PROXY line is sent inside TLS");
        size_t e = b->rx.find("\r\n");
        if (b->rx.compare(0, std::min<size_t>(6, b->rx.size()), string("PROXY ").substr(0, std::min<size_t>(6, b->rx.size()))) != 0) {
            fail("C18", "no-proxy-line", "the backend wants a PROXY line but the first bytes are " + vx::hex(b->rx, 16));
            return;
        }
        if (e == string::npos) {
            if (b->rx.size() > 107)
                fail("C18", "proxy-line-too-long", "PROXY line too long");
            return;
        }
        b->proxyLine = b->rx.substr(0, e);
        b->sawProxy  = true;
        b->pos       = e + 2;
        endpoint ce  = s.ing.remoteEp;
        std::istringstream is(b->proxyLine);
        string kw, fam, src, dst, sp, dp, extra;
        is >> kw >> fam >> src >> dst >> sp >> dp;
        // Version 1 has one family for both addresses; where they differ the
        // IPv4 one can only be written as an IPv4-mapped IPv6 address.
        bool   cv6 = ce.address().is_v6(), bv6 = b->to.address().is_v6();
        bool   v6  = cv6 || bv6;
        auto   norm = [](const boost::asio::ip::address &x) {
            if (x.is_v6() && x.to_v6().is_v4_mapped())
                return boost::asio::ip::address(boost::asio::ip::make_address_v4(boost::asio::ip::v4_mapped, x.to_v6()));
            return x;
        };
        std::ostringstream want;
        want << "PROXY " << (v6 ? "TCP6 " : "TCP4 ") << ce.address() << " " << b->to.address() << " " << ce.port() << " " << b->to.port();
        std::ostringstream rebuilt;
        rebuilt << kw << " " << fam << " " << src << " " << dst << " " << sp << " " << dp;
        error_code ec, ec2;
        auto       da = boost::asio::ip::make_address(dst, ec);
        auto       sa = boost::asio::ip::make_address(src, ec2);
        bool       famOk = fam == (v6 ? "TCP6" : "TCP4");
        if (cv6 != bv6)
            famOk = fam == "TCP6" && !ec && !ec2 && sa.is_v6() && da.is_v6();
        if (rebuilt.str() != b->proxyLine || !famOk || ec || ec2 || norm(sa) != ce.address() || norm(da) != b->to.address() || sp != std::to_string(ce.port()) ||
            dp != std::to_string(b->to.port()))
            fail("C18", v6 ? "proxy-line-v6" : bc->dns ? "proxy-line-dns" : "proxy-line",
                 "PROXY line is \"" + b->proxyLine + "\", expected \"" + want.str() + "\"");
        if (b->rx.size() > b->pos)
            fail("C18", "bytes-with-proxy-line", "more bytes follow the PROXY line in the same write");
        return;
    }
    if (!wantProxy && !b->sawHeader && b->rx.size() && b->rx[0] == 'P')
        fail("C18", "unwanted-proxy-line", "a PROXY line is sent to a backend that did not ask for it");
    if (wantTls != (s.egr.secure && s.egr.hsDone))
        fail("C18", wantTls ? "clear-to-tls-backend" : "tls-to-clear-backend",
             wantTls ? "AMQP bytes are sent in clear to a TLS backend" : "TLS is used towards a backend that did not ask for it");
    if (b->garbage)
        return;
    if (!b->sawHeader) {
        if (b->rx.size() - b->pos < 8)
            return;
        if (b->rx.substr(b->pos, 8) != amqp::header()) {
            b->garbage = true;
            fail("C02", "broker-header", "the broker does not receive the protocol header first but " + vx::hex(b->rx.substr(b->pos), 16));
            return;
        }
        b->pos += 8;
        b->sawHeader = true;
    }
    while (true) {
        amqp::Frame f;
        size_t      pos = b->pos;
        int         rc  = amqp::parseFrame(b->rx, &pos, &f);
        if (rc == 0)
            break;
        if (rc < 0) {
            b->garbage = true;
            if (s.cGraceful && (s.cBrokerGone || s.cClientGone || b->sentClose))
                break;
            fail(s.cGraceful ? "C14" : b->open ? "C01" : "C02", "broker-stream-corrupt",
                 "the broker receives bytes that are not AMQP frames: " + vx::hex(b->rx.substr(b->pos), 32));
            break;
        }
        size_t at = b->pos;
        b->pos    = pos;
        b->frames.push_back(f);
        bool isStartOk = f.isConn(amqp::STARTOK), isTuneOk = f.isConn(amqp::TUNEOK), isOpen = f.isConn(amqp::OPEN);
        if (b->sawClose && !f.isConn(amqp::CLOSEOK) && !s.client.sentClose)
            fail("C14", "broker-frame-after-close", "the broker receives another frame after Close");
        if (b->open && b->openOkSent && (isStartOk || isTuneOk || isOpen)) {
            // an open connection: whatever the client sends is passed on
        }
        else if (isStartOk) {
            if (b->startOk || b->script < 1)
                fail("C02", "broker-order", "StartOk reaches the broker twice or before its Start");
            b->startOk = true;
            amqp::StartOk so;
            if (!amqp::parseStartOk(f.args, &so)) {
                fail("C03", "startok-malformed", "the broker receives a malformed StartOk: " + vx::hex(f.args, 64));
            }
            else if (cfg.stdHandshake) {
                std::vector<amqp::Field> want = cfg.props;
                string mech = cfg.mech, creds = cfg.creds;
                if (cfg.fakeAuth && s.authResp.has_authdata()) {
                    mech  = s.authResp.authdata().authmechanism();
                    creds = s.authResp.authdata().credentials();
                    if (!s.authResp.reason().empty())
                        want.push_back({"amqpprox_auth", amqp::vS(s.authResp.reason())});
                }
                std::ostringstream ci, hi;
                ci << s.ing.remoteEp.address() << ":" << s.ing.remoteEp.port() << (cfg.clientTls ? " TLS" : "");
                hi << "(:" << s.ing.localEp.port() << ") proxyhost:" << s.egr.localEp.port();
                want.push_back({"amqpprox_client", amqp::vS(ci.str())});
                want.push_back({"amqpprox_host", amqp::vS(hi.str())});
                string what;
                if (so.props.size() != want.size())
                    what = "number of client properties " + std::to_string(so.props.size()) + " instead of " + std::to_string(want.size());
                for (size_t i = 0; what.empty() && i < want.size(); ++i)
                    if (so.props[i].name != want[i].name || so.props[i].value != want[i].value)
                        what = "client property " + want[i].name + " is " + so.props[i].name + "=" + so.props[i].value;
                if (so.mech != mech)
                    what = "mechanism " + so.mech;
                if (so.resp != creds)
                    what = "credentials " + vx::hex(so.resp);
                if (so.locale != cfg.locale)
                    what = "locale " + so.locale;
                if (!what.empty())
                    fail("C03", "startok-content", "StartOk reached the broker with changed content: " + what);
            }
        }
        else if (isTuneOk) {
            if (!b->startOk || b->tuneOk || b->script < 2)
                fail("C02", "broker-order", "TuneOk reaches the broker out of order");
            b->tuneOk = true;
            if (cfg.stdHandshake && f.args != amqp::u16(cfg.tuneCh) + amqp::u32(cfg.tuneFm) + amqp::u16(cfg.tuneHb))
                fail("C03", "tuneok-content", "TuneOk reached the broker with changed content " + vx::hex(f.args));
        }
        else if (isOpen) {
            if (!b->tuneOk || b->open)
                fail("C02", "broker-order", "Open reaches the broker out of order");
            b->open    = true;
            b->openEnd = b->pos;
            if (cfg.stdHandshake && f.args.substr(0, s.vhost.size() + 1) != amqp::sstr(s.vhost))
                fail("C03", "open-content", "Open reached the broker with another vhost " + vx::hex(f.args));
        }
        else if (f.isConn(amqp::CLOSE)) {
            if (!b->closeCount)
                b->closeAt = at;
            b->closeCount++;
            b->sawClose = true;
            if (s.cGraceful && !s.client.reacted && !s.client.sentClose && !s.client.dead && !s.ing.wireEof && !s.cWriteErr)
                fail("C14", "broker-closed-first", "the broker is sent Close before the client has answered its own");
        }
        else if (f.isConn(amqp::CLOSEOK)) {
            b->sawCloseOk = true;
        }
        else if (!b->open) {
            fail("C02", "broker-unexpected", "the broker receives an unexpected frame before Open");
        }
        (void)at;
    }
    if (s.paused && b->open && s.client.earlySent == 0 && cfg.stdHandshake) {
        size_t mayHave = s.readAtPause > s.handshakeBytes ? s.readAtPause - s.handshakeBytes : 0;
        if (b->rx.size() - b->openEnd > mayHave)
            fail("C15", "forwarded-while-paused", "bytes read from the client after the pause are forwarded to the broker");
    }
    if (b->open && s.cGraceful && b->rx.size() > b->openEnd && s.client.earlySent == 0 && !b->sentClose && !s.client.sentClose && !s.cClientGone) {
        string got = b->rx.substr(b->openEnd), want = s.client.dataTx;
        string cut = b->closeCount ? got.substr(0, b->closeAt - b->openEnd) : got;
        if (want.compare(0, got.size(), got) != 0 && (cut.size() > want.size() || want.compare(0, cut.size(), cut) != 0)) {
            if (b->closeCount || !framesThenCloseHead(cut, want))
                fail("C14", "ingress-mixed", "at a graceful disconnect the broker received bytes that are not frames of the client followed by the Close: " + vx::hex(got, 60));
        }
    }
    if (b->open && !s.cGraceful && b->rx.size() > b->openEnd) {
        // early frames (heartbeats the client sent before OpenOk) may be
        // passed on or dropped, as long as each stays whole
        string got = b->rx.substr(b->openEnd);
        string hb  = amqp::heartbeat();
        int    k   = 0;
        while (k < s.client.earlySent && got.compare(0, hb.size(), hb) == 0 && !got.empty() &&
               s.client.dataTx.compare(0, hb.size(), hb) != 0) {
            got.erase(0, hb.size());
            ++k;
        }
        if (k < s.client.earlySent && got.size() < hb.size() && hb.compare(0, got.size(), got) == 0)
            return;
        if (got.size() > s.client.dataTx.size() || s.client.dataTx.compare(0, got.size(), got) != 0)
            fail("C01", "ingress-not-prefix",
                 "the broker received bytes the client did not send in that order: got " + vx::hex(got, 40) + " of " + vx::hex(s.client.dataTx, 40));
    }
}

bool World::clientWait(SessionCtx &s, const Item &it)
{
    ClientPeer &cl = s.client;
    switch (it.wait) {
    case W_NONE: return true;
    case W_START: return cl.start;
    case W_TUNE: return cl.tune;
    case W_OPENOK: return cl.openOk;
    case W_DATA: return cl.openOk && cl.rx.size() - cl.openOkEnd >= it.arg;
    default: return false;
    }
}

bool World::brokerWait(SessionCtx &s, const Item &it)
{
    BrokerConn &b = *s.conn;
    switch (it.wait) {
    case W_NONE: return true;
    case W_HEADER: return b.sawHeader;
    case W_STARTOK: return b.startOk;
    case W_OPEN: return b.open;
    case W_DATA: return b.open && b.rx.size() - b.openEnd >= it.arg;
    default: return false;
    }
}

bool World::clientStepEnabled(SessionCtx &s)
{
    ClientPeer &cl = s.client;
    if (!s.started || cl.dead || cl.proxyClosed || s.ing.wireEof)
        return false;
    if (cfg.clientTls && !s.ing.hsDone)
        return false;
    if (cl.sawClose && !cl.reacted)
        return cfg.clientOnClose != R_SILENT;
    if (cl.reacted && !(cl.sentClose && cl.sawCloseOk && !s.ing.wireEof && cfg.clientOnClose == R_CLOSE_ONLY))
        return false;
    if (cl.sentClose && cl.sawCloseOk)
        return !s.ing.wireEof;  // hang up after its own close handshake
    if (cl.next < cl.script.size())
        return clientWait(s, cl.script[cl.next]);
    return cfg.clientHangsUp && cl.next == cl.script.size();
}

void World::clientStep(SessionCtx &s)
{
    ClientPeer &cl = s.client;
    auto        eof = [&] {
        s.ing.wireEof  = true;
        s.cClientGone  = true;
        c.log("client hangs up");
    };
    if (cl.sawClose && !cl.reacted) {
        cl.reacted = true;
        c.log("client reacts to Close");
        size_t before = s.ing.wire.size();
        switch (cfg.clientOnClose) {
        case R_CLOSEOK: s.ing.wire += amqp::closeOk(); break;
        case R_CLOSE_THEN_OK: s.ing.wire += amqp::close() + amqp::closeOk(); cl.sentClose = true; break;
        case R_CLOSE_ONLY: s.ing.wire += amqp::close(); cl.sentClose = true; break;
        case R_EOF: eof(); break;
        case R_RST:
            cl.dead       = true;
            s.cClientGone = true;
            s.ing.doRst();
            break;
        default: break;
        }
        if (cl.openOk && s.ing.wire.size() > before)
            cl.dataTx += s.ing.wire.substr(before);
        return;
    }
    if (cl.sentClose && cl.sawCloseOk) {
        eof();
        return;
    }
    if (cl.next >= cl.script.size()) {
        eof();
        return;
    }
    Item &it = cl.script[cl.next++];
    c.log("client " + std::to_string(s.id) + " sends item " + std::to_string(cl.next - 1) + " (" + std::to_string(it.bytes.size()) + " bytes)");
    s.ing.wire += it.bytes;
    if (it.tag == T_DATA)
        cl.dataTx += it.bytes;
    if (it.tag == T_CLOSE) {
        cl.dataTx += it.bytes;
        cl.sentClose   = true;
        s.clientClosed = true;
    }
    if (it.tag == T_EARLY)
        cl.earlySent++;
    // the client has named its vhost when an Open is on its way
    size_t      p = 0;
    amqp::Frame f;
    string      b = it.bytes;
    if (b.compare(0, 4, "AMQP") == 0)
        p = 8;
    while (p < b.size() && amqp::parseFrame(b, &p, &f) == 1)
        if (f.cls == 10 && f.meth == amqp::OPEN)
            cl.openSent = true;
}

static std::vector<Item> stdBrokerScript()
{
    return {{W_HEADER, 0, amqp::start(), T_HANDSHAKE}, {W_STARTOK, 0, amqp::tune(), T_HANDSHAKE}, {W_OPEN, 0, amqp::openOk(), T_HANDSHAKE}};
}

static const std::vector<Item> &brokerScriptFor(const Cfg &cfg, int id)
{
    if (id == cfg.badSession && !cfg.badBroker.empty())
        return cfg.badBroker;
    static std::map<const Cfg *, std::vector<Item>> cache;
    static std::vector<Item> cur;
    cur.clear();
    if (cfg.stdBroker)
        cur = stdBrokerScript();
    for (auto &i : cfg.brokerScript) cur.push_back(i);
    return cur;
}

bool World::brokerStepEnabled(SessionCtx &s)
{
    BrokerConn *b = s.conn;
    if (!b || b->dead || !s.egr.connected || s.egr.wireEof)
        return false;
    const BackendCfg *bc = backendOf(b->to);
    if (bc && bc->tls && !s.egr.hsDone)
        return false;
    if (b->sawClose && !b->reacted)
        return cfg.brokerOnClose != R_SILENT;
    if (b->reacted && cfg.brokerHangsUp)
        return true;
    if (b->reacted || b->sentClose)
        return false;
    const auto &sc = brokerScriptFor(cfg, s.id);
    return b->script < sc.size() && brokerWait(s, sc[b->script]);
}

void World::brokerStep(SessionCtx &s)
{
    BrokerConn *b = s.conn;
    if (b->sawClose && !b->reacted) {
        b->reacted = true;
        c.log("broker reacts to Close");
        switch (cfg.brokerOnClose) {
        case R_CLOSEOK:
            s.egr.wire += amqp::closeOk();
            if (b->openOkSent)
                b->dataTx += amqp::closeOk();
            break;
        case R_CLOSE_THEN_OK:
            s.egr.wire += amqp::close() + amqp::closeOk();
            b->dataTx += amqp::close() + amqp::closeOk();
            break;
        case R_CLOSE_ONLY:
            s.egr.wire += amqp::close();
            b->dataTx += amqp::close();
            break;
        case R_EOF:
            s.egr.wireEof = true;
            s.cBrokerGone = true;
            break;
        case R_RST:
            b->dead       = true;
            s.cBrokerGone = true;
            s.egr.doRst();
            break;
        default: break;
        }
        return;
    }
    if (b->reacted) {
        c.log("broker hangs up");
        s.egr.wireEof = true;
        s.brokerDone  = true;
        return;
    }
    const Item &it = brokerScriptFor(cfg, s.id)[b->script++];
    c.log("broker sends item " + std::to_string(b->script - 1) + " (" + std::to_string(it.bytes.size()) + " bytes)");
    s.egr.wire += it.bytes;
    if (b->openOkSent)
        b->dataTx += it.bytes;
    if (it.bytes.find(amqp::openOk()) != string::npos && !b->openOkSent) {
        b->openOkSent = true;
        size_t at     = it.bytes.find(amqp::openOk()) + amqp::openOk().size();
        b->dataTx += it.bytes.substr(at);
    }
    if (it.tag == T_CLOSE)
        b->sentClose = true;
}

// ---------------------------------------------------------------- stepping

void World::deliver(FakeSocket &f)
{
    if (f.wire.empty()) {
        if (f.wireEof && !f.eof) {
            f.eof = true;
            c.log(string("end of stream arrives on ") + f.name());
            f.checkReadable();
        }
        return;
    }
    size_t n    = f.wire.size();
    size_t dflt = cfg.readChunk ? std::min(n, cfg.readChunk) : n;
    int    nalt = 1;
    size_t alts[6] = {dflt, 0, 0, 0, 0, 0};
    if (cfg.seg) {
        for (size_t k : {(size_t)1, (size_t)7, (size_t)8, n / 2, n - 1}) {
            bool dup = k == 0 || k >= n;
            for (int i = 0; i < nalt; ++i) dup = dup || alts[i] == k;
            if (!dup && nalt < 6)
                alts[nalt++] = k;
        }
    }
    size_t k = alts[choose(vx::SEG, nalt, "segment")];
    f.inbound.append(f.wire, 0, k);
    f.wire.erase(0, k);
    c.log(std::to_string(k) + " bytes arrive on " + f.name());
    f.checkReadable();
}

void World::doOp(const Op &op)
{
    SessionCtx &s = *ss[op.session];
    opsRun++;
    if (!s.session)
        return;
    switch (op.kind) {
    case OP_PAUSE:
        c.log("operator: PAUSE");
        if (!s.paused)
            s.readAtPause = s.ing.readTotal;
        s.paused = s.everPaused = true;
        s.session->pause();
        break;
    case OP_UNPAUSE:
        c.log("operator: UNPAUSE");
        if (s.paused) {
            // Held back by the pause: the proxy has acted on Open, and at
            // rest no connection is made or being made.  Every other paused
            // session is disconnected.  Not judged in mid-flight.
            bool connecting = s.egr.connectH || s.egr.connected || s.conn;
            bool quiet      = !queued() && s.authCbs.empty() && !isFinished(s) && !s.cClientGone && !s.cBrokerGone && !s.cProxy;
            bool held       = !s.session->state().getVirtualHost().empty() && !connecting;
            s.waitingAtUnpause = quiet && held;
            s.decidedAtUnpause = quiet && !held;
        }
        s.paused = false;
        s.session->unpause();
        break;
    case OP_FORCE:
        c.log("operator: DISCONNECT (forced)");
        s.cProxy = true;
        s.session->disconnect(true);
        break;
    case OP_GRACEFUL:
        c.log("operator: DISCONNECT (graceful)");
        if (!s.cGraceful)
            s.gracefulOpen = s.client.openOk && !s.cClientGone && !s.cBrokerGone && !s.cProxy && !s.client.sentClose && !(s.conn && s.conn->sentClose);
        s.cGraceful = true;
        s.session->disconnect(false);
        break;
    case OP_BACKEND_DISC:
        c.log("operator: BACKEND DISCONNECT");
        // before there is a backend connection there is nothing to cut
        // nothing to cut yet: the session may go on to another address
        if (s.egr.isOpen && (!s.conn || !s.conn->sawHeader))
            s.cutConnecting = true;
        else if (s.egr.isOpen)
            s.cBrokerGone = s.cutBackend = true;
        s.session->backendDisconnect();
        break;
    }
}

void World::invariants(SessionCtx &s)
{
    if (!s.session)
        return;
    if (s.session->finished())
        s.finishedSeen = true;
}

enum ActKind { A_RUN, A_DELIVER_I, A_DELIVER_E, A_CONNECT, A_HS_I, A_HS_E, A_SHUT_I, A_SHUT_E, A_WRITABLE_I, A_WRITABLE_E, A_NOTIFY_I, A_NOTIFY_E, A_CLIENT, A_BROKER, A_AUTH, A_EARLY, A_NEXT, A_OP, A_TICK };
struct Act {
    ActKind k;
    int     s;
};

bool World::step()
{
    checkBad();
    c.step(fingerprint());
    if (c.tooDeep())
        c.violate(vx::watched().c_str(), "livelock", "the session does not come to rest");

    std::vector<Act> acts, env;
    bool             q = queued();
    for (auto &p : ss) {
        SessionCtx &s = *p;
        if (!s.started)
            continue;
        for (FakeSocket *f : {&s.ing, &s.egr}) {
            bool i = f->ingress;
            if (f->isOpen && f->connected && (!f->wire.empty() || (f->wireEof && !f->eof)) && !f->rst)
                env.push_back({i ? A_DELIVER_I : A_DELIVER_E, s.id});
            if (f->hsH)
                env.push_back({i ? A_HS_I : A_HS_E, s.id});
            if (f->isOpen && f->readable() && !f->reads.empty())
                env.push_back({i ? A_NOTIFY_I : A_NOTIFY_E, s.id});
            if (f->shutH && f->reads.empty())
                env.push_back({i ? A_SHUT_I : A_SHUT_E, s.id});
            if (!f->blocked.empty())
                env.push_back({i ? A_WRITABLE_I : A_WRITABLE_E, s.id});
        }
        if (s.egr.connectH)
            env.push_back({A_CONNECT, s.id});
        if (!s.authCbs.empty())
            env.push_back({A_AUTH, s.id});
        if (brokerStepEnabled(s))
            env.push_back({A_BROKER, s.id});
        if (clientStepEnabled(s))
            env.push_back({A_CLIENT, s.id});
        if (s.client.early < cfg.clientEarly.size() && !s.client.openOk && s.client.start && !s.client.dead && !s.client.proxyClosed && !s.ing.wireEof && clientWait(s, cfg.clientEarly[s.client.early]))
            env.push_back({A_EARLY, s.id});
    }
    for (size_t i = 1; i < ss.size(); ++i)
        if (!ss[i]->started && cfg.sequential) {
            SessionCtx &prev = *ss[i - 1];
            if (prev.client.openOk || prev.client.proxyClosed) {
                env.push_back({A_NEXT, (int)i});
            }
            break;
        }
    // Policy 0: the proxy handles what is queued before the world moves on.
    // Policy 1: the world moves as far as it can before the proxy handles anything.
    // Policy 2: as 0, but the client before the broker.
    if (cfg.policy == 1) {
        acts = env;
        if (q)
            acts.push_back({A_RUN, 0});
    }
    else {
        if (q)
            acts.push_back({A_RUN, 0});
        if (cfg.policy == 2)
            std::stable_sort(env.begin(), env.end(), [](const Act &a, const Act &b) { return (a.k == A_CLIENT) > (b.k == A_CLIENT); });
        acts.insert(acts.end(), env.begin(), env.end());
    }
    // Faults: the peers may disappear at any point
    if (faultsLeft > 0 && (cfg.faults & (F_CLIENT_EOF | F_CLIENT_RST | F_BROKER_EOF | F_BROKER_RST)) && !noChoices) {
        std::vector<std::pair<int, int>> fs;
        for (auto &p : ss) {
            SessionCtx &s = *p;
            if (s.started && s.ing.isOpen && !s.ing.wireEof && !s.ing.rst) {
                if (cfg.faults & F_CLIENT_EOF)
                    fs.push_back({F_CLIENT_EOF, s.id});
                if (cfg.faults & F_CLIENT_RST)
                    fs.push_back({F_CLIENT_RST, s.id});
            }
            if (s.conn && s.egr.isOpen && s.egr.connected && !s.egr.wireEof && !s.egr.rst) {
                if (cfg.faults & F_BROKER_EOF)
                    fs.push_back({F_BROKER_EOF, s.id});
                if (cfg.faults & F_BROKER_RST)
                    fs.push_back({F_BROKER_RST, s.id});
            }
        }
        if (!fs.empty()) {
            int k = choose(vx::FAULT, 1 + fs.size(), "fault");
            if (k) {
                faultsLeft--;
                faulted       = true;
                SessionCtx &s = *ss[fs[k - 1].second];
                switch (fs[k - 1].first) {
                case F_CLIENT_EOF:
                    c.log("FAULT: client ends its stream");
                    s.ing.wireEof = true;
                    s.cClientGone = true;
                    break;
                case F_CLIENT_RST:
                    c.log("FAULT: client connection reset");
                    s.cClientGone = true;
                    s.client.dead = true;
                    s.ing.doRst();
                    break;
                case F_BROKER_EOF:
                    c.log("FAULT: broker ends its stream");
                    s.egr.wireEof = true;
                    s.cBrokerGone = true;
                    break;
                case F_BROKER_RST:
                    c.log("FAULT: broker connection reset");
                    s.cBrokerGone = true;
                    s.conn->dead  = true;
                    s.egr.doRst();
                    break;
                }
                return true;
            }
        }
    }
    if (nextOp < cfg.ops.size() && !noChoices && (int)ss[cfg.ops[nextOp].session]->client.rx.size() >= cfg.opsFrom) {
        if (!acts.empty()) {
            if (choose(vx::OP, 2, "operator now")) {
                doOp(cfg.ops[nextOp++]);
                return true;
            }
        }
        else
            acts.push_back({A_OP, 0});
    }
    if (acts.empty() && timeLeft > 0)
        acts.push_back({A_TICK, 0});
    if (acts.empty())
        return false;
    int  k = choose(vx::SCHED, acts.size(), "next");
    Act  a = acts[k];
    SessionCtx &s = *ss[a.s];
    switch (a.k) {
    case A_RUN:
        ioc.restart();
        ioc.poll_one();
        break;
    case A_DELIVER_I: deliver(s.ing); break;
    case A_DELIVER_E: deliver(s.egr); break;
    case A_CONNECT: {
        FakeSocket &f  = s.egr;
        auto        h  = f.connectH;
        f.connectH     = nullptr;
        bool ok        = true;
        if ((cfg.faults & F_CONNECT) && faultsLeft > 0 && choose(vx::FAULT, 2, "connect outcome")) {
            ok = false;
            faultsLeft--;
            faulted = true;
        }
        ConnectAttempt &at = s.attempts.back();
        at.decided         = true;
        at.ok              = ok;
        c.log(string("connect ") + (ok ? "succeeds" : "is refused"));
        if (!ok) {
            boost::asio::post(ioc, [h] { h(aerr::connection_refused); });
            break;
        }
        f.connected = true;
        f.remoteEp  = f.connectEp;
        s.conns.push_back(std::make_unique<BrokerConn>());
        s.conn     = s.conns.back().get();
        s.conn->to = f.connectEp;
        boost::asio::post(ioc, [h] { h(error_code()); });
        break;
    }
    case A_HS_I:
    case A_HS_E: {
        FakeSocket &f = a.k == A_HS_I ? s.ing : s.egr;
        auto        h = f.hsH;
        f.hsH         = nullptr;
        bool ok       = true;
        if ((cfg.faults & F_TLS) && faultsLeft > 0 && choose(vx::FAULT, 2, "TLS handshake outcome")) {
            ok = false;
            faultsLeft--;
            faulted = true;
            (f.ingress ? s.cClientGone : s.cBrokerGone) = true;
            hsFailed = true;
        }
        c.log(string("TLS handshake on ") + f.name() + (ok ? " succeeds" : " fails"));
        if (ok)
            f.hsDone = true;
        error_code ec = ok ? error_code() : error_code(boost::asio::ssl::error::stream_truncated);
        boost::asio::post(ioc, [h, ec] { h(ec); });
        break;
    }
    case A_SHUT_I:
    case A_SHUT_E: {
        FakeSocket &f = a.k == A_SHUT_I ? s.ing : s.egr;
        auto        h = f.shutH;
        f.shutH       = nullptr;
        boost::asio::post(ioc, [h] { h(boost::asio::ssl::error::stream_truncated); });
        break;
    }
    case A_WRITABLE_I:
    case A_WRITABLE_E: {
        FakeSocket &f = a.k == A_WRITABLE_I ? s.ing : s.egr;
        auto        b = f.blocked.front();
        f.blocked.pop_front();
        string now(b.p, b.n);  // the buffer must still be alive and untouched
        if (now != b.snapshot)
            fail(s.cGraceful ? "C14" : "C01", "write-buffer-changed", "the bytes of a pending write changed before they were sent");
        f.transmit(b.p, b.n);
        f.postWrite(b.h, error_code(), b.n);
        break;
    }
    case A_NOTIFY_I: s.ing.checkReadable(); break;
    case A_NOTIFY_E: s.egr.checkReadable(); break;
    case A_CLIENT: clientStep(s); break;
    case A_BROKER: brokerStep(s); break;
    case A_AUTH: answerAuth(s); break;
    case A_EARLY:
        c.log("client sends early frame");
        s.ing.wire += cfg.clientEarly[s.client.early++].bytes;
        s.client.earlySent++;
        break;
    case A_NEXT: startClient(a.s); break;
    case A_OP: doOp(cfg.ops[nextOp++]); break;
    case A_TICK:
        timeLeft--;
        vtime::advance(1000000000LL);
        c.log("one second passes");
        ioc.restart();
        ioc.poll_one();
        break;
    }
    for (auto &p : ss) invariants(*p);
    checkBad();
    return true;
}

void World::runToQuiescence()
{
    while (step()) {
    }
}

static void commonFinal(World &w)
{
    for (auto &p : w.ss) {
        SessionCtx &s = *p;
        if (!s.started || !s.session)
            continue;
        ClientPeer &cl = s.client;
        auto        dt = s.session->state().getDisconnectType();
        bool fin       = s.session->finished();
        bool causes    = s.cClientGone || s.cBrokerGone || s.cProxy || s.cGraceful || s.cWriteErr;
        // --- teardown ---
        if ((s.cClientGone || s.cBrokerGone || s.cProxy) && !s.everPaused && !s.cGraceful) {
            bool brokerCause = s.cBrokerGone && (s.conn || s.egr.everClosed);
            if (s.cClientGone || s.cProxy || brokerCause) {
                // documented to close the broker side only; the client side
                // follows with the client's next byte
                if (s.ing.isOpen && !((s.cutBackend || s.cutConnecting) && !s.cClientGone && !s.cProxy))
                    w.fail("C13", "client-socket-open", "the session ended but the client socket is still open");
                if (s.egr.isOpen)
                    w.fail("C13", "broker-socket-open", "the session ended but the backend socket is still open");
                if (!fin)
                    w.fail("C13", "not-finished", "the session ended but is never marked finished (removable)");
                using DT = SessionState::DisconnectType;
                bool ok  = false;
                if (dt == DT::DISCONNECTED_CLIENT)
                    ok = s.cClientGone || s.cWriteErr;
                else if (dt == DT::DISCONNECTED_SERVER)
                    ok = s.cBrokerGone || s.cWriteErr || s.cutConnecting;
                else if (dt == DT::DISCONNECTED_PROXY)
                    ok = true;
                else if (dt == DT::DISCONNECTED_CLEANLY)
                    ok = cl.sentClose || cl.sawClose;
                if (dt == DT::DISCONNECTED_PROXY && !s.cProxy && !w.faulted && !s.cutConnecting)
                    ok = false;
                if (fin && !ok)
                    w.fail("C13", "wrong-reason", "disconnect reason " + std::to_string((int)dt) + " does not match what ended the session");
            }
        }
        if (s.cWriteFault && !s.everPaused && !s.cGraceful) {
            if (s.ing.isOpen || s.egr.isOpen)
                w.fail("C13", "write-error-socket-open", string("writing failed but a socket stays open:") + (s.ing.isOpen ? " client" : "") + (s.egr.isOpen ? " backend" : ""));
            if (!fin)
                w.fail("C13", "write-error-not-finished", "writing failed but the session is never marked finished");
        }
        // --- graceful disconnect ---
        if (s.gracefulOpen && !s.everPaused && s.conns.size() == 1) {
            BrokerConn &bk = *s.conns.back();
            auto answers = [](CloseReaction r) { return r == R_CLOSEOK || r == R_CLOSE_THEN_OK || r == R_CLOSE_ONLY; };
            bool clientAnswers = answers(w.cfg.clientOnClose), brokerAnswers = answers(w.cfg.brokerOnClose);
            bool undisturbed   = !w.faulted && !s.cProxy && !bk.sentClose && !w.cfg.clientHangsUp && !s.clientClosed;
            using DT           = SessionState::DisconnectType;
            if (undisturbed) {
                if (cl.closeCount < 1)
                    w.fail("C14", "no-close-to-client", "a graceful disconnect never sends the client its Close");
                else if (!s.cClientGone && (cl.closeCount != 1 || cl.closeCode != 200))
                    w.fail("C14", "closes-to-client", "a graceful disconnect sends the client " + std::to_string(cl.closeCount) + " Close methods, the last with code " + std::to_string(cl.closeCode));
                if (w.cfg.clientOnClose != R_SILENT && w.cfg.clientOnClose != R_RST && bk.closeCount != 1)
                    w.fail("C14", "closes-to-broker", "a graceful disconnect sends the broker " + std::to_string(bk.closeCount) + " Close methods instead of one");
                if (w.cfg.clientOnClose == R_SILENT && bk.closeCount)
                    w.fail("C14", "broker-closed-first", "the broker is sent Close before the client has answered its own");
            }
            bool over = (w.cfg.clientOnClose != R_SILENT || s.cClientGone) && w.cfg.brokerOnClose != R_SILENT;
            if (s.cProxy || s.cBrokerGone || bk.sentClose)
                over = true;
            if (over) {
                if (s.ing.isOpen || s.egr.isOpen)
                    w.fail("C14", "socket-open", string("both sides are done with a graceful disconnect, but a socket stays open:") + (s.ing.isOpen ? " client" : "") + (s.egr.isOpen ? " backend" : ""));
                if (!fin)
                    w.fail("C14", "not-finished", "both sides are done with a graceful disconnect, but the session is not finished");
            }
            if (undisturbed && clientAnswers && brokerAnswers && over && dt != DT::DISCONNECTED_CLEANLY)
                w.fail("C14", "not-clean", "both sides answered the Close of a graceful disconnect, but the session ends with reason " + std::to_string((int)dt));
        }
        // --- refused clients ---
        if (w.cfg.expectRefused && !w.faulted && w.opsRun == 0) {
            const Cfg &cf = w.cfg;
            if (cl.openOk)
                w.fail("C06,C05", "refused-but-open", "a client that must be refused was told its connection is open");
            if (cf.noBroker && !s.attempts.empty())
                w.fail("C06,C05,C07", "refused-but-connected", "a backend was contacted for a client that must be refused");
            if (cl.headerEcho != cf.refuseHeader)
                w.fail("C06", "refusal-header", cf.refuseHeader ? "a client speaking another protocol was not sent the supported protocol header" : "the client was sent a protocol header");
            if (cl.closeCount != (cf.refuseCode ? 1 : 0))
                w.fail("C06", "refusal-close-count", "the refused client received " + std::to_string(cl.closeCount) + " Close methods instead of " + (cf.refuseCode ? "one" : "none"));
            if (cf.refuseCode && cl.closeCode != cf.refuseCode)
                w.fail("C06", "refusal-code", "the refused client received close code " + std::to_string(cl.closeCode) + " instead of " + std::to_string(cf.refuseCode));
            bool textOk = cf.exactText ? cl.closeText == cf.refuseText : cl.closeText.find(cf.refuseText) != string::npos;
            if (!textOk && cl.closeText.size() >= 240 && !cf.exactText)  // a short string holds 255 bytes: the name may be cut
                for (size_t n = 20; n < cf.refuseText.size() && !textOk; ++n)
                    textOk = cl.closeText.size() >= n && cl.closeText.compare(cl.closeText.size() - n, n, cf.refuseText, 0, n) == 0;
            if (cf.refuseCode && !textOk)
                w.fail("C06", "refusal-text", "the refused client received the text \"" + cl.closeText + "\"");
            if (s.ing.isOpen || s.egr.isOpen)
                w.fail("C06,C13", "refused-socket-open", string("a refused client's session keeps a socket open:") + (s.ing.isOpen ? " client" : "") + (s.egr.isOpen ? " backend" : ""));
            if (!fin)
                w.fail("C06,C13", "refused-not-finished", "a refused client's session is not finished");
        }
        // --- authentication ---
        if (w.cfg.fakeAuth && w.cfg.stdHandshake && s.client.openSent) {
            if (s.authAsked > 1 && !s.everPaused)
                w.fail("C05", "auth-asked-twice", "the auth service is asked " + std::to_string(s.authAsked) + " times for one session");
            if (!w.faulted && w.opsRun == 0 && s.authAsked == 0 && w.cfg.limitPerSec < 0)
                w.fail("C05", "auth-not-asked", "the auth service is never asked");
            for (auto &r : s.authReqs) {
                string cn;
                for (auto &p : w.cfg.props)
                    if (p.name == "connection_name" && p.value[0] == 'S')
                        cn = p.value.substr(5);
                if (r.vhostname() != s.vhost || r.authdata().authmechanism() != w.cfg.mech || r.authdata().credentials() != w.cfg.creds || r.connectionname() != cn ||
                    r.clienthostname() != s.ing.remoteEp.address().to_string())
                    w.fail("C05", "auth-request-content", "the auth service is asked with other data than the client's: " + r.ShortDebugString());
            }
            if (s.authDenied && !s.authAllowed && !s.attempts.empty())
                w.fail("C05", "denied-but-connected", "a backend is contacted for a denied client");
            if (s.authDenied && !s.authAllowed && (s.ing.isOpen || !fin))
                w.fail("C05,C06", "denied-not-disconnected", "a denied client is not disconnected");
        }
        // --- nothing is lost before an orderly end ---
        if (!s.ing.rst && !s.egr.rst && !s.cProxy && !s.cGraceful && !s.everPaused && w.opsRun == 0 && !s.cWriteErr && w.cfg.stdHandshake && cl.openOk) {
            BrokerConn *b = s.conn ? s.conn : (s.conns.empty() ? nullptr : s.conns.back().get());
            if (b && s.cClientGone && !s.cBrokerGone && b->open && cl.earlySent == 0 && b->rx.size() - b->openEnd < cl.dataTx.size())
                w.fail("C01", "ingress-lost-at-eof", "the client sent everything and then ended its stream, but the broker got only " + std::to_string(b->rx.size() - b->openEnd) + " of " + std::to_string(cl.dataTx.size()) + " bytes");
            if (b && s.cBrokerGone && !s.cClientGone && cl.rx.size() - cl.openOkEnd < b->dataTx.size())
                w.fail("C01", "egress-lost-at-eof", "the broker sent everything and then ended its stream, but the client got only " + std::to_string(cl.rx.size() - cl.openOkEnd) + " of " + std::to_string(b->dataTx.size()) + " bytes");
        }
        // --- handshake completion and delivery when nobody misbehaves ---
        if (!w.faulted && w.opsRun == 0 && w.cfg.stdHandshake && w.cfg.stdBroker && !s.authDenied && w.cfg.limitPerSec < 0 && !causes) {
            if (!cl.openOk && cl.closeCount == 0 && !s.authDenied)
                w.fail("C02,C03,C08,C10,C18", "handshake-stuck", "both peers follow the protocol but the handshake never completes");
            if (cl.openOk) {
                string inTx = cl.dataTx;
                BrokerConn *b = s.conn ? s.conn : (s.conns.empty() ? nullptr : s.conns.back().get());
                if (b) {
                    size_t got = b->rx.size() - b->openEnd;
                    string hb  = amqp::heartbeat();
                    string rx  = b->rx.substr(b->openEnd);
                    int    k   = 0;
                    while (k < cl.earlySent && rx.compare(0, hb.size(), hb) == 0 && inTx.compare(0, hb.size(), hb) != 0) {
                        rx.erase(0, hb.size());
                        ++k;
                    }
                    got = rx.size();
                    if (got < inTx.size())
                        w.fail("C01", "ingress-stuck", "bytes the client sent never reach the broker: " + std::to_string(got) + " of " + std::to_string(inTx.size()));
                    size_t eg = cl.rx.size() - cl.openOkEnd;
                    if (eg < b->dataTx.size())
                        w.fail("C01", "egress-stuck", "bytes the broker sent never reach the client: " + std::to_string(eg) + " of " + std::to_string(b->dataTx.size()));
                    if (cl.next < cl.script.size() && !cl.reacted)
                        w.fail("C01", "client-script-stuck", "the client waits forever for data");
                }
            }
        }
    }
    w.checkBad();
}

void World::finish()
{
    // Whatever happened, losing the client must end and free everything.
    noChoices = true;
    for (auto &p : ss) {
        SessionCtx &s = *p;
        if (!s.started)
            continue;
        if (!s.ing.wireEof && s.ing.isOpen) {
            s.ing.wireEof = true;
            s.cClientGone = true;
        }
    }
    runToQuiescence();
    for (auto &p : ss) {
        SessionCtx &s = *p;
        if (!s.started)
            continue;
        if (!s.everPaused && s.cGraceful && cfg.brokerOnClose != R_SILENT) {
            if (s.ing.isOpen || s.egr.isOpen || !s.session->finished())
                fail("C14", "never-ends", string("after a graceful disconnect and the loss of the client the session does not end:") + (s.ing.isOpen ? " client socket open" : "") + (s.egr.isOpen ? " backend socket open" : "") + (s.session->finished() ? "" : " not finished"));
        }
        if (!s.everPaused && !s.cGraceful) {
            if (s.ing.isOpen || s.egr.isOpen)
                fail("C13", "sockets-open-after-hangup", string("after the client hung up a socket stays open:") + (s.ing.isOpen ? " client" : "") + (s.egr.isOpen ? " backend" : ""));
            if (!s.session->finished())
                fail("C13", "not-finished-after-hangup", "after the client hung up the session is not finished");
        }
        checkBad();
        bool over = s.session->finished();
        // Session removal, as the server does it once finished() holds
        s.session.reset();
        // pending auth answers hold the session until they come
        if (over) {
            error_code ec;
            if (s.ing.isOpen || s.egr.isOpen)
                fail("C17", "socket-open", "a finished session still has an open socket after everything came to rest");
        }
        s.authCbs.clear();
        s.ingA.reset();
        s.egrA.reset();
    }
    runToQuiescence();
    timeLeft = 3;  // let timers of ended sessions run out
    runToQuiescence();
    for (auto &p : ss) {
        SessionCtx &s = *p;
        if (!s.started)
            continue;
        if (!s.everPaused && (!s.cGraceful || cfg.brokerOnClose != R_SILENT) && !s.weak.expired())
            fail("C17", "session-leaked", "the session object outlives its removal and its last pending operation");
    }
    if (cfg.bucketPool) {
        bool allGone = true;
        for (auto &p : ss) allGone = allGone && p->weak.expired();
        if (allGone) {
            std::vector<BufferPool::BufferAllocationStat> st;
            uint64_t                                      spill;
            pool.getPoolStatistics(&st, &spill);
            for (auto &x : st)
                if (std::get<1>(x) != 0)
                    fail("C17", "buffers-held", std::to_string(std::get<1>(x)) + " buffers of " + std::to_string(std::get<0>(x)) + " bytes are still accounted for after the session is gone");
        }
    }
    checkBad();
}

void runScenario(vx::Chooser &c, const Cfg &cfg, const Final &final)
{
    static bool once = (vtime::enable(), true);
    (void)once;
    World w(c, cfg);
    w.runToQuiescence();
    string o;
    for (auto &p : w.ss) {
        SessionCtx &s = *p;
        o += string(s.client.openOk ? "open" : s.client.sawClose ? "closed" + std::to_string(s.client.closeCode) : s.client.tune ? "tuned" : s.client.start ? "started" : "new");
        o += string("/att") + std::to_string(s.attempts.size()) + "/dt" +
             std::to_string(s.session ? (int)s.session->state().getDisconnectType() : -1) + (s.ing.isOpen ? "/Iopen" : "/Iclosed") + (s.egr.isOpen ? "/Eopen" : "/Eclosed");
        if (w.ss.size() > 2)
            break;
        o += " ";
    }
    c.outcome(o);
    if (final)
        final(w);
    w.checkBad();
    commonFinal(w);
    w.finish();
}

}
