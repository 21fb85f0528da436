// The socket adaptor over a real TCP connection, with real TLS records and
// simulated time.
#include "nworld.h"
#include <amqpprox_maybesecuresocketadaptor.h>

namespace nw {
using vx::Budget;
using vx::FREE;
using vx::Scenario;
using Bloomberg::amqpprox::MaybeSecureSocketAdaptor;
using error_code = boost::system::error_code;
namespace asio   = boost::asio;

namespace {
Listener &lsn()
{
    static pid_t     owner = 0;
    static Listener *l     = nullptr;
    if (owner != getpid()) {
        l     = new Listener;
        owner = getpid();
    }
    return *l;
}

asio::ssl::context &tlsContext()
{
    static asio::ssl::context *x = [] {
        auto  *x    = new asio::ssl::context(asio::ssl::context::tlsv12);
        string cert = certPem(), key = keyPem();
        x->set_options(asio::ssl::context::default_workarounds);
        x->use_certificate(asio::buffer(cert), asio::ssl::context::pem);
        x->use_private_key(asio::buffer(key), asio::ssl::context::pem);
        SSL_CTX_set_session_cache_mode(x->native_handle(), SSL_SESS_CACHE_OFF);
        return x;
    }();
    return *x;
}

struct Pair {
    Chooser                                    &c;
    const char                                 *prop;
    asio::io_context                            io;
    std::shared_ptr<MaybeSecureSocketAdaptor<>> a;
    Peer                                        peer;

    Pair(Chooser &c, const char *prop, bool tls) : c(c), prop(prop)
    {
        vtime::enable();
        vtime::set(5000000000ll);
        a = std::make_shared<MaybeSecureSocketAdaptor<>>(io, tlsContext(), tls);
        if (!peer.connectTo(lsn().port))
            abort();
        int     fd = -1;
        int64_t t  = realMs();
        while ((fd = lsn().accept()) < 0 && realMs() - t < 5000) napMicros(100);
        a->socket().assign(asio::ip::tcp::v4(), fd);
        error_code ec;
        a->setDefaultOptions(ec);
        if (tls)
            peer.startTls(false);
        bool done = false, ok = false;
        a->async_handshake(asio::ssl::stream_base::server, [&](error_code ec) {
            done = true;
            ok   = !ec;
        });
        t = realMs();
        while (!(done && (!tls || peer.tlsOk)) && realMs() - t < 5000) {
            poll();
            peer.pump();
        }
        if (!ok)
            c.violate(prop, "handshake", "the TLS handshake did not complete");
    }
    ~Pair()
    {
        error_code ec;
        a->close(ec);
        io.restart();
        io.poll();
        a.reset();
        io.restart();
        io.poll();
    }
    size_t poll()
    {
        io.restart();
        return io.poll();
    }
    size_t pollOne()
    {
        io.restart();
        return io.poll_one();
    }
    void settle()
    {
        for (int idle = 0, n = 0; idle < 2 && n < 3000; ++n) {
            size_t k = poll();
            idle     = k ? 0 : idle + 1;
        }
    }
    template <typename F>
    bool await(F cond)
    {
        int64_t t = realMs();
        for (;;) {
            settle();
            if (cond())
                return true;
            if (realMs() - t > 2000)
                return false;
            napMicros(300);
        }
    }
};

// ------------------------------------------------------------- C23
// Reader policies: what size each read asks for, and whether several reads
// follow one readiness notification.
enum { AVAIL, ONE, TWO, BIG, ALLBUTONE, DRAIN_ONE, DRAIN_AVAIL, SKIP, POLICIES };

struct Reader {
    Pair       &p;
    int         policy;
    string      got;
    string      complete;  // bytes of the records that have reached the adaptor whole
    bool        waiting = false, ended = false;
    error_code  end;
    bool        skipped = false;
    std::vector<char> buf;
    int         restarts = 0;
    std::shared_ptr<bool> alive = std::make_shared<bool>(true);
    ~Reader() { *alive = false; }

    Reader(Pair &p, int policy) : p(p), policy(policy), buf(70000) {}

    void arm()
    {
        if (waiting || ended || ++restarts > 70000)
            return;
        waiting = true;
        p.a->async_read_some(asio::null_buffers(), [this, alive = alive](error_code ec, size_t) {
            if (!*alive)
                return;
            waiting = false;
            if (ec) {
                finish(ec, "readiness");
                return;
            }
            if (policy == SKIP && !skipped) {
                skipped = true;  // asks again before reading
                arm();
                return;
            }
            skipped = false;
            readNow();
        });
    }
    void finish(error_code ec, const char *where)
    {
        ended = true;
        end   = ec;
        p.c.log(string("reader ended by ") + ec.message() + " at " + where + " after " + std::to_string(got.size()));
        if (got.size() < complete.size())
            p.c.violate(p.prop, "ended-early", string(where) + " reported '" + ec.message() + "' after " + std::to_string(got.size()) + " bytes although " +
                                                   std::to_string(complete.size()) + " had arrived whole");
    }
    // one read of k bytes; false when nothing more can be read now
    bool readOnce(size_t k, size_t avail)
    {
        error_code ec;
        memset(buf.data(), 0x5a, k + 8);
        size_t n = p.a->read_some(asio::buffer(buf.data(), k), ec);
        p.c.log("read " + std::to_string(k) + " of " + std::to_string(avail) + " -> " + std::to_string(n) + " " + (ec ? ec.message() : ""));
        if (n > k)
            p.c.violate(p.prop, "overrun", "a read of " + std::to_string(k) + " bytes returned " + std::to_string(n));
        for (size_t i = k; i < k + 8; ++i)
            if (buf[i] != 0x5a)
                p.c.violate(p.prop, "overrun", "a read wrote past its buffer");
        if (avail && (ec || n < std::min(k, avail)))
            p.c.violate(p.prop, "available-too-large", std::to_string(avail) + " bytes were reported readable but a read of " + std::to_string(k) + " gave " + std::to_string(n) +
                                                           (ec ? " and '" + ec.message() + "'" : ""));
        if (!ec) {
            got.append(buf.data(), n);
            return n != 0;
        }
        if (ec == asio::error::would_block || ec == asio::error::try_again)
            return false;
        finish(ec, "read");
        return false;
    }
    size_t avail()
    {
        error_code ec;
        size_t     n = p.a->available(ec);
        if (ec)
            p.c.violate(p.prop, "available-error", "available() failed: " + ec.message());
        return n;
    }
    void readNow()
    {
        size_t a = avail();
        switch (policy) {
        case ONE: readOnce(1, a); break;
        case TWO: readOnce(2, a); break;
        case BIG: readOnce(60000, a); break;
        case ALLBUTONE: readOnce(a > 1 ? a - 1 : 1, a); break;
        case DRAIN_ONE:
            for (int i = 0; i < 70000 && !ended && readOnce(1, avail()); ++i) {}
            break;
        case DRAIN_AVAIL:
            for (int i = 0; i < 70000 && !ended && readOnce(std::max<size_t>(avail(), 1), avail()); ++i) {}
            break;
        default: readOnce(std::max<size_t>(a, 1), a); break;
        }
        if (!ended)
            arm();
    }
};

string pattern(size_t from, size_t n)
{
    string s;
    for (size_t i = from; i < from + n; ++i) s += (char)(i * 7 + i / 251);
    return s;
}

void checkPrefix(Reader &r, const string &all)
{
    if (r.got.size() > all.size() || all.compare(0, r.got.size(), r.got) != 0) {
        size_t i = 0;
        while (i < r.got.size() && i < all.size() && r.got[i] == all[i]) ++i;
        r.p.c.violate(r.p.prop, "wrong-bytes", "the bytes read differ from those sent from offset " + std::to_string(i) + " on (" + std::to_string(r.got.size()) + " read, " +
                                                   std::to_string(all.size()) + " sent)");
    }
}

// records of the given sizes; each record's wire bytes cut at `cut`
void tlsRun(Chooser &c, const std::vector<int> &sizes, bool tls, bool cuts, vx::Kind kind = vx::SEG)
{
    Pair   p(c, "C23", tls);
    int    policy = c.choose(FREE, POLICIES, "reader policy");
    int    ending = c.choose(FREE, 3, "ending");  // none, close_notify and FIN, FIN alone
    Reader r(p, policy);
    string all;
    r.arm();
    std::vector<string> chunks;
    std::vector<string> wholeAfter;  // plain bytes complete once this chunk is in
    string              plain;
    for (int n : sizes) {
        string d = pattern(plain.size(), n);
        p.peer.write(d);
        plain += d;
        string w = p.peer.out;
        p.peer.out.clear();
        size_t cut = 0;
        if (cuts) {
            size_t opts[] = {0, 3, w.size() / 2, w.size() - 1};
            cut           = opts[c.choose(kind, 4, "cut record")];
        }
        if (cut && cut < w.size()) {
            chunks.push_back(w.substr(0, cut));
            wholeAfter.push_back(tls ? plain.substr(0, plain.size() - n) : plain.substr(0, plain.size() - n + cut));
            w.erase(0, cut);
        }
        chunks.push_back(w);
        wholeAfter.push_back(plain);
    }
    if (ending == 1 && tls) {
        p.peer.closeNotifyOnly();
        chunks.push_back(p.peer.out);
        wholeAfter.push_back(plain);
        p.peer.out.clear();
    }
    all = plain;
    string arrived;
    for (size_t i = 0; i < chunks.size(); ++i) {
        p.peer.out = chunks[i];
        p.peer.flush();
        r.complete = wholeAfter[i];
        if (i + 1 < chunks.size() || ending) {
            int how = c.choose(kind, 3, "then");  // let it be read; send more first; one event only
            if (how == 0)
                p.settle();
            else if (how == 2)
                p.pollOne();
        }
        checkPrefix(r, all);
        c.step(vx::mix(r.got.size(), i * 8 + policy));
    }
    if (ending)
        p.peer.shut();
    if (!p.await([&] { return r.got.size() >= all.size() || r.ended; }) || (ending == 0 && r.ended)) {
        checkPrefix(r, all);
        c.violate("C23", r.ended ? "ended-early" : "stuck", "only " + std::to_string(r.got.size()) + " of " + std::to_string(all.size()) + " bytes were delivered");
    }
    checkPrefix(r, all);
    if (ending && !p.await([&] { return r.ended; }))
        c.violate("C23", "end-not-seen", "the end of the stream was not reported");
    if (r.got != all)
        c.violate("C23", "incomplete", "only " + std::to_string(r.got.size()) + " of " + std::to_string(all.size()) + " bytes were delivered");
    c.outcome(std::to_string(r.got.size()) + " bytes, " + (ending ? r.end.message() : "open"));
}

}

void addC23(std::vector<Scenario> &out, bool th)
{
    std::vector<std::vector<int>> few = {{1}, {2}, {5}, {1, 1}, {1, 3}, {4, 1}, {3, 2}, {1, 1, 1}, {2, 1, 3}, {6, 1, 1}};
    std::vector<std::vector<int>> big = {{16384}, {16384, 1}, {1, 16384}, {300, 16000, 7}, {20000}, {16385, 2}};
    if (th) {
        for (int a = 1; a <= 4; ++a)
            for (int b = 1; b <= 4; ++b)
                for (int d = 1; d <= 4; ++d) few.push_back({a, b, d});
        few.push_back({1, 2, 1, 2});
        few.push_back({1, 1, 1, 1});
        few.push_back({3, 1, 2, 1});
    }
    auto name = [](const std::vector<int> &v) {
        string s;
        for (int n : v) s += (s.empty() ? "" : "+") + std::to_string(n);
        return s;
    };
    for (auto &v : few) {
        bool all = v.size() < 2 || v == std::vector<int>{1, 1} || v == std::vector<int>{4, 1} || (th && v.size() < 3);
        auto k   = all ? FREE : vx::SEG;
        out.push_back({"tls " + name(v), Budget(th ? 4 : 3), [v, k](Chooser &c) { tlsRun(c, v, true, true, k); }});
        if (v.size() < 3)
            out.push_back({"plain " + name(v), Budget(th ? 4 : 3), [v, k](Chooser &c) { tlsRun(c, v, false, true, k); }});
    }
    for (auto &v : big)
        out.push_back({"tls " + name(v), Budget(th ? 3 : 1), [v](Chooser &c) { tlsRun(c, v, true, true); }});
}

// ------------------------------------------------------------- C12
namespace {
const size_t NONE = (size_t)-1;

struct Meter {
    Pair   &p;
    string  sent, got;
    size_t  ask     = 1;  // smallest buffer read into
    bool    drain   = false;  // reads on until nothing is left
    size_t  biggest = 0;  // largest single read
    struct Ev {
        int64_t t;
        size_t  n;
    };
    std::vector<Ev> reads;
    struct Lim {
        int64_t t;
        size_t  n;
        size_t  at;  // reads made before
    };
    std::vector<Lim> limits{{now(), NONE, 0}};
    bool    waiting = false;
    bool    ended   = false;
    std::shared_ptr<bool> alive = std::make_shared<bool>(true);
    ~Meter() { *alive = false; }
    std::vector<char> buf;

    explicit Meter(Pair &p) : p(p), buf(70000) {}
    static int64_t now() { return vtime::now() / 1000000; }
    void           arm()
    {
        waiting = true;
        p.a->async_read_some(asio::null_buffers(), [this, alive = alive](error_code ec, size_t) {
            if (!*alive)
                return;
            waiting = false;
            if (!ec) {
                size_t all = 0;
                do {
                    size_t a = std::max<size_t>(p.a->available(ec), ask);
                    size_t n = p.a->read_some(asio::buffer(buf.data(), std::min(a, buf.size())), ec);
                    if (!ec) {
                        got.append(buf.data(), n);
                        all += n;
                    }
                } while (drain && !ec);
                if (all) {
                    reads.push_back({now(), all});
                    biggest = std::max(biggest, all);
                    p.c.log("read " + std::to_string(all) + " at " + std::to_string(now()));
                }
            }
            if (ec && ec != asio::error::would_block) {
                ended = true;
                return;
            }
            arm();
        });
    }
    size_t readIn(int64_t from, int64_t to)  // (from, to]
    {
        size_t s = 0;
        for (auto &e : reads)
            if (e.t > from && e.t <= to)
                s += e.n;
        return s;
    }
    void send(size_t n)
    {
        string d = pattern(sent.size(), n);
        sent += d;
        p.peer.write(d);
        p.peer.flush();
        p.c.log("send " + std::to_string(n));
    }
    void limit(size_t n)
    {
        limits.push_back({now(), n, reads.size()});
        p.a->setReadRateLimit(n);
        p.c.log("limit " + (n == NONE ? string("none") : std::to_string(n)));
    }
    // largest limit in force at any time during the last second
    size_t largest(int64_t from)
    {
        size_t m = 0;
        for (size_t i = 0; i < limits.size(); ++i)
            if (i + 1 == limits.size() || limits[i + 1].t > from)
                m = std::max(m, limits[i].n);
        return m;
    }
    size_t smallest(int64_t from)
    {
        size_t m = NONE;
        for (size_t i = 0; i < limits.size(); ++i)
            if (i + 1 == limits.size() || limits[i + 1].t >= from)
                m = std::min(m, limits[i].n);
        return m;
    }
    void upper()
    {
        if (sent.compare(0, got.size(), got) != 0)
            p.c.violate("C12", "wrong-bytes", "the bytes read differ from those sent");
        size_t n = limits.back().n;
        if (n == NONE)
            return;
        int64_t t0   = limits.back().t;
        size_t  read = 0;
        for (size_t i = limits.back().at; i < reads.size(); ++i) read += reads[i].n;
        int64_t windows = (now() - t0) / 1000 + 2;
        size_t  allowed = (size_t)windows * (n + biggest - (biggest ? 1 : 0)) + (limits.size() > 1 ? biggest + n : 0);
        if (read > allowed)
            p.c.violate("C12", "not-throttled", std::to_string(read) + " bytes were read within " + std::to_string(now() - t0) + " ms of setting a limit of " + std::to_string(n) +
                                                    " bytes/s (largest read " + std::to_string(biggest) + ", at most " + std::to_string(allowed) + " allowed)");
    }
    // everything there is to do now has been done
    bool lower(bool report)
    {
        if (got.size() == sent.size())
            return true;
        int64_t t = now();
        size_t  m = largest(t - 1000) == NONE ? smallest(t - 1000) : largest(t - 1000);
        bool    bad;
        if (smallest(t - 1000) == NONE)
            bad = true;  // no limit for a second: nothing may be left
        else
            bad = readIn(t - 1000, t) < smallest(t - 1000);
        if (bad && report)
            p.c.violate("C12", "stalled", std::to_string(sent.size() - got.size()) + " bytes are left unread although only " + std::to_string(readIn(t - 1000, t)) +
                                              " bytes were read in the last second, limit " + (m == NONE ? string("none") : std::to_string(m)));
        return !bad;
    }
};

void rateRun(Chooser &c, bool tls, int depth, size_t N, size_t alarm)
{
    Pair  p(c, "C12", tls);
    Meter m(p);
    if (N != NONE) {
        m.limits[0].n = N;
        p.a->setReadRateLimit(N);
    }
    if (alarm != NONE)
        p.a->setReadRateAlarm(alarm);
    int how = c.choose(FREE, 3, "read buffer");
    m.ask   = how == 1 ? 64 : 1;
    m.drain = how == 2;
    if (m.drain)
        depth = std::min(depth, 3);
    m.arm();
    const size_t S   = N == NONE ? alarm : N;
    for (int i = 0; i < depth; ++i) {
        // setting limits is explored in the command scenarios; here also directly
        int k = c.choose(FREE, 14, "op");
        bool quiet = true;
        switch (k) {
        case 0: i = depth; quiet = true; break;
        case 1: m.send(1); break;
        case 2: m.send(S); break;
        case 3: m.send(S); quiet = false; break;
        case 4: vtime::advance(600 * 1000000ll); c.log("+600"); break;
        case 5: vtime::advance(1000 * 1000000ll); c.log("+1000"); break;
        case 6: vtime::advance(1000 * 1000000ll); c.log("+1000 unpolled"); quiet = false; break;
        case 7: m.send(1); quiet = false; break;
        case 8: p.pollOne(); quiet = false; c.log("one event"); break;
        case 9: m.limit(m.limits.back().n == NONE ? S : NONE); break;
        case 10: m.limit(m.limits.back().n == 2 ? S + 3 : 2); break;
        case 13:
            for (size_t n = 0; n < 3 * S + 2; ++n) m.send(1);
            break;
        case 12:
            for (size_t n = 0; n < 3 * S + 2; ++n) {
                m.send(1);
                p.poll();
            }
            break;
        case 11: p.a->setReadRateAlarm(2); c.log("alarm 2"); break;
        }
        if (quiet) {
            p.settle();
            if (!m.lower(false) && !p.await([&] { return m.lower(false); }))
                m.lower(true);
        }
        m.upper();
        c.step(vx::mix(vx::mix(m.got.size(), m.sent.size()), vtime::now() / 100000000ll));
    }
    p.settle();
    // whatever happened, the rest arrives at no less than the limit's rate
    for (int i = 0; i < 60 && m.got.size() < m.sent.size(); ++i) {
        vtime::advance(1000 * 1000000ll);
        p.settle();
        if (!m.lower(false) && !p.await([&] { return m.lower(false); }))
            m.lower(true);
        m.upper();
    }
    if (!p.await([&] { return m.got.size() == m.sent.size(); }))
        c.violate("C12", "stalled", "not all bytes were read in the end");
    if (m.got != m.sent)
        c.violate("C12", "wrong-bytes", "the bytes read differ from those sent");
    c.outcome(std::to_string(m.reads.size()) + " reads");
}
}

void addC12(std::vector<Scenario> &out, bool th)
{
    int d = th ? 6 : 5;
    out.push_back({"plain limit 4", Budget(0), [d](Chooser &c) { rateRun(c, false, d, 4, NONE); }});
    out.push_back({"plain alarm 3", Budget(0), [d](Chooser &c) { rateRun(c, false, d - 1, NONE, 3); }});
    out.push_back({"plain limit 4 alarm 2", Budget(0), [d](Chooser &c) { rateRun(c, false, d - 1, 4, 2); }});
    out.push_back({"plain limit 1", Budget(0), [d](Chooser &c) { rateRun(c, false, d - 1, 1, NONE); }});
    out.push_back({"tls limit 4", Budget(0), [d](Chooser &c) { rateRun(c, true, d - 1, 4, NONE); }});
    out.push_back({"tls limit 4 alarm 6", Budget(0), [d](Chooser &c) { rateRun(c, true, d - 2, 4, 6); }});
}
}
