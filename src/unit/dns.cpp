// C21: every sequence of requests, answers of the name service, clock
// advances and cache operations, with the service behind getaddrinfo() (asked
// on asio's resolver thread) or behind the resolver's own override function.
#include "unit.h"
#include <amqpprox_dnsresolver.h>
#include <arpa/inet.h>
#include <condition_variable>
#include <mutex>
#include <netdb.h>
#include <sys/syscall.h>

namespace {
// the name service: a lookup waits here until the exploration answers it
struct Gate {
    std::mutex               mu;
    std::condition_variable  cv;
    bool                     armed = false, waiting = false, released = false;
    std::string              host, service;
    int                      rc = 0;
    std::vector<std::string> addrs;
};
Gate *gate = nullptr;
}
extern "C" int getaddrinfo(const char *host, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    if (!gate)
        return EAI_FAIL;
    std::unique_lock<std::mutex> lk(gate->mu);
    gate->host     = host ? host : "";
    gate->service  = service ? service : "";
    gate->waiting  = true;
    gate->released = false;
    gate->cv.notify_all();
    gate->cv.wait(lk, [] { return gate->released; });
    gate->waiting = false;
    if (gate->rc)
        return gate->rc;
    addrinfo *first = nullptr, **at = &first;
    for (auto &a : gate->addrs) {
        auto *ai = (addrinfo *)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
        auto *sa = (sockaddr_in *)(ai + 1);
        sa->sin_family = AF_INET;
        sa->sin_port   = htons(atoi(service));
        inet_pton(AF_INET, a.c_str(), &sa->sin_addr);
        ai->ai_family   = AF_INET;
        ai->ai_socktype = SOCK_STREAM;
        ai->ai_protocol = IPPROTO_TCP;
        ai->ai_addrlen  = sizeof(sockaddr_in);
        ai->ai_addr     = (sockaddr *)sa;
        *at             = ai;
        at              = &ai->ai_next;
    }
    *res = first;
    return 0;
}
extern "C" void freeaddrinfo(struct addrinfo *r)
{
    while (r) {
        auto *n = r->ai_next;
        free(r);
        r = n;
    }
}

namespace un {
using namespace Bloomberg::amqpprox;
namespace asio = boost::asio;
namespace {
using endpoint   = asio::ip::tcp::endpoint;
using error_code = boost::system::error_code;
using Key        = std::pair<string, string>;
using Addrs      = std::vector<endpoint>;

int64_t realMs()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000LL + ts.tv_nsec / 1000000;
}

struct Known {  // an answer the name service gave, or that was put in the cache
    Key     key;
    Addrs   addrs;
    int64_t at      = 0;
    int64_t cleanup = 0;  // since when cleaning has been running without a break, -1: not running
};
struct Request {
    Key  key;
    int  answers = 0;
    bool again   = false;
    size_t lookupsBefore = 0;
};

struct Run {
    vx::Chooser                 &c;
    bool                         threaded;
    Gate                         g;
    asio::io_context             io;
    std::unique_ptr<DNSResolver> r;
    std::deque<Request>          reqs;
    std::vector<Known>           known;
    std::vector<Key>             asked;     // lookups made, in order
    Key                          failing;   // key of the lookup just failed
    bool                         hasFailing = false;
    Key                          answering;
    bool                         hasAnswering = false;
    bool                         inCall = false, cleaning = false;
    int64_t                      runningSince = -1, maxTimeout = 1000, cleared = 0;
    int                          version = 0, nextOutcome = 0;
    string                       what;

    Run(vx::Chooser &ch, bool thr)
    : c(ch)
    , threaded(thr)
    {
        vtime::enable();
        vtime::set(5000000000ll);
        gate = &g;
        r    = std::make_unique<DNSResolver>(io);
        if (!threaded)
            DNSResolver::setOverrideFunction([this](Addrs *out, const string &h, const string &s) { return overridden(out, h, s); });
    }
    ~Run()
    {
        // let the resolver thread out
        int64_t t0 = realMs();
        while (threaded && pending() && realMs() - t0 < 5000) {
            if (release(1))
                io.restart(), io.poll();
            else
                usleep(50);
            io.poll();
        }
        DNSResolver::setOverrideFunction(DNSResolver::OverrideFunction());
        r.reset();
        io.poll();
        gate = nullptr;
    }
    void bad(const string &key, const string &m) { c.violate("C21", key, m + " (" + what + ")"); }
    int64_t nowMs() { return vtime::now() / 1000000; }
    size_t pending()
    {
        size_t n = 0;
        for (auto &q : reqs) n += !q.answers;
        return n;
    }
    Addrs make(const Key &k, std::vector<string> *raw)
    {
        ++version;
        Addrs a;
        for (int i = 0; i <= version % 2; ++i) {
            string ip = "10." + std::to_string(version) + ".0." + std::to_string(i + 1);
            if (raw)
                raw->push_back(ip);
            a.push_back(endpoint(asio::ip::make_address(ip), atoi(k.second.c_str())));
        }
        return a;
    }
    void learn(const Key &k, const Addrs &a) { known.push_back({k, a, nowMs(), 0}); }
    error_code overridden(Addrs *out, const string &h, const string &s)
    {
        Key k(h, s);
        asked.push_back(k);
        if (nextOutcome) {
            failing    = k;
            hasFailing = true;
            return asio::error::host_not_found;
        }
        *out = make(k, nullptr);
        learn(k, *out);
        return error_code();
    }
    bool release(int outcome)
    {
        std::unique_lock<std::mutex> lk(g.mu);
        if (!g.cv.wait_for(lk, std::chrono::milliseconds(0), [&] { return g.waiting && !g.released; }))
            return false;
        Key k(g.host, g.service);
        asked.push_back(k);
        g.addrs.clear();
        if (outcome == 0) {
            g.rc = 0;
            learn(k, make(k, &g.addrs));
        }
        else {
            g.rc       = EAI_NONAME;
            failing    = k;
            hasFailing = true;
        }
        answering    = k;
        hasAnswering = true;
        g.released   = true;
        g.cv.notify_all();
        return true;
    }
    void request(const Key &k, bool again)
    {
        size_t id = reqs.size();
        reqs.push_back({k, 0, again, asked.size()});
        inCall = true;
        r->resolve(k.first, k.second, [this, id](const error_code &ec, const Addrs &a) { answered(id, ec, a); });
        inCall = false;
    }
    void answered(size_t id, const error_code &ec, const Addrs &a)
    {
        if (inCall)
            bad("inline", "a request was answered before the call returned");
        auto &q = reqs[id];
        if (++q.answers > 1)
            bad("twice", "a request was answered twice");
        if (ec) {
            if (!hasFailing || failing != q.key || asked.size() == q.lookupsBefore)
                bad("failure", "a request failed though no lookup was made for it that failed");
        }
        else {
            bool ok = false, stale = false;
            for (auto &n : known) {
                if (n.key != q.key || n.addrs != a)
                    continue;
                bool fresh = asked.size() > q.lookupsBefore && &n == &known.back();
                if (!fresh && cleaning && runningSince <= n.at && nowMs() - n.at >= maxTimeout)
                    stale = true;
                else
                    ok = true;
            }
            if (!ok)
                bad(stale ? "stale" : "answer", stale ? "an answer older than the cache timeout was given while cleanup was running" : "a request was answered with addresses that are not those of its host and port");
        }
        if (q.again) {
            q.again = false;
            request(Key(q.key), false);
        }
    }
    void poll()
    {
        io.restart();
        io.poll();
    }
    void answer(int outcome)
    {
        int64_t t0 = realMs();
        while (!release(outcome)) {
            if (realMs() - t0 > 5000)
                bad("unasked", "a request is neither answered nor is the name service asked");
            usleep(20);
        }
        size_t before = 0;
        for (auto &q : reqs) before += q.answers;
        for (;;) {
            poll();
            size_t n = 0;
            for (auto &q : reqs) n += q.answers;
            if (n > before)
                break;
            if (realMs() - t0 > 5000)
                bad("unanswered", "the name service answered but the request was not answered");
            usleep(20);
        }
    }
};

const Key KEYS[] = {{"h", "11"}, {"h1", "1"}, {"h", "1"}};

void sequences(vx::Chooser &c, bool threaded, int len, bool cleaning, bool ops, const std::vector<int> &just = {})
{
    Run r(c, threaded);
    auto start = [&] {
        r.r->startCleanupTimer();
        if (!r.cleaning) {
            r.cleaning     = true;
            r.runningSince = r.nowMs();
        }
    };
    if (cleaning)
        start();
    for (int i = 0; i < len; ++i) {
        // request of key 0..2 or one that asks again when answered; answers; clock; cache
        std::vector<int> acts;
        if (threaded) {
            for (int k = 0; k < 4; ++k) acts.push_back(k);
            if (r.pending()) {
                acts.push_back(10);
                acts.push_back(11);
            }
        }
        else
            for (int k = 0; k < 8; ++k) acts.push_back(k);
        acts.push_back(20);
        acts.push_back(21);
        if (ops)
            for (int k = 30; k < 36; ++k) acts.push_back(k);
        if (just.size())
            acts = just;
        int a = acts[c.choose(vx::FREE, acts.size(), "op")];
        r.what += " " + std::to_string(a);
        if (a < 8) {
            r.nextOutcome = a >= 4;
            r.request(KEYS[a % 4 == 3 ? 0 : a % 4], a % 4 == 3);
            r.poll();
        }
        else if (a < 12)
            r.answer(a - 10);
        else if (a < 22) {
            vtime::advance((a == 20 ? 400 : 1000) * 1000000ll);
            r.poll();
        }
        else if (a == 30)
            start();
        else if (a == 31) {
            r.r->stopCleanupTimer();
            r.cleaning     = false;
            r.runningSince = -1;
        }
        else if (a == 32) {
            r.r->clearCachedResolution(KEYS[0].first, KEYS[0].second);
            std::vector<Known> keep;
            for (auto &n : r.known)
                if (n.key != KEYS[0])
                    keep.push_back(n);
            r.known = keep;
            r.known.push_back({Key("", ""), {}, 0, 0});
        }
        else if (a == 33) {
            Addrs x = r.make(KEYS[0], nullptr);
            if (!r.pending()) {
                // takes the place of what was cached
                std::vector<Known> keep;
                for (auto &n : r.known)
                    if (n.key != KEYS[0])
                        keep.push_back(n);
                r.known = keep;
            }
            r.learn(KEYS[0], x);
            r.r->setCachedResolution(KEYS[0].first, KEYS[0].second, std::move(x));
        }
        else if (a == 34 || a == 35) {
            int t = a == 34 ? 300 : 1500;
            r.r->setCacheTimeout(t);
            r.maxTimeout = std::max<int64_t>(r.maxTimeout, t);
        }
        uint64_t f = threaded;
        for (auto &q : r.reqs) f = vx::mix(f, vx::hashBytes(q.key.first + q.key.second) + q.answers);
        for (auto &n : r.known) f = vx::mix(f, n.at + n.addrs.size());
        c.step(vx::mix(f, vtime::now()));
    }
    // everything gets its answer in the end
    while (threaded && r.pending()) r.answer(0);
    r.poll();
    if (r.pending())
        r.bad("unanswered", "a request was never answered");
    int n = 0;
    for (auto &q : r.reqs) n += q.answers;
    c.outcome("requests " + std::to_string(n) + ", lookups " + std::to_string(r.asked.size()));
}
}

void addDns(std::vector<vx::Scenario> &out, bool th)
{
    int L = th ? 6 : 5;
    for (bool t : {false, true}) {
        string k = t ? "lookups on the resolver thread" : "lookups overridden";
        out.push_back({k + ", cleanup running", vx::Budget(99), [=](vx::Chooser &c) { sequences(c, t, L, true, false); }});
        out.push_back({k + ", cache and timer operations", vx::Budget(99), [=](vx::Chooser &c) { sequences(c, t, L - 1, false, true); }});
        if (!t)
            for (bool on : {false, true})
                out.push_back({k + ", timer operations" + (on ? ", cleanup running" : ""), vx::Budget(99),
                               [=](vx::Chooser &c) { sequences(c, t, L + 1, on, true, {0, 21, 30, 31, 20, 34}); }});
        out.push_back({k + ", cache and timer operations, cleanup running", vx::Budget(99), [=](vx::Chooser &c) { sequences(c, t, L - 1, true, true); }});
    }
}
}
