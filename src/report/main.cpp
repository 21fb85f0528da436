// C16: what is reported of the collected statistics: STAT LISTEN in both
// formats and with every filter, STAT SEND to StatsD servers, on the real
// command, formatters and publisher.
#include "../unit/statbench.h"

#include <amqpprox_bufferhandle.h>
#include <amqpprox_bufferpool.h>
#include <amqpprox_control.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_statcontrolcommand.h>

#include <cmath>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

// Addresses are taken as they are written, also on a machine that has no
// address but the loopback one.
extern "C" int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    using F = int (*)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    static F        real = (F)dlsym(RTLD_NEXT, "getaddrinfo");
    struct addrinfo h    = hints ? *hints : addrinfo{};
    h.ai_flags |= AI_NUMERICHOST;
    h.ai_flags &= ~AI_ADDRCONFIG;
    return real(node, service, &h, res);
}

// a datagram that does not fit the socket's send buffer now
static int  g_blockAt = 0;  // the send that finds the buffer full
static bool g_udp       = false;
static bool datagram(int fd)
{
    int       t = 0;
    socklen_t n = sizeof t;
    return g_udp && !syscall(SYS_getsockopt, fd, SOL_SOCKET, SO_TYPE, &t, &n) && t == SOCK_DGRAM;
}
static volatile char g_sink;
static void          touch(const void *p, size_t n)
{
    for (size_t i = 0; i < n; ++i) g_sink = static_cast<const char *>(p)[i];
}
extern "C" ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
    if (datagram(fd)) {
        if (g_blockAt > 0 && !--g_blockAt) {
            errno = EAGAIN;
            return -1;
        }
        for (size_t i = 0; i < m->msg_iovlen; ++i) touch(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    }
    return syscall(SYS_sendmsg, fd, m, flags);
}
extern "C" ssize_t sendto(int fd, const void *p, size_t n, int flags, const struct sockaddr *a, socklen_t l)
{
    if (datagram(fd)) {
        if (g_blockAt > 0 && !--g_blockAt) {
            errno = EAGAIN;
            return -1;
        }
        touch(p, n);
    }
    return syscall(SYS_sendto, fd, p, n, flags, a, l);
}
extern "C" ssize_t send(int fd, const void *p, size_t n, int flags)
{
    return sendto(fd, p, n, flags, nullptr, 0);
}

namespace un {
namespace {
using Axis = std::map<string, Totals>;
using std::to_string;

// strict JSON, numbers kept as text
struct Json {
    enum { OBJ, STR, NUM } kind = NUM;
    std::vector<std::pair<string, Json>> kids;
    string                               text;
    const Json *find(const string &k) const
    {
        for (auto &x : kids)
            if (x.first == k)
                return &x.second;
        return nullptr;
    }
};
struct Bad {
    string why;
};
struct Parser {
    const string &s;
    size_t        i = 0;
    void          ws()
    {
        while (i < s.size() && strchr(" \t\r\n", s[i])) ++i;
    }
    char peek() { return i < s.size() ? s[i] : '\0'; }
    void want(char ch)
    {
        ws();
        if (peek() != ch)
            throw Bad{string("'") + ch + "' expected at " + to_string(i)};
        ++i;
    }
    string str()
    {
        want('"');
        string out;
        for (;; ++i) {
            if (i >= s.size())
                throw Bad{"unterminated string"};
            unsigned char ch = s[i];
            if (ch == '"') {
                ++i;
                return out;
            }
            if (ch < 0x20)
                throw Bad{"control character in a string at " + to_string(i)};
            if (ch != '\\') {
                out += ch;
                continue;
            }
            char e = i + 1 < s.size() ? s[++i] : '\0';
            static const char *F = "\"\\/bfnrt", *T = "\"\\/\b\f\n\r\t";
            if (e == 'u') {
                unsigned v = 0;
                for (int k = 0; k < 4; ++k) {
                    char h = i + 1 < s.size() ? s[++i] : '\0';
                    if (!isxdigit((unsigned char)h))
                        throw Bad{"bad \\u escape"};
                    v = v * 16 + (isdigit((unsigned char)h) ? h - '0' : (h | 32) - 'a' + 10);
                }
                if (v < 0x80)
                    out += char(v);
                else if (v < 0x800) {
                    out += char(0xc0 | v >> 6);
                    out += char(0x80 | (v & 63));
                }
                else {
                    out += char(0xe0 | v >> 12);
                    out += char(0x80 | (v >> 6 & 63));
                    out += char(0x80 | (v & 63));
                }
            }
            else if (e && strchr(F, e))
                out += T[strchr(F, e) - F];
            else
                throw Bad{"bad escape at " + to_string(i)};
        }
    }
    Json value()
    {
        ws();
        Json j;
        if (peek() == '{') {
            ++i;
            j.kind = Json::OBJ;
            ws();
            if (peek() == '}') {
                ++i;
                return j;
            }
            for (;;) {
                string k = str();
                want(':');
                if (j.find(k))
                    throw Bad{"name '" + k + "' twice in an object"};
                Json v = value();
                j.kids.emplace_back(k, v);
                ws();
                if (peek() == ',') {
                    ++i;
                    continue;
                }
                want('}');
                return j;
            }
        }
        if (peek() == '"') {
            j.kind = Json::STR;
            j.text = str();
            return j;
        }
        size_t b = i;
        while (i < s.size() && (isdigit((unsigned char)s[i]) || strchr("+-.eE", s[i]))) ++i;
        if (b == i)
            throw Bad{"value expected at " + to_string(b)};
        j.text = s.substr(b, i - b);
        return j;
    }
};

const char *GAUGES[] = {"pausedConnectionCount", "activeConnectionCount", "authDeniedConnectionCount", "limitedConnectionCount"};
uint64_t    of(const Totals &t, const string &n)
{
    auto i = t.find(n);
    return i == t.end() ? 0 : i->second;
}
bool zero(const Totals &t)
{
    for (auto &x : t)
        if (x.second)
            return false;
    return true;
}
bool plain(const string &s)
{
    return s.find_first_of(",:|=\n\r") == string::npos;
}

struct Expect {
    Totals                                 overall;
    Axis                                   v, b, s;
    std::map<size_t, std::pair<uint64_t, uint64_t>> pool;
    uint64_t                               spill = 0;
};

struct Listener {
    string              filter, name;  // type in lower case and value
    bool                json = true, gone = false;
    std::vector<string> got;
};

struct Statsd {
    int fd   = -1;
    int port = 0;
    bool on  = false;
    Statsd()
    {
        fd = socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK, 0);
        sockaddr_in a{};
        a.sin_family      = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        int big           = 4 << 20;
        setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
        if (bind(fd, (sockaddr *)&a, sizeof a))
            abort();
        socklen_t n = sizeof a;
        getsockname(fd, (sockaddr *)&a, &n);
        port = ntohs(a.sin_port);
    }
    ~Statsd() { close(fd); }
    std::vector<string> take()
    {
        std::vector<string> out;
        char                buf[65536];
        for (;;) {
            ssize_t n = recv(fd, buf, sizeof buf, 0);
            if (n < 0)
                return out;
            string d(buf, n);
            size_t b = 0;
            for (size_t e; (e = d.find('\n', b)) != string::npos; b = e + 1) out.push_back(d.substr(b, e - b));
            if (b < d.size())
                out.push_back(d.substr(b));
        }
    }
};

struct World {
    Chooser                                &c;
    EventSource                             es;
    BufferPool                              pool;
    std::vector<std::unique_ptr<BufferHandle>> held;
    Bench                                   w;
    std::unique_ptr<Control>                control;
    StatControlCommand                     *stat;
    std::unique_ptr<StatControlCommand>     own;
    std::vector<std::shared_ptr<Listener>>  ls;
    std::vector<std::unique_ptr<Statsd>>    servers;
    Expect                                  last;
    string                                  uds;

    explicit World(Chooser &c) : c(c), pool({32, 1024}), w(c)
    {
        static int n = 0;
        uds          = string(1, '\0') + "verif-amqpprox-report-" + to_string(getpid()) + "-" + to_string(n++);
        control.reset(new Control(nullptr, &es, uds));
        own.reset(new StatControlCommand(&es, &w.sc));
        stat = own.get();
        w.sc.setBufferPool(&pool);
        w.report = [this](const Totals &o, const Axis &v, const Axis &b, const Axis &s) {
            last.overall = o;
            last.v       = v;
            last.b       = b;
            last.s       = s;
            std::vector<BufferPool::BufferAllocationStat> st;
            pool.getPoolStatistics(&st, &last.spill);
            last.pool.clear();
            for (auto &x : st) last.pool[std::get<0>(x)] = {std::get<1>(x), std::get<2>(x)};
            g_udp = true;
            es.statisticsAvailable().emit(&w.sc);
            pump();
            g_udp = false;
        };
        g_blockAt = 0;
    }
    ~World()
    {
        g_udp       = false;
        g_blockAt = 0;
    }
    void bad(const string &what) { c.violate("C16", "reported", what + " after" + w.hist); }
    void pump()
    {
        auto &io = control->ioContext();
        for (int i = 0; i < 50; ++i) {
            if (io.stopped())
                io.restart();
            if (!io.poll() && i > 2)
                break;
        }
    }
    string command(const string &rest, ControlCommand::OutputFunctor f)
    {
        w.hist += " STAT " + rest + ";";
        stat->handleCommand("STAT", rest, f, nullptr, control.get());
        return rest;
    }
    void listen(bool json, const string &filter, const string &name)
    {
        auto l    = std::make_shared<Listener>();
        l->json   = json;
        l->filter = filter;
        l->name   = name;
        for (auto &ch : l->filter) ch = tolower(ch);
        string line = string(" LISTEN ") + (json ? "json " : "Human ") + filter + (name.empty() ? "" : "=" + name);
        bool   ended = false;
        command(line, [l, &ended](const string &o, bool fin) {
            if (fin) {
                l->gone = true;
                l->got.push_back(o);
            }
            if (l->gone)
                return false;
            l->got.push_back(o);
            return true;
        });
        if (l->gone || !l->got.empty())
            bad("STAT" + line + " was answered '" + (l->got.empty() ? "" : l->got.back()) + "'");
        ls.push_back(l);
    }
    void send(Statsd &s)
    {
        string out;
        command(" SEND 127.0.0.1 " + to_string(s.port), [&](const string &o, bool) {
            out += o;
            return true;
        });
        s.on = true;
    }
    // ---- what one entry of a report should say
    void json(const string &what, const Json &j, const Totals &t)
    {
        auto one = [&](const char *n) {
            auto v = j.find(n);
            if (!v || v->kind != Json::NUM || v->text != to_string(of(t, n)))
                bad(what + ": " + n + " is " + (v ? v->text : "missing") + " rather than " + to_string(of(t, n)));
        };
        for (auto n : TRAFFIC) one(n);
        for (auto n : COUNTS) one(n);
    }
    void jsonAxis(const string &what, const Json *j, const Axis &a)
    {
        if (!j || j->kind != Json::OBJ)
            bad("no " + what + " in the report");
        for (auto &x : a) {
            auto e = j->find(x.first);
            if (e)
                json(what + " '" + x.first + "'", *e, x.second);
            else if (!zero(x.second))
                bad(what + " '" + x.first + "' is missing in the report");
        }
        for (auto &k : j->kids)
            if (!a.count(k.first))
                json(what + " '" + k.first + "'", k.second, {});
    }
    void jsonPool(const Json *j)
    {
        auto sp = j ? j->find("spill_to_heap_count") : nullptr, ps = j ? j->find("pools") : nullptr;
        if (!sp || !ps || sp->text != to_string(last.spill) || ps->kids.size() != last.pool.size())
            bad("the buffer pools are not reported as they are");
        for (auto &p : last.pool) {
            auto e = ps->find(to_string(p.first));
            auto cu = e ? e->find("current") : nullptr, hi = e ? e->find("highest") : nullptr;
            if (!cu || !hi || cu->text != to_string(p.second.first) || hi->text != to_string(p.second.second))
                bad("buffers of " + to_string(p.first) + " bytes are reported " + (cu ? cu->text : "?") + "/" + (hi ? hi->text : "?") + " rather than " + to_string(p.second.first) + "/" +
                    to_string(p.second.second));
        }
    }
    void jsonProcess(const Json *j)
    {
        for (auto n : {"cpu_percent_overall", "cpu_percent_user", "cpu_percent_system", "mem_rss_kb"})
            if (!j || !j->find(n) || j->find(n)->kind != Json::NUM)
                bad("the process statistics are not reported");
    }
    const Axis &axis(const string &f) { return f == "vhost" ? last.v : f == "backend" ? last.b : last.s; }
    void        judgeJson(const Listener &l, const string &text)
    {
        Parser p{text};
        Json   j;
        try {
            j = p.value();
            p.ws();
            if (p.i != text.size())
                throw Bad{"more after the value"};
        }
        catch (Bad &b) {
            bad("the JSON report is malformed (" + b.why + "): " + text);
        }
        if (l.filter == "all") {
            if (!j.find("overall"))
                bad("no overall statistics in the report");
            json("overall", *j.find("overall"), last.overall);
            jsonAxis("vhosts", j.find("vhosts"), last.v);
            jsonAxis("backends", j.find("backends"), last.b);
            jsonAxis("sources", j.find("sources"), last.s);
            jsonPool(j.find("bufferpool"));
            jsonProcess(j.find("process"));
        }
        else if (l.filter == "overall")
            json("overall", j, last.overall);
        else if (l.filter == "process")
            jsonProcess(&j);
        else if (l.filter == "bufferpool")
            jsonPool(&j);
        else {
            auto &a = axis(l.filter);
            auto  i = a.find(l.name);
            json(l.filter + "=" + l.name, j, i == a.end() ? Totals() : i->second);
        }
    }
    static bool amount(const string &s, size_t &i, double *v)
    {
        char  *e = nullptr;
        double d = strtod(s.c_str() + i, &e);
        size_t n = e - s.c_str();
        if (n == i)
            return false;
        i = n;
        *v = d;
        return true;
    }
    void human(const string &what, const string &line, const Totals &t)
    {
        size_t i    = 0;
        auto   next = [&](const char *label, const char *n) {
            size_t p = line.find(label, i);
            if (p == string::npos)
                bad(what + ": no '" + label + "' in '" + line + "'");
            i = p + strlen(label);
            double v;
            if (!amount(line, i, &v) || std::fabs(v - double(of(t, n))) > 1e-9 * double(of(t, n)))
                bad(what + ": " + n + " is not " + to_string(of(t, n)) + " in '" + line + "'");
        };
        auto bytes = [&](const char *label, const char *n) {
            size_t p = line.find(label, i);
            if (p == string::npos)
                bad(what + ": no '" + label + "' in '" + line + "'");
            i = p + strlen(label);
            double v    = 0;
            bool   okay = amount(line, i, &v) && i < line.size() && line[i] == ' ';
            string unit = okay ? line.substr(i + 1, line.find_first_of("/ \n", i + 1) - i - 1) : "";
            double m    = unit == "B" ? 1 : unit == "KB" ? 1024. : unit == "MB" ? 1048576. : unit == "GB" ? 1073741824. : unit == "TB" ? 1099511627776. : 0;
            double want = double(of(t, n));
            if (!okay || !m || std::fabs(v * m - want) > 1e-5 * want)
                bad(what + ": " + n + " is not " + to_string(of(t, n)) + " bytes in '" + line + "'");
        };
        next("Paused: ", "pausedConnectionCount");
        next("Active: ", "activeConnectionCount");
        next("Auth denied: ", "authDeniedConnectionCount");
        next("Limited connections: ", "limitedConnectionCount");
        next("Removed(Clean): ", "removedConnectionGraceful");
        next("Removed(Broker): ", "removedConnectionBrokerSnapped");
        next("Removed(Client): ", "removedConnectionClientSnapped");
        bytes("IN: ", "bytesReceived");
        next("/s ", "packetsReceived");
        next("pkt/s ", "framesReceived");
        bytes("OUT: ", "bytesSent");
        next("/s ", "packetsSent");
        next("pkt/s ", "framesSent");
    }
    void humanPool(const string &line)
    {
        string want = "Spilt to heap: " + to_string(last.spill);
        if (line.find(want) == string::npos)
            bad("'" + want + "' is not in '" + line + "'");
        for (auto &p : last.pool) {
            string one = to_string(p.first) + "=" + to_string(p.second.first) + "/" + to_string(p.second.second);
            if (line.find(one) == string::npos)
                bad("'" + one + "' is not in '" + line + "'");
        }
    }
    void judgeHuman(const Listener &l, const string &text)
    {
        std::vector<string> lines;
        size_t              b = 0;
        for (size_t e; (e = text.find('\n', b)) != string::npos; b = e + 1) lines.push_back(text.substr(b, e - b));
        if (b < text.size())
            lines.push_back(text.substr(b));
        auto first = [&]() { return lines.empty() ? string() : lines[0]; };
        if (l.filter == "all") {
            std::map<string, std::vector<string>> sec;
            string                                cur;
            for (auto &x : lines)
                if (x == "Overall:" || x == "Process:" || x == "BufferPool:" || x == "Vhosts:" || x == "Sources:" || x == "Backends:")
                    cur = x;
                else if (!x.empty())
                    sec[cur].push_back(x);
            human("overall", sec["Overall:"].empty() ? "" : sec["Overall:"][0], last.overall);
            humanPool(sec["BufferPool:"].empty() ? "" : sec["BufferPool:"][0]);
            auto table = [&](const string &what, std::vector<string> &rows, const Axis &a) {
                std::set<string> seen;
                for (auto &r : rows) {
                    size_t p = r.rfind(": Paused:");
                    string n = p == string::npos ? "?" : r.substr(0, p);
                    auto   i = a.find(n);
                    if (!seen.insert(n).second)
                        bad(what + " '" + n + "' twice in the report");
                    human(what + " '" + n + "'", p == string::npos ? r : r.substr(p), i == a.end() ? Totals() : i->second);
                }
                for (auto &x : a)
                    if (!seen.count(x.first) && !zero(x.second))
                        bad(what + " '" + x.first + "' is missing in the report");
            };
            table("vhost", sec["Vhosts:"], last.v);
            table("source", sec["Sources:"], last.s);
            table("backend", sec["Backends:"], last.b);
        }
        else if (l.filter == "overall")
            human("overall", first(), last.overall);
        else if (l.filter == "bufferpool")
            humanPool(first());
        else if (l.filter == "process") {
            if (first().find("CPU%: ") == string::npos)
                bad("the process statistics are not reported");
        }
        else {
            auto &a = axis(l.filter);
            auto  i = a.find(l.name);
            human(l.filter + "=" + l.name, first(), i == a.end() ? Totals() : i->second);
        }
    }
    // ---- StatsD
    using Entry = std::map<string, string>;  // metric -> value|type
    void judgeStatsd(const std::vector<string> &ms)
    {
        std::map<string, std::map<string, Entry>> got;  // kind -> name -> metrics
        for (auto &m : ms) {
            auto malformed = [&] { bad("malformed metric '" + m + "'"); };
            size_t colon = m.find(':'), bar = m.find('|');
            if (m.rfind("amqpprox.", 0) || colon == string::npos || bar == string::npos || bar < colon || m.find(':', colon + 1) != string::npos || m.find('|', bar + 1) != string::npos)
                malformed();
            string value = m.substr(colon + 1, bar - colon - 1), type = m.substr(bar + 1), head = m.substr(9, colon - 9);
            if (value.empty() || value.find_first_not_of("0123456789.") != string::npos || (type != "g" && type != "c" && type != "d"))
                malformed();
            std::map<string, string> tags;
            size_t                   cm   = head.find(',');
            string                   name = head.substr(0, cm);
            while (cm != string::npos) {
                size_t e  = head.find(',', cm + 1);
                string tg = head.substr(cm + 1, e == string::npos ? e : e - cm - 1);
                size_t eq = tg.find('=');
                if (eq == string::npos || !eq || eq + 1 == tg.size() || tg.find('=', eq + 1) != string::npos || !tags.emplace(tg.substr(0, eq), tg.substr(eq + 1)).second)
                    malformed();
                cm = e;
            }
            string kind = tags.count("rmqEndpointType") ? tags["rmqEndpointType"] : "", who;
            tags.erase("rmqEndpointType");
            string nameTag = kind == "vhost" ? "rmqVhostName" : kind == "sources" || kind == "backends" ? "rmqEndpointHostname" : "";
            if (!nameTag.empty()) {
                if (!tags.count(nameTag))
                    malformed();
                who = tags[nameTag];
                tags.erase(nameTag);
            }
            if (!tags.empty() || (!kind.empty() && nameTag.empty() && kind != "overall"))
                malformed();
            if (!got[kind][who].emplace(name, value + "|" + type).second)
                bad("the metric '" + m + "' is sent twice in a period");
        }
        auto entry = [&](const Totals &t) {
            Entry e;
            for (auto n : TRAFFIC) e[n] = to_string(of(t, n)) + "|c";
            for (auto n : COUNTS) e[n] = to_string(of(t, n)) + "|c";
            for (auto n : GAUGES) e[n] = to_string(of(t, n)) + "|g";
            for (string n : {"receiveLatency", "sendLatency"})
                if (uint64_t k = of(t, n + " count"))
                    e[n] = to_string(double(of(t, n + " total")) / double(k)) + "|d";
            return e;
        };
        auto differs = [&](const Entry &want, const Entry &have) -> string {
            for (auto &x : want) {
                auto i = have.find(x.first);
                if (i == have.end())
                    return x.first + " is missing";
                if (i->second == x.second)
                    continue;
                size_t p = x.second.find('|');
                if (x.second.substr(p) == "|d" && i->second.size() > 2 && i->second.substr(i->second.find('|')) == "|d" &&
                    std::fabs(strtod(i->second.c_str(), nullptr) - strtod(x.second.c_str(), nullptr)) <= 1e-5 * (1 + strtod(x.second.c_str(), nullptr)))
                    continue;
                return x.first + " is " + i->second + " rather than " + x.second;
            }
            for (auto &x : have)
                if (!want.count(x.first))
                    return x.first + " should not be there";
            return "";
        };
        string d = differs(entry(last.overall), got["overall"][""]);
        if (!d.empty())
            bad("StatsD, overall: " + d);
        auto side = [&](const string &kind, const Axis &a) {
            auto &g = got[kind];
            std::vector<string> odd;
            for (auto &x : a) {
                if (x.first.empty() && kind == "vhost")
                    continue;  // not known yet: no name to report under
                if (!plain(x.first)) {
                    odd.push_back(x.first);
                    continue;
                }
                auto i = g.find(x.first);
                if (i == g.end()) {
                    if (!zero(x.second))
                        bad("StatsD: nothing is sent of " + kind + " '" + x.first + "'");
                    continue;
                }
                string d = differs(entry(x.second), i->second);
                if (!d.empty())
                    bad("StatsD, " + kind + " '" + x.first + "': " + d);
                g.erase(i);
            }
            // names that cannot be sent as they are: under some name of their own
            for (auto &n : odd) {
                auto i = g.begin();
                for (; i != g.end() && !differs(entry(a.at(n)), i->second).empty(); ++i) {}
                if (i == g.end()) {
                    if (!zero(a.at(n)))
                        bad("StatsD: the statistics of " + kind + " '" + n + "' are not sent");
                }
                else
                    g.erase(i);
            }
            for (auto &x : g) {
                string d = differs(entry({}), x.second);
                if (!d.empty())
                    bad("StatsD, " + kind + " '" + x.first + "', which has had nothing: " + d);
            }
        };
        side("vhost", last.v);
        side("sources", last.s);
        side("backends", last.b);
        auto &p     = got[""][""];
        auto  value = [&](const string &n, uint64_t v) {
            auto i = p.find(n);
            if (i == p.end() || i->second.substr(0, i->second.find('|')) != to_string(v))
                bad("StatsD: " + n + " is " + (i == p.end() ? "missing" : i->second) + " rather than " + to_string(v));
        };
        value("spill_to_heap_count", last.spill);
        for (auto &x : last.pool) {
            value("pools_" + to_string(x.first) + "_current", x.second.first);
            value("pools_" + to_string(x.first) + "_highest", x.second.second);
        }
        for (auto n : {"cpu_percent_overall", "cpu_percent_user", "cpu_percent_system", "mem_rss_kb"})
            if (!p.count(n))
                bad(string("StatsD: no ") + n);
    }
    void period(bool del)
    {
        std::vector<bool> gone;
        for (auto &l : ls) {
            l->got.clear();
            gone.push_back(l->gone);
        }
        for (auto &s : servers) s->take();
        w.period(del);
        for (size_t i = 0; i < ls.size(); ++i) {
            auto &l = *ls[i];
            if (gone[i]) {
                l.got.clear();
                continue;
            }
            if (l.got.size() != 1)
                bad("a listener got " + to_string(l.got.size()) + " reports of one period");
            if (l.json)
                judgeJson(l, l.got[0]);
            else
                judgeHuman(l, l.got[0]);
        }
        for (auto &s : servers) {
            auto m = s->take();
            if (!s->on) {
                if (!m.empty())
                    bad("metrics are sent to a server that is not to get any");
                continue;
            }
            judgeStatsd(m);
        }
    }
};

struct Place {
    const char *vhost, *broker;
    int         port;
    const char *source;
};
const Place PLACES[] = {{"v1", "10.2.0.1", 5672, "10.1.0.1"},
                        {"/", "10.2.0.1", 5673, "10.1.0.2"},
                        {"prod.Eu west", "10.2.0.2", 5672, "10.1.0.1"},
                        {"", "10.2.0.1", 5672, "10.1.0.3"},
                        {"a\"b\\c", "10.2.0.1", 5672, "10.1.0.1"},
                        {"tab\there\x01", "10.2.0.3", 5672, "10.1.0.1"},
                        {"x,y:1|z=2", "10.2.0.1", 5672, "10.1.0.1"},
                        {"q:1|c\namqpprox.bytesSent,rmqEndpointType=overall:99|c", "10.2.0.1", 5672, "10.1.0.1"},
                        {"v6", "fd00::2", 5672, "fd00::1"},
                        {"v\xc3\xa9", "10.2.0.1", 5672, "10.1.0.4"}};
const int   N_PLACES = sizeof PLACES / sizeof *PLACES;
bool        humanCan(int p) { return p != 7 && p != 5; }  // names a line of text can show

void traffic(World &x, One &o, int kind)
{
    static const uint64_t B[] = {8, 1000, 1023, 1024, 1025, 1048575, 1048576, 5000000, (1ull << 30) - 1, 1ull << 30, 5000000000ull, (1ull << 40) - 1, 1ull << 40, (1ull << 40) + 77, 1ull << 50};
    const int             n   = sizeof B / sizeof *B;
    x.w.up(o, 3 + kind, B[kind % n]);
    x.w.down(o, 1 + kind, B[(kind + 4) % n]);
    if (kind % 2)
        x.w.latency(o, 7 + kind, 10 * kind);
}

// every report of two sessions in every pair of places, after traffic of every size
void places(Chooser &c)
{
    World x(c);
    int   a = c.choose(FREE, N_PLACES, "first"), b = c.choose(FREE, N_PLACES, "second"), k = c.choose(FREE, 15, "traffic"), stuck = c.choose(FREE, 3, "send buffer");
    auto  at = [&](int i) -> One & { return x.w.start(PLACES[i].vhost, PLACES[i].broker, PLACES[i].port, PLACES[i].source); };
    One  &o = at(a);
    One  &p = at(b);
    x.listen(true, "all", "");
    if (humanCan(a) && humanCan(b))
        x.listen(false, "ALL", "");
    x.servers.emplace_back(new Statsd);
    x.send(*x.servers.back());
    g_blockAt = stuck == 1 ? 1 : stuck == 2 ? 40 : 0;
    traffic(x, o, k);
    traffic(x, p, k + 3);
    x.period(false);
    x.w.end(o, Disco::DISCONNECTED_SERVER);
    p.paused = true;
    p.s->setPaused(true);
    x.period(true);
    x.period(true);
}

// every filter, of sessions in every place
void filters(Chooser &c)
{
    World x(c);
    int   a = c.choose(FREE, N_PLACES, "place"), how = c.choose(FREE, 2, "format");
    for (int i : {a, 0, 2}) x.w.start(PLACES[i].vhost, PLACES[i].broker, PLACES[i].port, PLACES[i].source);
    auto word = [](const char *s) { return *s && !strpbrk(s, " \t\n="); };
    const Place &q = PLACES[a];
    for (auto f : {"all", "Overall", "PROCESS", "bufferpool"})
        if (how == 0 || humanCan(a))
            x.listen(how == 0, f, "");
    if (word(q.vhost))
        x.listen(how == 0, "vhost", q.vhost);
    x.listen(how == 0, "VHOST", "V1");
    x.listen(how == 0, "Vhost", "v1");
    x.listen(how == 0, "vhost", "v");
    x.listen(how == 0, "backend", string(q.broker) + "_" + to_string(q.port));
    x.listen(how == 0, "BACKEND", "10.2.0.1_5672");
    x.listen(how == 0, "backend", "10.2.0.1");
    x.listen(how == 0, "source", q.source);
    x.listen(how == 0, "SOURCE", "10.1.0.1");
    x.listen(how == 0, "source", "10.9.9.9");
    x.held.emplace_back(new BufferHandle);
    x.pool.acquireBuffer(x.held.back().get(), 20);
    x.held.emplace_back(new BufferHandle);
    x.pool.acquireBuffer(x.held.back().get(), 2000);
    for (int k = 0; k < 6; ++k) {
        for (auto &o : x.w.all) traffic(x, *o, 2 * k + (o == x.w.all.front() ? 5 : 0));
        if (k == 2)
            x.w.end(*x.w.all.back(), Disco::DISCONNECTED_CLIENT);
        if (k == 3) {
            x.w.all.front()->denied = true;
            x.w.all.front()->s->setAuthDeniedConnection(true);
            x.w.all.front()->limited = true;
            x.w.all.front()->s->setLimitedConnection();
            x.held.erase(x.held.begin());
        }
        if (k == 4)
            x.w.end(*x.w.all.front(), Disco::DISCONNECTED_CLEANLY);
        x.period(true);
    }
}

// listeners and servers come and go
void comings(Chooser &c, int depth)
{
    World x(c);
    One  *o = &x.w.start(PLACES[0].vhost, PLACES[0].broker, PLACES[0].port, PLACES[0].source);
    x.w.start(PLACES[1].vhost, PLACES[1].broker, PLACES[1].port, PLACES[1].source);
    for (int i = 0; i < 2; ++i) x.servers.emplace_back(new Statsd);
    for (int i = 0; i < depth; ++i) {
        switch (c.choose(FREE, 9, "operation")) {
        case 0: x.listen(true, "all", ""); break;
        case 1: x.listen(false, "vhost", "v1"); break;
        case 2:
            for (auto &l : x.ls)
                if (!l->gone) {
                    l->gone = true;
                    x.w.hist += " listener leaves;";
                    break;
                }
            break;
        case 3:
            for (auto l = x.ls.rbegin(); l != x.ls.rend(); ++l)
                if (!(*l)->gone) {
                    (*l)->gone = true;
                    x.w.hist += " last listener leaves;";
                    break;
                }
            break;
        case 4:
            if (!x.servers[0]->on)
                x.send(*x.servers[0]);
            break;
        case 5:
            if (!x.servers[1]->on)
                x.send(*x.servers[1]);
            break;
        case 6: {
            x.command(" stop send", [](const string &, bool) { return true; });
            for (auto &s : x.servers) s->on = false;
            break;
        }
        case 7: {
            bool on       = !x.w.perSource;
            x.w.perSource = on;
            x.command(on ? " ENABLE per-source" : " DISABLE per-source", [](const string &, bool) { return true; });
            break;
        }
        default:
            traffic(x, *o, i);
            x.period(false);
        }
    }
    traffic(x, *o, 1);
    x.period(true);
}

// a listener on the control socket that reads late: it gets the reports
// whole, one after the other, and in order
void late(Chooser &c)
{
    World x(c);
    x.control->addControlCommand(std::move(x.own));
    static const int VH[]    = {3, 400, 1500};
    int              vh      = VH[c.choose(FREE, 3, "vhosts")], periods = 1 + c.choose(FREE, 4, "periods"), json = 1 - c.choose(FREE, 2, "format"), chunk = c.choose(FREE, 2, "reads") ? 4096 : 1 << 20;
    for (int i = 0; i < vh; ++i) x.w.start(("vhost-" + to_string(i)).c_str(), "10.2.0.1", 5672, "10.1.0.1");
    int         fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
    sockaddr_un a{};
    a.sun_family = AF_UNIX;
    memcpy(a.sun_path, x.uds.data(), x.uds.size());
    struct Closer {
        int fd;
        ~Closer() { close(fd); }
    } closer{fd};
    if (connect(fd, (sockaddr *)&a, offsetof(sockaddr_un, sun_path) + x.uds.size()))
        abort();
    string line = string("STAT LISTEN ") + (json ? "json" : "human") + " all\n";
    if (write(fd, line.data(), line.size()) != ssize_t(line.size()))
        abort();
    x.w.hist += " " + line.substr(0, line.size() - 1) + " and reads late;";
    x.pump();
    std::vector<Expect> want;
    for (int p = 0; p < periods; ++p) {
        for (int i = 0; i < vh; ++i) x.w.up(*x.w.all[i], 1 + p, 1000 * p + i + 1);
        x.period(false);
        want.push_back(x.last);
    }
    string            got;
    std::vector<char> buf(chunk);
    for (int idle = 0; idle < 4;) {
        ssize_t n = read(fd, buf.data(), buf.size());
        if (n > 0) {
            got.append(buf.data(), n);
            idle = 0;
        }
        else
            ++idle;
        x.pump();
    }
    size_t at = 0;
    for (int p = 0; p < periods; ++p) {
        x.last = want[p];
        Listener l;
        l.filter = "all";
        l.json   = json;
        size_t e = json ? got.find('\n', at) : p + 1 < periods ? got.find("Overall:\n", at + 1) : got.size();
        if (e == string::npos || at >= got.size())
            x.bad("the listener got " + to_string(p) + " whole reports of " + to_string(periods));
        if (json)
            ++e;
        string one = got.substr(at, e - at);
        if (json)
            x.judgeJson(l, one);
        else
            x.judgeHuman(l, one);
        at = e;
    }
    if (at != got.size())
        x.bad("the listener got more than the reports");
    c.step(vx::mix(vh, periods * 4 + json * 2 + chunk));
}
}

void addReports(std::vector<Scenario> &out, bool th)
{
    Scenario s;
    s.budget = Budget(0);
    s.name   = "reports of sessions in every place";
    s.run    = places;
    out.push_back(s);
    s.name = "every filter";
    s.run  = filters;
    out.push_back(s);
    s.name = "listeners and servers come and go";
    s.run  = [th](Chooser &c) { comings(c, th ? 6 : 4); };
    out.push_back(s);
    s.name = "a listener that reads late";
    s.run  = late;
    out.push_back(s);
}
}
static std::vector<vx::Scenario> factory(const std::string &prop, const std::string &tier)
{
    std::vector<vx::Scenario> out;
    if (prop == "C16")
        un::addReports(out, tier == "thorough");
    return out;
}
int main(int argc, char **argv)
{
    return vx::harnessMain(argc, argv, factory);
}
