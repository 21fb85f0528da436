// The two programs as they are started: amqpprox and amqpprox_ctl, each a
// process of its own (this executable started again in that role), talked to
// through its command line, its standard output, the control socket and
// loopback TCP.  Nothing is simulated, so every wait is for something to
// happen, never for a time to pass; what must not happen is only looked for.
#include <../net/nworld.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>

int amqpprox_main(int argc, char *argv[]);
int amqpprox_ctl_main(int argc, char *argv[]);

namespace {
using std::string;
using vx::Chooser;
using vx::FREE;
using Strings = std::vector<string>;
using nw::Agent;
using nw::Broker;
using nw::Peer;

const int64_t PATIENCE = 20000;

bool starts(const string &s, const string &p) { return s.compare(0, p.size(), p) == 0; }
bool has(const string &s, const string &p) { return s.find(p) != string::npos; }

// ------------------------------------------------------------ a process
struct Process {
    pid_t  pid = -1;
    int    fd  = -1;
    string out;
    bool   ended = false, outEnd = false;
    int    status = 0;
    string env;

    void spawn(const string &role, const Strings &args)
    {
        int p[2];
        if (pipe2(p, O_CLOEXEC) != 0)
            _exit(2);
        Strings             all;
        all.push_back(role);
        all.insert(all.end(), args.begin(), args.end());
        std::vector<char *> av;
        for (auto &a : all) av.push_back(&a[0]);
        av.push_back(nullptr);
        Strings ev;
        for (char **e = environ; *e; ++e) ev.push_back(*e);
        ev.push_back("VERIF_ROLE=" + role);
        std::vector<char *> en;
        for (auto &e : ev) en.push_back(&e[0]);
        en.push_back(nullptr);
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int null = open("/dev/null", O_RDWR);
            dup2(null, 0);
            dup2(p[1], 1);
            dup2(p[1], 2);
            for (int i = 3; i < 256; ++i) close(i);
            execve("/proc/self/exe", av.data(), en.data());
            _exit(126);
        }
        close(p[1]);
        fd = p[0];
        fcntl(fd, F_SETFL, O_NONBLOCK);
    }
    bool step()
    {
        bool    moved = false;
        char    b[65536];
        ssize_t n;
        while (fd >= 0 && (n = read(fd, b, sizeof b)) != -1) {
            moved = true;
            if (n == 0) {
                close(fd);
                fd     = -1;
                outEnd = true;
                break;
            }
            out.append(b, n);
        }
        if (pid > 0 && !ended) {
            if (waitpid(pid, &status, WNOHANG) == pid) {
                ended = true;
                moved = true;
            }
        }
        return moved;
    }
    bool done() const { return ended && outEnd; }
    int  code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status); }
    ~Process()
    {
        if (pid > 0 && !ended) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
        }
        if (fd >= 0)
            close(fd);
    }
};

// One connection to a UNIX socket.
struct Uds {
    int    fd = -1;
    string in;
    bool   eof = false;
    bool connectTo(const string &path)
    {
        fd            = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_un a = {};
        a.sun_family  = AF_UNIX;
        strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
        if (::connect(fd, (sockaddr *)&a, sizeof a) != 0) {
            close(fd);
            fd = -1;
            return false;
        }
        fcntl(fd, F_SETFL, O_NONBLOCK);
        return true;
    }
    bool step()
    {
        char    b[65536];
        ssize_t n;
        bool    moved = false;
        while (fd >= 0 && !eof && (n = recv(fd, b, sizeof b, 0)) != -1) {
            moved = true;
            if (n == 0)
                eof = true;
            else
                in.append(b, n);
        }
        if (fd >= 0 && !eof && errno != EAGAIN)
            eof = true;
        return moved;
    }
    void say(const string &s) { (void)!send(fd, s.data(), s.size(), MSG_NOSIGNAL); }
    ~Uds()
    {
        if (fd >= 0)
            close(fd);
    }
};

string scratch()
{
    static int n = 0;
    string     d = "/tmp/verif-prog-" + std::to_string(getpid()) + "-" + std::to_string(n++);
    mkdir(d.c_str(), 0700);
    return d;
}

// ------------------------------------------------------------ the rig
struct Rig {
    Chooser &c;
    string   dir, sock, history;
    int      base;
    Process  proxy;
    std::vector<std::unique_ptr<Broker>> brokers;
    std::vector<std::unique_ptr<Agent>>  clients;
    std::vector<Uds *>                   more;

    explicit Rig(Chooser &c) : c(c), dir(scratch()), sock(dir + "/control"), base(nw::portBase(8)) {}
    ~Rig()
    {
        proxy.~Process();
        new (&proxy) Process;
        unlink(sock.c_str());
        for (auto f : {"cert", "key"}) unlink((dir + "/" + f).c_str());
        rmdir(dir.c_str());
    }
    [[noreturn]] void bad(const string &key, const string &msg)
    {
        string o = proxy.out.size() > 3000 ? "..." + proxy.out.substr(proxy.out.size() - 3000) : proxy.out;
        c.violate("C25", key, msg + " [" + history + "]\nthe program said: " + o);
    }
    bool step()
    {
        bool m = proxy.step();
        for (auto &b : brokers) m |= b->step();
        for (auto &a : clients) m |= a->step();
        for (auto u : more) m |= u->step();
        return m;
    }
    bool await(const std::function<bool()> &cond, int64_t ms = PATIENCE)
    {
        int64_t t = nw::realMs();
        for (;;) {
            bool m = step();
            if (cond())
                return true;
            if (nw::realMs() - t > ms)
                return false;
            if (!m)
                nw::napMicros(300);
        }
    }
    void alive()
    {
        proxy.step();
        if (proxy.ended)
            bad("ended", "amqpprox ended, status " + std::to_string(proxy.code()));
    }
    void start(Strings args)
    {
        args.insert(args.begin(), {"--controlSocket", sock, "--logDirectory", dir});
        proxy.spawn("proxy", args);
    }
    // it runs: its control socket answers
    void awaitRunning()
    {
        bool up = await([&] {
            if (proxy.ended)
                return true;
            Uds u;
            return u.connectTo(sock);
        });
        alive();
        if (!up)
            bad("no-control", "amqpprox runs but nothing answers at its control socket");
    }
    string cmd(const string &line)
    {
        history += (history.empty() ? "" : "; ") + line;
        c.log(line);
        Uds u;
        more = {&u};
        if (!u.connectTo(sock)) {
            alive();
            bad("no-control", "the control socket cannot be connected to");
        }
        u.say(line + "\n");
        bool ok = await([&] { return u.eof; });
        more.clear();
        if (!ok)
            bad("no-answer", "the command is not answered: " + line);
        return u.in;
    }
    Agent *tryConnect(int port, const string &vhost, bool tls = false)
    {
        std::unique_ptr<Agent> a(new Agent);
        a->vhost = vhost;
        if (!a->p.connectTo(port))
            return nullptr;
        if (tls)
            a->p.startTls(false);
        clients.push_back(std::move(a));
        return clients.back().get();
    }
    Agent &connect(int port, const string &vhost, bool tls = false)
    {
        Agent *a = nullptr;
        await([&] { return proxy.ended || (a = tryConnect(port, vhost, tls)); });
        alive();
        if (!a)
            bad("not-listening", "nothing listens on the port amqpprox was told to listen on");
        return *a;
    }
    // the broker session that belongs to the client: marked by its virtual host
    // and by data only this client sends
    Agent *peerOf(Agent &a, int *which, size_t n, bool whole = true)
    {
        static int serial = 0;
        string     tag = "tag" + std::to_string(++serial) + ".";
        string     body = tag + string(n > tag.size() ? n - tag.size() : 0, 'x');
        string     f = amqp::frame(3, 1, body);
        size_t     before = 0;
        (void)before;
        a.p.write(f);
        Agent *found = nullptr;
        await([&] {
            alive();
            for (size_t i = 0; i < brokers.size(); ++i)
                for (auto &b : brokers[i]->conns)
                    if (has(whole ? b->app : b->p.in, whole ? body : tag)) {
                        found  = b.get();
                        *which = i;
                    }
            return found || a.p.gone();
        });
        return found;
    }
    // EXIT: answered, status 0, nothing left behind
    void exitNow()
    {
        string o = cmd("EXIT");
        if (!has(o, "Exiting"))
            bad("exit-unanswered", "EXIT is answered with '" + o + "'");
        if (!await([&] { return proxy.done(); }))
            bad("exit-runs", "amqpprox does not end after EXIT");
        if (proxy.code() != 0)
            bad("exit-status", "the status after EXIT is " + std::to_string(proxy.code()));
        struct stat st;
        if (stat(sock.c_str(), &st) == 0)
            bad("exit-socket", "the control socket is left behind after EXIT");
        if (!await([&] {
                for (auto &a : clients)
                    if (a->p.fd >= 0 && !a->p.gone())
                        return false;
                return true;
            }))
            bad("exit-clients", "a client is still connected after EXIT");
        if (!await([&] {
                for (auto &b : brokers)
                    for (auto &a : b->conns)
                        if (!a->p.gone())
                            return false;
                return true;
            }))
            bad("exit-brokers", "a connection to a broker is still open after EXIT");
    }
    Broker &broker(int i)
    {
        while ((int)brokers.size() <= i) brokers.emplace_back(new Broker(base + (int)brokers.size()));
        return *brokers[i];
    }
};

string P(int p) { return std::to_string(p); }

const char *VERBS[] = {"EXIT", "CONN", "HELP", "DATACENTER", "SESSION", "FARM", "BACKEND", "MAP", "VHOST", "LISTEN", "LOG", "STAT", "MAPHOSTNAME", "TLS", "AUTH", "LIMIT"};

void checkHelp(Rig &r)
{
    string h = "\n" + r.cmd("HELP");
    for (auto v : VERBS)
        if (!has(h, string("\n") + v + " "))
            r.bad("help", string("HELP does not list ") + v + ":" + h);
}

// ------------------------------------------------------------ command line
void commandLine(Chooser &c)
{
    Rig  r(c);
    int  lp = c.choose(FREE, 3, "listenPort"), dp = c.choose(FREE, 3, "destinationPort"), dd = c.choose(FREE, 3, "destinationDNS");
    int  vb = c.choose(FREE, 5, "verbosity");
    bool help = c.choose(FREE, 2, "help"), unknown = c.choose(FREE, 2, "unknown");
    bool simpleAny = lp == 2 || dp == 2 || dd == 2, simpleAll = lp == 2 && dp == 2 && dd == 2;
    bool starting = !help && !unknown && simpleAny == simpleAll && vb < 3;
    int  stale = starting ? c.choose(FREE, 3, "stale") : 1;
    r.broker(0);
    int     port = r.base + 6;
    Strings a;
    auto    opt = [&](const string &n, const string &v) {
        a.push_back(n);
        a.push_back(v);
        r.history += n + " " + v + " ";
    };
    if (lp)
        opt("--listenPort", lp == 2 ? P(port) : "0");
    if (dp)
        opt("--destinationPort", dp == 2 ? P(r.base) : "0");
    if (dd)
        opt("--destinationDNS", dd == 2 ? "127.0.0.1" : "");
    if (vb == 1)
        opt("-v", "5");
    if (vb == 2)
        opt("--consoleVerbosity", "1");
    if (vb == 3)
        opt("-v", "6");
    if (vb == 4)
        opt("--consoleVerbosity", "65535");
    if (help)
        a.push_back("--help"), r.history += "--help ";
    if (unknown)
        a.push_back("--unknownOption"), r.history += "--unknownOption ";
    c.log("amqpprox " + r.history);
    if (stale == 1) {
        int f = open(r.sock.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0600);
        (void)!write(f, "old", 3);
        close(f);
    }
    if (stale == 2) {
        int         f = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_un u = {};
        u.sun_family  = AF_UNIX;
        strncpy(u.sun_path, r.sock.c_str(), sizeof u.sun_path - 1);
        (void)!bind(f, (sockaddr *)&u, sizeof u);
        close(f);
    }
    r.start(a);
    if (!starting) {
        if (!r.await([&] {
                struct stat st;
                return r.proxy.done() || stat(r.sock.c_str(), &st) != 0 || S_ISSOCK(st.st_mode);
            }))
            r.bad("refusal", "amqpprox neither starts nor ends");
        struct stat st;
        if (stat(r.sock.c_str(), &st) != 0 || !S_ISREG(st.st_mode))
            r.bad("refusal", "a command line that is refused starts the proxy or removes what is at its control socket");
        if (r.proxy.code() == 0 || r.proxy.code() >= 77)
            r.bad("refusal-status", "a refused command line ends with status " + std::to_string(r.proxy.code()));
        if (r.proxy.out.empty())
            r.bad("refusal-silent", "a command line is refused without a word");
        c.outcome("refused " + std::to_string(r.proxy.code()));
        c.step(vx::hashBytes(r.history));
        return;
    }
    r.awaitRunning();
    checkHelp(r);
    if (simpleAll) {
        for (string v : {"/", "v1", "some/other host"}) {
            Agent &x = r.connect(port, v);
            r.await([&] {
                r.alive();
                return x.open || x.p.gone();
            });
            if (!x.open)
                r.bad("simple-refused", "a client of vhost '" + v + "' is not connected to the destination");
            int    w;
            Agent *b = r.peerOf(x, &w, 3000);
            if (!b)
                r.bad("simple-lost", "what a client of vhost '" + v + "' sends does not reach the destination");
            string back = amqp::frame(3, 1, "answer to " + v);
            b->p.write(back);
            if (!r.await([&] { return has(x.app, back); }))
                r.bad("simple-lost", "what the destination sends does not reach the client of vhost '" + v + "'");
            c.step();
        }
    }
    else {
        Peer p;
        if (p.connectTo(port))
            r.bad("listens", "amqpprox listens without having been told to");
    }
    r.exitNow();
    c.outcome(simpleAll ? "simple mode" : "started");
    c.step(vx::hashBytes(r.history));
}

// ------------------------------------------------------------ commands
// Reference for what the commands used here do to clients.
struct Ref {
    string v1 = "";  // mapping of v1: "", "fall", "b2"
    string dc = "dc1";
    bool   paused = false, limited = false, denied = false, listening = true, slow = false, named = false;
    int    route(const string &v) const
    {
        if (v != "v1" || v1.empty())
            return 0;
        if (v1 == "b2")
            return 1;
        return dc == "dc1" ? 0 : 1;
    }
};
enum St { OPEN, HELD, GONE, ANY };
struct Cl {
    Agent *a;
    string v;
    St     st;
    int    route;
    bool   stopped = false;  // paused after it was open
    bool   heldRouteSure = true;
    bool   slow = false;
};

const char *OPS[] = {"connect v1", "connect v2", "MAP FARM v1 fall", "MAP BACKEND v1 b2", "MAP UNMAP v1", "DATACENTER SET dc2", "VHOST PAUSE v1", "VHOST UNPAUSE v1",
                     "LIMIT CONN_RATE VHOST v1 0", "LIMIT DISABLE CONN_RATE VHOST v1", "AUTH SERVICE", "AUTH ALWAYS_ALLOW", "VHOST FORCE_DISCONNECT v1", "LISTEN", "leave",
                     "LIMIT DATA_RATE VHOST v1 1000", "STAT LISTEN", "tls client", "stat send", "MAPHOSTNAME DNS"};
enum { NOPS = sizeof OPS / sizeof *OPS };

struct Commands {
    Rig              r;
    Ref              m;
    std::vector<Cl>  cl;
    int              port, tport;
    bool             tls = false;
    Commands(Chooser &c) : r(c), port(r.base + 6), tport(r.base + 7) {}

    void expectOpen(Cl &x)
    {
        r.await([&] {
            r.alive();
            return x.a->open || x.a->p.gone();
        });
        if (!x.a->open)
            r.bad("not-connected", "a client of " + x.v + " is not connected although nothing forbids it");
        int    w = -1;
        Agent *b = r.peerOf(*x.a, &w, x.slow ? 0 : 2000, !x.slow);
        if (!b)
            r.bad("lost", "what a client of " + x.v + " sends reaches no broker");
        if (x.route >= 0 && w != x.route)
            r.bad("route", "a client of " + x.v + " is connected to broker b" + P(w + 1) + ", not b" + P(x.route + 1));
        string back = amqp::frame(3, 1, "answer" + P(w));
        b->p.write(back);
        size_t from = x.a->app.size();
        if (!r.await([&] { return x.a->app.find(back, from) != string::npos || x.a->p.gone(); }) || x.a->p.gone())
            r.bad("lost", "what the broker sends does not reach a client of " + x.v);
    }
    void expectGone(Cl &x, const char *why)
    {
        if (!r.await([&] {
                r.alive();
                return x.a->p.gone() || x.a->open;
            }))
            r.bad("stays", string("a client stays connected although ") + why);
        if (x.a->open && x.st != OPEN)
            r.bad("admitted", string("a client is connected to a broker although ") + why);
    }
    void connect(const string &v, bool secure)
    {
        r.history += "; connect " + v + (secure ? " by TLS" : "");
        r.c.log("connect " + v);
        if (!secure && !m.listening) {
            if (r.tryConnect(port, v))
                r.bad("listens", "a client is accepted although LISTEN STOP was answered and done");
            return;
        }
        Cl x;
        x.a     = &r.connect(secure ? tport : port, v, secure);
        x.v     = v;
        x.route = m.route(v);
        x.slow  = m.slow && v == "v1";
        x.st    = GONE;
        if (m.paused && v == "v1" && (m.denied || m.limited)) {
            // held, refused later
            x.st = ANY;
            r.await([&] { return x.a->open; }, 30);
            if (x.a->open)
                r.bad("admitted", "a client is connected to a broker although its virtual host is paused and it is to be refused");
        }
        else if (m.denied)
            expectGone(x, "the authentication service cannot be asked");
        else if (m.limited && v == "v1")
            expectGone(x, "the limit of its virtual host is 0 connections");
        else if (m.paused && v == "v1") {
            x.st = HELD;
            if (!r.await([&] {
                    r.alive();
                    if (x.a->open || x.a->p.gone())
                        return true;
                    string o = connections();
                    for (size_t i = 0, e; i < o.size() && (e = o.find('\n', i)) != string::npos; i = e + 1) {
                        string l = o.substr(i, e - i);
                        if (has(l, " vhost=v1 ") && has(l, " paused=Y ") && has(l, " disconnected=N "))
                            return true;
                    }
                    return false;
                }))
                r.bad("not-paused", "a new session of a paused virtual host is not shown as paused");
            if (x.a->open)
                r.bad("pause-ignored", "a new session of a paused virtual host is connected");
            if (x.a->p.gone())
                r.bad("pause-drops", "a new session of a paused virtual host is dropped");
        }
        else {
            expectOpen(x);
            x.st = OPEN;
        }
        cl.push_back(x);
    }
    string connections()
    {
        string h = r.history, o = r.cmd("CONN");
        r.history = h;
        return o;
    }
    void op(int i)
    {
        string o = OPS[i];
        switch (i) {
          case 0: connect("v1", false); break;
          case 1: connect("v2", false); break;
          case 2: m.v1 = "fall"; break;
          case 3: m.v1 = "b2"; break;
          case 4: m.v1 = ""; break;
          case 5: m.dc = "dc2"; break;
          case 6:
            m.paused = true;
            r.cmd(o);
            for (auto &x : cl)
                if (x.v == "v1" && x.st == OPEN)
                    x.st = ANY;  // what becomes of it is another property's
            return;
          case 7: {
            bool was = m.paused;
            m.paused = false;
            r.cmd(o);
            for (auto &x : cl)
                if (x.v == "v1" && x.st == HELD) {
                    x.route = -1;
                    if (m.slow)
                        x.slow = true;
                    expectOpen(x);
                    x.st = OPEN;
                }
            (void)was;
            return;
          }
          case 8: m.limited = true; break;
          case 9: m.limited = false; break;
          case 10:
            m.denied = true;
            o += " 127.0.0.1 " + P(r.base + 5) + " /auth";
            break;
          case 11: m.denied = false; break;
          case 12: {
            r.cmd(o);
            for (auto &x : cl)
                if (x.v == "v1" && x.st != GONE) {
                    if (x.st != ANY)
                        expectGone(x, "its virtual host was disconnected by force");
                    x.st = x.st == ANY ? ANY : GONE;
                    if (!r.await([&] { return x.a->p.gone(); }))
                        r.bad("stays", "a client stays connected although its virtual host was disconnected by force");
                    x.st = GONE;
                }
            return;
          }
          case 13:
            m.listening = !m.listening;
            r.cmd((m.listening ? "LISTEN START " : "LISTEN STOP ") + P(port));
            if (!r.await([&] {
                    r.alive();
                    Peer p;
                    return p.connectTo(port) == m.listening;
                }))
                r.bad("listen", m.listening ? "nothing listens after LISTEN START" : "the port still accepts after LISTEN STOP");
            return;
          case 14:
            r.history += "; leave";
            if (!cl.empty()) {
                cl.back().a->p.drop();
                cl.pop_back();
            }
            return;
          case 15: m.slow = true; break;
          case 16: {
            r.history += "; STAT LISTEN";
            Uds u;
            r.more = {&u};
            if (!u.connectTo(r.sock))
                r.bad("no-control", "the control socket cannot be connected to");
            u.say("STAT LISTEN json all\n");
            if (!r.await([&] { return std::count(u.in.begin(), u.in.end(), '\n') >= 3 || u.eof; }) || u.eof)
                r.bad("no-reports", "a statistics listener does not get a report every clean-up interval: " + u.in);
            r.more.clear();
            if (!has(u.in, "\"cpu\"") && !has(u.in, "cpu"))
                r.bad("report", "a report without the process: " + u.in);
            if (!has(u.in, "65536"))
                r.bad("report", "a report without the buffer pool: " + u.in);
            return;
          }
          case 17:
            if (!tls) {
                auto put = [&](const char *n, const string &d) {
                    int f = open((r.dir + "/" + n).c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0600);
                    (void)!write(f, d.data(), d.size());
                    close(f);
                };
                put("cert", nw::certPem());
                put("key", nw::keyPem());
                r.cmd("TLS INGRESS CERT_CHAIN_FILE " + r.dir + "/cert");
                r.cmd("TLS INGRESS KEY_FILE " + r.dir + "/key");
                r.cmd("LISTEN START_SECURE " + P(tport));
                tls = true;
            }
            connect("v2", true);
            return;
          case 18: {
            int         f = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
            sockaddr_in a = {};
            a.sin_family  = AF_INET;
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            socklen_t l   = sizeof a;
            (void)!bind(f, (sockaddr *)&a, l);
            getsockname(f, (sockaddr *)&a, &l);
            r.cmd("STAT SEND 127.0.0.1 " + P(ntohs(a.sin_port)));
            int  n  = 0;
            char b[4096];
            bool ok = r.await([&] {
                r.alive();
                while (recv(f, b, sizeof b, 0) > 0) ++n;
                return n > 60;
            });
            close(f);
            if (!ok)
                r.bad("no-metrics", "metrics do not arrive at the StatsD server");
            r.cmd("STAT STOP SEND");
            return;
          }
          case 19: break;
        }
        if (i >= 2)
            r.cmd(o);
    }
    void run(int depth, int first, int nops)
    {
        r.broker(0);
        r.broker(1);
        r.start({"--cleanupIntervalMs", "30"});
        r.awaitRunning();
        for (auto s : Strings{"BACKEND ADD b1 dc1 127.0.0.1 " + P(r.base), "BACKEND ADD b2 dc2 127.0.0.1 " + P(r.base + 1), "FARM ADD f1 round-robin b1", "FARM ADD fall round-robin b1 b2",
                              string("FARM PARTITION fall datacenter-affinity"), string("DATACENTER SET dc1"), string("MAP DEFAULT f1"), "LISTEN START " + P(port)})
            r.cmd(s);
        // listening has begun, so that a port found closed later was closed
        if (!r.await([&] {
                r.alive();
                Peer p;
                return p.connectTo(port);
            }))
            r.bad("not-listening", "nothing listens after LISTEN START");
        r.history.clear();
        for (int d = 0; d < depth; ++d) {
            op(d == 0 && first >= 0 ? first : r.c.choose(FREE, nops, "op"));
            r.c.step(vx::hashBytes(r.history));
        }
        // a new client of each virtual host, the old ones as they should be
        connect("v1", false);
        connect("v2", false);
        size_t live = 0;
        bool   sure = true;
        for (auto &x : cl) {
            if (x.st == OPEN) {
                expectOpen(x);
                ++live;
            }
            else if (x.st == HELD) {
                if (x.a->open)
                    r.bad("pause-ignored", "a session of a paused virtual host was connected");
                ++live;
            }
            else if (x.st == ANY)
                sure = false;
        }
        if (m.slow)
            for (auto &x : cl)
                if (x.st == OPEN && x.slow) {
                    // one read may pass before the limit is noticed
                    string big = amqp::frame(3, 1, string(100000, 'y'));
                    for (int i = 0; i < 20; ++i) x.a->p.write(big);
                    r.await([] { return false; }, 200);
                    size_t most = 0;
                    for (auto &b : r.brokers)
                        for (auto &y : b->conns) most = std::max<size_t>(most, std::count(y->p.in.begin(), y->p.in.end(), 'y'));
                    if (most >= 2000000)
                        r.bad("rate", "a session limited to 1000 bytes a second got " + P(most) + " through at once");
                    break;
                }
        // sessions that ended are removed by the periodic clean-up
        string last;
        if (sure && !r.await([&] {
                r.alive();
                last       = connections();
                size_t n   = 0;
                for (size_t p = 0; (p = last.find("vhost=", p)) != string::npos; ++p) ++n;
                return n == live;
            }))
            r.bad("not-cleaned", P(live) + " sessions are alive, CONN shows\n" + last);
        // it ends in the middle of everything
        Peer silent, half;
        if (m.listening) {
            silent.connectTo(port);
            half.connectTo(port);
            half.write(amqp::header().substr(0, 5));
            half.flush();
        }
        for (auto &x : cl)
            if (x.st == OPEN && !x.slow) {
                x.a->p.write(amqp::frame(3, 1, string(30000, 'z')));
                x.a->p.flush();
            }
        for (auto &b : r.brokers)
            for (auto &y : b->conns)
                if (y->open && !y->p.gone()) {
                    y->p.write(amqp::frame(3, 1, string(30000, 'w')));
                    y->p.flush();
                }
        r.exitNow();
        r.c.outcome(r.history);
        r.c.step(vx::hashBytes(r.history + "."));
    }
};

// ------------------------------------------------------------ amqpprox_ctl
struct Fake {
    int fd = -1, conn = -1;
    explicit Fake(const string &path)
    {
        fd            = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
        sockaddr_un a = {};
        a.sun_family  = AF_UNIX;
        strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
        (void)!bind(fd, (sockaddr *)&a, sizeof a);
        listen(fd, 4);
    }
    ~Fake()
    {
        close(fd);
        if (conn >= 0)
            close(conn);
    }
};
void ctl(Chooser &c, int what)
{
    Rig  r(c);
    auto bad = [&](const string &k, const string &m) { r.bad(k, "amqpprox_ctl " + r.history + ": " + m); };
    auto run = [&](const Strings &a) {
        for (auto &x : a) r.history += "'" + (x.size() > 40 ? x.substr(0, 40) + "..." : x) + "' ";
        c.log(r.history);
        r.proxy.spawn("ctl", a);
    };
    if (what == 0) {  // nothing to talk to
        int     k = c.choose(FREE, 5, "kind");
        Strings a;
        if (k >= 1)
            a.push_back(r.sock);
        if (k >= 2)
            a.push_back("HELP");
        if (k == 3) {
            int f = open(r.sock.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0600);
            close(f);
        }
        if (k == 4)
            a[0] = string(300, 'x');
        run(a);
        if (!r.await([&] { return r.proxy.done(); }))
            bad("ctl-hangs", "does not end");
        if (r.proxy.code() == 0 || r.proxy.code() >= 77)
            bad("ctl-status", "ends with status " + P(r.proxy.code()) + " although nothing was commanded");
        if (r.proxy.out.empty())
            bad("ctl-silent", "fails without a word");
        c.outcome("ctl fails " + P(r.proxy.code()));
        c.step(vx::hashBytes(r.history));
        return;
    }
    if (what == 3) {  // a real proxy
        static const Strings lines[] = {{"HELP"}, {"BACKEND", "ADD", "b1", "dc1", "127.0.0.1", "5672"}, {"BACKEND ADD b1 dc1 127.0.0.1 5672"}, {"nonsense"}, {"EXIT"}};
        Strings l = lines[c.choose(FREE, 5, "line")];
        r.start({});
        r.awaitRunning();
        Process p;
        Strings a{r.sock};
        a.insert(a.end(), l.begin(), l.end());
        p.spawn("ctl", a);
        if (!r.await([&] {
                p.step();
                return p.done();
            }))
            bad("ctl-hangs", "does not end");
        if (p.code() != 0)
            bad("ctl-status", "ends with status " + P(p.code()));
        if (l[0] == "EXIT") {
            if (!has(p.out, "Exiting"))
                bad("ctl-output", "prints '" + p.out + "'");
            if (!r.await([&] { return r.proxy.done(); }) || r.proxy.code() != 0)
                bad("ctl-exit", "EXIT does not end the proxy");
        }
        else if (starts(l[0], "BACKEND")) {
            if (!has(r.cmd("BACKEND PRINT"), "b1"))
                bad("ctl-nothing", "the backend was not added");
        }
        else if (p.out != r.cmd("HELP"))
            bad("ctl-output", "prints '" + p.out + "'");
        c.outcome("ctl " + l[0]);
        c.step(vx::hashBytes(r.history));
        return;
    }
    static const std::vector<Strings> ARGS = {{"HELP"}, {"MAP", "PRINT"}, {"MAP PRINT"}, {"A", "", "B"}, {""}, {"LIMIT", "CONN_RATE", "VHOST", "v 1", "12"}, {"", "x"}, {"a\tb", "--help", "-v"},
                                              {string(5000, 'q'), "z"}, {string(60000, 'r')}, {"caf\xc3\xa9", "\xff"}};
    static const size_t SIZES[] = {0, 1, 2, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 5000, 70000, 300000};
    Strings     a = what == 1 ? ARGS[c.choose(FREE, ARGS.size(), "arguments")] : ARGS[1];
    size_t      n = SIZES[c.choose(FREE, 13, "answer")];
    string      answer;
    for (size_t i = 0; i < n; ++i) answer += (char)(n == 5000 ? (i * 7) & 255 : (i % 61 == 60 ? '\n' : 'a' + i % 23));
    std::vector<size_t> cuts;
    if (what == 2 && n > 1) {
        static const size_t CUT[] = {1, 1023, 1024, 1025, 2048, 4096};
        size_t a1 = CUT[c.choose(FREE, 6, "cut")], a2 = CUT[c.choose(FREE, 6, "cut")];
        cuts = {std::min(a1, n), std::min(a1 + a2, n)};
        for (size_t k : cuts) answer[k - 1] = '\n';  // a piece may look like an end
    }
    bool    reset = what == 2 ? c.choose(FREE, 2, "shut") : 0;
    Fake    f(r.sock);
    string  expect;
    for (size_t i = 0; i < a.size(); ++i) expect += (i ? " " : "") + a[i];
    expect += "\n";
    Strings all{r.sock};
    all.insert(all.end(), a.begin(), a.end());
    run(all);
    string got;
    r.await([&] {
        if (f.conn < 0)
            f.conn = accept4(f.fd, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK);
        char    b[65536];
        ssize_t k;
        while (f.conn >= 0 && (k = recv(f.conn, b, sizeof b, 0)) > 0) got.append(b, k);
        return got.size() >= expect.size() || r.proxy.ended;
    });
    if (got != expect)
        bad("ctl-line", "sends '" + vx::hex(got, 200) + "' for '" + vx::hex(expect, 200) + "'");
    size_t sent = 0;
    cuts.push_back(n);
    for (size_t cut : cuts) {
        while (sent < cut) {
            ssize_t k = send(f.conn, answer.data() + sent, cut - sent, MSG_NOSIGNAL);
            if (k > 0)
                sent += k;
            else if (errno == EAGAIN) {
                r.step();
                nw::napMicros(200);
            }
            else
                bad("ctl-output", "goes before the answer is complete");
        }
        // what has been sent is printed before more comes
        if (!r.await([&] { return r.proxy.out.size() >= sent || r.proxy.ended; }) || r.proxy.ended)
            bad("ctl-output", P(sent) + " bytes of the answer were sent, " + P(r.proxy.out.size()) + " are printed");
    }
    if (reset)
        shutdown(f.conn, SHUT_RDWR);
    else
        close(f.conn), f.conn = -1;
    if (!r.await([&] { return r.proxy.done(); }))
        bad("ctl-hangs", "does not end when the answer does");
    if (r.proxy.code() != 0)
        bad("ctl-status", "ends with status " + P(r.proxy.code()));
    if (r.proxy.out != answer)
        bad("ctl-output", "prints " + P(r.proxy.out.size()) + " bytes, not the " + P(n) + " bytes of the answer");
    c.outcome("ctl ok " + P(n));
    c.step(vx::hashBytes(r.history));
}

std::vector<vx::Scenario> factory(const string &prop, const string &tier)
{
    bool                      th = tier == "thorough";
    std::vector<vx::Scenario> out;
    vx::Budget                b(0);
    if (prop != "C25")
        return out;
    auto add = [&](const string &n, std::function<void(Chooser &)> f) {
        vx::Scenario s;
        s.name   = n;
        s.budget = b;
        s.run    = f;
        out.push_back(s);
    };
    add("command line", commandLine);
    add("ctl alone", [](Chooser &c) { ctl(c, 0); });
    add("ctl arguments", [](Chooser &c) { ctl(c, 1); });
    add("ctl answers", [](Chooser &c) { ctl(c, 2); });
    add("ctl and proxy", [](Chooser &c) { ctl(c, 3); });
    for (int i = 0; i < NOPS; ++i)
        add(string("commands, first: ") + OPS[i], [i, th](Chooser &c) { Commands(c).run(th ? 3 : 2, i, NOPS); });
    for (int i = 0; i < 14 && !th; ++i)
        add(string("three commands, first: ") + OPS[i], [i](Chooser &c) { Commands(c).run(3, i, 14); });
    return out;
}
}

int main(int argc, char **argv)
{
    if (const char *role = getenv("VERIF_ROLE")) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        string r = role;
        unsetenv("VERIF_ROLE");
        return r == "ctl" ? amqpprox_ctl_main(argc, argv) : amqpprox_main(argc, argv);
    }
    signal(SIGPIPE, SIG_IGN);
    return vx::harnessMain(argc, argv, factory);
}
