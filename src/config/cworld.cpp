#include "cworld.h"

#include <amqpprox_authcontrolcommand.h>
#include <amqpprox_backendcontrolcommand.h>
#include <amqpprox_connectionscontrolcommand.h>
#include <amqpprox_datacentercontrolcommand.h>
#include <amqpprox_exitcontrolcommand.h>
#include <amqpprox_farmcontrolcommand.h>
#include <amqpprox_helpcontrolcommand.h>
#include <amqpprox_limitcontrolcommand.h>
#include <amqpprox_listencontrolcommand.h>
#include <amqpprox_loggingcontrolcommand.h>
#include <amqpprox_mapcontrolcommand.h>
#include <amqpprox_maphostnamecontrolcommand.h>
#include <amqpprox_sessioncontrolcommand.h>
#include <amqpprox_statcontrolcommand.h>
#include <amqpprox_tlscontrolcommand.h>
#include <amqpprox_vhostcontrolcommand.h>

#include <dlfcn.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/un.h>

// Name lookups never leave the process.
extern "C" int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    using F = int (*)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    static F real = (F)dlsym(RTLD_NEXT, "getaddrinfo");
    struct addrinfo h;
    memset(&h, 0, sizeof h);
    if (hints)
        h = *hints;
    h.ai_flags |= AI_NUMERICHOST;
    h.ai_flags &= ~AI_ADDRCONFIG;
    if (!h.ai_socktype)
        h.ai_socktype = SOCK_STREAM;
    if (service && !*service)
        service = nullptr;
    const char *n = node;
    if (node && !strcmp(node, "localhost"))
        n = "127.0.0.1";
    return real(n, service, &h, res);
}

namespace cw {

Strings split(const string &s)
{
    Strings            r;
    std::istringstream is(s);
    string             t;
    while (is >> t) r.push_back(t);
    return r;
}
string upper(string s)
{
    for (auto &ch : s) ch = toupper((unsigned char)ch);
    return s;
}

// ---------------------------------------------------------------- model

string Model::backendLine(const string &name) const
{
    auto               &b = backends.at(name);
    std::ostringstream o;
    o << name << "/" << b.dc << "/" << b.host << "/" << b.port << (b.proxy ? "/proxy" : "") << (b.tls ? "/tls" : "") << (b.dns ? "/dns" : "");
    return o.str();
}
string show(const Backend *b)
{
    std::ostringstream o;
    o << b->name() << "/" << b->datacenterTag() << "/" << b->host() << "/" << b->port() << (b->proxyProtocolEnabled() ? "/proxy" : "")
      << (b->tlsEnabled() ? "/tls" : "") << (b->dnsBasedEntry() ? "/dns" : "");
    return o.str();
}

string Model::dump() const
{
    std::ostringstream o;
    for (auto &b : backends) o << "B " << backendLine(b.first) << "\n";
    for (auto &f : farms) {
        o << "F " << f.first << " p" << f.second.policies;
        for (auto &m : f.second.members) o << " " << m;
        o << "\n";
    }
    for (auto &m : maps) o << "M " << m.first << (m.second.first ? " farm " : " backend ") << m.second.second << "\n";
    o << "D " << def << " dc " << dc << " auth " << auth << "\n";
    auto lim = [&](const char *n, const std::map<string, long> &l) {
        for (auto &x : l) o << "L " << n << " '" << x.first << "' " << x.second << "\n";
    };
    lim("conn", connLimit);
    lim("alarm", connAlarm);
    lim("data", dataLimit);
    lim("dalarm", dataAlarm);
    for (auto &v : vhosts) o << "V " << v.first << (v.second ? " paused\n" : " unpaused\n");
    return o.str();
}

// Lines whose outcome the documentation leaves open (odd numbers and the
// like) come back UNKNOWN and are not used where the outcome matters.
Model::Verdict Model::apply(const string &line)
{
    touched.clear();
    Strings w = split(line);
    if (w.empty() || line[0] == ' ')
        return REJECT;
    string verb = upper(w[0]), sub = w.size() > 1 ? upper(w[1]) : "";
    auto   num  = [](const string &s, long *n) {
        if (s.empty() || s.find_first_not_of("0123456789") != string::npos || s.size() > 9)
            return false;
        *n = atol(s.c_str());
        return true;
    };
    auto hitMember = [&](const string &b) {
        for (auto &f : farms)
            if (f.second.members.count(b))
                touched.insert(f.first);
    };
    if (verb == "BACKEND") {
        if (sub == "ADD" || sub == "ADD_DNS") {
            MBackend b;
            if (w.size() < 6)
                return REJECT;
            b.dc   = w[3];
            b.host = w[4];
            b.dns  = sub == "ADD_DNS";
            if (!num(w[5], &b.port))
                return w[5].find_first_of("0123456789") == 0 || w[5][0] == '-' || w[5][0] == '+' ? UNKNOWN : REJECT;
            if (b.port == 0)
                return REJECT;
            for (size_t i = 6; i < w.size() && i < 8; ++i) {
                string a = upper(w[i]);
                b.proxy |= a == "SEND-PROXY";
                b.tls |= a == "TLS";
            }
            if (!b.dns && b.host.find_first_not_of("0123456789") == string::npos)
                return UNKNOWN;  // some resolvers take a number for an address
            struct in_addr  a4;
            struct in6_addr a6;
            if (!b.dns && b.host != "localhost" && inet_pton(AF_INET, b.host.c_str(), &a4) != 1 && inet_pton(AF_INET6, b.host.c_str(), &a6) != 1)
                return REJECT;
            if (backends.count(w[2]))
                return REJECT;
            backends[w[2]] = b;
            hitMember(w[2]);
            return ACCEPT;
        }
        if (sub == "DELETE") {
            if (w.size() < 3 || !backends.count(w[2]))
                return REJECT;
            backends.erase(w[2]);
            hitMember(w[2]);
            return ACCEPT;
        }
        return sub == "PRINT" ? ACCEPT : REJECT;
    }
    if (verb == "FARM") {
        if (sub == "ADD" || sub == "ADD_MANUAL") {
            if (w.size() < 5 || w[3] != "round-robin")
                return REJECT;
            if (isspace((unsigned char)line.back()))
                return REJECT;  // an empty backend name
            MFarm f;
            for (size_t i = 4; i < w.size(); ++i) {
                if (!backends.count(w[i]))
                    return REJECT;
                f.members.insert(w[i]);
            }
            farms[w[2]] = f;
            touched.insert(w[2]);
            return ACCEPT;
        }
        if (sub == "PARTITION") {
            if (w.size() < 4 || w[3] != "datacenter-affinity" || !farms.count(w[2]))
                return REJECT;
            farms[w[2]].policies++;
            touched.insert(w[2]);
            return ACCEPT;
        }
        if (sub == "DELETE") {
            if (w.size() < 3)
                return REJECT;
            farms.erase(w[2]);
            touched.insert(w[2]);
            return ACCEPT;
        }
        return sub == "PRINT" ? ACCEPT : REJECT;
    }
    if (verb == "MAP") {
        if (sub == "BACKEND" || sub == "FARM") {
            if (w.size() < 4)
                return REJECT;
            maps[w[2]] = {sub == "FARM", w[3]};
            return ACCEPT;
        }
        if (sub == "UNMAP") {
            if (w.size() < 3)
                return REJECT;
            maps.erase(w[2]);
            return ACCEPT;
        }
        if (sub == "DEFAULT") {
            if (w.size() < 3)
                return REJECT;
            def = w[2];
            return ACCEPT;
        }
        if (sub == "REMOVE_DEFAULT") {
            def.clear();
            return ACCEPT;
        }
        return sub == "PRINT" ? ACCEPT : REJECT;
    }
    if (verb == "DATACENTER") {
        if (sub == "SET") {
            dc = w.size() > 2 ? w[2] : "";
            for (auto &f : farms) touched.insert(f.first);
            return ACCEPT;
        }
        return sub == "PRINT" ? ACCEPT : REJECT;
    }
    if (verb == "VHOST") {
        if (sub == "PRINT")
            return ACCEPT;
        if (w.size() < 3)
            return REJECT;
        if (sub == "PAUSE" || sub == "UNPAUSE") {
            vhosts[w[2]] = sub == "PAUSE";
            return ACCEPT;
        }
        return sub == "FORCE_DISCONNECT" || sub == "BACKEND_DISCONNECT" ? ACCEPT : REJECT;
    }
    if (verb == "LIMIT") {
        if (sub == "PRINT")
            return ACCEPT;
        size_t i   = 1;
        bool   dis = sub == "DISABLE";
        if (dis)
            ++i;
        string kind = i < w.size() ? upper(w[i++]) : "";
        auto  *l    = kind == "CONN_RATE" ? &connLimit : kind == "CONN_RATE_ALARM" ? &connAlarm : kind == "DATA_RATE" ? &dataLimit : kind == "DATA_RATE_ALARM" ? &dataAlarm : nullptr;
        if (!l)
            return REJECT;
        string who = i < w.size() ? upper(w[i++]) : "", vh;
        if (who == "VHOST") {
            if (i >= w.size())
                return REJECT;
            vh = w[i++];
        }
        else if (who != "DEFAULT")
            return REJECT;
        if (dis) {
            l->erase(vh);
            return ACCEPT;
        }
        long n;
        if (i >= w.size())
            return REJECT;
        if (!num(w[i], &n))
            return w[i].find_first_of("0123456789") == 0 || w[i][0] == '-' || w[i][0] == '+' ? UNKNOWN : REJECT;
        (*l)[vh] = n;
        return ACCEPT;
    }
    if (verb == "AUTH") {
        if (sub == "ALWAYS_ALLOW") {
            auth = "always";
            return ACCEPT;
        }
        if (sub == "SERVICE") {
            long p;
            if (w.size() >= 5 && !num(w[3], &p) && w[3].find_first_of("0123456789+") == 0)
                return UNKNOWN;
            if (w.size() < 5 || !num(w[3], &p) || p < 1 || p > 65535)
                return REJECT;
            auth = w[2] + " " + w[3] + " " + w[4];
            return ACCEPT;
        }
        return sub == "PRINT" ? ACCEPT : REJECT;
    }
    return UNKNOWN;
}

bool Model::route(const string &vhost, std::vector<string> *out, string *farm) const
{
    out->clear();
    farm->clear();
    string f;
    auto   it = maps.find(vhost);
    if (it == maps.end()) {
        if (def.empty())
            return false;
        f = def;
    }
    else if (!it->second.first) {
        if (!backends.count(it->second.second))
            return false;
        out->push_back(it->second.second);
        return true;
    }
    else
        f = it->second.second;
    auto fi = farms.find(f);
    if (fi == farms.end())
        return false;
    *farm = f;
    // local ones first; the order within each group is the rotation's
    for (int pass = 0; pass < 2; ++pass)
        for (auto &m : fi->second.members)
            if (backends.count(m) && (fi->second.policies && backends.at(m).dc == dc ? 0 : 1) == pass)
                out->push_back(m);
    return true;
}

// ---------------------------------------------------------------- world

static string udsName()
{
    return string(1, '\0') + "verif-amqpprox-" + std::to_string(getpid());
}

World::World(vx::Chooser &c, bool uds, bool own)
: c(c)
, bufferPool({32, 64, 128, 256, 512, 1024, 4096, 16384, 32768, 65536, 131072})
, connectionSelector(&farmStore, &backendStore, &resourceMapper, &connectionLimiterManager)
, uds(uds)
{
    vtime::enable();
    vtime::set(5000000000ll);
    statCollector.setBufferPool(&bufferPool);
    if (uds || own)
        owned.reset(new Server(&connectionSelector, &eventSource, &bufferPool, &dataRateLimitManager));
    else {
        // only asked for its sessions, of which there are none
        static Server *idle = new Server(nullptr, nullptr, nullptr, nullptr);
        server              = idle;
    }
    if (owned)
        server = owned.get();
    if (uds)
        control.reset(new Control(server, &eventSource, udsName()));
    backendSelectorStore.addSelector(std::unique_ptr<BackendSelector>(new RobinBackendSelector));
    partitionPolicyStore.addPolicy(std::unique_ptr<PartitionPolicy>(new AffinityPartitionPolicy(&datacenter)));
    addCommands();
    pauser = vhostEstablishedPauser(&eventSource, server, &vhostState);
}

World::~World()
{
    pauser = EventSubscriptionHandle();
    control.reset();
    direct.clear();
    owned.reset();
}

void World::addCommands()
{
    using P  = std::unique_ptr<ControlCommand>;
    P cmds[] = {P(new ExitControlCommand),
                P(new ConnectionsControlCommand),
                P(new HelpControlCommand),
                P(new DatacenterControlCommand(&datacenter, &farmStore)),
                P(new SessionControlCommand),
                P(new FarmControlCommand(&farmStore, &backendStore, &backendSelectorStore, &partitionPolicyStore)),
                P(new BackendControlCommand(&backendStore)),
                P(new MapControlCommand(&resourceMapper, &connectionSelector)),
                P(new VhostControlCommand(&vhostState)),
                P(new ListenControlCommand),
                P(new LoggingControlCommand),
                P(new StatControlCommand(&eventSource, &statCollector)),
                P(new MapHostnameControlCommand()),
                P(new TlsControlCommand),
                P(new AuthControlCommand),
                P(new LimitControlCommand(&connectionLimiterManager, &dataRateLimitManager))};
    for (auto &p : cmds) {
        if (uds)
            control->addControlCommand(std::move(p));
        else
            direct[p->commandVerb()] = std::move(p);
    }
}

string World::wire(const string &line, bool *closed)
{
    string      out;
    string      name = udsName();
    int         fd   = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    sockaddr_un a;
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    memcpy(a.sun_path, name.data(), name.size());
    *closed = false;
    if (::connect(fd, (sockaddr *)&a, offsetof(sockaddr_un, sun_path) + name.size()) == 0) {
        string l = line + "\n";
        if (::send(fd, l.data(), l.size(), MSG_NOSIGNAL) == (ssize_t)l.size()) {
            for (int idle = 0; idle < 4 && !*closed;) {
                size_t n = 0;
                control->ioContext().restart();
                try {
                    n = control->ioContext().poll();
                }
                catch (std::exception &e) {
                    close(fd);
                    c.violate("C24", "control-ended", "'" + line + "' ended the control thread: " + e.what());
                }
                char    buf[4096];
                ssize_t r;
                while ((r = recv(fd, buf, sizeof buf, 0)) > 0) out.append(buf, r);
                if (r == 0)
                    *closed = true;
                idle = n ? 0 : idle + 1;
            }
        }
    }
    close(fd);
    control->ioContext().restart();
    control->ioContext().poll();
    return out;
}

string World::send(const string &line)
{
    c.log("> " + line);
    string out;
    if (uds) {
        bool closed = false;
        out         = wire(line, &closed);
        if (!closed)
            c.violate("C24", "unanswered", "'" + line + "' was not answered (got '" + out + "')");
    }
    else {
        size_t sp   = line.find(' ');
        string verb = upper(line.substr(0, sp)), rest = sp == string::npos ? "" : line.substr(sp);
        auto                           it = direct.find(verb);
        if (it == direct.end())
            it = direct.find("HELP");
        bool  fin = false;
        auto  fn  = [&](const string &o, bool f) {
            out += o;
            fin |= f;
            return true;
        };
        // commands that look names up need an io_context only
        static Control *shared = [] {
            return new Control(nullptr, nullptr, string(1, '\0') + "verif-amqpprox-direct-" + std::to_string(getpid()));
        }();
        it->second->handleCommand(verb, rest, fn, server, shared);
        if (!fin)
            c.violate("C24", "unanswered", "'" + line + "' was not answered");
    }
    if (c.verbose() && !out.empty())
        c.log("< " + out);
    return out;
}

Model::Verdict World::cmd(const string &line)
{
    string out = send(line);
    auto   v   = model.apply(line);
    if (v == Model::REJECT && out.empty())
        c.violate("C24", "rejection-silent", "'" + line + "' should have been rejected but nothing was reported");
    return v;
}

string World::Probe::str() const
{
    string s = std::to_string((int)status) + ":";
    for (auto b : cand) s += " " + show(b);
    return s;
}

World::Probe World::connect(const string &vhost)
{
    Probe        p;
    SessionState st;
    st.setVirtualHost(vhost);
    p.status = connectionSelector.acquireConnection(&p.mgr, st);
    if (p.status == SessionState::ConnectionStatus::SUCCESS) {
        if (!p.mgr)
            c.violate("C07", "no-manager", "success without a connection manager for " + vhost);
        for (uint64_t i = 0; i < 64; ++i) {
            const Backend *b = p.mgr->getConnection(i);
            if (!b)
                break;
            p.cand.push_back(b);
        }
        if (p.mgr->getConnection(p.cand.size() + 1))
            c.violate("C09", "candidate-after-end", "a candidate is offered after the end of the list for " + vhost);
    }
    c.log("connect " + vhost + " -> " + p.str());
    return p;
}
}
