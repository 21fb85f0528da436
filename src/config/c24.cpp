// Control commands: every line is answered, a rejected one changes nothing,
// an accepted one changes exactly what it names, and what is printed is what
// is in force.
#include "cworld.h"

#include <arpa/inet.h>
#include <netinet/in.h>
#include <openssl/ssl.h>
#include <sys/socket.h>
#include <sys/un.h>

namespace cw {
using vx::Budget;
using vx::Chooser;
using vx::FREE;
using vx::Scenario;
using Status = SessionState::ConnectionStatus;

namespace {

Strings lines(const string &s)
{
    Strings            r;
    std::istringstream is(s);
    string             l;
    while (std::getline(is, l))
        if (l.find_first_not_of(" \t\r") != string::npos)
            r.push_back(l);
    return r;
}

// words of a printed line, without punctuation around them
Strings words(const string &s)
{
    Strings r;
    string  w;
    for (char ch : s + " ") {
        if (isspace((unsigned char)ch) || strchr("()\",;=>", ch)) {
            while (!w.empty() && strchr(":.", w.back())) w.pop_back();
            if (!w.empty())
                r.push_back(w);
            w.clear();
        }
        else
            w += ch;
    }
    return r;
}
bool has(const Strings &v, const string &w)
{
    return std::find(v.begin(), v.end(), w) != v.end();
}
bool hasPart(const string &l, const string &w)
{
    // w as a whole token, where a token ends at anything but [A-Za-z0-9_.-]
    for (size_t p = l.find(w); p != string::npos; p = l.find(w, p + 1)) {
        auto wc = [](char ch) { return isalnum((unsigned char)ch) || ch == '_' || ch == '-'; };
        bool a  = p == 0 || !wc(l[p - 1]);
        bool b  = p + w.size() >= l.size() || !wc(l[p + w.size()]);
        if (a && b)
            return true;
    }
    return false;
}

const Strings VHOSTS = {"v1", "v2", "v3"};

struct Snap {
    std::map<string, string> text;
    string                   routes;
    string all() const
    {
        string s;
        for (auto &t : text) s += "[" + t.first + "]\n" + t.second;
        return s + routes;
    }
};

string ciphers(SSL_CTX *x)
{
    string r;
    auto  *l = SSL_CTX_get_ciphers(x);
    for (int i = 0; i < sk_SSL_CIPHER_num(l); ++i) r += string(SSL_CIPHER_get_name(sk_SSL_CIPHER_value(l, i))) + ":";
    return r;
}

struct C24World : World {
    std::map<string, string> tls;  // what TLS commands changed, by direction/kind
    explicit C24World(Chooser &c)
    : World(c, true)
    {
        for (auto d : {"INGRESS", "EGRESS"}) {
            auto *x                       = ctx(d);
            tls[string(d) + " mode"]      = std::to_string(SSL_CTX_get_verify_mode(x));
            tls[string(d) + " ciphers"]   = ciphers(x);
            tls[string(d) + " cert"]      = "0";
        }
    }
    SSL_CTX *ctx(const string &d) { return (d == "INGRESS" ? server->ingressTlsContext() : server->egressTlsContext()).native_handle(); }

    Snap snap()
    {
        Snap s;
        bool v = c.d_verbose;
        c.d_verbose = false;
        for (auto p : {"BACKEND PRINT", "FARM PRINT", "MAP PRINT", "DATACENTER PRINT", "VHOST PRINT", "LIMIT PRINT", "LIMIT PRINT v1", "LIMIT PRINT v2", "AUTH PRINT", "CONN"})
            s.text[p] = send(p);
        c.d_verbose = v;
        for (auto d : {"INGRESS", "EGRESS"}) {
            auto *x = ctx(d);
            s.routes += string(d) + " mode " + std::to_string(SSL_CTX_get_verify_mode(x)) + " ciphers " + ciphers(x) + " cert " + (SSL_CTX_get0_certificate(x) ? "1" : "0") + "\n";
        }
        for (auto &vh : VHOSTS)
            s.routes += vh + " data " + std::to_string(dataRateLimitManager.getDataRateLimit(vh)) + " alarm " + std::to_string(dataRateLimitManager.getDataRateAlarm(vh)) + "\n";
        return s;
    }
    void bad(const string &key, const string &msg) { c.violate("C24", key, msg + "\nexpected configuration:\n" + model.dump()); }

    // everything printed and everything in force is as the model says
    void compare(const string &after)
    {
        Snap    s = snap();
        string  a = "after '" + after + "': ";
        Strings l = lines(s.text["BACKEND PRINT"]);
        if (l.size() != model.backends.size())
            bad("print-backend", a + "BACKEND PRINT shows\n" + s.text["BACKEND PRINT"]);
        for (auto &b : model.backends) {
            bool ok = false;
            for (auto &x : l) {
                Strings w = words(x);
                ok |= !w.empty() && w[0] == b.first && hasPart(x, b.second.dc) && hasPart(x, b.second.host) && hasPart(x, std::to_string(b.second.port)) && has(w, "TLS") == b.second.tls &&
                      (x.find("PROXY") != string::npos || x.find("PROTO") != string::npos || x.find("roxy") != string::npos) == b.second.proxy;
            }
            if (!ok)
                bad("print-backend", a + "BACKEND PRINT shows\n" + s.text["BACKEND PRINT"]);
        }
        l = lines(s.text["FARM PRINT"]);
        if (l.size() != model.farms.size())
            bad("print-farm", a + "FARM PRINT shows\n" + s.text["FARM PRINT"]);
        for (auto &f : model.farms) {
            bool ok = false;
            for (auto &x : l) {
                Strings w = words(x);
                ok |= !w.empty() && w[0] == f.first && std::set<string>(w.begin() + 1, w.end()) == f.second.members;
            }
            if (!ok)
                bad("print-farm", a + "FARM PRINT shows\n" + s.text["FARM PRINT"]);
        }
        l = lines(s.text["MAP PRINT"]);
        if (l.size() != model.maps.size())
            bad("print-map", a + "MAP PRINT shows\n" + s.text["MAP PRINT"]);
        for (auto &m : model.maps) {
            bool ok = false;
            for (auto &x : l) {
                Strings w = words(x);
                ok |= !w.empty() && w[0] == m.first && hasPart(x, m.second.second) && (upper(x).find("FARM") != string::npos) == m.second.first;
            }
            if (!ok)
                bad("print-map", a + "MAP PRINT shows\n" + s.text["MAP PRINT"]);
        }
        {
            Strings w = words(s.text["DATACENTER PRINT"]);
            if (w != (model.dc.empty() ? Strings() : Strings{model.dc}))
                bad("print-datacenter", a + "DATACENTER PRINT shows\n" + s.text["DATACENTER PRINT"]);
        }
        l = lines(s.text["VHOST PRINT"]);
        for (auto &v : model.vhosts) {
            bool ok = false;
            for (auto &x : l) {
                Strings w = words(x);
                ok |= !w.empty() && w[0] == v.first && has(w, v.second ? "PAUSED" : "UNPAUSED");
            }
            if (!ok)
                bad("print-vhost", a + "VHOST PRINT shows\n" + s.text["VHOST PRINT"]);
        }
        for (auto &x : l) {
            Strings w = words(x);
            if (has(w, "PAUSED") && !(model.vhosts.count(w[0]) && model.vhosts[w[0]]))
                bad("print-vhost", a + "VHOST PRINT shows\n" + s.text["VHOST PRINT"]);
        }
        limits(a, "LIMIT PRINT", "", s.text["LIMIT PRINT"]);
        limits(a, "LIMIT PRINT v1", "v1", s.text["LIMIT PRINT v1"]);
        limits(a, "LIMIT PRINT v2", "v2", s.text["LIMIT PRINT v2"]);
        for (auto &vh : VHOSTS) {
            auto eff = [&](std::map<string, long> &m) { return m.count(vh) ? (size_t)m[vh] : m.count("") ? (size_t)m[""] : std::numeric_limits<size_t>::max(); };
            if (dataRateLimitManager.getDataRateLimit(vh) != eff(model.dataLimit) || dataRateLimitManager.getDataRateAlarm(vh) != eff(model.dataAlarm))
                bad("data-limit", a + "the data rate limits in force are\n" + s.routes);
        }
        {
            string t = s.text["AUTH PRINT"];
            if (model.auth == "always") {
                if (t.find("http") != string::npos)
                    bad("print-auth", a + "AUTH PRINT shows " + t);
            }
            else
                for (auto &w : split(model.auth))
                    if (t.find(w) == string::npos)
                        bad("print-auth", a + "AUTH PRINT shows " + t);
        }
        for (auto d : {"INGRESS", "EGRESS"}) {
            string k = d;
            auto  *x = ctx(d);
            if (tls[k + " mode"] != std::to_string(SSL_CTX_get_verify_mode(x)))
                bad("tls-mode", a + k + " verify mode is " + std::to_string(SSL_CTX_get_verify_mode(x)) + ", should be " + tls[k + " mode"]);
            if (tls[k + " ciphers"] != ciphers(x))
                bad("tls-ciphers", a + k + " ciphers are " + ciphers(x));
        }
        // and it is what connections get
        for (auto &vh : VHOSTS) {
            if (model.connLimit.count(vh) || model.connLimit.count(""))
                continue;
            std::vector<string> want;
            string              farm;
            bool                r = model.route(vh, &want, &farm);
            auto                p = connect(vh);
            std::set<string>    got, exp;
            for (auto b : p.cand) got.insert(show(b));
            for (auto &b : want) exp.insert(model.backendLine(b));
            if ((p.status == Status::SUCCESS) != r || got != exp)
                bad("routing", a + "vhost " + vh + " is routed to " + p.str());
        }
    }

    void limits(const string &a, const string &cmd, const string &vh, const string &text)
    {
        for (int k = 0; k < 4; ++k) {
            bool  alarm = k & 1, data = k & 2;
            auto &m     = data ? (alarm ? model.dataAlarm : model.dataLimit) : (alarm ? model.connAlarm : model.connLimit);
            long  want  = m.count(vh) ? m[vh] : m.count("") ? m[""] : -1;
            bool  found = false;
            for (auto &x : lines(text)) {
                string u = upper(x);
                if (u.find("NO ") == 0)
                    continue;
                if ((u.find("ALARM") != string::npos) != alarm || (u.find("BYTES") != string::npos) != data)
                    continue;
                found = true;
                if (want < 0 || !has(words(x), std::to_string(want)))
                    bad("print-limit", a + cmd + " shows\n" + text);
            }
            if (!found && want >= 0)
                bad("print-limit", a + cmd + " shows\n" + text);
        }
    }

    // TLS, and the verbs which change nothing that is printed
    Model::Verdict verdict(const string &line, bool *known)
    {
        *known    = true;
        Strings w = split(line);
        string  v = w.empty() || line[0] == ' ' ? "" : upper(w[0]);
        if (v == "TLS") {
            string d = w.size() > 1 ? upper(w[1]) : "", k = w.size() > 2 ? upper(w[2]) : "";
            if (d != "INGRESS" && d != "EGRESS")
                return Model::REJECT;
            if (k == "VERIFY_MODE") {
                int m = 0;
                for (size_t i = 3; i < w.size(); ++i) {
                    string u = upper(w[i]);
                    if (u == "PEER") m |= SSL_VERIFY_PEER;
                    else if (u == "NONE") m |= 0;
                    else if (u == "FAIL_IF_NO_PEER_CERT") m |= SSL_VERIFY_FAIL_IF_NO_PEER_CERT;
                    else if (u == "CLIENT_ONCE") m |= SSL_VERIFY_CLIENT_ONCE;
                    else return Model::REJECT;
                }
                tls[d + " mode"] = std::to_string(m);
                return Model::ACCEPT;
            }
            if (k == "CIPHERS") {
                string s = w.size() > 3 ? upper(w[3]) : "";
                if (s == "PRINT")
                    return Model::ACCEPT;
                if (s == "SET") {
                    if (w.size() != 5 || line.find_first_of("\t\r") != string::npos || (w[4] != "nonsense" && w[4] != "zz" && w[4] != "ECDHE-RSA-AES128-GCM-SHA256" && w[4] != "AES128-SHA:AES256-SHA")) {
                        *known = false;  // unknown names in a list are skipped
                        return Model::UNKNOWN;
                    }
                    string r;
                    if (w[4] == "ECDHE-RSA-AES128-GCM-SHA256")
                        r = w[4] + ":";
                    else if (w[4] == "AES128-SHA:AES256-SHA")
                        r = w[4] + ":";
                    else
                        return Model::REJECT;
                    // TLS 1.3 suites are configured separately and stay listed
                    string now, rest;
                    std::istringstream is(tls[d + " ciphers"]);
                    while (std::getline(is, now, ':'))
                        if (now.find("TLS_") == 0)
                            rest += now + ":";
                    tls[d + " ciphers"] = rest + r;
                    return Model::ACCEPT;
                }
                return w.size() > 3 ? Model::UNKNOWN : Model::REJECT;
            }
            return w.size() < 4 ? Model::REJECT : Model::UNKNOWN;
        }
        for (auto k : {"BACKEND", "FARM", "MAP", "DATACENTER", "VHOST", "LIMIT", "AUTH"})
            if (v == k) {
                auto r = model.apply(line);
                *known = r != Model::UNKNOWN;
                return r;
            }
        return Model::UNKNOWN;  // changes nothing that is printed
    }

    // one line, with all checks
    void step(const string &line)
    {
        Snap   before = snap();
        string out    = send(line);
        bool   known;
        auto   v = verdict(line, &known);
        if (v == Model::REJECT && out.empty())
            bad("rejection-silent", "'" + line + "' should have been rejected but nothing was reported");
        if (!known) {
            c.outcome("left open");
            throw vx::EndExecution();  // odd number: anything but a crash or no answer will do
        }
        if (v != Model::ACCEPT) {
            Snap after = snap();
            if (before.all() != after.all())
                bad("changed", "'" + line + "' changed the configuration from\n" + before.all() + "\nto\n" + after.all());
        }
        compare(line);
        c.outcome(string(v == Model::ACCEPT ? "accepted" : v == Model::REJECT ? "rejected" : "no change") + ": " + (split(line).empty() ? "" : upper(split(line)[0])));
        c.step(vx::mix(vx::hashBytes(model.dump()), vx::hashBytes(line)));
    }
};

// '~' marks a keyword, whose letter case must not matter
const Strings VALID = {"~BACKEND ~ADD b7 dc7 10.0.7.7 5777",
                       "~BACKEND ~ADD b7 dc7 localhost 5777 ~SEND-PROXY",
                       "~BACKEND ~ADD b7 dc7 10.0.7.7 5777 ~TLS",
                       "~BACKEND ~ADD b7 dc7 10.0.7.7 5777 ~SEND-PROXY ~TLS",
                       "~BACKEND ~ADD b7 dc7 10.0.7.7 5777 ~TLS ~SEND-PROXY",
                       "~BACKEND ~ADD_DNS b7 dc7 some.host 5777",
                       "~BACKEND ~ADD_DNS b7 dc7 some.host 5777 ~SEND-PROXY ~TLS",
                       "~BACKEND ~DELETE b1",
                       "~BACKEND ~DELETE b2",
                       "~BACKEND ~PRINT",
                       "~FARM ~ADD f7 round-robin b1 b3",
                       "~FARM ~ADD f1 round-robin b2",
                       "~FARM ~PARTITION f1 datacenter-affinity",
                       "~FARM ~DELETE f1",
                       "~FARM ~PRINT",
                       "~MAP ~BACKEND v1 b2",
                       "~MAP ~BACKEND v3 b3",
                       "~MAP ~FARM v2 f2",
                       "~MAP ~FARM v3 f1",
                       "~MAP ~UNMAP v1",
                       "~MAP ~DEFAULT f1",
                       "~MAP ~REMOVE_DEFAULT",
                       "~MAP ~PRINT",
                       "~DATACENTER ~SET dc7",
                       "~DATACENTER ~PRINT",
                       "~VHOST ~PAUSE v1",
                       "~VHOST ~UNPAUSE v2",
                       "~VHOST ~PRINT",
                       "~VHOST ~FORCE_DISCONNECT v1",
                       "~VHOST ~BACKEND_DISCONNECT v1",
                       "~LIMIT ~CONN_RATE ~VHOST v1 17",
                       "~LIMIT ~CONN_RATE ~DEFAULT 19",
                       "~LIMIT ~CONN_RATE_ALARM ~VHOST v1 23",
                       "~LIMIT ~CONN_RATE_ALARM ~DEFAULT 29",
                       "~LIMIT ~DATA_RATE ~VHOST v1 3100",
                       "~LIMIT ~DATA_RATE ~DEFAULT 3700",
                       "~LIMIT ~DATA_RATE_ALARM ~VHOST v1 4100",
                       "~LIMIT ~DATA_RATE_ALARM ~DEFAULT 4300",
                       "~LIMIT ~DISABLE ~CONN_RATE ~VHOST v1",
                       "~LIMIT ~DISABLE ~CONN_RATE ~DEFAULT",
                       "~LIMIT ~DISABLE ~CONN_RATE_ALARM ~VHOST v1",
                       "~LIMIT ~DISABLE ~CONN_RATE_ALARM ~DEFAULT",
                       "~LIMIT ~DISABLE ~DATA_RATE ~VHOST v1",
                       "~LIMIT ~DISABLE ~DATA_RATE ~DEFAULT",
                       "~LIMIT ~DISABLE ~DATA_RATE_ALARM ~VHOST v1",
                       "~LIMIT ~DISABLE ~DATA_RATE_ALARM ~DEFAULT",
                       "~LIMIT ~PRINT",
                       "~LIMIT ~PRINT v1",
                       "~AUTH ~SERVICE auth.host 8080 /target?x=1",
                       "~AUTH ~ALWAYS_ALLOW",
                       "~AUTH ~PRINT",
                       "~CONN",
                       "~HELP",
                       "~LOG ~CONSOLE 3",
                       "~LOG ~FILE 5",
                       "~MAPHOSTNAME ~DNS",
                       "~STAT ~STOP ~SEND",
                       "~STAT ~ENABLE ~per-source",
                       "~STAT ~DISABLE ~per-source",
                       "~LISTEN ~STOP",
                       "~LISTEN ~STOP 1",
                       "~SESSION 999 ~PAUSE",
                       "~SESSION 999 ~DISCONNECT_GRACEFUL",
                       "~SESSION 999 ~FORCE_DISCONNECT",
                       "~TLS ~INGRESS ~VERIFY_MODE ~PEER",
                       "~TLS ~EGRESS ~VERIFY_MODE ~PEER ~FAIL_IF_NO_PEER_CERT",
                       "~TLS ~INGRESS ~VERIFY_MODE ~CLIENT_ONCE ~PEER",
                       "~TLS ~INGRESS ~VERIFY_MODE ~NONE",
                       "~TLS ~INGRESS ~CIPHERS ~PRINT",
                       "~TLS ~INGRESS ~CIPHERS ~SET ECDHE-RSA-AES128-GCM-SHA256",
                       "~TLS ~EGRESS ~CIPHERS ~SET AES128-SHA:AES256-SHA",
                       "~TLS ~INGRESS ~CERT_CHAIN_FILE /nonexistent/cert.pem",
                       "~TLS ~EGRESS ~KEY_FILE /nonexistent/key.pem",
                       "~TLS ~INGRESS ~RSA_KEY_FILE /nonexistent/key.pem",
                       "~TLS ~EGRESS ~CA_CERT_FILE /nonexistent/ca.pem",
                       "~TLS ~EGRESS ~TMP_DH_FILE /nonexistent/dh.pem"};

string render(const string &l, int form)
{
    string out;
    for (auto w : split(l)) {
        if (w[0] == '~') {
            w = w.substr(1);
            if (form == 1)
                w = [&] { string x = w; for (auto &ch : x) ch = tolower((unsigned char)ch); return x; }();
            else if (form == 2)
                for (size_t i = 0; i < w.size(); ++i) w[i] = i % 2 ? tolower((unsigned char)w[i]) : toupper((unsigned char)w[i]);
            else if (form == 3)
                for (size_t i = 0; i < w.size(); ++i) w[i] = i % 2 ? toupper((unsigned char)w[i]) : tolower((unsigned char)w[i]);
            else
                w = upper(w);
        }
        out += (out.empty() ? "" : " ") + w;
    }
    return out;
}

const Strings BASE[] = {
    {},
    {"BACKEND ADD b1 dc1 10.0.0.1 5671", "BACKEND ADD b2 dc2 10.0.0.2 5672 TLS", "BACKEND ADD b3 dc1 10.0.0.3 5673 SEND-PROXY", "FARM ADD f1 round-robin b1 b2", "FARM ADD f2 round-robin b3",
     "MAP FARM v1 f1", "MAP BACKEND v2 b2", "MAP DEFAULT f2", "DATACENTER SET dc1"},
    {"BACKEND ADD b1 dc1 10.0.0.1 5671", "BACKEND ADD b2 dc2 10.0.0.2 5672 TLS", "BACKEND ADD b3 dc1 10.0.0.3 5673 SEND-PROXY", "FARM ADD f1 round-robin b1 b2 b3", "FARM PARTITION f1 datacenter-affinity",
     "MAP FARM v1 f1", "MAP BACKEND v2 b9", "DATACENTER SET dc2", "VHOST PAUSE v2", "LIMIT CONN_RATE VHOST v1 7", "LIMIT CONN_RATE DEFAULT 8", "LIMIT CONN_RATE_ALARM VHOST v1 5",
     "LIMIT CONN_RATE_ALARM DEFAULT 6", "LIMIT DATA_RATE VHOST v1 700", "LIMIT DATA_RATE DEFAULT 800", "LIMIT DATA_RATE_ALARM VHOST v1 500", "LIMIT DATA_RATE_ALARM DEFAULT 600",
     "AUTH SERVICE old.host 81 /old", "TLS INGRESS VERIFY_MODE PEER"},
};

// lines made from a valid one by cutting it short or replacing a word
Strings mutants(const string &valid)
{
    Strings r;
    Strings w = split(render(valid, 0));
    for (int f = 0; f < 4; ++f) r.push_back(render(valid, f));
    auto str = [](const Strings &x) {
        string s;
        for (auto &y : x) s += (s.empty() ? "" : " ") + y;
        return s;
    };
    for (size_t n = 0; n < w.size(); ++n) {
        Strings x(w.begin(), w.begin() + n);
        r.push_back(str(x));
        r.push_back(str(x) + " ");
    }
    for (size_t i = 0; i < w.size(); ++i)
        for (auto g : {"zz", "0", "99999", "-", "DELETE", "b9", "v9", w[i].c_str()}) {
            Strings x = w;
            x[i]      = g == w[i].c_str() ? w[i] + "x" : string(g);
            r.push_back(str(x));
        }
    for (size_t i = 1; i < w.size(); ++i) {
        Strings x = w;
        x.erase(x.begin() + i);
        r.push_back(str(x));
        x = w;
        x.insert(x.begin() + i, w[i]);
        r.push_back(str(x));
    }
    string s = render(valid, 0);
    r.push_back(s + " ");
    r.push_back(s + " extra");
    r.push_back(" " + s);
    r.push_back(s + "\r");
    string t = s;
    for (size_t p = t.find(' '); p != string::npos; p = t.find(' ', p + 2)) t.replace(p, 1, "  ");
    r.push_back(t);
    t = s;
    for (size_t p = t.find(' '); p != string::npos; p = t.find(' ', p + 1))
        if (p > s.find(' '))
            t[p] = '\t';
    r.push_back(t);
    std::set<string> seen;
    Strings          u;
    for (auto &x : r)
        if (seen.insert(x).second && upper(x).find("EXIT") == string::npos && upper(x).find("LISTEN START") == string::npos && upper(x).find("STAT SEND") == string::npos)
            u.push_back(x);
    return u;
}

void setUp(C24World &w, int base)
{
    for (auto &l : BASE[base]) {
        w.send(l);
        bool k;
        w.verdict(l, &k);
    }
}

void each(Chooser &c, int base)
{
    C24World w(c);
    setUp(w, base);
    const string &v = VALID[c.choose(FREE, VALID.size(), "command")];
    static std::map<string, Strings> cache;
    auto                            &m = cache[v];
    if (m.empty())
        m = mutants(v);
    w.step(m[c.choose(FREE, m.size(), "form")]);
}

void seq(Chooser &c, int base, int depth)
{
    C24World w(c);
    setUp(w, base);
    for (int i = 0; i < depth; ++i) w.step(render(VALID[c.choose(FREE, VALID.size(), "command")], c.choose(vx::OP, 3, "form")));
}

const Strings ODD = {"", " ", "\t", "\r", "X", "backendd print", "BACKEND\tPRINT", "BACKENDPRINT", "\x01\x02\xff\xfe", "%s%n%s", "{{{{", "MAP FARM v1", "STAT", "STAT LISTEN", "STAT LISTEN xml", "STAT LISTEN json x",
                     "STAT LISTEN json a=b=c", "STAT SEND", "STAT SEND 127.0.0.1", "STAT SEND nohost 8125", "STAT SEND 127.0.0.1 x", "STAT SEND 127.0.0.1 8125 vhost=a", "STAT STOP", "STAT STOP X", "STAT ENABLE", "STAT DISABLE X",
                     "LISTEN", "LISTEN START", "LISTEN START 0", "LISTEN START -1", "LISTEN START 65536", "LISTEN START x", "LISTEN START_SECURE 70000", "LISTEN GO", "LISTEN STOP 99999999999999999999", "SESSION", "SESSION x PAUSE",
                     "SESSION -1 PAUSE", "SESSION 99999999999999999999999 PAUSE", "LIMIT CONN_RATE VHOST v1 99999999999999999999", "LIMIT CONN_RATE DEFAULT", "LIMIT DISABLE", "LIMIT DISABLE X", "LOG", "LOG X", "LOG X 3",
                     "LOG CONSOLE x", "AUTH SERVICE h 0 /t", "AUTH SERVICE h 65536 /t", "AUTH SERVICE h -5 /t", "AUTH SERVICE h 80", "AUTH", "MAPHOSTNAME", "MAPHOSTNAME X", "TLS", "TLS X Y", "TLS INGRESS", "TLS INGRESS KEY_FILE",
                     "TLS INGRESS VERIFY_MODE PEER X", "TLS EGRESS CIPHERS SET nonsense", "BACKEND ADD b9 dc nohost 5672", "BACKEND ADD b1 dc2 10.9.9.9 5999", "FARM ADD f9 round-robin b1 nob", "FARM ADD f9 robin b1", "FARM ADD f1 round-robin nob",
                     "FARM PARTITION f1 nopolicy", "FARM PARTITION nofarm datacenter-affinity", "BACKEND DELETE nob", "VHOST", "VHOST PAUSE", "VHOST STOP v1", "DATACENTER", "DATACENTER GET", "MAP", "MAP X Y Z"};

void odd(Chooser &c, int base)
{
    C24World w(c);
    setUp(w, base);
    int    k = c.choose(FREE, ODD.size() + 3, "line");
    string l = k < (int)ODD.size() ? ODD[k] : k == (int)ODD.size() ? string(100000, 'A') : k == (int)ODD.size() + 1 ? "MAP FARM " + string(70000, 'v') : "FARM ADD f9 round-robin" + [] {
        string s;
        for (int i = 0; i < 3000; ++i) s += " b" + std::to_string(i + 100);
        return s;
    }();
    w.step(l);
    // and the proxy still takes commands
    w.step("MAP BACKEND v1 b1");
}

// one line in two or three pieces, or from a client that does not wait for the answer
void pieces(Chooser &c)
{
    C24World w(c);
    setUp(w, 1);
    const char *ls[] = {"MAP BACKEND v1 b2", "FARM ADD f9 round-robin b1 b2 b3", "BACKEND PRINT", "NONSENSE", "LIMIT CONN_RATE DEFAULT 5"};
    string      l    = ls[c.choose(FREE, 5, "line")];
    string      t    = l + "\n";
    int         mode = c.choose(FREE, 3, "mode");
    int         cut  = c.choose(FREE, t.size(), "cut");
    string      name = string(1, '\0') + "verif-amqpprox-" + std::to_string(getpid());
    int         fd   = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    sockaddr_un a;
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    memcpy(a.sun_path, name.data(), name.size());
    (void)!::connect(fd, (sockaddr *)&a, offsetof(sockaddr_un, sun_path) + name.size());
    auto poll = [&] {
        for (int i = 0; i < 3; ++i) {
            w.control->ioContext().restart();
            w.control->ioContext().poll();
        }
    };
    auto put = [&](const string &s) { (void)!::send(fd, s.data(), s.size(), MSG_NOSIGNAL); };
    string out;
    bool   closed = false, complete = true;
    put(t.substr(0, cut));
    poll();
    if (mode == 0) {
        put(t.substr(cut));
        poll();
        char    buf[8192];
        ssize_t r;
        while ((r = recv(fd, buf, sizeof buf, 0)) > 0) out.append(buf, r);
        closed = r == 0;
        if (!closed) {
            close(fd);
            c.violate("C24", "unanswered", "'" + l + "' sent in two pieces was not answered");
        }
        close(fd);
    }
    else if (mode == 1) {  // gone before the rest of the line
        close(fd);
        complete = false;
    }
    else {  // gone before the answer
        put(t.substr(cut));
        close(fd);
    }
    poll();
    if (complete)
        w.model.apply(l);
    w.compare(l);
    w.step("MAP FARM v3 f1");
}

// statistics subscriptions through the control channel
void stats(Chooser &c)
{
    C24World w(c);
    setUp(w, 1);
    int         udp = socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family      = AF_INET;
    in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t sl       = sizeof in;
    if (bind(udp, (sockaddr *)&in, sizeof in) != 0) {
        close(udp);
        return;
    }
    getsockname(udp, (sockaddr *)&in, &sl);
    string           port = std::to_string(ntohs(in.sin_port));
    std::vector<int> listeners;
    int              sending = 0;
    auto             drain   = [&] {
        int  n = 0;
        char buf[65536];
        while (recv(udp, buf, sizeof buf, 0) >= 0) ++n;
        return n;
    };
    auto poll = [&] {
        for (int i = 0; i < 3; ++i) {
            w.control->ioContext().restart();
            w.control->ioContext().poll();
        }
    };
    struct Closer {
        std::vector<int> &v;
        int               u;
        ~Closer()
        {
            for (int f : v) close(f);
            close(u);
        }
    } closer{listeners, udp};
    for (int i = 0; i < 3; ++i) {
        switch (c.choose(FREE, 6, "op")) {
            case 0: w.send("STAT SEND 127.0.0.1 " + port); sending++; break;
            case 1: w.send("STAT STOP SEND"); sending = 0; break;
            case 2: w.send("STAT stop send"); sending = 0; break;
            case 3: {
                const char *f[] = {"json overall", "human all", "JSON vhost=v1", "HUMAN BufferPool", "json process", "human source=x"};
                string      l   = string("STAT LISTEN ") + f[c.choose(FREE, 6, "filter")] + "\n";
                string      name = string(1, '\0') + "verif-amqpprox-" + std::to_string(getpid());
                int         fd   = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
                sockaddr_un a;
                memset(&a, 0, sizeof a);
                a.sun_family = AF_UNIX;
                memcpy(a.sun_path, name.data(), name.size());
                (void)!::connect(fd, (sockaddr *)&a, offsetof(sockaddr_un, sun_path) + name.size());
                (void)!::send(fd, l.data(), l.size(), MSG_NOSIGNAL);
                poll();
                listeners.push_back(fd);
                c.log("> " + l);
                break;
            }
            case 4:
                if (!listeners.empty()) {
                    close(listeners.front());
                    listeners.erase(listeners.begin());
                    poll();
                    c.log("listener gone");
                }
                break;
            default: w.send("STAT STOP LISTEN"); break;
        }
        drain();
        w.eventSource.statisticsAvailable().emit(&w.statCollector);
        poll();
        int n = drain();
        if ((n > 0) != (sending > 0))
            c.violate("C24", "stat-send", std::to_string(n) + " statistics datagrams were sent with " + std::to_string(sending) + " receivers configured");
        for (int fd : listeners) {
            char    buf[65536];
            ssize_t r = recv(fd, buf, sizeof buf, 0);
            if (r <= 0)
                c.violate("C24", "stat-listen", "a statistics listener got nothing");
        }
        c.step(vx::mix(sending, listeners.size()));
    }
    w.compare("STAT");
    c.outcome("statistics");
}

void exits(Chooser &c)
{
    C24World w(c);
    setUp(w, 1);
    const char *ls[] = {"EXIT", "exit", "eXiT now", "EXITT", "EXI", " EXIT"};
    int         k    = c.choose(FREE, 6, "line");
    bool        closed = false;
    bool        was    = w.server->ioContext().stopped();
    string      out    = w.wire(ls[k], &closed);
    if (out.empty())
        c.violate("C24", "unanswered", string("'") + ls[k] + "' was not answered");
    if (was || w.server->ioContext().stopped() != (k < 3))
        c.violate("C24", "exit", string("'") + ls[k] + (k < 3 ? "' did not stop the server" : "' stopped the server"));
    c.outcome("exit");
}
}

void addC24(std::vector<Scenario> &out, bool th)
{
    auto add = [&](const string &n, const Budget &b, std::function<void(Chooser &)> f) {
        Scenario s;
        s.name   = n;
        s.budget = b;
        s.run    = f;
        out.push_back(s);
    };
    for (int b = 0; b < 3; ++b) {
        string B = " base " + std::to_string(b);
        add("each line" + B, Budget(0), [b](Chooser &c) { each(c, b); });
        add("odd lines" + B, Budget(0), [b](Chooser &c) { odd(c, b); });
        if (b || th)
            add("sequences" + B, Budget(b == 1 || th ? 1 : 0), [b, th](Chooser &c) { seq(c, b, th ? 3 : 2); });
    }
    add("pieces", Budget(0), pieces);
    add("statistics", Budget(0), stats);
    add("exit", Budget(0), exits);
}
}
