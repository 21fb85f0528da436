// The real Server with real loopback sockets, real TLS and a simulated clock.
// Clients and brokers are non-blocking sockets driven by the same thread, so
// every step happens where the scenario puts it.
#ifndef VERIF_NWORLD
#define VERIF_NWORLD
#include <../config/cworld.h>
#include <amqp.h>
#include <openssl/ssl.h>

namespace nw {
using std::string;
using vx::Chooser;

// wall clock, unaffected by virtual time (milliseconds)
int64_t realMs();
void    napMicros(int us);

X509     *testCert();
EVP_PKEY *testKey();
string    certPem();
string    keyPem();

// A range of ports no other worker uses and that is free now.
int portBase(int count);

// One end of a TCP connection that the code under test has the other end of.
struct Peer {
    int    fd   = -1;
    SSL   *ssl  = nullptr;
    bool   eof  = false;   // orderly end seen
    bool   reset = false;  // or an error
    bool   tlsOk = false;
    bool   tlsFailed = false;
    bool   closeNotify = false;
    string out;            // wire bytes not sent yet
    string in;             // plain bytes received
    string raw;            // wire bytes received
    bool   wantLine = false;  // a line in clear comes first
    string line;

    Peer() {}
    Peer(const Peer &) = delete;
    ~Peer() { drop(); }
    bool connectTo(int port);  // loopback, completes or fails at once
    void startTls(bool server);
    void write(const string &plain);  // queues
    void flush(size_t n = (size_t)-1);
    void recvAll();
    bool pump();  // flush and receive; true if anything moved
    void shut();                  // FIN (after flushing)
    void closeNotifyOnly();       // queue a TLS close_notify
    void drop();                  // RST, no TIME_WAIT left behind
    bool gone() const { return eof || reset; }
};

struct Listener {
    int fd   = -1;
    int port = 0;
    explicit Listener(int port = 0, bool tcpOnly = true);
    ~Listener();
    int accept();  // -1 if none is pending
};

// The next calls of accept() by the proxy fail with this error.
void failAccepts(int count, int error);

// An AMQP peer that completes the handshake by itself.
struct Agent {
    Peer        p;
    bool        broker  = false;
    bool        open    = false;
    bool        automatic = true;
    bool        answerClose = false;
    bool        hold = false;  // do not open yet
    string      held;
    bool        sentHeader = false, gotHeader = false;
    string      vhost   = "/";
    string      startOk;       // instead of the usual one
    size_t      pos     = 0;   // parsed so far
    string      app;           // bytes after the handshake
    std::vector<amqp::Frame> frames;
    bool        closed = false;  // got Close
    int         closeCode = 0;
    string      closeText;
    bool step();
};

struct Broker {
    Listener                           l;
    bool                               tls = false;
    bool                               line = false;  // expects a PROXY line
    explicit Broker(int port) : l(port) {}
    std::vector<std::unique_ptr<Agent>> conns;
    bool step();
};

struct Net {
    Chooser  &c;
    cw::World w;
    std::vector<std::unique_ptr<Broker>> brokers;
    std::vector<std::unique_ptr<Agent>>  clients;
    std::vector<std::function<bool()>>   extra;  // other peers
    explicit Net(Chooser &c, bool uds = false);
    ~Net();
    Broker &broker();
    Agent  &client(int port, const string &vhost, bool tls = false);
    void    cmd(const string &line);
    size_t  pollServer();  // one poll of the server's event loop
    // run everything until nothing moves
    void settle();
    // settle, for up to some real seconds, until the condition holds
    bool await(const std::function<bool()> &cond);
    void advance(int ms);
};

void addC12(std::vector<vx::Scenario> &out, bool th);
void addC12e(std::vector<vx::Scenario> &out, bool th);
void addC23(std::vector<vx::Scenario> &out, bool th);
void addC24s(std::vector<vx::Scenario> &out, bool th);
void addC23e(std::vector<vx::Scenario> &out, bool th);
void addC19(std::vector<vx::Scenario> &out, bool th);
void addC05(std::vector<vx::Scenario> &out, bool th);
void addC13e(std::vector<vx::Scenario> &out, bool th);
void addC17e(std::vector<vx::Scenario> &out, bool th);
void addC18e(std::vector<vx::Scenario> &out, bool th);
void addC16(std::vector<vx::Scenario> &out, bool th);
}
#endif
