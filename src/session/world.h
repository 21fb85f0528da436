// The simulated world around real Session objects: network, clients, brokers,
// name service, auth service, operator and clock.  See DESIGN.md.
#ifndef VERIF_WORLD
#define VERIF_WORLD
#include <amqp.h>
#include <explore.h>
#include <prelude.h>
#include <vtime.h>

#include <amqpprox_affinitypartitionpolicy.h>
#include <amqpprox_authinterceptinterface.h>
#include <amqpprox_backend.h>
#include <amqpprox_backendset.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_bufferpool.h>
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_connectionselector.h>
#include <amqpprox_datacenter.h>
#include <amqpprox_dataratelimitmanager.h>
#include <amqpprox_defaultauthintercept.h>
#include <amqpprox_dnsresolver.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_farm.h>
#include <amqpprox_farmstore.h>
#include <amqpprox_maybesecuresocketadaptor.h>
#include <amqpprox_partitionpolicy.h>
#include <amqpprox_resourcemapper.h>
#include <amqpprox_robinbackendselector.h>
#include <amqpprox_session.h>
#include <amqpprox_socketintercept.h>
#include <amqpprox_socketinterceptinterface.h>
#include <authrequest.pb.h>
#include <authresponse.pb.h>
#include <sasl.pb.h>

namespace world {
using namespace Bloomberg::amqpprox;
using std::string;
using boost::system::error_code;
using tcp      = boost::asio::ip::tcp;
using endpoint = tcp::endpoint;
namespace aerr = boost::asio::error;

endpoint ep(const string &ip, int port);

// ---- configuration of one scenario ------------------------------------------------

enum Wait { W_NONE, W_START, W_TUNE, W_OPENOK, W_DATA, W_HEADER, W_STARTOK, W_OPEN, W_NEVER };
enum Tag { T_HANDSHAKE, T_EARLY, T_DATA, T_CLOSE, T_RAW };
struct Item {
    Wait   wait;
    size_t arg;
    string bytes;
    Tag    tag;
};

struct BackendCfg {
    string name, dc, host, ip;
    int    port;
    bool   proxy = false, tls = false, dns = false;
};
struct FarmCfg {
    string              name;
    std::vector<string> members;
    bool                affinity = false;
};

enum OpKind { OP_PAUSE, OP_UNPAUSE, OP_FORCE, OP_GRACEFUL, OP_BACKEND_DISC };
struct Op {
    OpKind kind;
    int    session = 0;
};

enum FaultBits {
    F_CLIENT_EOF = 1,
    F_CLIENT_RST = 2,
    F_BROKER_EOF = 4,
    F_BROKER_RST = 8,
    F_CONNECT    = 16,   // connect attempts may fail
    F_TLS        = 32,   // TLS handshakes may fail
    F_DNS        = 64,   // resolutions may fail or come back empty
    F_WRITE      = 256,  // writes may fail
    F_SOCKOPT    = 128,  // endpoint queries / socket options may fail after connect
};

// How a peer reacts to a Close it receives
enum CloseReaction { R_CLOSEOK, R_CLOSE_THEN_OK, R_CLOSE_ONLY, R_EOF, R_RST, R_SILENT };

struct Cfg {
    std::vector<BackendCfg>               backends;
    std::vector<FarmCfg>                  farms;
    std::map<string, string>              vhostFarm, vhostBackend;
    string                                defaultFarm;
    std::map<string, std::vector<string>> dns;  // host -> addresses
    string                                localDc = "dc1";

    int                      nClients = 1;
    bool                     sequential = false;  // next client starts when the previous is open or over
    bool                     clientTls  = false;
    std::vector<endpoint>    clientEp;  // per client
    string                   vhost = "vh";
    std::vector<string>      vhosts;    // per client, overrides vhost
    std::vector<amqp::Field> props  = {{"product", amqp::vS("cli")}, {"connection_name", amqp::vS("conn-1")}};
    string                   mech   = "PLAIN";
    string                   creds  = string("\0user\0pass", 10);
    string                   locale = "en_US";
    int                      tuneCh = 2047;
    uint32_t                 tuneFm = 131072;
    int                      tuneHb = 60;
    bool                     stdHandshake = true;
    bool                     stdBroker    = true;
    bool                     pipelineOpen = true;  // TuneOk and Open sent in one go
    std::vector<Item>        clientScript;         // after (or instead of) the handshake
    std::vector<Item>        brokerScript;
    std::vector<Item>        clientEarly;          // sent once, any time before OpenOk (heartbeats)
    CloseReaction            clientOnClose = R_CLOSEOK, brokerOnClose = R_CLOSEOK;
    bool                     brokerHangsUp = false;  // EOF after its answer to a Close
    bool                     clientHangsUp = false;  // EOF after its script is done

    size_t readChunk  = 0;  // default arrival granularity, 0: everything
    size_t writeChunk = 0;  // default write granularity, 0: everything
    bool   bucketPool = false;
    bool   seg = false, wseg = false, spurious = false, avail = false, block = false;
    bool     closeErrors = false;  // shutting down and closing report errors
    int    faults    = 0;
    int    maxFaults = 1;
    // what a lost connection and a failed write report
    boost::system::error_code lostError = boost::asio::error::connection_reset, writeError = boost::asio::error::broken_pipe;
    std::vector<Op> ops;
    int    opsFrom = 0;  // ops become possible once this many bytes were received by the client
    bool   fakeAuth = false;
    std::vector<authproto::AuthResponse> authAnswers;  // FREE choice when more than one
    bool   authInline = false;
    int    policy    = 0;
    int    timeSteps = 0;
    int    limitPerSec = -1;  // connection limit on the vhost
    bool   expectRefused = false;  // the client must be refused: how?
    int    refuseCode    = 0;      // Close code it must see, 0: none
    bool   refuseHeader  = false;  // the protocol header instead of a Close
    string refuseText;             // what the Close must contain
    bool   exactText     = false;
    bool   noBroker      = false;  // no backend may be contacted at all
    int               badSession = -1;   // this one follows scripts of its own
    std::vector<Item> badClient, badBroker;
};

struct World;
struct SessionCtx;

// ---- simulated socket --------------------------------------------------------------

struct FakeSocket : SocketInterceptInterface {
    World      *w   = nullptr;
    SessionCtx *ctx = nullptr;
    bool        ingress = false;

    bool isOpen = false, connected = false, secure = false, hsStarted = false, hsDone = false;
    bool shutdownSent = false;
    bool everClosed   = false;
    int  family       = 0;
    endpoint localEp, remoteEp;

    string inbound;   // arrived, not yet read by the proxy
    string wire;      // sent by the peer, not yet arrived
    bool   wireEof = false, eof = false, rst = false;

    struct PWrite {
        const char *p;
        size_t      n;
        string      snapshot;
        AsyncWriteHandler h;
    };
    std::deque<PWrite>               blocked;
    int                              writesInFlight = 0;  // initiated, handler not yet run
    std::vector<AsyncReadHandler>    reads;
    AsyncConnectHandler              connectH;
    endpoint                         connectEp;
    AsyncHandshakeHandler            hsH;
    AsyncShutdownHandler             shutH;
    size_t                           readTotal = 0;  // bytes the proxy took from this socket

    void   setSecure(bool s) override { secure = s; }
    void   refreshSocketContext() override {}
    endpoint remote_endpoint(error_code &ec) override;
    endpoint local_endpoint(error_code &ec) override;
    void   close(error_code &ec) override;
    void   setDefaultOptions(error_code &ec) override;
    std::size_t available(error_code &ec) override;
    void   async_connect(const endpoint &e, AsyncConnectHandler h) override;
    void   async_handshake(handshake_type t, AsyncHandshakeHandler h) override;
    void   async_shutdown(AsyncShutdownHandler h) override;
    void   async_write_some(const std::vector<std::pair<const void *, size_t>> &b, AsyncWriteHandler h) override;
    std::size_t read_some(const std::vector<std::pair<void *, size_t>> &b, error_code &ec) override;
    void   async_read_some(const std::vector<std::pair<void *, size_t>> &b, AsyncReadHandler h) override;

    bool  readable() const { return !inbound.empty() || eof || rst; }
    void  checkReadable();
    void  doRst();
    void  postWrite(AsyncWriteHandler h, error_code ec, size_t n);
    void  transmit(const char *p, size_t n);
    void  reset();
    const char *name() const { return ingress ? "client-socket" : "broker-socket"; }
};

// ---- peers ---------------------------------------------------------------------------

struct BrokerConn {
    endpoint                 to;
    string                   rx;
    size_t                   pos = 0;
    bool                     sawProxy = false, sawHeader = false;
    string                   proxyLine;
    bool                     headerUnderTls = false;
    std::vector<amqp::Frame> frames;
    size_t                   script = 0;  // next broker item
    bool                     startOk = false, tuneOk = false, open = false, sawClose = false, sawCloseOk = false;
    size_t                   openEnd = 0;  // offset of the first byte after Open
    string                   dataTx;       // what this broker sent after OpenOk
    bool                     openOkSent = false, dead = false, reacted = false, sentClose = false;
    int                      heartbeatsBeforeOpenOk = 0;
    bool                     garbage = false;
    bool                     proxyClosed = false;
    int                      closeCode = 0, closeCount = 0;
    size_t                   closeAt = 0;
};

struct ClientPeer {
    string                   rx;
    size_t                   pos = 0;
    std::vector<amqp::Frame> frames;
    std::vector<Item>        script;
    size_t                   next = 0;
    size_t                   early = 0;
    bool                     start = false, tune = false, openOk = false, sawClose = false, sawCloseOk = false;
    size_t                   openOkEnd = 0;
    int                      closeCode = 0;
    string                   closeText;
    int                      closeCount = 0;
    size_t                   closeAt    = 0;
    string                   dataTx;
    int                      earlySent = 0;
    bool                     openSent = false, dead = false, reacted = false, sentClose = false;
    bool                     headerEcho = false, garbage = false, proxyClosed = false;
    string                   afterClose;
};

struct ConnectAttempt {
    endpoint to;
    string   backend;
    bool     ok = false, decided = false;
    int      session = 0;
};

struct SessionCtx {
    int                                         id = 0;
    FakeSocket                                  ing, egr;
    SocketIntercept                             ingI, egrI;
    std::shared_ptr<MaybeSecureSocketAdaptor<>> ingA, egrA;
    std::shared_ptr<Session>                    session;
    std::weak_ptr<Session>                      weak;
    ClientPeer                                  client;
    std::vector<std::unique_ptr<BrokerConn>>    conns;
    BrokerConn                                 *conn = nullptr;
    std::vector<ConnectAttempt>                 attempts;
    string                                      vhost;
    bool                                        started = false;
    // causes that may have ended the session
    bool cClientGone = false, cBrokerGone = false, cProxy = false, cGraceful = false, cWriteErr = false, cWriteFault = false;
    bool clientClosed = false, brokerDone = false;
    bool gracefulOpen = false;  // asked for while the connection was open and undisturbed
    bool everPaused = false, paused = false;
    bool connectWhilePaused = false;
    bool cutBackend = false;
    bool cutConnecting = false;  // BACKEND DISCONNECT while it was connecting
    bool finishedSeen = false;
    bool   waitingAtUnpause = false, decidedAtUnpause = false;
    size_t readAtPause = 0, handshakeBytes = 0;
    int  authAsked = 0, authAnswered = 0;
    std::vector<authproto::AuthRequest>                        authReqs;
    std::vector<AuthInterceptInterface::ReceiveResponseCb>     authCbs;
    bool authAllowed = false, authDenied = false;
    authproto::AuthResponse authResp;
    SessionCtx(World *w, int i);
};

struct FakeAuth : AuthInterceptInterface {
    World *w;
    FakeAuth(boost::asio::io_context &io, World *ww)
    : AuthInterceptInterface(io)
    , w(ww)
    {
    }
    void authenticate(const authproto::AuthRequest req, const ReceiveResponseCb &cb) override;
    void print(std::ostream &) const override {}
};

// ---- the world -------------------------------------------------------------------------

struct World {
    vx::Chooser &c;
    const Cfg   &cfg;

    BufferPool                pool;
    boost::asio::io_context   ioc;
    EventSource               events;
    BackendStore              backendStore;
    FarmStore                 farmStore;
    ResourceMapper            mapper;
    ConnectionLimiterManager  limiter;
    ConnectionSelector        selector;
    DNSResolver               dns;
    DataRateLimitManager      rates;
    RobinBackendSelector      robin;
    Datacenter                datacenter;
    AffinityPartitionPolicy   affinity;
    std::shared_ptr<HostnameMapper> hostMapper;
    std::shared_ptr<AuthInterceptInterface> auth;
    std::vector<std::unique_ptr<SessionCtx>> ss;
    int                       tearingDown = 0;
    size_t                    nextOp = 0;
    int                       faultsLeft = 0, timeLeft = 0;
    int                       opsRun = 0;
    bool                      faulted = false;
    bool                      noChoices = false;
    bool                      hsFailed  = false;
    std::set<std::pair<int, string>> resolveFailed;
    SessionCtx               *running = nullptr;  // session whose resolve is in progress

    // pending violation (raised from inside the code under test)
    bool   bad = false;
    string badProp, badKey, badMsg;
    std::vector<std::function<void(World &)>> onQuiescence;

    World(vx::Chooser &ch, const Cfg &cf);
    ~World();

    void fail(const char *prop, const string &key, const string &msg);
    void checkBad();
    bool queued();
    int  choose(vx::Kind k, int n, const char *l) { return noChoices ? 0 : c.choose(k, n, l); }

    void startClient(int i);
    bool step();      // one environment or event-loop step; false at quiescence
    void runToQuiescence();
    void finish();    // end-of-run: hang up everything, drop sessions, check lifetime
    uint64_t fingerprint();

    void clientRx(SessionCtx &s, const char *p, size_t n);
    void brokerRx(SessionCtx &s, const char *p, size_t n);
    bool clientStepEnabled(SessionCtx &s);
    void clientStep(SessionCtx &s);
    bool brokerStepEnabled(SessionCtx &s);
    void brokerStep(SessionCtx &s);
    bool clientWait(SessionCtx &s, const Item &it);
    bool brokerWait(SessionCtx &s, const Item &it);
    void deliver(FakeSocket &f);
    void doOp(const Op &op);
    void answerAuth(SessionCtx &s);
    void invariants(SessionCtx &s);
    const BackendCfg *backendOf(const endpoint &e);
    std::vector<const BackendCfg *> farmMembers(const string &farm);
    SessionCtx &S(int i = 0) { return *ss[i]; }
    bool isFinished(SessionCtx &s) { return s.session && s.session->finished(); }
};

// Runs the whole scenario: build, start, run, check, tear down.
using Final = std::function<void(World &)>;
void runScenario(vx::Chooser &c, const Cfg &cfg, const Final &final = Final());

Cfg  baseCfg();
string data(int n, char fill = 'x', int type = 3, int ch = 1);  // a content frame with n payload bytes
}
#endif
