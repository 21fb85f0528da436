#include "nworld.h"
#include <sys/syscall.h>

#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

namespace nw {

int64_t realMs()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000ll + ts.tv_nsec / 1000000;
}
void napMicros(int us)
{
    struct timespec ts = {0, us * 1000l};
    syscall(SYS_nanosleep, &ts, nullptr);
}

// ---------------------------------------------------------------- TLS
EVP_PKEY *testKey()
{
    static EVP_PKEY *k = EVP_EC_gen("P-256");
    return k;
}
X509 *testCert()
{
    static X509 *x = [] {
        X509 *x = X509_new();
        X509_set_version(x, 2);
        ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
        ASN1_TIME_set_string(X509_getm_notBefore(x), "200101000000Z");
        ASN1_TIME_set_string(X509_getm_notAfter(x), "490101000000Z");
        X509_NAME *n = X509_get_subject_name(x);
        X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char *)"verif", -1, -1, 0);
        X509_set_issuer_name(x, n);
        X509_set_pubkey(x, testKey());
        X509_sign(x, testKey(), EVP_sha256());
        return x;
    }();
    return x;
}
static string bioString(BIO *b)
{
    char *p;
    long  n = BIO_get_mem_data(b, &p);
    string s(p, n);
    BIO_free(b);
    return s;
}
string certPem()
{
    BIO *b = BIO_new(BIO_s_mem());
    PEM_write_bio_X509(b, testCert());
    return bioString(b);
}
string keyPem()
{
    BIO *b = BIO_new(BIO_s_mem());
    PEM_write_bio_PrivateKey(b, testKey(), nullptr, nullptr, 0, nullptr, nullptr);
    return bioString(b);
}
static SSL_CTX *peerCtx(bool server)
{
    static SSL_CTX *ctx[2] = {nullptr, nullptr};
    if (!ctx[server]) {
        SSL_CTX *x = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method());
        SSL_CTX_set_max_proto_version(x, TLS1_2_VERSION);
        SSL_CTX_set_verify(x, SSL_VERIFY_NONE, nullptr);
        SSL_CTX_set_session_cache_mode(x, SSL_SESS_CACHE_OFF);
        if (server) {
            SSL_CTX_use_certificate(x, testCert());
            SSL_CTX_use_PrivateKey(x, testKey());
        }
        ctx[server] = x;
    }
    return ctx[server];
}

// ---------------------------------------------------------------- ports
static bool canListen(int port)
{
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int on = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
    sockaddr_in a = {};
    a.sin_family  = AF_INET;
    a.sin_port    = htons(port);
    bool ok       = bind(fd, (sockaddr *)&a, sizeof a) == 0 && listen(fd, 1) == 0;
    close(fd);
    return ok;
}
int portBase(int count)
{
    static int base = 0;
    if (base)
        return base;
    for (int tries = 0; tries < 2000; ++tries) {
        int         b    = 10000 + ((getpid() + tries) % 1200) * 16;
        string      name = string(1, '\0') + "verif-ports-" + std::to_string(b);
        int         fd   = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_un a    = {};
        a.sun_family     = AF_UNIX;
        memcpy(a.sun_path, name.data(), name.size());
        if (bind(fd, (sockaddr *)&a, offsetof(sockaddr_un, sun_path) + name.size()) != 0) {
            close(fd);
            continue;
        }
        bool ok = true;
        for (int i = 0; i < count && ok; ++i) ok = canListen(b + i);
        if (ok)
            return base = b;  // the name stays bound for the life of the process
        close(fd);
    }
    fprintf(stderr, "no free ports\n");
    _exit(2);
}

// ---------------------------------------------------------------- peer
static void prepare(int fd)
{
    fcntl(fd, F_SETFL, O_NONBLOCK);
    fcntl(fd, F_SETFD, FD_CLOEXEC);
    int on = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
}
bool Peer::connectTo(int port)
{
    fd            = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a = {};
    a.sin_family  = AF_INET;
    a.sin_port    = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    struct timeval tv = {10, 0};
    setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
    int r = ::connect(fd, (sockaddr *)&a, sizeof a);
    if (r != 0) {
        ::close(fd);
        fd    = -1;
        reset = true;
        return false;
    }
    prepare(fd);
    return true;
}
void Peer::startTls(bool server)
{
    ssl = SSL_new(peerCtx(server));
    SSL_set_bio(ssl, BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem()));
    if (server)
        SSL_set_accept_state(ssl);
    else
        SSL_set_connect_state(ssl);
    if (!server)
        SSL_do_handshake(ssl);
    char   b[8192];
    int    n;
    while ((n = BIO_read(SSL_get_wbio(ssl), b, sizeof b)) > 0) out.append(b, n);
}
void Peer::write(const string &plain)
{
    if (!ssl) {
        out += plain;
        return;
    }
    if (plain.size())
        SSL_write(ssl, plain.data(), plain.size());
    char b[8192];
    int  n;
    while ((n = BIO_read(SSL_get_wbio(ssl), b, sizeof b)) > 0) out.append(b, n);
}
void Peer::flush(size_t n)
{
    n = std::min(n, out.size());
    if (fd < 0 || !n)
        return;
    ssize_t r = ::send(fd, out.data(), n, MSG_NOSIGNAL);
    if (r > 0)
        out.erase(0, r);
    else if (r < 0 && errno != EAGAIN)
        out.clear();
}
void Peer::recvAll()
{
    if (fd < 0)
        return;
    char    b[16384];
    ssize_t r;
    while ((r = ::recv(fd, b, sizeof b, 0)) > 0) {
        raw.append(b, r);
        string d(b, r);
        if (wantLine) {
            line += d;
            size_t e = line.find("\r\n");
            if (e == string::npos)
                continue;
            d = line.substr(e + 2);
            line.resize(e + 2);
            wantLine = false;
        }
        if (!ssl)
            in += d;
        else if (d.size())
            BIO_write(SSL_get_rbio(ssl), d.data(), d.size());
    }
    if (r == 0)
        eof = true;
    else if (errno != EAGAIN)
        reset = true;
    if (ssl && !tlsFailed) {
        ERR_clear_error();
        if (!tlsOk) {
            int x = SSL_do_handshake(ssl);
            if (x == 1)
                tlsOk = true;
            else if (SSL_get_error(ssl, x) == SSL_ERROR_SSL)
                tlsFailed = true;
        }
        if (tlsOk) {
            int n;
            while ((n = SSL_read(ssl, b, sizeof b)) > 0) in.append(b, n);
            if (SSL_get_shutdown(ssl) & SSL_RECEIVED_SHUTDOWN)
                closeNotify = true;
        }
        int n;
        while ((n = BIO_read(SSL_get_wbio(ssl), b, sizeof b)) > 0) out.append(b, n);
        ERR_clear_error();
    }
}
bool Peer::pump()
{
    if (fd < 0)
        return false;
    size_t a = out.size(), b = raw.size();
    bool   e = gone();
    flush();
    recvAll();
    if (out.size() && !gone())
        flush();
    return out.size() != a || raw.size() != b || gone() != e;
}
void Peer::closeNotifyOnly()
{
    SSL_shutdown(ssl);
    char b[4096];
    int  n;
    while ((n = BIO_read(SSL_get_wbio(ssl), b, sizeof b)) > 0) out.append(b, n);
}
void Peer::shut()
{
    if (fd >= 0)
        ::shutdown(fd, SHUT_WR);
}
void Peer::drop()
{
    if (ssl) {
        SSL_free(ssl);
        ssl = nullptr;
    }
    if (fd >= 0) {
        struct linger l = {1, 0};
        setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        ::close(fd);
        fd = -1;
    }
}

Listener::Listener(int p, bool)
{
    fd     = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
    int on = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
    sockaddr_in a     = {};
    a.sin_family      = AF_INET;
    a.sin_port        = htons(p);
    a.sin_addr.s_addr = p ? htonl(INADDR_ANY) : htonl(INADDR_LOOPBACK);
    if (bind(fd, (sockaddr *)&a, sizeof a) != 0 || listen(fd, 64) != 0) {
        fprintf(stderr, "cannot listen on %d\n", p);
        _exit(2);
    }
    socklen_t l = sizeof a;
    getsockname(fd, (sockaddr *)&a, &l);
    port = ntohs(a.sin_port);
}
Listener::~Listener() { ::close(fd); }
int Listener::accept()
{
    int r = (int)syscall(SYS_accept4, fd, nullptr, nullptr, 0);
    if (r >= 0)
        prepare(r);
    return r;
}

// ---------------------------------------------------------------- faults
static int acceptFaults = 0, acceptError = 0;
void failAccepts(int count, int error)
{
    acceptFaults = count;
    acceptError  = error;
}
}
extern "C" int accept(int fd, struct sockaddr *a, socklen_t *l)
{
    if (nw::acceptFaults > 0) {
        --nw::acceptFaults;
        errno = nw::acceptError;
        return -1;
    }
    return (int)syscall(SYS_accept4, fd, a, l, 0);
}
namespace nw {

// ---------------------------------------------------------------- agents
bool Agent::step()
{
    bool moved = p.pump();
    if (!automatic)
        return moved;
    if (!broker && !sentHeader && (!p.ssl || p.tlsOk)) {
        sentHeader = true;
        p.write(amqp::header());
        moved = true;
    }
    if (broker && !gotHeader) {
        if (p.in.size() < 8)
            return moved;
        gotHeader = true;
        pos       = 8;
        p.write(amqp::start());
        moved = true;
    }
    amqp::Frame f;
    int         r;
    while ((r = amqp::parseFrame(p.in, &pos, &f)) == 1) {
        moved = true;
        frames.push_back(f);
        if (open)
            app += p.in.substr(f.begin, f.end - f.begin);
        if (broker) {
            if (f.isConn(amqp::STARTOK))
                p.write(amqp::tune());
            else if (f.isConn(amqp::OPEN)) {
                p.write(amqp::openOk());
                open = true;
            }
        }
        else {
            if (f.isConn(amqp::START))
                p.write(startOk.empty() ? amqp::startOk({{"product", amqp::vS("t")}}, "PLAIN", string("\0u\0p", 4), "en_US") : startOk);
            else if (f.isConn(amqp::TUNE))
            {
                held = amqp::tuneOk() + amqp::open(vhost);
                if (!hold)
                    p.write(held);
            }
            else if (f.isConn(amqp::OPENOK))
                open = true;
        }
        if (f.isConn(amqp::CLOSE)) {
            closed = true;
            amqp::parseClose(f.args, &closeCode, &closeText);
            if (answerClose)
                p.write(amqp::closeOk());
        }
    }
    if (moved)
        p.pump();
    return moved;
}
bool Broker::step()
{
    bool moved = false;
    int  fd;
    while ((fd = l.accept()) >= 0) {
        std::unique_ptr<Agent> a(new Agent);
        a->broker = true;
        a->p.fd   = fd;
        a->p.wantLine = line;
        if (tls)
            a->p.startTls(true);
        conns.push_back(std::move(a));
        moved = true;
    }
    for (auto &a : conns) moved |= a->step();
    return moved;
}

// ---------------------------------------------------------------- net
Net::Net(Chooser &c, bool uds) : c(c), w(c, uds, true)
{
    SSL_CTX *i = w.server->ingressTlsContext().native_handle();
    SSL_CTX_use_certificate(i, testCert());
    SSL_CTX_use_PrivateKey(i, testKey());
}
Net::~Net()
{
    failAccepts(0, 0);
    clients.clear();
    brokers.clear();
}
Broker &Net::broker()
{
    // fixed ports, so that connections in TIME_WAIT do not use them all up
    brokers.emplace_back(new Broker(portBase(16) + 8 + brokers.size()));
    return *brokers.back();
}
Agent &Net::client(int port, const string &vhost, bool tls)
{
    clients.emplace_back(new Agent);
    Agent &a = *clients.back();
    a.vhost  = vhost;
    if (a.p.connectTo(port) && tls)
        a.p.startTls(false);
    return a;
}
void Net::cmd(const string &line) { w.cmd(line); }
size_t Net::pollServer()
{
    w.server->ioContext().restart();
    return w.server->ioContext().poll();
}
void Net::settle()
{
    for (int idle = 0, n = 0; idle < 3 && n < 5000; ++n) {
        bool moved = pollServer() != 0;
        for (auto &b : brokers) moved |= b->step();
        for (auto &a : clients) moved |= a->step();
        for (auto &x : extra) moved |= x();
        idle = moved ? 0 : idle + 1;
    }
}
bool Net::await(const std::function<bool()> &cond)
{
    int64_t t = realMs();
    for (;;) {
        settle();
        if (cond())
            return true;
        if (realMs() - t > 4000)
            return false;
        napMicros(300);
    }
}
void Net::advance(int ms)
{
    vtime::advance(ms * 1000000ll);
    c.log("+" + std::to_string(ms) + " ms");
}
}
