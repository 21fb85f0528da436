// What a well-formed handshake message is, and the form its arguments are
// passed on in.  Written from the specification, independent of the code.
#ifndef VERIF_WELLFORMED
#define VERIF_WELLFORMED
#include <amqp.h>

namespace wf {
using std::string;
// ---- reference: what a well-formed table is, and the form it is passed on in
const int DEEP = 20;  // nesting up to here must be accepted; beyond, it is the proxy's choice

inline bool canonValue(const string &s, size_t *p, string *out, int depth, int *deepest);
inline bool canonTable(const string &body, string *out, int depth, int *deepest)
{
    *deepest = std::max(*deepest, depth);
    if (depth > 2000)
        return false;
    size_t p = 0;
    string o;
    while (p < body.size()) {
        size_t n = (unsigned char)body[p];
        if (body.size() - p - 1 < n)
            return false;
        o += body.substr(p, 1 + n);
        p += 1 + n;
        if (!canonValue(body, &p, &o, depth, deepest))
            return false;
    }
    *out += amqp::lstr(o);
    return true;
}
inline bool canonArray(const string &body, string *out, int depth, int *deepest)
{
    *deepest = std::max(*deepest, depth);
    if (depth > 2000)
        return false;
    size_t p = 0;
    string o;
    while (p < body.size())
        if (!canonValue(body, &p, &o, depth, deepest))
            return false;
    *out += amqp::lstr(o);
    return true;
}
inline bool canonValue(const string &s, size_t *p, string *out, int depth, int *deepest)
{
    size_t len;
    if (!amqp::valueLen(s, *p, &len))
        return false;
    string v = s.substr(*p, len);
    *p += len;
    switch (v[0]) {
    case 't': *out += string("t") + (v[1] ? '\1' : '\0'); return true;
    case 'U': *out += "s" + v.substr(1); return true;  // documented alias
    case 'F':
    case 'A': {
        *out += v[0];
        string body = v.substr(5);
        return v[0] == 'F' ? canonTable(body, out, depth + 1, deepest) : canonArray(body, out, depth + 1, deepest);
    }
    default: *out += v; return true;
    }
}

struct Reader {
    const string &s;
    size_t        p = 0;
    bool          ok = true;
    string        out;
    int           deepest = 0;
    explicit Reader(const string &x)
    : s(x)
    {
    }
    void raw(size_t n)
    {
        if (!ok || s.size() - p < n) {
            ok = false;
            return;
        }
        out += s.substr(p, n);
        p += n;
    }
    void shortStr()
    {
        if (!ok || p >= s.size()) {
            ok = false;
            return;
        }
        raw(1 + (unsigned char)s[p]);
    }
    void longStr()
    {
        if (!ok || s.size() - p < 4) {
            ok = false;
            return;
        }
        raw(4 + (size_t)amqp::rd32(s, p));
    }
    void table()
    {
        if (!ok || s.size() - p < 4) {
            ok = false;
            return;
        }
        size_t n = amqp::rd32(s, p);
        if (s.size() - p - 4 < n || !canonTable(s.substr(p + 4, n), &out, 0, &deepest)) {
            ok = false;
            return;
        }
        p += 4 + n;
    }
};

enum Msg { START, STARTOK, TUNE, TUNEOK, OPEN, OPENOK, CLOSE, MSGS };
static const char *msgName[] = {"Start", "StartOk", "Tune", "TuneOk", "Open", "OpenOk", "Close"};
static const int msgId[]   = {10, 11, 30, 31, 40, 41, 50};

// the canonical arguments of a message; false: not well-formed
inline bool reference(int m, const string &a, string *out, int *deepest)
{
    Reader r(a);
    switch (m) {
    case START: r.raw(2); r.table(); r.longStr(); r.longStr(); break;
    case STARTOK: r.table(); r.shortStr(); r.longStr(); r.shortStr(); break;
    case TUNE:
    case TUNEOK: r.raw(8); break;
    case OPEN: r.shortStr(); r.out += string(2, '\0'); break;  // reserved arguments are not passed on
    case OPENOK: r.shortStr(); r.out = string(1, '\0'); break;
    case CLOSE: r.raw(2); r.shortStr(); r.raw(4); break;
    }
    *out     = r.out;
    *deepest = r.deepest;
    return r.ok;
}

}
#endif
