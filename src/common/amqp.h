// A small AMQP 0-9-1 codec, written from the specification and independent of
// the code under test.  Used by the simulated peers and the oracles.
#ifndef VERIF_AMQP
#define VERIF_AMQP
#include <prelude.h>

namespace amqp {
using std::string;

inline string u8(unsigned v) { return string(1, (char)v); }
inline string u16(unsigned v) { return u8(v >> 8) + u8(v & 255); }
inline string u32(uint32_t v) { return u16(v >> 16) + u16(v & 65535); }
inline string u64(uint64_t v) { return u32(v >> 32) + u32((uint32_t)v); }
inline string sstr(const string &s) { return u8(s.size()) + s; }
inline string lstr(const string &s) { return u32(s.size()) + s; }

// One field of a table in wire form: type byte + value
struct Field {
    string name;
    string value;  // includes the leading type octet
};
inline string vS(const string &s) { return "S" + lstr(s); }
inline string vt(bool b) { return string("t") + (b ? '\1' : '\0'); }
inline string tableBody(const std::vector<Field> &f)
{
    string r;
    for (auto &x : f) r += sstr(x.name) + x.value;
    return r;
}
inline string table(const std::vector<Field> &f) { return lstr(tableBody(f)); }
inline string vF(const std::vector<Field> &f) { return "F" + table(f); }

inline string frame(int type, int ch, const string &payload)
{
    return u8(type) + u16(ch) + u32(payload.size()) + payload + "\xce";
}
inline string method(int cls, int m, const string &args, int ch = 0)
{
    return frame(1, ch, u16(cls) + u16(m) + args);
}
inline string heartbeat() { return frame(8, 0, ""); }
inline string header() { return string("AMQP\x00\x00\x09\x01", 8); }
inline string legacyHeader() { return string("AMQP\x01\x01\x00\x09", 8); }

enum { START = 10, STARTOK = 11, TUNE = 30, TUNEOK = 31, OPEN = 40, OPENOK = 41, CLOSE = 50, CLOSEOK = 51 };

inline string start(const std::vector<Field> &props = {{"product", vS("FakeMQ")}}, const string &mechs = "PLAIN AMQPLAIN",
                    const string &locales = "en_US")
{
    return method(10, START, u8(0) + u8(9) + table(props) + lstr(mechs) + lstr(locales));
}
inline string startOkArgs(const std::vector<Field> &props, const string &mech, const string &resp, const string &locale)
{
    return table(props) + sstr(mech) + lstr(resp) + sstr(locale);
}
inline string startOk(const std::vector<Field> &props, const string &mech, const string &resp, const string &locale)
{
    return method(10, STARTOK, startOkArgs(props, mech, resp, locale));
}
inline string tune(int ch = 2047, uint32_t fm = 131072, int hb = 60) { return method(10, TUNE, u16(ch) + u32(fm) + u16(hb)); }
inline string tuneOk(int ch = 2047, uint32_t fm = 131072, int hb = 60) { return method(10, TUNEOK, u16(ch) + u32(fm) + u16(hb)); }
inline string open(const string &vhost) { return method(10, OPEN, sstr(vhost) + sstr("") + u8(0)); }
inline string openOk() { return method(10, OPENOK, sstr("")); }
inline string close(int code = 200, const string &text = "bye", int c = 0, int m = 0)
{
    return method(10, CLOSE, u16(code) + sstr(text) + u16(c) + u16(m));
}
inline string closeOk() { return method(10, CLOSEOK, ""); }

struct Frame {
    int    type = 0, channel = 0;
    string payload;
    int    cls = -1, meth = -1;
    string args;
    size_t begin = 0, end = 0;  // offsets in the stream
    bool   isConn(int m) const { return type == 1 && channel == 0 && cls == 10 && meth == m; }
};

inline unsigned rd16(const string &s, size_t o) { return ((unsigned char)s[o] << 8) | (unsigned char)s[o + 1]; }
inline uint32_t rd32(const string &s, size_t o) { return ((uint32_t)rd16(s, o) << 16) | rd16(s, o + 2); }

// Incremental strict frame parser.  Returns 1: frame, 0: need more, -1: malformed
inline int parseFrame(const string &s, size_t *pos, Frame *f)
{
    size_t p = *pos;
    if (s.size() - p < 7)
        return 0;
    f->type    = (unsigned char)s[p];
    f->channel = rd16(s, p + 1);
    uint32_t n = rd32(s, p + 3);
    if (f->type != 1 && f->type != 2 && f->type != 3 && f->type != 8)
        return -1;
    if (n > 1000000)
        return -1;
    if (s.size() - p < 8 + (size_t)n)
        return 0;
    if ((unsigned char)s[p + 7 + n] != 0xce)
        return -1;
    f->payload = s.substr(p + 7, n);
    f->cls = f->meth = -1;
    f->args.clear();
    if (f->type == 1) {
        if (n < 4)
            return -1;
        f->cls  = rd16(f->payload, 0);
        f->meth = rd16(f->payload, 2);
        f->args = f->payload.substr(4);
    }
    f->begin = p;
    *pos     = p + 8 + n;
    f->end   = *pos;
    return 1;
}

// Splits table wire bytes (without the length prefix) into fields.  Knows all
// RabbitMQ field types.  Returns false when malformed.
inline bool valueLen(const string &s, size_t p, size_t *len)
{
    if (p >= s.size())
        return false;
    size_t left = s.size() - p - 1;
    size_t need;
    switch (s[p]) {
    case 't': case 'b': case 'B': need = 1; break;
    case 's': case 'U': case 'u': need = 2; break;
    case 'I': case 'i': case 'f': need = 4; break;
    case 'l': case 'L': case 'd': case 'T': need = 8; break;
    case 'D': need = 5; break;
    case 'V': need = 0; break;
    case 'S': case 'x': case 'F': case 'A':
        if (left < 4)
            return false;
        need = 4 + (size_t)rd32(s, p + 1);
        break;
    default: return false;
    }
    if (need > left)
        return false;
    *len = 1 + need;
    return true;
}
inline bool splitTable(const string &body, std::vector<Field> *out)
{
    size_t p = 0;
    while (p < body.size()) {
        size_t n = (unsigned char)body[p];
        if (body.size() - p - 1 < n)
            return false;
        string name = body.substr(p + 1, n);
        p += 1 + n;
        size_t vl;
        if (!valueLen(body, p, &vl))
            return false;
        out->push_back({name, body.substr(p, vl)});
        p += vl;
    }
    return true;
}

struct StartOk {
    std::vector<Field> props;
    string             mech, resp, locale;
};
inline bool parseStartOk(const string &a, StartOk *o)
{
    size_t p = 0;
    if (a.size() < 4)
        return false;
    uint32_t n = rd32(a, 0);
    p          = 4;
    if (a.size() - p < n)
        return false;
    if (!splitTable(a.substr(p, n), &o->props))
        return false;
    p += n;
    if (a.size() - p < 1 || a.size() - p - 1 < (unsigned char)a[p])
        return false;
    o->mech = a.substr(p + 1, (unsigned char)a[p]);
    p += 1 + o->mech.size();
    if (a.size() - p < 4)
        return false;
    n = rd32(a, p);
    if (a.size() - p - 4 < n)
        return false;
    o->resp = a.substr(p + 4, n);
    p += 4 + n;
    if (a.size() - p < 1 || a.size() - p - 1 != (unsigned char)a[p])
        return false;
    o->locale = a.substr(p + 1);
    return true;
}
inline bool parseClose(const string &a, int *code, string *text)
{
    if (a.size() < 3)
        return false;
    *code    = rd16(a, 0);
    size_t n = (unsigned char)a[2];
    if (a.size() != 3 + n + 4)
        return false;
    *text = a.substr(3, n);
    return true;
}
}
#endif
