// C03 / C04: decoding of everything a peer can put into a handshake message,
// from buffers of exactly the received size (the address sanitizer sees any
// access beyond them), compared with a decoder written from the specification.
#include "unit.h"
#include <wellformed.h>
#include <amqpprox_buffer.h>
#include <amqpprox_frame.h>
#include <amqpprox_method.h>
#include <amqpprox_methods_close.h>
#include <amqpprox_methods_open.h>
#include <amqpprox_methods_openok.h>
#include <amqpprox_methods_start.h>
#include <amqpprox_methods_startok.h>
#include <amqpprox_methods_tune.h>
#include <amqpprox_methods_tuneok.h>

namespace un {
using namespace Bloomberg::amqpprox;
using namespace wf;
namespace {

char scratch[1 << 18];

template <typename M>
bool through(const string &args, string *encoded)
{
    // a buffer of exactly this size
    std::unique_ptr<char[]> exact(new char[args.size()]);
    memcpy(exact.get(), args.data(), args.size());
    Buffer in(exact.get(), args.size());
    M      m;
    if (!M::decode(&m, in))
        return false;
    exact.reset();  // what was decoded must not refer to the input any more
    Buffer out(scratch, sizeof scratch);
    if (!M::encode(out, m))
        *encoded = "not encodable";
    else
        encoded->assign(scratch, out.offset());
    // and into a buffer it just about does not fit into
    for (size_t n : {(size_t)0, encoded->size() / 2, encoded->size() - 1})
        if (n < encoded->size() && *encoded != "not encodable") {
            std::unique_ptr<char[]> tight(new char[n]);
            Buffer                  small(tight.get(), n);
            if (M::encode(small, m))
                *encoded = "encoded into too small a buffer";
        }
    std::ostringstream os;
    os << m;
    return true;
}
bool decodeEncode(int m, const string &args, string *enc)
{
    switch (m) {
    case START: return through<methods::Start>(args, enc);
    case STARTOK: return through<methods::StartOk>(args, enc);
    case TUNE: return through<methods::Tune>(args, enc);
    case TUNEOK: return through<methods::TuneOk>(args, enc);
    case OPEN: return through<methods::Open>(args, enc);
    case OPENOK: return through<methods::OpenOk>(args, enc);
    default: return through<methods::Close>(args, enc);
    }
}

struct Stat {
    uint64_t good = 0, refused = 0;
};

void check(vx::Chooser &c, const char *prop, int m, const string &args, Stat *st)
{
    string want, got;
    int    deepest = 0;
    bool   wf      = reference(m, args, &want, &deepest);
    bool   ok;
    try {
        ok = decodeEncode(m, args, &got);
    }
    catch (std::runtime_error &) {
        ok = false;
    }
    c.step(vx::mix(m * 2 + ok, vx::hashBytes(args)));
    st->good += ok;
    st->refused += !ok;
    if (ok && !wf && vx::watching("C04"))
        c.violate("C04", "accepted", string(msgName[m]) + " accepted though it is not well-formed: " + vx::hex(args, 400));
    if (!ok && wf && deepest <= DEEP)
        c.violate(prop, "rejected", string(msgName[m]) + " rejected though it is well-formed: " + vx::hex(args, 400));
    if (ok && wf && got != want && vx::watching("C03"))
        c.violate("C03", "changed", string(msgName[m]) + " changed on the way: " + vx::hex(args, 200) + " became " + vx::hex(got, 200));
}

using Fields = std::vector<amqp::Field>;
std::vector<string> values()
{
    using namespace amqp;
    string n8 = string("\xff\x80\x00\x01\x02\x7f\xfe\x81", 8);
    std::vector<string> v = {
        string("t") + '\0', "t\1", "b\x80", "b\x7f", "B\xff", string("B") + '\0', "s\xff\xfe", "s\x7f\xff", "U\x80\x01", "u\xff\xff",
        "I" + n8.substr(0, 4), "I" + u32(0x7fffffff), "i" + u32(0xffffffff), "l" + n8, "L" + n8, "l" + u64(0x7fffffffffffffffull), "f" + n8.substr(2, 4), "d" + n8, "D" + n8.substr(1, 5),
        "T" + n8, "T" + u64(0xffffffffffffffffull), "V", "x" + lstr(""), "x" + lstr(string("\0\xce\x01", 3)), vS(""), vS("text"), vS(string("a\0b", 3)), vS(string(300, 'q')), vF({}), "A" + lstr(""),
        "A" + lstr(string("t\1") + "V" + "b\x05"), vF({{"k", "V"}, {"", vt(true)}}), "A" + lstr(vF({{"x", "A" + lstr("V")}})), vF({{"a", vF({{"b", vF({{"c", vS("d")}})}})}}), string("t\x02"), vS(string(66000, 'z')), "x" + lstr(string(66000, 'y')),
    };
    return v;
}
string nest(int depth, bool arrays, bool mixed)
{
    string v = "V";
    for (int i = 0; i < depth; ++i) {
        bool a = mixed ? i % 2 : arrays;
        v = a ? "A" + amqp::lstr(v) : amqp::vF({{"n", v}});
    }
    return v;
}

string args(int m, const Fields &f, const string &s = "PLAIN")
{
    using amqp::u8, amqp::u16, amqp::u32, amqp::table, amqp::lstr, amqp::sstr, amqp::startOkArgs;
    switch (m) {
    case START: return u8(0) + u8(9) + table(f) + lstr(s) + lstr("en_US");
    case STARTOK: return startOkArgs(f, s, string("\0u\0p", 4), "en_US");
    case TUNE:
    case TUNEOK: return u16(2047) + u32(131072) + u16(60);
    case OPEN: return sstr(s) + sstr("") + u8(0);
    case OPENOK: return sstr(s);
    default: return u16(320) + sstr(s) + u16(10) + u16(40);
    }
}

// messages whose every truncation and every changed byte are tried
std::vector<string> corpus(int m)
{
    std::vector<string> out;
    if (m != START && m != STARTOK) {
        out = {args(m, {}), args(m, {}, ""), args(m, {}, string(255, 'v'))};
        return out;
    }
    auto vs = values();
    Fields all;
    for (auto &v : vs)
        if (v.size() < 40)
            all.push_back({"f" + std::to_string(all.size()), v});
    out.push_back(args(m, all));
    out.push_back(args(m, {}));
    out.push_back(args(m, {{"a", nest(3, false, true)}, {"b", amqp::vS("x")}}));
    out.push_back(args(m, {{"", "V"}}, ""));
    return out;
}

string table5(int m, const string &body)
{
    return (m == START ? string("\0\x09", 2) : string()) + amqp::lstr(body) + (m == START ? amqp::lstr("P") + amqp::lstr("e") : amqp::sstr("P") + amqp::lstr("c") + amqp::sstr("e"));
}

// every table body of length n over an alphabet of meaningful bytes
void shortTables(vx::Chooser &c, const char *prop, int m, int n)
{
    static const string alpha("\0\1\2\4tSFAVxUlDb\xff", 15);
    Stat   st;
    string body(n, '\0');
    int    fixed = std::min(n, 2);
    for (int i = 0; i < fixed; ++i) body[i] = alpha[c.choose(vx::FREE, alpha.size(), "byte")];
    std::vector<int> idx(n, 0);
    for (;;) {
        for (int i = fixed; i < n; ++i) body[i] = alpha[idx[i]];
        check(c, prop, m, table5(m, body), &st);
        int i = n - 1;
        while (i >= fixed && ++idx[i] == (int)alpha.size()) idx[i--] = 0;
        if (i < fixed)
            break;
    }
    c.outcome(st.good ? "some accepted" : "all refused");
}

void mutate(vx::Chooser &c, const char *prop, int m, bool th)
{
    auto   list = corpus(m);
    string a    = list[c.choose(vx::FREE, list.size(), "message")];
    Stat   st;
    int    block = 16;
    int    at    = c.choose(vx::FREE, (a.size() + block) / block, "position") * block;
    for (int i = at; i < at + block && i <= (int)a.size(); ++i) {
        check(c, prop, m, a.substr(0, i), &st);  // cut off here
        if (i == (int)a.size())
            break;
        string b = a;
        for (int v = 0; v < 256; ++v) {
            b[i] = v;
            check(c, prop, m, b, &st);
        }
        b = a;
        b.erase(i, 1);
        check(c, prop, m, b, &st);
        for (string ins : {string(1, '\0'), string("S"), string("\xff")}) {
            b = a;
            b.insert(i, ins);
            check(c, prop, m, b, &st);
        }
        if (th)
            for (int j = i + 1; j < (int)a.size() && j < i + 24; ++j)
                for (int v : {0, 1, 4, 0x7f, 0x80, 0xff, (int)'S', (int)'F', (int)'A', (int)'x'})
                    for (int u : {0, 1, 4, 0x7f, 0x80, 0xff, (int)'S', (int)'F', (int)'A', (int)'x'}) {
                        b    = a;
                        b[i] = v;
                        b[j] = u;
                        check(c, prop, m, b, &st);
                    }
    }
    c.outcome("done");
}

// every pair (thorough: triple) of field values, in tables, nested tables and arrays
void combos(vx::Chooser &c, const char *prop, int m, bool th)
{
    auto vs = values();
    int  i  = c.choose(vx::FREE, vs.size(), "first"), j = c.choose(vx::FREE, vs.size(), "second");
    Stat st;
    check(c, prop, m, args(m, {{"a", vs[i]}, {"b", vs[j]}}), &st);
    check(c, prop, m, args(m, {{"a", vs[i]}, {"a", vs[j]}}), &st);
    check(c, prop, m, args(m, {{"t", amqp::vF({{"a", vs[i]}, {string(255, 'n'), vs[j]}})}}), &st);
    check(c, prop, m, args(m, {{"l", "A" + amqp::lstr(vs[i] + vs[j])}, {"z", "V"}}), &st);
    if (th)
        for (auto &v : vs) check(c, prop, m, args(m, {{"a", vs[i]}, {"b", amqp::vF({{"q", v}})}, {"", vs[j]}}), &st);
    c.outcome("done");
}

void nesting(vx::Chooser &c, const char *prop, int m)
{
    static const int d[] = {1, 2, 5, 10, 20, 21, 40, 63, 64, 65, 66, 100, 500, 1000, 1500, 12000, 19000};
    int              k = c.choose(vx::FREE, sizeof d / sizeof *d, "depth"), form = c.choose(vx::FREE, 3, "form");
    Stat             st;
    string           v = nest(d[k], form == 1, form == 2);
    check(c, prop, m, args(m, {{"deep", v}}), &st);
    check(c, prop, m, args(m, {{"deep", v}, {"more", v}}), &st);
    // lengths that do not add up on the way down
    string w = v;
    for (size_t i = 0; i < w.size() && i < 400; ++i)
        if (w[i] == 'F' || w[i] == 'A') {
            string x = w;
            if (i + 4 < x.size()) {
                x[i + 4]++;
                check(c, prop, m, args(m, {{"deep", x}}), &st);
                x[i + 4] -= 2;
                check(c, prop, m, args(m, {{"deep", x}}), &st);
                x[i + 1] = '\xff';
                check(c, prop, m, args(m, {{"deep", x}}), &st);
            }
        }
    c.outcome(st.good ? "accepted" : "refused");
}

// frames: every header over meaningful values, every amount of data behind it
void frames(vx::Chooser &c)
{
    static const uint32_t lens[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 100, 149991, 149992, 149993, 150000, 200000, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffff7u, 0xfffffff8u, 0xfffffffbu, 0xffffffffu};
    static const int      types[] = {0, 1, 2, 3, 4, 8, 'A', 0xce, 0xff};
    uint32_t              len     = lens[c.choose(vx::FREE, sizeof lens / sizeof *lens, "declared length")];
    int                   type    = types[c.choose(vx::FREE, sizeof types / sizeof *types, "type")];
    std::set<size_t>      have;
    for (size_t i = 0; i < 24; ++i) have.insert(i);
    if (len < 300000)
        for (long i = -9; i < 10; ++i)
            if ((long)len + 8 + i >= 0)
                have.insert(len + 8 + i);
    for (size_t n : have) {
        for (int end : {0xce, 0, 0xcd}) {
            string s = amqp::u8(type) + amqp::u16(7) + amqp::u32(len);
            s.resize(n, 'p');
            bool complete = n >= (size_t)len + 8;
            if (complete)
                s[7 + len] = end;
            std::unique_ptr<char[]> exact(new char[n]);
            memcpy(exact.get(), s.data(), n);
            Frame       f;
            const void *next = nullptr;
            size_t      rest = 12345;
            int         got;
            try {
                got = Frame::decode(&f, &next, &rest, exact.get(), n);
            }
            catch (std::runtime_error &) {
                got = -1;
            }
            c.step(vx::mix(len, n * 4 + got + 1));
            bool huge = (uint64_t)len + 8 > Frame::getMaxFrameSize();
            if (complete && end == 0xce) {
                if (got != 1 && !huge)
                    c.violate("C04", "frame-refused", "a complete frame is not decoded: length " + std::to_string(len) + " of " + std::to_string(n));
                if (got == 1 && ((uint32_t)f.length != len || (int)f.type != type || (int)f.channel != 7 || rest != n - len - 8 || next != exact.get() + len + 8 || f.payload != exact.get() + 7))
                    c.violate("C04", "frame-wrong", "a frame is decoded wrongly: length " + std::to_string(len) + " of " + std::to_string(n));
            }
            else if (complete) {
                if (got != -1)
                    c.violate("C04", "frame-end", "a frame without frame end is accepted: length " + std::to_string(len) + " of " + std::to_string(n));
            }
            else if (got == 1)
                c.violate("C04", "frame-early", "an incomplete frame is taken for complete: length " + std::to_string(len) + " of " + std::to_string(n));
            else if (n >= 8 && huge && got != -1)
                c.violate("C04", "frame-huge", "a frame too large to be handled is waited for: length " + std::to_string(len));
            else if (!huge && got != 0)
                c.violate("C04", "frame-wait", "an incomplete frame is refused: length " + std::to_string(len) + " of " + std::to_string(n));
            if (!complete)
                break;
        }
    }
    c.outcome("done");
}

void methodHeaders(vx::Chooser &c)
{
    for (size_t n = 0; n < 12; ++n) {
        string                  s = string("\0\x0a\0\x32" "abcdefgh", 12).substr(0, n);
        std::unique_ptr<char[]> exact(new char[n]);
        memcpy(exact.get(), s.data(), n);
        Method m;
        bool   ok = Method::decode(&m, exact.get(), n);
        c.step(n * 2 + ok);
        if (ok != (n >= 4))
            c.violate("C04", "method-short", "a method of " + std::to_string(n) + " bytes is " + (ok ? "accepted" : "refused"));
        if (ok && ((int)m.classType != 10 || (int)m.methodType != 50 || m.length != n - 4 || m.payload != exact.get() + 4))
            c.violate("C04", "method-wrong", "a method header is decoded wrongly");
    }
    c.outcome("done");
}
}

void addCodec(std::vector<vx::Scenario> &out, bool th, bool roundTrip)
{
    const char *prop = roundTrip ? "C03" : "C04";
    for (int m = 0; m < MSGS; ++m) {
        bool tables = m == START || m == STARTOK;
        out.push_back({string("cut and changed ") + msgName[m], vx::Budget(99), [=](vx::Chooser &c) { mutate(c, prop, m, th); }, 100000000});
        if (tables) {
            out.push_back({string("combinations of fields in ") + msgName[m], vx::Budget(99), [=](vx::Chooser &c) { combos(c, prop, m, th); }, 100000000});
            int N = th ? 7 : 5;
            for (int n = 0; n <= (m == START ? N - 1 : N); ++n)
                out.push_back({string("tables of ") + std::to_string(n) + " bytes in " + msgName[m], vx::Budget(99), [=](vx::Chooser &c) { shortTables(c, prop, m, n); }, 100000000});
            out.push_back({string("nesting in ") + msgName[m], vx::Budget(99), [=](vx::Chooser &c) { nesting(c, prop, m); }, 100000000});
        }
    }
    if (!roundTrip) {
        out.push_back({"frames", vx::Budget(99), frames, 1000000});
        out.push_back({"method headers", vx::Budget(99), methodHeaders});
    }
}
}
