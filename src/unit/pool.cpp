// C17: every sequence of acquiring, releasing, swapping and dropping buffers.
#include "unit.h"
#include <amqpprox_bufferhandle.h>
#include <amqpprox_bufferpool.h>

namespace un {
using namespace Bloomberg::amqpprox;
namespace {
struct Held {
    size_t        size = 0;  // 0: nothing
    int           bucket = -1;
    unsigned char fill = 0;
};
void sequences(vx::Chooser &c, std::vector<size_t> buckets, std::vector<size_t> sizes, int len)
{
    BufferPool                    pool(buckets);
    std::sort(buckets.begin(), buckets.end());
    enum { H = 3 };
    std::unique_ptr<BufferHandle> h[H];
    Held                          m[H];
    for (auto &x : h) x = std::make_unique<BufferHandle>();
    std::vector<uint64_t> high(buckets.size(), 0);  // most ever held
    std::vector<uint64_t> peak(buckets.size(), 0);  // the same, counting a buffer about to be replaced
    uint64_t              spill = 0;
    unsigned char         fill  = 1;
    string                what;
    auto bad = [&](const string &k, const string &s) { c.violate("C17", k, s + " (" + what + ")"); };
    auto count = [&](int b) {
        uint64_t n = 0;
        for (auto &x : m) n += x.bucket == b;
        return n;
    };
    for (int i = 0; i < len; ++i) {
        int k   = c.choose(vx::FREE, sizes.size() * H + 2 * H + H, "op");
        int nS  = sizes.size();
        if (k < nS * H) {
            int    s  = k / nS;
            size_t sz = sizes[k % nS];
            what += " acquire(" + std::to_string(s) + "," + std::to_string(sz) + ")";
            // an assigned handle gives its old buffer back once it has the new one
            int b = -1;
            for (size_t j = 0; j < buckets.size() && b < 0; ++j)
                if (sz <= buckets[j])
                    b = j;
            if (b >= 0)
                peak[b] = std::max(peak[b], count(b) + 1);
            else
                ++spill;
            pool.acquireBuffer(h[s].get(), sz);
            if (h[s]->size() < sz || (sz && !h[s]->data()))
                bad("short", "the buffer handed out is smaller than asked for");
            memset(h[s]->data(), fill, sz);
            m[s] = {sz, b, fill};
            if (!sz)
                m[s].size = 0;
            ++fill;
            if (b >= 0)
                high[b] = std::max(high[b], count(b));
        }
        else if (k < nS * H + H) {
            int s = k - nS * H;
            what += " release(" + std::to_string(s) + ")";
            h[s]->release();
            if (h[s]->data() || h[s]->size() || h[s]->source())
                bad("released", "a released handle still refers to a buffer");
            m[s] = Held();
        }
        else if (k < nS * H + 2 * H) {
            int s = k - nS * H - H;
            what += " drop(" + std::to_string(s) + ")";
            h[s] = std::make_unique<BufferHandle>();
            m[s] = Held();
        }
        else {
            int s = k - nS * H - 2 * H, t = (s + 1) % H;
            what += " swap(" + std::to_string(s) + "," + std::to_string(t) + ")";
            h[s]->swap(*h[t]);
            std::swap(m[s], m[t]);
        }
        // nobody else wrote into what is held
        uint64_t f = 1;
        for (int s = 0; s < H; ++s) {
            if (h[s]->size() != m[s].size)
                bad("size", "a handle reports the wrong size");
            auto p = static_cast<unsigned char *>(h[s]->data());
            for (size_t j = 0; j < m[s].size; ++j)
                if (p[j] != m[s].fill)
                    bad("shared", "a held buffer was overwritten: it was handed out twice");
            f = vx::mix(f, m[s].size * 8 + m[s].bucket + 1);
        }
        std::vector<BufferPool::BufferAllocationStat> st;
        uint64_t                                      sp = 0;
        pool.getPoolStatistics(&st, &sp);
        if (st.size() != buckets.size() || sp != spill)
            bad("stats", "wrong number of sizes or of allocations outside of the pool reported");
        for (size_t j = 0; j < st.size(); ++j) {
            f = vx::mix(f, high[j]);
            if (std::get<0>(st[j]) != buckets[j] || std::get<1>(st[j]) != count(j))
                bad("usage", "usage reported for size " + std::to_string(buckets[j]) + " is " + std::to_string(std::get<1>(st[j])) + ", held are " + std::to_string(count(j)));
            if (std::get<2>(st[j]) < high[j] || std::get<2>(st[j]) > peak[j])
                bad("highwater", "highest usage reported for size " + std::to_string(buckets[j]) + " is " + std::to_string(std::get<2>(st[j])) + ", was " + std::to_string(high[j]));
        }
        c.step(f);
    }
    for (auto &x : h) x.reset();
    std::vector<BufferPool::BufferAllocationStat> st;
    uint64_t                                      sp = 0;
    pool.getPoolStatistics(&st, &sp);
    for (auto &x : st)
        if (std::get<1>(x))
            bad("leak", "buffers of size " + std::to_string(std::get<0>(x)) + " are still out when all handles are gone");
    c.outcome("spill " + std::to_string(spill));
}
}
void addPool(std::vector<vx::Scenario> &out, bool th)
{
    int L = th ? 5 : 4;
    out.push_back({"pool of one size", vx::Budget(99), [L](vx::Chooser &c) { sequences(c, {64}, {1, 63, 64, 65}, L); }});
    out.push_back({"pool of three sizes, unsorted", vx::Budget(99), [L](vx::Chooser &c) { sequences(c, {1024, 32, 128}, {1, 32, 33, 128, 129, 1024, 1025}, L - 1); }});
    out.push_back({"no pooled sizes", vx::Budget(99), [L](vx::Chooser &c) { sequences(c, {}, {1, 100}, L); }});
    out.push_back({"sizes as the proxy uses them", vx::Budget(99), [L](vx::Chooser &c) { sequences(c, {32, 64, 128, 256, 512, 1024, 4096, 16384, 32768, 65536, 131072}, {31, 4097, 131072, 131073}, L - 1); }});
}
}
