// C20: every sequence of subscribing, releasing, moving and emitting, with
// subscribers that themselves subscribe, unsubscribe or emit when called.
#include "unit.h"
#include <amqpprox_eventsource.h>
#include <amqpprox_eventsourcesignal.h>

namespace un {
using namespace Bloomberg::amqpprox;
namespace {
using Signal = EventSourceSignal<uint64_t, const string &>;

enum React { R_NONE, R_UNSUB_SELF, R_UNSUB_OTHER, R_SUBSCRIBE, R_EMIT, R_RESUBSCRIBE, R_COUNT };
const char *reactName[] = {"none", "unsub-self", "unsub-other", "subscribe", "emit", "resubscribe"};

struct Sub {          // one subscription ever made
    bool live  = true;
    int  react = R_NONE;
    int  slot  = -1;  // slot of the handle that holds it, -1: gone
};
struct Emission {
    uint64_t           value;
    std::set<int>      atStart;  // subscriptions alive when it began
    std::set<int>      dropped;  // of those, the ones dropped while it ran
    std::map<int, int> calls;
};
struct Run {
    vx::Chooser                         &c;
    std::shared_ptr<Signal>              sig = Signal::create();
    enum { SLOTS = 4 };
    std::unique_ptr<EventSubscriptionHandle> h[SLOTS];
    int                                  holds[SLOTS];
    std::deque<Sub>                      subs;
    std::vector<Emission *>              stack;
    uint64_t                             next = 1;
    int                                  depth = 0;
    string                               what;

    explicit Run(vx::Chooser &ch)
    : c(ch)
    {
        for (auto &x : holds) x = -1;
    }
    void bad(const string &key, const string &m) { c.violate("C20", key, m + " (" + what + ")"); }
    void drop(int id)
    {
        if (id < 0)
            return;
        subs[id].live = false;
        for (auto e : stack) e->dropped.insert(id);
    }
    void release(int slot)
    {
        if (!h[slot])
            return;
        drop(holds[slot]);
        h[slot]->release();
    }
    void destroy(int slot)
    {
        if (!h[slot])
            return;
        drop(holds[slot]);
        holds[slot] = -1;
        h[slot].reset();
    }
    void subscribe(int slot, int react)
    {
        int id = subs.size();
        subs.push_back({true, react, slot});
        auto cb = [this, id](uint64_t v, const string &s) { called(id, v, s); };
        if (h[slot]) {
            // the new subscription is made first, then the one held is given up
            auto fresh = sig->subscribe(cb);
            drop(holds[slot]);
            *h[slot] = std::move(fresh);
        }
        else
            h[slot] = std::make_unique<EventSubscriptionHandle>(sig->subscribe(cb));
        holds[slot] = id;
    }
    void move(int from, int to)
    {
        if (!h[from])
            return;
        if (h[to]) {
            drop(holds[to]);
            *h[to] = std::move(*h[from]);
        }
        else
            h[to] = std::make_unique<EventSubscriptionHandle>(std::move(*h[from]));
        holds[to]   = holds[from];
        holds[from] = -1;
        if (holds[to] >= 0)
            subs[holds[to]].slot = to;
        h[from].reset();
    }
    void emit()
    {
        Emission e;
        e.value = next++;
        for (size_t i = 0; i < subs.size(); ++i)
            if (subs[i].live)
                e.atStart.insert(i);
        stack.push_back(&e);
        sig->emit(e.value, "arg" + std::to_string(e.value));
        stack.pop_back();
        for (int id : e.atStart) {
            int n = e.calls[id];
            if (n > 1)
                bad("twice", "a subscriber was called " + std::to_string(n) + " times for one event");
            if (n == 0 && !e.dropped.count(id))
                bad("missed", "a subscriber that was subscribed throughout was not called");
        }
    }
    void called(int id, uint64_t v, const string &s)
    {
        if (stack.empty())
            bad("late", "a subscriber was called outside of any emission");
        Emission *e = nullptr;
        for (auto x : stack)
            if (x->value == v)
                e = x;
        if (!e || s != "arg" + std::to_string(v))
            bad("args", "a subscriber was called with the wrong arguments");
        bool was = e->atStart.count(id);
        if (!was && !subs[id].live)
            bad("gone", "a subscriber was called for an event emitted after it unsubscribed");
        if (++e->calls[id] > 1)
            bad("twice", "a subscriber was called twice for one event");
        if (!subs[id].live || depth > 1)
            return;
        ++depth;
        int slot = subs[id].slot;
        int react = subs[id].react;
        int other = (slot + 1) % SLOTS;
        switch (react) {
        case R_UNSUB_SELF: release(slot); break;
        case R_UNSUB_OTHER: destroy(other); break;
        case R_SUBSCRIBE:
            if (!h[3])
                subscribe(3, R_NONE);
            break;
        case R_EMIT: emit(); break;
        case R_RESUBSCRIBE:
            release(slot);
            subscribe(3, R_NONE);
            break;
        default: break;
        }
        --depth;
    }
    ~Run()
    {
        for (auto &x : h) x.reset();
    }
    uint64_t fp()
    {
        uint64_t v = 7;
        for (auto &s : subs) v = vx::mix(v, s.live * 64 + s.react * 8 + s.slot + 1);
        for (int i = 0; i < SLOTS; ++i) v = vx::mix(v, holds[i] + 2 + 100 * !!h[i]);
        return v;
    }
};

void sequences(vx::Chooser &c, int len, int reacts)
{
    Run r(c);
    for (int i = 0; i < len; ++i) {
        // emit | subscribe in slot 0..2 with a reaction | release | destroy | move
        struct Act { int kind, a, b; };
        std::vector<Act> acts;
        acts.push_back({0, 0, 0});
        for (int s = 0; s < 3; ++s) {
            if (r.h[s]) {
                acts.push_back({2, s, 0});
                acts.push_back({3, s, 0});
                acts.push_back({4, s, (s + 1) % 3});
                acts.push_back({1, s, R_NONE});
            }
            else if (s == 0 || r.h[s - 1] || s == 1)
                for (int k = 0; k < reacts; ++k) acts.push_back({1, s, k});
        }
        auto a = acts[c.choose(vx::FREE, acts.size(), "op")];
        switch (a.kind) {
        case 0: r.what += " emit"; r.emit(); break;
        case 1: r.what += " subscribe" + std::to_string(a.a) + "/" + reactName[a.b]; r.subscribe(a.a, a.b); break;
        case 2: r.what += " release" + std::to_string(a.a); r.release(a.a); break;
        case 3: r.what += " drop" + std::to_string(a.a); r.destroy(a.a); break;
        case 4: r.what += " move" + std::to_string(a.a); r.move(a.a, a.b); break;
        }
        c.step(r.fp());
    }
    r.what += " emit(final)";
    r.emit();
    r.emit();
    // handles may outlive the signal
    if (c.choose(vx::FREE, 2, "signal goes first")) {
        std::weak_ptr<Signal> w = r.sig;
        r.sig.reset();
        if (!w.expired())
            r.bad("kept", "a subscription keeps the signal alive");
    }
    c.outcome("subscriptions " + std::to_string(r.subs.size()));
}

// the signals of the proxy are separate from one another
void allSignals(vx::Chooser &c)
{
    EventSource             es;
    std::vector<int>        n(4, 0);
    EventSubscriptionHandle a = es.connectionReceived().subscribe([&](uint64_t v) { n[0] += v; });
    EventSubscriptionHandle b = es.connectionEstablished().subscribe([&](uint64_t v) { n[1] += v; });
    EventSubscriptionHandle d = es.brokerConnectionSnapped().subscribe([&](uint64_t v) { n[2] += v; });
    EventSubscriptionHandle e = es.clientConnectionSnapped().subscribe([&](uint64_t v) { n[3] += v; });
    std::vector<int>        want(4, 0);
    bool                    live[4] = {true, true, true, true};
    for (int i = 0; i < 4; ++i) {
        int k = c.choose(vx::FREE, 8, "op");
        if (k < 4) {
            int v = 1 + i;
            if (live[k])
                want[k] += v;
            if (k == 0) es.connectionReceived().emit(v);
            if (k == 1) es.connectionEstablished().emit(v);
            if (k == 2) es.brokerConnectionSnapped().emit(v);
            if (k == 3) es.clientConnectionSnapped().emit(v);
        }
        else {
            live[k - 4] = false;
            if (k == 4) a.release();
            if (k == 5) b.release();
            if (k == 6) d.release();
            if (k == 7) e.release();
        }
        c.step(vx::mix(k, want[0] + 10 * want[1] + 100 * want[2] + 1000 * want[3]));
        if (n != want)
            c.violate("C20", "signals-mixed", "events of one signal reached the subscribers of another, or were lost");
    }
}
}

void addEvents(std::vector<vx::Scenario> &out, bool th)
{
    int L = th ? 6 : 5;
    for (int n = 2; n <= L; ++n)
        out.push_back({"all sequences of " + std::to_string(n) + " operations", vx::Budget(99), [n](vx::Chooser &c) { sequences(c, n, n <= 4 ? R_COUNT : R_COUNT - 1); }});
    if (th)
        out.push_back({"plain subscribers, 8 operations", vx::Budget(99), [](vx::Chooser &c) { sequences(c, 8, 1); }});
    else
        out.push_back({"plain subscribers, 6 operations", vx::Budget(99), [](vx::Chooser &c) { sequences(c, 6, 1); }});
    out.push_back({"signals of the event source", vx::Budget(99), allSignals});
}
}
