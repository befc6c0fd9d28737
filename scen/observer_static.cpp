// xitren::comm::observable (compile-time chain of observers, observer_static.hpp).
#include "common.hpp"

#include <utility>

#include <xitren/comm/observer_static.hpp>

#include <memory>

using namespace xitren::comm;

namespace {
struct Note {
    u64 prod, seq, check;
};
enum Kind { NOTIFY };

struct Frame {
    int              subject;
    u64              seq;
    std::vector<int> told;
};
struct World {
    Plan const*                      plan{};
    std::map<int, std::vector<Frame>> frames;    // per simulated thread
    std::map<int, u64>               count;      // callbacks per observer
    u64                              seq = 0, nested = 0;
    i64                              cost = 0;
};
World* W;
void   told(int id, void const* src, Note const& n);

template <int N>
struct Watcher : observer<Note, Watcher<N>> {
    int id;
    u64 magic = 0xabcdef;
    Watcher const* self = this;    // a copy is not the observer that was given
    explicit Watcher(int i) : id(i) {}
    ~Watcher() { magic = 0; }
    void notification_impl(observable_impl<Note> const& src, Note const& n) noexcept
    {
        sim::Harness h;
        if (magic != 0xabcdef || self != this) sim::fail("wrong-observer", "the call does not arrive at a live observer");
        told(id, &src, n);
    }
};
struct Subject {
    virtual ~Subject()                 = default;
    virtual void        notify(Note const&) = 0;
    virtual void const* root() const   = 0;
    std::vector<int>    list;
};
template <class... O>
struct Impl : Subject {
    using S = observable<Note, O...>;
    S* s;
    explicit Impl(O&... o) : s(sim::make<S>(o...)) { list = {o.id...}; }
    ~Impl() override { sim::destroy(s); }
    void notify(Note const& n) override
    {
        sim::Sut u;
        s->notify(n);
    }
    void const* root() const override { return &s->root; }
};
template <class... O>
std::unique_ptr<Subject> chain(O&... o)
{
    return std::make_unique<Impl<O...>>(o...);
}
std::vector<std::unique_ptr<Subject>> subj;

void notify(int s, int depth);
void told(int id, void const* src, Note const& n)
{
    World& w  = *W;
    auto&  fs = w.frames[sim::self()];
    if (fs.empty()) sim::fail("unexpected-delivery", "observer %d was told outside any notification of this thread", id);
    {
        Frame& f = fs.back();
        sim::log("observer %d gets #%llu", id, (unsigned long long)n.seq);
        if (n.seq != f.seq || n.check != Msg::sum(n.prod, n.seq)) sim::fail("wrong-data", "observer %d was told #%llu instead of #%llu", id, (unsigned long long)n.seq, (unsigned long long)f.seq);
        auto& sj = *subj[std::size_t(f.subject)];
        if (src != sj.root()) sim::fail("wrong-source", "observer %d was given a source that is not the observable's", id);
        if (f.told.size() >= sj.list.size()) sim::fail("told-twice", "observer %d is the %zuth told of %zu", id, f.told.size() + 1, sj.list.size());
        int next = sj.list[f.told.size()];
        if (next != id) sim::fail("order", "observer %d was told instead of observer %d", id, next);
        f.told.push_back(id);
    }
    u64 c = ++w.count[id];
    for (i64 k = 0; k < w.cost; k++) sim::point();
    if (fs.size() >= 4 || w.nested > 30) return;
    for (auto& o : w.plan->ops)
        if (o.th < 0 && -o.th - 1 == id && u64(o.c) == c) {
            ++w.nested;
            sim::probe("notified_inside_callback");
            notify(int(o.a), 1);
        }
}
void notify(int s, int)
{
    World& w = *W;
    Note   n{u64(s), ++w.seq, 0};
    n.check = Msg::sum(n.prod, n.seq);
    w.frames[sim::self()].push_back(Frame{s, n.seq, {}});
    if (w.frames.size() > 1) {
        std::size_t busy = 0;
        for (auto& [t, f] : w.frames) busy += !f.empty();
        if (busy > 1) sim::probe("overlapping_notifications");
    }
    sim::log("notify %d #%llu", s, (unsigned long long)n.seq);
    subj[std::size_t(s)]->notify(n);
    auto& fs   = w.frames[sim::self()];
    Frame f    = fs.back();
    fs.pop_back();
    auto& list = subj[std::size_t(s)]->list;
    if (f.told != list) sim::fail("not-told", "#%llu reached %zu of %zu observers", (unsigned long long)n.seq, f.told.size(), list.size());
}
void run(Plan const& p)
{
    World w;
    W      = &w;
    w.plan = &p;
    w.cost = p.get("cost");
    if (p.get("stall")) sim::stall_mode(true);
    if (p.get("races")) sim::race_mode(true);
    if (p.get("spurious")) sim::arm(sim::F_SPURIOUS, u32(p.get("spurious")));
    if (p.get("cycles", 1) > 1) sim::set_step_limit(400'000'000), sim::probe("more_than_65536_notifications");
    u64   blocks = sim::arena_live_blocks();
    auto *a0 = sim::make<Watcher<0>>(0);
    auto *a1 = sim::make<Watcher<1>>(1), *b1 = sim::make<Watcher<1>>(2);
    auto *a2 = sim::make<Watcher<2>>(3);
    auto *a3 = sim::make<Watcher<3>>(4);
    auto *a4 = sim::make<Watcher<4>>(5);
    subj.clear();
    subj.push_back(chain(*a0));
    subj.push_back(chain(*a0, *a1));
    subj.push_back(chain(*a2, *a1, *a0));
    subj.push_back(chain(*a1, *b1));
    subj.push_back(chain(*a0, *a1, *a2, *a3));
    subj.push_back(chain(*a3, *a0, *b1, *a2, *a1, *a4));
    subj.push_back(chain(*a1, *a1));
    subj.push_back(chain(*b1, *a4, *b1));
    // A source identifies the observable it belongs to.
    for (auto& x : subj)
        for (auto& y : subj)
            if (x != y && x->root() == y->root()) sim::fail("wrong-source", "two observables have the same source");
    std::vector<u64> ids;
    for (int t = 0; t < int(p.get("threads")); t++)
        ids.push_back(sim::spawn(
            [&, t] {
                for (i64 cycle = 0; cycle < p.get("cycles", 1); cycle++)
                    for (auto& o : p.ops)
                        if (o.th == t) notify(int(o.a), 0);
            },
            "notifier"));
    for (auto i : ids) sim::join(i);
    subj.clear();
    sim::destroy(a0), sim::destroy(a1), sim::destroy(b1), sim::destroy(a2), sim::destroy(a3), sim::destroy(a4);
    if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "heap blocks are left");
}
Plan gen(Rng& r, int tier)
{
    Plan p;
    p.p["threads"] = r.range(1, 4);
    p.p["cost"]    = r.range(0, 4);
    p.p["stall"]   = r.chance(1, 3);
    p.p["races"]   = r.chance(1, 3);
    p.p["spurious"]  = r.chance(1, 6) ? r.range(2, 12) : 0;
    int n          = int(r.range(1, tier ? 24 : 10));
    if (r.chance(1, 100'000)) {    // a long life
        p.p["threads"] = 1;
        p.p["cycles"]  = 66'000;
        p.p["stall"] = p.p["races"] = p.p["cost"] = 0;
        p.ops.push_back(Op{0, NOTIFY, i64(r.below(8)), 0, 0});
        return p;
    }
    for (int i = 0; i < n; i++) p.ops.push_back(Op{int(r.below(u64(p.get("threads")))), NOTIFY, i64(r.below(8)), 0, 0});
    int m = int(r.range(0, 4));
    for (int i = 0; i < m; i++) p.ops.push_back(Op{-1 - int(r.below(6)), NOTIFY, i64(r.below(8)), 0, r.range(1, 5)});
    return p;
}
std::string describe(Op const& o)
{
    char b[120];
    if (o.th < 0) snprintf(b, sizeof b, "[inside callback %lld of observer %d] notify chain %lld", (long long)o.c, -o.th - 1, (long long)o.a);
    else snprintf(b, sizeof b, "thread %d: notify chain %lld", o.th, (long long)o.a);
    return b;
}
sim::Register r1({"observer_static", "D05", gen, run, describe, "overlapping notifications of chains that share observers, notifications from inside callbacks, preemption at every memory access"});
}    // namespace
