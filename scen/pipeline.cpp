// Worker-thread stages: xitren::comm::pipeline_stage and pipeline_stage_pool.
#include "common.hpp"

#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>

#include <algorithm>

using namespace xitren::comm;

namespace {

enum Kind { PUSH_COPY, PUSH_RVAL, STATS, JUMP, PAUSE };
enum Mask { ONCE = 1, ORDER = 2, DRAIN = 4, STAT = 8, BALANCE = 16 };

struct Handled {
    u64 prod, seq;
    int id;          // worker id (pool)
    int fiber;
    i64 t0, t1;      // simulated time at start and end of the handler
    u64 s0, s1;      // event numbers
    int time, load;  // statistics handed to the handler
    u64 pushed_done_at_end, pushed_begun_at_start;
    bool intact;
};
struct Reader {
    int time, load;
    u64 s0, s1;
    i64 t1;
};
struct Pushed {
    u64 s0 = 0, s1 = ~0ull;    // event numbers of its begin and return
};

struct Ctx {
    Plan const*          plan{};
    int                  mask{};
    std::vector<Handled> done;
    std::vector<std::pair<u64, u64>> acked;      // (prod, seq) of pushes that returned
    std::vector<std::pair<u64, u64>> refused;    // pushes that threw
    std::map<std::pair<u64, u64>, i64> cost;
    std::map<std::pair<u64, u64>, Pushed> when;
    std::vector<Reader>  reads;
    std::function<void(Msg const&, int)> onward;      // what the handler passes its item on to
    std::map<int, int>   active;    // worker fiber -> running handlers
    int                  in_handler = 0;
    u64                  begun = 0, finished = 0;
    bool                 destroyed = false;
    bool                 gate = false;    // handlers of the workers in `hung` wait while true
    u64                  hung = ~0ull;
    i64                  born = 0;
    u64                  over = 0;
    void*                stage  = nullptr;    // handlers may look at the statistics of their stage
    bool                 ending = false;
};
Ctx* X;

// Plain data of various sizes, as items.
template <std::size_t Bytes>
struct Flat {
    u64          prod, seq, check;
    std::uint8_t pad[Bytes];
    Flat(u64 p, u64 s) : prod(p), seq(s), check(Msg::sum(p, s))
    {
        for (std::size_t i = 0; i < Bytes; i++) pad[i] = std::uint8_t(s + i * 7);
    }
    bool intact() const
    {
        for (std::size_t i = 0; i < Bytes; i++)
            if (pad[i] != std::uint8_t(seq + i * 7)) return false;
        return check == Msg::sum(prod, seq);
    }
};
template <class M, bool Pool>
void handle(M const& m, int id, int time, int load, Ctx& x = *X)
{
    sim::Harness h;
    if (x.destroyed) sim::fail("handler-after-destruction", "the handler ran after the destructor had returned");
    Handled r{m.prod, m.seq, id, sim::self(), sim::mono_ns(), 0, sim::seq(), 0, time, load, 0, x.begun, m.intact()};
    int&    act = x.active[sim::self()];
    ++x.in_handler;
    ++act;
    if (act > 1 || (!Pool && x.in_handler > 1)) sim::fail("handler-overlap", "the handler was entered while the same worker was still inside it");
    sim::log("handle p%llu #%llu id=%d time=%d load=%d", (unsigned long long)m.prod, (unsigned long long)m.seq, id, time, load);
    if (!r.intact) sim::fail("corrupt-item", "the handler received a torn or overwritten item");
    if (x.gate && (id < 0 || id > 63 || x.hung >> id & 1)) sim::block_until([&x] { return !x.gate; }, "gate");
    auto it = x.cost.find({m.prod, m.seq});
    i64  c  = it == x.cost.end() ? 0 : it->second;
    if (c > 0) sim::sleep_ns(c);
    else if (c < 0)
        for (i64 i = c; i < 0; i++) sim::point();
    if constexpr (std::is_same_v<M, Msg>)
        if (x.onward) x.onward(m, id);
    if (!m.intact()) sim::fail("corrupt-item", "an item changed while it was being handled");
    --x.in_handler;
    --x.active[sim::self()];
    r.t1                 = sim::mono_ns();
    r.s1                 = sim::seq();
    r.pushed_done_at_end = x.finished;
    x.done.push_back(r);
}

template <class M, class S>
void producer(S* s, int th)
{
    Ctx& x   = *X;
    u64  seq = 0;
    for (auto& o : x.plan->ops) {
        if (o.th != th) continue;
        if (o.kind <= PUSH_RVAL) for (i64 rep = 0; rep < std::max<i64>(1, o.a); rep++) {
            if (o.b > 0) sim::sleep_ns(o.b);
            ++seq;
            x.cost[{u64(th), seq}] = o.c;
            ++x.begun;
            x.when[{u64(th), seq}].s0 = sim::seq();
            bool ok = true;
            sim::log("push p%d #%llu", th, (unsigned long long)seq);
            try {
                sim::Sut    su;
                sim::Faulty f;
                if (o.kind == PUSH_RVAL) {
                    s->push(M(u64(th), seq));
                } else {
                    M m(u64(th), seq);
                    s->push(m);
                    if (!m.intact()) {
                        sim::Harness h;
                        sim::fail("argument-changed", "push changed the caller's object");
                    }
                }
            } catch (std::bad_alloc const&) {
                ok = false;
            }
            x.when[{u64(th), seq}].s1 = sim::seq();
            if (ok) {
                ++x.finished;
                x.acked.push_back({u64(th), seq});
            } else {
                x.refused.push_back({u64(th), seq});
                sim::probe("push_failed_on_allocation");
            }
        } else if (o.kind == JUMP) {
            sim::jump_wall(o.a);
        } else if (o.kind == PAUSE) {
            sim::sleep_ns(o.b);
        } else if (o.kind == STATS) {
            if constexpr (requires { s->time_for_unit(); }) {
                if (o.b > 0) sim::sleep_ns(o.b);
                int t, l;
                u64 a = sim::seq();
                {
                    sim::Sut su;
                    t = s->time_for_unit();
                }
                u64 b = sim::seq();
                x.reads.push_back(Reader{t, -1, a, b, sim::mono_ns()});
                {
                    sim::Sut su;
                    l = s->buffer_utilization();
                }
                x.reads.push_back(Reader{-1, l, b, sim::seq(), sim::mono_ns()});
                sim::log("stats %d %d", t, l);
                sim::probe("statistics_read");
                // Statistics are sums of non-negative measurements; no mean of ten items can exceed the
                // simulated time that has passed or the number of pushes begun.
                if (x.mask & STAT) {
                    if (t < 0 || i64(t) > (sim::mono_ns() - x.born) / MS) sim::fail("bad-statistics", "time_for_unit() = %d ms, %lld ms have passed", t, (long long)((sim::mono_ns() - x.born) / MS));
                    if (l < 0 || u64(l) > x.begun) sim::fail("bad-statistics", "buffer_utilization() = %d with %llu pushes", l, (unsigned long long)x.begun);
                }
            }
        }
    }
}

void check_once()
{
    Ctx&                             x = *X;
    std::map<std::pair<u64, u64>, int> n;
    for (auto& d : x.done) ++n[{d.prod, d.seq}];
    for (auto& a : x.acked) {
        int c = n[a];
        if (c != 1) sim::fail(c ? "item-duplicated" : "item-lost", "item #%llu of producer %llu was handled %d times", (unsigned long long)a.second, (unsigned long long)a.first, c);
        n.erase(a);
    }
    for (auto& a : x.refused)
        if (n[a]) sim::fail("refused-item-handled", "item #%llu of producer %llu was handled although push threw", (unsigned long long)a.second, (unsigned long long)a.first);
        else n.erase(a);
    if (!n.empty()) sim::fail("item-invented", "an item that nobody pushed was handled");
}

template <bool Pool>
void check_order()
{
    Ctx&                                   x = *X;
    std::map<std::pair<int, u64>, u64>     last;
    for (auto& d : x.done) {
        u64& l = last[{Pool ? d.fiber : 0, d.prod}];
        if (d.seq <= l) sim::fail("order", "item #%llu of producer %llu was handled after #%llu", (unsigned long long)d.seq, (unsigned long long)d.prod, (unsigned long long)l);
        l = d.seq;
    }
    // Items whose pushes did not overlap: the earlier push is handled first (by the same worker).
    std::map<int, u64> latest;    // largest begin among the pushes handled so far
    for (auto& d : x.done) {
        auto& w = x.when[{d.prod, d.seq}];
        u64&  l = latest[Pool ? d.fiber : 0];
        if (l > w.s1) sim::fail("order", "item #%llu of producer %llu was handled after an item whose push began later than this one's returned", (unsigned long long)d.seq, (unsigned long long)d.prod);
        l = std::max(l, w.s0);
    }
}

// The statistics: floor of the summed whole milliseconds of the worker's last ten items (and of the queue lengths
// left behind by them) divided by ten.  The measurement of item i is taken between the end of its handler and the
// start of the worker's next one; what can have been measured then is known from the pushes and the other handlers.
struct Range {
    i64 tlo, thi, llo, lhi;
};
Range bounds(std::vector<Handled> const& v, std::size_t i, i64 now)    // of item i of one worker
{
    Ctx& x        = *X;
    i64  prev_end = i ? v[i - 1].t1 : x.born;
    bool last     = i + 1 >= v.size();
    i64  next     = last ? now : std::min(now, v[i + 1].t0);
    Range r{(v[i].t1 - v[i].t0) / MS, (next - prev_end) / MS + 1, 0, 0};
    for (std::size_t j = i + 1; j < v.size(); j++) {
        auto& w = x.when[{v[j].prod, v[j].seq}];
        if (w.s1 < v[i].s1) ++r.llo;
        if (last || w.s0 < v[i + 1].s0) ++r.lhi;
    }
    return r;
}
Range window(std::vector<Handled> const& v, std::size_t k, i64 now)    // of the ten items before the k-th
{
    Range s{0, 0, 0, 0};
    for (std::size_t i = k >= 10 ? k - 10 : 0; i < k; i++) {
        Range r = bounds(v, i, now);
        s.tlo += r.tlo, s.thi += r.thi, s.llo += r.llo, s.lhi += r.lhi;
    }
    return {s.tlo / 10, s.thi / 10, s.llo / 10, s.lhi / 10};
}
void check_stats(bool pool)
{
    Ctx&                               x = *X;
    std::map<int, std::vector<Handled>> by;
    for (auto& d : x.done) by[d.fiber].push_back(d);
    for (auto& [f, v] : by)
        for (std::size_t k = 0; k < v.size(); k++) {
            Range r = window(v, k, v[k].t0);
            if (v[k].time < r.tlo || v[k].time > r.thi)
                sim::fail("bad-statistics", "item %zu of worker %d was told a mean time of %d ms; the last handlers allow %lld..%lld", k, v[k].id, v[k].time, (long long)r.tlo, (long long)r.thi);
            if (v[k].load < r.llo || v[k].load > r.lhi)
                sim::fail("bad-statistics", "item %zu of worker %d was told a load of %d; the queue lengths allow %lld..%lld", k, v[k].id, v[k].load, (long long)r.llo, (long long)r.lhi);
            if (k) sim::probe("statistics_checked");
            if (k > 10) sim::probe("statistics_window_full");
            if (k && r.llo > 0) sim::probe("statistics_with_load");
        }
    if (pool) return;
    auto& v = x.done;
    for (auto& q : x.reads) {
        std::size_t k0 = 0, k1 = 0;    // items measured for certain before the reading, and at most by its end
        for (std::size_t i = 0; i < v.size(); i++) {
            if (i + 1 < v.size() && v[i + 1].s0 < q.s0) ++k0;
            if (v[i].s1 < q.s1) ++k1;
        }
        i64 lo = INT64_MAX, hi = -1;
        for (std::size_t k = k0; k <= k1; k++) {
            Range r = window(v, k, q.t1);
            lo = std::min(lo, q.load < 0 ? r.tlo : r.llo);
            hi = std::max(hi, q.load < 0 ? r.thi : r.lhi);
        }
        i64 got = q.load < 0 ? q.time : q.load;
        if (got < lo || got > hi) sim::fail("bad-statistics", "%s is %lld after %zu..%zu items, which allow %lld..%lld", q.load < 0 ? "time_for_unit()" : "buffer_utilization()", (long long)got, k0, k1, (long long)lo, (long long)hi);
        if (lo > 0) sim::probe("public_statistics_checked");
    }
}

void start(Plan const& p, int mask, Ctx& x)
{
    X       = &x;
    x.plan  = &p;
    x.mask  = mask;
    x.born  = sim::mono_ns();
    Msg::live = 0;
    u64 items = 0;
    for (auto& o : p.ops) items += u64(std::max<i64>(o.a, 0));
    if (p.get("scale")) {
        sim::set_step_limit(1'000'000 + items * (p.get("scale") == 2 ? 1'500 : 5'000));
        sim::probe(p.get("scale") == 1 ? "hundreds_of_items" : "more_than_65536_items");
    }
    if (p.get("stall")) sim::stall_mode(true);
    if (p.get("races")) sim::race_mode(true);
    if (p.get("spurious")) sim::arm(sim::F_SPURIOUS, u32(p.get("spurious")));
}

template <class M, class S, bool Pool>
void drive(S* s, Plan const& p, u64 blocks)
{
    Ctx& x = *X;
    if (p.get("enomem")) sim::arm(sim::F_ENOMEM, u32(p.get("enomem")));
    std::vector<u64> ids;
    for (int t = 0; t < int(p.get("threads")); t++) ids.push_back(sim::spawn([s, t] { producer<M>(s, t); }, "producer"));
    for (auto i : ids) sim::join(i);
    sim::disarm_all();
    u64 pending = x.acked.size() - x.done.size();
    sim::probe(pending ? "destroyed_with_backlog" : "destroyed_when_idle");
    if (p.get("settle")) sim::sleep_ns(p.get("settle"));
    if (p.get("fair_end", 1)) sim::fair(true);
    i64 const t0   = sim::mono_ns();
    i64       work = 0;
    for (auto& [k, c] : x.cost) work += std::max<i64>(c, 0);
    sim::log("destroy, %llu pending", (unsigned long long)pending);
    x.ending = true;
    sim::destroy(s);
    x.destroyed    = true;
    i64 const took = sim::mono_ns() - t0;
    sim::log("destroyed");
    if (x.mask & (ONCE | DRAIN)) check_once();
    if (x.mask & ORDER) check_order<Pool>();
    if (x.mask & DRAIN) {
        if (sim::live_threads()) sim::fail("thread-left-behind", "%d worker threads outlive the object", sim::live_threads());
        if (p.get("fair_end", 1) && took > 2 * work + SEC) sim::fail("slow-shutdown", "shutdown took %lld ms, the pending handlers needed at most %lld ms", (long long)(took / MS), (long long)(work / MS));
        sim::sleep_ns(5 * MS);
    }
    if (x.mask & (ONCE | DRAIN)) {
        if (Msg::live != 0) sim::fail("item-leak", "%lld items outlive the stage", (long long)Msg::live);
        if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "%llu heap blocks are left", (unsigned long long)(sim::arena_live_blocks() - blocks));
    }
    if (x.mask & STAT) {
        check_stats(Pool);
    }
    if (x.done.size() > u64(p.get("cap")) * 2) sim::probe("ring_wrapped_twice");
}

// Asked by its own handler, a stage gives the figures that the handler was told.
template <class S>
void look(int time, int load)
{
    sim::Harness h;
    if (!X->stage || X->ending) return;
    auto* s = static_cast<S*>(X->stage);
    int   t, l;
    {
        sim::Sut u;
        t = s->time_for_unit();
        l = s->buffer_utilization();
    }
    sim::probe("statistics_read_by_the_handler");
    if (t != time || l != load) sim::fail("bad-statistics", "a handler that was told %d ms and a load of %d reads %d ms and %d", time, load, t, l);
}
template <std::size_t N, class Next, class M = Msg>
void run_stage(Plan const& p, int mask)
{
    using S = pipeline_stage<M, Next, N, LogNull>;
    Ctx x;
    start(p, mask, x);
    u64 blocks = sim::arena_live_blocks();
    S*  s      = nullptr;
    {
        auto fn = [](pipeline_stage_exception, const M m, const std::pair<int, int> st) -> Next {
            look<S>(st.first, st.second);
            handle<M, false>(m, 0, st.first, st.second);
            look<S>(st.first, st.second);
            return Next();
        };
        s = sim::make<S>(fn);
    }
    if (p.get("look")) x.stage = s;
    drive<M, S, false>(s, p, blocks);
}
template <std::size_t N, std::size_t P, class M = Msg>
void run_pool(Plan const& p, int mask)
{
    using S = pipeline_stage_pool<M, void, N, P, LogNull>;
    Ctx x;
    start(p, mask, x);
    u64  blocks = sim::arena_live_blocks();
    auto fn     = [](pipeline_stage_exception, const M m, const measure_data st) -> void { handle<M, true>(m, st.id, st.time, st.load); };
    S*   s      = sim::make<S>(fn);
    drive<M, S, true>(s, p, blocks);
    // Worker ids: 0..P-1, and each id belongs to one thread.
    std::map<int, std::set<int>> f2i, i2f;
    for (auto& d : x.done) {
        if (d.id < 0 || d.id >= int(P)) sim::fail("bad-worker-id", "worker id %d in a pool of %zu", d.id, P);
        f2i[d.fiber].insert(d.id);
        i2f[d.id].insert(d.fiber);
    }
    for (auto& [k, v] : f2i)
        if (v.size() > 1) sim::fail("bad-worker-id", "one worker thread reported several ids");
    for (auto& [k, v] : i2f)
        if (v.size() > 1) sim::fail("bad-worker-id", "several worker threads reported id %d", k);
    if (f2i.size() > 1) sim::probe("several_workers_used");
    sim::probe("pool_workers_used", f2i.size());
}

void stage_any(Plan const& p, int mask)
{
    if (p.get("flat") == 1) return run_stage<3, void, Flat<1>>(p, mask);
    if (p.get("flat") == 2) return run_stage<4, void, Flat<600>>(p, mask);
    switch (p.get("cap")) {
    case 1: return run_stage<1, void>(p, mask);
    case 2: return run_stage<2, void>(p, mask);
    case 3: return run_stage<3, int>(p, mask);
    case 4: return run_stage<4, void>(p, mask);
    case 8: return run_stage<8, void>(p, mask);
    case 300: return run_stage<300, void>(p, mask);
    default: return run_stage<64, int>(p, mask);
    }
}
void pool_any(Plan const& p, int mask)
{
    if (p.get("flat") == 1) return run_pool<2, 3, Flat<1>>(p, mask);
    if (p.get("flat") == 2) return run_pool<3, 2, Flat<600>>(p, mask);
    switch (p.get("cap") * 100 + p.get("workers")) {
    case 101: return run_pool<1, 1>(p, mask);
    case 301: return run_pool<3, 1>(p, mask);
    case 30002: return run_pool<300, 2>(p, mask);
    case 103: return run_pool<1, 3>(p, mask);
    case 202: return run_pool<2, 2>(p, mask);
    case 205: return run_pool<2, 5>(p, mask);
    case 303: return run_pool<3, 3>(p, mask);
    case 408: return run_pool<4, 8>(p, mask);
    case 411: return run_pool<4, 11>(p, mask);
    default: return run_pool<16, 2>(p, mask);
    }
}

i64 gen_cost(Rng& r)
{
    switch (r.below(4)) {
    case 0: return 0;
    case 1: return -i64(r.below(20));
    case 2: return r.range(1, 200) * US;
    default: return r.range(1, 5) * MS;
    }
}
Plan gen_common(Rng& r, int tier, bool pool)
{
    Plan p;
    int  nt        = int(r.range(1, pool ? 4 : 4));
    p.p["threads"] = nt;
    if (pool) {
        auto v         = r.pick({101, 103, 202, 205, 303, 408, 411, 1602});
        p.p["cap"]     = v / 100;
        p.p["workers"] = v % 100;
    } else {
        p.p["cap"] = r.pick({1, 2, 2, 3, 4, 8, 64});
    }
    p.p["enomem"]   = r.chance(1, 4) ? r.range(3, 30) : 0;
    p.p["stall"]    = r.chance(1, 2);
    p.p["races"]    = r.chance(1, 2);
    p.p["spurious"] = r.chance(1, 3) ? r.range(2, 20) : 0;
    p.p["fair_end"] = r.chance(3, 4);
    p.p["settle"]   = r.chance(1, 4) ? r.range(1, 20) * MS : 0;
    p.p["flat"] = r.chance(1, 8) ? r.range(1, 2) : 0;
    if (p.get("flat") && pool) p.p["cap"] = p.get("flat") + 1, p.p["workers"] = 4 - p.get("flat");
    if (p.get("flat") && !pool) p.p["cap"] = p.get("flat") + 2;
    int  n    = int(r.range(1, r.chance(1, 2) ? 12 : (tier ? 120 : 40)));
    bool slow = r.chance(1, 2), burst = r.chance(1, 2);
    // Long lives: counters of 8 and 16 bits would wrap, the ring is gone round many times.
    p.p["scale"] = r.chance(pool ? 3 : 1, 12'000) ? 2 : r.chance(1, 2'000) ? 1 : 0;
    if (p.get("scale")) {
        p.p["flat"]     = 0;
        bool const big  = p.get("scale") == 2;
        p.p["threads"]  = nt = big ? 1 : nt;
        p.p["enomem"]   = r.chance(1, 2) ? r.range(30, 300) : 0;
        p.p["cap"]      = big ? 3 : pool ? r.pick({3, 3, 4, 300}) : r.pick({3, 3, 8, 300});
        p.p["workers"]  = big ? 1 : p.get("cap") == 3 ? 3 : p.get("cap") == 4 ? 8 : 2;
        if (p.get("cap") == 3 && r.chance(1, 2)) p.p["workers"] = 1;
        if (!pool) p.p.erase("workers");
        for (int t = 0; t < nt; t++) p.ops.push_back(Op{t, r.chance(1, 2) ? PUSH_COPY : PUSH_RVAL, big ? r.range(65'600, 66'500) : r.range(280, 700), 0, big || !slow ? 0 : gen_cost(r)});
        return p;
    }
    for (int i = 0; i < n; i++) {
        Op o;
        o.th   = int(r.below(u64(nt)));
        o.kind = r.chance(1, 2) ? PUSH_COPY : PUSH_RVAL;
        o.b    = burst ? 0 : r.chance(1, 3) ? r.range(1, 500) * US : 0;
        o.c    = slow ? gen_cost(r) : 0;
        p.ops.push_back(o);
    }
    return p;
}
std::string describe(Op const& o)
{
    char b[128];
    switch (o.kind) {
    case PUSH_COPY:
    case PUSH_RVAL:
        snprintf(b, sizeof b, "producer %d pushes (%s) after %lldus, handler cost %lldns", o.th, o.kind == PUSH_COPY ? "const&" : "rvalue", (long long)o.b / 1000, (long long)o.c);
        if (o.a > 1) return std::string(b) + ", " + std::to_string(o.a) + " times";
        break;
    case STATS: snprintf(b, sizeof b, "producer %d reads the statistics after %lldus", o.th, (long long)o.b / 1000); break;
    case JUMP: snprintf(b, sizeof b, "wall clock jumps by %lldms", (long long)o.a / MS); break;
    default: snprintf(b, sizeof b, "producer %d pauses %lldus", o.th, (long long)o.b / 1000);
    }
    return b;
}

// ---- registrations
Plan gen_stage(Rng& r, int t) { return gen_common(r, t, false); }
Plan gen_pool(Rng& r, int t) { return gen_common(r, t, true); }
// Now and then handlers that take minutes to hours, and hundreds of items that wait.
void long_stats(Rng& r, Plan& p, bool pool)
{
    if (!r.chance(1, 60)) return;
    i64 const most = r.pick({66'000, 700'000, 3'000'000, 36'000'000});    // ms; ten of them stay below 2^31
    p.p["settle"]  = 0;
    p.p["cap"]     = 64;
    p.p["flat"]    = 0;
    if (pool) p.p["cap"] = 16, p.p["workers"] = 2;
    if (p.ops.size() > (pool ? 16 : 60)) p.ops.resize(pool ? 16 : 60);
    for (auto& o : p.ops)
        if (o.kind <= PUSH_RVAL) o.c = r.chance(1, 4) ? 0 : r.range(1, most) * MS, o.a = 0;
    if (r.chance(1, 4)) {
        p.p["cap"] = 300;
        for (auto& o : p.ops) o.c = r.range(0, 3) * MS;
        p.ops.insert(p.ops.begin(), Op{0, PUSH_COPY, r.range(200, 290), 0, r.chance(1, 2) ? 0 : r.range(1, 900) * US});
        if (pool) p.ops.front().a *= 2;
        p.p["scale"] = 1;
    } else p.p["scale"] = 0;
}
Plan gen_stage_stats(Rng& r, int t)
{
    Plan p        = gen_common(r, t, false);
    p.p["enomem"] = 0;
    for (auto& o : p.ops) o.c = r.chance(1, 4) ? 0 : r.range(1, 60) * MS;
    if (p.get("scale")) p.ops.resize(1), p.ops[0].a = 300, p.ops[0].c = 2 * MS, p.p["scale"] = 1;
    long_stats(r, p, false);
    int extra = int(r.range(1, 10));
    for (int i = 0; i < extra; i++) {
        Op o;
        o.th   = int(r.below(u64(p.get("threads"))));
        o.kind = r.chance(1, 2) ? STATS : JUMP;
        o.a    = (r.chance(1, 2) ? 1 : -1) * r.range(1, 100'000) * MS;
        o.b    = r.range(0, 40) * MS;
        p.ops.insert(p.ops.begin() + i64(r.below(p.ops.size() + 1)), o);
    }
    p.p["look"] = r.chance(1, 3);
    if (r.chance(1, 2)) {    // a dedicated reader of the statistics
        int th = int(p.p["threads"]++);
        for (int i = 0; i < 12; i++) p.ops.push_back(Op{th, STATS, 0, r.chance(1, 2) ? 0 : r.range(0, 20) * MS, 0});
    }
    return p;
}
Plan gen_pool_stats(Rng& r, int t)
{
    Plan p        = gen_common(r, t, true);
    p.p["enomem"] = 0;
    for (auto& o : p.ops) o.c = r.chance(1, 4) ? 0 : r.range(1, 60) * MS;
    if (p.get("scale")) p.ops.resize(1), p.ops[0].a = 300, p.ops[0].c = 2 * MS, p.p["scale"] = 1;
    long_stats(r, p, true);
    int extra = int(r.range(1, 6));
    for (int i = 0; i < extra; i++) p.ops.insert(p.ops.begin() + i64(r.below(p.ops.size() + 1)), Op{int(r.below(u64(p.get("threads")))), JUMP, (r.chance(1, 2) ? 1 : -1) * r.range(1, 100'000) * MS, 0, 0});
    return p;
}

// Balance: an item goes to a worker whose queue is a shortest one.  Some workers hang, the others go on.
// Which worker an item went to is known once it has been handled; the queue lengths at the moment of each push follow.
struct Choice {
    u64 prod, seq;
    u64 s0, s1;
};
template <std::size_t N, std::size_t P>
void run_balance_t(Plan const& p)
{
    using S = pipeline_stage_pool<Msg, void, N, P, LogNull>;
    Ctx x;
    start(p, BALANCE, x);
    sim::set_step_limit(3'000'000);
    auto fn = [](pipeline_stage_exception, const Msg m, const measure_data st) -> void { handle<Msg, true>(m, st.id, st.time, st.load); };
    S*   s  = sim::make<S>(fn);
    u64  seq[4]{};
    for (auto& o : p.ops) {
        // The workers are idle here.
        x.done.clear();
        x.gate = true;
        x.hung = u64(o.c);
        for (u64 w = 0; w < P; w++) if (x.hung >> w & 1) sim::count_fault("hung_handler");
        std::vector<Choice> made;
        auto       client  = [&](u64 th) {
            for (u64 i = 0; i < u64(o.a); i++) {
                u64 n = ++seq[th];
                if (x.hung != ~0ull) x.cost[{th, n}] = p.get("cost");
                u64 s0 = sim::seq();
                sim::log("push p%llu #%llu", (unsigned long long)th, (unsigned long long)n);
                {
                    sim::Sut su;
                    s->push(Msg(th, n));
                }
                made.push_back(Choice{th, n, s0, sim::seq()});
                if (o.b && p.get("threads") == 1) sim::settle();    // let the workers get to their next wait
            }
        };
        if (p.get("threads") == 1) client(1);
        else {
            std::vector<u64> ids;
            for (int t = 0; t < int(p.get("threads")); t++) ids.push_back(sim::spawn([&, t] { client(u64(t + 1)); }, "producer"));
            for (auto i : ids) sim::join(i);
        }
        u64 n = made.size();
        // Long enough for everything that is not behind a hung worker.
        sim::fair(true);
        sim::sleep_ns(SEC);
        sim::settle();
        sim::fair(false);
        u64 const opened = sim::seq();
        x.gate = false;
        sim::block_until([&] { return x.done.size() == n; }, "all handled");
        std::map<std::pair<u64, u64>, Handled const*> who;
        for (auto& d : x.done)
            if (d.s0 > opened && !(x.hung >> d.id & 1))
                sim::fail("free-worker-idle", "item #%llu of producer %llu was not handled within 1 s although worker %d does not hang", (unsigned long long)d.seq, (unsigned long long)d.prod, d.id);
        if (x.hung & ((1ull << P) - 1) && ~x.hung & ((1ull << P) - 1)) sim::probe("some_workers_hung");
        for (auto& d : x.done) who[{d.prod, d.seq}] = &d;
        bool unequal = false;
        for (auto& c : made) {
            // For each worker the least and the most that can have been waiting while this push chose.
            std::vector<i64> low(P), high(P);
            for (auto& e : made) {
                if (&e == &c) continue;
                Handled const* h = who[{e.prod, e.seq}];
                if (e.s0 < c.s1 && h->s0 > c.s0) ++high[std::size_t(h->id)];
                if (e.s1 < c.s0 && h->s0 > c.s1) ++low[std::size_t(h->id)];
            }
            std::size_t w   = std::size_t(who[{c.prod, c.seq}]->id);
            i64         min = *std::min_element(high.begin(), high.end());
            unequal |= *std::max_element(low.begin(), low.end()) > min;
            // A worker may have taken an item that its handler has not been called with yet.
            i64 least = std::max<i64>(0, low[w] - 1);
            if (least > min)
                sim::fail("unbalanced", "item #%llu of producer %llu went to worker %zu with at least %lld items waiting while another had at most %lld", (unsigned long long)c.seq, (unsigned long long)c.prod, w, (long long)least, (long long)min);
        }
        if (unequal) sim::probe("queues_of_unequal_length");
        if (x.hung == ~0ull && p.get("threads") == 1) {
            std::map<u64, u64> per;
            for (u64 w = 0; w < P; w++) per[w] = 0;
            for (auto& d : x.done) ++per[u64(d.id)];
            u64 mn = ~0ull, mx = 0;
            for (auto& [k, v] : per) mn = std::min(mn, v), mx = std::max(mx, v);
            // One item per worker is in the handler and no longer in its queue; the queue lengths differ by at most one.
            if (mx > mn + 2) sim::fail("unbalanced", "with all workers busy one got %llu of %llu items and another %llu", (unsigned long long)mx, (unsigned long long)n, (unsigned long long)mn);
            if (mn > 0) sim::probe("all_workers_shared_the_load");
        }
        sim::sleep_ns(1 * MS);
    }
    sim::destroy(s);
}
void run_balance(Plan const& p)
{
    if (p.get("deep")) return run_balance_t<1024, 3>(p);
    switch (p.get("workers")) {
    case 1: return run_balance_t<64, 1>(p);
    case 2: return run_balance_t<64, 2>(p);
    case 3: return run_balance_t<64, 3>(p);
    case 8: return run_balance_t<64, 8>(p);
    default: return run_balance_t<64, 13>(p);
    }
}
Plan gen_balance(Rng& r, int)
{
    Plan p;
    p.p["workers"] = r.pick({1, 2, 3, 8, 13});
    p.p["stall"]   = r.chance(1, 2);
    p.p["threads"] = r.chance(2, 3) ? 1 : r.range(2, 3);
    p.p["cost"]    = r.chance(1, 2) ? 0 : r.range(1, 300) * US;
    int n          = int(r.range(1, 3));
    if (r.chance(1, 1'500)) {    // queues of hundreds
        p.p["deep"] = 1, p.p["workers"] = 3, p.p["threads"] = 1, p.p["cost"] = 0;
        p.ops.push_back(Op{0, 0, r.range(700, 1'000), 0, r.pick({7, 3, 6})});
        return p;
    }
    for (int i = 0; i < n; i++) {
        Op o{0, 0, r.range(1, p.get("threads") == 1 ? 40 : 15), r.chance(1, 2), 0};
        o.c = r.chance(1, 3) ? -1 : i64(r.next() & r.next() & 0x1fff);
        p.ops.push_back(o);
    }
    return p;
}
std::string describe_balance(Op const& o)
{
    char b[160];
    snprintf(b, sizeof b, "each producer pushes %lld items while the handlers of the workers in mask %llx hang%s", (long long)o.a, (unsigned long long)o.c & 0x1fff, o.b ? ", workers run between pushes" : "");
    return b;
}

// Stages and pools in a row: a handler passes every item on to the next one, or back to its own.
struct Node {
    Ctx                                       x;
    bool                                      pool;
    std::map<int, u64>                        seq;    // per worker of the previous node
    std::map<std::pair<u64, u64>, std::pair<u64, u64>> was;
    std::function<void(Msg const&, bool)>     push;
    std::function<void()>                     destroy;
};
template <class S>
void make_node(Node& n)
{
    Node* np = &n;
    S*    s;
    if constexpr (requires(S* q) { q->time_for_unit(); }) {
        n.pool = false;
        auto fn = [np](pipeline_stage_exception, const Msg m, const std::pair<int, int> st) -> void { handle<Msg, false>(m, 0, st.first, st.second, np->x); };
        s = sim::make<S>(fn);
    } else {
        n.pool = true;
        auto fn = [np](pipeline_stage_exception, const Msg m, const measure_data st) -> void { handle<Msg, true>(m, st.id, st.time, st.load, np->x); };
        s = sim::make<S>(fn);
    }
    n.push = [s](Msg const& m, bool rval) {
        sim::Sut    su;
        sim::Faulty f;
        if (rval) s->push(Msg(m));
        else s->push(m);
    };
    n.destroy = [s] { sim::destroy(s); };
}
void make_node(Node& n, i64 kind)
{
    switch (kind) {
    case 0: return make_node<pipeline_stage<Msg, void, 2, LogNull>>(n);
    case 1: return make_node<pipeline_stage<Msg, void, 4, LogNull>>(n);
    case 2: return make_node<pipeline_stage<Msg, void, 64, LogNull>>(n);
    case 3: return make_node<pipeline_stage_pool<Msg, void, 2, 2, LogNull>>(n);
    case 4: return make_node<pipeline_stage_pool<Msg, void, 3, 3, LogNull>>(n);
    default: return make_node<pipeline_stage_pool<Msg, void, 64, 2, LogNull>>(n);
    }
}
void chain_push(Node& to, u64 prod, u64 seq, i64 cost, bool rval)
{
    Ctx& x = to.x;
    x.cost[{prod, seq}] = cost;
    ++x.begun;
    x.when[{prod, seq}].s0 = sim::seq();
    bool ok = true;
    try {
        to.push(Msg(prod, seq), rval);
    } catch (std::bad_alloc const&) {
        ok = false;
        sim::probe("push_failed_on_allocation");
    }
    x.when[{prod, seq}].s1 = sim::seq();
    (ok ? x.acked : x.refused).push_back({prod, seq});
    if (ok) ++x.finished;
}
void run_chain(Plan const& p, int mask)
{
    std::size_t const n = std::size_t(p.get("nodes"));
    u64 const         blocks = sim::arena_live_blocks();
    {
        std::vector<Node> c(n);
        start(p, mask, c[0].x);
        if (mask & STAT) sim::set_step_limit(5'000'000);    // every worker looks for items once in a while
        for (std::size_t i = 0; i < n; i++) {
            c[i].x.plan = &p, c[i].x.mask = mask, c[i].x.born = sim::mono_ns();
            make_node(c[i], p.get(("kind" + std::to_string(i)).c_str()));
        }
        for (std::size_t i = 0; i + 1 < n; i++)
            c[i].x.onward = [&c, i](Msg const& m, int id) {
                // The pushing thread is the worker; it numbers what it passes on.
                u64 const s = ++c[i + 1].seq[id];
                sim::probe("item_passed_on");
                chain_push(c[i + 1], 100 + u64(id), s, c[0].x.cost[{m.prod % 100, m.seq}] / 2, m.seq & 1);
            };
        if (p.get("back"))    // and the last one passes some items back to itself, once
            c[n - 1].x.onward = [&c, n](Msg const& m, int id) {
                if (m.prod >= 1000 || m.seq % 3) return;
                u64 const s = ++c[n - 1].seq[1000 + id];
                sim::probe("item_passed_back");
                chain_push(c[n - 1], 1000 + u64(id), s, 0, m.seq & 1);
            };
        if (p.get("enomem")) sim::arm(sim::F_ENOMEM, u32(p.get("enomem")));
        std::vector<u64> ids;
        for (int t = 0; t < int(p.get("threads")); t++)
            ids.push_back(sim::spawn([&, t] {
                u64 seq = 0;
                for (auto& o : p.ops) {
                    if (o.th != t) continue;
                    if (o.kind == JUMP) {
                        sim::jump_wall(o.a);
                        continue;
                    }
                    if (o.b > 0) sim::sleep_ns(o.b);
                    ++seq;
                    sim::log("push p%d #%llu", t, (unsigned long long)seq);
                    chain_push(c[0], u64(t), seq, o.c, o.kind == PUSH_RVAL);
                }
            }, "producer"));
        for (auto i : ids) sim::join(i);
        if (p.get("settle")) sim::sleep_ns(p.get("settle"));
        if (p.get("back"))
            sim::block_until([&] { for (auto& k : c) if (k.x.done.size() < k.x.acked.size() || k.x.in_handler) return false; return true; }, "all handled");
        sim::disarm_all();
        if (p.get("fair_end", 1)) sim::fair(true);
        for (std::size_t i = 0; i < n; i++) {
            bool backlog = c[i].x.done.size() < c[i].x.acked.size();
            sim::probe(backlog ? "destroyed_with_backlog" : "destroyed_when_idle");
            sim::log("destroy node %zu", i);
            c[i].destroy();
            c[i].x.destroyed = true;
            X                = &c[i].x;
            if (mask & (ONCE | DRAIN)) check_once();
            if (mask & ORDER) {
                if (c[i].pool) check_order<true>();
                else check_order<false>();
            }
            if (mask & STAT) check_stats(c[i].pool);
        }
        if (mask & DRAIN) {
            if (sim::live_threads()) sim::fail("thread-left-behind", "%d worker threads outlive the object", sim::live_threads());
            sim::sleep_ns(5 * MS);
        }
        sim::probe("chains");
        if (c[0].pool == c[1].pool && p.get("kind0") == p.get("kind1")) sim::probe("two_of_a_kind");
    }
    if (mask & (ONCE | DRAIN)) {
        if (Msg::live != 0) sim::fail("item-leak", "%lld items outlive the stages", (long long)Msg::live);
        if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "%llu heap blocks are left", (unsigned long long)(sim::arena_live_blocks() - blocks));
    }
}
Plan gen_chain(Rng& r, int tier, bool pools)
{
    Plan p        = gen_common(r, tier, false);
    p.p["scale"]  = 0;
    p.p.erase("cap"), p.p.erase("flat");
    std::erase_if(p.ops, [](Op const& o) { return o.kind > PUSH_RVAL || o.a > 1; });
    p.p["nodes"]  = r.range(2, 3);
    p.p["back"]   = r.chance(1, 4);
    bool any      = false;
    for (int i = 0; i < int(p.get("nodes")); i++) {
        i64 k = pools ? r.range(0, 4) : r.range(0, 2);
        any |= k >= 3;
        p.p["kind" + std::to_string(i)] = k;
    }
    if (pools && !any) p.p["kind" + std::to_string(r.below(u64(p.get("nodes"))))] = 3 + i64(r.below(2));
    if (p.get("back")) {    // room for everything: a worker cannot wait for itself
        p.p["kind" + std::to_string(p.get("nodes") - 1)] = pools ? 5 : 2;
        if (p.ops.size() > 40) p.ops.resize(40);
    }
    if (r.chance(1, 3))    // all of one kind
        for (int i = 0; i + 1 < int(p.get("nodes")); i++) p.p["kind" + std::to_string(i)] = p.get(("kind" + std::to_string(p.get("nodes") - 1)).c_str());
    return p;
}

// A handler's state: copying it takes memory, which may fail.
struct Owner {
    u64* mem = nullptr;
    explicit Owner(i64 n) : mem(n ? new u64[std::size_t(n)]{} : nullptr), size(std::size_t(n)) {}
    Owner(Owner const& o) : mem(o.mem ? new u64[o.size]{} : nullptr), size(o.size) {}
    Owner(Owner&& o) noexcept : mem(o.mem), size(o.size) { o.mem = nullptr; }
    Owner& operator=(Owner const&) = delete;
    ~Owner() { delete[] mem; }
    std::size_t size;
};

// Thread creation fails while the object is constructed.
template <class S, class F>
void try_make(F fn, Plan const& p, int& made)
{
    u64 const blocks = sim::arena_live_blocks();
    Ctx       x;
    start(p, 0, x);
    sim::arm(sim::F_EAGAIN, u32(p.get("eagain")));
    if (p.get("enomem")) sim::arm(sim::F_ENOMEM, u32(p.get("enomem")));
    S* s = nullptr;
    try {
        sim::Faulty f;
        s = sim::make<S>(fn);
    } catch (std::system_error const&) {
        sim::probe("construction_refused_no_thread");
    } catch (std::bad_alloc const&) {
        sim::probe("construction_refused_no_memory");
    }
    sim::disarm_all();
    if (s) {
        ++made;
        for (u64 i = 1; i <= 5; i++) {
            x.acked.push_back({7, i});
            sim::Sut su;
            s->push(Msg(7, i));
        }
        sim::destroy(s);
        check_once();
    }
    x.destroyed = true;
    sim::fair(true);
    sim::sleep_ns(50 * MS);
    sim::fair(false);
    if (sim::live_threads()) sim::fail("thread-left-behind", "%d worker threads survive a construction that failed", sim::live_threads());
    if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "%llu heap blocks are left after a failed construction", (unsigned long long)(sim::arena_live_blocks() - blocks));
}
void run_create_fail(Plan const& p)
{
    int made = 0;
    for (auto& o : p.ops) {
        Owner own(o.b);    // copied with the handler
        auto  fs = [own](pipeline_stage_exception, const Msg m, const std::pair<int, int> st) -> void { handle<Msg, false>(m, 0, st.first, st.second); };
        auto  fp = [own](pipeline_stage_exception, const Msg m, const measure_data st) -> void { handle<Msg, true>(m, st.id, st.time, st.load); };
        switch (o.a) {
        case 0: try_make<pipeline_stage<Msg, void, 4, LogNull>>(fs, p, made); break;
        case 1: try_make<pipeline_stage_pool<Msg, void, 4, 1, LogNull>>(fp, p, made); break;
        case 2: try_make<pipeline_stage_pool<Msg, void, 4, 3, LogNull>>(fp, p, made); break;
        default: try_make<pipeline_stage_pool<Msg, void, 4, 6, LogNull>>(fp, p, made); break;
        }
    }
}
Plan gen_create_fail(Rng& r, int)
{
    Plan p;
    p.p["eagain"] = r.range(1, 6);
    p.p["enomem"] = r.chance(1, 2) ? r.range(2, 12) : 0;
    p.p["stall"]  = r.chance(1, 2);
    int n         = int(r.range(1, 2));
    for (int i = 0; i < n; i++) p.ops.push_back(Op{0, 0, r.range(0, 3), r.chance(1, 2) ? r.range(1, 4) : 0, 0});
    return p;
}
std::string describe_create(Op const& o)
{
    char const* n[] = {"a stage", "a pool of 1", "a pool of 3", "a pool of 6"};
    return std::string("construct ") + n[o.a & 3] + " while thread creation and allocation may fail";
}

void r_once(Plan const& p) { stage_any(p, ONCE); }
void r_order(Plan const& p) { stage_any(p, ORDER); }
void r_drain(Plan const& p) { stage_any(p, DRAIN); }
void r_stat(Plan const& p) { stage_any(p, STAT); }
void r_ponce(Plan const& p) { pool_any(p, ONCE | ORDER); }
void r_pdrain(Plan const& p) { pool_any(p, DRAIN); }
void r_pstat(Plan const& p) { pool_any(p, STAT); }

void r_chain(Plan const& p) { run_chain(p, ONCE); }
void r_chain_order(Plan const& p) { run_chain(p, ORDER); }
void r_chain_drain(Plan const& p) { run_chain(p, DRAIN); }
void r_chain_stats(Plan const& p) { run_chain(p, STAT); }
void r_chain_pool(Plan const& p) { run_chain(p, ONCE | ORDER); }
Plan gen_chain_stages(Rng& r, int t) { return gen_chain(r, t, false); }
Plan gen_chain_pools(Rng& r, int t) { return gen_chain(r, t, true); }
Plan gen_chain_any(Rng& r, int t) { return gen_chain(r, t, r.chance(1, 2)); }
Plan gen_chain_stats(Rng& r, int t)
{
    Plan p        = gen_chain(r, t, r.chance(1, 2));
    p.p["enomem"] = 0;
    if (p.ops.size() > 30) p.ops.resize(30);
    for (auto& o : p.ops) o.c = r.chance(1, 4) ? 0 : r.range(1, 30) * MS;
    int extra = int(r.range(0, 4));
    for (int i = 0; i < extra; i++) p.ops.insert(p.ops.begin() + i64(r.below(p.ops.size() + 1)), Op{int(r.below(u64(p.get("threads")))), JUMP, (r.chance(1, 2) ? 1 : -1) * r.range(1, 100'000) * MS, 0, 0});
    return p;
}

char const* const F = "allocation failure in push, spurious wake-ups, descheduled workers and producers (early/late timers), bursts beyond the ring capacity, destruction with a backlog";
sim::Register     r1({"stage", "A01", gen_stage, r_once, describe, F, 3});
sim::Register     r2({"stage_order", "A02", gen_stage, r_order, describe, F, 3});
sim::Register     r3({"stage_drain", "A03", gen_stage, r_drain, describe, F, 3});
sim::Register     r3b({"pool_drain", "A03", gen_pool, r_pdrain, describe, F, 3});
sim::Register     r4({"stage_stats", "A04", gen_stage_stats, r_stat, describe, "wall-clock jumps, concurrent readers, descheduled threads", 2});
sim::Register     r4b({"pool_stats", "A04", gen_pool_stats, r_pstat, describe, "wall-clock jumps, descheduled threads", 2});
sim::Register     r5({"pool", "A05", gen_pool, r_ponce, describe, F, 3});
sim::Register     r6({"pool_balance", "A06", gen_balance, run_balance, describe_balance, "hung handlers, descheduled workers"});
sim::Register     r7({"create_fail", "A07", gen_create_fail, run_create_fail, describe_create, "pthread_create failing with EAGAIN, allocation failure during construction", 2});
sim::Register     r8({"stage_chain", "A01", gen_chain_stages, r_chain, describe, F, 1});
sim::Register     r8b({"stage_chain_order", "A02", gen_chain_stages, r_chain_order, describe, F, 1});
sim::Register     r8c({"chain_drain", "A03", gen_chain_any, r_chain_drain, describe, F, 1});
sim::Register     r8e({"chain_stats", "A04", gen_chain_stats, r_chain_stats, describe, "wall-clock jumps, descheduled threads", 1});
sim::Register     r8d({"pool_chain", "A05", gen_chain_pools, r_chain_pool, describe, F, 1});
}    // namespace
