// xitren::cache::lru
#include "common.hpp"

#include <list>
#include <new>

// A key that owns memory, so that copying one can fail, and whose hash collides a lot.
struct Key {
    u64  id  = 0;
    u64* box = nullptr;
    static inline i64 live = 0;
    explicit Key(u64 i) : id(i), box(new u64(i)) { ++live; }
    static inline void (*copied)() = nullptr;
    Key(Key const& o) : id(o.id), box(new u64(*o.box))
    {
        ++live;
        if (copied) copied();
    }
    Key(Key&& o) noexcept : id(o.id), box(o.box)
    {
        o.box = nullptr;
        ++live;
    }
    Key& operator=(Key const& o)
    {
        if (this != &o) {
            u64* b = new u64(*o.box);
            delete box;
            box = b;
            id  = o.id;
        }
        return *this;
    }
    Key& operator=(Key&& o) noexcept
    {
        if (this != &o) {
            delete box;
            id    = o.id;
            box   = o.box;
            o.box = nullptr;
        }
        return *this;
    }
    ~Key()
    {
        delete box;
        --live;
    }
    bool operator==(Key const& o) const { return id == o.id; }
    auto operator<=>(Key const& o) const { return id <=> o.id; }
};
static u64 hash_mod = 3;
template <>
struct std::hash<Key> {
    std::size_t operator()(Key const& k) const { return k.id % hash_mod; }
};

#include <xitren/cache/lru.hpp>

using namespace xitren::cache;

namespace {

enum Kind { PUT, GET, SLEEP, JUMP };

struct Entry {
    u64 key, val;
    i64 ts;
    auto operator<=>(Entry const&) const = default;
};
using Model = std::vector<Entry>;    // most recently used first

struct Res {
    enum { MISS, HIT, EXPIRED, FAILED } kind = MISS;
    u64 key = 0, val = 0;
    i64 ts = 0;
    bool intact = true;
};
char const* res_name(int k)
{
    char const* n[] = {"miss", "hit", "expired", "out of memory"};
    return n[k];
}

Model m_put(Model m, u64 k, u64 v, i64 now, std::size_t cap)
{
    std::erase_if(m, [&](Entry& e) { return e.key == k; });
    m.insert(m.begin(), Entry{k, v, now});
    if (m.size() > cap) m.pop_back();
    return m;
}
Res m_get(Model& m, u64 k, i64 now, i64 exp)
{
    for (std::size_t i = 0; i < m.size(); i++)
        if (m[i].key == k) {
            Entry e = m[i];
            if (now - e.ts >= exp) return {Res::EXPIRED, 0, 0, 0, true};
            m.erase(m.begin() + i64(i));
            m.insert(m.begin(), e);
            return {Res::HIT, e.key, e.val, e.ts, true};
        }
    return {};
}

template <class C>
Res do_get(C* c, u64 k)
{
    Res r;
    try {
        sim::Sut    s;
        sim::Faulty f;
        auto        g = c->get(Key(k));
        sim::Harness h;
        if (g) {
            r.kind   = Res::HIT;
            r.key    = std::get<0>(*g).id;
            r.val    = std::get<1>(*g).seq;
            r.ts     = std::chrono::duration_cast<std::chrono::nanoseconds>(std::get<2>(*g).time_since_epoch()).count();
            r.intact = std::get<1>(*g).intact() && *std::get<0>(*g).box == k;
        }
    } catch (cache_timeout const&) {
        r.kind = Res::EXPIRED;
    } catch (std::bad_alloc const&) {
        r.kind = Res::FAILED;
    }
    sim::log("get %llu: %s %llu", (unsigned long long)k, res_name(r.kind), (unsigned long long)r.val);
    if (!r.intact) sim::fail("corrupt-entry", "get(%llu) returned a torn value", (unsigned long long)k);
    return r;
}
template <class C>
bool do_put(C* c, u64 k, u64 v)
{
    bool ok = true;
    try {
        sim::Sut    s;
        sim::Faulty f;
        c->put(Key(k), Msg(k, v));
    } catch (std::bad_alloc const&) {
        ok = false;
    }
    sim::log("put %llu=%llu%s", (unsigned long long)k, (unsigned long long)v, ok ? "" : ": out of memory");
    return ok;
}

// One client, simulated time only passes when the plan says so.
template <std::size_t N, bool Exc>
void run_seq_t(Plan const& p)
{
    using C = lru<Key, Msg, N, Exc>;
    hash_mod       = u64(p.get("hash", 3));
    Msg::live      = 0;
    Key::live      = 0;
    if (N > 255) sim::set_step_limit(30'000'000);
    if (p.get("many")) sim::set_step_limit(300'000'000);
    i64 const exp  = p.get("expire");
    u64 const base = sim::arena_live_blocks();
    struct Side {    // a cache and what the reference caches hold; one or two of them, which must not know of each other
        C*              c;
        std::set<Model> models;
        i64             exp;
    };
    std::vector<Side> sides;
    for (int i = 0; i <= p.get("twin"); i++) {
        i64 const e = i ? p.get("expire2") : exp;
        sides.push_back({sim::make<C>(std::chrono::nanoseconds(e)), {Model{}}, e});
        for (auto& x : sides)
            if (x.c->expired_after() != std::chrono::nanoseconds(x.exp)) sim::fail("wrong-expiry", "expired_after() is not what the cache was built with");
    }
    if (sides.size() > 1) sim::probe("two_caches");
    sim::freeze(true);
    if (p.get("enomem")) sim::arm(sim::F_ENOMEM, u32(p.get("enomem")));
    u64             vers = 0;
    auto            check_get = [&](Side& x, u64 k) {
        auto& [c, models, exp] = x;
        Res             r = do_get(c, k);
        std::set<Model> next;
        Res             want;
        for (auto m : models) {
            if (r.kind == Res::FAILED) {
                next.insert(m);    // no effect, not even as a use of the entry
                continue;
            }
            want = m_get(m, k, sim::real_ns(), exp);
            auto wk = want.kind;
            if (!Exc && wk == Res::EXPIRED) wk = Res::MISS;
            if (wk == r.kind && (r.kind != Res::HIT || (r.key == want.key && r.val == want.val && r.ts == want.ts))) next.insert(m);
            if (want.kind == Res::EXPIRED) sim::probe("expired_entry_read");
        }
        if (next.empty())
            sim::fail("wrong-result", "get(%llu) gave %s (value %llu, time %lld); the reference cache gives %s (value %llu, time %lld)", (unsigned long long)k, res_name(r.kind), (unsigned long long)r.val,
                      (long long)r.ts, res_name(want.kind), (unsigned long long)want.val, (long long)want.ts);
        models = std::move(next);
    };
    for (auto& o : p.ops) {
        auto& x                    = sides[std::size_t(o.th) % sides.size()];
        auto& [c, models, ignored] = x;
        for (i64 rep = 0; rep < std::max<i64>(1, o.b); rep++)    // keys a, a+1, ...
        switch (u64 const key = u64(1 + (o.a - 1 + rep) % p.get("keys")); o.kind) {
        case PUT: {
            bool ok = do_put(c, key, ++vers);
            if (ok) {
                std::set<Model> next;
                for (auto& m : models) {
                    if (m.size() == N) sim::probe("put_into_full_cache");
                    next.insert(m_put(m, key, vers, sim::real_ns(), N));
                }
                models = std::move(next);
            } else {
                sim::probe("put_failed_on_allocation");
            }
            break;
        }
        case GET: check_get(x, key); break;
        case SLEEP: sim::sleep_ns(o.a); break;
        default: sim::jump_wall(o.a);
        }
        std::size_t size = 0;
        for (auto& y : sides) size += y.models.begin()->size();
        if (u64(Msg::live) != size) sim::fail("entry-count", "the cache holds %lld values, the reference holds %zu", (long long)Msg::live, size);
    }
    sim::disarm_all();
    if (p.get("many")) sim::probe("more_than_65536_operations");
    // Drain: evict everything with fresh keys, looking at what is left after each step.
    for (auto& x : sides) {
        auto& [c, models, ignored] = x;
        if (N > 255) sim::probe("hundreds_of_entries", models.begin()->size() > 255);
        for (u64 i = 0; i <= (N > 255 ? 3 : N); i++) {
            for (u64 k = 1; k <= u64(p.get("keys")); k++) {
                // a look at membership only: reading moves entries, in the model as well
                check_get(x, k);
            }
            ++vers;
            if (!do_put(c, 1000 + i, vers)) sim::fail("wrong-result", "put threw with memory available");
            std::set<Model> next;
            for (auto& m : models) next.insert(m_put(m, 1000 + i, vers, sim::real_ns(), N));
            models = std::move(next);
        }
        sim::destroy(c);
    }
    if (Msg::live || Key::live) sim::fail("memory-leak", "%lld values and %lld keys outlive the cache", (long long)Msg::live, (long long)Key::live);
    if (sim::arena_live_blocks() != base) sim::fail("memory-leak", "heap blocks outlive the cache");
}
template <bool Exc>
void seq_any(Plan const& p)
{
    switch (p.get("cap")) {
    case 1: return run_seq_t<1, Exc>(p);
    case 2: return run_seq_t<2, Exc>(p);
    case 3: return run_seq_t<3, Exc>(p);
    case 5: return run_seq_t<5, Exc>(p);
    case 300: return run_seq_t<300, Exc>(p);
    default: return run_seq_t<8, Exc>(p);
    }
}
void run_seq(Plan const& p) { p.get("exc") ? seq_any<true>(p) : seq_any<false>(p); }

Plan gen_seq(Rng& r, int tier)
{
    Plan p;
    p.p["cap"]    = r.pick({1, 2, 3, 5, 8});
    p.p["keys"]   = r.range(1, p.get("cap") + 3);
    p.p["exc"]    = r.chance(1, 2);
    p.p["hash"]   = r.pick({1, 2, 3, 1000});
    p.p["expire"] = 3600 * SEC;
    p.p["enomem"] = r.chance(1, 2) ? r.range(1, 20) : 0;
    int n         = int(r.range(3, tier ? 60 : 30));
    if (r.chance(1, 3'000)) {    // hundreds of entries
        p.p["cap"]  = 300;
        p.p["keys"] = r.range(290, 330);
        p.p["hash"] = r.pick({7, 100, 1000});
        if (p.get("enomem")) p.p["enomem"] = r.range(50, 500);
        for (int i = int(r.range(3, 6)); i > 0; i--) p.ops.push_back(Op{0, r.chance(3, 4) ? PUT : GET, r.range(1, p.get("keys")), r.range(1, 320), 0});
        return p;
    }
    for (int i = 0; i < n; i++) p.ops.push_back(Op{0, r.chance(3, 5) ? PUT : GET, r.range(1, p.get("keys")), 0, 0});
    if (r.chance(1, 8)) {
        p.p["twin"]    = 1;
        p.p["expire2"] = r.pick<i64>({3600 * SEC, 3650 * 86400 * SEC});
        for (auto& o : p.ops) o.th = int(r.below(2));
        return p;
    }
    if (r.chance(1, 40'000)) {    // a long life
        p.p["many"]   = 1;
        p.p["enomem"] = 0;
        p.ops.insert(p.ops.begin(), Op{0, r.chance(3, 4) ? PUT : GET, 1, 66'000, 0});
        if (r.chance(1, 2)) p.ops.insert(p.ops.begin(), Op{0, PUT, 1, r.range(1, 10), 0});
    }
    return p;
}
Plan gen_expiry(Rng& r, int tier)
{
    Plan p        = gen_seq(r, tier);
    p.p["enomem"] = r.chance(1, 5) ? r.range(3, 20) : 0;
    p.p["expire"] = r.pick<i64>({0, 1, 1000, 5 * MS, 100 * MS, 3600 * SEC, 40 * 86400 * SEC, 3650 * 86400 * SEC, INT64_MAX, INT64_MAX - 1, INT64_MAX / 2});
    i64 const e   = p.get("expire");
    i64       off = 0;    // stay within a century of today
    std::vector<Op> ops;
    for (auto& o : p.ops) {
        if (r.chance(1, 3)) {
            i64 d = std::max<i64>(1, r.pick<i64>({e, e - 1, e + 1, e / 2, 1, e / 3}));
            if (d > 3650 * 86400 * SEC) d = r.range(1, 3650 * (86400 * SEC));    // practically for ever
            if (r.chance(1, 4) && d < 86400 * SEC) d *= 1000;
            bool const pass = r.chance(1, 2);
            if (!pass && r.chance(1, 2)) d = -d;
            i64 const century = 36500 * (86400 * SEC);
            if (off + d > century || off + d < -century / 2) continue;
            off += d;
            ops.push_back(Op{0, pass ? SLEEP : JUMP, d, 0, 0});
        }
        ops.push_back(o);
    }
    p.ops = ops;
    return p;
}
std::string describe(Op const& o)
{
    char b[128];
    switch (o.kind) {
    case PUT:
    case GET:
        snprintf(b, sizeof b, "%d: %s key %lld", o.th, o.kind == PUT ? "puts" : "gets", (long long)o.a);
        if (o.b > 1) return std::string(b) + " and the " + std::to_string(o.b - 1) + " after it";
        break;
    case SLEEP: snprintf(b, sizeof b, "%lldns pass", (long long)o.a); break;
    default: snprintf(b, sizeof b, "wall clock jumps by %lldns", (long long)o.a);
    }
    return b;
}

// Several clients: the history must be linearizable with respect to the reference cache.
struct Ev {
    int kind;
    u64 key, val;
    Res res;
    u64 inv, ret;
    i64 t0 = 0, t1 = 0;    // wall clock at call and return
};
struct Lin {
    std::vector<Ev>            h;
    std::size_t                cap;
    i64                        life;
    std::set<std::pair<u64, std::vector<u64>>> seen;
    u64                        work = 0;
    bool                       solve(u64 done, Model const& m)
    {
        if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
        std::vector<u64> key;
        for (auto& e : m) {
            key.push_back(e.key);
            key.push_back(e.val);
        }
        if (!seen.insert({done, key}).second) return false;
        if (++work > 400'000) {
            sim::probe("linearizability_search_given_up");
            return true;
        }
        u64 first_ret = ~0ull;
        for (std::size_t i = 0; i < h.size(); i++)
            if (!(done >> i & 1)) first_ret = std::min(first_ret, h[i].ret);
        for (std::size_t i = 0; i < h.size(); i++) {
            if (done >> i & 1 || h[i].inv > first_ret) continue;
            auto& e = h[i];
            if (e.kind == PUT) {
                if (solve(done | 1ull << i, m_put(m, e.key, e.val, i64(i), cap))) return true;
            } else {
                // The put and the lookup read the clock at some instant between their calls and returns.
                Model n = m;
                Res   r = m_get(n, e.key, 0, INT64_MAX);
                if (r.kind == Res::HIT) {
                    Ev const&  put  = h[u64(r.ts)];
                    bool const live = e.t0 - put.t1 < life, old = e.t1 - put.t0 >= life;
                    if (e.res.kind == Res::EXPIRED && old) {
                        if (solve(done | 1ull << i, m)) return true;
                    } else if (e.res.kind == Res::HIT && live && r.val == e.res.val && r.key == e.res.key && e.res.ts >= put.t0 && e.res.ts <= put.t1) {
                        if (solve(done | 1ull << i, n)) return true;
                    }
                } else if (e.res.kind == r.kind && solve(done | 1ull << i, m)) {
                    return true;
                }
            }
        }
        return false;
    }
};
struct Nest {
    std::map<int, int>    which;    // fiber -> the cache it is using: 1 or 2
    i64                   left = 0;
    std::function<void()> look;
};
Nest* NEST;
template <std::size_t N>
void run_conc_t(Plan const& p)
{
    using C = lru<Key, Msg, N, true>;
    hash_mod  = u64(p.get("hash", 3));
    Msg::live = Key::live = 0;
    if (p.get("stall")) sim::stall_mode(true);
    if (p.get("races")) sim::race_mode(true);
    if (p.get("spurious")) sim::arm(sim::F_SPURIOUS, u32(p.get("spurious")));
    u64 const       base = sim::arena_live_blocks();
    i64 const       life = p.get("expire", 36'000'000 * SEC);
    C*              caches[2] = {sim::make<C>(std::chrono::nanoseconds(life)), nullptr};
    std::vector<Ev> hists[2];
    int const       nc   = p.get("twin") ? 2 : 1;    // a second cache must be a world of its own
    if (nc > 1) caches[1] = sim::make<C>(std::chrono::nanoseconds(life)), sim::probe("two_caches");
    u64             vers = 0;
    // Copying a key of the first cache may look something up in the second.
    Nest n;
    n.left      = nc > 1 ? p.get("nest") : 0;
    NEST        = &n;
    Key::copied = n.left ? +[] {
        if (NEST->left <= 0 || NEST->which[sim::self()] != 1) return;
        sim::Harness h;
        if (--NEST->left) return;
        sim::probe("second_cache_used_from_a_copy");
        NEST->look();
    } : nullptr;
    std::function<void(int, u64, i64)> op = [&](int kind, u64 k, i64 which) {
        int const was       = n.which[sim::self()];
        n.which[sim::self()] = which % nc ? 2 : 1;
        C*    c    = caches[which % nc];
        auto& hist = hists[which % nc];
        Ev e{kind, k, ++vers, {}, sim::seq(), 0, sim::real_ns()};
        if (kind == PUT) {
            if (!do_put(c, k, e.val)) sim::fail("wrong-result", "put threw with memory available");
        } else e.res = do_get(c, k);
        e.ret = sim::seq();
        e.t1  = sim::real_ns();
        if (e.res.kind == Res::EXPIRED) sim::probe("expired_entry_read");
        hist.push_back(e);
        n.which[sim::self()] = was;
    };
    n.look = [&] { op(p.get("nest") % 2 ? PUT : GET, 1 + u64(p.get("nest")) % u64(p.get("keys")), 1); };
    std::vector<u64> ids;
    for (int t = 0; t < int(p.get("threads")); t++)
        ids.push_back(sim::spawn(
            [&, t] {
                for (auto& o : p.ops)
                    if (o.th == t) {
                        if (o.kind == SLEEP) sim::sleep_ns(o.a);
                        else op(o.kind, u64(o.a), o.b);
                    }
            },
            "client"));
    for (auto i : ids) sim::join(i);
    Key::copied = nullptr;
    if (Msg::live > i64(N) * nc) sim::fail("entry-count", "the caches hold %lld values, their capacity is %zu", (long long)Msg::live, N);
    for (int w = 0; w < nc; w++) {
        auto& hist    = hists[w];
        u64   overlap = 0;
        for (auto& a : hist)
            for (auto& b : hist)
                if (&a != &b && a.inv < b.inv && b.inv < a.ret) overlap++;
        sim::probe("overlapping_operations", overlap);
        // What is left, and in which order it goes.
        for (u64 i = 0; i < N && hist.size() < 40; i++) {
            op(PUT, 1000 + i, w);
            for (u64 k = 1; k <= u64(p.get("keys")); k++) op(GET, k, w);
        }
        Lin l;
        l.h    = hist;
        l.cap  = N;
        l.life = life;
        if (!l.solve(0, Model{})) sim::fail("not-linearizable", "no sequential order of the %zu operations explains their results", hist.size());
        sim::destroy(caches[w]);
    }
    if (Msg::live || Key::live) sim::fail("memory-leak", "%lld values and %lld keys outlive the cache", (long long)Msg::live, (long long)Key::live);
    if (sim::arena_live_blocks() != base) sim::fail("memory-leak", "heap blocks outlive the cache");
}
void run_conc(Plan const& p)
{
    switch (p.get("cap")) {
    case 1: return run_conc_t<1>(p);
    case 2: return run_conc_t<2>(p);
    default: return run_conc_t<3>(p);
    }
}
Plan gen_conc(Rng& r, int)
{
    Plan p;
    p.p["cap"]     = r.range(1, 3);
    p.p["keys"]    = r.range(1, p.get("cap") + 2);
    p.p["hash"]    = r.pick({1, 2, 1000});
    p.p["threads"] = r.range(2, 3);
    p.p["stall"]   = r.chance(1, 3);
    p.p["races"]   = r.chance(1, 3);
    p.p["spurious"]  = r.chance(1, 6) ? r.range(2, 12) : 0;
    int n          = int(r.range(2, 14));
    if (r.chance(1, 4)) p.p["expire"] = r.pick<i64>({20 * US, 1 * MS, 50 * MS});
    for (int i = 0; i < n; i++) {
        int const th = int(r.below(u64(p.get("threads"))));
        if (p.p.count("expire") && r.chance(1, 3)) p.ops.push_back(Op{th, SLEEP, r.range(p.get("expire") / 4, p.get("expire") * 5 / 4), 0, 0});
        p.ops.push_back(Op{th, r.chance(3, 5) ? PUT : GET, r.range(1, p.get("keys")), 0, 0});
    }
    if (r.chance(1, 6)) {
        p.p["twin"] = 1;
        for (auto& o : p.ops) o.b = i64(r.below(2));
        if (r.chance(1, 3)) p.p["nest"] = r.range(1, 6);
    }
    return p;
}

sim::Register r1({"lru_values", "C01", gen_seq, run_seq, describe, "allocation failure inside put and get (copies of keys and values, list and hash nodes, rehashing)", 2});
sim::Register r1b({"lru_values_expiring", "C01", gen_expiry, run_seq, describe, "wall-clock jumps, passing time, allocation failure"});
sim::Register r2({"lru_expiry", "C02", gen_expiry, run_seq, describe, "wall-clock jumps of both signs around the expiry boundary, passing time, allocation failure"});
sim::Register r3({"lru_concurrent", "C03", gen_conc, run_conc, describe, "preemption at every memory access and lock operation, descheduled lock holders"});
}    // namespace
