// xitren::func::fast_pimpl.
#include "common.hpp"

#include <cstddef>

#include <xitren/func/fast_pimpl.hpp>

#include <memory>
#include <vector>

using namespace xitren::func;

namespace {
struct Boom : std::exception {};
struct Stats {
    i64 live = 0, made = 0, copied = 0, moved = 0, assigned = 0, move_assigned = 0, killed = 0;
};
Stats S;
void  maybe(sim::Fault k = sim::F_THROW)
{
    sim::Harness h;
    if (sim::fault(k)) throw Boom{};
}
// Knows its own address, owns memory, and its constructors may throw.
template <std::size_t Pad, std::size_t Al>
struct alignas(Al) Inner {
    Inner* self;
    u64*   box = nullptr;
    u64    v;
    u64    magic;
    unsigned char pad[Pad];
    static constexpr u64 LIVE = 0x11fe11fe11fe, DEAD = 0xdeaddeaddead;
    void                 born()
    {
        self  = this;
        magic = LIVE;
        memset(pad, int(v & 255), Pad);
        ++S.live;
    }
    void check() const
    {
        sim::Harness h;
        if (magic != LIVE) sim::fail("dead-object", "the wrapper hands out an object that is not alive");
        if (self != this) sim::fail("moved-bytes", "the object was moved as bytes");
        for (unsigned char c : pad)
            if (c != (v & 255)) sim::fail("corrupted", "the object's bytes changed");
        if (box && *box != v) sim::fail("corrupted", "the object's memory changed");
    }
    Inner() : v(0)
    {
        maybe();
        box = new u64(v);
        born();
        ++S.made;
    }
    explicit Inner(u64 x) : v(x)
    {
        box = new u64(v);
        try {
            maybe();
        } catch (...) {
            delete box;
            throw;
        }
        born();
        ++S.made;
    }
    Inner(u64 a, u64 const& b, u64* c, std::unique_ptr<u64> d) : v(a + b + *c + *d)    // forwarded by value, reference, pointer, rvalue
    {
        maybe();
        *c += 1;
        box = new u64(v);
        born();
        ++S.made;
    }
    Inner(Inner const& o) : v(o.v)
    {
        o.check();
        maybe();
        box = o.box ? new u64(v) : nullptr;
        born();
        ++S.copied;
    }
    Inner(Inner&& o) : v(o.v)
    {
        o.check();
        maybe();
        box   = o.box;
        o.box = nullptr;
        born();
        ++S.moved;
    }
    Inner& operator=(Inner const& o)
    {
        check();
        o.check();
        maybe();
        u64* nb = o.box ? new u64(o.v) : nullptr;
        delete box;
        box = nb;
        v   = o.v;
        memset(pad, int(v & 255), Pad);
        ++S.assigned;
        return *this;
    }
    Inner& operator=(Inner&& o)
    {
        check();
        o.check();
        maybe();
        if (&o != this) {
            delete box;
            box   = o.box;
            o.box = nullptr;
        }
        v = o.v;
        memset(pad, int(v & 255), Pad);
        ++S.move_assigned;
        return *this;
    }
    ~Inner()
    {
        check();
        delete box;
        magic = DEAD;
        self  = nullptr;
        --S.live;
        ++S.killed;
    }
};
enum Kind { MAKE, MAKE0, MAKE4, COPY, MOVE, ASSIGN, MOVE_ASSIGN, KILL, USE, WRITE, VECTOR };
char const* kname[] = {"construct", "construct()", "construct(4 arguments)", "copy-construct", "move-construct", "copy-assign", "move-assign", "destroy", "read", "write", "keep in a vector"};

template <class T, class P>
void run_t(Plan const& p)
{
    u64 blocks = sim::arena_live_blocks();
    S          = Stats{};
    constexpr int N = 6;
    P*            w[N]{};
    u64           v[N]{};
    auto          live = [&] {
        i64 n = 0;
        for (auto* x : w) n += x != nullptr;
        return n;
    };
    auto check = [&] {
        if (S.live != live()) sim::fail("lifetime", "%lld objects are alive in %lld wrappers", (long long)S.live, (long long)live());
        for (int i = 0; i < N; i++) {
            if (!w[i]) continue;
            T const *a, *b;
            {
                sim::Sut u;
                P const& c = *w[i];
                a          = &*c;
                b          = c.operator->();
                if (&**w[i] != a || w[i]->operator->() != b) a = nullptr;
            }
            if (a != b || !a) sim::fail("identity", "the wrapper gives out different objects");
            if ((char const*)a < (char*)w[i] || (char const*)(a + 1) > (char*)(w[i] + 1)) sim::fail("identity", "the object is outside its wrapper");
            if (reinterpret_cast<std::uintptr_t>(a) % alignof(T)) sim::fail("identity", "the object is misaligned");
            a->check();
            if (a->v != v[i]) sim::fail("wrong-value", "wrapper %d holds %llu, expected %llu", i, (unsigned long long)a->v, (unsigned long long)v[i]);
        }
    };
    if (p.get("throw")) sim::arm(sim::F_THROW, u32(p.get("throw")));
    if (p.get("enomem")) sim::arm(sim::F_ENOMEM, u32(p.get("enomem")));
    u64 next = 1;
    for (auto& o : p.ops) {
        int   i = int(o.a), j = int(o.b);
        u64   x = ++next * 7919 % 100003, val = 0;
        auto  start = [&](auto f) {    // construct into slot i
            if (w[i]) return;
            Stats before = S;
            P*   m  = static_cast<P*>(sim::arena_alloc(sizeof(P), alignof(P)));
            bool ok = true;
            try {
                sim::Sut    u;
                sim::Faulty t;
                f(m);
            } catch (Boom const&) {
                ok = false;
                sim::probe("constructor_threw");
            } catch (std::bad_alloc const&) {
                ok = false;
                sim::probe("constructor_out_of_memory");
            }
            if (ok) {
                w[i] = m, v[i] = val;
                i64 made = o.kind <= MAKE4, copied = o.kind == COPY, moved = o.kind == MOVE;
                if (S.made - before.made != made || S.copied - before.copied != copied || S.moved - before.moved != moved)
                    sim::fail("lifetime", "%s made %lld objects anew, %lld by copying, %lld by moving", kname[o.kind], (long long)(S.made - before.made), (long long)(S.copied - before.copied), (long long)(S.moved - before.moved));
            } else sim::arena_free(m);
            sim::log("%s %d: %s", kname[o.kind], i, ok ? "ok" : "threw");
            if (S.live != live()) sim::fail("lifetime", "%lld objects are alive in %lld wrappers after %s %s", (long long)S.live, (long long)live(), kname[o.kind], ok ? "" : "threw");
        };
        // An assignment of holders is one assignment of the objects, and nothing else.
        auto assign = [&](bool copied, auto f) {
            Stats before = S;
            bool  ok     = f();
            if (i == j && S.assigned == before.assigned && S.move_assigned == before.move_assigned) return ok;    // nothing to do
            if (S.made != before.made || S.copied != before.copied || S.moved != before.moved || S.assigned - before.assigned != (ok && copied) || S.move_assigned - before.move_assigned != (ok && !copied))
                sim::fail("lifetime", "%s made %lld objects, copied %lld, moved %lld, copy-assigned %lld, move-assigned %lld", kname[o.kind], (long long)(S.made - before.made), (long long)(S.copied - before.copied),
                          (long long)(S.moved - before.moved), (long long)(S.assigned - before.assigned), (long long)(S.move_assigned - before.move_assigned));
            return ok;
        };
        auto run = [&](auto f) {
            try {
                sim::Sut    u;
                sim::Faulty t;
                f();
                return true;
            } catch (Boom const&) {
                sim::probe("assignment_threw");
            } catch (std::bad_alloc const&) {
                sim::probe("assignment_out_of_memory");
            }
            return false;
        };
        switch (o.kind) {
        case MAKE:
            val = x;
            start([&](P* m) { new (m) P(x); });
            break;
        case MAKE0:
            val = 0;
            start([&](P* m) { new (m) P(); });
            break;
        case MAKE4: {
            u64 b = x % 11, c = x % 13, c0 = c;
            val   = x + b + c + 5;
            bool was = w[i];
            start([&](P* m) { new (m) P(x, b, &c, std::make_unique<u64>(5)); });
            if (!was && w[i] && c != c0 + 1) sim::fail("forwarding", "an argument given by pointer was not the caller's");
            break;
        }
        case COPY:
            if (!w[j] || i == j) break;
            val = v[j];
            start([&](P* m) { new (m) P(std::as_const(*w[j])); });
            break;
        case MOVE:
            if (!w[j] || i == j) break;
            val = v[j];
            start([&](P* m) { new (m) P(std::move(*w[j])); });
            break;
        case ASSIGN:
            if (!w[i] || !w[j]) break;
            if (assign(true, [&] { return run([&] { *w[i] = std::as_const(*w[j]); }); })) v[i] = v[j];
            sim::log("assign %d = %d", i, j);
            break;
        case MOVE_ASSIGN:
            if (!w[i] || !w[j]) break;
            if (assign(false, [&] { return run([&] { *w[i] = std::move(*w[j]); }); })) v[i] = v[j];
            sim::log("move-assign %d = %d", i, j);
            break;
        case KILL:
            if (!w[i]) break;
            sim::log("destroy %d", i);
            sim::destroy(w[i]);
            w[i] = nullptr;
            break;
        case WRITE:    // copies are independent
            if (!w[i] || !(*w[i])->box) break;
            {
                sim::Sut u;
                (*w[i])->v    = x;
                *(**w[i]).box = x;
                memset((*w[i])->pad, int(x & 255), sizeof((*w[i])->pad));
            }
            v[i] = x;
            break;
        case VECTOR: {
            i64 before = S.live;
            run([&] {
                std::vector<P> q;
                for (i64 k = 0; k < o.c; k++) q.emplace_back(u64(k));
                if (o.c > 1) q.erase(q.begin());
                for (i64 k = 0; k + 1 < o.c; k++) q[std::size_t(k)]->check();
                for (i64 k = 0; k + 1 < o.c; k++)
                    if (q[std::size_t(k)]->v != u64(k + 1)) sim::fail("wrong-value", "a wrapper in a vector holds %llu, expected %lld", (unsigned long long)q[std::size_t(k)]->v, (long long)k + 1);
            });
            if (S.live != before) sim::fail("lifetime", "%lld objects outlive the vector of their wrappers", (long long)(S.live - before));
            break;
        }
        default: break;
        }
        check();
    }
    sim::disarm_all();
    for (auto*& x : w)
        if (x) {
            sim::destroy(x);
            x = nullptr;
        }
    if (S.live) sim::fail("lifetime", "%lld objects are alive without a wrapper", (long long)S.live);
    if (S.made + S.copied + S.moved != S.killed) sim::fail("lifetime", "%lld objects were made and %lld destroyed", (long long)(S.made + S.copied + S.moved), (long long)S.killed);
    if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "heap blocks are left");
}
void run(Plan const& p)
{
    using A = Inner<8, 8>;
    using B = Inner<40, 16>;
    using C = Inner<1, 64>;
    switch (p.get("type")) {
    case 0: return run_t<A, fast_pimpl<A, sizeof(A), alignof(A), true>>(p);
    case 1: return run_t<A, fast_pimpl<A, sizeof(A) + 24, 16>>(p);
    case 2: return run_t<B, fast_pimpl<B, sizeof(B), 16, true>>(p);
    case 3: return run_t<B, fast_pimpl<B, 256, 32>>(p);
    default: return run_t<C, fast_pimpl<C, sizeof(C), 64>>(p);
    }
}
Plan gen(Rng& r, int tier)
{
    Plan p;
    p.p["type"]   = r.range(0, 4);
    p.p["throw"]  = r.chance(2, 3) ? r.range(2, 20) : 0;
    p.p["enomem"] = r.chance(1, 3) ? r.range(2, 20) : 0;
    int n         = int(r.range(4, tier ? 60 : 30));
    for (int i = 0; i < n; i++) {
        Op o;
        o.kind = r.chance(1, 3) ? int(r.range(MAKE, MAKE4)) : int(r.range(MAKE, VECTOR));
        o.a    = r.range(0, 5);
        o.b    = r.range(0, 5);
        o.c    = r.range(0, 6);
        p.ops.push_back(o);
    }
    return p;
}
std::string describe(Op const& o)
{
    char b[96];
    snprintf(b, sizeof b, "%s %lld (from %lld)", kname[o.kind], (long long)o.a, (long long)o.b);
    return b;
}
sim::Register r1({"pimpl", "I01", gen, run, describe, "constructors, copies, moves and assignments of the held object that throw, allocation failure"});
}    // namespace
