// xitren::comm::manager and module (mediator).
#include "common.hpp"

#include <cstring>

#include <xitren/comm/mediator.hpp>

#include <algorithm>
#include <memory>

using namespace xitren::comm;

namespace {
struct Alpha {
    std::uint32_t v;
};
struct Beta {
    std::uint64_t v, w;
};
struct Gamma {    // as large as Beta
    std::uint64_t v, w;
};
struct Delta {
    std::uint8_t b[300];
};
struct Eps {
    std::uint8_t b;
};
u64 mix(u64 x) { return Rng(x).next(); }
void fill(Alpha& d, u64 n) { d.v = std::uint32_t(mix(n)); }
void fill(Beta& d, u64 n) { d.v = mix(n), d.w = ~mix(n + 1); }
void fill(Gamma& d, u64 n) { d.v = mix(n), d.w = mix(n + 7); }
void fill(Delta& d, u64 n)
{
    u64 const x = mix(n);
    for (std::size_t i = 0; i < sizeof d.b; i++) d.b[i] = std::uint8_t(x >> (i % 8 * 8)) + std::uint8_t(i);
}
void fill(Eps& d, u64 n) { d.b = std::uint8_t(mix(n)); }
enum Type { ALPHA, BETA, GAMMA, DELTA, EPS, NTYPES };
char const* tname[] = {"Alpha", "Beta", "Gamma", "Delta", "Eps"};
template <class D>
constexpr int type_of = std::is_same_v<D, Alpha> ? ALPHA : std::is_same_v<D, Beta> ? BETA : std::is_same_v<D, Gamma> ? GAMMA : std::is_same_v<D, Delta> ? DELTA : EPS;
template <class D>
std::size_t id_of()
{
    return std::hash<std::string>{}(typeid(D).name());
}

enum Kind { CREATE, DESTROY, SEND, MSEND, RAW, LEAVE, JOIN, THROW };
char const* kname[] = {"create", "destroy", "send", "manager.send", "distribute raw", "leave", "join", "throw"};
struct Boom : std::exception {};

struct Slot;
struct Frame {
    int              mgr, type;
    u64              n;
    bool             valid, by_module;
    bool             hooked = false;
    int              sender = -1;    // slot of the sending module (-1: the manager)
    int              inside = -1;    // slot of the module that is being told
    std::vector<int> order;          // due receivers when the distribution began
    std::set<int>    must, got;
    std::ptrdiff_t   last = -1;
};
struct Box {
    virtual ~Box()                                         = default;
    virtual void          send(u64 n)                      = 0;
    virtual base::module& base_module()                    = 0;
    virtual void          kill()                           = 0;
    int                   sends    = 0;
    u32                   receives = 0;    // bit per type
};
struct ManagerBox {
    virtual ~ManagerBox()                                  = default;
    virtual base::manager& get()                           = 0;
    virtual void           send(int type, u64 n)           = 0;
    virtual void           kill()                          = 0;
    std::size_t            cap = 0;
};
struct World {
    Plan const*                              plan{};
    std::vector<std::unique_ptr<ManagerBox>> mgr;
    std::vector<std::unique_ptr<Box>>        mod;       // by slot
    std::vector<int>                         owner;     // manager of the slot's module
    std::vector<std::vector<int>>            reg;       // per manager, in registration order
    std::vector<Frame>                       frames;
    std::map<int, u64>                       told;      // per slot
    u64                                      seq = 0, nested = 0;
    int                                      depth = 0;
};
World* W;
void   perform(Op const& o);
template <class D>
void told(int slot, D const& d);

template <class Sends, class... Recvs>
struct Mod;
// One data() overrider per received type.
template <class M, class Base, class... R>
struct Taker;
template <class M, class Base>
struct Taker<M, Base> : Base {
    using Base::Base;
};
template <class M, class Base, class D, class... R>
struct Taker<M, Base, D, R...> : Taker<M, Base, R...> {
    using Taker<M, Base, R...>::Taker;
    void data(D const& d) override
    {
        sim::Harness h;
        static_cast<M*>(this)->check();
        told(static_cast<M*>(this)->slot, d);
    }
};
template <class Sends, class... Recvs>
struct Mod : Taker<Mod<Sends, Recvs...>, module<Sends, Recvs...>, Recvs...> {
    using Up = Taker<Mod<Sends, Recvs...>, module<Sends, Recvs...>, Recvs...>;
    int slot;
    u64 magic = 0xabcdef;
    Mod(base::manager& m, int s) : Up(m), slot(s) {}
    ~Mod() { magic = 0; }
    void check()
    {
        if (magic != 0xabcdef) sim::fail("dead-module-told", "a destroyed module was told");
    }
};
template <class Sends, class... Recvs>
struct BoxOf : Box {
    using M = Mod<Sends, Recvs...>;
    M* m;
    BoxOf(base::manager& g, int slot)
    {
        sim::Faulty f;
        m        = make_derived<M>(g, slot);
        sends    = type_of<Sends>;
        receives = ((1u << type_of<Recvs>) | ... | 0u);
    }
    void send(u64 n) override
    {
        Sends d{};
        fill(d, n);
        sim::Sut    u;
        sim::Faulty f;
        m->send(d);
    }
    base::module& base_module() override { return *m; }
    void          kill() override { destroy_as<base::module>(m); }
};
std::unique_ptr<Box> make_module(i64 kind, base::manager& g, int slot)
{
    switch (kind) {
    case 0: return std::make_unique<BoxOf<Alpha, Beta>>(g, slot);
    case 1: return std::make_unique<BoxOf<Beta, Gamma, Alpha>>(g, slot);
    case 2: return std::make_unique<BoxOf<Gamma, Beta, Alpha, Delta>>(g, slot);
    case 3: return std::make_unique<BoxOf<Delta, Alpha, Beta, Gamma, Eps>>(g, slot);
    case 4: return std::make_unique<BoxOf<Delta>>(g, slot);
    case 5: return std::make_unique<BoxOf<Alpha, Alpha, Beta, Gamma, Delta, Eps>>(g, slot);    // never hears another Alpha sender
    case 6: return std::make_unique<BoxOf<Eps, Gamma>>(g, slot);
    default: return std::make_unique<BoxOf<Beta, Delta, Eps, Beta>>(g, slot);
    }
}
constexpr int MODKINDS = 8;

template <std::size_t N>
struct Manager : manager<N> {
    int me;
    explicit Manager(int i) : me(i) {}
    void data(std::size_t id, std::uint8_t* p, std::size_t n) override
    {
        sim::Harness h;
        World&       w = *W;
        sim::log("manager %d sees %zu bytes", me, n);
        if (w.frames.empty() || w.frames.back().mgr != me || !w.frames.back().by_module) sim::fail("unexpected-hook", "data() of manager %d was called without a module's send", me);
        Frame& f = w.frames.back();
        if (f.hooked) sim::fail("hook-twice", "data() of manager %d was called twice for one message", me);
        if (!f.got.empty()) sim::fail("hook-late", "data() of manager %d was called after modules had been told", me);
        f.hooked = true;
        switch (f.type) {
        case ALPHA: same<Alpha>(f, id, p, n); break;
        case BETA: same<Beta>(f, id, p, n); break;
        case GAMMA: same<Gamma>(f, id, p, n); break;
        case DELTA: same<Delta>(f, id, p, n); break;
        default: same<Eps>(f, id, p, n); break;
        }
    }
    template <class D>
    void same(Frame const& f, std::size_t id, std::uint8_t* p, std::size_t n)
    {
        if (id != id_of<D>()) sim::fail("wrong-id", "data() of manager %d was given another sender's id", me);
        bool refused = false;
        D    d{}, want{};
        try {
            sim::Sut u;
            d = this->template convert_field<D>(p, n);
        } catch (std::bad_alloc const&) {
            throw;
        } catch (std::exception const&) {
            refused = true;
        }
        if (refused != !f.valid) sim::fail("wrong-size", "convert_field %s %zu bytes for %s", refused ? "refused" : "accepted", n, tname[f.type]);
        fill(want, f.n);
        if (f.valid && memcmp(&d, &want, sizeof d)) sim::fail("corrupt-data", "data() of manager %d was given other bytes than were sent", me);
    }
};
template <std::size_t N>
struct ManagerOf : ManagerBox {
    Manager<N>* m;
    explicit ManagerOf(int i) : m(make_derived<Manager<N>>(i)) { cap = N; }
    base::manager& get() override { return *m; }
    template <class D>
    void go(u64 n)
    {
        D d{};
        fill(d, n);
        sim::Sut    u;
        sim::Faulty f;
        m->send(d);
    }
    void send(int type, u64 n) override
    {
        switch (type) {
        case ALPHA: return go<Alpha>(n);
        case BETA: return go<Beta>(n);
        case GAMMA: return go<Gamma>(n);
        case DELTA: return go<Delta>(n);
        default: return go<Eps>(n);
        }
    }
    void kill() override { destroy_as<base::manager>(m); }
};
std::unique_ptr<ManagerBox> make_manager(i64 cap, int i)
{
    switch (cap) {
    case 1: return std::make_unique<ManagerOf<1>>(i);
    case 2: return std::make_unique<ManagerOf<2>>(i);
    case 3: return std::make_unique<ManagerOf<3>>(i);
    case 5: return std::make_unique<ManagerOf<5>>(i);
    case 300: return std::make_unique<ManagerOf<300>>(i);
    default: return std::make_unique<ManagerOf<8>>(i);
    }
}

template <class D>
void told(int slot, D const& d)
{
    World& w = *W;
    int    t = type_of<D>;
    sim::log("module %d gets %s", slot, tname[t]);
    if (w.frames.empty()) sim::fail("unexpected-delivery", "module %d was told outside any send", slot);
    std::size_t fi = w.frames.size() - 1;
    Frame&      f  = w.frames[fi];
    if (t != f.type) sim::fail("wrong-type", "module %d was told %s while %s is being sent", slot, tname[t], tname[f.type]);
    if (!f.valid) sim::fail("wrong-size", "module %d was told a %s of the wrong size", slot, tname[t]);
    if (f.by_module && !f.hooked) sim::fail("hook-late", "module %d was told before data() of the manager", slot);
    D want{};
    fill(want, f.n);
    if (memcmp(&d, &want, sizeof d)) sim::fail("corrupt-data", "module %d was told other bytes than were sent", slot);
    auto& reg = w.reg[std::size_t(f.mgr)];
    if (std::find(reg.begin(), reg.end(), slot) == reg.end()) sim::fail("unregistered-told", "module %d is not registered with manager %d and was told", slot, f.mgr);
    if (w.mod[std::size_t(slot)]->sends == t) sim::fail("own-kind-told", "module %d sends %s itself and was told", slot, tname[t]);
    if (!f.got.insert(slot).second) sim::fail("told-twice", "module %d was told #%llu twice", slot, (unsigned long long)f.n);
    auto it = std::find(f.order.begin(), f.order.end(), slot);
    if (it != f.order.end() && f.must.count(slot)) {
        if (it - f.order.begin() < f.last) sim::fail("order", "module %d was told out of registration order", slot);
        f.last = it - f.order.begin();
    } else sim::probe("told_though_registered_meanwhile");
    u64 when = ++w.told[slot];
    if (w.depth >= 3 || w.nested > 50) return;
    int  saved  = f.inside;
    bool boom   = false;
    f.inside    = slot;
    for (auto& o : w.plan->ops)
        if (o.th == slot + 1 && u64(o.c) == when) {
            ++w.nested;
            if (o.kind == THROW) {
                boom = true;
                continue;
            }
            ++w.depth;
            perform(o);
            --w.depth;
        }
    w.frames[fi].inside = saved;
    if (boom) {
        sim::count_fault("callback_throw");
        throw Boom{};
    }
    if (memcmp(&d, &want, sizeof d)) sim::fail("corrupt-data", "the message changed while module %d was handling it", slot);
}

void forget(int slot)
{
    World& w = *W;
    for (auto& r : w.reg) std::erase(r, slot);
    for (auto& f : w.frames) f.must.erase(slot);
}
void distribution(int mgr, int type, int sender, bool valid, std::function<void(u64)> go)
{
    World& w = *W;
    Frame  f;
    f.mgr = mgr, f.type = type, f.n = ++w.seq, f.valid = valid, f.by_module = sender >= 0, f.sender = sender;
    for (int s : w.reg[std::size_t(mgr)]) {
        auto& b = *w.mod[std::size_t(s)];
        if (valid && b.sends != type && (b.receives >> type & 1)) f.order.push_back(s);
    }
    f.must = {f.order.begin(), f.order.end()};
    sim::log("send %s #%llu through %d", tname[type], (unsigned long long)f.n, mgr);
    if (!w.frames.empty()) sim::probe("sent_inside_delivery");
    w.frames.push_back(f);
    int out = 0;
    try {
        go(f.n);
    } catch (Boom const&) {
        out = 1;
    } catch (std::bad_alloc const&) {
        out = 2;
    }
    f = w.frames.back();
    w.frames.pop_back();
    if (f.by_module && !f.hooked && !out) sim::fail("hook-missing", "data() of manager %d was not called", mgr);
    if (out) {
        // A delivery that is cut short has reached the first receivers, none later.
        sim::probe(out == 1 ? "receiver_threw" : "send_out_of_memory");
        std::size_t n = 0;
        while (n < f.order.size() && (f.got.count(f.order[n]) || !f.must.count(f.order[n]))) n++;
        for (; n < f.order.size(); n++)
            if (f.got.count(f.order[n])) sim::fail("order", "module %d was told and an earlier one was not", f.order[n]);
        return;
    }
    for (int x : f.must)
        if (!f.got.count(x)) sim::fail("not-told", "module %d was registered all the time and was not told %s #%llu", x, tname[type], (unsigned long long)f.n);
    if (f.got.size() > 1) sim::probe("several_modules_told");
}
void perform(Op const& o)
{
    World& w = *W;
    int    s = int(o.a);    // slot (or manager for MSEND)
    auto   in_use = [&](int x) {
        for (auto& f : w.frames)
            if (f.sender == x || f.inside == x) return true;
        return false;
    };
    switch (o.kind) {
    case CREATE: {
        if (w.mod[std::size_t(s)]) return;
        int  g    = int(o.b) % int(w.mgr.size());
        bool full = w.reg[std::size_t(g)].size() >= w.mgr[std::size_t(g)]->cap;
        bool refused = false, nomem = false;
        try {
            w.mod[std::size_t(s)] = make_module(o.b / 4 % MODKINDS, w.mgr[std::size_t(g)]->get(), s);
        } catch (std::bad_alloc const&) {
            nomem = true;
        } catch (std::exception const&) {
            refused = true;
        }
        sim::log("create module %d at manager %d: %s", s, g, refused ? "refused" : nomem ? "no memory" : "ok");
        if (!w.frames.empty()) sim::probe("created_inside_delivery");
        if (nomem) {
            sim::probe("creation_out_of_memory");
            return;
        }
        if (refused != full) sim::fail("capacity", "manager %d of %zu with %zu modules %s another", g, w.mgr[std::size_t(g)]->cap, w.reg[std::size_t(g)].size(), refused ? "refused" : "accepted");
        if (refused) {
            sim::probe("refused_when_full");
            return;
        }
        w.owner[std::size_t(s)] = g;
        w.reg[std::size_t(g)].push_back(s);
        break;
    }
    case DESTROY:
        if (!w.mod[std::size_t(s)] || in_use(s)) return;
        if (!w.frames.empty()) sim::probe("destroyed_inside_delivery");
        sim::log("destroy module %d", s);
        forget(s);
        w.mod[std::size_t(s)]->kill();
        w.mod[std::size_t(s)].reset();
        break;
    case SEND:
        if (!w.mod[std::size_t(s)]) return;
        distribution(w.owner[std::size_t(s)], w.mod[std::size_t(s)]->sends, s, true, [&](u64 n) { w.mod[std::size_t(s)]->send(n); });
        break;
    case MSEND: {
        int g = s % int(w.mgr.size());
        distribution(g, int(o.b) % NTYPES, -1, true, [&](u64 n) { w.mgr[std::size_t(g)]->send(int(o.b) % NTYPES, n); });
        break;
    }
    case RAW: {    // a link hands the manager bytes of any length in a module's name
        if (!w.mod[std::size_t(s)]) return;
        static std::size_t const size[] = {sizeof(Alpha), sizeof(Beta), sizeof(Gamma), sizeof(Delta), sizeof(Eps)};
        int           g = w.owner[std::size_t(s)], t = w.mod[std::size_t(s)]->sends;
        std::size_t   n    = std::size_t(o.b) % 48;
        if (o.b >= 48) n = size[t];
        if (o.b >= 96) n += o.b == 96 ? 65'536 : 256 * std::size_t(o.b - 96);
        bool          valid = n == size[t];
        auto*         buf   = static_cast<std::uint8_t*>(sim::arena_alloc(n ? n : 1, 1));
        if (!valid) sim::count_fault("wrong_length_frame");
        distribution(g, t, s, valid, [&](u64 k) {
            for (std::size_t i = 0; i < n; i++) buf[i] = std::uint8_t(i * 31 + k);
            switch (valid ? t : -1) {
            case ALPHA: { Alpha d{}; fill(d, k); memcpy(buf, &d, n); break; }
            case BETA: { Beta d{}; fill(d, k); memcpy(buf, &d, n); break; }
            case GAMMA: { Gamma d{}; fill(d, k); memcpy(buf, &d, n); break; }
            case DELTA: { Delta d{}; fill(d, k); memcpy(buf, &d, n); break; }
            case EPS: { Eps d{}; fill(d, k); memcpy(buf, &d, n); break; }
            default: break;
            }
            sim::Sut u;
            w.mgr[std::size_t(g)]->get().distribute(w.mod[std::size_t(s)]->base_module(), buf, n);
        });
        sim::arena_free(buf);
        break;
    }
    case LEAVE: {
        if (!w.mod[std::size_t(s)]) return;
        // also when it has left already, and at a manager it never belonged to
        int g = o.b % 3 ? w.owner[std::size_t(s)] : int(o.b) % int(w.mgr.size());
        sim::log("module %d leaves manager %d", s, g);
        {
            sim::Sut u;
            w.mgr[std::size_t(g)]->get().remove_module(w.mod[std::size_t(s)]->base_module());
        }
        if (!w.frames.empty()) sim::probe("left_inside_delivery");
        if (g == w.owner[std::size_t(s)]) forget(s);
        break;
    }
    case JOIN: {
        if (!w.mod[std::size_t(s)]) return;
        int   g   = w.owner[std::size_t(s)];
        auto& reg = w.reg[std::size_t(g)];
        if (std::find(reg.begin(), reg.end(), s) != reg.end()) return;
        bool full = reg.size() >= w.mgr[std::size_t(g)]->cap, refused = false;
        try {
            sim::Sut u;
            w.mgr[std::size_t(g)]->get().add_module(w.mod[std::size_t(s)]->base_module());
        } catch (std::exception const&) {
            refused = true;
        }
        sim::log("module %d joins manager %d again: %s", s, g, refused ? "refused" : "ok");
        if (refused != full) sim::fail("capacity", "manager %d of %zu with %zu modules %s another", g, w.mgr[std::size_t(g)]->cap, reg.size(), refused ? "refused" : "accepted");
        if (!refused) reg.push_back(s);
        break;
    }
    default: break;
    }
}
void run(Plan const& p)
{
    World w;
    W          = &w;
    w.plan     = &p;
    u64 blocks = sim::arena_live_blocks();
    for (int i = 0; i < int(p.get("managers")); i++) {
        std::string k = "cap" + std::to_string(i);
        w.mgr.push_back(make_manager(p.get(k.c_str()), i));
    }
    w.reg.resize(w.mgr.size());
    std::size_t slots = std::size_t(p.get("slots"));
    if (slots > 255) sim::set_step_limit(100'000'000);
    w.mod.resize(slots);
    w.owner.resize(slots);
    if (p.get("enomem")) sim::arm(sim::F_ENOMEM, u32(p.get("enomem")));
    i64 const cycles = p.get("cycles", 1);
    if (cycles > 1) sim::set_step_limit(600'000'000), sim::probe("more_than_65536_operations");
    for (i64 cycle = 0; cycle < cycles; cycle++)
        for (auto& o : p.ops)
            if (o.th == 0) perform(o);
    sim::disarm_all();
    if (slots > 255) sim::probe("hundreds_of_modules", w.reg[0].size() > 255);
    // Afterwards everything still works: everybody hears everybody, and the capacity is what it was.
    w.plan = nullptr;
    Plan none;
    w.plan = &none;
    for (std::size_t g = 0; g < w.mgr.size(); g++)
        for (int t = 0; t < NTYPES; t++) perform(Op{0, MSEND, i64(g), t, 0});
    for (std::size_t s = 0; s < slots; s++) perform(Op{0, SEND, i64(s), 0, 0});
    for (std::size_t s = 0; s < slots; s++) perform(Op{0, DESTROY, i64(s), 0, 0});
    for (std::size_t g = 0; g < w.mgr.size(); g++)
        for (std::size_t s = 0; s < std::min(slots, w.mgr[g]->cap + 1); s++) perform(Op{0, CREATE, i64(s), i64(g + w.mgr.size() * 4 * (s % 3)), 0});
    for (std::size_t s = 0; s < slots; s++) perform(Op{0, DESTROY, i64(s), 0, 0});
    for (auto& m : w.mgr) m->kill();
    if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "heap blocks are left");
}
Plan gen(Rng& r, int tier, bool churn)
{
    Plan p;
    i64  nm          = r.chance(1, 3) ? 2 : 1;
    p.p["managers"]  = nm;
    p.p["cap0"]      = churn ? r.pick({1, 2, 3, 5, 8}) : r.pick({3, 5, 8});
    p.p["cap1"]      = r.pick({1, 2, 3, 5});
    i64 slots        = r.range(2, 7);
    p.p["slots"]     = slots;
    p.p["enomem"]    = r.chance(1, 4) ? r.range(1, 12) : 0;
    auto create      = [&](i64 s) { return Op{0, CREATE, s, i64(r.below(u64(nm))) + nm * 4 * i64(r.below(MODKINDS * 3)) + 0, 0}; };
    auto one         = [&](int th) {
        Op  o;
        o.th     = th;
        u64 dice = r.below(10);
        o.a      = i64(r.below(u64(slots)));
        o.b      = i64(r.below(100));
        if (!churn) {
            o.kind = dice < 6 ? SEND : dice < 8 ? MSEND : RAW;
        } else {
            o.kind = th ? (dice < 2 ? SEND : dice < 4 ? LEAVE : dice < 5 ? JOIN : dice < 7 ? DESTROY : CREATE) : (dice < 4 ? SEND : dice < 5 ? MSEND : dice < 6 ? LEAVE : dice < 7 ? JOIN : dice < 8 ? DESTROY : CREATE);
            if (o.kind == CREATE) o = create(o.a), o.th = th;
        }
        return o;
    };
    if (r.chance(1, 10'000)) {    // hundreds of modules
        nm = p.p["managers"] = 1;
        p.p["cap0"]          = 300;
        slots = p.p["slots"] = r.range(290, 310);
        if (p.get("enomem")) p.p["enomem"] = r.range(50, 500);
    }
    for (i64 s = 0; s < slots; s++)
        if (r.chance(slots > 255 ? 60 : 5, slots > 255 ? 61 : 6)) p.ops.push_back(create(s));
    if (r.chance(1, 60'000)) {    // a long life
        p.p["enomem"] = 0;
        p.p["cycles"] = 66'000;
        p.p["slots"]  = slots = 2;
        p.ops.clear();
        p.ops.push_back(create(0));
        p.ops.push_back(create(1));
        p.ops.push_back(one(0));
        if (r.chance(1, 2)) p.ops.push_back(one(0));
        return p;
    }
    int n = int(r.range(2, tier ? 40 : 16));
    for (int i = 0; i < n; i++) p.ops.push_back(one(0));
    int m = int(r.range(0, churn ? 12 : 5));
    for (int i = 0; i < m; i++) {
        Op o = one(int(1 + r.below(u64(slots))));
        if (r.chance(1, 8)) o.kind = THROW;
        o.c = r.range(1, churn ? 3 : 4);
        p.ops.push_back(o);
    }
    return p;
}
Plan gen_f01(Rng& r, int t) { return gen(r, t, false); }
Plan gen_f02(Rng& r, int t) { return gen(r, t, true); }
std::string describe(Op const& o)
{
    char b[160], where[64] = "";
    if (o.th > 0) snprintf(where, sizeof where, "[inside message %lld of module %d] ", (long long)o.c, o.th - 1);
    if (o.kind == MSEND) snprintf(b, sizeof b, "%smanager %lld sends %s", where, (long long)o.a, tname[o.b % NTYPES]);
    else snprintf(b, sizeof b, "%s%s module %lld (%lld)", where, kname[o.kind], (long long)o.a, (long long)o.b);
    return b;
}
sim::Register r1({"mediator", "F01", gen_f01, run, describe, "sends from inside a delivery, frames of a wrong length, receivers that throw, allocation failure"});
sim::Register r2({"mediator_membership", "F02", gen_f02, run, describe, "modules created, destroyed, removed and re-added between messages and during a delivery, full managers, receivers that throw, allocation failure"});
}    // namespace
