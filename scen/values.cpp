// xitren::comm::values: observable values and their mirrors.
#include "common.hpp"

#include <iostream>
#include <vector>
#include <xitren/comm/values/observable.hpp>

#include <algorithm>
#include <bit>
#include <memory>

using namespace xitren::comm;
using namespace xitren::comm::values;

namespace {

enum Kind { SET, PREINC, POSTINC, PREDEC, POSTDEC, ADDTO, SUBFROM, ADD, REMOVE, CLEAR, READ, CALLBACK, KILL };
char const* kname(int k)
{
    char const* n[] = {"= v", "++x", "x++", "--x", "x--", "+= v", "-= v", "add_observer", "remove_observer", "clear_observers", "read", "on_update", "kill"};
    return n[k];
}
enum Code { OK, FULL, DUP, NONE, BROKEN, RECURSION };
int code(observer_errors e) { return int(e); }
char const* code_name(int c)
{
    char const* n[] = {"ok", "list_is_full", "already_contains", "not_found", "internal_data_broken", "notify_recursion_detected"};
    return c >= 0 && c <= 5 ? n[c] : "an unknown error";
}

struct Pair {    // a variable need not be a number
    std::int16_t x = 0, y = 0;
    Pair() = default;
    explicit Pair(i64 v) : x(std::int16_t(v)), y(std::int16_t(v >> 16)) {}
    explicit operator long long() const { return (i64(y) << 16) | std::uint16_t(x); }
    bool     operator==(Pair const&) const = default;
};
template <class T>
T of(i64 v)
{
    if constexpr (std::is_floating_point_v<T>) return T(v) / T(4);
    else return T(v);
}
template <class T>
i64 key(T v)
{
    if constexpr (std::is_floating_point_v<T>) return std::bit_cast<i64>(double(v) + 0.0);
    else return (long long)v;
}

template <class T>
struct World;

template <class T>
struct Mirror : observed<T> {
    int       id;
    World<T>* w;
    u64       magic = 0xabcdef;
    int       gen   = 0;    // of the callback
    Mirror(int i, World<T>* x) : observed<T>([this](T const v) { told(v, 0); }), id(i), w(x) {}
    Mirror(int i, World<T>* x, int) : id(i), w(x) {}    // callback set later or never
    ~Mirror() { magic = 0; }
    void arm_callback()    // replaces the one before
    {
        int const g = ++gen;
        sim::Sut  s;
        this->on_update([this, g](T const v) { told(v, g); });
    }
    void drop_callback()
    {
        ++gen;
        sim::Sut s;
        this->on_update(nullptr);
    }
    void told(T v, int g);
    void disconnect(void const* src) override;
};

struct Frame {
    i64              v;
    std::vector<int> order;
    std::set<int>    must, got;
    std::ptrdiff_t   last = -1;
};

template <class T>
struct Subject {
    virtual ~Subject()                                 = default;
    virtual T           op(int kind, i64 v, bool& pre) = 0;
    virtual T           value()                        = 0;
    virtual int         add(Mirror<T>&)                = 0;
    virtual int         remove(Mirror<T>&)             = 0;
    virtual int         add_plain(observed<T>&)        = 0;
    virtual void        clear()                        = 0;
    virtual void        kill()                         = 0;
    virtual void const* src() const                    = 0;
    std::size_t         cap = 0;
};
template <class T, std::size_t Max>
struct Impl : Subject<T> {
    using S = observable<T, Max>;
    S* s    = make_derived<S>();
    Impl() { this->cap = Max; }
    T op(int k, i64 v, bool& faulty) override
    {
        sim::Sut    u;
        sim::Faulty f(faulty);
        S&          x = *s;
        if constexpr (std::is_arithmetic_v<T>) switch (k) {
            case SET: break;
            case PREINC: return ++x;
            case POSTINC: return x++;
            case PREDEC: return --x;
            case POSTDEC: return x--;
            case ADDTO: return x += int(v);
            default: return x -= int(v);
            }
        return x = of<T>(v);
    }
    T value() override
    {
        sim::Sut u;
        return s->value();
    }
    int add(Mirror<T>& m) override
    {
        sim::Sut    u;
        sim::Faulty f;
        return code(s->add_observer(m));
    }
    int add_plain(observed<T>& m) override
    {
        sim::Sut u;
        return code(s->add_observer(m));
    }
    int remove(Mirror<T>& m) override
    {
        sim::Sut u;
        return code(s->remove_observer(m));
    }
    void clear() override
    {
        sim::Sut u;
        s->clear_observers();
    }
    void        kill() override { destroy_as<S>(s); }
    void const* src() const override { return s; }
};
template <class T>
std::unique_ptr<Subject<T>> make_subject(i64 cap)
{
    switch (cap) {
    case 0: return std::make_unique<Impl<T, 0>>();
    case 1: return std::make_unique<Impl<T, 1>>();
    case 2: return std::make_unique<Impl<T, 2>>();
    case 3: return std::make_unique<Impl<T, 3>>();
    default: return std::make_unique<Impl<T, 6>>();
    }
}

template <class T>
struct World {
    Plan const*                 plan{};
    std::unique_ptr<Subject<T>> s;
    std::vector<Mirror<T>*>     obs;
    std::vector<int>            reg;
    std::map<int, T>            mirror;      // last value each mirror was told
    std::map<int, bool>         has_cb;
    std::map<int, u64>          told, disconnected;
    std::vector<Frame>          frames;
    bool                        clearing = false;
    std::set<int>               to_disconnect;
    T                           val{};
    int                         depth = 0;
    u64                         nested_ops = 0, nested_updates = 0;
    bool                        dirty = false;    // a nested update may have left mirrors behind

    // A second variable of the same kind with a mirror of its own.
    std::unique_ptr<Subject<T>>  twin;
    std::unique_ptr<observed<T>> twin_mirror;
    bool                         twin_now = false;
    u64                          twin_told = 0, twin_steps = 0;
    T                            twin_val{};
    void                         twin_step(i64 a)
    {
        if (!twin || twin_steps == 8) return;
        T const before = s->value();
        i64 const v    = a / 2 + i64(++twin_steps) * 7;
        bool      off  = false;
        twin_told      = 0;
        twin_now       = true;
        T const ret    = twin->op(SET, v, off);
        twin_now       = false;
        T mirrored;
        {
            sim::Sut u;
            mirrored = twin_mirror->value();
        }
        sim::probe("second_variable");
        if (twin_told != 1) sim::fail("not-told", "the mirror of the second variable was told %llu times", (unsigned long long)twin_told);
        if (ret != of<T>(v) || twin_val != of<T>(v) || mirrored != of<T>(v) || twin->value() != of<T>(v)) sim::fail("wrong-mirror", "the second variable or its mirror missed the change to %lld", (long long)of<T>(v));
        if (s->value() != before) sim::fail("wrong-value", "a change of the second variable changed the first");
    }
    void twin_end()
    {
        if (!twin) return;
        val = {};    // of no interest any more
        bool off = false;
        twin_told = 0, twin_now = true;
        twin->op(SET, 5, off);
        twin_now = false;
        if (twin_told != 1) sim::fail("not-told", "the destruction of one variable cost another its mirror");
        twin->kill();
        twin.reset();
        sim::Sut u;
        twin_mirror.reset();
    }

    bool is_reg(int i) { return std::find(reg.begin(), reg.end(), i) != reg.end(); }
    void forget(int i)
    {
        std::erase(reg, i);
        to_disconnect.erase(i);
        for (auto& f : frames) f.must.erase(i);
    }
    void nested(int i, i64 when)
    {
        if (depth >= 3 || nested_ops > 40) return;
        for (auto& o : plan->ops)
            if (o.th == i + 1 && o.c == when) {
                ++depth;
                ++nested_ops;
                perform(o);
                --depth;
            }
    }
    void check_value()
    {
        T v = s->value();
        if (v != val) sim::fail("wrong-value", "value() is %lld, the operations give %lld", (long long)v, (long long)val);
    }
    void check_mirrors()
    {
        for (int i : reg) {
            T v;
            {
                sim::Sut u;
                v = obs[std::size_t(i)]->value();
            }
            auto it = mirror.find(i);
            if (it == mirror.end()) continue;    // nothing sent since it was registered
            if (has_cb[i] && v != it->second) sim::fail("wrong-mirror", "mirror %d reads %lld and was told %lld last", i, (long long)v, (long long)it->second);
            if (v != val) {
                if (dirty) sim::finding("stale-mirror-after-nested-update", "stale-mirror", "mirror %d reads %lld after a nested update to %lld", i, (long long)v, (long long)val);
                else sim::fail("stale-mirror", "mirror %d reads %lld, the value is %lld", i, (long long)v, (long long)val);
            }
        }
    }
    void perform(Op const& o)
    {
        int b = int(o.b);
        if (o.kind <= SUBFROM) {
            T before = val, after = before;
            if constexpr (std::is_arithmetic_v<T>) switch (o.kind) {
                case SET: after = of<T>(o.a); break;
                case PREINC:
                case POSTINC: after = T(before + 1); break;
                case PREDEC:
                case POSTDEC: after = T(before - 1); break;
                case ADDTO: after = T(before + T(int(o.a))); break;
                default: after = T(before - T(int(o.a))); break;
                }
            else after = of<T>(o.a);
            T want = std::is_arithmetic_v<T> && (o.kind == POSTINC || o.kind == POSTDEC) ? before : after;
            if (!frames.empty()) {
                ++nested_updates;
                dirty = true;
                sim::probe("updated_inside_update");
            } else dirty = false;
            val = after;
            frames.push_back(Frame{key(after), reg, {reg.begin(), reg.end()}, {}, -1});
            sim::log("%s %lld", kname(o.kind), (long long)o.a);
            // With no memory for its working copy an update falls back to walking the live list.
            bool faulty = std::none_of(plan->ops.begin(), plan->ops.end(), [](Op const& x) { return x.th != 0; });
            T    got    = s->op(o.kind, o.a, faulty);
            Frame f     = frames.back();
            frames.pop_back();
            if (got != want) sim::fail("wrong-result", "%s returned %lld, expected %lld", kname(o.kind), (long long)got, (long long)want);
            for (int x : f.must)
                if (has_cb[x] && !f.got.count(x)) sim::fail("not-told", "mirror %d was registered all the time and was not told %lld", x, (long long)after);
            for (int x : f.must)
                if (!has_cb[x]) mirror[x] = after;
            if (frames.empty()) check_value();
            if (f.got.size() > 1) sim::probe("several_mirrors_told");
            if (frames.empty()) check_mirrors();
            return;
        }
        switch (o.kind) {
        case ADD: {
            if (!obs[std::size_t(b)] || clearing) return;
            bool has = is_reg(b), full = s->cap && reg.size() >= s->cap;
            int  r = s->add(*obs[std::size_t(b)]);
            sim::log("add %d: %s", b, code_name(r));
            if (!frames.empty()) sim::probe("added_inside_update");
            bool ok = full && has ? (r == FULL || r == DUP) : full ? r == FULL : has ? r == DUP : s->cap ? r == OK : (r == OK || r == FULL);
            if (!ok) sim::fail("wrong-answer", "add_observer(%d) answered %s", b, code_name(r));
            if (!s->cap && r == FULL) sim::probe("add_refused_on_allocation");
            if (r == FULL && s->cap) sim::probe("add_refused_list_full");
            if (r == OK) {
                reg.push_back(b);
                mirror.erase(b);
            }
            break;
        }
        case REMOVE: {
            if (!obs[std::size_t(b)]) return;
            bool has  = is_reg(b);
            bool gone = has && clearing && !to_disconnect.count(b);
            int  r    = s->remove(*obs[std::size_t(b)]);
            sim::log("remove %d: %s", b, code_name(r));
            if (!frames.empty()) sim::probe("removed_inside_update");
            if (clearing) sim::probe("removed_inside_disconnect");
            if (gone ? (r != OK && r != NONE) : r != (has ? OK : NONE)) sim::fail("wrong-answer", "remove_observer(%d) answered %s", b, code_name(r));
            forget(b);
            break;
        }
        case CLEAR:
            if (clearing) return;
            clearing      = true;
            to_disconnect = {reg.begin(), reg.end()};
            sim::log("clear");
            s->clear();
            if (!to_disconnect.empty()) sim::fail("not-disconnected", "mirror %d was not told of the disconnect", *to_disconnect.begin());
            clearing = false;
            if (!frames.empty()) sim::probe("cleared_inside_update");
            reg.clear();
            for (auto& f : frames) f.must.clear();
            break;
        case CALLBACK:
            if (!obs[std::size_t(b)] || !frames.empty()) return;
            if (o.a & 3) obs[std::size_t(b)]->arm_callback();
            else obs[std::size_t(b)]->drop_callback(), sim::probe("callback_removed");
            has_cb[b] = o.a & 3;
            if (mirror.count(b)) mirror[b] = obs[std::size_t(b)]->value();
            break;
        case KILL: {
            if (!obs[std::size_t(b)] || clearing || o.th == b + 1) return;
            for (auto& f : frames)
                if (f.got.count(b)) return;
            bool has = is_reg(b);
            int  r   = s->remove(*obs[std::size_t(b)]);
            if (r != (has ? OK : NONE)) sim::fail("wrong-answer", "remove_observer(%d) answered %s", b, code_name(r));
            forget(b);
            if (!frames.empty()) sim::probe("mirror_destroyed_inside_update");
            sim::log("mirror %d destroyed", b);
            destroy_as<observed<T>>(obs[std::size_t(b)]);
            obs[std::size_t(b)] = nullptr;
            break;
        }
        default: check_value();
        }
    }
    void run(Plan const& p)
    {
        plan       = &p;
        u64 blocks = sim::arena_live_blocks();
        s          = make_subject<T>(p.get("cap"));
        int no     = int(p.get("observers"));
        for (int i = 0; i < no; i++) {
            bool later = (p.get("late_cb") >> i) & 1;
            obs.push_back(later ? make_derived<Mirror<T>>(i, this, 0) : make_derived<Mirror<T>>(i, this));
            has_cb[i] = !later;
        }
        if (p.get("twin")) {
            twin = make_subject<T>(p.get("cap"));
            sim::Sut u;
            twin_mirror = std::make_unique<observed<T>>([this](T const v) {
                sim::Harness h;
                if (!twin_now) sim::fail("unexpected-delivery", "the mirror of another variable was told %lld", (long long)v);
                twin_told++;
                twin_val = v;
            });
            u64 const r = u64(twin->add_plain(*twin_mirror));
            sim::Harness h;
            if (r != OK) sim::fail("wrong-answer", "add_observer on the second variable answered %s", code_name(int(r)));
        }
        perform(Op{0, SET, 0, 0, 0});
        if (p.get("enomem")) sim::arm(sim::F_ENOMEM, u32(p.get("enomem")));
        i64 const cycles = p.get("cycles", 1);
        if (cycles > 1) sim::set_step_limit(400'000'000), sim::probe("more_than_65536_updates");
        for (i64 cycle = 0; cycle < cycles; cycle++)
            for (auto& o : p.ops)
                if (o.th == 0) {
                    perform(o);
                    if (cycles == 1) twin_step(o.a);
                }
        sim::disarm_all();
        twin_step(3);
        perform(Op{0, POSTINC, 0, 0, 0});
        perform(Op{0, PREDEC, 0, 0, 0});
        clearing      = true;
        to_disconnect = {reg.begin(), reg.end()};
        sim::log("destroy");
        s->kill();
        if (!to_disconnect.empty()) sim::fail("not-disconnected", "mirror %d was not told of the destruction", *to_disconnect.begin());
        twin_end();
        for (auto* o : obs)
            if (o) destroy_as<observed<T>>(o);
        if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "heap blocks are left");
    }
};
template <class T>
void Mirror<T>::told(T v, int g)
{
    sim::Harness h;
    if (magic != 0xabcdef) sim::fail("dead-observer-called", "a destroyed mirror was updated");
    sim::log("mirror %d told %lld", id, (long long)v);
    if (g != gen) sim::fail("old-callback-called", "mirror %d was told %lld through a callback that has been replaced", id, (long long)v);
    if (w->frames.empty()) sim::fail("unexpected-delivery", "mirror %d was told %lld outside any update", id, (long long)v);
    Frame& f = w->frames.back();
    if (key(v) != f.v) sim::fail("wrong-delivery", "mirror %d was told %lld, the update gives %lld", id, (long long)v, (long long)w->val);
    if (!w->is_reg(id)) sim::fail("unregistered-told", "mirror %d is not registered and was told %lld", id, (long long)v);
    if (!f.got.insert(id).second) sim::fail("told-twice", "mirror %d was told %lld twice", id, (long long)v);
    auto it = std::find(f.order.begin(), f.order.end(), id);
    if (it != f.order.end() && f.must.count(id)) {
        if (it - f.order.begin() < f.last) sim::fail("order", "mirror %d was told out of registration order", id);
        f.last = it - f.order.begin();
    }
    w->mirror[id] = v;
    T now;
    {
        sim::Sut u;
        now = this->value();
    }
    if (w->s->value() != w->val) sim::fail("wrong-value", "the variable reads %lld inside an update to %lld", (long long)w->s->value(), (long long)w->val);
    if (now != v) sim::fail("wrong-mirror", "mirror %d reads %lld inside the callback that says %lld", id, (long long)now, (long long)v);
    w->nested(id, i64(++w->told[id]));
}
template <class T>
void Mirror<T>::disconnect(void const* src)
{
    sim::Harness h;
    if (magic != 0xabcdef) sim::fail("dead-observer-called", "a destroyed mirror was disconnected");
    if (src != w->s->src()) sim::fail("wrong-source", "the source of a disconnect is not the observable's address");
    if (!w->clearing || !w->to_disconnect.erase(id)) sim::fail("unexpected-disconnect", "mirror %d was disconnected twice or without reason", id);
    sim::log("mirror %d disconnected", id);
    w->nested(id, -i64(++w->disconnected[id]));
}

void run_any(Plan const& p)
{
    switch (p.get("type")) {
    case 0: {
        World<int> w;
        return w.run(p);
    }
    case 1: {
        World<std::uint8_t> w;
        return w.run(p);
    }
    case 2: {
        World<std::int64_t> w;
        return w.run(p);
    }
    case 3: {
        World<std::uint32_t> w;
        return w.run(p);
    }
    case 4: {
        World<std::int16_t> w;
        return w.run(p);
    }
    case 5: {
        sim::probe("floating_point");
        World<double> w;
        return w.run(p);
    }
    case 6: {
        sim::probe("floating_point");
        World<float> w;
        return w.run(p);
    }
    default: {
        sim::probe("not_a_number");
        World<Pair> w;
        return w.run(p);
    }
    }
}
Plan gen(Rng& r, int tier, bool registry)
{
    Plan p;
    p.p["type"]      = r.range(0, 7);
    p.p["cap"]       = r.pick({0, 0, 1, 2, 3, 6});
    int no           = int(r.range(1, 5));
    p.p["observers"] = no;
    p.p["late_cb"]   = r.chance(1, 2) ? i64(r.below(32)) : 0;
    p.p["enomem"]    = registry && r.chance(1, 3) ? r.range(1, 10) : 0;
    auto upd         = [&](int th) {
        Op o;
        o.th   = th;
        o.kind = int(r.range(SET, SUBFROM));
        o.a    = r.chance(1, 4) ? r.pick<i64>({0, 1, -1, 127, 128, 255, 256, -128, 1000}) : r.range(-1000, 1000);
        if (r.chance(1, 6)) o.a = p.get("type") == 0 ? r.range(-10'000'000, 10'000'000) : r.range(-2'147'483'647, 2'147'483'647);
        if (o.kind == SET && p.get("type") >= 2 && r.chance(1, 6)) o.a = i64(r.next());
        return o;
    };
    auto reg = [&](int th) {
        Op o;
        o.th   = th;
        o.kind = int(r.pick({ADD, ADD, REMOVE, CLEAR}));
        o.b    = i64(r.below(u64(no)));
        return o;
    };
    for (int i = 0; i < no; i++)
        if (r.chance(3, 4)) p.ops.push_back(Op{0, ADD, 0, i, 0});
    p.p["twin"] = r.chance(1, 4);
    if (r.chance(1, 60'000)) {    // a long life
        p.p["enomem"] = 0;
        p.p["cycles"] = 66'000;
        p.ops.clear();
        p.ops.push_back(Op{0, ADD, 0, i64(r.below(u64(no))), 0});
        p.ops.push_back(upd(0));
        if (r.chance(1, 2)) p.ops.push_back(r.chance(1, 2) ? upd(0) : reg(0));
        return p;
    }
    int n = int(r.range(2, tier ? 40 : 18));
    for (int i = 0; i < n; i++) {
        Op o = r.chance(registry ? 1 : 4, registry ? 2 : 5) ? upd(0) : reg(0);
        if (!registry && o.kind == CLEAR) o.kind = ADD;
        if (r.chance(1, 12)) o.kind = CALLBACK, o.a = r.range(0, 3);
        else if (registry && r.chance(1, 16)) o.kind = KILL;
        if (o.kind >= CALLBACK) o.b = i64(r.below(u64(no)));
        p.ops.push_back(o);
    }
    if (registry) {
        int m = r.chance(1, 3) ? 0 : int(r.range(1, 5));
        for (int i = 0; i < m; i++) {
            int th = int(1 + r.below(u64(no)));
            Op  o  = r.chance(1, 4) ? upd(th) : reg(th);
            if (r.chance(1, 10)) o.kind = KILL;
            if (r.chance(1, 3) && o.kind != KILL) o.b = th - 1;
            o.c = r.range(1, 4);
            if (r.chance(1, 4)) {
                o.kind = REMOVE;
                o.c    = -r.range(1, 2);
            }
            p.ops.push_back(o);
        }
    }
    for (auto& o : p.ops)
        if (o.kind > SUBFROM) o.b %= no;
    return p;
}
Plan gen_e01(Rng& r, int t) { return gen(r, t, false); }
Plan gen_e03(Rng& r, int t) { return gen(r, t, true); }
std::string describe(Op const& o)
{
    char b[160], where[64] = "";
    if (o.th > 0) snprintf(where, sizeof where, "[inside %s %lld of mirror %d] ", o.c < 0 ? "disconnect" : "update", (long long)std::abs(o.c), o.th - 1);
    snprintf(b, sizeof b, "%s%s (value %lld, mirror %lld)", where, kname(o.kind), (long long)o.a, (long long)o.b);
    return b;
}

// ---------------------------------------------------------------- E02: threads update one value
struct Upd {
    int kind;
    i64 arg, ret, produced;
    u64 inv, done;
    int fiber;
};
struct Conc {
    std::map<int, Upd*>             now;
    std::vector<std::vector<i64>>   told;     // per mirror
    std::vector<std::pair<int, i64>> bad;
};
struct Lin {
    std::vector<Upd>              h;
    std::set<std::pair<u64, i64>> seen;
    std::set<i64>                 finals;
    void                          solve(u64 done, i64 v)
    {
        if (!seen.insert({done, v}).second) return;
        if (done == (1ull << h.size()) - 1) {
            finals.insert(v);
            return;
        }
        u64 first = ~0ull;
        for (std::size_t i = 0; i < h.size(); i++)
            if (!(done >> i & 1)) first = std::min(first, h[i].done);
        for (std::size_t i = 0; i < h.size(); i++) {
            if (done >> i & 1 || h[i].inv > first) continue;
            auto& u = h[i];
            i64   n = v, ret;
            switch (u.kind) {
            case SET: n = u.arg; ret = n; break;
            case PREINC: n = v + 1; ret = n; break;
            case POSTINC: n = v + 1; ret = v; break;
            case PREDEC: n = v - 1; ret = n; break;
            case POSTDEC: n = v - 1; ret = v; break;
            case ADDTO: n = v + u.arg; ret = n; break;
            case SUBFROM: n = v - u.arg; ret = n; break;
            default: ret = v; break;
            }
            if (ret == u.ret) solve(done | 1ull << i, n);
        }
    }
};
template <class T, std::size_t Max>
void run_conc_t(Plan const& p)
{
    using S = observable<T, Max>;    // all values are small whole numbers
    Conc c;
    if (p.get("stall")) sim::stall_mode(true);
    if (p.get("races")) sim::race_mode(true);
    if (p.get("spurious")) sim::arm(sim::F_SPURIOUS, u32(p.get("spurious")));
    u64 blocks = sim::arena_live_blocks();
    S*  s      = sim::make<S>();
    int no     = int(p.get("observers"));
    c.told.resize(std::size_t(no));
    std::vector<observed<T>*> obs;
    for (int i = 0; i < no; i++) {
        obs.push_back(sim::make<observed<T>>(std::function<void(T const)>([&c, i, &p](T const v) {
            sim::Harness h;
            Upd*         u = c.now[sim::self()];
            if (!u) sim::fail("unexpected-delivery", "a mirror was told outside an update");
            c.told[std::size_t(i)].push_back(i64(v));
            u->produced = i64(v);
            sim::log("mirror %d told %lld", i, (long long)v);
            for (i64 k = 0; k < p.get("cost"); k++) sim::point();
        })));
        sim::Sut u;
        if (s->add_observer(*obs.back()) != observer_errors::ok) sim::fail("wrong-answer", "add_observer failed");
    }
    auto value = [&] {
        sim::Sut u;
        return i64(s->value());
    };
    {
        Upd u{SET, 0, 0, 0, 0, 0, 0};
        c.now[sim::self()] = &u;
        sim::Sut su;
        *s = 0;
    }
    c.now.clear();
    for (auto& t : c.told) t.clear();
    std::vector<Upd>              hist;
    std::vector<u64>              ids;
    for (int t = 0; t < int(p.get("threads")); t++)
        ids.push_back(sim::spawn(
            [&, t] {
                for (auto& o : p.ops) {
                    if (o.th != t) continue;
                    Upd u{o.kind, o.a, 0, 0, sim::seq(), 0, sim::self()};
                    c.now[sim::self()] = &u;
                    sim::log("%s %lld", kname(o.kind), (long long)o.a);
                    {
                        sim::Sut su;
                        S&       x = *s;
                        switch (o.kind) {
                        case SET: u.ret = i64(x = T(o.a)); break;
                        case PREINC: u.ret = i64(++x); break;
                        case POSTINC: u.ret = i64(x++); break;
                        case PREDEC: u.ret = i64(--x); break;
                        case POSTDEC: u.ret = i64(x--); break;
                        case ADDTO: u.ret = i64(x += int(o.a)); break;
                        case SUBFROM: u.ret = i64(x -= int(o.a)); break;
                        default: u.ret = i64(x.value());
                        }
                    }
                    sim::log("-> %lld", (long long)u.ret);
                    c.now[sim::self()] = nullptr;
                    u.done             = sim::seq();
                    u.produced         = o.kind == POSTINC ? u.ret + 1 : o.kind == POSTDEC ? u.ret - 1 : u.ret;
                    hist.push_back(u);
                }
            },
            "writer"));
    for (auto i : ids) sim::join(i);
    i64 const final = value();
    Lin       l;
    l.h = hist;
    l.solve(0, 0);
    if (l.finals.empty()) sim::fail("not-linearizable", "no sequential order of the updates explains the values they returned");
    if (!l.finals.count(final)) sim::fail("lost-update", "the value is %lld, no order of the updates ends there", (long long)final);
    std::vector<i64> want;
    for (auto& u : hist)
        if (u.kind <= SUBFROM) want.push_back(u.produced);
    std::sort(want.begin(), want.end());
    u64 overlap = 0;
    for (auto& a : hist)
        for (auto& b : hist)
            if (&a != &b && a.inv < b.inv && b.inv < a.done) overlap++;
    sim::probe("overlapping_updates", overlap);
    for (int i = 0; i < no; i++) {
        auto got = c.told[std::size_t(i)];
        std::sort(got.begin(), got.end());
        if (got != want) sim::fail("not-told", "mirror %d was told %zu values for %zu updates, or others than they produced", i, got.size(), want.size());
        i64 m;
        {
            sim::Sut u;
            m = i64(obs[std::size_t(i)]->value());
        }
        if (want.empty() || m == final) continue;
        // A mirror may be left behind only by an update that overlaps the one that gave the final value.
        bool excused = false;
        for (auto& a : hist)
            for (auto& b : hist)
                if (a.kind <= SUBFROM && b.kind <= SUBFROM && a.produced == m && b.produced == final && a.inv < b.done && b.inv < a.done) excused = true;
        if (excused) sim::finding("stale-mirror-after-overlapping-updates", "stale-mirror", "mirror %d keeps %lld, the value is %lld", i, (long long)m, (long long)final);
        else sim::fail("stale-mirror", "mirror %d keeps %lld, the value is %lld, and no overlapping update explains it", i, (long long)m, (long long)final);
    }
    // One more update reaches everybody.
    {
        Upd u{PREINC, 0, 0, 0, 0, 0, 0};
        c.now[sim::self()] = &u;
        sim::Sut su;
        ++*s;
    }
    for (int i = 0; i < no; i++) {
        sim::Sut u;
        if (i64(obs[std::size_t(i)]->value()) != final + 1) {
            sim::Harness h;
            sim::fail("stale-mirror", "mirror %d misses an update that nothing overlaps", i);
        }
    }
    sim::destroy(s);
    for (auto* o : obs) sim::destroy(o);
    if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "heap blocks are left");
}
template <class T>
void run_conc_of(Plan const& p)
{
    p.get("dynamic") ? run_conc_t<T, 0>(p) : run_conc_t<T, 4>(p);
}
void run_conc(Plan const& p)
{
    switch (p.get("type")) {
    case 0: return run_conc_of<i64>(p);
    case 1: return run_conc_of<int>(p);
    default: sim::probe("floating_point"); return run_conc_of<double>(p);
    }
}
Plan gen_conc(Rng& r, int)
{
    Plan p;
    p.p["threads"]   = r.range(2, 4);
    p.p["type"]      = r.range(0, 2);
    p.p["observers"] = r.range(1, 3);
    p.p["dynamic"]   = r.chance(1, 2);
    p.p["cost"]      = r.range(0, 5);
    p.p["stall"]     = r.chance(1, 3);
    p.p["races"]     = r.chance(1, 3);
    p.p["spurious"]  = r.chance(1, 6) ? r.range(2, 12) : 0;
    bool sets        = r.chance(1, 3);
    int  n           = int(r.range(2, 14));
    for (int i = 0; i < n; i++) {
        Op o;
        o.th   = int(r.below(u64(p.get("threads"))));
        o.kind = int(r.pick({int(PREINC), int(POSTINC), int(PREDEC), int(POSTDEC), int(ADDTO), int(SUBFROM), int(READ)}));
        if (sets && r.chance(1, 3)) o.kind = SET;
        o.a = o.kind == SET ? 1000 * (i + 1) : r.range(1, 20);
        p.ops.push_back(o);
    }
    return p;
}
std::string describe_conc(Op const& o)
{
    char b[96];
    snprintf(b, sizeof b, "thread %d: %s (value %lld)", o.th, kname(o.kind), (long long)o.a);
    return b;
}

sim::Register r1({"values", "E01", gen_e01, run_any, describe, "all update operators on five integer types (wrapping included), mirrors with and without callbacks, mirrors joining and leaving between updates"});
sim::Register r2({"values_concurrent", "E02", gen_conc, run_conc, describe_conc, "preemption at every memory access, descheduled writers"});
sim::Register r3({"values_registry", "E03", gen_e03, run_any, describe, "registrations, removals, updates, clears and destruction of mirrors from inside callbacks; allocation failure in the dynamic variant"});
}    // namespace
