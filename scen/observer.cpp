// xitren::comm::observable (fixed-size and dynamic) and observer.
#include "common.hpp"

#include <xitren/comm/observer.hpp>

#include <algorithm>
#include <memory>

using namespace xitren::comm;

namespace {

enum Kind { ADD, REMOVE, NOTIFY, CLEAR, KILL, PAUSE };    // KILL: remove everywhere and destroy the observer
enum Code { OK, FULL, DUP, NONE, BROKEN, RECURSION, NOMEM, WEIRD };
char const* code_name(int c)
{
    char const* n[] = {"ok", "list_is_full", "already_contains", "not_found", "internal_data_broken", "notify_recursion_detected", "bad_alloc", "an unknown error"};
    return n[c];
}
int code(observer_errors e)
{
    switch (e) {
    case observer_errors::ok: return OK;
    case observer_errors::list_is_full: return FULL;
    case observer_errors::already_contains: return DUP;
    case observer_errors::not_found: return NONE;
    case observer_errors::internal_data_broken: return BROKEN;
    case observer_errors::notify_recursion_detected: return RECURSION;
    }
    return WEIRD;
}

struct Obs;
struct Frame {
    int              subject;
    u64              prod, seq;
    std::vector<int> order;        // registered when the notification began
    std::set<int>    must;         // of those, registered ever since
    std::set<int>    got;
    std::ptrdiff_t   last = -1;    // position of the last delivery
    int              newest;       // observers registered later have no place in the order
};
struct Subject {
    virtual ~Subject()                                    = default;
    virtual int         add(Obs&)                         = 0;
    virtual int         remove(Obs&)                      = 0;
    virtual int         notify(Msg const&)                = 0;
    virtual int         clear()                           = 0;
    virtual void        kill()                            = 0;
    virtual void const* src() const                       = 0;
    std::size_t         cap = 0;    // 0: dynamic
    bool                dead = false;
};

struct World {
    Plan const*                           plan{};
    std::vector<std::unique_ptr<Subject>> subj;
    std::vector<Obs*>                     obs;
    std::vector<std::vector<int>>         reg;          // reference: who is registered where, in order
    std::vector<Frame>                    frames;
    std::vector<int>                      clearing;     // subjects being cleared, innermost last
    std::vector<std::set<int>>            to_disconnect;
    std::map<int, u64>                    delivered;    // per observer
    std::map<int, u64>                    disconnected;
    u64                                   seq = 0, nested = 0;
    int                                   depth = 0;
};
World* W;

void perform(Op const& o);
int  subject_of(void const* src);

struct Obs : observer<Msg> {
    int id;
    u64 magic = 0xabcdef;
    explicit Obs(int i) : id(i) {}
    ~Obs() { magic = 0; }
    void disconnect(void const* src) override;

protected:
    void data(void const* src, Msg const& m) override;
};

// ---- what happens inside a callback: the nested operations of the plan.
// Op.th: 0 top level, n > 0: performed inside observer n-1's callback number Op.c (negative: inside disconnect).
void nested(int observer, i64 when)
{
    World& w = *W;
    if (w.depth >= 4 || w.nested > 60) return;
    for (auto& o : w.plan->ops)
        if (o.th == observer + 1 && o.c == when) {
            ++w.nested;
            ++w.depth;
            perform(o);
            --w.depth;
        }
}

void Obs::data(void const* src, Msg const& m)
{
    sim::Harness h;
    World&       w = *W;
    if (magic != 0xabcdef) sim::fail("dead-observer-called", "a destroyed observer was called");
    int s = subject_of(src);
    sim::log("observer %d gets #%llu from %d", id, (unsigned long long)m.seq, s);
    if (s < 0) sim::fail("wrong-source", "the source pointer is not the observable's address");
    if (!m.intact()) sim::fail("corrupt-data", "the data arrived torn");
    if (w.frames.empty()) sim::fail("unexpected-delivery", "a delivery outside any notification");
    Frame& f = w.frames.back();
    if (f.subject != s || f.seq != m.seq) sim::fail("unexpected-delivery", "observer %d was told #%llu of observable %d while #%llu of %d is being sent", id, (unsigned long long)m.seq, s, (unsigned long long)f.seq, f.subject);
    auto& reg = w.reg[std::size_t(s)];
    if (std::find(reg.begin(), reg.end(), id) == reg.end()) sim::fail("unregistered-told", "observer %d is not registered and was told #%llu", id, (unsigned long long)m.seq);
    if (!f.got.insert(id).second) sim::fail("told-twice", "observer %d was told #%llu twice", id, (unsigned long long)m.seq);
    auto it = std::find(f.order.begin(), f.order.end(), id);
    if (it != f.order.end() && f.must.count(id)) {
        if (it - f.order.begin() < f.last) sim::fail("order", "observer %d was told out of registration order", id);
        f.last = it - f.order.begin();
    } else {
        sim::probe("told_though_registered_meanwhile");
    }
    nested(id, i64(++w.delivered[id]));
    if (!m.intact()) sim::fail("corrupt-data", "the data changed during the callback");
}
void Obs::disconnect(void const* src)
{
    sim::Harness h;
    World&       w = *W;
    if (magic != 0xabcdef) sim::fail("dead-observer-called", "a destroyed observer was disconnected");
    int s = subject_of(src);
    sim::log("observer %d disconnected from %d", id, s);
    if (s < 0) sim::fail("wrong-source", "the source pointer of a disconnect is not the observable's address");
    if (w.clearing.empty() || w.clearing.back() != s) sim::fail("unexpected-disconnect", "observer %d was disconnected from %d outside a clear or destruction", id, s);
    if (!w.to_disconnect.back().erase(id)) sim::fail("unexpected-disconnect", "observer %d was disconnected from %d twice or without being registered", id, s);
    auto& reg = w.reg[std::size_t(s)];
    if (std::find(reg.begin(), reg.end(), id) == reg.end()) sim::fail("unexpected-disconnect", "observer %d was disconnected though it had been removed", id);
    nested(id, -i64(++w.disconnected[id]));
}

template <class S>
struct Impl : Subject {
    S* s;
    explicit Impl(std::size_t c) : s(make_derived<S>()) { cap = c; }
    template <class F>
    int wrap(F f)
    {
        try {
            sim::Sut    u;
            sim::Faulty ft(cap == 0);
            if constexpr (std::is_same_v<decltype(f()), void>) {
                f();
                return OK;
            } else return code(f());
        } catch (std::bad_alloc const&) {
            return NOMEM;
        } catch (std::exception const& e) {
            if constexpr (requires { typename S::exception; })
                if (auto* x = dynamic_cast<typename S::exception const*>(&e)) return code(x->error);
            return WEIRD;
        }
    }
    int add(Obs& o) override { return wrap([&] { return s->add_observer(o); }); }
    int remove(Obs& o) override { return wrap([&] { return s->remove_observer(o); }); }
    int notify(Msg const& m) override { return wrap([&] { return s->notify_observers(m); }); }
    int clear() override
    {
        return wrap([&] { s->clear_observers(); });
    }
    void kill() override
    {
        destroy_as<S>(s);
        dead = true;
    }
    void const* src() const override { return s; }
};
std::unique_ptr<Subject> make_subject(i64 cap)
{
    switch (cap) {
    case 0: return std::make_unique<Impl<observable_dynamic<Msg>>>(0);
    case 1: return std::make_unique<Impl<observable_static<Msg, 1>>>(1);
    case 2: return std::make_unique<Impl<observable_static<Msg, 2>>>(2);
    case 3: return std::make_unique<Impl<observable_static<Msg, 3>>>(3);
    case 5: return std::make_unique<Impl<observable_static<Msg, 5>>>(5);
    case 300: return std::make_unique<Impl<observable_static<Msg, 300>>>(300);
    default: return std::make_unique<Impl<observable<Msg>>>(8);
    }
}
int subject_of(void const* src)
{
    for (std::size_t i = 0; i < W->subj.size(); i++)
        if (W->subj[i]->src() == src) return int(i);
    return -1;
}

void forget(int s, int o)
{
    World& w = *W;
    std::erase(w.reg[std::size_t(s)], o);
    for (auto& f : w.frames)
        if (f.subject == s) f.must.erase(o);
    for (std::size_t i = 0; i < w.clearing.size(); i++)
        if (w.clearing[i] == s) w.to_disconnect[i].erase(o);
}
void expect(int got, std::initializer_list<int> ok, char const* what, int s, int o)
{
    for (int c : ok)
        if (c == got) return;
    sim::fail("wrong-answer", "%s (observable %d, observer %d) answered %s, expected %s", what, s, o, code_name(got), code_name(*ok.begin()));
}

void perform(Op const& o)
{
    World& w = *W;
    int    s = int(o.a), b = int(o.b);
    if (o.kind == KILL) {
        // inside a callback only another observer may be destroyed
        if (!w.obs[std::size_t(b)] || o.th == b + 1) return;
        bool in_use = false;
        for (auto& op : w.frames) in_use |= op.last >= 0 && op.order[std::size_t(op.last)] == b;    // it is on the stack
        for (auto& f : w.frames) in_use |= f.got.count(b) > 0;
        for (auto& c : w.to_disconnect) in_use |= !c.empty();
        if (in_use) return;
        for (std::size_t i = 0; i < w.subj.size(); i++) {
            if (w.subj[i]->dead) continue;
            auto& reg = w.reg[i];
            bool  has = std::find(reg.begin(), reg.end(), b) != reg.end();
            if (!has) continue;
            int r = w.subj[i]->remove(*w.obs[std::size_t(b)]);
            if (r == NOMEM && w.subj[i]->cap == 0) return;    // so it lives on
            expect(r, {OK}, "remove_observer", int(i), b);
            forget(int(i), b);
        }
        sim::log("observer %d destroyed", b);
        if (!w.frames.empty()) sim::probe("observer_destroyed_inside_callback");
        destroy_as<observer<Msg>>(w.obs[std::size_t(b)]);
        w.obs[std::size_t(b)] = nullptr;
        return;
    }
    auto& S = *w.subj[std::size_t(s)];
    if (S.dead) return;
    bool being_cleared = std::find(w.clearing.begin(), w.clearing.end(), s) != w.clearing.end();
    bool inside        = false;
    for (auto& f : w.frames) inside |= f.subject == s;
    auto& reg = w.reg[std::size_t(s)];
    if (inside && o.kind <= CLEAR) sim::probe(o.kind == ADD ? "added_inside_notification" : o.kind == REMOVE ? "removed_inside_notification" : o.kind == NOTIFY ? "notified_inside_notification" : "cleared_inside_notification");
    switch (o.kind) {
    case ADD: {
        if (!w.obs[std::size_t(b)] || being_cleared) return;
        bool has  = std::find(reg.begin(), reg.end(), b) != reg.end();
        bool full = S.cap && reg.size() >= S.cap;
        int  r    = S.add(*w.obs[std::size_t(b)]);
        sim::log("add %d to %d: %s", b, s, code_name(r));
        if (full && has) expect(r, {FULL, DUP}, "add_observer", s, b);
        else if (full) expect(r, {FULL}, "add_observer", s, b);
        else if (has) expect(r, {DUP}, "add_observer", s, b);
        else if (S.cap == 0) expect(r, {OK, NOMEM}, "add_observer", s, b);
        else expect(r, {OK}, "add_observer", s, b);
        if (full) sim::probe("add_refused_list_full");
        if (r == NOMEM) sim::probe("add_failed_on_allocation");
        if (r == OK) reg.push_back(b);
        break;
    }
    case REMOVE: {
        if (!w.obs[std::size_t(b)]) return;
        bool has = std::find(reg.begin(), reg.end(), b) != reg.end();
        int  r   = S.remove(*w.obs[std::size_t(b)]);
        sim::log("remove %d from %d: %s", b, s, code_name(r));
        // An observer that has been (or is being) disconnected by a clear in progress may be listed until the clear ends.
        bool gone = false;
        for (std::size_t i = 0; i < w.clearing.size(); i++) gone |= w.clearing[i] == s && !w.to_disconnect[i].count(b);
        if (r == NOMEM && S.cap == 0) break;    // the shipped code never needs memory for this, another may
        if (has && gone) expect(r, {OK, NONE}, "remove_observer", s, b);
        else expect(r, {has ? OK : NONE}, "remove_observer", s, b);
        forget(s, b);
        if (being_cleared) sim::probe("removed_inside_disconnect");
        break;
    }
    case NOTIFY: {
        if (being_cleared || (S.cap == 0 && inside && w.depth > 2)) return;
        u64   n = ++w.seq;
        Msg   m(u64(s), n);
        Frame f{s, u64(s), n, reg, {reg.begin(), reg.end()}, {}, -1, 0};
        w.frames.push_back(f);
        sim::log("notify %d #%llu", s, (unsigned long long)n);
        int r = S.notify(m);
        sim::log("notify %d #%llu: %s", s, (unsigned long long)n, code_name(r));
        f = w.frames.back();
        w.frames.pop_back();
        if (S.cap && inside) {
            expect(r, {RECURSION}, "a nested notify_observers", s, -1);
            if (!f.got.empty()) sim::fail("recursion", "a refused nested notification reached observers");
            sim::probe("recursion_refused");
        } else if (r == NOMEM && S.cap == 0) {
            sim::probe("notify_failed_on_allocation");
            if (!f.got.empty()) sim::fail("partial-notification", "a notification failed for lack of memory after it had reached %zu observers", f.got.size());
        } else {
            expect(r, {OK}, "notify_observers", s, -1);
            for (int x : f.must)
                if (!f.got.count(x)) sim::fail("not-told", "observer %d was registered all the time and was not told #%llu", x, (unsigned long long)n);
            if (f.got.size() >= 2) sim::probe("several_observers_told");
        }
        break;
    }
    case CLEAR:
        if (being_cleared) return;
        w.clearing.push_back(s);
        w.to_disconnect.push_back({reg.begin(), reg.end()});
        sim::log("clear %d", s);
        if (int r = S.clear(); r == NOMEM && S.cap == 0 && w.to_disconnect.back().size() == reg.size()) {
            w.clearing.pop_back();    // failed before it began
            w.to_disconnect.pop_back();
            break;
        } else {
            expect(r, {OK}, "clear_observers", s, -1);
        }
        if (!w.to_disconnect.back().empty()) sim::fail("not-disconnected", "observer %d was registered and was not told of the disconnect", *w.to_disconnect.back().begin());
        w.clearing.pop_back();
        w.to_disconnect.pop_back();
        for (auto& f : w.frames)
            if (f.subject == s) f.must.clear();
        if (!reg.empty()) sim::probe("cleared_while_registered");
        reg.clear();
        break;
    default: break;
    }
}

void run_registry(Plan const& p)
{
    World w;
    W          = &w;
    w.plan     = &p;
    Msg::live  = 0;
    u64 blocks = sim::arena_live_blocks();
    int ns = int(p.get("subjects")), no = int(p.get("observers"));
    if (no > 255) sim::set_step_limit(30'000'000);
    i64 const cycles = p.get("cycles", 1);
    if (cycles > 1) sim::set_step_limit(400'000'000);
    for (int i = 0; i < ns; i++) {
        std::string k = "cap" + std::to_string(i);
        w.subj.push_back(make_subject(p.get(k.c_str())));
    }
    w.reg.resize(std::size_t(ns));
    for (int i = 0; i < no; i++) w.obs.push_back(make_derived<Obs>(i));
    if (p.get("enomem")) sim::arm(sim::F_ENOMEM, u32(p.get("enomem")));
    for (i64 cycle = 0; cycle < cycles; cycle++)
    for (auto& o : p.ops)
        for (i64 rep = 0; o.th == 0 && rep < std::max<i64>(1, o.c); rep++) {
            Op q = o;
            q.b  = (o.b + rep) % no;
            perform(q);
        }
    if (cycles > 1) sim::probe("more_than_65536_operations");
    if (no > 255) sim::probe("hundreds_of_observers", w.reg[0].size() > 255);
    sim::disarm_all();
    // Everything still works: a final notification reaches exactly the registered observers.
    for (int i = 0; i < ns; i++) perform(Op{0, NOTIFY, i, 0, 0});
    for (int i = 0; i < ns; i++) {
        w.clearing.push_back(i);
        w.to_disconnect.push_back({w.reg[std::size_t(i)].begin(), w.reg[std::size_t(i)].end()});
        if (!w.reg[std::size_t(i)].empty()) sim::probe("destroyed_while_registered");
        sim::log("destroy %d", i);
        w.subj[std::size_t(i)]->kill();
        if (!w.to_disconnect.back().empty()) sim::fail("not-disconnected", "observer %d was not told that its observable was destroyed", *w.to_disconnect.back().begin());
        w.clearing.pop_back();
        w.to_disconnect.pop_back();
        w.reg[std::size_t(i)].clear();
    }
    for (auto& o : w.obs)
        if (o) destroy_as<observer<Msg>>(o);
    if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "heap blocks are left");
}

Plan gen(Rng& r, bool nestedops, bool disc, bool forward, int tier)
{
    Plan p;
    int  ns = int(r.range(1, forward ? 3 : 2)), no = int(r.range(1, 6));
    p.p["subjects"]  = ns;
    p.p["observers"] = no;
    for (int i = 0; i < ns; i++) p.p["cap" + std::to_string(i)] = forward && i == 0 ? r.pick({2, 3, 5, 8}) : r.pick({0, 0, 1, 2, 3, 5, 8});
    p.p["enomem"] = !forward && r.chance(1, 4) ? r.range(1, 10) : 0;
    auto op       = [&](int th) {
        Op o;
        o.th   = th;
        o.kind = int(r.pick({ADD, ADD, ADD, REMOVE, NOTIFY, NOTIFY, CLEAR}));
        o.a    = i64(r.below(u64(ns)));
        o.b    = i64(r.below(u64(no)));
        return o;
    };
    if (r.chance(1, 8'000)) {    // hundreds of observers
        p.p["observers"] = no = int(r.range(290, 320));
        for (int i = 0; i < ns; i++) p.p["cap" + std::to_string(i)] = r.pick({0, 300});
        if (p.get("enomem")) p.p["enomem"] = r.range(2, 100);
        for (int i = int(r.range(2, 6)); i > 0; i--) {
            Op o = op(0);
            if (o.kind == ADD) o.c = r.range(1, no);
            if (o.kind == REMOVE) o.c = r.range(1, 20);
            p.ops.push_back(o);
        }
        for (int i = 0; i < ns; i++) p.ops.insert(p.ops.begin(), Op{0, ADD, i, i64(r.below(u64(no))), no});
        return p;
    }
    if (r.chance(1, 40'000)) {    // a long life
        int n = int(r.range(2, 4));
        for (int i = 0; i < n; i++) p.ops.push_back(op(0));
        p.ops[0].kind = ADD;
        p.ops[1].kind = NOTIFY;
        p.p["cycles"] = 66'000;
        p.p["enomem"] = 0;
        return p;
    }
    int n = int(r.range(2, tier ? 30 : 16));
    for (int i = 0; i < n; i++) {
        Op o = op(0);
        if (o.kind == CLEAR && r.chance(1, 2)) o.kind = NOTIFY;
        if (r.chance(1, 20)) o.kind = KILL;
        p.ops.push_back(o);
    }
    // register most observers first
    if (r.chance(2, 3))
        for (int i = 0; i < no; i++) p.ops.insert(p.ops.begin(), Op{0, ADD, i64(r.below(u64(ns))), i, 0});
    if (forward)
        for (int i = 0; i < no; i++)
            for (int s = 0; s < ns; s++)
                if (r.chance(1, 2)) p.ops.insert(p.ops.begin(), Op{0, ADD, s, i, 0});
    int m = nestedops ? int(r.range(0, 6)) : 0;
    for (int i = 0; i < m; i++) {
        Op o = op(int(1 + r.below(u64(no))));
        if (forward && r.chance(2, 3)) o.kind = NOTIFY;
        if (!forward && r.chance(1, 12)) o.kind = KILL;
        if (!forward && r.chance(1, 3)) o.b = o.th - 1;    // about itself
        o.c = r.range(1, 4);
        p.ops.push_back(o);
    }
    m = disc ? int(r.range(0, 4)) : 0;
    for (int i = 0; i < m; i++) {
        Op o   = op(int(1 + r.below(u64(no))));
        o.kind = REMOVE;
        if (r.chance(2, 3)) o.b = o.th - 1;
        o.c = -r.range(1, 3);
        p.ops.push_back(o);
    }
    return p;
}
Plan gen_d01(Rng& r, int t) { return gen(r, true, false, false, t); }
Plan gen_d03(Rng& r, int t)
{
    Plan p = gen(r, r.chance(1, 3), true, false, t);
    for (auto& o : p.ops)
        if (o.th == 0 && o.kind == NOTIFY && r.chance(1, 2)) o.kind = CLEAR;
    return p;
}
Plan gen_d04(Rng& r, int t) { return gen(r, true, false, true, t); }

std::string describe(Op const& o)
{
    char        b[160], where[64] = "";
    char const* n[] = {"add", "remove", "notify", "clear", "kill", "pause"};
    if (o.th > 0) snprintf(where, sizeof where, "[inside %s %lld of observer %d] ", o.c < 0 ? "disconnect" : "delivery", (long long)std::abs(o.c), o.th - 1);
    snprintf(b, sizeof b, "%s%s observable %lld observer %lld", where, n[o.kind], (long long)o.a, (long long)o.b);
    if (o.th == 0 && o.c > 1) return std::string(b) + " and the " + std::to_string(o.c - 1) + " after it";
    return b;
}

// ---------------------------------------------------------------- D02: threads share a dynamic observable
struct Ev {
    int              kind, obs, res;
    std::vector<int> got;
    u64              inv, ret;
    // performed from inside the callback of observer `at`
    int              at = -1, nkind = 0, nobs = 0, nres = -1;
    std::vector<int> ngot;
    bool             inner = false;    // the inner operation is being performed
};
struct TObs;
struct Conc {
    std::vector<TObs*>          obs;
    std::map<int, Ev*>          now;      // fiber -> operation in progress
    std::vector<u64>            removed;  // per observer: removals that have returned since the last add began
    void const*                 src{};
    int                         cost{};
    i64                         waits{};                // a callback waits once for the bystander's end
    bool                        side_over = false;
    std::function<int(int, int, Msg const&)> call;
};
Conc* C;
struct TObs : observer<Msg> {
    int id;
    explicit TObs(int i) : id(i) {}
    void disconnect(void const* src) override
    {
        sim::Harness h;
        if (src != C->src) sim::fail("wrong-source", "disconnect from an unknown source");
        Ev* e = C->now[sim::self()];
        if (!e || (e->inner ? e->nkind : e->kind) != CLEAR) sim::fail("unexpected-disconnect", "a disconnect outside a clear");
        (e->inner ? e->ngot : e->got).push_back(id);
        for (int i = 0; i < C->cost; i++) sim::point();
    }

protected:
    void data(void const* src, Msg const& m) override
    {
        sim::Harness h;
        if (src != C->src) sim::fail("wrong-source", "the source pointer is not the observable's address");
        if (!m.intact()) sim::fail("corrupt-data", "the data arrived torn");
        Ev* e = C->now[sim::self()];
        if (!e || (e->inner ? e->nkind : e->kind) != NOTIFY || u64(e->inv) != m.seq) sim::fail("unexpected-delivery", "observer %d was called outside its notification", id);
        (e->inner ? e->ngot : e->got).push_back(id);
        sim::log("observer %d gets #%llu", id, (unsigned long long)m.seq);
        for (int i = 0; i < C->cost; i++) sim::point();
        if (C->waits && !--C->waits) {    // other observables are none of its business
            sim::log("observer %d waits for the second observable's user", id);
            sim::block_until([] { return C->side_over; }, "the second observable's user");
            sim::probe("waited_for_the_second_observable");
        }
        if (e->at == id && e->nres < 0 && !e->inner) {
            sim::probe("called_back_from_a_notification");
            e->inner = true;
            e->nres  = C->call(e->nkind, e->nobs, m);
            e->inner = false;
        }
        if (!m.intact()) sim::fail("corrupt-data", "the data changed during the callback");
    }
};
// A second observable of the same type with one user and observers of its own.
struct Side : observer<Msg> {
    u64 got = 0, gone = 0, source = 0;
    bool leave = false;
    std::function<void()> inner;
    void disconnect(void const*) override { ++gone; }

protected:
    void data(void const* src, Msg const& m) override
    {
        sim::Harness h;
        if (!m.intact() || m.prod != 99) sim::fail("corrupt-data", "an observer of another observable got this one's data");
        if (source && u64(src) != source) sim::fail("wrong-source", "the source pointer is not the observable's address");
        ++got;
        if (auto f = std::move(inner)) {
            inner = nullptr;
            f();
        }
    }
};
void side_world(Plan const& p)
{
    using S = observable_dynamic<Msg>;
    S*    s = sim::make<S>();
    Side* o[3];
    for (auto& x : o) x = sim::make<Side>(), x->source = u64(s);
    u64 want[3]{}, in[3]{}, seq = 0;
    Rng r{u64(p.get("side"))};
    auto sut = [](auto f) {
        sim::Sut u;
        f();
    };
    for (int i = 0; i < int(r.range(2, 12)); i++) {
        std::size_t k = r.below(3);
        if (r.chance(1, 2)) {
            Msg m(99, ++seq);
            for (int j = 0; j < 3; j++) want[j] += in[j];
            if (in[k]) o[k]->inner = [&, k] {    // once: it leaves while it is told
                in[k] = 0;
                sut([&] { s->remove_observer(*o[k]); });
            };
            if (r.chance(2, 3)) o[k]->inner = nullptr;
            sim::log("second observable notifies");
            sut([&] { s->notify_observers(m); });
            o[k]->inner = nullptr;
        } else if (in[k]) {
            in[k] = 0;
            sut([&] { s->remove_observer(*o[k]); });
        } else {
            in[k] = 1;
            sut([&] { s->add_observer(*o[k]); });
        }
        for (int j = 0; j < 3; j++)
            if (o[j]->got != want[j]) sim::fail("wrong-count", "an observer of a second observable was told %llu times instead of %llu", (unsigned long long)o[j]->got, (unsigned long long)want[j]);
        for (u64 j = r.below(4); j; j--) sim::point();
    }
    sim::destroy(s);
    for (int j = 0; j < 3; j++) {
        if (o[j]->gone != in[j]) sim::fail("wrong-count", "an observer of a second observable was disconnected %llu times instead of %llu", (unsigned long long)o[j]->gone, (unsigned long long)in[j]);
        sim::destroy(o[j]);
    }
    sim::probe("second_observable");
}
struct Lin {
    std::vector<Ev>                            h;
    std::set<std::pair<u64, std::vector<int>>> seen;
    u64                                        work = 0;
    bool                                       solve(u64 done, std::vector<int> const& reg)
    {
        if (done == (1ull << h.size()) - 1) return true;
        if (!seen.insert({done, reg}).second) return false;
        if (++work > 300'000) {
            sim::probe("linearizability_search_given_up");
            return true;
        }
        u64 first = ~0ull;
        for (std::size_t i = 0; i < h.size(); i++)
            if (!(done >> i & 1)) first = std::min(first, h[i].ret);
        for (std::size_t i = 0; i < h.size(); i++) {
            if (done >> i & 1 || h[i].inv > first) continue;
            auto& e   = h[i];
            bool  has = std::find(reg.begin(), reg.end(), e.obs) != reg.end();
            auto  n   = reg;
            bool  ok;
            if (e.res == NOMEM) {
                ok = e.got.empty();
            } else if (e.kind == NOTIFY && e.at >= 0) {
                std::vector<int> got;
                bool             done_inner = false;
                ok = e.res == OK;
                for (int x : reg) {
                    if (std::find(n.begin(), n.end(), x) == n.end()) continue;
                    got.push_back(x);
                    if (x != e.at || done_inner) continue;
                    done_inner    = true;
                    bool has2     = std::find(n.begin(), n.end(), e.nobs) != n.end();
                    auto a = e.ngot, b = n;
                    if (e.nres == NOMEM && a.empty()) continue;
                    switch (e.nkind) {
                    case ADD:
                        ok &= e.nres == (has2 ? DUP : OK);
                        if (!has2) n.push_back(e.nobs);
                        break;
                    case REMOVE:
                        ok &= e.nres == (has2 ? OK : NONE);
                        std::erase(n, e.nobs);
                        break;
                    case NOTIFY: ok &= e.nres == OK && a == b; break;
                    default:
                        std::sort(a.begin(), a.end());
                        std::sort(b.begin(), b.end());
                        ok &= e.nres == OK && a == b;
                        n.clear();
                    }
                }
                ok &= done_inner == (e.nres >= 0) && got == e.got;
            } else if (e.kind == ADD) {
                ok = e.res == (has ? DUP : OK);
                if (!has) n.push_back(e.obs);
            } else if (e.kind == REMOVE) {
                ok = e.res == (has ? OK : NONE);
                std::erase(n, e.obs);
            } else if (e.kind == NOTIFY) {
                ok = e.res == OK && e.got == reg;
            } else {
                auto a = e.got, b = reg;
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                ok = e.res == OK && a == b;
                n.clear();
            }
            if (ok && solve(done | 1ull << i, n)) return true;
        }
        return false;
    }
};
void run_conc(Plan const& p)
{
    Conc c;
    C         = &c;
    c.cost    = int(p.get("cost"));
    Msg::live = 0;
    if (p.get("stall")) sim::stall_mode(true);
    if (p.get("races")) sim::race_mode(true);
    if (p.get("spurious")) sim::arm(sim::F_SPURIOUS, u32(p.get("spurious")));
    u64   blocks = sim::arena_live_blocks();
    using S      = observable_dynamic<Msg>;
    S* s         = sim::make<S>();
    c.src        = s;
    for (int i = 0; i < int(p.get("observers")); i++) c.obs.push_back(sim::make<TObs>(i));
    c.call = [&](int kind, int b, Msg const& m) -> int {
        auto& ob = *c.obs[std::size_t(b)];
        try {
            sim::Sut    u;
            sim::Faulty ft;
            switch (kind) {
            case ADD: s->add_observer(ob); break;
            case REMOVE: s->remove_observer(ob); break;
            case NOTIFY: s->notify_observers(m); break;
            default: s->clear_observers();
            }
            return OK;
        } catch (S::exception const& x) {
            return code(x.error);
        } catch (std::bad_alloc const&) {
            sim::probe("operation_failed_on_allocation");
            return NOMEM;
        }
    };
    std::vector<Ev> hist;
    auto            doit = [&](Op const& o) {
        Ev e{o.kind, int(o.b), WEIRD, {}, sim::seq(), 0};
        if (o.c > 0) e.at = int(o.c - 1), e.nkind = int(o.a / 100), e.nobs = int(o.a % 100);
        c.now[sim::self()] = &e;
        Msg   m(1, e.inv);
        sim::log("%s %d", o.kind == ADD ? "add" : o.kind == REMOVE ? "remove" : o.kind == NOTIFY ? "notify" : "clear", e.obs);
        e.res              = c.call(o.kind, int(o.b), m);
        c.now[sim::self()] = nullptr;
        e.ret              = sim::seq();
        sim::log("-> %s", code_name(e.res));
        hist.push_back(e);
    };
    if (p.get("enomem")) sim::arm(sim::F_ENOMEM, u32(p.get("enomem")));
    std::vector<u64> ids;
    if (p.get("side")) ids.push_back(sim::spawn([&p] { side_world(p), C->side_over = true; }, "bystander"));
    c.waits = p.get("side") ? p.get("waits") : 0;
    for (int t = 0; t < int(p.get("threads")); t++)
        ids.push_back(sim::spawn(
            [&, t] {
                for (auto& o : p.ops)
                    if (o.th == t) doit(o);
            },
            "client"));
    for (auto i : ids) sim::join(i);
    sim::disarm_all();
    u64 overlap = 0;
    for (auto& a : hist)
        for (auto& b : hist)
            if (&a != &b && a.inv < b.inv && b.inv < a.ret) overlap++;
    sim::probe("overlapping_operations", overlap);
    doit(Op{0, NOTIFY, 0, 0, 0});
    Lin l;
    l.h = hist;
    if (!l.solve(0, {})) sim::fail("not-linearizable", "no sequential order of the %zu operations explains who was told and what was answered", hist.size());
    doit(Op{0, CLEAR, 0, 0, 0});
    sim::destroy(s);
    for (auto* o : c.obs) sim::destroy(o);
    if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "heap blocks are left");
}
Plan gen_conc(Rng& r, int)
{
    Plan p;
    p.p["threads"]   = r.range(2, 4);
    p.p["observers"] = r.range(1, 4);
    p.p["enomem"]    = r.chance(1, 4) ? r.range(2, 15) : 0;
    p.p["cost"]      = r.range(0, 6);
    p.p["stall"]     = r.chance(1, 3);
    p.p["races"]     = r.chance(1, 3);
    p.p["spurious"]  = r.chance(1, 6) ? r.range(2, 12) : 0;
    int n            = int(r.range(2, 14));
    for (int i = 0; i < n; i++) p.ops.push_back(Op{int(r.below(u64(p.get("threads")))), int(r.pick({ADD, ADD, REMOVE, NOTIFY, NOTIFY, CLEAR})), 0, i64(r.below(u64(p.get("observers")))), 0});
    if (r.chance(1, 2))
        for (auto& o : p.ops)
            if (o.kind == NOTIFY && r.chance(1, 2)) {
                o.c = 1 + i64(r.below(u64(p.get("observers"))));
                o.a = 100 * r.pick({ADD, REMOVE, REMOVE, NOTIFY, CLEAR}) + i64(r.below(u64(p.get("observers"))));
            }
    if (r.chance(1, 5)) p.p["side"] = r.range(1, 1 << 30);
    if (r.chance(1, 2)) p.p["waits"] = r.range(1, 5);
    return p;
}
std::string describe_conc(Op const& o)
{
    char        b[96];
    char const* n[] = {"adds", "removes", "notifies", "clears"};
    snprintf(b, sizeof b, "client %d %s observer %lld", o.th, n[o.kind], (long long)o.b);
    if (o.c > 0) return std::string(b) + ", observer " + std::to_string(o.c - 1) + (o.a % 100 == o.c - 1 ? " itself " : " ") + n[o.a / 100 & 3] + " observer " + std::to_string(o.a % 100) + " when called";
    return b;
}

sim::Register r1({"registry", "D01", gen_d01, run_registry, describe, "registrations, removals, notifications, clears and observer destruction from inside callbacks; allocation failure in the dynamic variant"});
sim::Register r2({"observers_concurrent", "D02", gen_conc, run_conc, describe_conc, "preemption at every memory access and lock operation, descheduled lock holders, operations from inside callbacks, allocation failure"});
sim::Register r3({"disconnect", "D03", gen_d03, run_registry, describe, "removals from inside a disconnect, clears and destruction at arbitrary points, allocation failure"});
sim::Register r4({"recursion", "D04", gen_d04, run_registry, describe, "notifications sent from inside callbacks, also through other observables and in cycles"});
}    // namespace
