// Periodic events: xitren::func::interval_event.
#include "common.hpp"

#include <xitren/func/interval_event.hpp>

#include <algorithm>

using xitren::func::interval_event;
using std::chrono::milliseconds;

namespace {

enum Kind { WAIT, JUMP, PERIOD, CHECKS, STOP, READ };
enum { FIRST = 10 };    // the event starts its schedule ten milliseconds after construction

struct Call {
    i64 t0, t1;
};
struct Change {
    i64 t0, t1;    // begin and end of the setter call
    i64 ms;
};
// A second event of its own period, with an owner of its own: the two know nothing of each other.
struct Twin {
    interval_event*  ev{};
    std::vector<i64> at;
    int              fiber  = -1;
    bool             inside = false, stopped = false, alive = false, used = false;
    u64              owner = 0;
};
struct Ctx {
    Plan const*         plan{};
    Twin                twin;
    interval_event*     ev{};
    std::vector<Call>   calls;
    std::vector<Change> periods, checks;
    bool                inside = false, stopped = false;
    int                 fiber  = -1;
    i64                 born0 = 0, born1 = 0;
    i64                 fair_from = -1;    // upper bounds hold from here on (-1: never)
    i64                 stop_at_call = -1;
    bool                stop_called_inside = false;
    u64                 calls_after_inner_stop = 0;
};
Ctx* X;

void callback()
{
    sim::Harness h;
    Ctx&         x = *X;
    if (x.stopped) sim::fail("called-after-stop", "the function was called after stop() had returned");
    if (x.inside) sim::fail("overlap", "the function was called while it was still running");
    if (x.fiber >= 0 && x.fiber != sim::self()) sim::fail("foreign-thread", "the function was called on a second thread");
    if (x.stop_called_inside) sim::fail("called-after-stop", "the function was called again after it had called stop()");
    x.fiber  = sim::self();
    x.inside = true;
    Call c{sim::mono_ns(), 0};
    sim::log("call %zu", x.calls.size());
    i64 const n    = i64(x.calls.size());
    auto&     p    = *x.plan;
    i64       cost = p.get("cost");
    if (p.get("cost_every") > 1 && n % p.get("cost_every")) cost = 0;
    if (cost > 0) sim::sleep_ns(cost);
    // The function may use the object once its owner has handed it over.
    if (n == p.get("self_period_at", -1) || n == x.stop_at_call) sim::block_until([] { return X->ev != nullptr; }, "constructed");
    if (n == p.get("self_period_at", -1)) {
        i64 ms = p.get("self_period");
        Change ch{sim::mono_ns(), 0, ms};
        x.periods.push_back(ch);
        auto idx = x.periods.size() - 1;
        {
            sim::Sut s;
            x.ev->period(milliseconds(ms));
        }
        x.periods[idx].t1 = sim::mono_ns();
        sim::probe("period_changed_from_callback");
    }
    if (n == x.stop_at_call) {
        {
            sim::Sut s;
            x.ev->stop();
        }
        x.stop_called_inside = true;
        sim::probe("stopped_from_callback");
    }
    c.t1     = sim::mono_ns();
    x.inside = false;
    x.calls.push_back(c);
}

void twin_callback()
{
    sim::Harness h;
    Twin&        t = X->twin;
    if (t.stopped) sim::fail("called-after-stop", "the second event's function was called after its stop() had returned");
    if (t.inside) sim::fail("overlap", "the second event's function was called while it was still running");
    if (t.fiber >= 0 && t.fiber != sim::self()) sim::fail("foreign-thread", "the second event's function was called on a second thread");
    if (X->fiber == sim::self()) sim::fail("foreign-thread", "two events call on the same thread");
    t.fiber  = sim::self();
    t.inside = true;
    sim::log("second event: call %zu", t.at.size());
    t.at.push_back(sim::mono_ns());
    t.inside = false;
}

void twin_owner()
{
    Plan const& p = *X->plan;
    Twin&       t = X->twin;
    i64 const   period = p.get("twin_period"), check = p.get("twin_check");
    sim::sleep_ns(p.get("twin_after"));
    t.alive = t.used = true;
    i64 const born0 = sim::mono_ns();
    std::function<void()> fn = [] { twin_callback(); };
    t.ev            = sim::make<interval_event>(fn, milliseconds(period), milliseconds(check));
    fn              = nullptr;
    i64 const born1 = sim::mono_ns();
    sim::sleep_ns(p.get("twin_for"));
    i64 const now = sim::mono_ns();
    auto const at = t.at;
    sim::log("second event ends");
    if (p.get("twin_stops")) {
        sim::Sut s;
        t.ev->stop();
    }
    sim::destroy(t.ev);
    t.stopped = true;
    t.alive   = false;
    for (std::size_t k = 0; k < t.at.size(); k++)
        if (t.at[k] < born0 + (FIRST + i64(k) * period) * MS) sim::fail("called-early", "call %zu of the second event at %lld us, it was made at %lld us with a period of %lld ms", k, (long long)(t.at[k] / US), (long long)(born0 / US), (long long)period);
    // It looks more often than it calls, and nothing holds it up: every call is made within one check.
    if (!p.get("stall") && !p.get("spurious")) {
        i64 const slack = 5 * MS + sim::spun_ns();    // a spinning thread holds up everybody else's time
        i64       due   = born1 + FIRST * MS + check * MS + slack;
        for (std::size_t k = 0; due <= now; k++, due += period * MS) {
            if (k >= at.size()) sim::fail("call-missing", "call %zu of the second event was due by %lld us and has not happened by %lld us", k, (long long)(due / US), (long long)(now / US));
            if (at[k] > due) sim::fail("called-late", "call %zu of the second event at %lld us, due by %lld us", k, (long long)(at[k] / US), (long long)(due / US));
        }
        if (at.size() > 1) sim::probe("two_events_on_time");
    }
}

// Threads an event may leave running: those of the other one.
u64 others() { return X->twin.alive ? 1 : 0; }

// The values a setting may have had at some time in [a, b].
void span(std::vector<Change> const& v, i64 a, i64 b, i64& lo, i64& hi)
{
    lo = INT64_MAX;
    hi = INT64_MIN;
    for (std::size_t i = 0; i < v.size(); i++) {
        if (v[i].t0 > b) continue;
        // replaced for good before a?
        bool gone = false;
        for (std::size_t j = 0; j < v.size(); j++)
            if (j != i && v[j].t0 >= v[i].t1 && v[j].t1 > 0 && v[j].t1 <= a && j > i) gone = true;
        if (gone) continue;
        lo = std::min(lo, v[i].ms);
        hi = std::max(hi, v[i].ms);
    }
}

// Cadence: call k is due at start + 10 ms + the sum of the k periods in force at the calls before it; never
// earlier, and (while nothing is stalled) no later than one check after it is due and its predecessor is done.
void check_cadence(i64 now)
{
    Ctx&      x     = *X;
    i64 const slack = 400 * US;    // what the simulator charges for the thread's own steps
    // A library wait that is woken for no reason may poll (with growing sleeps of up to 64 ms) before it waits again.
    i64 const woken = sim::fault_hits(sim::F_SPURIOUS) ? 100 * MS : 0, spun = sim::spun_ns();
    i64       dlo = x.born0 + FIRST * MS, dhi = x.born1 + FIRST * MS + slack;
    i64       prev_end = x.born1 + FIRST * MS;
    // A stalled thread may have fixed its starting point late, but not after its first call.
    if (x.fair_from > 0) dhi = x.fair_from + FIRST * MS + slack;
    if (!x.calls.empty()) dhi = std::min(dhi, x.calls[0].t0), prev_end = std::min(prev_end, x.calls[0].t0);
    for (std::size_t k = 0; k <= x.calls.size(); k++) {
        bool const made = k < x.calls.size();
        i64        wl, wh;
        span(x.checks, prev_end - 1, made ? x.calls[k].t0 : now, wl, wh);
        if (made && x.calls[k].t0 < dlo)
            sim::fail("called-early", "call %zu at %lld us, due at %lld us", k, (long long)(x.calls[k].t0 / US), (long long)(dlo / US));
        // Calls that were missed are made up one per check, not in a burst.
        if (made && k > 0 && x.calls[k].t0 < prev_end + wl * MS - slack)
            sim::fail("burst", "call %zu came %lld us after call %zu was over, less than one check interval (%lld ms)", k, (long long)((x.calls[k].t0 - prev_end) / US), k - 1, (long long)wl);
        if (x.fair_from >= 0) {
            i64 base  = std::max({dhi, prev_end, x.fair_from});
            i64 limit = base + wh * MS + slack + woken + (wl == 0 ? 2 * MS : spun);    // polling all the time costs time
            if (made) {
                if (x.calls[k].t0 >= x.fair_from && x.calls[k].t0 > limit)
                    sim::fail("called-late", "call %zu at %lld us, due by %lld us", k, (long long)(x.calls[k].t0 / US), (long long)(limit / US));
            } else if (!x.stop_called_inside && now > limit) {
                sim::fail("call-missing", "call %zu was due by %lld us and has not happened by %lld us", k, (long long)(limit / US), (long long)(now / US));
            }
        }
        if (made) {
            i64 lo, hi;
            // The event may look at its period before or after the call; a stalled thread does so late, but no
            // later than at the next call.
            i64 next = k + 1 < x.calls.size() ? x.calls[k + 1].t0 : now;
            span(x.periods, prev_end - 1, x.plan->get("stall") ? next : std::min(next, x.calls[k].t1 + slack), lo, hi);
            dlo += lo * MS;
            dhi += hi * MS;
            prev_end = x.calls[k].t1;
        }
    }
    if (x.plan->get("long") && x.calls.size() > 1) sim::probe("periods_of_minutes_to_months");
    if (x.calls.size() > 65'536) sim::probe("more_than_65536_calls");
    if (x.calls.size() > 256) sim::probe("hundreds_of_calls");
    if (x.calls.size() >= 5) sim::probe("five_or_more_calls");
    if (x.calls.size() > 1 && x.fair_from >= 0) sim::probe("upper_bounds_checked");
}

void events(int th)
{
    Ctx& x = *X;
    for (auto& o : x.plan->ops) {
        if (o.th != th) continue;
        switch (o.kind) {
        case WAIT: sim::sleep_ns(o.a); break;
        case JUMP: sim::jump_wall(o.a); break;
        case PERIOD: {
            x.periods.push_back({sim::mono_ns(), 0, o.a});
            auto idx = x.periods.size() - 1;
            {
                sim::Sut s;
                x.ev->period(milliseconds(o.a));
            }
            x.periods[idx].t1 = sim::mono_ns();
            sim::log("period %lld ms", (long long)o.a);
            i64 got;
            {
                sim::Sut s;
                got = x.ev->period().count();
            }
            if (x.plan->get("self_period_at", -1) < 0 && got != o.a) sim::fail("setting-lost", "period reads %lld after it was set to %lld", (long long)got, (long long)o.a);
            break;
        }
        case CHECKS: {
            x.checks.push_back({sim::mono_ns(), 0, o.a});
            auto idx = x.checks.size() - 1;
            {
                sim::Sut s;
                x.ev->period_between_checks(milliseconds(o.a));
            }
            x.checks[idx].t1 = sim::mono_ns();
            sim::log("checks every %lld ms", (long long)o.a);
            i64 got;
            {
                sim::Sut s;
                got = x.ev->period_between_checks().count();
            }
            if (got != o.a) sim::fail("setting-lost", "period_between_checks reads %lld after it was set to %lld", (long long)got, (long long)o.a);
            break;
        }
        default: break;
        }
    }
}

void begin(Plan const& p, Ctx& x)
{
    X      = &x;
    x.plan = &p;
    if (p.get("stall")) sim::stall_mode(true);
    if (p.get("races")) sim::race_mode(true);
    if (p.get("spurious")) sim::arm(sim::F_SPURIOUS, u32(p.get("spurious")));
    if (p.get("eintr")) sim::arm(sim::F_EINTR, u32(p.get("eintr")));
    sim::set_step_limit(p.get("many") > 1000 ? 100'000'000 : p.get("check") == 0 ? 40'000'000 : 4'000'000);
    sim::spin_cost_ns(2 * US);
    x.born0 = sim::mono_ns();
    x.periods.push_back({0, 0, p.get("period")});
    x.checks.push_back({0, 0, p.get("check")});
    x.periods[0].t0 = x.checks[0].t0 = -1;
    std::function<void()> fn = [] { callback(); };
    switch (p.get("defaults")) {
    case 2:
        x.ev = sim::make<interval_event>(fn);
        sim::probe("default_settings");
        break;
    case 1: x.ev = sim::make<interval_event>(fn, milliseconds(p.get("period"))); break;
    default: x.ev = sim::make<interval_event>(fn, milliseconds(p.get("period")), milliseconds(p.get("check")));
    }
    fn      = nullptr;
    x.born1 = sim::mono_ns();
    if (!p.get("stall")) x.fair_from = 0;
    if (p.get("twin_period")) x.twin.owner = sim::spawn([] { twin_owner(); }, "second owner");
}

void run_cadence(Plan const& p)
{
    Ctx x;
    u64 blocks = sim::arena_live_blocks();
    begin(p, x);
    // One thread changes the settings (they are plain assignments), another disturbs the clock.
    std::vector<u64> ids;
    for (int t = 0; t < 2; t++) ids.push_back(sim::spawn([t] { events(t); }, t ? "environment" : "owner"));
    for (auto i : ids) sim::join(i);
    if (p.get("stall")) {
        sim::stall_mode(false);
        sim::fair(true);
        x.fair_from = sim::mono_ns();
        i64 pm = 0, wm = 0;
        for (auto& c : x.periods) pm = std::max(pm, c.ms);
        for (auto& c : x.checks) wm = std::max(wm, c.ms);
        sim::sleep_ns((pm + 2 * wm + 20) * MS + 3 * p.get("cost"));
    }
    i64 const now = sim::mono_ns();
    if (!x.inside) check_cadence(now);    // a call in progress has no record yet
    else {
        sim::block_until([] { return !X->inside; }, "callback ends");
        // the call that was in progress counts as made
        check_cadence(std::min(now, x.calls.back().t0));
    }
    sim::destroy(x.ev);
    x.stopped = true;
    if (sim::live_threads() > others()) sim::fail("thread-left-behind", "the event's thread outlives it");
    if (x.twin.owner) sim::join(x.twin.owner);
    if (sim::live_threads()) sim::fail("thread-left-behind", "an event's thread outlives it");
    if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "%llu heap blocks are left", (unsigned long long)(sim::arena_live_blocks() - blocks));
}

void run_stop(Plan const& p)
{
    Ctx x;
    u64 blocks     = sim::arena_live_blocks();
    x.stop_at_call = p.get("stop_in_call", -1);
    begin(p, x);
    u64 env = sim::spawn([] { events(1); }, "environment");
    i64 const wait = p.get("run_for");
    if (wait > 0) sim::sleep_ns(wait);
    if (p.get("fair_end")) {
        sim::stall_mode(false);
        sim::fair(true);
    }
    auto bound = [&](i64 took) {
        i64 wm = 0;
        for (auto& c : x.checks) wm = std::max(wm, c.ms);
        i64 limit = FIRST * MS + p.get("cost") + wm * MS + 1 * MS + sim::spun_ns();
        if ((p.get("fair_end") || !p.get("stall")) && took > limit)
            sim::fail("slow-stop", "stop took %lld us, it has to wait for one call and one check at most (%lld us)", (long long)(took / US), (long long)(limit / US));
    };
    for (int i = 0; i < int(p.get("stops")); i++) {
        i64  t0     = sim::mono_ns();
        bool inside = x.inside;
        sim::log("stop");
        {
            sim::Sut s;
            if (p.get("other_thread") && i == 0) {
                sim::Harness h;
                u64          id = sim::spawn([] { sim::Sut s2; X->ev->stop(); }, "stopper");
                sim::join(id);
            } else {
                x.ev->stop();
            }
        }
        if (inside) sim::probe("stopped_while_in_callback");
        if (x.inside) sim::fail("stop-returned-early", "stop() returned while the function was running");
        if (sim::live_threads() > others()) sim::fail("thread-left-behind", "the thread still runs after stop() returned");
        x.stopped = true;
        bound(sim::mono_ns() - t0);
    }
    if (x.calls.empty()) sim::probe("stopped_before_first_call");
    if (p.get("linger")) sim::sleep_ns(p.get("linger"));
    sim::join(env);
    i64 t0 = sim::mono_ns();
    sim::log("destroy");
    sim::destroy(x.ev);
    if (!x.stopped) bound(sim::mono_ns() - t0);
    if (x.inside) sim::fail("stop-returned-early", "the destructor returned while the function was running");
    x.stopped = true;
    if (sim::live_threads() > others()) sim::fail("thread-left-behind", "the event's thread outlives it");
    if (x.twin.owner) sim::join(x.twin.owner);
    if (sim::live_threads()) sim::fail("thread-left-behind", "an event's thread outlives it");
    if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "%llu heap blocks are left", (unsigned long long)(sim::arena_live_blocks() - blocks));
    sim::sleep_ns(50 * MS);
}

// ---- generators
void gen_base(Plan& p, Rng& r)
{
    p.p["period"] = r.chance(1, 3) ? r.pick({1, 2, 5, 7, 10, 20, 50, 100, 250, 1000}) : r.range(1, 60);
    p.p["check"]  = r.chance(1, 3) ? r.pick({0, 1, 1, 2, 10, 20, 50}) : r.range(1, 30);
    if (p.get("check") == 0) p.p["period"] = std::min<i64>(p.get("period"), 20);    // polls all the time
    p.p["cost"]   = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.range(0, 3000) * US : r.range(0, 40) * MS;
    p.p["cost_every"] = r.chance(1, 3) ? r.range(2, 7) : 1;
    p.p["stall"] = r.chance(1, 3);
    p.p["races"] = r.chance(1, 3);
    p.p["spurious"]  = r.chance(1, 6) ? r.range(2, 12) : 0;
    if (r.chance(1, 3)) p.p["eintr"] = r.range(1, 12);
}
void clip(Plan& p, i64& total)
{
    // With a check period of zero the thread polls: keep such runs short.
    if (p.get("check") == 0) total = std::min<i64>(total, 20);
    i64 busy = std::max<i64>(1, std::max(p.get("check"), std::min<i64>(p.get("period"), 1000)));
    total    = std::min(total, busy * 40 + 20);
}
// Now and then a period of minutes to months.
bool gen_long(Plan& p, Rng& r, i64& total)
{
    if (!r.chance(1, 40)) return false;
    i64 const most = r.pick<i64>({70'000, 4'000'000, 90'000'000, 5'000'000'000});
    p.p["period"] = r.range(most / 4, most);
    p.p["check"]  = r.chance(1, 3) ? p.get("period") : r.range(p.get("period") / 20 + 1, p.get("period"));
    if (r.chance(1, 4)) p.p["cost"] = r.range(0, p.get("period")) * MS;
    p.p["long"] = 1;
    p.p["spurious"] = 0;    // a library may poll for the rest of a wait that was once woken for no reason
    total = r.range(0, 12 * p.get("period"));
    return true;
}
// Last draws: the settings nobody gave, and a second event.
void gen_more(Plan& p, Rng& r, i64 total)
{
    if (p.get("many") || p.get("check") == 0) return;
    if (!p.get("long") && r.chance(1, 12)) {
        p.p["defaults"] = r.range(1, 2);
        p.p["check"]    = 20;
        if (p.get("defaults") == 2) p.p["period"] = 100;
    }
    if (!r.chance(1, 6)) return;
    i64 const most      = p.get("long") ? 2 * p.get("period") : 80;
    p.p["twin_period"]  = r.range(most / 10, most);
    p.p["twin_check"]   = r.range(p.get("long") ? most / 20 : 1, std::max<i64>(1, p.get("twin_period") * 3 / 4));
    p.p["twin_after"]   = r.chance(1, 2) ? 0 : r.range(0, total * 1000) * US;
    p.p["twin_for"]     = r.range(0, total * 1000) * US;
    p.p["twin_stops"]   = r.chance(1, 2);
}
Plan gen_cadence(Rng& r, int)
{
    Plan p;
    gen_base(p, r);
    i64 total = r.range(0, 1500);
    clip(p, total);
    bool const big = gen_long(p, r, total);
    if (i64 const calls = r.chance(1, 60'000) ? 66'000 : r.chance(1, 1'000) ? r.range(260, 700) : 0) {    // many calls
        p.p["period"] = p.p["check"] = r.range(1, 3);
        if (r.chance(1, 2)) p.p["check"] = 1;
        p.p["stall"] = p.p["races"] = p.p["cost"] = p.p["eintr"] = p.p["spurious"] = 0;
        p.p["many"]  = calls;
        p.ops.push_back(Op{0, WAIT, calls * std::max(p.get("period"), p.get("check")) * MS + r.range(0, 3000) * US, 0, 0});
        return p;
    }
    int n = int(r.range(0, 5));
    for (int i = 0; i < n; i++) {
        p.ops.push_back(Op{0, WAIT, total * MS / (n + 1) + r.range(0, 999) * US, 0, 0});
        if (r.chance(1, 2)) p.ops.push_back(Op{0, PERIOD, r.range(1, 80) * (big ? p.get("period") / 40 : 1), 0, 0});
        else p.ops.push_back(Op{0, CHECKS, r.range(1, 30) * (big ? p.get("check") / 15 : 1), 0, 0});
    }
    p.ops.push_back(Op{0, WAIT, total * MS / (n + 1) + r.range(0, 999) * US, 0, 0});
    if (r.chance(1, 5) && !n) {
        p.p["self_period_at"] = r.range(0, 6);
        p.p["self_period"]    = r.range(1, 60);
    }
    gen_more(p, r, total);
    return p;
}
Plan gen_jumps(Rng& r, int)
{
    Plan p;
    gen_base(p, r);
    i64 total = r.range(20, 1500);
    clip(p, total);
    gen_long(p, r, total);
    p.ops.push_back(Op{0, WAIT, total * MS + r.range(0, 999) * US, 0, 0});
    int n = int(r.range(1, 6));
    for (int i = 0; i < n; i++) {
        p.ops.push_back(Op{1, WAIT, r.range(0, total * 1000 / n) * US, 0, 0});
        i64 mag = r.pick<i64>({1, 10, 100, 3'600'000, 86'400'000});
        p.ops.push_back(Op{1, JUMP, (r.chance(1, 2) ? 1 : -1) * r.range(1, mag) * MS, 0, 0});
    }
    gen_more(p, r, total);
    return p;
}
Plan gen_stop(Rng& r, int)
{
    Plan p;
    gen_base(p, r);
    p.p["period"]       = r.range(1, 40);
    p.p["check"]        = r.range(0, 25);
    p.p["run_for"]      = r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.range(0, 12'000) * US : r.range(0, 200'000) * US;
    if (p.get("check") == 0) p.p["run_for"] = std::min<i64>(p.get("run_for"), 25 * MS);
    p.p["stops"]        = r.range(0, 3);
    p.p["other_thread"] = r.chance(1, 3);
    p.p["fair_end"]     = r.chance(1, 2);
    p.p["linger"]       = r.chance(1, 2) ? r.range(1, 100) * MS : 0;
    if (r.chance(1, 4)) p.p["stop_in_call"] = r.range(0, 5);
    if (r.chance(1, 3)) {
        int n = int(r.range(1, 3));
        for (int i = 0; i < n; i++) {
            p.ops.push_back(Op{1, WAIT, r.range(0, 30'000) * US, 0, 0});
            p.ops.push_back(Op{1, JUMP, (r.chance(1, 2) ? 1 : -1) * r.range(1, 1'000'000) * MS, 0, 0});
        }
    }
    gen_more(p, r, 2 * p.get("run_for") / MS + 100);
    return p;
}
std::string describe(Op const& o)
{
    char b[128];
    switch (o.kind) {
    case WAIT: snprintf(b, sizeof b, "%s waits %lldus", o.th ? "environment" : "owner", (long long)o.a / 1000); break;
    case JUMP: snprintf(b, sizeof b, "wall clock jumps by %lldms", (long long)o.a / MS); break;
    case PERIOD: snprintf(b, sizeof b, "owner sets the period to %lldms", (long long)o.a); break;
    default: snprintf(b, sizeof b, "owner sets the time between checks to %lldms", (long long)o.a);
    }
    return b;
}

// Thread creation or allocation fails in the constructor.
void run_create(Plan const& p)
{
    u64 blocks = sim::arena_live_blocks();
    for (auto& o : p.ops) {
        (void)o;
        Ctx x;
        X      = &x;
        x.plan = &p;
        sim::arm(sim::F_EAGAIN, u32(p.get("eagain")));
        if (p.get("enomem")) sim::arm(sim::F_ENOMEM, u32(p.get("enomem")));
        interval_event* e = nullptr;
        try {
            sim::Faulty f;
            e = sim::make<interval_event>([] { callback(); }, milliseconds(5), milliseconds(1));
        } catch (std::system_error const&) {
            sim::probe("construction_refused_no_thread");
        } catch (std::bad_alloc const&) {
            sim::probe("construction_refused_no_memory");
        }
        sim::disarm_all();
        if (e) {
            sim::fair(true);
            sim::sleep_ns(60 * MS);
            if (x.calls.size() < 5) sim::fail("call-missing", "only %zu calls in 60 ms", x.calls.size());
            sim::destroy(e);
        }
        x.stopped = true;
        sim::fair(true);
        sim::sleep_ns(50 * MS);
        sim::fair(false);
        if (sim::live_threads()) sim::fail("thread-left-behind", "a thread survives a construction that failed");
        if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "heap blocks are left after a failed construction");
    }
}
Plan gen_create(Rng& r, int)
{
    Plan p;
    p.p["eagain"] = r.range(1, 4);
    p.p["enomem"] = r.chance(1, 2) ? r.range(1, 6) : 0;
    p.p["stall"]  = 0;
    int n         = int(r.range(1, 3));
    for (int i = 0; i < n; i++) p.ops.push_back(Op{});
    return p;
}
std::string describe_create(Op const&) { return "construct an interval_event while thread creation and allocation may fail"; }

sim::Register r1({"cadence", "B01", gen_cadence, run_cadence, describe, "descheduled timer thread, interrupted sleeps, slow callbacks, settings changed by another thread and from the callback"});
sim::Register r2({"stop", "B02", gen_stop, run_stop, describe, "stop at arbitrary points, double stop, stop from the callback, stop before the first call, wall-clock jumps, interrupted sleeps"});
sim::Register r3({"clock_jumps", "B03", gen_jumps, run_cadence, describe, "wall-clock jumps of both signs up to a day, descheduled timer thread, interrupted sleeps"});
sim::Register r4({"interval_create_fail", "B04", gen_create, run_create, describe_create, "pthread_create failing with EAGAIN, allocation failure during construction"});
}    // namespace
