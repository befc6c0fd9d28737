// xitren::allocators: static_heap and static_heap_allocator.
#include "common.hpp"

#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>

#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

using namespace xitren::allocators;

namespace {
constexpr std::size_t ALIGN = 8, HEAD = 16;
struct Boom : std::exception {};

// ---------------------------------------------------------------- G01: the heap itself
enum Kind { ALLOC, CALLOC, FREE, DOUBLE_FREE, FREE_NULL, HUGE_ALLOC, RESET_MIN, FILL, ON_FAIL, FREE_ALL, CHURN, COMB };
char const* kname[] = {"allocate", "callocate", "deallocate", "deallocate twice", "deallocate(nullptr)", "allocate (absurd size)", "reset minimum", "allocate until full", "on_fail", "deallocate all", "allocate and deallocate again and again", "deallocate every other"};

template <class H, class S>
S stats_of(H& h, void (H::*f)(S*))
{
    S        s{};
    sim::Sut u;
    (h.*f)(&s);
    return s;
}
struct Block {
    std::uint8_t* p;
    std::size_t   n, extent;
    u64           tag;
};
struct HeapBox {
    virtual ~HeapBox()                                      = default;
    virtual void*       allocate(std::size_t)               = 0;
    virtual void*       callocate(std::size_t, std::size_t) = 0;
    virtual void        deallocate(void*)                   = 0;
    virtual std::size_t free_size()                         = 0;
    virtual std::size_t min_free()                          = 0;
    virtual void        reset_min()                         = 0;
    virtual void        on_fail(std::function<void()>)      = 0;
    virtual void        check_stats(struct Ref&)            = 0;
    virtual char*       object()                            = 0;
    virtual std::size_t object_size()                       = 0;
    virtual void        kill()                              = 0;
};
struct Ref {
    std::unique_ptr<HeapBox> h;
    std::vector<Block>       live;
    std::uint8_t*            base  = nullptr;
    std::size_t              total = 0, min = 0, allocs = 0, frees = 0;
    u64                      tag = 0, version = 0;
    void*                    last_freed         = nullptr;
    u64                      last_freed_version = 0;
    // on_fail
    bool callback = false;
    i64  action = 0;
    u64  calls = 0, expected_calls = 0;
    bool in_callback = false;

    std::vector<std::pair<std::size_t, std::size_t>> gaps()
    {
        auto v = live;
        std::sort(v.begin(), v.end(), [](Block const& a, Block const& b) { return a.p < b.p; });
        std::vector<std::pair<std::size_t, std::size_t>> g;
        std::size_t                                      at = 0;
        for (auto& b : v) {
            std::size_t off = std::size_t(b.p - base) - HEAD;
            if (off > at) g.push_back({at, off - at});
            at = off + b.extent;
        }
        if (at < total) g.push_back({at, total - at});
        return g;
    }
    std::size_t used()
    {
        std::size_t s = 0;
        for (auto& b : live) s += b.extent;
        return s;
    }
    static std::uint8_t byte(u64 tag, std::size_t i) { return std::uint8_t((tag * 0x9E3779B97F4A7C15ULL) >> ((i % 8) * 8)) ^ std::uint8_t(i); }
    void                paint(Block const& b)
    {
        for (std::size_t i = 0; i < b.n; i++) b.p[i] = byte(b.tag, i);
    }
    void verify()
    {
        for (auto& b : live)
            for (std::size_t i = 0; i < b.n; i++)
                if (b.p[i] != byte(b.tag, i)) sim::fail("corrupted-block", "byte %zu of a live block of %zu bytes changed", i, b.n);
        std::size_t f = h->free_size();
        if (f != total - used()) sim::fail("accounting", "free_heap_size is %zu, %zu of %zu are in use", f, used(), total);
        if (h->min_free() != min) sim::fail("accounting", "minimum_ever_free_heap_size is %zu, expected %zu", h->min_free(), min);
    }
    /// an allocation of n bytes returned p (the heap's free size was `before`)
    void took(void* p, std::size_t n, std::size_t before, bool zeroed)
    {
        std::size_t need = (n + HEAD + ALIGN - 1) & ~(ALIGN - 1), largest = 0;
        for (auto& [o, s] : gaps()) largest = std::max(largest, s);
        bool fits = n && n <= total && need <= largest;
        if (!p) {
            if (fits) sim::fail("refused", "allocate(%zu) failed with a free stretch of %zu bytes", n, largest);
            sim::probe("allocation_refused");
            if (n && need <= total - used()) sim::probe("refused_for_fragmentation");
            return;
        }
        auto*       q   = static_cast<std::uint8_t*>(p);
        std::size_t now = h->free_size();
        if (!n) {    // a block for nothing is allowed as long as it is a block like any other
            sim::fail("accounting", "allocate(0) handed out a block");
        }
        if ((reinterpret_cast<std::size_t>(p) & (ALIGN - 1)) != 0) sim::fail("misaligned", "allocate(%zu) returned a misaligned address", n);
        if ((char*)q < h->object() || (char*)q + n > h->object() + h->object_size() || q < base + HEAD || q + n > base + total)
            sim::fail("out-of-heap", "allocate(%zu) returned memory outside the heap", n);
        for (auto& b : live)
            if (q < b.p + b.n && b.p < q + n) sim::fail("overlap", "allocate(%zu) returned memory that a live block of %zu bytes holds", n, b.n);
        if (now > before || before - now < n) sim::fail("accounting", "allocate(%zu) changed the free size from %zu to %zu", n, before, now);
        std::size_t extent = before - now;
        if (!fits) sim::fail("overlap", "allocate(%zu) succeeded though the largest free stretch is %zu", n, largest);
        Block b{q, n, extent, ++tag};
        bool  inside = false;
        for (auto& [o, s] : gaps())
            if (std::size_t(q - base) >= HEAD + o && std::size_t(q - base) - HEAD + extent <= o + s) inside = true;
        if (!inside) sim::fail("overlap", "the block of allocate(%zu) is not in a free stretch", n);
        if (zeroed)
            for (std::size_t i = 0; i < n; i++)
                if (q[i]) sim::fail("not-zeroed", "byte %zu of callocate(%zu) is not zero", i, n);
        if (extent > need) sim::probe("whole_block_given_away");
        if (extent > need + 2 * HEAD) sim::fail("wasted", "allocate(%zu) took %zu bytes", n, extent);
        if (need == largest) sim::probe("exact_fit");
        paint(b);
        live.push_back(b);
        ++allocs;
        ++version;
        min = std::min(min, now);
    }
    void allocate(std::size_t n, bool zero, std::size_t num = 0, std::size_t each = 0)
    {
        std::size_t before = h->free_size();
        u64         c = calls, allocs_before = allocs, frees_before = frees;
        auto        before_live = live;
        void*       p      = nullptr;
        bool        thrown = false;
        try {
            p = zero ? h->callocate(num, each) : h->allocate(n);
        } catch (Boom const&) {
            thrown = true;
        }
        sim::log("allocate(%zu): %s", n, p ? "ok" : thrown ? "on_fail threw" : "null");
        bool changed = allocs != allocs_before || frees != frees_before;    // by the callback
        if (callback && !in_callback) {
            if (p && calls != c) sim::fail("on-fail", "on_fail was called for an allocation that succeeded");
            if (!p && n && calls != c + 1) sim::fail("on-fail", "on_fail was called %llu times for one refused allocation", (unsigned long long)(calls - c));
        }
        if (p && changed) sim::fail("on-fail", "on_fail was called for an allocation that succeeded");
        if (!p && changed) {    // judge the refusal by the state it met
            auto now = live;
            live     = before_live;
            took(nullptr, n, before, zero);
            live = now;
            return;
        }
        took(p, n, before, zero);
    }
    void free_at(std::size_t i)
    {
        Block b = live[i];
        for (std::size_t k = 0; k < b.n; k++)
            if (b.p[k] != byte(b.tag, k)) sim::fail("corrupted-block", "byte %zu of a live block of %zu bytes changed", k, b.n);
        std::size_t before = h->free_size();
        h->deallocate(b.p);
        std::size_t now = h->free_size();
        sim::log("deallocate(%zu)", b.n);
        if (now - before != b.extent) sim::fail("accounting", "releasing a block of %zu changed the free size from %zu to %zu", b.extent, before, now);
        live.erase(live.begin() + std::ptrdiff_t(i));
        ++frees;
        last_freed         = b.p;
        last_freed_version = version;
    }
    void fail_callback()
    {
        sim::Harness hs;
        sim::log("on_fail");
        if (in_callback) return;    // for an allocation of the callback itself
        ++calls;
        in_callback = true;
        sim::probe("on_fail_called");
        switch (action) {
        case 1:    // make room
            if (!live.empty()) free_at(std::size_t(tag % live.size()));
            break;
        case 2:    // try something smaller
            allocate(1 + tag % 24, false);
            break;
        case 3:
            if (!live.empty()) free_at(0);
            if (!live.empty()) free_at(live.size() / 2);
            allocate(8, false);
            break;
        case 4: in_callback = false; sim::count_fault("callback_throw"); throw Boom{};
        default: break;
        }
        in_callback = false;
    }
    void perform(Op const& o)
    {
        switch (o.kind) {
        case ALLOC: allocate(std::size_t(o.a), false); break;
        case CALLOC: {
            std::size_t each = std::size_t(o.b), num = std::size_t(o.a);
            if (each == 0 || num <= std::size_t(-1) / each) allocate(num * each, true, num, each);
            else {
                void* p = nullptr;
                try {
                    p = h->callocate(num, each);
                } catch (Boom const&) {
                }
                sim::probe("callocate_overflow_refused");
                if (p) sim::fail("overflow", "callocate(%zu, %zu) succeeded", num, each);
            }
            break;
        }
        case FREE:
            if (!live.empty()) free_at(std::size_t(o.a) % live.size());
            break;
        case DOUBLE_FREE:    // again what was released last, nothing having been allocated since
            if (last_freed && last_freed_version == version) {
                sim::count_fault("double_release");
                h->deallocate(last_freed);
            }
            break;
        case FREE_NULL: h->deallocate(nullptr); break;
        case HUGE_ALLOC: allocate(std::size_t(0) - std::size_t(o.a), false); break;
        case RESET_MIN:
            h->reset_min();
            min = h->free_size();
            break;
        case FILL: {
            auto before = live.size();
            for (int i = 0; i < 600; i++) {
                auto n = live.size();
                allocate(std::size_t(o.a), false);
                if (live.size() <= n) break;
            }
            if (live.size() > before) sim::probe("filled_up");
            if (live.size() > 255) sim::probe("hundreds_of_blocks");
            break;
        }
        case CHURN:
            for (i64 i = 0; i < o.b; i++) {
                auto n = live.size();
                allocate(std::size_t(o.a), false);
                if (live.size() <= n) break;
                free_at(live.size() - 1);
            }
            if (allocs > 255) sim::probe("hundreds_of_allocations");
            if (allocs > 65'535) sim::probe("more_than_65536_allocations");
            break;
        case COMB:    // many free stretches
            std::sort(live.begin(), live.end(), [](Block const& a, Block const& b) { return a.p < b.p; });
            for (std::size_t i = 0; i < live.size(); i++) free_at(i);
            if (live.size() > 255) sim::probe("hundreds_of_free_blocks");
            break;
        case ON_FAIL:
            action   = o.a;
            callback = o.b != 0;
            h->on_fail(callback ? std::function<void()>([this] { fail_callback(); }) : std::function<void()>());
            break;
        case FREE_ALL:
            for (i64 k = o.a; !live.empty(); k++) free_at(std::size_t(k % 7) * (live.size() - 1) / 6);
            break;
        default: break;
        }
    }
};
template <std::size_t Size>
struct HeapOf : HeapBox {
    using H = static_heap<Size>;
    H*    h = sim::make<H>();
    void* allocate(std::size_t n) override
    {
        sim::Sut u;
        return h->allocate(n);
    }
    void* callocate(std::size_t a, std::size_t b) override
    {
        sim::Sut u;
        return h->callocate(a, b);
    }
    void deallocate(void* p) override
    {
        sim::Sut u;
        h->deallocate(p);
    }
    std::size_t free_size() override
    {
        sim::Sut u;
        return h->free_heap_size();
    }
    std::size_t min_free() override
    {
        sim::Sut u;
        return h->minimum_ever_free_heap_size();
    }
    void reset_min() override
    {
        sim::Sut u;
        h->reset_minimum_ever_free_heap_size();
    }
    void on_fail(std::function<void()> f) override
    {
        sim::Sut u;
        h->on_fail(f);
    }
    void check_stats(Ref& r) override
    {
        auto        s = stats_of(*h, &H::v_port_get_heap_stats);
        auto        g = r.gaps();
        std::size_t largest = 0, smallest = std::size_t(-1);
        for (auto& [o, n] : g) largest = std::max(largest, n), smallest = std::min(smallest, n);
        if (s.x_available_heap_space_in_bytes != r.h->free_size() || s.x_minimum_ever_free_bytes_remaining != r.min || s.x_number_of_successful_allocations != r.allocs
            || s.x_number_of_successful_frees != r.frees)
            sim::fail("statistics", "the statistics say %zu free, %zu at least, %zu allocations, %zu frees; it is %zu, %zu, %zu, %zu", s.x_available_heap_space_in_bytes,
                      s.x_minimum_ever_free_bytes_remaining, s.x_number_of_successful_allocations, s.x_number_of_successful_frees, r.h->free_size(), r.min, r.allocs, r.frees);
        if (s.x_number_of_free_blocks != g.size()) sim::fail("coalescing", "%zu free blocks for %zu free stretches", s.x_number_of_free_blocks, g.size());
        if (g.empty() && s.x_size_of_largest_free_block_in_bytes != 0)
            sim::fail("statistics", "the largest free block of a full heap is reported as %zu", s.x_size_of_largest_free_block_in_bytes);
        if (!g.empty() && (s.x_size_of_largest_free_block_in_bytes != largest || s.x_size_of_smallest_free_block_in_bytes != smallest))
            sim::fail("statistics", "the largest and smallest free blocks are %zu and %zu, reported as %zu and %zu", largest, smallest, s.x_size_of_largest_free_block_in_bytes,
                      s.x_size_of_smallest_free_block_in_bytes);
    }
    char*       object() override { return reinterpret_cast<char*>(h); }
    std::size_t object_size() override { return sizeof(H); }
    void        kill() override { sim::destroy(h); }
};
std::unique_ptr<HeapBox> make_heap(i64 k)
{
    switch (k) {
    case 0: return std::make_unique<HeapOf<64>>();
    case 1: return std::make_unique<HeapOf<131>>();
    case 2: return std::make_unique<HeapOf<256>>();
    case 3: return std::make_unique<HeapOf<333>>();
    case 4: return std::make_unique<HeapOf<1024>>();
    case 5: return std::make_unique<HeapOf<40>>();
    case 7: return std::make_unique<HeapOf<140'000>>();
    default: return std::make_unique<HeapOf<2048>>();
    }
}
std::size_t const heap_size[] = {64, 131, 256, 333, 1024, 40, 2048, 140'000};
void              run_heap(Plan const& p)
{
    u64              blocks = sim::arena_live_blocks();
    int              nh     = int(p.get("heaps"));
    std::vector<Ref> refs(static_cast<std::size_t>(nh));
    if (p.get("big")) sim::set_step_limit(60'000'000);
    for (int i = 0; i < nh; i++) {
        Ref& r  = refs[std::size_t(i)];
        r.h     = make_heap(p.get(i ? "heap1" : "heap0"));
        r.total = r.h->free_size();
        std::size_t size = heap_size[p.get(i ? "heap1" : "heap0")];
        if (r.total + 32 < size || r.total >= size) sim::fail("accounting", "a fresh heap of %zu bytes has %zu free", size, r.total);
        // A fresh heap gives all it has to one caller and takes it back.
        r.min = r.total;
        if (r.h->min_free() != r.total) sim::fail("accounting", "minimum_ever_free_heap_size of a fresh heap is %zu of %zu", r.h->min_free(), r.total);
        if (p.get("whole")) {
            void* q = r.h->allocate(r.total - HEAD);
            if (!q) sim::fail("refused", "a fresh heap refuses %zu of its %zu bytes", r.total - HEAD, r.total);
            r.base = static_cast<std::uint8_t*>(q) - HEAD;
            if (r.h->free_size() != 0) sim::fail("accounting", "%zu bytes are free in a full heap", r.h->free_size());
            r.h->deallocate(q);
            if (r.h->free_size() != r.total) sim::fail("accounting", "%zu of %zu bytes are free in an empty heap", r.h->free_size(), r.total);
            r.min    = 0;
            r.allocs = r.frees = 1;
        } else {
            void* q = r.h->allocate(1);
            if (!q) sim::fail("refused", "a fresh heap refuses one byte");
            auto twin = make_heap(p.get(i ? "heap1" : "heap0"));    // where in the object the managed bytes begin
            void* w   = twin->allocate(r.total - HEAD);
            if (!w) sim::fail("refused", "a fresh heap refuses %zu of its %zu bytes", r.total - HEAD, r.total);
            r.base = reinterpret_cast<std::uint8_t*>(r.h->object() + (static_cast<char*>(w) - twin->object())) - HEAD;
            twin->deallocate(w);
            twin->kill();
            r.min  = r.h->free_size();
            r.h->deallocate(q);
            r.allocs = r.frees = 1;
        }
        r.verify();
        if (p.get("reset")) r.perform(Op{0, RESET_MIN, 0, 0, 0});
        r.verify();
    }
    for (auto& o : p.ops) {
        Ref& r = refs[std::size_t(o.th % nh)];
        r.perform(o);
        for (auto& x : refs) x.verify();
        if (o.c & 1) r.h->check_stats(r);
    }
    for (auto& r : refs) {
        r.perform(Op{0, ON_FAIL, 0, 0, 0});
        r.h->check_stats(r);
        r.perform(Op{0, FREE_ALL, p.get("order"), 0, 0});
        r.verify();
        r.h->check_stats(r);
        // Empty again: everything is one block.
        r.perform(Op{0, ALLOC, i64(r.total - HEAD), 0, 0});
        r.verify();
        if (r.live.empty()) sim::fail("coalescing", "an emptied heap does not give back its whole capacity");
        r.perform(Op{0, FREE_ALL, 0, 0, 0});
        r.h->kill();
    }
    if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "heap blocks are left");
}
Plan gen_heap(Rng& r, int tier)
{
    Plan p;
    int  nh      = r.chance(1, 5) ? 2 : 1;
    p.p["heaps"] = nh;
    p.p["heap0"] = r.range(0, 6);
    p.p["heap1"] = r.range(0, 6);
    p.p["whole"] = r.chance(1, 2);
    p.p["order"] = r.range(0, 6);
    p.p["reset"] = r.chance(2, 3);
    i64 small    = r.pick({8, 24, 64, 200});
    int n        = int(r.range(4, tier ? 70 : 30));
    bool const big = r.chance(1, 3'000);
    if (big) {    // tens of kilobytes, hundreds of blocks, many allocations
        p.p["big"]   = 1;
        p.p["heap0"] = 7;
        small        = r.pick({400, 40'000, 70'000});
        n            = int(r.range(3, 15));
        p.ops.push_back(Op{0, r.chance(1, 2) ? FILL : CHURN, r.range(1, 500), r.chance(1, 20) ? 66'000 : r.range(200, 600), 1});
        if (r.chance(1, 2)) p.ops.push_back(Op{0, COMB, 0, 0, 1});
        if (r.chance(1, 2)) {    // a long zeroed array where something else has been
            p.ops.push_back(Op{0, FREE_ALL, r.range(0, 6), 0, 0});
            p.ops.push_back(Op{0, ALLOC, r.range(30'000, 130'000), 0, 0});
            p.ops.push_back(Op{0, FREE_ALL, 0, 0, 0});
            i64 each = r.range(1, 4);
            p.ops.push_back(Op{0, CALLOC, r.range(10'000, 130'000) / each, each, 0});
            if (r.chance(1, 2)) std::swap(p.ops.back().a, p.ops.back().b);
        }
    }
    if (r.chance(1, 2)) p.ops.push_back(Op{0, ON_FAIL, r.range(0, 4), 1, 0});
    for (int i = 0; i < n; i++) {
        Op  o;
        o.th     = int(r.below(u64(nh)));
        u64 dice = r.below(40);
        o.kind   = dice < 17 ? ALLOC : dice < 20 ? CALLOC : dice < 31 ? FREE : dice < 33 ? FILL : dice < 34 ? FREE_ALL : dice < 35 ? DOUBLE_FREE : dice < 36 ? FREE_NULL : dice < 37 ? HUGE_ALLOC : dice < 38 ? RESET_MIN : dice < 39 ? ON_FAIL : COMB;
        o.a      = r.range(0, small);
        if (o.kind == ALLOC && r.chance(1, 10)) o.a = r.range(0, big ? 130'000 : 1100);
        if (o.kind == CALLOC) {
            o.a = r.range(0, 9), o.b = r.range(0, small / 4);
            if (r.chance(1, 4)) o.a = r.range(100, 1100), o.b = r.range(0, 3);
            if (r.chance(1, 2)) std::swap(o.a, o.b);
            if (r.chance(1, 6)) o.a = r.chance(1, 2) ? i64(-1) - r.range(0, 20) : i64((~0ull) / 8 + u64(r.range(0, 3))), o.b = r.range(1, 17);
        }
        if (o.kind == FILL) o.a = r.range(1, small);
        if (o.kind == FREE) o.a = r.chance(1, 3) ? r.pick({0, 1, 1000003}) : r.range(0, 50);
        if (o.kind == HUGE_ALLOC) o.a = r.range(1, 64);
        if (o.kind == ON_FAIL) o.a = r.range(0, 4), o.b = r.chance(3, 4);
        o.c = i64(r.below(3));
        p.ops.push_back(o);
    }
    return p;
}
std::string describe_heap(Op const& o)
{
    char b[120];
    snprintf(b, sizeof b, "heap %d: %s (%lld, %lld)", o.th, kname[o.kind], (long long)o.a, (long long)o.b);
    return b;
}

// ---------------------------------------------------------------- G02: containers
struct Elem {
    u64               v, check;
    static inline i64 live = 0;
    static void       maybe()
    {
        sim::Harness h;
        if (sim::fault(sim::F_THROW)) throw Boom{};
    }
    Elem(u64 x) : v(x), check(~x)
    {
        maybe();
        ++live;
    }
    Elem(Elem const& o) : v(o.v), check(o.check)
    {
        maybe();
        ++live;
    }
    Elem& operator=(Elem const& o)
    {
        maybe();
        v     = o.v;
        check = o.check;
        return *this;
    }
    ~Elem()
    {
        check = 0x66;
        --live;
    }
    bool operator<(Elem const& o) const { return v < o.v; }
    bool operator==(Elem const& o) const { return v == o.v; }
};
struct ElemHash {
    std::size_t operator()(Elem const& e) const { return std::size_t(e.v % 7); }
};
enum CKind { PUSH, PUSH_FRONT, INSERT, ERASE, CLEARALL, RESERVE, SHRINK, RESIZE, SWAP, MOVE, COPY, SPLICE, SORT, RAW_ALLOC, BALLAST, NCKIND };
char const* cname[] = {"push", "push_front", "insert", "erase", "clear", "reserve", "shrink_to_fit", "resize", "swap", "move", "copy", "splice", "sort", "allocate", "ballast"};

template <class C>
constexpr bool is_vec = requires(C c) { c.reserve(1); c.shrink_to_fit(); };

template <std::size_t Size>
struct Ctx {
    static_heap<Size>* heap[2]{};
    std::size_t        initial = 0;
    void*              ballast[2]{};
    u64                fails = 0;
    u64                next = 0;
};
// One container of every heap, both with a reference copy.
template <class C, std::size_t Size>
struct Pair {
    using A = typename C::allocator_type;
    Ctx<Size>&       cx;
    C*               c[2]{};
    int              heap_of[2];
    std::vector<u64> ref[2];
    static constexpr bool seq   = requires(C x) { x.push_back(Elem(1)); };
    static constexpr bool list  = requires(C x) { x.splice(x.begin(), x); };
    static constexpr bool deque = requires(C x) { x.push_front(Elem(1)); } && !list;

    explicit Pair(Ctx<Size>& x, bool two_heaps) : cx(x), heap_of{0, two_heaps ? 1 : 0} {}
    static u64 val(Elem const& e) { return e.v; }
    static u64 chk(Elem const& e) { return e.check; }
    bool       create(int i)
    {
        ref[i].clear();
        try {
            A a{*cx.heap[heap_of[i]]};
            sim::Faulty f;
            c[i] = sim::make<C>(a);
        } catch (std::bad_alloc const&) {
            sim::probe("container_creation_refused");
        }
        return c[i];
    }
    void drop(int i)
    {
        if (c[i]) sim::destroy(c[i]);
        c[i] = nullptr;
        ref[i].clear();
    }
    std::vector<u64> contents(int i)
    {
        std::vector<u64> v;
        for (auto& e : *c[i]) {
            if (chk(e) != ~val(e)) sim::fail("corrupted-element", "an element of a container is damaged");
            v.push_back(val(e));
            if (v.size() > 4000) sim::fail("corrupted-element", "a container does not end");
        }
        if (v.size() != c[i]->size()) sim::fail("corrupted-element", "a container of size %zu has %zu elements", c[i]->size(), v.size());
        return v;
    }
    static std::vector<u64> norm(std::vector<u64> v)
    {
        if constexpr (!seq) std::sort(v.begin(), v.end());
        return v;
    }
    void check(int i)
    {
        if (!c[i]) return;
        if (norm(contents(i)) != norm(ref[i])) sim::fail("wrong-contents", "a container differs from its reference (%zu and %zu elements)", c[i]->size(), ref[i].size());
    }
    template <class F>
    int attempt(F f)    // 0 ok, 1 no memory, 2 an element threw
    {
        try {
            sim::Sut    u;
            sim::Faulty t;
            f();
            return 0;
        } catch (std::bad_alloc const&) {
            sim::probe("container_out_of_memory");
            return 1;
        } catch (std::length_error const&) {
            return 1;
        } catch (Boom const&) {
            return 2;
        }
    }
    void resync(int i) { ref[i] = contents(i); }    // after an operation that promises only the basic guarantee
    void perform(Op const& o)
    {
        int i = int(o.b) & 1, j = 1 - i;
        if (!c[i] && !create(i)) return;
        C&   x = *c[i];
        auto n = ref[i].size();
        u64  v = ++cx.next;
        switch (o.kind) {
        case PUSH:
            if constexpr (seq) {
                if (!attempt([&] { x.push_back(Elem(v)); })) ref[i].push_back(v);
            } else {
                v = u64(o.a % 40);
                bool had = std::find(ref[i].begin(), ref[i].end(), v) != ref[i].end(), ins = false;
                if (!attempt([&] { ins = x.emplace(v).second; })) {
                    if (ins == had) sim::fail("wrong-contents", "emplace of %s element said %d", had ? "a present" : "a new", ins);
                    if (ins) ref[i].push_back(v);
                }
            }
            break;
        case PUSH_FRONT:
            if constexpr (list || deque)
                if (!attempt([&] { x.push_front(Elem(v)); })) ref[i].insert(ref[i].begin(), v);
            break;
        case INSERT:
            if constexpr (seq) {
                std::size_t at = n ? std::size_t(o.a) % (n + 1) : 0;
                if (!attempt([&] { x.insert(std::next(x.begin(), std::ptrdiff_t(at)), Elem(v)); })) ref[i].insert(ref[i].begin() + std::ptrdiff_t(at), v);
                else if (!list) resync(i);
            }
            break;
        case ERASE:
            if (n) {
                if constexpr (seq) {
                    std::size_t at = std::size_t(o.a) % n;
                    if (!attempt([&] { x.erase(std::next(x.begin(), std::ptrdiff_t(at))); })) ref[i].erase(ref[i].begin() + std::ptrdiff_t(at));
                    else resync(i);
                } else {
                    u64 k = ref[i][std::size_t(o.a) % n];
                    if (!attempt([&] { x.erase(Elem(k)); })) std::erase(ref[i], k);
                }
            }
            break;
        case CLEARALL:
            if (!attempt([&] { x.clear(); })) ref[i].clear();
            break;
        case RESERVE:
            if constexpr (is_vec<C>) attempt([&] { x.reserve(o.a > 60 ? x.max_size() - std::size_t(o.a - 61) : std::size_t(o.a)); });
            break;
        case SHRINK:
            if constexpr (is_vec<C> || deque) attempt([&] { x.shrink_to_fit(); });
            break;
        case RESIZE:
            if constexpr (seq) {
                std::size_t m = std::size_t(o.a) % 40;
                if (!attempt([&] { x.resize(m, Elem(7)); })) ref[i].resize(m, 7);
                else if (n < m || !list) resync(i);
            }
            break;
        case SWAP:
            if (c[j] && heap_of[i] == heap_of[j]) {    // containers may be swapped when their allocators are equal
                if (!(x.get_allocator() == c[j]->get_allocator())) sim::fail("equality", "allocators of one heap are not equal");
                attempt([&] { x.swap(*c[j]); });
                std::swap(ref[i], ref[j]);
            }
            break;
        case MOVE:    // between heaps the elements have to be moved one by one
            if (c[j]) {
                if ((x.get_allocator() == c[j]->get_allocator()) != (heap_of[i] == heap_of[j])) sim::fail("equality", "allocator equality does not say whether the heaps are the same");
                auto src = ref[j];
                sim::probe(heap_of[i] == heap_of[j] ? "move_within_heap" : "move_across_heaps");
                int r = attempt([&] { x = std::move(*c[j]); });
                if (!r) ref[i] = src;
                else resync(i);
                // a moved-from container is valid and may hold anything
                contents(j);
                attempt([&] { c[j]->clear(); });
                ref[j].clear();
            }
            break;
        case COPY:
            if (c[j]) {
                auto src = ref[j];
                if (!attempt([&] { x = *c[j]; })) ref[i] = src;
                else resync(i);
            }
            break;
        case SPLICE:
            if constexpr (list)
                if (c[j] && heap_of[i] == heap_of[j]) {
                    sim::probe("spliced");
                    attempt([&] { x.splice(x.begin(), *c[j]); });
                    ref[i].insert(ref[i].begin(), ref[j].begin(), ref[j].end());
                    ref[j].clear();
                }
            break;
        case SORT:
            if constexpr (list) {
                attempt([&] { x.sort(); });
                std::stable_sort(ref[i].begin(), ref[i].end());
            }
            break;
        default: break;
        }
        check(0);
        check(1);
    }
};
struct Three {
    char c[3];
};
struct Twenty {
    u32 c[5];
};
struct alignas(16) Sixteen {
    u64 c[2];
};
// The allocator used directly, for element types of several sizes.
template <class T, std::size_t Size, class F>
void raw(Op const& o, Ctx<Size>& cx, F check)
{
    using A    = static_heap_allocator<T, Size>;
    auto& heap = *cx.heap[o.b & 1];
    A     a{heap};
    if (o.a < 20 || o.a > 1000) {    // served whenever a large enough free stretch is left
        std::size_t n = std::size_t(o.a), want = (n * sizeof(T) + HEAD + ALIGN - 1) & ~(ALIGN - 1);
        std::size_t largest = stats_of(heap, &static_heap<Size>::v_port_get_heap_stats).x_size_of_largest_free_block_in_bytes;
        T*          q = nullptr;
        if (!n) return;
        try {
            sim::Sut u;
            q = a.allocate(n);
        } catch (std::bad_alloc const&) {
            sim::probe("allocator_refused");
        }
        if (!q && want <= largest) sim::fail("refused", "allocate(%zu) of %zu-byte elements failed with a free stretch of %zu bytes", n, sizeof(T), largest);
        if (!q) return;
        if (alignof(T) > ALIGN && std::size_t(q) % ALIGN == 0 && std::size_t(q) % alignof(T))
            sim::finding("overaligned-elements", "misaligned", "allocate(%zu) of elements that need an alignment of %zu is not aligned", n, alignof(T));
        else if (std::size_t(q) % alignof(T)) sim::fail("misaligned", "allocate(%zu) of %zu-byte elements is not aligned", n, sizeof(T));
        std::memset(static_cast<void*>(q), 0xa5, n * sizeof(T));
        if (n * sizeof(T) > 65'536) sim::probe("array_over_64k");
        if (o.b & 2) check();
        {
            sim::Sut u;
            if (o.b & 16) a.deallocate(q);    // the count may be left out
            else if (o.b & 32) A(static_heap_allocator<short, Size>(a)).deallocate(q, n);
            else a.deallocate(q, n);
        }
        auto now = stats_of(heap, &static_heap<Size>::v_port_get_heap_stats).x_size_of_largest_free_block_in_bytes;
        if (now != largest) sim::fail("accounting", "the largest free stretch was %zu bytes and is %zu after an element array has come and gone", largest, now);
        return;
    }
    // Sizes no heap can serve.
    auto free_size = [&] {
        sim::Sut u;
        return heap.free_heap_size();
    };
    std::size_t n = o.a < 32 ? std::size_t(-1) / sizeof(T) + std::size_t(o.a - 20) : std::size_t(-1) - std::size_t(o.a - 32), before = free_size();
    bool        refused = false;
    if (n <= Size) return;    // the count itself wrapped
    try {
        sim::Sut u;
        a.allocate(n);
    } catch (std::bad_alloc const&) {
        refused = true;
    }
    sim::probe("impossible_count_refused");
    if (!refused) sim::fail("overflow", "allocate(%zu) of %zu-byte elements succeeded", n, sizeof(T));
    if (free_size() < before) sim::fail("accounting", "a refused allocation took memory");
}
template <std::size_t Size>
void run_containers_t(Plan const& p)
{
    u64 blocks = sim::arena_live_blocks();
    Elem::live = 0;
    Ctx<Size> cx;
    bool      two = p.get("two_heaps");
    for (auto& h : cx.heap) h = sim::make<static_heap<Size>>();
    auto free_size = [&](int i) {
        sim::Sut u;
        return cx.heap[i]->free_heap_size();
    };
    cx.initial = free_size(0);
    for (int i = 0; i < 2; i++)
        if (p.get("on_fail")) {
            sim::Sut u;
            cx.heap[i]->on_fail([&cx, i] {
                sim::Harness h;
                ++cx.fails;
                sim::probe("on_fail_called");
                if (cx.ballast[i]) {    // give back the reserve; the allocation that failed still fails
                    sim::Sut s;
                    cx.heap[i]->deallocate(cx.ballast[i]);
                    cx.ballast[i] = nullptr;
                }
            });
        }
    {
        using AE = static_heap_allocator<Elem, Size>;
        Pair<std::vector<Elem, AE>, Size>                                             vec(cx, two);
        Pair<std::list<Elem, AE>, Size>                                               lst(cx, two);
        Pair<std::set<Elem, std::less<Elem>, AE>, Size>                               set(cx, two);
        Pair<std::unordered_set<Elem, ElemHash, std::equal_to<Elem>, AE>, Size>       uset(cx, two);
        Pair<std::deque<Elem, AE>, Size>                                              deq(cx, two);
        if (p.get("throw")) sim::arm(sim::F_THROW, u32(p.get("throw")));
        for (auto& o : p.ops) {
            int i = int(o.b) & 1;
            sim::log("%s on container %d.%d (%lld)", cname[o.kind], o.th, i, (long long)o.a);
            if (o.kind == RAW_ALLOC) {
                auto check = [&] { vec.check(0), lst.check(0), set.check(0); };
                switch (o.b & 64 ? 4 : (o.b >> 2) % 4) {
                case 4: raw<Sixteen>(o, cx, check); break;
                case 0: raw<Elem>(o, cx, check); break;
                case 1: raw<char>(o, cx, check); break;
                case 2: raw<Three>(o, cx, check); break;
                default: raw<Twenty>(o, cx, check); break;
                }
                continue;
            }
            if (o.kind == BALLAST) {
                sim::Sut u;
                if (cx.ballast[i]) cx.heap[i]->deallocate(cx.ballast[i]), cx.ballast[i] = nullptr;
                else cx.ballast[i] = cx.heap[i]->allocate(std::size_t(o.a) * 8 + 1);
                continue;
            }
            switch (o.th) {
            case 0: vec.perform(o); break;
            case 1: lst.perform(o); break;
            case 2: set.perform(o); break;
            case 3: uset.perform(o); break;
            default: deq.perform(o); break;
            }
            // whatever was done to one container, the others are as they were
            for (int k = 0; k < 2; k++) vec.check(k), lst.check(k), set.check(k), uset.check(k), deq.check(k);
        }
        sim::disarm_all();
        for (int k = 0; k < 2; k++) vec.drop(k), lst.drop(k), set.drop(k), uset.drop(k), deq.drop(k);
    }
    for (int i = 0; i < 2; i++)
        if (cx.ballast[i]) {
            sim::Sut u;
            cx.heap[i]->deallocate(cx.ballast[i]);
        }
    if (Elem::live != 0) sim::fail("element-leak", "%lld elements are alive after their containers", (long long)Elem::live);
    for (int i = 0; i < 2; i++)
        if (free_size(i) != cx.initial) sim::fail("accounting", "%zu of %zu bytes are free after all containers are gone", free_size(i), cx.initial);
    for (auto& h : cx.heap) {
        void* q;
        {
            sim::Sut u;
            q = h->allocate(cx.initial - HEAD);
        }
        if (!q) sim::fail("coalescing", "the emptied heap does not give back its whole capacity");
        sim::destroy(h);
    }
    if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "heap blocks are left");
}
void run_containers(Plan const& p)
{
    switch (p.get("size")) {
    case 0: return run_containers_t<720>(p);
    case 1: return run_containers_t<1600>(p);
    case 3: return run_containers_t<200'000>(p);
    default: return run_containers_t<4096>(p);
    }
}
Plan gen_containers(Rng& r, int tier)
{
    Plan p;
    p.p["size"]      = r.chance(1, 40) ? 3 : r.range(0, 2);
    p.p["two_heaps"] = r.chance(1, 2);
    p.p["throw"]     = r.chance(1, 2) ? r.range(2, 40) : 0;
    p.p["on_fail"]   = r.chance(1, 2);
    u64 mask         = r.chance(1, 3) ? 31 : 1 + r.below(31);
    int n            = int(r.range(5, tier ? 90 : 40));
    for (int i = 0; i < n; i++) {
        Op o;
        do o.th = int(r.below(5));
        while (!(mask >> o.th & 1));
        o.kind = r.chance(1, 2) ? r.pick({int(PUSH), int(PUSH), int(PUSH_FRONT), int(INSERT)}) : int(r.below(NCKIND));
        o.a    = r.range(0, 64);
        o.b    = i64(r.below(64)) | (r.chance(1, 8) ? 64 : 0);
        if (p.get("size") == 3 && o.kind == RAW_ALLOC) o.a = r.chance(1, 2) ? r.range(1001, 9000) : r.range(9000, 220'000);
        p.ops.push_back(o);
    }
    return p;
}
std::string describe_containers(Op const& o)
{
    char const* t[] = {"vector", "list", "set", "unordered_set", "deque"};
    char        b[120];
    snprintf(b, sizeof b, "%s %lld: %s (%lld)", t[o.th], (long long)(o.b & 1), cname[o.kind], (long long)o.a);
    return b;
}
sim::Register r1({"heap", "G01", gen_heap, run_heap, describe_heap, "exhaustion, fragmentation, absurd sizes, double release, on_fail callbacks that release, allocate or throw"});
sim::Register r2({"heap_containers", "G02", gen_containers, run_containers, describe_containers, "exhaustion in the middle of container operations, throwing element copies, two heaps, on_fail callbacks that release memory"});
}    // namespace
