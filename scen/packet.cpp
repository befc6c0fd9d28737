// xitren::func: packet (fixed frames) and packet_accessor (frames of variable length) across a faulty link.
#include "common.hpp"

#include <algorithm>
#include <array>
#include <iterator>
#include <tuple>

#include <xitren/crc16.hpp>
#include <xitren/func/packet.hpp>

#include <deque>
#include <memory>
#include <vector>

using namespace xitren::func;

namespace {
using Bytes = std::vector<std::uint8_t>;

struct Crc {
    using value_type = lsb_t<std::uint16_t>;
    template <xitren::crc::crc_iterator It>
    static constexpr value_type calculate(It b, It e) noexcept
    {
        return xitren::crc::crc16::calculate(b, e);
    }
    template <std::size_t N>
    static constexpr value_type calculate(std::array<std::uint8_t, N> const& d) noexcept
    {
        return xitren::crc::crc16::calculate(d);
    }
};
struct Crc32 {    // another width and another byte order
    using value_type = msb_t<std::uint32_t>;
    template <class It>
    static constexpr value_type calculate(It b, It e) noexcept
    {
        std::uint32_t c = ~0u;
        for (; b != e; ++b) {
            c ^= *b;
            for (int i = 0; i < 8; i++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1;
        }
        return value_type(~c);
    }
};
// The reference works from tables and is independent of the above.
u32 ref_crc(std::uint8_t const* p, std::size_t n, int width)
{
    static u32 t16[256], t32[256];
    if (!t32[1])
        for (u32 i = 0; i < 256; i++) {
            u32 a = i, b = i;
            for (int k = 0; k < 8; k++) a = a & 1 ? (a >> 1) ^ 0xA001 : a >> 1, b = b & 1 ? (b >> 1) ^ 0xEDB88320u : b >> 1;
            t16[i] = a, t32[i] = b;
        }
    u32 c = width == 2 ? 0xFFFF : ~0u;
    for (std::size_t i = 0; i < n; i++) c = width == 2 ? t16[(c ^ p[i]) & 255] ^ (c >> 8) : t32[(c ^ p[i]) & 255] ^ (c >> 8);
    return width == 2 ? c : ~c;
}
bool ref_valid(Bytes const& f, int width)
{
    if (f.size() < std::size_t(width)) return false;
    u32                 c = ref_crc(f.data(), f.size() - std::size_t(width), width);
    std::uint8_t const* q = f.data() + f.size() - width;
    return width == 2 ? q[0] == (c & 255) && q[1] == c >> 8 : q[0] == c >> 24 && q[1] == (c >> 16 & 255) && q[2] == (c >> 8 & 255) && q[3] == (c & 255);
}
u64 mix(u64 x) { return Rng(x).next(); }
void randomize(void* p, std::size_t n, u64 seed)
{
    for (std::size_t i = 0; i < n; i++) static_cast<std::uint8_t*>(p)[i] = std::uint8_t(mix(seed + i / 8) >> (i % 8 * 8));
}

struct Head2 {
    std::uint8_t magic[2];
};
struct __attribute__((__packed__)) Head5 {
    std::uint8_t         type;
    msb_t<std::uint32_t> node;
};
struct Small {
    std::uint16_t v;
};
struct Adc {
    std::uint16_t v[11];
};
struct Large {    // lengths beyond one byte, and beyond two
    std::uint8_t v[300];
};
struct Huge {
    std::uint8_t v[66000];
};
struct __attribute__((__packed__)) Odd {
    std::uint8_t         a;
    lsb_t<std::uint32_t> b;
    msb_t<std::uint16_t> c;
    std::uint64_t        d;
};
// A message of values that travels in the byte orders of its fields.
struct __attribute__((__packed__)) Typed {
    static constexpr std::size_t at[] = {0, 2, 4, 8, 12, 20}, width[] = {2, 2, 4, 4, 8, 8};
    static constexpr bool        big[] = {false, true, false, true, false, true};
    lsb_t<std::uint16_t>         a;
    msb_t<std::uint16_t>         b;
    lsb_t<std::uint32_t>         c;
    msb_t<std::uint32_t>         d;
    lsb_t<std::uint64_t>         e;
    msb_t<std::uint64_t>         f;

    static u64 value(int i, std::uint8_t const* bytes)    // what the bytes of field i mean
    {
        u64 v = 0;
        for (std::size_t k = 0; k < width[i]; k++) v |= u64(bytes[at[i] + k]) << 8 * (big[i] ? width[i] - 1 - k : k);
        return v;
    }
    static void bytes(int i, u64 v, std::uint8_t* out)
    {
        for (std::size_t k = 0; k < width[i]; k++) out[at[i] + k] = std::uint8_t(v >> 8 * (big[i] ? width[i] - 1 - k : k));
    }
    template <class W>
    static void put(W* w, u64 v, int how)
    {
        using V = typename W::data_type;
        V const x = V(v);
        if (how == 0) *w = x;
        else if (how == 1) *w = W(x);
        else if (how == 2) *w = W(V(v));
        else {
            W t(x);
            *w = t;
        }
    }
    void set(u64 const* v, int how)
    {
        put(&a, v[0], how), put(&b, v[1], how), put(&c, v[2], how), put(&d, v[3], how), put(&e, v[4], how), put(&f, v[5], how);
    }
    void get(u64* v) const { v[0] = a.get(), v[1] = b.get(), v[2] = c.get(), v[3] = d.get(), v[4] = e.get(), v[5] = f.get(); }
    template <class W>
    static void compare(W x, u64 v, u64 u)
    {
        using V = typename W::data_type;
        W    y{V(u)};
        bool r[5] = {x == y, x < y, x > y, x <= y, x >= y}, want[5] = {V(v) == V(u), V(v) < V(u), V(v) > V(u), V(v) <= V(u), V(v) >= V(u)};
        sim::Harness h;
        for (int i = 0; i < 5; i++)
            if (r[i] != want[i]) sim::fail("wrong-fields", "a received field does not compare like its value");
    }
    void compare(u64 const* v, u64 const* u)
    {
        compare(a, v[0], u[0]), compare(b, v[1], u[1]), compare(c, v[2], u[2]), compare(d, v[3], u[3]), compare(e, v[4], u[4]), compare(f, v[5], u[5]);
    }
};
static_assert(sizeof(Typed) == 28);
struct __attribute__((__packed__)) E3 {
    std::uint8_t a[3];
};

// ---------------------------------------------------------------- the link
enum Kind { SEND, DELIVER, DROP, DUP, SWAP, FLIP, BURST, CUT, GROW, JOIN, OVERSIZE, WRAP, SIZE, EDIT };
char const* kname[] = {"send", "deliver", "lose", "duplicate", "reorder", "flip bits", "burst error", "cut short", "append noise", "run together", "send too much", "send an absurd count", "announce a wrong size", "edit in place"};
struct Wire {
    Bytes bytes;
    bool  intact = true;
    u64   n;
};
struct Link {
    std::deque<Wire> q;
    void             fault(Op const& o)
    {
        if (q.empty()) return;
        std::size_t i = std::size_t(o.a) % q.size();
        Wire&       w = q[i];
        switch (o.kind) {
        case DROP:
            sim::count_fault("frame_lost");
            q.erase(q.begin() + std::ptrdiff_t(i));
            break;
        case DUP:
            sim::count_fault("frame_duplicated");
            q.push_back(Wire(w));
            break;
        case SWAP:
            sim::count_fault("frame_reordered");
            std::swap(w, q[std::size_t(o.b) % q.size()]);
            break;
        case FLIP:    // an odd number of, or two, wrong bits: what a CRC always notices
            if (w.bytes.empty()) break;
            sim::count_fault("bits_flipped");
            w.intact = false;
            {
                std::set<std::size_t> bits;
                Rng                   r{u64(o.b)};
                while (bits.size() < std::min<std::size_t>(std::size_t(1 + o.c % 3), w.bytes.size() * 8)) bits.insert(r.below(w.bytes.size() * 8));
                for (auto b : bits) w.bytes[b / 8] ^= std::uint8_t(1 << b % 8);
            }
            break;
        case BURST:
            if (w.bytes.size() < 3) break;
            sim::count_fault("burst_error");
            w.intact = false;
            {
                std::size_t at = std::size_t(o.b) % (w.bytes.size() - 1);
                w.bytes[at] ^= std::uint8_t(1 + o.c % 255);
                w.bytes[at + 1] ^= std::uint8_t(o.c / 256);
            }
            break;
        case CUT:
            sim::count_fault("frame_cut_short");
            w.intact = false;
            w.bytes.resize(w.bytes.size() - std::min<std::size_t>(w.bytes.size(), std::size_t(1 + o.b % 40)));
            break;
        case GROW:
            sim::count_fault("noise_appended");
            w.intact = false;
            for (i64 k = 0; k < 1 + o.b % 40; k++) w.bytes.push_back(std::uint8_t(mix(u64(o.c + k))));
            break;
        case JOIN:
            sim::count_fault("frames_run_together");
            {
                Wire& v = q[std::size_t(o.b) % q.size()];
                if (&v == &w) break;
                w.intact = false;
                Bytes t(v.bytes);
                w.bytes.insert(w.bytes.end(), t.begin(), t.end());
            }
            break;
        default: break;
        }
    }
};

// ---------------------------------------------------------------- H01: fixed frames
// One or two stations, each with a link of its own; they run at the same time and know nothing of each other.
template <class Station>
void stations(Plan const& p, Station one)
{
    u64 const blocks = sim::arena_live_blocks();
    bool      two    = false;
    for (auto& o : p.ops) two |= o.th == 1;
    if (two) {
        if (p.get("stall")) sim::stall_mode(true);
        if (p.get("races")) sim::race_mode(true);
        sim::probe("two_stations");
        std::vector<u64> ids;
        for (int t = 0; t < 2; t++) ids.push_back(sim::spawn([&, t] { one(p, t); }, "station"));
        for (auto i : ids) sim::join(i);
    } else one(p, 0);
    if (sim::arena_live_blocks() != blocks) sim::fail("memory-leak", "heap blocks are left");
}

template <class H, class F, class C, int W>
void station_fixed(Plan const& p, int th)
{
    using P = packet<H, F, C>;
    constexpr std::size_t len = sizeof(H) + sizeof(F) + W;
    static_assert(sizeof(typename C::value_type) == W);
    Link link;
    struct Sent {
        H h;
        F f;
    };
    std::vector<Sent> sent;
    u64               accepted = 0;
    auto encode = [&](H const& h, F const& f, int how) {
        Bytes b(len, 0);
        switch (how) {
        case 0: {
            sim::Sut u;
            auto* x = new P(h, f);
            auto  a = x->to_array();
            delete x;
            sim::Harness hs;
            std::copy(a.begin(), a.end(), b.begin());
            break;
        }
        case 1: {
            sim::Sut u;
            auto a = P::serialize(h, f);
            sim::Harness hs;
            std::copy(a.begin(), a.end(), b.begin());
            break;
        }
        default: {
            auto* buf = static_cast<std::uint8_t*>(sim::arena_alloc(len, 1));
            {
                sim::Sut u;
                P        x(h, f);
                P::serialize(x, buf);
            }
            b.assign(buf, buf + len);
            sim::arena_free(buf);
        }
        }
        return b;
    };
    for (auto& o : p.ops) {
        if (o.th != th) continue;
        switch (o.kind) {
        case SEND: {
            Sent s{};
            randomize(&s.h, sizeof(H), u64(o.b));
            randomize(&s.f, sizeof(F), u64(o.c));
            if constexpr (std::is_same_v<F, Typed>) {    // made from values, not from bytes
                u64          v[6];
                std::uint8_t want[sizeof(F)];
                for (int i = 0; i < 6; i++) v[i] = Typed::value(i, reinterpret_cast<std::uint8_t*>(&s.f)), Typed::bytes(i, v[i], want);
                s.f = F{};
                {
                    sim::Sut u;
                    s.f.set(v, int(o.a / 3 % 4));
                }
                if (memcmp(&s.f, want, sizeof want)) sim::fail("wrong-frame", "a field does not hold its value in its byte order");
                memcpy(static_cast<void*>(&s.f), want, sizeof want);
            }
            Bytes b = encode(s.h, s.f, int(o.a % 3));
            sim::log("send #%zu", sent.size());
            // Every way to build the frame gives the same bytes: header, fields, checksum.
            Bytes want(len);
            memcpy(want.data(), &s.h, sizeof(H));
            memcpy(want.data() + sizeof(H), &s.f, sizeof(F));
            u32 c = ref_crc(want.data(), len - W, W);
            for (int i = 0; i < W; i++) want[len - W + std::size_t(i)] = std::uint8_t(W == 2 ? c >> (8 * i) : c >> (24 - 8 * i));
            if (b != want) sim::fail("wrong-frame", "the frame of message %zu is not header, fields, checksum", sent.size());
            link.q.push_back(Wire{b, true, sent.size()});
            sent.push_back(s);
            break;
        }
        case DELIVER: {
            if (link.q.empty()) break;
            Wire w = link.q.front();
            link.q.pop_front();
            if (w.bytes.size() != len) break;    // a fixed-size receiver reads whole frames only
            auto* buf = static_cast<std::uint8_t*>(sim::arena_alloc(len, 1));
            memcpy(buf, w.bytes.data(), len);
            auto* box = static_cast<P*>(sim::arena_alloc(sizeof(P), 1));
            bool  ok;
            H     h;
            F     f;
            {
                sim::Sut u;
                P*       x;
                switch (o.a % 4) {
                case 3: {    // checked and taken apart in one go, the bytes staying where they are
                    std::array<std::uint8_t, len> a{};
                    std::copy(buf, buf + len, a.begin());
                    auto [good, head, fields] = P::deserialize(a);
                    bool same;
                    {
                        sim::Harness hs;
                        same = !memcmp(&head, buf, sizeof head) && !memcmp(&fields, buf + sizeof head, sizeof fields);
                        if (!same) sim::fail("wrong-fields", "header or fields differ from the bytes of the frame");
                        if (good != ref_valid(w.bytes, W)) sim::fail(good ? "damage-accepted" : "good-rejected", "a frame read from an array is said to be %s", good ? "valid" : "invalid");
                    }
                    x = new (box) P(a.begin());
                    break;
                }
                case 0: {
                    std::array<std::uint8_t, len> a{};
                    std::copy(buf, buf + len, a.begin());
                    x = new (box) P(std::move(a));
                    break;
                }
                case 1: x = new (box) P(buf); break;
                default: x = new (box) P(P::deserialize(buf));
                }
                ok = x->valid();
                P const& cx = *x;
                h  = o.c & 1 ? x->header() : cx.header();
                if constexpr (alignof(F) == 1) f = o.c & 1 ? x->fields() : cx.fields();
                else {    // no reference to such a member: read it from the bytes
                    auto a = x->to_array();
                    memcpy(&f, a.data() + sizeof(H), sizeof(F));
                }
            }
            sim::log("deliver #%llu: %s", (unsigned long long)w.n, ok ? "valid" : "rejected");
            bool right = ref_valid(w.bytes, W);
            if (ok != right) sim::fail(ok ? "damage-accepted" : "good-rejected", "a frame with %s checksum is said to be %s", right ? "a right" : "a wrong", ok ? "valid" : "invalid");
            if (w.intact && !ok) sim::fail("good-rejected", "an undamaged frame was rejected");
            if (memcmp(&h, w.bytes.data(), sizeof h) || memcmp(&f, w.bytes.data() + sizeof h, sizeof f)) sim::fail("wrong-fields", "header or fields differ from the bytes of the frame");
            if (w.intact && (memcmp(&h, &sent[w.n].h, sizeof h) || memcmp(&f, &sent[w.n].f, sizeof f))) sim::fail("wrong-fields", "the message arrived changed");
            if (memcmp(&box->crc(), w.bytes.data() + len - W, W) || memcmp(&static_cast<P const*>(box)->crc(), w.bytes.data() + len - W, W))
                sim::fail("wrong-fields", "the checksum read back is not that of the frame");
            if constexpr (std::is_same_v<F, Typed>) {
                u64 v[6], other[6];
                {
                    sim::Sut u;
                    f.get(v);
                }
                for (int i = 0; i < 6; i++) {
                    if (v[i] != Typed::value(i, w.bytes.data() + sizeof(H))) sim::fail("wrong-fields", "field %d does not read as the value of its bytes", i);
                    u64 k    = mix(u64(o.c + i));
                    other[i] = k % 3 == 0 ? v[i] : k % 3 == 1 ? v[i] + (k >> 8 & 1 ? 1 : -1) : k;
                }
                sim::Sut u;
                f.compare(v, other);
            }
            if (ok) ++accepted;
            else sim::probe("damaged_frame_rejected");
            if (o.b % 4 == 0) {    // changing the contents makes the checksum wrong until the frame is built anew
                {
                    sim::Sut u;
                    bool head = o.c % 2 || alignof(F) > 1;
                    if (head) reinterpret_cast<std::uint8_t*>(&box->header())[u64(o.c) / 2 % sizeof(H)] ^= std::uint8_t(1 + o.c % 200);
                    if constexpr (alignof(F) == 1)
                        if (!head) reinterpret_cast<std::uint8_t*>(&box->fields())[u64(o.c) / 2 % sizeof(F)] ^= std::uint8_t(1 + o.c % 200);
                }
                Bytes now(len);
                memcpy(now.data(), box, len);
                bool v;
                {
                    sim::Sut u;
                    v = box->valid();
                }
                sim::probe("edited_in_place");
                if (v != ref_valid(now, W)) sim::fail("damage-accepted", "a frame edited in place is said to be %s", v ? "valid" : "invalid");
            }
            sim::arena_free(box);
            sim::arena_free(buf);
            break;
        }
        default: link.fault(o);
        }
    }
    // Once the link is good again a retransmission of everything gets through.
    for (std::size_t i = 0; i < sent.size(); i++) {
        Bytes b = encode(sent[i].h, sent[i].f, int(i % 3));
        sim::Sut u;
        P        x(b.begin());
        bool     ok = x.valid();
        sim::Harness h;
        if (!ok) sim::fail("good-rejected", "a retransmitted frame was rejected");
    }
}
template <class H, class F, class C, int W>
void run_fixed_t(Plan const& p)
{
    stations(p, station_fixed<H, F, C, W>);
}
void run_fixed(Plan const& p)
{
    if (p.get("frame") == 8) sim::set_step_limit(60'000'000);
    switch (p.get("frame")) {
    case 0: return run_fixed_t<Head2, Small, Crc, 2>(p);
    case 1: return run_fixed_t<Head2, Adc, Crc, 2>(p);
    case 2: return run_fixed_t<Head5, Odd, Crc, 2>(p);
    case 3: return run_fixed_t<Head5, Odd, Crc32, 4>(p);
    case 5: return run_fixed_t<Head5, Typed, Crc, 2>(p);
    case 6: return run_fixed_t<Head2, Typed, Crc32, 4>(p);
    case 7: return run_fixed_t<Head5, Large, Crc, 2>(p);
    case 8: return run_fixed_t<Head2, Huge, Crc32, 4>(p);
    default: return run_fixed_t<Head2, Small, Crc32, 4>(p);
    }
}

// ---------------------------------------------------------------- H02: frames of variable length
template <std::size_t Max, class H, class F, class T, class C, int W>
void station_var(Plan const& p, int th)
{
    using A                   = packet_accessor<Max>;
    constexpr std::size_t len = sizeof(H) + sizeof(F) + W;
    constexpr std::size_t cap = (Max - len) / sizeof(T);
    using In                  = typename A::template fields_in<H, F, T>;
    auto*tx = sim::make<A>(), *rx = sim::make<A>();
    Link link;
    u64  sent = 0;
    std::vector<Bytes> frames;
    auto load = [&](Bytes const& b, std::size_t announce) {
        std::copy(b.begin(), b.begin() + std::ptrdiff_t(std::min(b.size(), Max)), rx->storage().begin());
        sim::Sut u;
        rx->size(announce);
    };
    auto judge = [&](std::size_t announce, Wire const* w) {
        bool  in = announce >= len && announce <= Max && (announce - len) % sizeof(T) == 0;
        Bytes now(rx->storage().begin(), rx->storage().begin() + std::ptrdiff_t(std::min(announce, Max)));
        bool  right = in && ref_valid(now, W);
        std::uint8_t const *lo = rx->storage().data(), *hi = lo + Max;
        bool          ok;
        std::size_t   n;
        T const*      d;
        H             h;
        F             f;
        {
            sim::Sut u;
            auto     r = rx->template deserialize<H, F, T, C>();
            ok = r.valid, n = r.size, d = r.data, h = r.header, f = r.fields;
        }
        sim::log("deliver %zu bytes: %s, %zu elements", announce, ok ? "valid" : "rejected", n);
        if (ok != right) sim::fail(ok ? "damage-accepted" : "good-rejected", "a frame of %zu bytes with %s is said to be %s", announce, right ? "a right checksum" : in ? "a wrong checksum" : "an impossible length", ok ? "valid" : "invalid");
        auto* raw = reinterpret_cast<std::uint8_t const*>(d);
        if (n && (raw < lo || n > Max / sizeof(T) || raw + n * sizeof(T) > hi)) sim::fail("out-of-frame", "%zu elements reach beyond the buffer of %zu bytes", n, Max);
        if (ok) {
            if (n != (announce - len) / sizeof(T)) sim::fail("wrong-fields", "a frame of %zu bytes is said to hold %zu elements", announce, n);
            if (memcmp(&h, lo, sizeof h) || memcmp(&f, lo + sizeof h, sizeof f) || raw != lo + sizeof h + sizeof f) sim::fail("wrong-fields", "header, fields or data are not those of the frame");
        } else sim::probe("damaged_frame_rejected");
        if (w && w->intact) {
            if (!ok) sim::fail("good-rejected", "an undamaged frame was rejected");
            if (now != frames[w->n]) sim::fail("wrong-fields", "the frame changed");
        }
        H const*    hp;
        F const*    fp;
        std::size_t m;
        T const*    dp;
        {
            sim::Sut u;
            auto     r = rx->template deserialize_no_check<H, F, T, C>();
            hp = r.header, fp = r.fields, m = r.size, dp = r.data;
        }
        auto* q = reinterpret_cast<std::uint8_t const*>(dp);
        if ((std::uint8_t const*)hp != lo || (std::uint8_t const*)fp != lo + sizeof(H) || q != lo + sizeof(H) + sizeof(F)) sim::fail("wrong-fields", "the unchecked view does not point into the frame");
        if (m && q + m * sizeof(T) > hi) sim::fail("out-of-frame", "the unchecked view of %zu elements reaches beyond the buffer", m);
        if (in && m != (announce - len) / sizeof(T)) sim::fail("wrong-fields", "the unchecked view of a frame of %zu bytes has %zu elements", announce, m);
    };
    for (auto& o : p.ops) {
        if (o.th != th) continue;
        switch (o.kind) {
        case SEND:
        case OVERSIZE:
        case WRAP: {
            std::size_t n = std::size_t(o.a) % (cap + 1);
            if (o.kind == OVERSIZE) n = cap + 1 + std::size_t(o.a % 5);
            if (o.kind == WRAP) n = std::size_t(-1) / sizeof(T) - std::size_t(o.a % 4) + (o.a & 8 ? 2 : 0);
            if (o.kind == WRAP && n <= cap) break;
            bool   real = o.kind != WRAP, bare = real && o.kind == SEND && o.a / 32 % 8 == 0;
            H      h;
            F      f;
            randomize(&h, sizeof h, u64(o.b));
            randomize(&f, sizeof f, u64(o.c));
            auto* data = real ? static_cast<T*>(sim::arena_alloc(std::max<std::size_t>(n * sizeof(T), 1), 8)) : static_cast<T*>(sim::arena_alloc(8, 8));
            if (real) randomize(data, n * sizeof(T), u64(o.b ^ o.c));
            Bytes       old(tx->storage().begin(), tx->storage().end());
            std::size_t old_size;
            std::size_t size;
            bool        ok;
            {
                sim::Sut u;
                old_size = tx->size();
                In in{h, f, n, (n ? !bare : o.a & 16) ? data : nullptr};
                ok   = tx->template serialize<H, F, T, C>(in);
                size = tx->size();
            }
            sim::log("serialize %zu elements: %s", n, ok ? "ok" : "refused");
            if (ok != (n <= cap)) sim::fail(ok ? "overflow" : "refused", "serialize of %zu elements (room for %zu) answered %d", n, cap, ok);
            if (!ok) {
                sim::probe("too_many_elements_refused");
                if (size != old_size || !std::equal(old.begin(), old.end(), tx->storage().begin())) sim::fail("overflow", "a refused serialize changed the frame");
            } else {
                Bytes want(len + n * sizeof(T));
                memcpy(want.data(), &h, sizeof h);
                memcpy(want.data() + sizeof h, &f, sizeof f);
                if (n && !bare) memcpy(want.data() + sizeof h + sizeof f, data, n * sizeof(T));
                if (n && bare) {    // no elements given: whatever they are, the frame is whole
                    sim::probe("frame_without_data");
                    memcpy(want.data() + sizeof h + sizeof f, tx->storage().data() + sizeof h + sizeof f, n * sizeof(T));
                }
                u32 c = ref_crc(want.data(), want.size() - W, W);
                for (int i = 0; i < W; i++) want[want.size() - W + std::size_t(i)] = std::uint8_t(W == 2 ? c >> (8 * i) : c >> (24 - 8 * i));
                if (size != want.size()) sim::fail("wrong-frame", "a frame of %zu elements has size %zu, expected %zu", n, size, want.size());
                if (!std::equal(want.begin(), want.end(), tx->storage().begin())) sim::fail("wrong-frame", "the frame is not header, fields, data, checksum");
                if (n == cap) sim::probe("full_frame");
                if (!n) sim::probe("empty_frame");
                link.q.push_back(Wire{want, true, sent});
                frames.push_back(want);
                ++sent;
            }
            sim::arena_free(data);
            break;
        }
        case DELIVER: {
            if (link.q.empty()) break;
            Wire w = link.q.front();
            link.q.pop_front();
            load(w.bytes, w.bytes.size());
            if (w.bytes.size() > Max) sim::probe("frame_longer_than_buffer");
            if (w.bytes.size() < len) sim::probe("frame_shorter_than_minimum");
            judge(w.bytes.size(), &w);
            break;
        }
        case SIZE: {    // the driver announces a length that has nothing to do with the contents
            std::size_t n = o.a % 4 == 0 ? std::size_t(o.b) % (len + 2) : o.a % 4 == 1 ? Max + std::size_t(o.b) % 9 : o.a % 4 == 2 ? std::size_t(o.b) % (Max + 1) : std::size_t(-1) - std::size_t(o.b % 64);
            sim::count_fault("wrong_size_announced");
            {
                sim::Sut u;
                rx->size(n);
            }
            judge(n, nullptr);
            break;
        }
        default: link.fault(o);
        }
    }
    for (u64 i = 0; i < sent; i++) {
        Wire w{frames[i], true, i};
        load(w.bytes, w.bytes.size());
        judge(w.bytes.size(), &w);
    }
    sim::destroy(tx), sim::destroy(rx);
}
template <std::size_t Max, class H, class F, class T, class C, int W>
void run_var_t(Plan const& p)
{
    stations(p, station_var<Max, H, F, T, C, W>);
}
void run_var(Plan const& p)
{
    if (p.get("frame") == 7) sim::set_step_limit(60'000'000);
    switch (p.get("frame")) {
    case 0: return run_var_t<16, Head2, Small, std::uint8_t, Crc, 2>(p);
    case 1: return run_var_t<64, Head2, Small, std::uint16_t, Crc, 2>(p);
    case 2: return run_var_t<255, Head5, Small, E3, Crc, 2>(p);
    case 3: return run_var_t<40, Head5, Odd, std::uint64_t, Crc, 2>(p);
    case 4: return run_var_t<61, Head2, Odd, std::uint32_t, Crc32, 4>(p);
    case 6: return run_var_t<700, Head2, Small, std::uint8_t, Crc, 2>(p);
    case 8: return run_var_t<1100, Head5, Large, std::uint16_t, Crc32, 4>(p);
    case 7: return run_var_t<70000, Head5, Odd, std::uint8_t, Crc32, 4>(p);
    default: return run_var_t<22, Head5, Odd, E3, Crc, 2>(p);    // room for the fixed part only
    }
}
Plan gen(Rng& r, int tier, bool var)
{
    Plan p;
    bool huge    = r.chance(1, 600);
    p.p["frame"] = huge ? (var ? 7 : 8) : var ? r.range(0, 6) : r.range(0, 7);
    if (var && !huge && r.chance(1, 12)) p.p["frame"] = 8;
    int noise    = int(r.range(0, 6));
    int n        = huge ? int(r.range(3, 9)) : int(r.range(3, tier ? 60 : 26));
    for (int i = 0; i < n; i++) {
        Op o;
        o.a = i64(r.below(huge ? 100000 : 1000)), o.b = i64(r.below(1u << 30)), o.c = i64(r.below(65536));
        if (int(r.below(12)) < noise) {
            o.kind = int(var ? r.range(DROP, SIZE) : r.range(DROP, GROW));
        } else o.kind = r.chance(1, 2) ? SEND : DELIVER;
        if (o.kind == SEND && r.chance(1, 8)) o.b = o.c = 0;
        p.ops.push_back(o);
    }
    if (!huge && r.chance(1, 4)) {
        p.p["stall"] = r.chance(1, 2), p.p["races"] = r.chance(1, 2);
        for (auto& o : p.ops) o.th = int(r.below(2));
    }
    return p;
}
Plan gen_fixed(Rng& r, int t) { return gen(r, t, false); }
Plan gen_var(Rng& r, int t) { return gen(r, t, true); }
std::string describe(Op const& o)
{
    char b[120];
    snprintf(b, sizeof b, "%s%s (%lld, %lld, %lld)", o.th ? "second station: " : "", kname[o.kind], (long long)o.a, (long long)o.b, (long long)o.c);
    return b;
}
sim::Register r1({"packet_link", "H01", gen_fixed, run_fixed, describe, "frames lost, duplicated, reordered, cut, grown; bit flips and bursts; contents edited in place"});
sim::Register r2({"packet_accessor_link", "H02", gen_var, run_var, describe, "frames lost, duplicated, reordered, cut, grown, run together; bit flips and bursts; wrong announced sizes; too many elements"});
}    // namespace
