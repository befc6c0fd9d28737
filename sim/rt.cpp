// Deterministic simulator runtime.  NOT compiled with -fsanitize=thread.
#include "rt.hpp"

#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <dlfcn.h>
#include <link.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <set>
#include <unordered_set>

extern "C" char  __libc_single_threaded;
extern "C" void* __real_memcpy(void*, void const*, size_t);
extern "C" void* __real_memmove(void*, void const*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" int __real_memcmp(void const*, void const*, size_t);
extern "C" size_t __real_strlen(char const*);

namespace sim {

char const* const fault_names[F_MAX] = {"alloc_failure", "thread_create_failure", "sleep_interrupted_EINTR",
                                        "spurious_wakeup", "callback_throws"};

static long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long          ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8")   = e;
    register long r9 __asm__("r9")   = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static double wall_s()
{
    timespec ts{};
    raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, reinterpret_cast<long>(&ts));
    return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

// ------------------------------------------------------------------ state
constexpr int         MAXF       = 24;
constexpr std::size_t STACK      = 1024 * 1024;
constexpr std::size_t ARENA      = 16u << 20;
static char* const    ARENA_BASE = reinterpret_cast<char*>(0x200000000000ULL);
static i64            real_base, mono_base;    // what the clocks show when a run starts

struct VC {
    u32  c[MAXF]{};
    void join(VC const& o)
    {
        for (int i = 0; i < MAXF; i++) c[i] = std::max(c[i], o.c[i]);
    }
    void clear() { __real_memset(c, 0, sizeof c); }
};

enum St { NONE, RUN, BLOCK, SLEEP, POLL, DONE };
struct Fiber {
    void*                 sp{};
    char*                 stack{};
    int                   id{};
    St                    st{NONE};
    i64                   wake{-1};    // deadline, -1: none
    void const*           obj{};       // what it is blocked on
    bool                  timed_out{};
    bool                  signalled{};
    int                   mode{};
    std::function<void()> body;
    void* (*start)(void*){};
    void*                 arg{};
    void*                 ret{};
    bool                  detached{}, joined{}, sut_thread{}, faulty{};
    char const*           name{};
    std::function<bool()> cond;
    void*                 eh_caught{};
    unsigned              eh_uncaught{};
    int                   err{};
    std::vector<char>     tls;
    VC                    vc, rel_fence, acq_fence;
    int                   prio{};
    u64                   stalled_until{};    // record mode only: step until which the policy avoids it
};

static Fiber  fibers[MAXF];
static int    nf;
static Fiber* cur;
static int    host_mode;
static u64    locks_gen;
static void*  host_sp;

static bool active;
static u64  nsteps, step_limit, soft_limit, run_len, nswitch, nseq, npreempt;
static i64  gap;
static i64  mono, wall_off;
static bool fair_mode, stall_on, race_on;
static u64  quantum   = 512;
static i64  step_ns   = 10;
static i64  spin_ns   = 20'000;
static bool replaying, verbose;
static u64  loghash, schedhash;

static std::vector<u32> sched;
static std::size_t      sched_pos;
static std::vector<u32> fstream[F_MAX];
static std::size_t      fpos[F_MAX];
static i64              fgap[F_MAX];
static u32              fmean[F_MAX];
static u64              fired[F_MAX];
static Rng              srng{1}, frng{1};
static int              gap_mode, pick_mode;
static u32              gap_mean;

struct Totals {
    u64                        runs{}, steps{}, switches{}, preempts{}, events{};
    long double                sim_ns{};
    std::map<std::string, u64> faults, probes, findings, per_scenario, ops;
    u64                        max_live_threads{};
} tot;
static std::map<std::string, u64> run_faults, run_probes, run_findings;
static std::unordered_set<std::string> listed;

static Plan const*     cur_plan;
static Scenario const* cur_scn;
static std::string     out_path;
static std::vector<Scenario>& scenarios()
{
    static std::vector<Scenario> v;
    return v;
}
Register::Register(Scenario s) { scenarios().push_back(s); }

static inline void hash_in(u64& h, u64 v)
{
    h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
}

static int dummy_mode;
int*       mode_ptr() { return cur ? &cur->mode : (active ? &host_mode : &dummy_mode); }
struct Rt {    // runtime code: harness mode
    int  old;
    int* m;
    Rt() : old(*mode_ptr()), m(mode_ptr()) { *m = 0; }
    ~Rt() { *m = old; }
};

// ------------------------------------------------------------------ event log
static std::string vfmt(char const* f, va_list ap)
{
    char b[1024];
    vsnprintf(b, sizeof b, f, ap);
    return b;
}
static void log_s(std::string const& s)
{
    nseq++;
    hash_in(loghash, nsteps);
    hash_in(loghash, u64(cur ? cur->id : 99));
    for (unsigned char c : s) hash_in(loghash, c);
    if (verbose)
        std::printf("#%llu step=%llu t=%lldns [%s#%d] %s\n", (unsigned long long)nseq, (unsigned long long)nsteps,
                    (long long)mono, cur ? cur->name : "host", cur ? cur->id : -1, s.c_str());
}
void log(char const* f, ...)
{
    Rt      r;
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    log_s(s);
}
u64  seq() { return ++nseq; }
u64  steps() { return nsteps; }
void probe(char const* n, u64 k)
{
    Rt r;
    run_probes[n] += k;
}
void count_fault(char const* n, u64 k)
{
    Rt r;
    run_faults[n] += k;
}

// ------------------------------------------------------------------ replay files
struct Replay {
    std::string      property, scenario, cls, msg, hash;
    Plan             plan;
    std::vector<u32> sched, faults[F_MAX];
};
static void save(std::string const& path, Replay const& r, Scenario const& sc)
{
    std::ofstream o(path);
    o << "detsim-replay 1\nproperty " << r.property << "\nscenario " << r.scenario << "\nclass " << r.cls << "\nmsg " << r.msg
      << "\nloghash " << r.hash << "\n";
    for (auto& [k, v] : r.plan.p) o << "p " << k << " " << v << "\n";
    for (auto& op : r.plan.ops) {
        o << "op " << op.th << " " << op.kind << " " << op.a << " " << op.b << " " << op.c;
        if (sc.describe) o << "   # " << sc.describe(op);
        o << "\n";
    }
    o << "sched";
    for (auto v : r.sched) o << " " << v;
    o << "\n";
    for (int k = 0; k < F_MAX; k++) {
        o << "fault " << k;
        for (auto v : r.faults[k]) o << " " << v;
        o << "   # gaps between strikes of " << fault_names[k] << "\n";
    }
}
static bool load(std::string const& path, Replay& r)
{
    std::ifstream i(path);
    if (!i) return false;
    std::string line;
    while (std::getline(i, line)) {
        auto h = line.find("   # ");
        if (h != std::string::npos && line.rfind("msg", 0) != 0) line.resize(h);
        std::istringstream s(line);
        std::string        k;
        s >> k;
        auto rest = [&] {
            std::string x;
            std::getline(s, x);
            return x.empty() ? x : x.substr(1);
        };
        if (k == "property") s >> r.property;
        else if (k == "scenario") s >> r.scenario;
        else if (k == "class") s >> r.cls;
        else if (k == "msg") r.msg = rest();
        else if (k == "loghash") s >> r.hash;
        else if (k == "p") {
            std::string n;
            i64         v{};
            s >> n >> v;
            r.plan.p[n] = v;
        } else if (k == "op") {
            Op o;
            s >> o.th >> o.kind >> o.a >> o.b >> o.c;
            r.plan.ops.push_back(o);
        } else if (k == "sched") {
            u32 v;
            while (s >> v) r.sched.push_back(v);
        } else if (k == "fault") {
            int kk{};
            u32 v;
            s >> kk;
            while (s >> v) r.faults[kk].push_back(v);
        }
    }
    return !r.scenario.empty();
}

// ------------------------------------------------------------------ failing
static volatile bool failing, reported;
static std::function<void()> print_stats;
static char          hexbuf[32];
static char const*   hex(u64 v)
{
    snprintf(hexbuf, sizeof hexbuf, "%016llx", (unsigned long long)v);
    return hexbuf;
}
[[noreturn]] static void fail_s(char const* cls, std::string msg)
{
    if (failing) _exit(reported ? 3 : 4);
    failing = true;
    for (auto& c : msg)
        if (c == '\n') c = ' ';
    hash_in(loghash, nsteps);
    for (char const* p = cls; *p; p++) hash_in(loghash, u64(*p));
    if (!out_path.empty() && cur_scn && cur_plan) {
        Replay r;
        r.property = cur_scn->property;
        r.scenario = cur_scn->name;
        r.cls      = cls;
        r.msg      = msg;
        r.hash     = hex(loghash);
        r.plan     = *cur_plan;
        r.sched    = sched;
        for (int k = 0; k < F_MAX; k++) r.faults[k] = fstream[k];
        if (replaying) {
            r.sched.resize(std::min(sched_pos, r.sched.size()));
            for (int k = 0; k < F_MAX; k++) r.faults[k].resize(std::min(fpos[k], r.faults[k].size()));
        }
        save(out_path, r, *cur_scn);
    }
    std::printf("FAIL class=%s loghash=%s step=%llu thread=%s#%d t=%lldns: %s\n", cls, hex(loghash), (unsigned long long)nsteps,
                cur ? cur->name : "host", cur ? cur->id : -1, (long long)mono, msg.c_str());
    std::fflush(stdout);
    reported = true;
    if (print_stats) {
        host_mode = 0;
        print_stats();
        std::fflush(stdout);
    }
    _exit(3);
}
void fail(char const* cls, char const* f, ...)
{
    *mode_ptr() = 0;
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    fail_s(cls, s);
}
void finding(char const* key, char const* cls, char const* f, ...)
{
    Rt      r;
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    if (!listed.count(key)) fail_s(cls, s);
    run_findings[key]++;
    if (verbose) std::printf("FINDING %s: %s\n", key, s.c_str());
    log_s("finding");
}
static void on_signal(int sig)
{
    *mode_ptr() = 0;
    if (!active) {
        signal(sig, SIG_DFL);
        raise(sig);
        _exit(5);
    }
    char const* c = sig == SIGSEGV ? "crash-SIGSEGV" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "crash-SIGFPE" : sig == SIGBUS ? "crash-SIGBUS" : "crash-SIGILL";
    if (sig == SIGVTALRM) c = "hang";
    fail_s(c, std::string("the process under simulation received signal ") + std::to_string(sig));
}
static void on_terminate()
{
    *mode_ptr() = 0;
    if (!active) abort();
    std::string w = "std::terminate was called";
    if (auto e = std::current_exception()) {
        try {
            std::rethrow_exception(e);
        } catch (std::exception const& x) {
            w += std::string(" with exception: ") + x.what();
        } catch (...) {
            w += " with an exception";
        }
    }
    fail_s("terminate", w);
}

// ------------------------------------------------------------------ heap
struct Block {
    u32 off, size;
    bool live;
};
static std::vector<Block>       blocks;      // by offset
static u32                      arena_top;
static std::size_t              arena_limit = ARENA, arena_next;    // end of the free stretch; where in blocks its blocks go
static bool                     arena_recycled;
static unsigned char*           shadow;      // 0 unallocated/redzone, 1 live, 2 freed
static u64                      live_blocks, live_bytes;
static unsigned char            poison_byte = 0xCD;
// What the initialisers of the scenario unit's statics, and of the code under test in it, allocate before main: it lies
// at the low end of the arena and is put back, like the statics, before each run. Not counted as live.
extern "C" {
bool detsim_booting;    // set and cleared by sim/mark.cpp
}
static Block             boot_blocks[8192];
static u32               boot_count, boot_top;
static std::vector<char> boot_image;

struct Cell {
    u64 gen;
    u32 pwc;
    int pwf;
    u32 pr[MAXF], aw[MAXF], ar[MAXF];
};
static Cell* cells;
static u64   run_gen;

bool in_arena(void const* p)
{
    return static_cast<char const*>(p) >= ARENA_BASE && static_cast<char const*>(p) < ARENA_BASE + ARENA;
}
u64   arena_live_bytes() { return live_bytes; }
// Only very long runs use up the arena: then the largest stretch without live blocks is used again, but for the blocks
// that were allocated last.
static void arena_recycle()
{
    std::size_t const keep = 2000;
    std::size_t const lo = arena_next > keep ? arena_next - keep : 0, hi = arena_next;
    std::size_t       n = 0;
    for (std::size_t i = 0; i < blocks.size(); i++)
        if (blocks[i].live || (i >= lo && i < hi)) blocks[n++] = blocks[i];
    blocks.resize(n);
    u32 from = 0, best = 0;
    for (std::size_t i = 0; i <= n; i++) {
        u32 const to = i < n ? blocks[i].off : u32(ARENA);
        if (to - from > best) best = to - from, arena_top = from, arena_limit = to, arena_next = i;
        if (i < n) from = blocks[i].off + blocks[i].size;
    }
    arena_recycled = true;
    probe("arena_used_again");
}
void* arena_alloc(std::size_t n, std::size_t align)
{
    Rt r;
    if (n == 0) n = 1;
    if (align < 16) align = 16;
    std::size_t off = (arena_top + 16 + align - 1) & ~(align - 1);
    if (off + n + 16 > arena_limit) {
        if (n > ARENA / 2) throw std::bad_alloc();
        arena_recycle();
        off = (arena_top + 16 + align - 1) & ~(align - 1);
        if (off + n + 16 > arena_limit) fail_s("heap-exhausted", "simulated heap exhausted (runaway allocation)");
    }
    blocks.insert(blocks.begin() + i64(arena_next), {u32(off), u32(n), true});
    arena_next++;
    arena_top = u32(off + n);
    if (arena_recycled && cells) for (std::size_t i = off; i < off + n; i++) cells[i].gen = 0;
    __real_memset(shadow + off, 1, n);
    __real_memset(ARENA_BASE + off, poison_byte, n);
    live_blocks++;
    live_bytes += n;
    return ARENA_BASE + off;
}
static Block* find_block(void const* p)
{
    u32  off = u32(static_cast<char const*>(p) - ARENA_BASE);
    auto it  = std::upper_bound(blocks.begin(), blocks.end(), off, [](u32 o, Block const& b) { return o < b.off; });
    if (it == blocks.begin()) return nullptr;
    --it;
    return off < it->off + it->size ? &*it : nullptr;
}
static void drop_sync(u32 off, u32 size);
void        arena_free(void* p)
{
    Rt r;
    if (!p) return;
    if (!in_arena(p)) return;
    Block* b = find_block(p);
    if (!b || ARENA_BASE + b->off != p) fail_s("bad-free", "free of an address that was never allocated");
    if (!b->live) fail_s("double-free", "block of " + std::to_string(b->size) + " bytes freed twice");
    b->live = false;
    __real_memset(shadow + b->off, 2, b->size);
    __real_memset(ARENA_BASE + b->off, 0xDD, b->size);
    drop_sync(b->off, b->size);
    if (b->off < boot_top) return;
    live_blocks--;
    live_bytes -= b->size;
}
static bool map_arena()
{
    if (shadow) return true;
    void* m = mmap(ARENA_BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != ARENA_BASE) return false;
    shadow = static_cast<unsigned char*>(mmap(nullptr, ARENA + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    return true;
}
static void* boot_alloc(std::size_t n, std::size_t align)
{
    if (n == 0) n = 1;
    std::size_t const off = (boot_top + 16 + std::max<std::size_t>(align, 16) - 1) & ~(std::max<std::size_t>(align, 16) - 1);
    if (boot_count == std::size(boot_blocks) || n > (1u << 20) || off > (16u << 20) || !map_arena()) return nullptr;
    boot_blocks[boot_count++] = {u32(off), u32(n), true};
    boot_top                  = u32(off + n);
    return ARENA_BASE + off;
}
static void boot_free(void* p)
{
    for (u32 i = boot_count; i-- > 0;)
        if (ARENA_BASE + boot_blocks[i].off == p) {
            boot_blocks[i].live = false;
            return;
        }
}
static void restore_boot()
{
    blocks.assign(boot_blocks, boot_blocks + boot_count);
    arena_top  = boot_top;
    arena_next = boot_count;
    if (!boot_count) return;
    __real_memcpy(ARENA_BASE, boot_image.data(), boot_image.size());
    for (auto& b : blocks) __real_memset(shadow + b.off, b.live ? 1 : 2, b.size);
}
static void bad_access(void const* a, std::size_t n, bool w)
{
    *mode_ptr() = 0;
    u32   off = u32(static_cast<char const*>(a) - ARENA_BASE);
    bool  freed = false;
    for (std::size_t i = 0; i < n; i++)
        if (shadow[off + i] == 2) freed = true;
    fail_s(freed ? "use-after-free" : "out-of-bounds",
           std::string(w ? "write" : "read") + " of " + std::to_string(n) + " bytes " + (freed ? "inside memory already released" : "outside any live block"));
}
static inline void check_mem(void const* a, std::size_t n, bool w)
{
    u32 off = u32(static_cast<char const*>(a) - ARENA_BASE);
    if (__builtin_expect(shadow[off] != 1 || shadow[off + n - 1] != 1, 0)) bad_access(a, n, w);
}

// ------------------------------------------------------------------ static and thread-local data of the code under test
// Statics between the two markers are put back to their initial values before each run; thread-local ones belong to
// the simulated threads.
extern "C" char detsim_data_begin[], detsim_data_end[], detsim_bss_begin[], detsim_bss_end[];
static std::vector<char> data_image, bss_image, tls_image;
static char*             tls_block;
static int find_tls(dl_phdr_info* i, size_t, void*)
{
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto& ph = i->dlpi_phdr[k];
        if (ph.p_type != PT_TLS || !ph.p_memsz) continue;
        tls_block = static_cast<char*>(__builtin_thread_pointer()) - ((ph.p_memsz + ph.p_align - 1) & ~(ph.p_align - 1));
        tls_image.assign(tls_block, tls_block + ph.p_memsz);
    }
    return 1;    // the first object is the program itself
}
static void save_statics()
{
    boot_image.assign(ARENA_BASE, ARENA_BASE + boot_top);
    data_image.assign(detsim_data_begin, detsim_data_end);
    bss_image.assign(detsim_bss_begin, detsim_bss_end);
    dl_iterate_phdr(find_tls, nullptr);
}
static void restore_statics()
{
    __real_memcpy(detsim_data_begin, data_image.data(), data_image.size());
    __real_memcpy(detsim_bss_begin, bss_image.data(), bss_image.size());
    if (!tls_image.empty()) __real_memcpy(tls_block, tls_image.data(), tls_image.size());
}
// Those of the code under test (not of the scenario) are watched like heap memory: found by their names in the symbol table.
struct Range {
    char const* b;
    char const* e;
};
static std::vector<Range> statics;
static Range              statics_all{};
static inline bool        in_statics(void const* p)
{
    auto c = static_cast<char const*>(p);
    if (c < statics_all.b || c >= statics_all.e) return false;
    for (auto& r : statics)
        if (c >= r.b && c < r.e) return true;
    return false;
}
static void find_statics()
{
    std::ifstream f("/proc/self/exe", std::ios::binary);
    std::string   s((std::istreambuf_iterator<char>(f)), {});
    auto          eh  = reinterpret_cast<ElfW(Ehdr) const*>(s.data());
    auto          sh  = reinterpret_cast<ElfW(Shdr) const*>(s.data() + eh->e_shoff);
    char const*   off = nullptr;
    for (int pass = 0; pass < 2; pass++)
        for (int i = 0; i < eh->e_shnum; i++) {
            if (sh[i].sh_type != SHT_SYMTAB) continue;
            auto        sym = reinterpret_cast<ElfW(Sym) const*>(s.data() + sh[i].sh_offset);
            char const* str = s.data() + sh[sh[i].sh_link].sh_offset;
            for (std::size_t k = 0; k < sh[i].sh_size / sizeof(*sym); k++) {
                if (ELF64_ST_TYPE(sym[k].st_info) != STT_OBJECT || !sym[k].st_value) continue;
                char const* n = str + sym[k].st_name;
                if (!off && !strcmp(n, "detsim_data_begin")) off = detsim_data_begin - sym[k].st_value;
                if (!pass || strncmp(n, "_Z", 2)) continue;
                n += 2;
                if (!strncmp(n, "GV", 2)) n += 2;
                while (*n == 'Z') n++;
                if (*n++ != 'N') continue;
                if (*n == 'K') n++;
                if (strncmp(n, "6xitren", 7)) continue;
                char const* a = off + sym[k].st_value;
                if (!((a >= detsim_data_begin && a < detsim_data_end) || (a >= detsim_bss_begin && a < detsim_bss_end))) continue;
                statics.push_back({a, a + sym[k].st_size});
                if (!statics_all.b || a < statics_all.b) statics_all.b = a;
                statics_all.e = std::max(statics_all.e, a + sym[k].st_size);
            }
        }
}

// Blocks that are live and that nothing keeps: what the statics and thread-local variables of the code under test lead
// to is kept for reuse (their destructors run after the simulated process, or not at all).
u64 arena_live_blocks()
{
    Rt r;
    if (!live_blocks || (statics.empty() && tls_image.empty())) return live_blocks;
    std::set<u32>       kept;
    std::vector<Range>  todo(statics);
    if (!tls_image.empty()) {
        todo.push_back({tls_block, tls_block + tls_image.size()});
        for (int i = 0; i < nf; i++)
            if (&fibers[i] != cur && !fibers[i].tls.empty()) todo.push_back({fibers[i].tls.data(), fibers[i].tls.data() + fibers[i].tls.size()});
    }
    while (!todo.empty()) {
        Range const g = todo.back();
        todo.pop_back();
        for (char const* a = reinterpret_cast<char const*>((u64(g.b) + 7) & ~7ull); a + 8 <= g.e; a += 8) {
            void* v;
            __real_memcpy(&v, a, 8);
            if (!in_arena(v)) continue;
            Block* b = find_block(v);
            if (b && b->live && kept.insert(b->off).second) todo.push_back({ARENA_BASE + b->off, ARENA_BASE + b->off + b->size});
        }
    }
    return live_blocks - u64(std::count_if(kept.begin(), kept.end(), [](u32 off) { return off >= boot_top; }));
}

// ------------------------------------------------------------------ happens-before
static std::unordered_map<u64, VC> sync_vc;    // atomics and mutexes by address
static void                        drop_sync(u32 off, u32 size)
{
    if (sync_vc.empty()) return;
    for (auto it = sync_vc.begin(); it != sync_vc.end();) {
        u64 a = it->first - u64(ARENA_BASE);
        if (a >= off && a < u64(off) + size) it = sync_vc.erase(it);
        else ++it;
    }
}
static inline void tick() { cur->vc.c[cur->id]++; }
static void        hb_acquire(void const* a)
{
    if (!race_on || !cur) return;
    auto it = sync_vc.find(u64(a));
    if (it != sync_vc.end()) cur->vc.join(it->second);
}
static void hb_release(void const* a)
{
    if (!race_on || !cur) return;
    sync_vc[u64(a)].join(cur->vc);
    tick();
}
static inline u32 cell_index(void const* a)
{
    auto c = static_cast<char const*>(a);
    if (in_arena(a)) return u32(c - ARENA_BASE);
    if (c >= detsim_data_begin && c < detsim_data_end) return u32(ARENA + 512 + std::size_t(c - detsim_data_begin));
    return u32(ARENA + 1024 + std::size_t(detsim_data_end - detsim_data_begin) + std::size_t(c - detsim_bss_begin));
}
static void race_check(void const* a, std::size_t n, bool w, bool atomic)
{
    Rt  r;
    int f = cur->id;
    VC& v = cur->vc;
    if (v.c[f] == 0) v.c[f] = 1;
    u32 off = cell_index(a);
    if (n > 256) n = 256;
    for (std::size_t i = 0; i < n; i++) {
        Cell& c = cells[off + i];
        if (c.gen != run_gen) {
            __real_memset(&c, 0, sizeof c);
            c.gen = run_gen;
            c.pwf = -1;
        }
        bool bad = c.pwf >= 0 && c.pwf != f && c.pwc > v.c[c.pwf];
        for (int k = 0; !bad && k < nf; k++) {
            if (k == f) continue;
            if (!atomic && c.aw[k] > v.c[k]) bad = true;
            if (w && c.pr[k] > v.c[k]) bad = true;
            if (w && !atomic && c.ar[k] > v.c[k]) bad = true;
        }
        if (bad)
            fail_s("data-race", std::string(atomic ? "atomic " : "plain ") + (w ? "write" : "read") + " of " + std::to_string(n) +
                                    " bytes is not ordered with an earlier conflicting access by another thread");
        if (atomic) (w ? c.aw : c.ar)[f] = v.c[f];
        else if (w) {
            c.pwf = f;
            c.pwc = v.c[f];
        } else
            c.pr[f] = v.c[f];
    }
}

// ------------------------------------------------------------------ fibers
extern "C" void detsim_switch(void** save, void* to);
__asm__(R"(
.text
.globl detsim_switch
.type detsim_switch,@function
detsim_switch:
    .cfi_startproc
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
    .cfi_endproc
.size detsim_switch,.-detsim_switch
)");

struct EhGlobals {
    void*    caught;
    unsigned uncaught;
};
extern "C" EhGlobals* __cxa_get_globals() noexcept;

static void switch_to(Fiber* to)
{
    Fiber* from = cur;
    if (from == to) return;
    nswitch++;
    run_len = 0;
    hash_in(schedhash, (nsteps << 5) ^ u64(to->id));
    hash_in(loghash, (nsteps << 5) ^ u64(to->id));
    auto* g           = __cxa_get_globals();
    from->eh_caught   = g->caught;
    from->eh_uncaught = g->uncaught;
    from->err         = errno;
    g->caught         = to->eh_caught;
    g->uncaught       = to->eh_uncaught;
    if (!tls_image.empty()) {
        from->tls.assign(tls_block, tls_block + tls_image.size());
        auto& t = to->tls.empty() ? tls_image : to->tls;
        __real_memcpy(tls_block, t.data(), t.size());
    }
    cur               = to;
    detsim_switch(&from->sp, to->sp);
    errno = cur->err;
}

static u32 sdraw(u32 (*policy)(void*), void* ctx)
{
    if (replaying) {
        if (sched_pos < sched.size()) return sched[sched_pos++];
        return UINT_MAX;    // exhausted
    }
    u32 v = policy(ctx);
    sched.push_back(v);
    return v;
}
static u32 gap_policy(void*)
{
    switch (gap_mode) {
    case 0: return 1 + u32(srng.below(2 * gap_mean - 1));
    case 1: {    // heavy tail
        u64 k = srng.below(gap_mean);
        return 1 + u32(srng.below(1ull << k));
    }
    default: return 1 + u32(srng.below(2 * gap_mean - 1));
    }
}
static void draw_gap()
{
    u32 v = sdraw(gap_policy, nullptr);
    gap   = v == UINT_MAX ? LLONG_MAX : (v == 0 ? 1 : v);
}

struct Cands {
    Fiber* c[MAXF];
    int    n = 0, runnable = 0;
};
static bool ready(Fiber& f)
{
    switch (f.st) {
    case RUN: return true;
    case SLEEP: return f.wake <= mono;
    case BLOCK: return f.wake >= 0 && f.wake <= mono;
    case POLL: return f.cond();
    default: return false;
    }
}
static void collect(Cands& k, bool include_self)
{
    k.n = 0;
    for (int d = 1; d <= nf; d++) {
        Fiber& f = fibers[(cur->id + d) % nf];
        if (&f == cur && !include_self) continue;
        if (ready(f)) k.c[k.n++] = &f;
    }
    k.runnable = k.n;
    if (stall_on && !fair_mode) {
        Fiber* s[MAXF];
        int    m = 0;
        for (int i = 0; i < nf; i++) {
            Fiber& f = fibers[i];
            if ((f.st == SLEEP || f.st == BLOCK) && f.wake > mono && &f != cur) s[m++] = &f;
        }
        std::stable_sort(s, s + m, [](Fiber* a, Fiber* b) { return a->wake < b->wake; });
        for (int i = 0; i < m && k.n < MAXF; i++) k.c[k.n++] = s[i];
    }
}
static u32 pick_policy(void* p)
{
    Cands& k = *static_cast<Cands*>(p);
    if (k.n == 1) return 0;
    // A few fibers may be frozen for a while (a descheduled thread).
    if (pick_mode == 2 && srng.chance(1, 24)) {
        Fiber* v         = k.c[srng.below(u64(k.n))];
        v->stalled_until = nsteps + (1ull << (4 + srng.below(9)));
    }
    int ok[MAXF], n = 0;
    int lim = k.runnable ? k.runnable : k.n;
    if (k.n > k.runnable && k.runnable && srng.chance(1, 8)) lim = k.n;
    for (int i = 0; i < lim; i++)
        if (k.c[i]->stalled_until <= nsteps) ok[n++] = i;
    if (!n)
        for (int i = 0; i < lim; i++) ok[n++] = i;
    if (pick_mode == 1) {
        int best = ok[0];
        for (int i = 1; i < n; i++)
            if (k.c[ok[i]]->prio > k.c[best]->prio) best = ok[i];
        return u32(best);
    }
    return u32(ok[srng.below(u64(n))]);
}
static u64  spins;
static i64  spun;    // time charged for waiting without blocking
static void wake_fiber(Fiber& f)
{
    spins = 0;
    if (f.st == SLEEP || f.st == BLOCK) {
        if (f.wake > mono) mono = f.wake;
        f.timed_out = true;
    }
    f.st   = RUN;
    f.wake = -1;
    f.cond = nullptr;
}
// Choose the next fiber; `self_ok`: the running fiber is itself runnable.
static void reschedule(bool self_ok)
{
    Cands k;
    collect(k, self_ok);
    if (k.n == 0) {
        i64 best = LLONG_MAX;
        for (int i = 0; i < nf; i++) {
            Fiber& f = fibers[i];
            if ((f.st == SLEEP || f.st == BLOCK) && f.wake >= 0) best = std::min(best, f.wake);
        }
        if (best == LLONG_MAX) {
            std::string s = "no simulated thread can run:";
            for (int i = 0; i < nf; i++)
                if (fibers[i].st != DONE && fibers[i].st != NONE)
                    s += " " + std::string(fibers[i].name) + "#" + std::to_string(i) + (fibers[i].st == POLL ? " waits for a condition" : " blocked");
            fail_s("deadlock", s);
        }
        if (best > mono) mono = best;
        collect(k, true);
        k.n = k.runnable;
        if (k.n == 0) fail_s("sim-internal", "no runnable fiber after a clock jump");
    }
    u32 v = 0;
    if (k.n > 1 && !fair_mode) {
        v = sdraw(pick_policy, &k);
        if (v == UINT_MAX) v = 0;
        v %= u32(k.n);
        if (pick_mode == 1 && !replaying && srng.chance(1, 16)) k.c[v]->prio = int(srng.below(1000));
    }
    Fiber* f = k.c[v];
    if (f->st != RUN) wake_fiber(*f);
    switch_to(f);
}
// Threads that only spin cost simulated time: more and more of it while nothing else happens, but never beyond
// the next timer.
static void spin_cost(bool cheap = false)
{
    if (!step_ns) return;
    i64 next = LLONG_MAX;
    int n    = 0;
    for (int i = 0; i < nf; i++) {
        Fiber& f = fibers[i];
        if (f.st == RUN) n++;
        if ((f.st == SLEEP || f.st == BLOCK) && f.wake > mono) next = std::min(next, f.wake);
    }
    // Giving way a few times before blocking is cheap; libraries do so and measure how long they have spun.
    i64 adv = cheap && spins < 16 ? std::min<i64>(spin_ns, 100) : spin_ns << std::min<u64>(6, spins / u64(4 * (n + 1)));
    spins++;
    if (next != LLONG_MAX) adv = std::min(adv, next - mono);
    mono += adv;
    spun += adv;
}
static void slow_point()
{
    if (nsteps > step_limit) {
        std::string s = "step limit reached, unfinished threads:";
        for (int i = 0; i < nf; i++)
            if (fibers[i].st != DONE && fibers[i].st != NONE) s += " " + std::string(fibers[i].name) + "#" + std::to_string(i);
        fail_s("no-progress", s);
    }
    if (nsteps > soft_limit && !fair_mode) {    // long enough under adversarial scheduling: finish fairly
        fair_mode = true;
        probe("soft_limit_fair_phase");
    }
    if (run_len > (fair_mode ? 64 : quantum)) {
        spin_cost();
        run_len = 0;
        if (pick_mode == 1 && !replaying) cur->prio = -int(nsteps & 0xfffff);
        reschedule(true);
        return;
    }
    if (!fair_mode && gap <= 0) {
        draw_gap();
        npreempt++;
        reschedule(true);
    }
}
static inline void step()
{
    nsteps++;
    run_len++;
    mono += step_ns;
    --gap;
    if (__builtin_expect(gap <= 0 || run_len > 64 || nsteps > step_limit, 0)) {
        if ((gap <= 0 && !fair_mode) || run_len > (fair_mode ? 64 : quantum) || nsteps > step_limit) {
            Rt r;
            slow_point();
        }
    }
}
void point()
{
    if (cur) step();
}
static void yield_now(bool self_ok)
{
    Rt r;
    nsteps++;
    mono += step_ns;
    if (nsteps > step_limit) slow_point();
    // give the others a chance first
    Cands k;
    collect(k, false);
    if (k.n == 0 && self_ok) {
        // nobody else can run now: let time pass so that a spinning thread is not the only one that ever runs
        spin_cost();
        return;
    }
    reschedule(self_ok);
}
void        yield() { yield_now(true); }
static void block(void const* obj, i64 deadline, St st)
{
    Rt r;
    if (deadline >= 0 && deadline <= mono) spin_cost();    // a wait that is over before it begins: a system call that does nothing
    cur->st        = st;
    cur->obj       = obj;
    cur->wake      = deadline;
    cur->timed_out = false;
    nsteps++;
    reschedule(true);
    cur->obj = nullptr;
}
static void wake_all(void const* obj)
{
    for (int i = 0; i < nf; i++)
        if (fibers[i].st == BLOCK && fibers[i].obj == obj) {
            fibers[i].st   = RUN;
            fibers[i].wake = -1;
        }
}
void block_until(std::function<bool()> c, char const*)
{
    Rt r;
    if (c()) {
        step();
        for (int i = 0; i < nf; i++) cur->vc.join(fibers[i].vc);
        return;
    }
    cur->cond = std::move(c);
    cur->st   = POLL;
    nsteps++;
    reschedule(true);
    for (int i = 0; i < nf; i++) cur->vc.join(fibers[i].vc);
}

static void fiber_main();
static Fiber& new_fiber(char const* name)
{
    if (nf >= MAXF) fail_s("too-many-threads", "more simulated threads than the simulator supports");
    Fiber& f = fibers[nf];
    char*  s = f.stack;
    f        = Fiber{};
    f.stack  = s;
    if (!f.stack) {
        f.stack = static_cast<char*>(mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        mprotect(f.stack, 4096, PROT_NONE);
    }
    f.id   = nf++;
    f.name = name;
    f.st   = RUN;
    f.prio = int(replaying ? 0 : srng.below(1000));
    auto* top = reinterpret_cast<void**>((reinterpret_cast<u64>(f.stack + 4096 + STACK) & ~15ull) - 64);
    *--top    = nullptr;                                    // alignment / fake return
    *--top    = reinterpret_cast<void*>(&fiber_main);       // return address of detsim_switch
    for (int i = 0; i < 6; i++) *--top = nullptr;
    f.sp = top;
    if (race_on && cur) {
        f.vc = cur->vc;
        tick();
    }
    f.vc.c[f.id] = 1;
    return f;
}
static void fiber_main()
{
    try {
        if (cur->start) cur->ret = cur->start(cur->arg);
        else cur->body();
    } catch (std::exception const& e) {
        fail("terminate", "exception left a thread function: %s", e.what());
    } catch (...) {
        fail("terminate", "exception left a thread function");
    }
    cur->mode = 0;
    {
        cur->body = nullptr;
        cur->st   = DONE;
        wake_all(cur);
        if (cur->id == 0) {
            void* dummy;
            detsim_switch(&dummy, host_sp);
        }
        reschedule(false);
    }
    __builtin_trap();
}
u64 spawn(std::function<void()> b, char const* name)
{
    Rt     r;
    Fiber& f = new_fiber(name);
    f.body   = std::move(b);
    f.mode   = 0;
    return u64(f.id);
}
static void join_fiber(Fiber& f)
{
    while (f.st != DONE) block(&f, -1, BLOCK);
    cur->vc.join(f.vc);
    f.joined = true;
}
void join(u64 id)
{
    Rt r;
    join_fiber(fibers[id]);
}
int live_threads()
{
    int n = 0;
    for (int i = 0; i < nf; i++)
        if (fibers[i].sut_thread && fibers[i].st != DONE) n++;
    return n;
}
int  self() { return cur ? cur->id : -1; }
i64  mono_ns() { return mono; }
i64  real_ns() { return real_base + mono + wall_off; }
void jump_wall(i64 ns)
{
    wall_off += ns;
    count_fault(ns >= 0 ? "wall_clock_jump_forward" : "wall_clock_jump_backward");
    log("wall clock jumps by %lld ns", (long long)ns);
}
void advance(i64 ns) { mono += ns; }
void sleep_ns(i64 ns)
{
    if (ns <= 0) return yield();
    block(nullptr, mono + ns, SLEEP);
}
void fair(bool on)
{
    fair_mode = on;
    if (!on) draw_gap();
}
void freeze(bool on) { step_ns = on ? 0 : 10; }
void spin_cost_ns(i64 ns) { spin_ns = ns; }
void set_step_limit(u64 n) { step_limit = nsteps + n; }
void stall_mode(bool on) { stall_on = on; }
void race_mode(bool on)
{
    race_on = on;
    if (on && !cells)
        cells = static_cast<Cell*>(mmap(nullptr, (ARENA + (1 << 20)) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    run_gen++;
}
void settle()
{
    Rt   r;
    bool f    = fair_mode;
    fair_mode = true;
    for (int i = 0; i < 8; i++) yield_now(true);
    fair_mode = f;
}

// ------------------------------------------------------------------ faults
static void draw_fault(int k)
{
    if (replaying) {
        fgap[k] = fpos[k] < fstream[k].size() ? fstream[k][fpos[k]++] : LLONG_MAX;
        return;
    }
    u32 v = 1 + u32(frng.below(2ull * fmean[k] - 1));
    fstream[k].push_back(v);
    fgap[k] = v;
}
void arm(Fault k, u32 mean)
{
    Rt r;
    fmean[k] = mean;
    if (mean) draw_fault(k);
}
void disarm_all()
{
    for (auto& m : fmean) m = 0;
}
u64 fault_hits(Fault k) { return fired[k]; }
i64 spun_ns() { return spun; }
bool unwinding()
{
    if (!cur_plan || !cur_plan->get("unwind")) return false;
    probe("destroyed_while_an_exception_passes");
    return true;
}
Faulty::Faulty(bool on) : old(cur ? cur->faulty : false)
{
    if (cur) cur->faulty = on;
}
Faulty::~Faulty()
{
    if (cur) cur->faulty = old;
}
bool fault(Fault k)
{
    if (!fmean[k]) return false;
    if ((k == F_ENOMEM || k == F_EAGAIN || k == F_THROW) && !(cur && cur->faulty)) return false;
    Rt r;
    if (--fgap[k] > 0) return false;
    draw_fault(k);
    fired[k]++;
    run_faults[fault_names[k]]++;
    log_s(std::string("fault: ") + fault_names[k]);
    return true;
}

// ------------------------------------------------------------------ one run
struct Outcome {
    u64 hash, sched_hash;
};
static void start_run_state(u64 seed, bool replay)
{
    nf       = 0;
    cur      = nullptr;
    nsteps   = 0;
    run_len = nswitch = nseq = npreempt = 0;
    mono       = 0;
    step_ns    = 10;
    spin_ns    = 20'000;
    wall_off   = 0;
    fair_mode = stall_on = race_on = false;
    soft_limit = 120'000;
    step_limit = 500'000;
    locks_gen++;
    spins = 0;
    spun  = 0;
    loghash = schedhash = 0x1234567;
    replaying            = replay;
    sched_pos            = 0;
    if (!replay) {
        sched.clear();
        for (auto& f : fstream) f.clear();
    }
    for (int k = 0; k < F_MAX; k++) {
        fpos[k]  = 0;
        fmean[k] = 0;
        fired[k] = 0;
        fgap[k]  = LLONG_MAX;
    }
    srng = Rng(seed ^ 0x5eed5eedULL);
    frng = Rng(seed ^ 0xfa017ULL);
    srng.next();
    gap_mode  = int(srng.below(3));
    gap_mean  = gap_mode == 0 ? u32(srng.pick({1, 2, 2, 3, 5, 8})) : gap_mode == 1 ? u32(srng.range(5, 12)) : u32(srng.pick({12, 24, 48, 96, 200}));
    pick_mode = int(srng.below(3));
    run_faults.clear();
    run_probes.clear();
    run_findings.clear();
    // heap
    if (arena_recycled) arena_top = u32(ARENA - 64);
    if (arena_top) __real_memset(shadow, 0, arena_top + 64);
    blocks.clear();
    arena_top   = 0;
    arena_limit = ARENA, arena_next = 0, arena_recycled = false;
    live_blocks = live_bytes = 0;
    sync_vc.clear();
    restore_statics();
    restore_boot();
}
static Outcome run_plan(Scenario const& sc, Plan const& plan, u64 seed, bool replay)
{
    start_run_state(seed, replay);
    cur_plan    = &plan;
    cur_scn     = &sc;
    poison_byte = static_cast<unsigned char>(plan.get("poison", 0xCD));
    mono_base   = plan.get("uptime", 1000 * 1'000'000'000LL);
    real_base   = plan.get("epoch", 1'700'000'000) * 1'000'000'000LL + plan.get("epoch_ns");
    active      = true;
    host_mode   = 0;
    draw_gap();
    Fiber& f = new_fiber("main");
    f.body   = [&] { sc.run(plan); };
    f.mode   = 0;
    auto* g  = __cxa_get_globals();
    auto  eh = *g;
    itimerval it{{0, 0}, {15, 0}}, off{};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);    // CPU time: only an endless loop without a single scheduling point gets here
    cur = &f;
    detsim_switch(&host_sp, f.sp);
    setitimer(ITIMER_VIRTUAL, &off, nullptr);
    *g     = eh;
    cur    = nullptr;
    active = false;
    hash_in(loghash, nsteps);
    hash_in(loghash, u64(mono));
    Outcome o{loghash, schedhash};
    return o;
}
static void account()
{
    tot.runs++;
    tot.steps += nsteps;
    tot.switches += nswitch;
    tot.preempts += npreempt;
    tot.events += nseq;
    tot.sim_ns += (long double)mono;
    for (auto& [k, v] : run_faults) tot.faults[k] += v;
    for (auto& [k, v] : run_probes) tot.probes[k] += v;
    for (auto& [k, v] : run_findings) tot.findings[k] += v;
    int st = 0;
    for (int i = 0; i < nf; i++) st += 1;
    tot.max_live_threads = std::max<u64>(tot.max_live_threads, u64(st));
    tot.per_scenario[cur_scn->name]++;
    for (auto& o : cur_plan->ops) tot.ops[std::string(cur_scn->name) + " " + std::to_string(o.kind)]++;
}

static u64 mix(u64 a, u64 b)
{
    Rng r(a * 0x9E3779B97F4A7C15ULL + b);
    r.next();
    return r.next();
}
static u64 hstr(std::string const& s)
{
    u64 h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}
static u64 plan_hash(Plan const& p)
{
    u64 h = 77;
    for (auto& [k, v] : p.p)
        if (k != "uptime" && k != "epoch" && k != "epoch_ns" && k != "poison") hash_in(h, hstr(k) ^ u64(v));
    for (auto& o : p.ops) {
        hash_in(h, u64(o.th * 131 + o.kind));
        hash_in(h, u64(o.a));
        hash_in(h, u64(o.b));
        hash_in(h, u64(o.c));
    }
    return h;
}
static Scenario const* find_scenario(std::string const& n)
{
    for (auto& s : scenarios())
        if (n == s.name) return &s;
    return nullptr;
}
static std::string jesc(std::string const& s)
{
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\';
        if (static_cast<unsigned char>(c) < 32) o += ' ';
        else o += c;
    }
    return o;
}
static std::string plan_text(Scenario const& sc, Plan const& p)
{
    std::string s = std::string(sc.name) + "{";
    for (auto& [k, v] : p.p) s += k + "=" + std::to_string(v) + " ";
    s += "} ";
    int n = 0;
    for (auto& o : p.ops) {
        if (n++ > 24) {
            s += " ... (" + std::to_string(p.ops.size()) + " ops)";
            break;
        }
        s += "T" + std::to_string(o.th) + ":" + (sc.describe ? sc.describe(o) : std::to_string(o.kind)) + "; ";
    }
    return s;
}

struct Args {
    std::map<std::string, std::string> m;
    std::string                        get(std::string const& k, std::string d = "") const { return m.count(k) ? m.at(k) : d; }
    i64                                num(std::string const& k, i64 d) const { return m.count(k) ? std::stoll(m.at(k)) : d; }
};

static void gen_plan(Scenario const& sc, u64 seed, int tier, Plan& p)
{
    Rng r(seed);
    p = sc.gen(r, tier);
    if (!p.p.count("poison")) p.p["poison"] = r.pick({0xCD, 0x00, 0xFF, 0x01});
    if (r.chance(3, 4)) {    // seconds to years after the system's start, at any fraction of a second
        p.p["uptime"]   = r.range(1'000'000'000, r.pick<i64>({10, 86'400, 60 * 86'400, 1000 * 86'400}) * 1'000'000'000LL);
        p.p["epoch"]    = r.range(1'600'000'000, 2'200'000'000);
        p.p["epoch_ns"] = r.range(0, 999'999'999);
    }
    if (r.chance(1, 8)) p.p["unwind"] = 1;
}

static int explore(Args const& a)
{
    std::string const      prop = a.get("prop");
    std::vector<Scenario*> scs;
    for (auto& s : scenarios())
        if (prop == s.property)
            for (u64 i = 0; i < s.share; i++) scs.push_back(&s);
    if (scs.empty()) {
        std::fprintf(stderr, "no scenario for %s\n", prop.c_str());
        return 2;
    }
    u64 const   seed = u64(a.num("seed", 1)), w = u64(a.num("worker", 0)), n = u64(a.num("workers", 1)), N = u64(a.num("runs", 1000));
    double const limit = double(a.num("seconds", 60));
    int const   tier   = a.get("tier", "quick") == "thorough" ? 1 : 0;
    bool const  hashes = a.num("hashes", 0) != 0;
    out_path           = a.get("out");
    std::unordered_set<u64>  distinct;
    u64                      audits = 0, nontrivial = 0;
    std::vector<std::string> samples;
    double const             t0 = wall_s();
    print_stats = [&] {
        std::string s = "STATS {";
        auto        add = [&](char const* k, u64 v) { s += std::string("\"") + k + "\":" + std::to_string(v) + ","; };
        add("runs", tot.runs);
        add("steps", tot.steps);
        add("switches", tot.switches);
        add("preemptions", tot.preempts);
        add("events", tot.events);
        s += "\"sim_us\":" + std::to_string(tot.sim_ns / 1000) + ",";
        add("distinct", distinct.size());
        add("nontrivial", nontrivial);
        add("audits", audits);
        add("max_threads", tot.max_live_threads);
        add("ms", u64((wall_s() - t0) * 1000));
        auto mp = [&](char const* k, std::map<std::string, u64> const& m) {
            s += std::string("\"") + k + "\":{";
            bool f = true;
            for (auto& [a2, b] : m) {
                if (!f) s += ",";
                f = false;
                s += "\"" + jesc(a2) + "\":" + std::to_string(b);
            }
            s += "},";
        };
        mp("faults", tot.faults);
        mp("probes", tot.probes);
        mp("findings", tot.findings);
        mp("per_scenario", tot.per_scenario);
        mp("ops", tot.ops);
        s += "\"samples\":[";
        for (std::size_t i = 0; i < samples.size(); i++) s += (i ? ",\"" : "\"") + jesc(samples[i]) + "\"";
        s += "]}";
        std::puts(s.c_str());
    };
    for (u64 i = w; i < N; i += n) {
        if (wall_s() - t0 > limit) break;
        u64 const rs = mix(mix(seed, hstr(prop)), i);
        auto&     sc = *scs[i % scs.size()];
        Plan      p;
        gen_plan(sc, rs, tier, p);
        auto o = run_plan(sc, p, rs, false);
        account();
        if (hashes) std::printf("HASH %llu %s\n", (unsigned long long)i, hex(o.hash));
        u64 fc = 0;
        for (auto& [k, v] : run_faults) fc += v;
        fc += run_probes.size();
        if (nswitch + fc > 0) {
            nontrivial++;
            u64 h = plan_hash(p);
            hash_in(h, o.sched_hash);
            if (distinct.size() < 3'000'000) distinct.insert(h);
        }
        if (samples.size() < 2 && i >= n * 3) samples.push_back(plan_text(sc, p) + " => steps=" + std::to_string(nsteps) + " switches=" + std::to_string(nswitch) + " preemptions=" + std::to_string(npreempt));
        if ((i / n) % 64 == 1) {    // determinism audit: the same seed again must give the same event log
            auto o2 = run_plan(sc, p, rs, false);
            audits++;
            if (o2.hash != o.hash) {
                std::printf("NONDETERMINISM run=%llu\n", (unsigned long long)i);
                return 2;
            }
        }
    }
    print_stats();
    print_stats = nullptr;
    auto dp = a.get("distinct");
    if (!dp.empty()) {
        std::ofstream o(dp, std::ios::binary);
        for (u64 h : distinct) o.write(reinterpret_cast<char const*>(&h), 8);
    }
    return 0;
}

static int replay_cmd(Args const& a)
{
    Replay r;
    if (!load(a.get("file"), r)) {
        std::fprintf(stderr, "cannot read replay file\n");
        return 2;
    }
    auto* sc = find_scenario(r.scenario);
    if (!sc) {
        std::fprintf(stderr, "unknown scenario %s\n", r.scenario.c_str());
        return 2;
    }
    verbose  = a.num("verbose", 1) != 0;
    out_path = a.get("out");
    sched    = r.sched;
    for (int k = 0; k < F_MAX; k++) fstream[k] = r.faults[k];
    if (verbose) std::printf("replaying %s: %s\n", r.property.c_str(), plan_text(*sc, r.plan).c_str());
    auto o = run_plan(*sc, r.plan, 1, true);
    account();
    std::printf("OK loghash=%s steps=%llu switches=%llu\n", hex(o.hash), (unsigned long long)nsteps, (unsigned long long)nswitch);
    for (auto& [k, v] : tot.findings) std::printf("KNOWN %s %llu\n", k.c_str(), (unsigned long long)v);
    return 0;
}

// Shrinking: every candidate runs in a forked child; it is kept if the same violation class appears.
static std::string shrink_tmp;
static bool        try_candidate(Scenario const& sc, Replay const& cand, u64 seeds, Replay& got)
{
    ::unlink(shrink_tmp.c_str());
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int dn = ::open("/dev/null", O_WRONLY);
        if (dn >= 0) ::dup2(dn, 1);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        out_path = shrink_tmp;
        if (seeds == 0) {
            sched = cand.sched;
            for (int k = 0; k < F_MAX; k++) fstream[k] = cand.faults[k];
            run_plan(sc, cand.plan, 1, true);
        } else
            for (u64 s = 0; s < seeds; s++) run_plan(sc, cand.plan, mix(4242, s), false);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 3) return false;
    got = Replay{};
    if (!load(shrink_tmp, got)) return false;
    return got.cls == cand.cls;
}
static std::size_t weight(Replay const& r)
{
    std::size_t n = r.plan.ops.size() * 1000 + r.sched.size();
    for (auto& f : r.faults) n += f.size() * 10;
    return n;
}
static int shrink_cmd(Args const& a)
{
    Replay best;
    if (!load(a.get("in"), best)) return 2;
    auto* sc = find_scenario(best.scenario);
    if (!sc) return 2;
    shrink_tmp         = a.get("out") + ".cand";
    double const t_end = wall_s() + double(a.num("seconds", 30));
    auto         left  = [&] { return wall_s() < t_end; };
    Replay       got;
    bool         changed = true;
    while (changed && left()) {
        changed = false;
        // drop workload operations
        for (std::size_t chunk = std::max<std::size_t>(1, best.plan.ops.size() / 2); chunk >= 1 && left(); chunk /= 2) {
            for (std::size_t i = 0; i + chunk <= best.plan.ops.size() && left();) {
                Replay c = best;
                c.plan.ops.erase(c.plan.ops.begin() + long(i), c.plan.ops.begin() + long(i + chunk));
                if (try_candidate(*sc, c, 0, got) || try_candidate(*sc, c, 60, got)) {
                    best    = got;
                    changed = true;
                } else
                    i += chunk;
            }
        }
        for (char const* k : {"races", "stall", "spurious", "enomem", "eagain", "eintr", "throws", "settle", "unwind"}) {
            if (!best.plan.get(k) || !left()) continue;
            Replay c    = best;
            c.plan.p[k] = 0;
            if (try_candidate(*sc, c, 0, got) || try_candidate(*sc, c, 60, got)) {
                best    = got;
                changed = true;
            }
        }
        // simplify the schedule and the fault trace
        auto shrink_list = [&](auto ref) {
            for (std::size_t chunk = std::max<std::size_t>(1, ref(best).size() / 2); chunk >= 1 && left(); chunk /= 2)
                for (std::size_t i = 0; i + chunk <= ref(best).size() && left();) {
                    Replay c  = best;
                    auto&  v  = ref(c);
                    v.erase(v.begin() + long(i), v.begin() + long(i + chunk));
                    if (try_candidate(*sc, c, 0, got) && weight(got) < weight(best)) {
                        best    = got;
                        changed = true;
                    } else
                        i += chunk;
                }
        };
        shrink_list([](Replay& r) -> std::vector<u32>& { return r.sched; });
        for (int k = 0; k < F_MAX; k++) shrink_list([k](Replay& r) -> std::vector<u32>& { return r.faults[k]; });
    }
    ::unlink(shrink_tmp.c_str());
    // final run of the minimised trace so that the stored hash is that of a replay
    if (!try_candidate(*sc, best, 0, got)) return 2;
    ::unlink(shrink_tmp.c_str());
    save(a.get("out"), got, *sc);
    std::printf("SHRUNK ops=%zu sched=%zu class=%s\n", got.plan.ops.size(), got.sched.size(), got.cls.c_str());
    return 0;
}

static int list_cmd()
{
    for (auto& s : scenarios()) std::printf("SCENARIO %s %s %llu %s\n", s.property, s.name, (unsigned long long)s.share, s.faults);
    return 0;
}
}    // namespace sim

// ================================================================== interposition
using namespace sim;
#define PLAIN (cur && cur->mode == 1)

static inline void acc(void const* a, std::size_t n, bool w, bool atomic = false)
{
    if (!in_arena(a)) {
        if (in_statics(a)) {
            step();
            if (race_on) race_check(a, n, w, atomic);
        }
        return;
    }
    check_mem(a, n, w);
    step();
    check_mem(a, n, w);    // it may have been released while this thread was preempted just before the access
    if (race_on) race_check(a, n, w, atomic);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { }
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*)
{
    if (PLAIN) acc(p, 8, true);
}
void __tsan_vptr_read(void** p)
{
    if (PLAIN) acc(p, 8, false);
}
#define RW(N)                                                                      \
    void __tsan_read##N(void* a)                                                   \
    {                                                                              \
        if (PLAIN) acc(a, N, false);                                               \
    }                                                                              \
    void __tsan_write##N(void* a)                                                  \
    {                                                                              \
        if (PLAIN) acc(a, N, true);                                                \
    }                                                                              \
    void __tsan_unaligned_read##N(void* a)                                         \
    {                                                                              \
        if (PLAIN) acc(a, N, false);                                               \
    }                                                                              \
    void __tsan_unaligned_write##N(void* a)                                        \
    {                                                                              \
        if (PLAIN) acc(a, N, true);                                                \
    }                                                                              \
    void __tsan_volatile_read##N(void* a)                                          \
    {                                                                              \
        if (PLAIN) acc(a, N, false);                                               \
    }                                                                              \
    void __tsan_volatile_write##N(void* a)                                         \
    {                                                                              \
        if (PLAIN) acc(a, N, true);                                                \
    }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n)
{
    if (PLAIN && n) acc(a, n, false);
}
void __tsan_write_range(void* a, unsigned long n)
{
    if (PLAIN && n) acc(a, n, true);
}

static inline void at_pre(void const* a, std::size_t n, bool w)
{
    if (!PLAIN) return;
    if (in_arena(a) || in_statics(a)) acc(a, n, w, true);
    else step();
}
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void at_order(void const* a, int mo, bool rd, bool wr)
{
    if (!race_on || !PLAIN) return;
    Rt r;
    if (rd) {
        auto it = sync_vc.find(u64(a));
        if (it != sync_vc.end()) {
            if (is_acq(mo)) cur->vc.join(it->second);
            else cur->acq_fence.join(it->second);
        }
    }
    if (wr) {
        if (is_rel(mo)) {
            if (!rd) sync_vc[u64(a)] = cur->vc;
            else sync_vc[u64(a)].join(cur->vc);
            tick();
        } else if (!rd)
            sync_vc[u64(a)] = cur->rel_fence;    // a relaxed store ends the release sequence
        else
            sync_vc[u64(a)].join(cur->rel_fence);
    }
}
#define ATOMICS(B, T)                                                                                              \
    T __tsan_atomic##B##_load(T const volatile* a, int mo)                                                         \
    {                                                                                                              \
        at_pre((void const*)a, sizeof(T), false);                                                                  \
        at_order((void const*)a, mo, true, false);                                                                 \
        return *a;                                                                                                 \
    }                                                                                                              \
    void __tsan_atomic##B##_store(T volatile* a, T v, int mo)                                                      \
    {                                                                                                              \
        at_pre((void const*)a, sizeof(T), true);                                                                   \
        at_order((void const*)a, mo, false, true);                                                                 \
        *a = v;                                                                                                    \
    }                                                                                                              \
    T __tsan_atomic##B##_exchange(T volatile* a, T v, int mo)                                                      \
    {                                                                                                              \
        at_pre((void const*)a, sizeof(T), true);                                                                   \
        at_order((void const*)a, mo, true, true);                                                                  \
        T o = *a;                                                                                                  \
        *a  = v;                                                                                                   \
        return o;                                                                                                  \
    }                                                                                                              \
    int __tsan_atomic##B##_compare_exchange_strong(T volatile* a, T* c, T v, int mo, int fmo)                      \
    {                                                                                                              \
        at_pre((void const*)a, sizeof(T), true);                                                                   \
        if (*a == *c) {                                                                                            \
            at_order((void const*)a, mo, true, true);                                                              \
            *a = v;                                                                                                \
            return 1;                                                                                              \
        }                                                                                                          \
        at_order((void const*)a, fmo, true, false);                                                                \
        *c = *a;                                                                                                   \
        return 0;                                                                                                  \
    }                                                                                                              \
    int __tsan_atomic##B##_compare_exchange_weak(T volatile* a, T* c, T v, int mo, int fmo)                        \
    {                                                                                                              \
        if (PLAIN && *a == *c && fault(F_SPURIOUS)) {    /* a weak exchange may fail although the values are equal */ \
            at_pre((void const*)a, sizeof(T), false);                                                              \
            at_order((void const*)a, fmo, true, false);                                                            \
            *c = *a;                                                                                               \
            return 0;                                                                                              \
        }                                                                                                          \
        return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo);                                       \
    }                                                                                                              \
    T __tsan_atomic##B##_compare_exchange_val(T volatile* a, T c, T v, int mo, int fmo)                            \
    {                                                                                                              \
        __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo);                                             \
        return c;                                                                                                  \
    }
#define ARITH(B, T, NAME, EXPR)                                                                                    \
    T __tsan_atomic##B##_fetch_##NAME(T volatile* a, T v, int mo)                                                  \
    {                                                                                                              \
        at_pre((void const*)a, sizeof(T), true);                                                                   \
        at_order((void const*)a, mo, true, true);                                                                  \
        T o = *a;                                                                                                  \
        *a  = (T)(EXPR);                                                                                           \
        return o;                                                                                                  \
    }
#define ALL(B, T)                                                                                                  \
    ATOMICS(B, T)                                                                                                  \
    ARITH(B, T, add, o + v)                                                                                        \
    ARITH(B, T, sub, o - v)                                                                                        \
    ARITH(B, T, and, o& v)                                                                                         \
    ARITH(B, T, or, o | v)                                                                                         \
    ARITH(B, T, xor, o ^ v)                                                                                        \
    ARITH(B, T, nand, ~(o & v))
ALL(8, unsigned char)
ALL(16, unsigned short)
ALL(32, unsigned)
ALL(64, unsigned long)
ALL(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo)
{
    if (!PLAIN) return;
    step();
    if (!race_on) return;
    if (is_acq(mo)) cur->vc.join(cur->acq_fence);
    if (is_rel(mo)) {
        cur->rel_fence = cur->vc;
        tick();
    }
}
void __tsan_atomic_signal_fence(int) {}

void* __wrap_memcpy(void* d, void const* s, size_t n)
{
    if (n && PLAIN) {
        acc(s, n, false);
        acc(d, n, true);
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, void const* s, size_t n)
{
    if (n && PLAIN) {
        acc(s, n, false);
        acc(d, n, true);
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (n && PLAIN) acc(d, n, true);
    return __real_memset(d, c, n);
}

int __wrap_memcmp(void const* a, void const* b, size_t n)
{
    if (n && PLAIN) {
        acc(a, n, false);
        acc(b, n, false);
    }
    return __real_memcmp(a, b, n);
}
size_t __wrap_strlen(char const* s)
{
    size_t n = __real_strlen(s);
    if (PLAIN) acc(s, n + 1, false);
    return n;
}

// Out-of-line parts of libstdc++'s containers: the library's own code, run after its accesses have been announced.
typedef std::_Rb_tree_node_base TreeNode;
TreeNode* __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(TreeNode*);
TreeNode* __real__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(TreeNode*);
TreeNode const* __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(TreeNode const*);
TreeNode const* __real__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(TreeNode const*);
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, TreeNode*, TreeNode*, TreeNode&);
TreeNode* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(TreeNode*, TreeNode&);
TreeNode* __wrap__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(TreeNode* x)
{
    if (PLAIN) acc(x, sizeof *x, false);
    return __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x);
}
TreeNode* __wrap__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(TreeNode* x)
{
    if (PLAIN) acc(x, sizeof *x, false);
    return __real__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(x);
}
TreeNode const* __wrap__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(TreeNode const* x)
{
    if (PLAIN) acc(x, sizeof *x, false);
    return __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(x);
}
TreeNode const* __wrap__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(TreeNode const* x)
{
    if (PLAIN) acc(x, sizeof *x, false);
    return __real__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(x);
}
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, TreeNode* x, TreeNode* p, TreeNode& h)
{
    if (PLAIN) {
        acc(x, sizeof *x, true);
        acc(p, sizeof *p, true);
        if (p != &h) acc(&h, sizeof h, true);
    }
    __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(left, x, p, h);
}
TreeNode* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(TreeNode* x, TreeNode& h)
{
    if (PLAIN) {
        acc(x, sizeof *x, true);
        acc(&h, sizeof h, true);
        if (x->_M_parent && x->_M_parent != &h) acc(x->_M_parent, sizeof *x, true);
    }
    return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(x, h);
}
typedef std::__detail::_Prime_rehash_policy Rehash;
std::pair<bool, size_t> __real__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(Rehash const*, size_t, size_t, size_t);
size_t __real__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(Rehash const*, size_t);
std::pair<bool, size_t> __wrap__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(Rehash const* p, size_t a, size_t b, size_t c)
{
    if (PLAIN) acc(p, sizeof *p, true);
    return __real__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(p, a, b, c);
}
size_t __wrap__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(Rehash const* p, size_t n)
{
    if (PLAIN) acc(p, sizeof *p, true);
    return __real__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(p, n);
}

// ---------------------------------------------------------------- time
static int sim_clock(clockid_t id, timespec* ts)
{
    mono += 25;
    i64 t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? real_ns() : mono_base + mono;
    ts->tv_sec  = t / 1'000'000'000;
    ts->tv_nsec = t % 1'000'000'000;
    return 0;
}
int clock_gettime(clockid_t id, timespec* ts) noexcept
{
    if (!cur) return int(raw_syscall(SYS_clock_gettime, id, (long)ts));
    if (cur->mode == 1) step();
    return sim_clock(id, ts);
}
int gettimeofday(timeval* tv, void*) noexcept
{
    timespec ts{};
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) noexcept
{
    timespec ts{};
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static i64 ts_ns(timespec const* t) { return i64(std::min<time_t>(t->tv_sec, 4'000'000'000)) * 1'000'000'000LL + t->tv_nsec; }
static i64 abs_to_mono(clockid_t id, timespec const* t)
{
    i64 v = ts_ns(t);
    return id == CLOCK_REALTIME ? v - real_base - wall_off : v - mono_base;
}
int nanosleep(timespec const* req, timespec* rem)
{
    if (!cur) return int(raw_syscall(SYS_nanosleep, (long)req, (long)rem));
    Rt  r;
    i64 ns = ts_ns(req);
    if (ns > 1000 && fault(F_EINTR)) {
        i64 part = ns / 2;
        block(nullptr, mono + part, SLEEP);
        if (rem) {
            rem->tv_sec  = (ns - part) / 1'000'000'000;
            rem->tv_nsec = (ns - part) % 1'000'000'000;
        }
        errno = cur->err = EINTR;
        return -1;
    }
    if (ns <= 0) {
        yield_now(true);
        return 0;
    }
    block(nullptr, mono + ns, SLEEP);
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, timespec const* req, timespec* rem)
{
    if (!cur) return int(-raw_syscall(SYS_clock_nanosleep, id, flags, (long)req, (long)rem));
    Rt  r;
    i64 dl = (flags & TIMER_ABSTIME) ? abs_to_mono(id, req) : mono + ts_ns(req);
    if (dl <= mono) {
        yield_now(true);
        return 0;
    }
    block(nullptr, dl, SLEEP);
    return 0;
}
int usleep(useconds_t us)
{
    timespec t{time_t(us / 1000000), long(us % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s)
{
    timespec t{time_t(s), 0};
    nanosleep(&t, nullptr);
    return 0;
}
int sched_yield() noexcept
{
    if (!cur) return 0;
    {
        Rt r;
        spin_cost(true);
    }
    yield_now(true);
    return 0;
}

// ---------------------------------------------------------------- threads
int pthread_create(pthread_t* t, pthread_attr_t const*, void* (*fn)(void*), void* arg) noexcept
{
    if (!cur) return EAGAIN;
    Rt r;
    if (fault(F_EAGAIN)) return EAGAIN;
    Fiber& f     = new_fiber("thread");
    f.start      = fn;
    f.arg        = arg;
    f.mode       = 1;
    f.sut_thread = true;
    *t           = pthread_t(f.id + 1);
    log_s("thread created");
    step();
    return 0;
}
static Fiber* by_handle(pthread_t t) { return t >= 1 && t <= pthread_t(nf) ? &fibers[t - 1] : nullptr; }
int           pthread_join(pthread_t t, void** ret)
{
    if (!cur) return EINVAL;
    Rt   r;
    auto f = by_handle(t);
    if (!f || f->detached || f->joined) return EINVAL;
    if (f == cur) return EDEADLK;
    join_fiber(*f);
    if (ret) *ret = f->ret;
    return 0;
}
int pthread_detach(pthread_t t) noexcept
{
    if (!cur) return EINVAL;
    if (auto f = by_handle(t)) f->detached = true;
    return 0;
}
pthread_t pthread_self() noexcept { return pthread_t(cur ? cur->id + 1 : 1); }
int       pthread_setname_np(pthread_t, char const*) noexcept { return 0; }

// ---------------------------------------------------------------- locks
struct Lock {
    int  owner = -1;
    int  count = 0;
    int  readers = 0;
    int  rd_by[MAXF]{};
};
static std::map<void const*, Lock> locks;
static Lock&                       lock_of(void const* m)
{
    static u64 gen = ~0ull;
    if (gen != locks_gen) {
        locks.clear();
        gen = locks_gen;
    }
    return locks[m];
}
static void touch(void const* m, std::size_t n)
{
    if (in_arena(m)) check_mem(m, n, true);
}
static int lock_mutex(pthread_mutex_t* m, i64 deadline, bool try_only)
{
    Rt r;
    touch(m, sizeof *m);
    step();
    touch(m, sizeof *m);
    int   kind = m->__data.__kind & 3;
    Lock& l    = lock_of(m);
    if (l.owner == cur->id) {
        if (kind == PTHREAD_MUTEX_RECURSIVE_NP) {
            l.count++;
            return 0;
        }
        if (try_only) return EBUSY;
        if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    }
    if (l.owner == cur->id && deadline < 0)
        fail_s("self-deadlock", "a thread locks a non-recursive mutex that it already owns");
    while (l.owner != -1) {
        if (try_only) return EBUSY;
        probe("lock_contended");
        block(m, deadline, BLOCK);
        if (deadline >= 0 && mono >= deadline && l.owner != -1) return ETIMEDOUT;
        touch(m, sizeof *m);
    }
    l.owner = cur->id;
    l.count = 1;
    hb_acquire(m);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) noexcept
{
    __real_memset(m, 0, sizeof *m);
    if (a) {
        int k = 0;
        pthread_mutexattr_gettype(a, &k);
        m->__data.__kind = k;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return cur ? lock_mutex(m, -1, false) : 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return cur ? lock_mutex(m, -1, true) : 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* t) noexcept { return cur ? lock_mutex(m, abs_to_mono(CLOCK_REALTIME, t), false) : 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, timespec const* t) noexcept { return cur ? lock_mutex(m, abs_to_mono(c, t), false) : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (!cur) return 0;
    Rt r;
    touch(m, sizeof *m);
    Lock& l = lock_of(m);
    if (l.owner != cur->id) fail_s("bad-unlock", "a mutex is unlocked by a thread that does not own it");
    hb_release(m);
    if (--l.count == 0) {
        l.owner = -1;
        wake_all(m);
    }
    step();
    return 0;
}
int pthread_cond_init(pthread_cond_t*, pthread_condattr_t const*) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, i64 deadline)
{
    Rt r;
    touch(c, sizeof *c);
    if (fault(F_SPURIOUS)) {
        pthread_mutex_unlock(m);
        yield_now(true);
        return lock_mutex(m, -1, false);
    }
    Lock& l = lock_of(m);
    if (l.owner != cur->id) fail_s("bad-wait", "condition wait without owning the mutex");
    cur->signalled = false;
    hb_release(m);
    l.owner = -1;
    l.count = 0;
    wake_all(m);
    bool to = false;
    while (!cur->signalled) {
        block(c, deadline, BLOCK);
        if (deadline >= 0 && mono >= deadline && !cur->signalled) {
            to = true;
            break;
        }
    }
    lock_mutex(m, -1, false);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cur ? cond_wait(c, m, -1) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) { return cur ? cond_wait(c, m, abs_to_mono(CLOCK_REALTIME, t)) : 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* t) { return cur ? cond_wait(c, m, abs_to_mono(k, t)) : 0; }
static void cond_wake(pthread_cond_t* c, int n)
{
    if (!cur) return;
    Rt r;
    touch(c, sizeof *c);
    step();
    for (int d = 1; d <= nf && n; d++) {
        Fiber& f = fibers[(cur->id + d) % nf];
        if (f.st == BLOCK && f.obj == c && !f.signalled) {
            f.signalled = true;
            f.st        = RUN;
            f.wake      = -1;
            n--;
        }
    }
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    cond_wake(c, 1);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    cond_wake(c, MAXF);
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t*, pthread_rwlockattr_t const*) noexcept { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
static int rw_lock(pthread_rwlock_t* m, bool wr, bool try_only)
{
    Rt r;
    touch(m, sizeof *m);
    step();
    Lock& l = lock_of(m);
    while (l.owner != -1 || (wr && l.readers > 0)) {
        if (try_only) return EBUSY;
        block(m, -1, BLOCK);
    }
    if (wr) l.owner = cur->id;
    else {
        l.readers++;
        l.rd_by[cur->id]++;
    }
    hb_acquire(m);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return cur ? rw_lock(m, false, false) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return cur ? rw_lock(m, true, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return cur ? rw_lock(m, false, true) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return cur ? rw_lock(m, true, true) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    if (!cur) return 0;
    Rt    r;
    Lock& l = lock_of(m);
    hb_release(m);
    if (l.owner == cur->id) l.owner = -1;
    else if (l.rd_by[cur->id] > 0) {
        l.rd_by[cur->id]--;
        l.readers--;
    } else
        fail_s("bad-unlock", "a shared mutex is unlocked by a thread that does not hold it");
    wake_all(m);
    step();
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (*o == 2) return 0;
    while (*o == 1) yield_now(true);
    if (*o == 2) return 0;
    *o = 1;
    fn();
    *o = 2;
    return 0;
}

// Destructors of function-local statics and thread-locals that a run initialises: dropped, like those objects, at its end.
int __cxa_atexit(void (*fn)(void*), void* arg, void* dso)
{
    static auto real = reinterpret_cast<int (*)(void (*)(void*), void*, void*)>(dlsym(RTLD_NEXT, "__cxa_atexit"));
    return active ? 0 : real ? real(fn, arg, dso) : 0;
}
int __cxa_thread_atexit(void (*)(void*), void*, void*) noexcept { return 0; }

// ---------------------------------------------------------------- futex
long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && cur) {
        Rt   r;
        int  op = int(b) & 127 & ~FUTEX_PRIVATE_FLAG & ~FUTEX_CLOCK_REALTIME;
        auto ad = reinterpret_cast<int*>(a);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*ad != int(c)) {
                errno = cur->err = EAGAIN;
                return -1;
            }
            i64 dl = -1;
            if (d) {
                auto ts = reinterpret_cast<timespec const*>(d);
                dl      = op == FUTEX_WAIT ? mono + ts_ns(ts) : abs_to_mono((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            if (fault(F_SPURIOUS)) {
                yield_now(true);
                errno = cur->err = EINTR;
                return -1;
            }
            block(ad, dl, BLOCK);
            if (dl >= 0 && mono >= dl && cur->timed_out) {
                errno = cur->err = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            long k = 0;
            for (int i = 1; i <= nf && k < c; i++) {
                Fiber& w = fibers[(cur->id + i) % nf];
                if (w.st == BLOCK && w.obj == ad) {
                    w.st   = RUN;
                    w.wake = -1;
                    k++;
                }
            }
            step();
            return k;
        }
    }
    long ret = raw_syscall(n, a, b, c, d, e, f);
    if (ret < 0) {
        errno = int(-ret);
        return -1;
    }
    return ret;
}
}    // extern "C"

// ---------------------------------------------------------------- allocation
static void* do_new(std::size_t n, std::size_t al, bool nothrow)
{
    if (PLAIN) {
        if (fault(F_ENOMEM)) {
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        step();
        return arena_alloc(n, al);
    }
    if (detsim_booting) {
        if (void* p = boot_alloc(n, al)) return p;
    }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void do_delete(void* p) noexcept
{
    if (!p) return;
    if (in_arena(p)) {
        if (active && cur) {
            if (PLAIN) step();
            arena_free(p);
        } else if (detsim_booting)
            boot_free(p);
        return;
    }
    free(p);
}
void* operator new(std::size_t n) { return do_new(n, 16, false); }
void* operator new[](std::size_t n) { return do_new(n, 16, false); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return do_new(n, 16, true); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return do_new(n, 16, true); }
void* operator new(std::size_t n, std::align_val_t a) { return do_new(n, std::size_t(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return do_new(n, std::size_t(a), false); }
void  operator delete(void* p) noexcept { do_delete(p); }
void  operator delete[](void* p) noexcept { do_delete(p); }
void  operator delete(void* p, std::size_t) noexcept { do_delete(p); }
void  operator delete[](void* p, std::size_t) noexcept { do_delete(p); }
void  operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void  operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void  operator delete(void* p, std::size_t, std::align_val_t) noexcept { do_delete(p); }
void  operator delete[](void* p, std::size_t, std::align_val_t) noexcept { do_delete(p); }

int main(int argc, char** argv)
{
    __libc_single_threaded = 0;
    // Fixed addresses for stacks and globals: nothing may depend on where the loader put things.
    if (!getenv("DETSIM_NOASLR")) {
        setenv("DETSIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (!map_arena()) {
        std::fprintf(stderr, "cannot map the simulated heap\n");
        return 2;
    }
    static char      alt[65536];
    stack_t          ss{};
    ss.ss_sp   = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    save_statics();
    find_statics();
    signal(SIGPIPE, SIG_IGN);
    Args a;
    for (int i = 2; i + 1 < argc; i += 2) a.m[std::string(argv[i]).substr(2)] = argv[i + 1];
    std::string        l = a.get("known");
    std::istringstream is(l);
    for (std::string k; std::getline(is, k, ',');)
        if (!k.empty()) listed.insert(k);
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "explore") return explore(a);
    if (cmd == "replay") return replay_cmd(a);
    if (cmd == "shrink") return shrink_cmd(a);
    if (cmd == "list") return list_cmd();
    std::fprintf(stderr, "usage: explore|replay|shrink|list --key value ...\n");
    return 2;
}
