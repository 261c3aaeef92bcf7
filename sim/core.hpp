// Deterministic simulator core: seeded programs, cooperative tasks (fibers), fault injection,
// lifetime registry, policy seam, rejection = abandoned task, replay and minimisation support.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace sim
{
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

inline u64 mix64(u64 z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng
{
    u64 s;
    explicit Rng(u64 seed)
      : s(mix64(seed))
    {
    }
    u64 next()
    {
        s += 0x9e3779b97f4a7c15ULL;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u32 below(u32 n) { return n == 0 ? 0 : static_cast<u32>((next() >> 16) % n); }
    bool chance(u32 num, u32 den) { return below(den) < num; }
};

// ---------------------------------------------------------------- programs
enum FaultKind : u8
{
    F_NONE = 0,
    F_THROW = 1,      // the fault_at-th throwing-capable element callback of the op throws
    F_KILL = 2,       // the task is killed (its stack abandoned) at the fault_at-th callback of a
                      // non-mutating op
    F_SRC_END = 3,    // the single-pass source ends after fault_at elements
    F_SRC_THROW = 4,  // the single-pass source fails (throws) after fault_at elements
    F_MAX
};

struct Op
{
    u8 task = 0;
    u8 kind = 0;
    u8 slot = 0;
    u8 slot2 = 0;
    u32 a = 0, b = 0, c = 0;
    u8 fault = 0;
    u16 fault_at = 0;
    u16 yield_at = 0;  // 0: never
    u8 yield_len = 0;
};

enum OpFlags : u32
{
    OF_S1_R = 1,         // footprint on slot
    OF_S1_W = 2,         //
    OF_S2_R = 4,         // footprint on slot2
    OF_S2_W = 8,         //
    OF_THROW = 16,       // a throw fault may be injected (the operation is not noexcept)
    OF_COPY = 32,        // group: copy / move / assign / compare
    OF_SRC = 64,         // group: consumes a single-pass source
    OF_RELOC = 128,      // group: memory-image relocation
    OF_REJ = 256,        // group: meant to provoke a rejection
    OF_GROW = 512,       // adds elements (used for swarm weighting)
    OF_SHRINK = 1024,    // removes elements
    OF_ALIAS = 2048,     // passes an argument that aliases an element of the container
    OF_HANDLE = 4096,    // takes a handle (iterator/reference) for stability checking
    OF_VIEW = 8192,      // reads through a raw view of the image
    OF_STREAM = 16384,
};

struct OpInfo
{
    const char* name;
    u32 weight;
    u32 flags;
};

enum Strip : u32
{
    ST_YIELD = 1,
    ST_THROW = 2,
    ST_KILL = 4,
    ST_RELOC = 8,
    ST_REJECT = 16,
    ST_COPY = 32,
    ST_SRC = 64,
    ST_ALLOC = 128,
    ST_SRCFAULT = 256,
    ST_GARBAGE = 512,
    ST_VIEW = 1024,
    ST_OTHER = 2048,  // operations on other instances than the one named by keep_slot
};

// Run configuration (knobs); everything in it comes from the seed and is written to the replay file
struct Knobs
{
    u32 scenario = 0;
    u32 tasks = 1;
    u32 key_range = 16;
    u32 hash_mode = 0;
    u32 garbage = 0;
    u32 alloc_fail = 0;
    u32 faults_on = 0;
    u32 cmp_mode = 0;
    u32 extra = 0;
};

struct Program
{
    Knobs k;
    std::vector<Op> ops;
};

// ---------------------------------------------------------------- rejections
enum Rej : u8
{
    R_NONE = 0,
    R_RANGE = 1,    // out_of_range
    R_LENGTH = 2,   // length_error
    R_EMPTY = 3,    // empty_container_access
    R_ARG = 4,      // invalid_argument
    R_ABORT = 5,    // std::abort from an internal assertion
    R_MISSING = 6,  // missing_enum_entries
    R_DUP = 7,      // duplicate_enum_entries
};
inline const char* rej_name(int r)
{
    static const char* n[] = {
        "none", "out_of_range", "length_error", "empty_container_access", "invalid_argument", "abort",
        "missing_enum_entries", "duplicate_enum_entries"};
    return n[r];
}

struct SimThrow
{
    int code;
};

static constexpr int NSLOTS = 3;
static constexpr int NTASKS = 4;
static constexpr std::size_t BLOCK = 1u << 17;      // arena block per slot (two per slot)
static constexpr std::size_t STACK = 512u * 1024u;  // fiber stack
static constexpr std::size_t GUARD = 256;           // canary bytes around a container

struct Driver
{
    virtual ~Driver() = default;
    virtual void start() = 0;              // runs in a fiber
    virtual void exec(const Op&) = 0;      // runs in a fiber
    virtual void after_abandon(const Op&, int reason) = 0;  // runs in a fiber
    virtual void finish() = 0;             // runs in a fiber
    virtual std::pair<const char*, std::size_t> bytes(int) { return {nullptr, 0}; }  // of the object in a slot, if any
};

extern bool watch_on;  // C15: what const operations write
u64 hash_bytes(const char* p, std::size_t n);

struct Scenario
{
    const char* name;
    const char* family;
    const OpInfo* ops;
    u32 nops;
    u32 cap;
    Driver* (*make)(const Knobs&);
    u32 unsup_flags;  // OpInfo flags not supported by this scenario (ops get skipped)
};
std::vector<Scenario>& scenarios();
struct RegisterScenario
{
    explicit RegisterScenario(Scenario s) { scenarios().push_back(s); }
};

// ---------------------------------------------------------------- counters / probes
int counter_id(const char* name);
void count_add(int id, u64 n = 1);
#define SIM_COUNT(name)                                       \
    do                                                        \
    {                                                         \
        static const int sim_cid_ = ::sim::counter_id(name);  \
        ::sim::count_add(sim_cid_);                           \
    } while (0)
void cover(u64 h);  // distinct abstract states

// ---------------------------------------------------------------- runtime
enum AbandonReason : int
{
    A_NONE = 0,
    A_REJECT = 1,
    A_KILL = 2,
    A_FAIL = 3,
};

enum class Ev : u8
{
    Copy,
    CopyAssign,
    Move,
    MoveAssign,
    Destroy,
    Default,
    Value,
    Compare,
    Equal,
    Hash,
    Pred,
    SrcRead,
    MAX
};

struct OpCtx
{
    Op op{};
    const OpInfo* info = nullptr;
    u32 events = 0;        // interruptible callbacks so far
    u32 throwables = 0;    // throwing-capable callbacks so far
    u32 evc[static_cast<int>(Ev::MAX)] = {};
    u8 expect = R_NONE;
    bool in_lib = false;
    bool threw = false;
    bool throwing = false;  // an injected exception is (or was) in flight
    bool throw_allowed = false;
    u64 expect_arg_min = 0;  // lower and upper bound for a reported target size
    u64 expect_arg_max = ~0ULL;
    u64 expect_size = 0;  // the size to be reported with an offending index or key
    bool expect_size_on = false;
    bool expect_key = false;
    u64 expect_idx = 0;
    bool expect_idx_on = false;
    // arguments given as rvalues that a rejected operation must not have consumed
    const void* arg[2] = {};
    int arg_v[2] = {};
    int arg_p[2] = {};
    bool (*arg_same[2])(const void*, int, int) = {};
    int got_rej = 0;
    bool unwound = false;  // the rejection left the operation as an exception
};

struct Violation
{
    bool set = false;
    char cls[40] = {};
    char msg[512] = {};
    u32 op_index = 0;
    u32 op_flags = 0;
    bool after_reject = false;
    bool after_throw = false;
};

struct World
{
    Knobs k;
    u32 strip = 0;
    OpCtx* cur = nullptr;     // context of the running op (nullptr in scheduler)
    Violation v;
    u64 trace = 0;
    u64 steps = 0;
    u32 preempts = 0, faults_fired = 0, rejects = 0, ops_done = 0;
    bool verbose = false;
    bool quiet_callbacks = false;  // harness comparisons: no events
    bool abort_policy = false;     // the scenario uses the library's default checking: rejection = abort
};
extern World W;
extern bool probe_known;  // also run what a known finding says fails (known/*.replay)

[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void on_rejection(int rej, u64 arg, u64 arg2, bool have_arg);
// What was given as an rvalue, or only changes its place, is moved: `max` copies at most in this operation
void copies_at_most(u32 max, const char* what);
inline void tr(u64 x) { W.trace = mix64(W.trace ^ x); }
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// element callback seam
void on_event(Ev e, bool may_throw);
void count_event(Ev e);  // not interruptible

// crash/restart: the bytes may come from another process
void carry_image(void* bytes, std::size_t n);

// arena
char* block_base(int slot, int half);
void fill_garbage(void* p, std::size_t n);

// lifetime registry (tracked element types)
void reg_construct(const void* p, std::size_t sz);
void reg_destroy(const void* p);
bool reg_alive(const void* p);
void reg_use(const void* p, const char* what);
u32 reg_block_count(int slot, int half);  // live tracked elements inside an arena block
bool slot_busy(int slot);                  // another task is inside a mutating operation on it
void reg_drop_range(const void* lo, const void* hi);

struct SimReject  // a checking policy that throws
{
};
inline bool policy_throws() { return !W.abort_policy && (W.k.extra / 15) % 2 == 1; }
[[noreturn]] void rejected_out();

// runs f as library code; returns true if it completed, false if the injected fault propagated out
template <class F>
bool lib(F&& f)
{
    OpCtx* c = W.cur;
    c->in_lib = true;
    c->threw = false;
    bool rejected = false;
    try
    {
        f();
    }
    catch (const SimThrow&)
    {
        W.cur->threw = true;
    }
    catch (const SimReject&)
    {
        rejected = true;
    }
    c = W.cur;
    c->in_lib = false;
    if (rejected)
    {
        rejected_out();
    }
    if (c->threw)
    {
        tr(0x7777);
        return false;
    }
    if (c->expect != R_NONE)
    {
        fail("reject-missing",
             "operation %s was expected to be rejected with %s but returned normally",
             c->info->name,
             rej_name(c->expect));
    }
    return true;
}
inline void expect(Rej r)
{
    W.cur->expect = W.abort_policy ? R_ABORT : r;
    W.cur->expect_arg_min = 0;
    W.cur->expect_arg_max = ~0ULL;
    W.cur->expect_idx_on = false;
    W.cur->expect_size_on = false;
}
inline void expect_length(u64 min_target, u64 max_target)
{
    expect(R_LENGTH);
    W.cur->expect_arg_min = min_target;
    W.cur->expect_arg_max = max_target;
}
inline void expect_length(u64 target) { expect_length(target, target); }
inline void expect_range(u64 idx, u64 size)
{
    expect(R_RANGE);
    W.cur->expect_idx = idx;
    W.cur->expect_idx_on = true;
    W.cur->expect_size = size;
    W.cur->expect_size_on = true;
}
inline bool rejects_stripped() { return (W.strip & ST_REJECT) != 0; }

struct NoEvents  // harness-side element operations raise no events
{
    bool prev;
    NoEvents()
      : prev(W.quiet_callbacks)
    {
        W.quiet_callbacks = true;
    }
    ~NoEvents() { W.quiet_callbacks = prev; }
};
}  // namespace sim
