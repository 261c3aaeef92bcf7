#include "core.hpp"

#include <cstdarg>
#include <cxxabi.h>
#include <elf.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace sim
{
World W;
bool probe_known = false;

std::vector<Scenario>& scenarios()
{
    static std::vector<Scenario> s;
    return s;
}

// ------------------------------------------------------------------ shared result memory
static constexpr int MAXC = 384;
static constexpr u32 COVER = 1u << 17;
static constexpr u32 MAXTRACE = 1u << 21;

struct Shm
{
    u64 cur_run;
    u64 first_run;
    u64 in_run;
    u64 runs, ops, steps, preempts, faults, rejects, nontrivial, faultfree, out_of_class;
    u64 counters[MAXC];
    u64 cover[COVER];
    u64 cover_n;
    u64 ntrace;
    u64 traces[MAXTRACE / 8];
    // violation found by this worker (lowest index first)
    u64 v_set;
    u64 v_run;
    u64 v_trace;
    Violation v;
    u64 ask;  // the verdict on run cur_run needs a process in which nothing ran before
    char ooc_sample[256];
    // child-mode result
    u64 done;
    u64 trace;
    u64 crashed;
};
static Shm* S = nullptr;
struct Global
{
    volatile u64 min_viol;  // lowest violating run index over all workers
    volatile u64 asked;
};
static Global* G = nullptr;

static std::vector<std::string>& counter_names()
{
    static std::vector<std::string> n;
    return n;
}
struct Outside  // harness bookkeeping that runs while library code is on the stack
{
    OpCtx* c;
    bool il;
    Outside()
      : c(W.cur)
      , il(c != nullptr && c->in_lib)
    {
        if (c != nullptr)
        {
            c->in_lib = false;
        }
    }
    ~Outside()
    {
        if (c != nullptr)
        {
            c->in_lib = il;
        }
    }
};
int counter_id(const char* name)
{
    Outside outside;
    auto& n = counter_names();
    for (std::size_t i = 0; i < n.size(); ++i)
    {
        if (n[i] == name)
        {
            return static_cast<int>(i);
        }
    }
    n.push_back(name);
    return static_cast<int>(n.size()) - 1;
}
// Counter ids may be assigned in a different order in different workers, so counters are shipped by
// name hash: a fixed open-addressing table in shared memory.
struct CEnt
{
    char name[56];
    u64 n;
};
static CEnt* CT = nullptr;  // points into shared memory, MAXC entries
static int ct_slot(const char* name)
{
    u64 h = 1469598103934665603ULL;
    for (const char* p = name; *p != 0; ++p)
    {
        h = (h ^ static_cast<u8>(*p)) * 1099511628211ULL;
    }
    for (int i = 0; i < MAXC; ++i)
    {
        const int s = static_cast<int>((h + static_cast<u64>(i)) % MAXC);
        if (CT[s].name[0] == 0)
        {
            strncpy(CT[s].name, name, sizeof(CT[s].name) - 1);
            return s;
        }
        if (strncmp(CT[s].name, name, sizeof(CT[s].name) - 1) == 0)
        {
            return s;
        }
    }
    return 0;
}
static std::vector<int> cslot;
void count_add(int id, u64 n)
{
    if (CT == nullptr)
    {
        return;
    }
    if (static_cast<std::size_t>(id) >= cslot.size())
    {
        Outside outside;
        cslot.resize(static_cast<std::size_t>(id) + 1, -1);
    }
    int& s = cslot[static_cast<std::size_t>(id)];
    if (s < 0)
    {
        s = ct_slot(counter_names()[static_cast<std::size_t>(id)].c_str());
    }
    CT[s].n += n;
}
void cover(u64 h)
{
    if (S == nullptr)
    {
        return;
    }
    h |= 1;
    for (u32 i = 0; i < 32; ++i)
    {
        u64& e = S->cover[(h + i * 0x9e37u) % COVER];
        if (e == h)
        {
            return;
        }
        if (e == 0)
        {
            e = h;
            S->cover_n++;
            return;
        }
    }
}

// ------------------------------------------------------------------ registry
static constexpr u32 RT = 1u << 14;
struct REnt
{
    const void* p;
};
static REnt rtab[RT];
static u32 rcount = 0;
static char* const ARENA = reinterpret_cast<char*>(0x210000000000ULL);
static char* const STACKS = reinterpret_cast<char*>(0x230000000000ULL);
static u32 blkcnt[NSLOTS * 2];
static void blk_add(const void* p, int d)
{
    const u64 off = reinterpret_cast<u64>(p) - reinterpret_cast<u64>(ARENA);
    if (off < BLOCK * NSLOTS * 2)
    {
        blkcnt[off / BLOCK] += static_cast<u32>(d);
    }
}
static u32 rhash(const void* p)
{
    return static_cast<u32>(mix64(reinterpret_cast<u64>(p)) & (RT - 1));
}
static REnt* rfind(const void* p)
{
    u32 i = rhash(p);
    while (rtab[i].p != nullptr)
    {
        if (rtab[i].p == p)
        {
            return &rtab[i];
        }
        i = (i + 1) & (RT - 1);
    }
    return nullptr;
}
static void rerase(REnt* e)
{
    blk_add(e->p, -1);
    u32 i = static_cast<u32>(e - rtab);
    u32 j = i;
    for (;;)
    {
        rtab[i].p = nullptr;
        for (;;)
        {
            j = (j + 1) & (RT - 1);
            if (rtab[j].p == nullptr)
            {
                rcount--;
                return;
            }
            const u32 k = rhash(rtab[j].p);
            const bool between = (i <= j) ? (i < k && k <= j) : (i < k || k <= j);
            if (!between)
            {
                break;
            }
        }
        rtab[i] = rtab[j];
        i = j;
    }
}
static void rclear()
{
    if (rcount != 0)
    {
        memset(rtab, 0, sizeof rtab);
    }
    rcount = 0;
    memset(blkcnt, 0, sizeof blkcnt);
}
void reg_construct(const void* p, std::size_t)
{
    if (rfind(p) != nullptr)
    {
        fail("lifetime", "an element was constructed on top of a live element");
    }
    if (rcount > RT / 2)
    {
        fail("lifetime", "too many live elements (leak)");
    }
    u32 i = rhash(p);
    while (rtab[i].p != nullptr)
    {
        i = (i + 1) & (RT - 1);
    }
    rtab[i].p = p;
    rcount++;
    blk_add(p, 1);
}
void reg_destroy(const void* p)
{
    REnt* e = rfind(p);
    if (e == nullptr)
    {
        fail("lifetime", "an element was destroyed that is not alive (double destroy or never constructed)");
    }
    rerase(e);
}
bool reg_alive(const void* p) { return rfind(p) != nullptr; }
void reg_use(const void* p, const char* what)
{
    if (rfind(p) == nullptr)
    {
        fail("lifetime", "%s an object that is not alive", what);
    }
}
u32 reg_block_count(int slot, int half) { return blkcnt[slot * 2 + half]; }
void reg_drop_range(const void* lo, const void* hi)
{
    if (rcount == 0)
    {
        return;
    }
    static const void* drop[RT];
    u32 n = 0;
    for (u32 i = 0; i < RT; ++i)
    {
        if (rtab[i].p != nullptr && rtab[i].p >= lo && rtab[i].p < hi)
        {
            drop[n++] = rtab[i].p;
        }
    }
    for (u32 i = 0; i < n; ++i)
    {
        rerase(rfind(drop[i]));
    }
}

// ------------------------------------------------------------------ arena
char* block_base(int slot, int half) { return ARENA + (slot * 2 + half) * BLOCK; }
void fill_garbage(void* p, std::size_t n)
{
    static const u8 pat[] = {0x00, 0xFF, 0xA5, 0x01};
    const u32 g = (W.strip & ST_GARBAGE) != 0 ? 0 : W.k.garbage;
    if (g < 4)
    {
        memset(p, pat[g], n);
    }
    else
    {
        u64 x = mix64(g * 977u + n);
        u8* q = static_cast<u8*>(p);
        for (std::size_t i = 0; i < n; ++i)
        {
            if ((i & 7) == 0)
            {
                x = mix64(x);
            }
            q[i] = static_cast<u8>(x >> ((i & 7) * 8));
        }
    }
}

// ------------------------------------------------------------------ fibers
enum FState : u8
{
    FS_IDLE,
    FS_RUNNING,
    FS_SUSPENDED,
};
enum Job : u8
{
    J_EXEC,
    J_START,
    J_FINISH,
    J_AFTER
};
struct Fiber
{
    ucontext_t ctx;
    char* stack = nullptr;
    FState st = FS_IDLE;
    Job job = J_EXEC;
    OpCtx oc;
    int reason = 0;      // abandon reason
    int after_reason = 0;
    u32 resume_in = 0;
    u64 seq = 0;
    u32 op_index = 0;
    bool completed = false;
};
static constexpr int SERVICE = NTASKS;
static Fiber fibers[NTASKS + 1];
static ucontext_t sched_ctx;
static Fiber* curf = nullptr;
static Driver* drv = nullptr;
static u32 cur_op_index = 0;
static volatile u64 run_ticker = 0;

static void fiber_main()
{
    Fiber* f = curf;
    switch (f->job)
    {
    case J_EXEC: drv->exec(f->oc.op); break;
    case J_START: drv->start(); break;
    case J_FINISH: drv->finish(); break;
    case J_AFTER: drv->after_abandon(f->oc.op, f->after_reason); break;
    }
    f = curf;
    f->completed = true;
    swapcontext(&f->ctx, &sched_ctx);
    __builtin_unreachable();
}
[[noreturn]] static void abandon(int reason)
{
    Fiber* f = curf;
    f->reason = reason;
    swapcontext(&f->ctx, &sched_ctx);
    __builtin_unreachable();
}
static void switch_to(Fiber* f)
{
    curf = f;
    W.cur = &f->oc;
    f->st = FS_RUNNING;
    swapcontext(&sched_ctx, &f->ctx);
    W.cur = nullptr;
    curf = nullptr;
}
static void launch(Fiber* f, Job j)
{
    f->job = j;
    f->completed = false;
    f->reason = A_NONE;
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = STACK;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, fiber_main, 0);
    switch_to(f);
}

void logf(const char* fmt, ...)
{
    if (!W.verbose)
    {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    vprintf(fmt, ap);
    va_end(ap);
    printf("\n");
    fflush(stdout);
}

static void set_viol(const char* cls, const char* msg)
{
    if (W.v.set)
    {
        return;
    }
    W.v.set = true;
    strncpy(W.v.cls, cls, sizeof(W.v.cls) - 1);
    strncpy(W.v.msg, msg, sizeof(W.v.msg) - 1);
    W.v.op_index = curf != nullptr ? curf->op_index : cur_op_index;
    W.v.op_flags = (curf != nullptr && curf->oc.info != nullptr) ? curf->oc.info->flags : 0;
    if (curf != nullptr)
    {
        W.v.after_reject = curf->oc.got_rej != 0 || curf->after_reason == A_REJECT;
        W.v.after_throw = curf->oc.threw;
    }
    for (const char* p = cls; *p != 0; ++p)
    {
        tr(static_cast<u64>(*p));
    }
}

void copies_at_most(u32 max, const char* what)
{
    const u32 n = W.cur->evc[static_cast<int>(Ev::Copy)] + W.cur->evc[static_cast<int>(Ev::CopyAssign)];
    if (n > max)
    {
        fail("rvalue", "%s copied elements %u times (%u allowed), the others are moved", what, n, max);
    }
    SIM_COUNT("probe.copies_bounded");
}

[[noreturn]] void fail(const char* cls, const char* fmt, ...)
{
    OpCtx* c = W.cur;
    if (c != nullptr)
    {
        c->in_lib = false;
    }
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    set_viol(cls, buf);
    if (curf == nullptr)
    {
        fprintf(stderr, "internal: fail() outside a task: %s %s\n", cls, buf);
        _exit(3);
    }
    abandon(A_FAIL);
}

[[noreturn]] void on_rejection(int rej, u64 arg, u64 arg2, bool have_arg)
{
    OpCtx* c = W.cur;
    if (c == nullptr || curf == nullptr)
    {
        fprintf(stderr, "internal: rejection outside a task\n");
        _exit(3);
    }
    c->in_lib = false;
    if (c->expect == R_NONE)
    {
        fail("spurious-reject",
             "operation %s was rejected (%s, %llu) although its preconditions hold",
             c->info != nullptr ? c->info->name : "?",
             rej_name(rej),
             static_cast<unsigned long long>(arg));
    }
    if (c->expect != rej)
    {
        fail("wrong-reject",
             "operation %s was rejected with %s, expected %s",
             c->info->name,
             rej_name(rej),
             rej_name(c->expect));
    }
    if (have_arg && rej == R_LENGTH && (arg < c->expect_arg_min || arg > c->expect_arg_max))
    {
        fail("wrong-reject",
             "operation %s reported target size %llu, expected %llu",
             c->info->name,
             static_cast<unsigned long long>(arg),
             static_cast<unsigned long long>(c->expect_arg_min));
    }
    if (have_arg && rej == R_RANGE && c->expect_idx_on && arg != c->expect_idx)
    {
        fail("wrong-reject",
             "operation %s reported offending index/key %llu, expected %llu",
             c->info->name,
             static_cast<unsigned long long>(arg),
             static_cast<unsigned long long>(c->expect_idx));
    }
    if (have_arg && rej == R_RANGE && c->expect_size_on && arg2 != c->expect_size)
    {
        fail("wrong-reject",
             "operation %s reported container size %llu, expected %llu",
             c->info->name,
             static_cast<unsigned long long>(arg2),
             static_cast<unsigned long long>(c->expect_size));
    }
    for (int i = 0; i < 2; ++i)
    {
        if (c->arg[i] != nullptr && !c->arg_same[i](c->arg[i], c->arg_v[i], c->arg_p[i]))
        {
            fail("reject-effect", "operation %s consumed its argument before it was rejected", c->info->name);
        }
    }
    c->got_rej = rej;
    W.rejects++;
    switch (rej)
    {
    case R_RANGE: SIM_COUNT("fault.reject_out_of_range"); break;
    case R_LENGTH: SIM_COUNT("fault.reject_length_error"); break;
    case R_EMPTY: SIM_COUNT("fault.reject_empty_access"); break;
    case R_ARG: SIM_COUNT("fault.reject_invalid_argument"); break;
    case R_MISSING: SIM_COUNT("fault.reject_missing_enum_entries"); break;
    case R_DUP: SIM_COUNT("fault.reject_duplicate_enum_entries"); break;
    default: SIM_COUNT("fault.reject_abort"); break;
    }
    tr(0x5EEDu + static_cast<u64>(rej));
    // a checking policy ends the caller (abort, exit) or throws out of the operation
    if (rej != R_ABORT && policy_throws())
    {
        SIM_COUNT("fault.reject_by_exception");
        c->in_lib = false;
        throw SimReject{};
    }
    abandon(A_REJECT);
}
[[noreturn]] void rejected_out()
{
    W.cur->unwound = true;
    SIM_COUNT("fault.reject_unwound");
    abandon(A_REJECT);
}

void count_event(Ev e)
{
    OpCtx* c = W.cur;
    if (W.quiet_callbacks || c == nullptr || !c->in_lib)
    {
        return;
    }
    c->evc[static_cast<int>(e)]++;
}

// ---- work inside the library, for units compiled with -fsanitize-coverage=trace-pc
u64 work_done = 0;
u64 work_limit = 0;
bool work_on = false;
const char* work_what = "";
static void work_add(u64 n)
{
    work_done += n;
    if (work_done > work_limit)
    {
        work_on = false;
        fail("progress", "%s takes more than %lu steps", work_what, static_cast<unsigned long>(work_limit));
    }
}
extern "C" void __sanitizer_cov_trace_pc()
{
    if (work_on)
    {
        work_add(1);
    }
}
extern "C"
{
void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
void* __wrap_memcpy(void* d, const void* s, std::size_t n)
{
    if (work_on)
    {
        work_add(n / 4);
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, std::size_t n)
{
    if (work_on)
    {
        work_add(n / 4);
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, std::size_t n)
{
    if (work_on)
    {
        work_add(n / 4);
    }
    return __real_memset(d, c, n);
}
}

void on_event(Ev e, bool may_throw)
{
    OpCtx* c = W.cur;
    if (W.quiet_callbacks || c == nullptr || !c->in_lib)
    {
        return;
    }
    W.steps++;
    c->evc[static_cast<int>(e)]++;
    c->events++;
    tr(static_cast<u64>(e) + 17);
    if (c->events > 3000000)
    {
        fail("hang", "operation %s exceeded the step budget", c->info->name);
    }
    if (c->op.yield_at != 0 && c->events == c->op.yield_at && (W.strip & ST_YIELD) == 0 &&
        curf != nullptr && curf != &fibers[SERVICE])
    {
        Fiber* f = curf;
        c->in_lib = false;
        f->st = FS_SUSPENDED;
        f->resume_in = f->oc.op.yield_len;
        W.preempts++;
        SIM_COUNT("fault.preempt_inside_operation");
        swapcontext(&f->ctx, &sched_ctx);
        c = W.cur;
        c->in_lib = true;
        tr(0xABCD);
    }
    if (c->op.fault == F_KILL && c->events == c->op.fault_at && (W.strip & ST_KILL) == 0)
    {
        W.faults_fired++;
        SIM_COUNT("fault.task_kill_in_const_op");
        c->in_lib = false;
        tr(0xDEAD);
        abandon(A_KILL);
    }
    if (may_throw && c->throw_allowed)
    {
        c->throwables++;
        if (c->op.fault == F_THROW && c->throwables == c->op.fault_at && (W.strip & ST_THROW) == 0)
        {
            W.faults_fired++;
            switch (e)
            {
            case Ev::Copy: SIM_COUNT("fault.throw_copy_ctor"); break;
            case Ev::CopyAssign: SIM_COUNT("fault.throw_copy_assign"); break;
            case Ev::Default: SIM_COUNT("fault.throw_default_ctor"); break;
            case Ev::Value: SIM_COUNT("fault.throw_value_ctor"); break;
            case Ev::Compare:
            case Ev::Equal: SIM_COUNT("fault.throw_compare"); break;
            case Ev::Pred: SIM_COUNT("fault.throw_predicate"); break;
            default: SIM_COUNT("fault.throw_other"); break;
            }
            tr(0x7407);
            c->throwing = true;
            throw SimThrow{1};
        }
    }
}

// ------------------------------------------------------------------ running one program
struct Lock
{
    int writer = -1;
    u32 readers = 0;  // bit mask of tasks
};
static Lock locks[NSLOTS];

static bool conflicts(int task, const Op& op, u32 fl)
{
    auto chk = [&](int slot, bool w)
    {
        const Lock& l = locks[slot];
        if (l.writer >= 0 && l.writer != task)
        {
            return true;
        }
        return w && (l.readers & ~(1u << task)) != 0;
    };
    if ((fl & (OF_S1_R | OF_S1_W)) != 0 && chk(op.slot, (fl & OF_S1_W) != 0))
    {
        return true;
    }
    return (fl & (OF_S2_R | OF_S2_W)) != 0 && chk(op.slot2, (fl & OF_S2_W) != 0);
}
static void acquire(int task, const Op& op, u32 fl)
{
    auto acq = [&](int slot, bool w)
    {
        if (w)
        {
            locks[slot].writer = task;
        }
        else
        {
            locks[slot].readers |= 1u << task;
        }
    };
    if ((fl & (OF_S1_R | OF_S1_W)) != 0)
    {
        acq(op.slot, (fl & OF_S1_W) != 0);
    }
    if ((fl & (OF_S2_R | OF_S2_W)) != 0)
    {
        acq(op.slot2, (fl & OF_S2_W) != 0);
    }
}
static void release(int task)
{
    for (auto& l : locks)
    {
        if (l.writer == task)
        {
            l.writer = -1;
        }
        l.readers &= ~(1u << task);
    }
}

bool slot_busy(int slot)
{
    if (locks[slot].writer < 0)
    {
        return false;
    }
    return curf == nullptr || curf == &fibers[SERVICE] || curf != &fibers[locks[slot].writer];
}

// ---- shared state: what a const operation, and what any operation outside its containers, writes
bool watch_on = false;
struct Watch
{
    const char* at = nullptr;
    std::size_t n = 0;
    u64 h = 0;
};
static Watch watch[NTASKS][2];
struct LibStatic
{
    char* at;
    std::size_t n;
    const char* guard;  // of a function-local static, which may be initialised (once, by the thread-safe guard)
    std::string name;
    std::string was;
    char guard_was;
};
static std::vector<LibStatic> lib_statics;

u64 hash_bytes(const char* p, std::size_t n)
{
    u64 h = n;
    while (n >= 8)
    {
        u64 x;
        memcpy(&x, p, 8);
        h = (h ^ x) * 0x9E3779B97F4A7C15ULL;
        h ^= h >> 29;
        p += 8;
        n -= 8;
    }
    for (; n != 0; --n, ++p)
    {
        h = (h ^ static_cast<unsigned char>(*p)) * 0x9E3779B97F4A7C15ULL;
        h ^= h >> 29;
    }
    return h;
}
// the writable static objects of the library's own functions and classes, from the symbol table of this program
static void find_lib_statics()
{
    const int fd = open("/proc/self/exe", O_RDONLY);
    struct stat sb;
    if (fd < 0 || fstat(fd, &sb) != 0)
    {
        return;
    }
    const char* m = static_cast<const char*>(mmap(nullptr, static_cast<std::size_t>(sb.st_size), PROT_READ, MAP_PRIVATE, fd, 0));
    close(fd);
    if (m == MAP_FAILED)
    {
        return;
    }
    u64 bias = 0;
    dl_iterate_phdr(
        [](dl_phdr_info* i, std::size_t, void* out)
        {
            *static_cast<u64*>(out) = i->dlpi_addr;  // the first one is the program itself
            return 1;
        },
        &bias);
    const auto* eh = reinterpret_cast<const Elf64_Ehdr*>(m);
    const auto* sh = reinterpret_cast<const Elf64_Shdr*>(m + eh->e_shoff);
    const char* shn = m + sh[eh->e_shstrndx].sh_offset;
    std::map<std::string, char*> guards;
    for (u32 s = 0; s < eh->e_shnum; ++s)
    {
        if (sh[s].sh_type != SHT_SYMTAB)
        {
            continue;
        }
        const auto* sy = reinterpret_cast<const Elf64_Sym*>(m + sh[s].sh_offset);
        const char* names = m + sh[sh[s].sh_link].sh_offset;
        for (std::size_t i = 0; i < sh[s].sh_size / sizeof(Elf64_Sym); ++i)
        {
            const u32 sec = sy[i].st_shndx;
            if (ELF64_ST_TYPE(sy[i].st_info) != STT_OBJECT || sec == 0 || sec >= eh->e_shnum || sy[i].st_size == 0 ||
                (sh[sec].sh_flags & SHF_WRITE) == 0 || strncmp(shn + sh[sec].sh_name, ".data.rel.ro", 12) == 0)
            {
                continue;
            }
            const char* n = names + sy[i].st_name;
            char* at = reinterpret_cast<char*>(bias + sy[i].st_value);
            if (strncmp(n, "_ZGV", 4) == 0)
            {
                guards[n + 4] = at;
                continue;
            }
            const char* q = n;
            if (strncmp(q, "_Z", 2) != 0)
            {
                continue;
            }
            q += 2;
            q += *q == 'Z';
            if (*q != 'N')
            {
                continue;
            }
            ++q;
            q += *q == 'K';
            if (strncmp(q, "16fixed_containers", 18) != 0)
            {
                continue;
            }
            lib_statics.push_back(LibStatic{at, sy[i].st_size, nullptr, n, {}, 0});
        }
    }
    for (LibStatic& s : lib_statics)
    {
        const auto g = guards.find(s.name.substr(2));
        s.guard = g == guards.end() ? nullptr : g->second;
        int st = 0;
        char* d = abi::__cxa_demangle(s.name.c_str(), nullptr, nullptr, &st);
        if (d != nullptr)
        {
            s.name = d;
            free(d);
        }
    }
    munmap(const_cast<char*>(m), static_cast<std::size_t>(sb.st_size));
}
static void watch_statics()
{
    for (LibStatic& s : lib_statics)
    {
        s.was.assign(s.at, s.n);
        s.guard_was = s.guard != nullptr ? *s.guard : 0;
    }
}
static void watch_start(int task, const Op& op, u32 fl)
{
    if (!watch_on)
    {
        return;
    }
    for (int i = 0; i < 2; ++i)
    {
        Watch& w = watch[task][i];
        w = Watch{};
        const u32 r = i == 0 ? OF_S1_R : OF_S2_R;
        const u32 wr = i == 0 ? OF_S1_W : OF_S2_W;
        const bool both = op.slot == op.slot2 && (fl & (OF_S1_W | OF_S2_W)) != 0;
        if ((fl & r) == 0 || (fl & wr) != 0 || both)
        {
            continue;
        }
        const auto b = drv->bytes(i == 0 ? op.slot : op.slot2);
        w.at = b.first;
        w.n = b.second;
        w.h = w.at != nullptr ? hash_bytes(w.at, w.n) : 0;
    }
}
static void watch_check(int task)
{
    if (!watch_on)
    {
        return;
    }
    Fiber* f = &fibers[task];
    Fiber* was = curf;
    for (Watch& w : watch[task])
    {
        if (w.at != nullptr)
        {
            SIM_COUNT("probe.const_operation_wrote_nothing");
            if (hash_bytes(w.at, w.n) != w.h)
            {
                char b[256];
                snprintf(b, sizeof b, "the const operation %s writes to the container%s", f->oc.info->name,
                         f->st == FS_SUSPENDED ? " (seen when it was preempted)" : "");
                curf = f;
                set_viol("shared", b);
                curf = was;
                return;
            }
        }
    }
    for (LibStatic& s : lib_statics)
    {
        if (memcmp(s.at, s.was.data(), s.n) == 0)
        {
            continue;
        }
        if (s.guard != nullptr && s.guard_was != *s.guard)  // initialised just now
        {
            s.was.assign(s.at, s.n);
            s.guard_was = *s.guard;
            continue;
        }
        char b[256];
        snprintf(b, sizeof b, "the operation %s writes to an object shared by all instances: %.150s", f->oc.info->name,
                 s.name.c_str());
        curf = f;
        set_viol("shared", b);
        curf = was;
        return;
    }
}

// returns true if the run must stop
static bool settle(int task)
{
    Fiber* f = &fibers[task];
    if (W.v.set)
    {
        return true;
    }
    watch_check(task);
    if (W.v.set)
    {
        return true;
    }
    if (f->st == FS_SUSPENDED)
    {
        return false;
    }
    f->st = FS_IDLE;
    if (f->reason == A_FAIL)
    {
        return true;
    }
    if (f->completed)
    {
        W.ops_done++;
        tr(f->oc.op.kind * 131u + f->oc.threw);
        if (W.verbose)
        {
            logf("  [op %u] task %d %s%s completed", f->op_index, task,
                 f->oc.info != nullptr ? f->oc.info->name : "?", f->oc.threw ? " (threw)" : "");
        }
        release(task);
        return false;
    }
    // abandoned: rejected or killed. Its stack is gone: objects on it cease to exist.
    reg_drop_range(f->stack, f->stack + STACK);
    release(task);
    W.ops_done++;
    if (W.verbose)
    {
        logf("  [op %u] task %d %s %s", f->op_index, task, f->oc.info->name,
             f->reason == A_KILL ? "killed" : "rejected");
    }
    Fiber* s = &fibers[SERVICE];
    s->oc = OpCtx{};
    s->oc.op = f->oc.op;
    s->oc.info = f->oc.info;
    s->oc.unwound = f->oc.unwound;
    s->op_index = f->op_index;
    s->after_reason = f->reason;
    launch(s, J_AFTER);
    s->after_reason = 0;
    return W.v.set;
}

static bool resume_task(int t)
{
    switch_to(&fibers[t]);
    return settle(t);
}

static const Scenario* cur_sc = nullptr;

static void describe_op(const Scenario& sc, const Op& o, char* out, std::size_t n)
{
    snprintf(out,
             n,
             "task=%u %s slot=%u slot2=%u a=%u b=%u c=%u fault=%u@%u yield=%u+%u",
             o.task,
             o.kind < sc.nops ? sc.ops[o.kind].name : "?",
             o.slot,
             o.slot2,
             o.a,
             o.b,
             o.c,
             o.fault,
             o.fault_at,
             o.yield_at,
             o.yield_len);
}

static u32 keep_slot = 0;  // with ST_OTHER
static void run_program(const Program& prog, u32 strip, bool verbose)
{
    W = World{};
    W.k = prog.k;
    if (prog.k.faults_on == 0)
    {
        strip |= ST_REJECT | ST_THROW | ST_KILL | ST_RELOC | ST_SRCFAULT;
    }
    W.strip = strip;
    W.verbose = verbose;
    if ((strip & ST_ALLOC) != 0)
    {
        W.k.alloc_fail = 0;
    }
    rclear();
    memset(static_cast<void*>(abi::__cxa_get_globals()), 0, sizeof(void*) + sizeof(unsigned));
    for (auto& l : locks)
    {
        l = Lock{};
    }
    const Scenario& sc = scenarios()[prog.k.scenario];
    cur_sc = &sc;
    for (auto& f : fibers)
    {
        f.st = FS_IDLE;
        f.reason = 0;
        f.after_reason = 0;
        f.oc = OpCtx{};
        f.op_index = 0;
    }
    cur_op_index = 0;
    std::unique_ptr<Driver> d(sc.make(prog.k));
    drv = d.get();
    Fiber* svc = &fibers[SERVICE];
    launch(svc, J_START);
    watch_statics();
    u64 seq = 0;
    bool stop = W.v.set;
    std::size_t pc = 0;
    auto suspended = [&]() -> int
    {
        int best = -1;
        for (int t = 0; t < NTASKS; ++t)
        {
            if (fibers[t].st == FS_SUSPENDED && (best < 0 || fibers[t].seq < fibers[best].seq))
            {
                best = t;
            }
        }
        return best;
    };
    while (!stop)
    {
        // resume tasks whose preemption is over (oldest first)
        bool resumed = false;
        for (int guard = 0; guard < NTASKS && !stop; ++guard)
        {
            int due = -1;
            for (int t = 0; t < NTASKS; ++t)
            {
                if (fibers[t].st == FS_SUSPENDED && fibers[t].resume_in == 0 &&
                    (due < 0 || fibers[t].seq < fibers[due].seq))
                {
                    due = t;
                }
            }
            if (due < 0)
            {
                break;
            }
            stop = resume_task(due);
            resumed = true;
        }
        if (stop)
        {
            break;
        }
        if (pc >= prog.ops.size())
        {
            const int t = suspended();
            if (t < 0)
            {
                break;
            }
            stop = resume_task(t);
            continue;
        }
        (void)resumed;
        const Op& op = prog.ops[pc];
        const u32 idx = static_cast<u32>(pc);
        pc++;
        cur_op_index = idx;
        if (op.kind >= sc.nops)
        {
            continue;
        }
        const OpInfo& info = sc.ops[op.kind];
        const u32 fl = info.flags;
        if (((strip & ST_COPY) != 0 && (fl & OF_COPY) != 0) ||
            ((strip & ST_RELOC) != 0 && (fl & OF_RELOC) != 0) ||
            ((strip & ST_SRC) != 0 && (fl & OF_SRC) != 0) ||
            ((strip & ST_VIEW) != 0 && (fl & OF_VIEW) != 0) ||
            ((strip & ST_OTHER) != 0 && (op.slot != keep_slot || (fl & (OF_S2_R | OF_S2_W)) != 0)) ||
            ((strip & ST_REJECT) != 0 && (fl & OF_REJ) != 0) || (fl & sc.unsup_flags) != 0)
        {
            continue;
        }
        const int t = op.task % NTASKS;
        // a task runs one operation at a time
        if (fibers[t].st == FS_SUSPENDED)
        {
            stop = resume_task(t);
            if (stop)
            {
                break;
            }
        }
        // data-race-free clients: writers exclude everyone on the same object
        while (!stop && conflicts(t, op, fl))
        {
            bool any = false;
            for (int o = 0; o < NTASKS && !stop; ++o)
            {
                if (o != t && fibers[o].st == FS_SUSPENDED)
                {
                    stop = resume_task(o);
                    any = true;
                    break;
                }
            }
            if (!any)
            {
                break;
            }
        }
        if (stop)
        {
            break;
        }
        acquire(t, op, fl);
        for (int o = 0; o < NTASKS; ++o)
        {
            if (fibers[o].st == FS_SUSPENDED && fibers[o].resume_in > 0)
            {
                fibers[o].resume_in--;
            }
        }
        Fiber* f = &fibers[t];
        f->oc = OpCtx{};
        f->oc.op = op;
        f->oc.info = &info;
        if (f->oc.op.fault == F_KILL && (fl & (OF_S1_W | OF_S2_W)) != 0)
        {
            f->oc.op.fault = F_NONE;
        }
        f->oc.throw_allowed = (fl & OF_THROW) != 0 && (op.fault == F_THROW || op.fault == F_SRC_THROW);
        f->op_index = idx;
        f->seq = ++seq;
        if (verbose)
        {
            char b[256];
            describe_op(sc, op, b, sizeof b);
            logf("op %u: %s", idx, b);
        }
        watch_start(t, op, fl);
        launch(f, J_EXEC);
        stop = settle(t);
    }
    if (!W.v.set)
    {
        svc->oc = OpCtx{};
        svc->op_index = static_cast<u32>(prog.ops.size());
        launch(svc, J_FINISH);
    }
    drv = nullptr;
}

// ------------------------------------------------------------------ generation
struct Spec
{
    std::string prop = "C00";
    u64 seed = 1;
    u64 runs = 1000;
    int workers = 1;
    u32 fault_mask = 0xffffffff;  // Strip bits enabled as faults
    std::vector<std::string> accept;  // violation classes reported; empty: all
    u32 attrib = 0;
    u32 op_bias = 0;      // OpFlags groups favoured
    u32 op_filter = 0;    // unused
    std::string family;   // comma list of scenario-name prefixes, empty: all
    double time_limit = 600;
    std::string out;
    std::string replay_dir = ".";
    u32 max_len = 220;
};

static std::vector<u32> select_scenarios(const Spec& sp)
{
    std::vector<u32> r;
    std::vector<std::string> pre;
    std::string cur;
    for (char ch : sp.family + ",")
    {
        if (ch == ',')
        {
            if (!cur.empty())
            {
                pre.push_back(cur);
            }
            cur.clear();
        }
        else
        {
            cur.push_back(ch);
        }
    }
    std::vector<std::pair<std::string, u32>> named;
    for (u32 i = 0; i < scenarios().size(); ++i)
    {
        bool ok = pre.empty();
        for (auto& p : pre)
        {
            ok = ok || std::string(scenarios()[i].name).rfind(p, 0) == 0;
        }
        if (ok)
        {
            named.push_back({scenarios()[i].name, i});
        }
    }
    std::sort(named.begin(), named.end());  // independent of link order
    for (auto& n : named)
    {
        r.push_back(n.second);
    }
    return r;
}

static u64 hash_str(const std::string& s)
{
    u64 h = 1469598103934665603ULL;
    for (char ch : s)
    {
        h = (h ^ static_cast<u8>(ch)) * 1099511628211ULL;
    }
    return h;
}

static void generate(const Spec& sp, const std::vector<u32>& scs, u64 run, Program& prog)
{
    Rng r(mix64(sp.seed * 0x9E3779B97F4A7C15ULL + hash_str(sp.prop)) ^ mix64(run + 1));
    prog.ops.clear();
    prog.k = Knobs{};
    u32 si = scs[r.below(static_cast<u32>(scs.size()))];
    if (strstr(scenarios()[si].name, "_huge_") != nullptr && r.below(3) != 0)
    {
        si = scs[r.below(static_cast<u32>(scs.size()))];  // these are slow: fewer of them
    }
    if (strncmp(scenarios()[si].name, "giant_", 6) == 0 && r.below(24) != 0)
    {
        for (u32 i = 0; i < 8 && strncmp(scenarios()[si].name, "giant_", 6) == 0; ++i)
        {
            si = scs[r.below(static_cast<u32>(scs.size()))];  // slower still
        }
    }
    const Scenario& sc = scenarios()[si];
    Knobs& k = prog.k;
    k.scenario = si;
    const bool fault_free = r.chance(1, 4);
    k.faults_on = fault_free ? 0 : 1;
    k.tasks = 1 + r.below(NTASKS);
    const u32 cap = sc.cap == 0 ? 1 : sc.cap;
    switch (r.below(5))
    {
    case 0: k.key_range = cap / 2 + 1; break;
    case 1: k.key_range = cap + 1; break;
    case 2: k.key_range = cap * 2; break;
    case 3: k.key_range = cap * 4 + 3; break;
    default: k.key_range = 1000000; break;
    }
    k.hash_mode = r.below(8);
    k.garbage = (sp.fault_mask & ST_GARBAGE) != 0 ? r.below(6) : 0;
    k.alloc_fail = ((sp.fault_mask & ST_ALLOC) != 0 && !fault_free) ? 1 + r.below(3) : 0;
    k.cmp_mode = r.below(4);
    k.extra = static_cast<u32>(r.next());
    // swarm: every run has its own operation mix
    std::vector<u32> w(sc.nops);
    static const u32 mul[] = {0, 1, 1, 2, 4};
    const bool uniform = r.chance(1, 4);
    for (u32 i = 0; i < sc.nops; ++i)
    {
        const u32 m = uniform ? 1 : mul[r.below(5)];
        u32 wt = sc.ops[i].weight * m;
        const u32 fl = sc.ops[i].flags;
        if ((fl & sp.op_bias) != 0)
        {
            wt = sc.ops[i].weight * (m + 4);
        }
        if ((fl & sc.unsup_flags) != 0)
        {
            wt = 0;
        }
        if (fault_free && (fl & (OF_REJ | OF_RELOC)) != 0)
        {
            wt = 0;
        }
        if ((sp.fault_mask & ST_RELOC) == 0 && (fl & OF_RELOC) != 0)
        {
            wt = 0;
        }
        if ((sp.fault_mask & ST_REJECT) == 0 && (fl & OF_REJ) != 0)
        {
            wt = 0;
        }
        if (m == 0 && (fl & OF_GROW) != 0 && r.chance(1, 2))
        {
            wt = sc.ops[i].weight;
        }
        w[i] = wt;
    }
    u32 len = 0;
    switch (r.below(4))
    {
    case 0: len = 4 + r.below(20); break;
    case 1: len = 20 + r.below(60); break;
    default: len = 40 + r.below(sp.max_len); break;
    }
    if (cap > 60 && r.chance(1, 2))
    {
        len += cap * 2;
    }
    u32 phase_left = 0;
    u32 phase = 0;
    std::vector<u32> pw(sc.nops);
    u64 tot = 0;
    const u32 fault_den = 3 + r.below(12);
    const u32 yield_den = 2 + r.below(8);
    const bool src_f = (sp.fault_mask & ST_SRCFAULT) != 0 && !fault_free;
    const bool thr_f = (sp.fault_mask & ST_THROW) != 0 && !fault_free && r.chance(3, 4);
    const bool kill_f = (sp.fault_mask & ST_KILL) != 0 && !fault_free && r.chance(1, 2);
    const bool yld_f = (sp.fault_mask & ST_YIELD) != 0 && k.tasks > 1;
    const u32 one_slot = r.below(3);
    for (u32 i = 0; i < len; ++i)
    {
        if (phase_left == 0)
        {
            phase = r.below(4);
            phase_left = 4 + r.below(cap + 24);
            tot = 0;
            for (u32 j = 0; j < sc.nops; ++j)
            {
                const u32 fl = sc.ops[j].flags;
                u32 x = w[j];
                if (phase <= 1 && (fl & OF_GROW) != 0)
                {
                    x *= (cap > 20 ? 8 : 4);
                }
                if (phase == 2 && (fl & OF_SHRINK) != 0)
                {
                    x *= 4;
                }
                pw[j] = x;
                tot += x;
            }
            if (tot == 0)
            {
                for (u32 j = 0; j < sc.nops; ++j)
                {
                    pw[j] = (sc.ops[j].flags & sc.unsup_flags) != 0 ? 0 : sc.ops[j].weight;
                    tot += pw[j];
                }
            }
        }
        phase_left--;
        u64 pick = r.next() % tot;
        u32 kind = 0;
        while (pick >= pw[kind])
        {
            pick -= pw[kind];
            kind++;
        }
        Op o;
        o.kind = static_cast<u8>(kind);
        o.task = static_cast<u8>(r.below(k.tasks));
        o.slot = one_slot == 0 ? 0 : static_cast<u8>(r.chance(1, 2) ? 0 : r.below(NSLOTS));
        o.slot2 = static_cast<u8>(r.below(NSLOTS));
        o.a = r.below(r.chance(1, 2) ? k.key_range : 1u << 20);
        o.b = r.below(r.chance(1, 2) ? 4 : 1u << 16);
        o.c = r.below(1u << 16);
        const u32 fl = sc.ops[kind].flags;
        if (src_f && (fl & OF_SRC) != 0 && r.chance(1, 3))
        {
            o.fault = r.chance(1, 2) ? F_SRC_END : F_SRC_THROW;
            o.fault_at = static_cast<u16>(1 + r.below(r.chance(1, 2) ? 3 : 12));
        }
        else if (thr_f && (fl & OF_THROW) != 0 && r.chance(1, fault_den / 2 + 1))
        {
            o.fault = F_THROW;
            o.fault_at = static_cast<u16>(1 + r.below(r.chance(2, 3) ? 3 : 16));
        }
        else if (kill_f && (fl & (OF_S1_W | OF_S2_W)) == 0 && r.chance(1, 4))
        {
            o.fault = F_KILL;
            o.fault_at = static_cast<u16>(1 + r.below(r.chance(2, 3) ? 3 : 16));
        }
        if (yld_f && r.chance(1, yield_den))
        {
            o.yield_at = static_cast<u16>(1 + r.below(r.chance(2, 3) ? 4 : 24));
            o.yield_len = static_cast<u8>(1 + r.below(6));
        }
        prog.ops.push_back(o);
    }
}

// ------------------------------------------------------------------ worker / child processes
static u64 hang_last = 0;
static int hang_ticks = 0;
static int hang_limit = 8;
static void die_with(const char* cls)
{
    if (S != nullptr)
    {
        S->crashed = 1;
        S->v = W.v;
        if (!W.v.set)
        {
            strncpy(S->v.cls, cls, sizeof(S->v.cls) - 1);
            snprintf(S->v.msg, sizeof(S->v.msg), "%s inside operation %s", cls,
                     (curf != nullptr && curf->oc.info != nullptr) ? curf->oc.info->name : "?");
            S->v.set = true;
            S->v.op_index = curf != nullptr ? curf->op_index : cur_op_index;
            S->v.op_flags = (curf != nullptr && curf->oc.info != nullptr) ? curf->oc.info->flags : 0;
            S->v.after_reject = curf != nullptr && (curf->oc.got_rej != 0 || curf->after_reason == A_REJECT);
            S->v.after_throw = curf != nullptr && curf->oc.threw;
        }
        S->trace = 0;
    }
    _exit(77);
}
static void on_signal(int sig)
{
    switch (sig)
    {
    case SIGSEGV: die_with("crash-segv"); break;
    case SIGBUS: die_with("crash-bus"); break;
    case SIGFPE: die_with("crash-fpe"); break;
    case SIGILL:
    case SIGTRAP: die_with("crash-trap"); break;
    case SIGPROF:
        if (run_ticker == hang_last)
        {
            if (++hang_ticks >= hang_limit)
            {
                die_with("hang");
            }
        }
        else
        {
            hang_last = run_ticker;
            hang_ticks = 0;
        }
        break;
    default: die_with("crash"); break;
    }
}
static void on_terminate()
{
    if (curf != nullptr && S != nullptr)
    {
        if (curf->oc.got_rej != 0 && !curf->oc.threw && !curf->oc.throwing)
        {
            // a policy that throws out of a function declared noexcept ends the program
            abandon(A_REJECT);
        }
        fail("terminate", "std::terminate during operation %s (an exception met a noexcept boundary)",
             curf->oc.info != nullptr ? curf->oc.info->name : "?");
    }
    _exit(3);
}
static void install_handlers()
{
    static char alt[1 << 16];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP})
    {
        sigaction(s, &sa, nullptr);
    }
    sa.sa_flags = SA_ONSTACK | SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval tv{};
    tv.it_interval.tv_sec = 1;
    tv.it_value.tv_sec = 1;
    setitimer(ITIMER_PROF, &tv, nullptr);
    std::set_terminate(on_terminate);
}

static bool cls_accepted(const Spec& sp, const Violation& v)
{
    if (sp.accept.empty())
    {
        return true;
    }
    for (auto& a : sp.accept)
    {
        if (a == v.cls)
        {
            return true;
        }
        if (a == "@after_reject" && v.after_reject)
        {
            return true;
        }
        if (a == "@after_throw" && v.after_throw)
        {
            return true;
        }
        if (a == "@crash" && (strncmp(v.cls, "crash", 5) == 0 || strcmp(v.cls, "abort") == 0 ||
                              strcmp(v.cls, "terminate") == 0))
        {
            return true;
        }
        if (a == "@op_copy" && (v.op_flags & OF_COPY) != 0)
        {
            return true;
        }
        if (a == "@op_src" && (v.op_flags & OF_SRC) != 0)
        {
            return true;
        }
        if (a == "@op_stream" && (v.op_flags & OF_STREAM) != 0)
        {
            return true;
        }
        if (a == "@op_view" && (v.op_flags & OF_VIEW) != 0)
        {
            return true;
        }
    }
    return false;
}

// runs a program in a forked child; fills out (class, message, trace)
struct ChildResult
{
    bool ok = false;  // the child produced a result
    Violation v;
    u64 trace = 0;
};
static ChildResult run_child(const Program& p, u32 strip, bool verbose = false, int hang = 4)
{
    Shm* saveS = S;
    Shm* sh = static_cast<Shm*>(
        mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0)
    {
        S = sh;
        static CEnt dummy[MAXC];
        CT = dummy;
        hang_limit = hang;
        install_handlers();
        run_program(p, strip, verbose);
        sh->v = W.v;
        sh->trace = W.trace;
        sh->done = 1;
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    ChildResult r;
    r.ok = sh->done != 0 || sh->crashed != 0;
    if (r.ok)
    {
        r.v = sh->v;
        r.trace = sh->trace;
    }
    else
    {
        r.ok = true;
        r.v.set = true;
        strcpy(r.v.cls, "crash");
        snprintf(r.v.msg, sizeof r.v.msg, "child ended with status %d", st);
    }
    munmap(sh, sizeof(Shm));
    S = saveS;
    return r;
}

// Does the violation go away when the fault kinds of this property are taken out of the program?
static bool attributed(const Spec& sp, const Program& p, const Violation& v, int hang = 4)
{
    const u32 faults = sp.attrib & ~static_cast<u32>(ST_OTHER);
    if (faults != 0 && !run_child(p, faults, false, hang).v.set)
    {
        return true;
    }
    if ((sp.attrib & ST_OTHER) == 0 || v.op_index >= p.ops.size() || (v.op_flags & (OF_S2_R | OF_S2_W)) != 0)
    {
        return false;
    }
    // ... or when the other instances are left alone, in a program in which none depends on another?
    const ChildResult r = run_child(p, ST_COPY, false, hang);
    if (!r.v.set || r.v.op_index != v.op_index || strcmp(r.v.cls, v.cls) != 0)
    {
        return false;
    }
    keep_slot = p.ops[v.op_index].slot;
    return !run_child(p, ST_COPY | ST_OTHER, false, hang).v.set;
}

// Runs first, first+stride, ..., last in one child process: a violation may depend on what earlier
// runs left behind in the library (hidden static state).
static ChildResult run_history(const Spec& sp, const std::vector<u32>& scs, u64 first, u64 last, u64 stride,
                               bool verbose = false)
{
    Shm* saveS = S;
    Shm* sh = static_cast<Shm*>(
        mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0)
    {
        S = sh;
        static CEnt dummy[MAXC];
        CT = dummy;
        install_handlers();
        Program p;
        for (u64 i = first; i <= last; i += stride)
        {
            run_ticker = run_ticker + 1;
            sh->cur_run = i;
            generate(sp, scs, i, p);
            run_program(p, 0, verbose && i == last);
        }
        sh->v = W.v;
        sh->trace = W.trace;
        sh->done = 1;
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    ChildResult r;
    r.ok = true;
    if (sh->done != 0 || (sh->crashed != 0 && sh->cur_run == last))
    {
        r.v = sh->v;
        r.trace = sh->trace;
    }
    munmap(sh, sizeof(Shm));
    S = saveS;
    return r;
}

static void worker(const Spec& sp, const std::vector<u32>& scs, u64 first, int stride, double deadline)
{
    install_handlers();
    S->first_run = first;
    Program p;
    for (u64 i = first; i < sp.runs; i += static_cast<u64>(stride))
    {
        if (i > G->min_viol)
        {
            break;
        }
        timespec ts{};
        clock_gettime(CLOCK_MONOTONIC, &ts);
        if (static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec) > deadline)
        {
            break;
        }
        S->cur_run = i;
        S->in_run = 1;
        run_ticker = run_ticker + 1;
        generate(sp, scs, i, p);
        run_program(p, 0, false);
        S->runs++;
        S->ops += W.ops_done;
        S->steps += W.steps;
        S->preempts += W.preempts;
        S->faults += W.faults_fired;
        S->rejects += W.rejects;
        if (p.k.faults_on == 0)
        {
            S->faultfree++;
        }
        const bool nontriv = W.ops_done >= 5 && (W.preempts + W.faults_fired + W.rejects) > 0;
        if (nontriv)
        {
            S->nontrivial++;
            if (S->ntrace < MAXTRACE / 8)
            {
                S->traces[S->ntrace++] = W.trace;
            }
        }
        if (W.v.set)
        {
            Violation v = W.v;
            const u64 t = W.trace;
            bool acc = sp.accept.empty() ? sp.attrib == 0 : cls_accepted(sp, v);
            if (!acc && sp.attrib != 0)
            {
                acc = attributed(sp, p, v);
            }
            if (acc)
            {
                S->v_set = 1;
                S->v_run = i;
                S->v_trace = t;
                S->v = v;
                u64 cur = G->min_viol;
                while (i < cur && !__sync_bool_compare_and_swap(&G->min_viol, cur, i))
                {
                    cur = G->min_viol;
                }
                S->in_run = 0;
                break;
            }
            if ((sp.attrib & ST_OTHER) != 0 && G->asked < 24)
            {
                // earlier runs of this process may have left something behind in the library
                S->v = v;
                S->v_trace = t;
                S->ask = 1;
                return;
            }
            S->out_of_class++;
            snprintf(S->ooc_sample, sizeof S->ooc_sample, "run %llu %s: %.150s",
                     static_cast<unsigned long long>(i), v.cls, v.msg);
        }
        S->in_run = 0;
    }
    S->done = 1;
}

// ------------------------------------------------------------------ replay files
static void write_replay(const std::string& path, const Spec& sp, const Program& p, const Violation& v,
                         u64 trace, u64 run)
{
    FILE* f = fopen(path.c_str(), "w");
    if (f == nullptr)
    {
        fprintf(stderr, "cannot write %s\n", path.c_str());
        exit(3);
    }
    const Scenario& sc = scenarios()[p.k.scenario];
    fprintf(f, "# fcsim replay file\n# violation: %s: %s\n", v.cls, v.msg);
    fprintf(f, "property %s\nseed %llu\nrun %llu\nclass %s\ntrace %016llx\nscenario %s\n", sp.prop.c_str(),
            static_cast<unsigned long long>(sp.seed), static_cast<unsigned long long>(run), v.cls,
            static_cast<unsigned long long>(trace), sc.name);
    if (watch_on)
    {
        fprintf(f, "watch 1\n");
    }
    fprintf(f, "knobs %u %u %u %u %u %u %u %u\n", p.k.tasks, p.k.key_range, p.k.hash_mode, p.k.garbage,
            p.k.alloc_fail, p.k.faults_on, p.k.cmp_mode, p.k.extra);
    for (const Op& o : p.ops)
    {
        fprintf(f, "op %u %s %u %u %u %u %u %u %u %u %u\n", o.task, sc.ops[o.kind].name, o.slot, o.slot2, o.a,
                o.b, o.c, o.fault, o.fault_at, o.yield_at, o.yield_len);
    }
    fclose(f);
}

static bool read_replay(const char* path, Program& p, std::string& prop, std::string& cls, u64& trace)
{
    FILE* f = fopen(path, "r");
    if (f == nullptr)
    {
        return false;
    }
    char line[1024];
    bool have = false;
    while (fgets(line, sizeof line, f) != nullptr)
    {
        char w[128] = {};
        if (line[0] == '#')
        {
            continue;
        }
        if (sscanf(line, "property %127s", w) == 1)
        {
            prop = w;
        }
        else if (sscanf(line, "class %127s", w) == 1)
        {
            cls = w;
        }
        else if (sscanf(line, "scenario %127s", w) == 1)
        {
            for (u32 i = 0; i < scenarios().size(); ++i)
            {
                if (strcmp(scenarios()[i].name, w) == 0)
                {
                    p.k.scenario = i;
                    have = true;
                }
            }
        }
        else if (strncmp(line, "watch 1", 7) == 0)
        {
            watch_on = true;
        }
        else if (strncmp(line, "knobs ", 6) == 0)
        {
            sscanf(line, "knobs %u %u %u %u %u %u %u %u", &p.k.tasks, &p.k.key_range, &p.k.hash_mode,
                   &p.k.garbage, &p.k.alloc_fail, &p.k.faults_on, &p.k.cmp_mode, &p.k.extra);
        }
        else if (strncmp(line, "trace ", 6) == 0)
        {
            trace = strtoull(line + 6, nullptr, 16);
        }
        else if (strncmp(line, "op ", 3) == 0 && have)
        {
            unsigned t = 0, s = 0, s2 = 0, a = 0, b = 0, c = 0, fk = 0, fa = 0, ya = 0, yl = 0;
            sscanf(line, "op %u %127s %u %u %u %u %u %u %u %u %u", &t, w, &s, &s2, &a, &b, &c, &fk, &fa, &ya, &yl);
            Op o;
            const Scenario& sc = scenarios()[p.k.scenario];
            u32 kind = sc.nops;
            for (u32 i = 0; i < sc.nops; ++i)
            {
                if (strcmp(sc.ops[i].name, w) == 0)
                {
                    kind = i;
                }
            }
            if (kind == sc.nops)
            {
                fclose(f);
                return false;
            }
            o.task = static_cast<u8>(t);
            o.kind = static_cast<u8>(kind);
            o.slot = static_cast<u8>(s);
            o.slot2 = static_cast<u8>(s2);
            o.a = a;
            o.b = b;
            o.c = c;
            o.fault = static_cast<u8>(fk);
            o.fault_at = static_cast<u16>(fa);
            o.yield_at = static_cast<u16>(ya);
            o.yield_len = static_cast<u8>(yl);
            p.ops.push_back(o);
        }
    }
    fclose(f);
    return have;
}

static bool read_history(const char* path, Spec& sp, u64& first, u64& last, u64& stride)
{
    FILE* f = fopen(path, "r");
    if (f == nullptr)
    {
        return false;
    }
    char line[1024];
    bool have = false;
    while (fgets(line, sizeof line, f) != nullptr)
    {
        char w[128] = {};
        char fam[512] = {};
        unsigned long long a = 0, b = 0, c = 0;
        if (sscanf(line, "property %127s", w) == 1)
        {
            sp.prop = w;
        }
        else if (strncmp(line, "seed ", 5) == 0)
        {
            sp.seed = strtoull(line + 5, nullptr, 10);
        }
        else if (sscanf(line, "history %llu %llu %llu %u %u %u %511s", &a, &b, &c, &sp.fault_mask, &sp.op_bias,
                        &sp.max_len, fam) == 7)
        {
            first = a;
            last = b;
            stride = c;
            sp.family = strcmp(fam, "-") == 0 ? "" : fam;
            have = true;
        }
    }
    fclose(f);
    return have;
}

static double now_s()
{
    timespec ts{};
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

static void minimise(const Spec& sp, Program& p, u32 base_strip, const char* cls)
{
    const double end = now_s() + 40;
    int tries = 0;
    auto still = [&](const Program& q)
    {
        if (now_s() > end || tries > 4000)
        {
            return false;
        }
        tries++;
        ChildResult r = run_child(q, base_strip, false, 2);
        if (!r.v.set || strcmp(r.v.cls, cls) != 0)
        {
            return false;
        }
        if (sp.attrib != 0 && !cls_accepted(sp, r.v))
        {
            return attributed(sp, q, r.v, 2);
        }
        return sp.attrib != 0 || cls_accepted(sp, r.v);
    };
    // cut after the failing operation
    {
        ChildResult r = run_child(p, base_strip, false, 2);
        if (r.v.set && r.v.op_index + 1 < p.ops.size())
        {
            Program q = p;
            q.ops.resize(r.v.op_index + 1);
            if (still(q))
            {
                p = q;
            }
        }
    }
    // ddmin over operations
    for (std::size_t chunk = std::max<std::size_t>(1, p.ops.size() / 2); chunk >= 1; chunk /= 2)
    {
        bool again = true;
        while (again)
        {
            again = false;
            for (std::size_t i = 0; i < p.ops.size();)
            {
                Program q = p;
                const std::size_t e = std::min(p.ops.size(), i + chunk);
                q.ops.erase(q.ops.begin() + static_cast<long>(i), q.ops.begin() + static_cast<long>(e));
                if (!q.ops.empty() && still(q))
                {
                    p = q;
                    again = chunk == 1;
                }
                else
                {
                    i += chunk;
                }
            }
        }
        if (chunk == 1)
        {
            break;
        }
    }
    // simplify each operation and the knobs
    auto try_mod = [&](auto&& mod)
    {
        Program q = p;
        mod(q);
        if (memcmp(q.ops.data(), p.ops.data(), q.ops.size() * sizeof(Op)) == 0 &&
            memcmp(&q.k, &p.k, sizeof(Knobs)) == 0)
        {
            return;
        }
        if (still(q))
        {
            p = q;
        }
    };
    for (std::size_t i = 0; i < p.ops.size(); ++i)
    {
        try_mod([&](Program& q) { q.ops[i].fault = 0; q.ops[i].fault_at = 0; });
        try_mod([&](Program& q) { q.ops[i].yield_at = 0; q.ops[i].yield_len = 0; });
        try_mod([&](Program& q) { q.ops[i].task = 0; });
        try_mod([&](Program& q) { q.ops[i].slot = 0; });
        try_mod([&](Program& q) { q.ops[i].c = 0; });
        try_mod([&](Program& q) { q.ops[i].b = 0; });
        try_mod([&](Program& q) { q.ops[i].a = 0; });
        try_mod([&](Program& q) { q.ops[i].a %= 16; });
        try_mod([&](Program& q) { q.ops[i].b %= 8; });
    }
    try_mod([&](Program& q) { q.k.garbage = 0; });
    try_mod([&](Program& q) { q.k.hash_mode = 0; });
    try_mod([&](Program& q) { q.k.cmp_mode = 0; });
    try_mod([&](Program& q) { q.k.alloc_fail = 0; });
    try_mod([&](Program& q) { q.k.extra = 0; });
    try_mod([&](Program& q) { q.k.key_range = 8; });
}

static void json_str(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s != 0; ++s)
    {
        if (*s == '"' || *s == '\\')
        {
            fputc('\\', f);
        }
        if (static_cast<unsigned char>(*s) >= 32)
        {
            fputc(*s, f);
        }
    }
    fputc('"', f);
}

static int cmd_run(Spec sp)
{
    const double t0 = now_s();
    std::vector<u32> scs = select_scenarios(sp);
    if (scs.empty())
    {
        fprintf(stderr, "no scenarios selected\n");
        return 3;
    }
    G = static_cast<Global*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    G->min_viol = ~0ULL;
    const int nw = sp.workers;
    std::vector<Shm*> sh(static_cast<std::size_t>(nw));
    std::vector<CEnt*> ct(static_cast<std::size_t>(nw));
    std::vector<pid_t> pid(static_cast<std::size_t>(nw));
    std::vector<u64> next(static_cast<std::size_t>(nw));
    struct Crash
    {
        u64 run;
        Violation v;
    };
    std::vector<Crash> crashes;
    const double deadline = t0 + sp.time_limit;
    auto spawn = [&](int w)
    {
        const auto i = static_cast<std::size_t>(w);
        fflush(stdout);
        pid[i] = fork();
        if (pid[i] == 0)
        {
            S = sh[i];
            CT = ct[i];
            worker(sp, scs, next[i], nw, deadline);
            _exit(0);
        }
    };
    for (int w = 0; w < nw; ++w)
    {
        const auto i = static_cast<std::size_t>(w);
        sh[i] = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        ct[i] = static_cast<CEnt*>(mmap(nullptr, sizeof(CEnt) * MAXC, PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        next[i] = static_cast<u64>(w);
        spawn(w);
    }
    int alive = nw;
    u64 nonaccepted_crashes = 0;
    while (alive > 0)
    {
        int st = 0;
        const pid_t q = waitpid(-1, &st, 0);
        if (q < 0)
        {
            break;
        }
        for (int w = 0; w < nw; ++w)
        {
            const auto i = static_cast<std::size_t>(w);
            if (pid[i] != q)
            {
                continue;
            }
            alive--;
            if (sh[i]->done != 0)
            {
                break;
            }
            // crashed inside run cur_run
            const u64 run = sh[i]->cur_run;
            Program p;
            generate(sp, scs, run, p);
            ChildResult r = run_child(p, 0);
            bool acc = false;
            if (sh[i]->ask != 0)
            {
                sh[i]->ask = 0;
                G->asked = G->asked + 1;
                if (r.v.set)
                {
                    acc = attributed(sp, p, r.v);
                }
                else
                {
                    // fails only after other runs, of containers that are long gone: they share state
                    const ChildResult h = run_history(sp, scs, sh[i]->first_run, run, static_cast<u64>(nw));
                    acc = h.v.set && strcmp(h.v.cls, sh[i]->v.cls) == 0;
                }
                if (acc)
                {
                    sh[i]->v_set = 1;
                    sh[i]->v_run = run;
                    if (run < G->min_viol)
                    {
                        G->min_viol = run;
                    }
                }
                else
                {
                    sh[i]->out_of_class++;
                    snprintf(sh[i]->ooc_sample, sizeof sh[i]->ooc_sample, "run %llu %s: %.150s",
                             static_cast<unsigned long long>(run), sh[i]->v.cls, sh[i]->v.msg);
                    next[i] = run + static_cast<u64>(nw);
                    sh[i]->v = Violation{};
                    spawn(w);
                    alive++;
                }
                break;
            }
            if (r.v.set)
            {
                if (sp.accept.empty())
                {
                    acc = sp.attrib == 0;
                }
                else
                {
                    acc = cls_accepted(sp, r.v);
                }
                if (!acc && sp.attrib != 0)
                {
                    acc = attributed(sp, p, r.v);
                }
            }
            if (acc)
            {
                crashes.push_back({run, r.v});
                if (run < G->min_viol)
                {
                    G->min_viol = run;
                }
            }
            else
            {
                nonaccepted_crashes++;
                sh[i]->out_of_class++;
                snprintf(sh[i]->ooc_sample, sizeof sh[i]->ooc_sample, "run %llu %s: %.150s",
                         static_cast<unsigned long long>(run), r.v.cls, r.v.msg);
                if (nonaccepted_crashes < 200)
                {
                    next[i] = run + static_cast<u64>(nw);
                    sh[i]->crashed = 0;
                    sh[i]->v = Violation{};
                    spawn(w);
                    alive++;
                }
            }
            break;
        }
    }
    // lowest violating run
    u64 best = ~0ULL;
    u64 best_first = 0;
    Violation bv;
    for (int w = 0; w < nw; ++w)
    {
        const auto i = static_cast<std::size_t>(w);
        if (sh[i]->v_set != 0 && sh[i]->v_run < best)
        {
            best = sh[i]->v_run;
            best_first = sh[i]->first_run;
            bv = sh[i]->v;
        }
    }
    for (auto& c : crashes)
    {
        if (c.run < best)
        {
            best = c.run;
            bv = c.v;
        }
    }
    const double t_search = now_s() - t0;
    std::string replay;
    bool confirmed = false;
    std::string vcls, vmsg;
    u64 minops = 0, origops = 0;
    if (best != ~0ULL)
    {
        Program p;
        generate(sp, scs, best, p);
        origops = p.ops.size();
        ChildResult r1 = run_child(p, 0);
        ChildResult r2 = run_child(p, 0);
        confirmed = r1.v.set && r2.v.set && strcmp(r1.v.cls, r2.v.cls) == 0 && r1.trace == r2.trace &&
                    r1.v.op_index == r2.v.op_index;
        if (confirmed)
        {
            minimise(sp, p, 0, r1.v.cls);
            ChildResult r3 = run_child(p, 0);
            if (!r3.v.set)
            {
                generate(sp, scs, best, p);
                r3 = run_child(p, 0);
            }
            minops = p.ops.size();
            vcls = r3.v.cls;
            vmsg = r3.v.msg;
            replay = sp.replay_dir + "/" + sp.prop + "-" + std::to_string(sp.seed) + "-" + std::to_string(best) +
                     ".replay";
            write_replay(replay, sp, p, r3.v, r3.trace, best);
        }
        else
        {
            vcls = bv.cls;
            vmsg = bv.msg;
            const u64 stride = static_cast<u64>(nw);
            auto same = [&](const ChildResult& r) { return r.v.set && strcmp(r.v.cls, bv.cls) == 0; };
            ChildResult h = run_history(sp, scs, best_first, best, stride);
            u64 first = best_first;
            if (same(h))
            {
                // latest start that still fails (the history in front of it is not needed)
                for (u64 back = 0; back < 4096; back = back == 0 ? 1 : back * 2)
                {
                    if (best < best_first + back * stride)
                    {
                        break;
                    }
                    ChildResult t = run_history(sp, scs, best - back * stride, best, stride);
                    if (same(t))
                    {
                        h = t;
                        first = best - back * stride;
                        break;
                    }
                }
                ChildResult h2 = run_history(sp, scs, first, best, stride);
                confirmed = same(h2) && h2.trace == h.trace;
            }
            replay = sp.replay_dir + "/" + sp.prop + "-" + std::to_string(sp.seed) + "-" + std::to_string(best) +
                     ".replay";
            write_replay(replay, sp, p, bv, h.trace, best);
            FILE* rf = fopen(replay.c_str(), "a");
            fprintf(rf, "history %llu %llu %llu %u %u %u %s\n", static_cast<unsigned long long>(first),
                    static_cast<unsigned long long>(best), static_cast<unsigned long long>(stride), sp.fault_mask,
                    sp.op_bias, sp.max_len, sp.family.empty() ? "-" : sp.family.c_str());
            fclose(rf);
        }
    }
    // report
    FILE* f = sp.out.empty() ? stdout : fopen(sp.out.c_str(), "w");
    if (f == nullptr)
    {
        return 3;
    }
    u64 runs = 0, ops = 0, steps = 0, pre = 0, fl = 0, rej = 0, nt = 0, ff = 0, ooc = 0;
    std::set<u64> tr_set, cov;
    std::map<std::string, u64> cnt;
    std::string oocs;
    for (int w = 0; w < nw; ++w)
    {
        const auto i = static_cast<std::size_t>(w);
        runs += sh[i]->runs;
        ops += sh[i]->ops;
        steps += sh[i]->steps;
        pre += sh[i]->preempts;
        fl += sh[i]->faults;
        rej += sh[i]->rejects;
        nt += sh[i]->nontrivial;
        ff += sh[i]->faultfree;
        ooc += sh[i]->out_of_class;
        if (sh[i]->ooc_sample[0] != 0)
        {
            oocs = sh[i]->ooc_sample;
        }
        tr_set.insert(sh[i]->traces, sh[i]->traces + sh[i]->ntrace);
        for (u32 c = 0; c < COVER; ++c)
        {
            if (sh[i]->cover[c] != 0)
            {
                cov.insert(sh[i]->cover[c]);
            }
        }
        for (int c = 0; c < MAXC; ++c)
        {
            if (ct[i][c].name[0] != 0)
            {
                cnt[ct[i][c].name] += ct[i][c].n;
            }
        }
    }
    u64 comb = 0;
    for (u64 t : tr_set)
    {
        comb ^= mix64(t);
    }
    fprintf(f,
            "{\"property\":\"%s\",\"seed\":%llu,\"requested_runs\":%llu,\"runs\":%llu,\"operations\":%llu,"
            "\"callback_steps\":%llu,\"preemptions\":%llu,\"faults\":%llu,\"rejections\":%llu,\"nontrivial\":%llu,"
            "\"distinct_traces\":%zu,\"combined_trace\":\"%016llx\",\"distinct_states\":%zu,\"fault_free_runs\":%llu,"
            "\"out_of_class\":%llu,\"search_s\":%.3f,\"workers\":%d,\"scenarios\":%zu,",
            sp.prop.c_str(), static_cast<unsigned long long>(sp.seed), static_cast<unsigned long long>(sp.runs),
            static_cast<unsigned long long>(runs), static_cast<unsigned long long>(ops),
            static_cast<unsigned long long>(steps), static_cast<unsigned long long>(pre),
            static_cast<unsigned long long>(fl), static_cast<unsigned long long>(rej),
            static_cast<unsigned long long>(nt), tr_set.size(), static_cast<unsigned long long>(comb), cov.size(),
            static_cast<unsigned long long>(ff), static_cast<unsigned long long>(ooc), t_search, nw, scs.size());
    fprintf(f, "\"ooc_sample\":");
    json_str(f, oocs.c_str());
    fprintf(f, ",\"counters\":{");
    bool firstc = true;
    for (auto& kv : cnt)
    {
        fprintf(f, "%s", firstc ? "" : ",");
        json_str(f, kv.first.c_str());
        fprintf(f, ":%llu", static_cast<unsigned long long>(kv.second));
        firstc = false;
    }
    fprintf(f, "},\"samples\":[");
    for (u64 sidx = 0; sidx < 2; ++sidx)
    {
        Program p;
        generate(sp, scs, sidx * 7 + 1, p);
        const Scenario& sc = scenarios()[p.k.scenario];
        std::string txt = std::string("run ") + std::to_string(sidx * 7 + 1) + " scenario " + sc.name + " tasks " +
                          std::to_string(p.k.tasks) + ":";
        for (std::size_t i = 0; i < p.ops.size() && i < 12; ++i)
        {
            char b[256];
            describe_op(sc, p.ops[i], b, sizeof b);
            txt += std::string(" [") + b + "]";
        }
        fprintf(f, "%s", sidx == 0 ? "" : ",");
        json_str(f, txt.c_str());
    }
    fprintf(f, "],\"violation\":%s,\"confirmed\":%s,\"class\":", best != ~0ULL ? "true" : "false",
            confirmed ? "true" : "false");
    json_str(f, vcls.c_str());
    fprintf(f, ",\"message\":");
    json_str(f, vmsg.c_str());
    fprintf(f, ",\"replay\":");
    json_str(f, replay.c_str());
    fprintf(f, ",\"viol_run\":%lld,\"orig_ops\":%llu,\"min_ops\":%llu}\n",
            best == ~0ULL ? -1LL : static_cast<long long>(best), static_cast<unsigned long long>(origops),
            static_cast<unsigned long long>(minops));
    if (f != stdout)
    {
        fclose(f);
    }
    return best == ~0ULL ? 0 : 1;
}

static int cmd_replay(const char* path, bool verbose)
{
    Program p;
    std::string prop, cls;
    u64 trace = 0;
    if (!read_replay(path, p, prop, cls, trace))
    {
        fprintf(stderr, "cannot read replay file %s (or its scenario is not in this binary)\n", path);
        return 3;
    }
    ChildResult r;
    Spec hs;
    u64 hf = 0, hl = 0, hst = 0;
    if (read_history(path, hs, hf, hl, hst))
    {
        std::vector<u32> scs = select_scenarios(hs);
        r = run_history(hs, scs, hf, hl, hst, verbose);
    }
    else
    {
        r = run_child(p, 0, verbose);
    }
    if (r.v.set)
    {
        printf("REPLAY class=%s trace=%016llx same_class=%d same_trace=%d op=%u\n  %s\n", r.v.cls,
               static_cast<unsigned long long>(r.trace), static_cast<int>(cls == r.v.cls),
               static_cast<int>(trace == r.trace), r.v.op_index, r.v.msg);
        return 1;
    }
    printf("REPLAY no violation trace=%016llx\n", static_cast<unsigned long long>(r.trace));
    return 0;
}

// ------------------------------------------------------------------ restart in another process
// One process runs programs and records the bytes of each container at each crash/restart; a second process, whose
// code and data lie at other addresses, runs the same programs and goes on with the recorded bytes instead of its own.
static constexpr std::size_t IMG_MAX = std::size_t{1} << 26;
static char* img_buf = nullptr;
static std::size_t img_len = 0, img_pos = 0;
static int img_mode = 0;  // 1: record, 2: continue from the recorded bytes

static void img_start(int mode)
{
    img_mode = mode;
    img_buf = static_cast<char*>(
        mmap(nullptr, IMG_MAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}
void carry_image(void* bytes, std::size_t n)
{
    const char* name = cur_sc != nullptr ? cur_sc->name : "";
    // (keys that are addresses mean nothing elsewhere)
    if (img_mode == 0 || strstr(name, "_view_") != nullptr || strstr(name, "_spot_") != nullptr ||
        strncmp(name, "oref_", 5) == 0 || strncmp(name, "r", 1) == 0 || strncmp(name, "sview", 5) == 0)
    {
        return;
    }
    if (img_mode == 1 && img_len + n <= IMG_MAX)
    {
        memcpy(img_buf + img_len, bytes, n);
        img_len += n;
    }
    if (img_mode == 2 && img_pos + n <= img_len)
    {
        memcpy(bytes, img_buf + img_pos, n);
        img_pos += n;
        SIM_COUNT("fault.restart_in_another_process");
    }
}

static int cmd_images(const Spec& sp, const char* path, bool load, u64 first, u64 stride)
{
    std::vector<u32> scs = select_scenarios(sp);
    Shm* sh = static_cast<Shm*>(
        mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    FILE* f = fopen(path, load ? "rb" : "wb");
    if (f == nullptr)
    {
        fprintf(stderr, "cannot open %s\n", path);
        return 3;
    }
    const pid_t pid = fork();
    if (pid == 0)
    {
        S = sh;
        static CEnt dummy[MAXC];
        CT = dummy;
        install_handlers();
        img_start(load ? 2 : 1);
        Program p;
        for (u64 i = first; i < sp.runs; i += stride)
        {
            u64 head[2] = {i, 0};
            img_len = img_pos = 0;
            if (load)
            {
                if (fread(head, sizeof head, 1, f) != 1 || head[0] != i)
                {
                    break;
                }
                if (head[1] > IMG_MAX)  // this run fails in one process already
                {
                    continue;
                }
                if (head[1] != 0 && fread(img_buf, head[1], 1, f) != 1)
                {
                    break;
                }
                img_len = head[1];
                if (img_len == 0)
                {
                    continue;
                }
            }
            sh->cur_run = i;
            run_ticker = run_ticker + 1;
            generate(sp, scs, i, p);
            run_program(p, 0, false);
            if (load)
            {
                sh->runs++;
                sh->ops += W.ops_done;
                if (W.v.set)
                {
                    sh->v = W.v;
                    break;
                }
                continue;
            }
            head[1] = W.v.set ? ~u64{0} : img_len;
            fwrite(head, sizeof head, 1, f);
            if (!W.v.set && img_len != 0)
            {
                fwrite(img_buf, img_len, 1, f);
            }
            fflush(f);
            sh->runs++;
        }
        fflush(f);
        u64 carried = 0;
        for (const CEnt& e : dummy)
        {
            if (strcmp(e.name, "fault.restart_in_another_process") == 0)
            {
                carried = e.n;
            }
        }
        sh->steps = carried;
        sh->done = 1;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    const bool bad = load && sh->v.set;
    if (!bad && sh->done == 0)
    {
        sh->v.set = true;
        snprintf(sh->v.cls, sizeof sh->v.cls, "crash");
        snprintf(sh->v.msg, sizeof sh->v.msg, "child ended with status %d", st);
    }
    printf("IMAGES runs=%llu carried=%llu violation=%d run=%llu class=%s\n  %s\n",
           static_cast<unsigned long long>(sh->runs), static_cast<unsigned long long>(sh->steps),
           static_cast<int>(load && sh->v.set), static_cast<unsigned long long>(sh->cur_run), sh->v.set ? sh->v.cls : "-",
           sh->v.set ? sh->v.msg : "");
    if (load && sh->v.set)
    {
        Program p;
        generate(sp, scs, sh->cur_run, p);
        write_replay(sp.out, sp, p, sh->v, 0, sh->cur_run);
        return 1;
    }
    return 0;
}

// one program: record its images, or continue from recorded ones
static int cmd_replay_images(const char* path, const char* images, bool load, bool verbose)
{
    img_start(load ? 2 : 1);
    FILE* f = fopen(images, load ? "rb" : "wb");
    if (f == nullptr)
    {
        return 3;
    }
    if (load)
    {
        img_len = fread(img_buf, 1, IMG_MAX, f);
        const int rc = cmd_replay(path, verbose);
        fclose(f);
        return rc;
    }
    Program p;
    std::string prop, cls;
    u64 trace = 0;
    if (!read_replay(path, p, prop, cls, trace))
    {
        return 3;
    }
    munmap(img_buf, IMG_MAX);
    img_buf = static_cast<char*>(
        mmap(nullptr, IMG_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    std::size_t* len =
        static_cast<std::size_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    const pid_t pid = fork();
    if (pid == 0)
    {
        Shm* sh = static_cast<Shm*>(
            mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        S = sh;
        static CEnt dummy[MAXC];
        CT = dummy;
        install_handlers();
        run_program(p, 0, false);
        *len = img_len;
        _exit(W.v.set ? 1 : 0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (*len != 0)
    {
        fwrite(img_buf, *len, 1, f);
    }
    fclose(f);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1;
}

static std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r;
    std::string c;
    for (char ch : s + ",")
    {
        if (ch == ',')
        {
            if (!c.empty())
            {
                r.push_back(c);
            }
            c.clear();
        }
        else
        {
            c.push_back(ch);
        }
    }
    return r;
}
}  // namespace sim

// ------------------------------------------------------------------ interposed process services
namespace
{
void alloc_seam(std::size_t n)
{
    sim::OpCtx* c = sim::W.cur;
    if (c != nullptr && c->in_lib && !c->throwing && !sim::W.quiet_callbacks && sim::W.k.alloc_fail != 0)
    {
        sim::W.faults_fired++;
        sim::fail("alloc", "operation %s requested %zu bytes of dynamic memory while the allocator is down",
                  c->info != nullptr ? c->info->name : "?", n);
    }
}
}  // namespace

extern "C" void* malloc(size_t n)
{
    alloc_seam(n);
    return __libc_malloc(n);
}
extern "C" void* calloc(size_t a, size_t b)
{
    alloc_seam(a * b);
    return __libc_calloc(a, b);
}
extern "C" void* realloc(void* p, size_t n)
{
    alloc_seam(n);
    return __libc_realloc(p, n);
}
extern "C" void free(void* p) { __libc_free(p); }
void* operator new(std::size_t n)
{
    alloc_seam(n);
    void* p = __libc_malloc(n != 0 ? n : 1);
    if (p == nullptr)
    {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new(std::size_t n, std::align_val_t al)
{
    alloc_seam(n);
    return __libc_memalign(static_cast<std::size_t>(al), n);
}
void operator delete(void* p) noexcept { __libc_free(p); }
void operator delete[](void* p) noexcept { __libc_free(p); }
void operator delete(void* p, std::size_t) noexcept { __libc_free(p); }
void operator delete[](void* p, std::size_t) noexcept { __libc_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __libc_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { __libc_free(p); }

extern "C" void abort() noexcept
{
    sim::OpCtx* c = sim::W.cur;
    if (c != nullptr && c->in_lib)
    {
        c->in_lib = false;
        if (c->expect == sim::R_ABORT)
        {
            sim::on_rejection(sim::R_ABORT, 0, 0, false);
        }
        sim::fail("abort", "operation %s ended in an internal assertion (abort)",
                  c->info != nullptr ? c->info->name : "?");
    }
    if (sim::S != nullptr)
    {
        sim::die_with("crash-abort");
    }
    _exit(134);
}

int main(int argc, char** argv)
{
    using namespace sim;
    // no address-space randomisation: one seed is one execution, even for code that looks at addresses
    const int pers = personality(0xffffffff);
    if (pers != -1 && (pers & ADDR_NO_RANDOMIZE) == 0 && getenv("FCSIM_NOASLR") == nullptr)
    {
        setenv("FCSIM_NOASLR", "1", 1);
        if (personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1)
        {
            execv("/proc/self/exe", argv);
        }
    }
    find_lib_statics();
    // deterministic addresses for everything a container or task can observe
    void* a = mmap(ARENA, BLOCK * NSLOTS * 2, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    void* b = mmap(STACKS, (STACK + 65536) * (NTASKS + 1), PROT_NONE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (a != ARENA || b != STACKS)
    {
        fprintf(stderr, "cannot map the arena\n");
        return 3;
    }
    for (int i = 0; i <= NTASKS; ++i)
    {
        fibers[i].stack = STACKS + static_cast<std::size_t>(i) * (STACK + 65536) + 65536;
        if (mprotect(fibers[i].stack, STACK, PROT_READ | PROT_WRITE) != 0)
        {
            return 3;
        }
    }
    Spec sp;
    std::string cmd = argc > 1 ? argv[1] : "";
    std::string file;
    std::string images_out, images_in;
    u64 first = 0, stride = 1;
    bool verbose = false;
    for (int i = 2; i < argc; ++i)
    {
        const std::string k = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (k == "--prop")
        {
            sp.prop = val();
        }
        else if (k == "--seed")
        {
            sp.seed = strtoull(val().c_str(), nullptr, 10);
        }
        else if (k == "--runs")
        {
            sp.runs = strtoull(val().c_str(), nullptr, 10);
        }
        else if (k == "--workers")
        {
            sp.workers = atoi(val().c_str());
        }
        else if (k == "--faults")
        {
            sp.fault_mask = static_cast<u32>(strtoul(val().c_str(), nullptr, 0));
        }
        else if (k == "--watch")
        {
            watch_on = strtoul(val().c_str(), nullptr, 0) != 0;
        }
        else if (k == "--attrib")
        {
            sp.attrib = static_cast<u32>(strtoul(val().c_str(), nullptr, 0));
        }
        else if (k == "--bias")
        {
            sp.op_bias = static_cast<u32>(strtoul(val().c_str(), nullptr, 0));
        }
        else if (k == "--accept")
        {
            sp.accept = split(val());
        }
        else if (k == "--known")
        {
            probe_known = strtoul(val().c_str(), nullptr, 0) != 0;
        }
        else if (k == "--family")
        {
            sp.family = val();
        }
        else if (k == "--time")
        {
            sp.time_limit = atof(val().c_str());
        }
        else if (k == "--out")
        {
            sp.out = val();
        }
        else if (k == "--replay-dir")
        {
            sp.replay_dir = val();
        }
        else if (k == "--maxlen")
        {
            sp.max_len = static_cast<u32>(atoi(val().c_str()));
        }
        else if (k == "--images-out")
        {
            images_out = val();
        }
        else if (k == "--images-in")
        {
            images_in = val();
        }
        else if (k == "--first")
        {
            first = strtoull(val().c_str(), nullptr, 10);
        }
        else if (k == "--stride")
        {
            stride = strtoull(val().c_str(), nullptr, 10);
        }
        else if (k == "-v")
        {
            verbose = true;
        }
        else
        {
            file = k;
        }
    }
    if (cmd == "list")
    {
        for (auto& s : scenarios())
        {
            printf("%s cap=%u ops=%u\n", s.name, s.cap, s.nops);
        }
        return 0;
    }
    if (cmd == "run")
    {
        return cmd_run(sp);
    }
    if (cmd == "images")
    {
        return cmd_images(sp, (images_out.empty() ? images_in : images_out).c_str(), images_out.empty(), first, stride);
    }
    if (cmd == "replay" && !(images_out.empty() && images_in.empty()))
    {
        return cmd_replay_images(file.c_str(), (images_out.empty() ? images_in : images_out).c_str(), images_out.empty(),
                                 verbose);
    }
    if (cmd == "replay")
    {
        return cmd_replay(file.c_str(), verbose);
    }
    fprintf(stderr, "usage: fcsim run|replay|list ...\n");
    return 3;
}
