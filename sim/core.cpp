// The simulator: threads, scheduler, memory, faults, monitors and oracles.
// Not instrumented. Every library access reaches it through the __tsan_*
// callbacks that the compiler inserts into the library and into client.cpp,
// through operator new/delete and through the wrapped libc entry points.
#include "sim.hpp"

#include <atomic>
#include <cerrno>
#include <cfenv>
#include <xmmintrin.h>
#include <clocale>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <linux/futex.h>
#include <locale>
#include <locale.h>
#include <malloc.h>
#include <map>
#include <new>
#include <csetjmp>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>

const char *const TY_NAME[T_N] = {"int8_t","uint8_t","short","ushort","int","uint","long","ulong","llong","ullong",
    "enum:uint32_t","enum:int8_t","enum:llong","enum:ushort","streampos","float","double","longdouble","char","uchar","bool","null"};
const char *const K_NAME[K_N] = {"make","copy","assign","swap","destroy","read","vpush","vgrow","verase","vcopy","vclear","conv","str",
    "extract","reject","nfmt","errno","fpflags","round","locthread","locglobal","loccxx","send","recv","xmake","xcopy","xread","xdel","crowdend","trap","many"};
const char *const CLS_NAME[V_N] = {"none","wrong-result","data-race","out-of-bounds","use-after-free","leak","wrong-exception","crash","hang",
    "no-progress","blocked","needs-memory","ambient-changed","held-text-changed","argument-modified","stack-use","uses-the-system","cost"};
const char *const CNT_NAME[C_N] = {"steps","operations","preemptions_inside_calls","switches_at_call_boundaries","allocations",
    "alloc_failures_injected","alloc_failures_reported_as_bad_alloc","signal_handler_runs","signal_handler_runs_nested","threads_stalled_for_ever",
    "operations_completed_after_a_stall","locale_changes","locale_changes_inside_calls","errno_set","fp_flags_raised","rounding_mode_changes",
    "dirty_memory_fills","rejected_texts","container_relocations","copies","texts_received","texts_received_again","texts_received_under_another_locale",
    "held_text_checks","library_memory_accesses_checked","reads_of_shared_formatters","retries_after_failure_that_succeeded","race_checks",
    "operations_outside_main","calls_with_long_argument","repeated_calls","calls_on_threads_that_end","calls_on_ending_threads","calls_with_a_reused_argument_buffer","calls_during_exception_handling","extractors_asked","calls_on_threads_that_stay","threads_ended_later","odd_texts","conversions_abandoned","calls_through_kept_function_objects","conversions_made_by_the_allocator","failures_averted_by_a_new_handler","calls_with_floating_point_traps","calls_with_system_calls_intercepted","system_calls_for_memory","conversions_of_distinct_values","conversions_whose_work_was_bounded","conversions_whose_work_was_compared_with_an_earlier_one"};

Shm *g_shm;

// ---------------------------------------------------------------- simulated memory: fixed addresses
static constexpr uintptr_t BASE = 0x200000000000ull;
static constexpr size_t HEAP_SZ = 96u << 20, ARG_SZ = 24u << 20, SLOT_SZ = 1u << 20, RES_SZ = 0x50000;
static constexpr uintptr_t HEAP = BASE, ARG = HEAP + HEAP_SZ, SLOTS = ARG + ARG_SZ, RES = SLOTS + SLOT_SZ, SIM_END = RES + RES_SZ;
static constexpr uintptr_t SHADOW = 0x210000000000ull, STACKS = 0x220000000000ull;
static constexpr size_t STACK_SZ = 16u << 20;      // thread-local storage is in it
static constexpr size_t SLOT_STRIDE = 2048, SLOT_OFF = 512, SLOT_MAX = 1024;
static constexpr int FUN0 = 128, FUN_SLOTS = 8;     // where the slots of the function objects begin
static_assert(NSLOT + NX <= FUN0 && (size_t)(FUN0 + MAXT * FUN_SLOTS) * SLOT_STRIDE <= SLOT_SZ, "room for the slots");
enum { S_RED = 0, S_LIVE = 1, S_FREED = 2, S_RO = 3 };
static inline uint8_t *shadow(uintptr_t a) { return (uint8_t *)(SHADOW + (a - BASE)); }
static inline bool in(uintptr_t a, uintptr_t lo, size_t n) { return a - lo < n; }

struct BlkHdr { uint64_t magic, size; uint32_t id, forever; uint64_t next; };
static constexpr uint64_t MAGIC = 0x51dab10c4b10c4e5ull;
static constexpr size_t RZ = 32;    // header is inside the front red zone

enum HeapMode : uint8_t { H_REAL, H_SIM, H_ARG };
enum TSt : uint8_t { TS_DONE, TS_RUN, TS_BLOCKED, TS_STALLED };

struct T {
    int id;
    std::atomic<int> go{0};
    pthread_t th;
    bool hooks = false, in_core = true;
    HeapMode heap = H_REAL;
    TSt st = TS_DONE;
    uintptr_t blocked_on = 0;
    const Op *op = nullptr;
    int opidx = 0;
    uint32_t step = 0;
    uint64_t budget = 0;
    size_t evpos = 0;
    int depth = 0;
    // faults
    const Op *failop = nullptr;
    uint32_t allocs = 0, fired = 0;
    // random scheduling
    uint64_t cd_sw = 0, cd_intr = 0, cd_loc = 0, cd_stall = 0, cd_ab = 0, cd_re = 0;
    int re_left = 0;
    int intr_left = 0;
    // ambient
    int round = FE_TONEAREST, err = 0; int flags = 0, sticky = 0; unsigned denormals = 0;     // flags that the program set; flags that its conversions left set
    int loc = -1;
    uint32_t vc[MAXT];
    int rescur = 0;
    bool failed_before = false;
    bool fenced = false;
    bool fresh = false;     // runs on a thread that is about to end
    int crowd = 0;          // runs on this one of the threads that stay (1-based)
    uintptr_t sp0 = 0;      // stack at the start of the call
    std::string *scr[2] = {}; char *scrc = nullptr;     // argument buffers used again and again
    jmp_buf *jb = nullptr;  // where a conversion that is abandoned now goes on
    int traps = 0;          // floating-point exceptions that the thread traps, in its calls
    uint64_t touched = 0, touchmax = ~0ull;     // bytes that the call read or wrote, and may
    int64_t mem = 0, mempeak = 0;       // simulated memory that the call holds, and held at most
    uint64_t least = 0;     // steps of the cheapest repetition of this operation, but for the first
    int initdepth = 0;      // inside the initialisation of a function-local static
};
struct Slot { uint8_t st = 0; uint8_t ft = 0; int val = 0; bool held = false; const char *hp = nullptr; size_t hn = 0; bool shared_ro = false; };
struct XSlot { uint8_t st = 0, xk = 0; int txt = 0; bool shared_ro = false; };
enum { SL_DEAD, SL_LIVE, SL_BUSY, SL_MOVED };
struct ResS { bool live = false; bool busy = false; std::string exp; };
struct Msg { std::string *s; int val; int ty; int sender_loc; int recvs; std::string exp; };
struct Shd { uint32_t wc[8] = {}, rc[MAXT] = {}; uint8_t wt[8] = {}, rm[MAXT] = {}; };     // eight bytes: last write of each; last reads of each thread
struct Lock { int owner = -1; int count = 0; int readers = 0; int once = 0; };
struct VC { uint32_t c[MAXT] = {}; };

static constexpr int NRES = 8;     // kept results per thread
static constexpr int NMSG = 64;
struct World {
    std::map<uint64_t, uint64_t> cost;      // steps of calls, by what they are
    const Plan *P; bool replay;
    T *t[MAXT];
    Rng rng{1}, fillrng{1};
    int cur = -1, phase = 0, round = 0;
    bool running = false;
    std::atomic<int> ctl{0};
    Slot slot[NSLOT];
    XSlot xslot[NX];
    uint8_t fun[MAXT] = {};         // the function objects a thread keeps: 0 none, 1 there, 2 in use
    size_t longest = 0;
    ResS res[MAXT][NRES];
    std::vector<std::string> vexp[MAXT][F_N];
    alignas(16) char vec[MAXT][F_N][32];
    bool vbusy[MAXT][F_N];
    std::vector<Msg> msgs;
    std::vector<std::string *> strs, txts; std::vector<char *> cstrs, ctxts;
    std::vector<XVal> xexp;
    std::vector<int> oddk;      // of a text: which of the odd ones it is
    std::vector<std::string *> other;   // a valid text of any number or character, of a bool, of null
    std::vector<std::string> text, esc, json;   // per value
    std::vector<std::string> sesc, sjson;
    uintptr_t heap_top = HEAP, arg_top = ARG;
    std::map<size_t, std::vector<uintptr_t>> freed; std::map<size_t, size_t> freed_pos;
    uint64_t nblk = 0, live = 0, forever = 0, live_round[8] = {};
    std::unordered_map<uintptr_t, Shd> shd;
    std::unordered_map<uintptr_t, VC> sync;
    std::map<uintptr_t, Lock> locks;
    VC chan;
    int infloat = 0;
    int stalled = 0, want_stall = 0;
    std::string locname; int loc_global = 0, cxx_global = 0;
    bool cxx_changed = false;
    uint64_t ih = 1;
};
static World *W;
static __thread T *self_;
// Threads that make one call and stay.
static constexpr int MAXCROWD = 140;
static constexpr size_t CROWD_SZ = 1u << 20;
static constexpr uintptr_t CROWDS = STACKS + STACK_SZ * MAXT * 2;
struct Crowd { std::atomic<int> go{0}, done{0}; T *t = nullptr; const Op *op = nullptr; pthread_t th; int k = 0; bool parked = false, gone = false; };
static Crowd CR[MAXCROWD];
static int ncrowd;

static constexpr uint64_t COST0 = 40000, COST1 = 1000, COSTB0 = 100000, COSTB1 = 3000, COSTM0 = 8192, COSTM1 = 64, COST_SLACK = 1000;   // steps and bytes that a call may take; and per character
static constexpr size_t STACK_LIMIT = 64 << 10, STACK_CANARY = 256 << 10;

static inline void h(uint64_t v) { g_shm->hash = mix(g_shm->hash, v); }
static inline void cnt(int c, uint64_t n = 1) { g_shm->cnt[c] += n; }

static uintptr_t g_envs, g_enve;      // the pointers to the environment
static __thread char sysgate, sysgate_on;     // sysgate: 1 while system calls of this thread are intercepted
void violation(Cls c, const char *fmt, ...)
{
    sysgate = 0;
    if (g_shm->cls == V_NONE) {
        g_shm->cls = c;
        T *t = self_;
        g_shm->vround = W ? W->round : 0; g_shm->vphase = W ? W->phase : 0;
        g_shm->vthread = t ? t->id : -1; g_shm->vop = t ? t->opidx : -1; g_shm->vstep = t ? t->step : 0;
        static locale_t c = newlocale(LC_ALL_MASK, "C", (locale_t)0);
        uselocale(c);
        va_list ap; va_start(ap, fmt); vsnprintf(g_shm->msg, sizeof g_shm->msg, fmt, ap); va_end(ap);
    }
    _exit(3);
}

// Core code run from inside the library's call: no hooks, real memory.
struct Core {
    T *t; bool ic, hk; char sg;
    explicit Core(T *t_) : t(t_), ic(t_->in_core), hk(t_->hooks), sg(sysgate) { sysgate = 0; t->in_core = true; t->hooks = false; }
    ~Core() { t->in_core = ic; t->hooks = hk; sysgate = sg; }
};

static std::string where(uintptr_t a)
{
    char b[80];
    if (in(a, HEAP, HEAP_SZ)) snprintf(b, sizeof b, "heap+0x%zx", (size_t)(a - HEAP));
    else if (in(a, ARG, ARG_SZ)) snprintf(b, sizeof b, "argument memory+0x%zx", (size_t)(a - ARG));
    else if (in(a, SLOTS + (size_t)FUN0 * SLOT_STRIDE, (size_t)MAXT * FUN_SLOTS * SLOT_STRIDE)) snprintf(b, sizeof b, "the function objects kept by thread %d (offset %ld of %zu bytes)", (int)((a - SLOTS) / SLOT_STRIDE - FUN0) / FUN_SLOTS, (long)((a - SLOTS) - FUN0 * SLOT_STRIDE) % (long)(FUN_SLOTS * SLOT_STRIDE) - (long)SLOT_OFF, client_funs_sizeof());
    else if (in(a, SLOTS + (size_t)NSLOT * SLOT_STRIDE, (size_t)NX * SLOT_STRIDE)) snprintf(b, sizeof b, "extractor slot %d", (int)((a - SLOTS) / SLOT_STRIDE) - NSLOT);
    else if (in(a, SLOTS, SLOT_SZ)) snprintf(b, sizeof b, "formatter slot %d%+ld", (int)((a - SLOTS) / SLOT_STRIDE), (long)((a - SLOTS) % SLOT_STRIDE) - (long)SLOT_OFF);
    else if (in(a, RES, RES_SZ)) snprintf(b, sizeof b, "result string %d+%d", (int)((a - RES) / 64), (int)((a - RES) % 64));
    else if (in(a, STACKS + STACK_SZ * MAXT, STACK_SZ * MAXT)) snprintf(b, sizeof b, "memory of a short-lived thread of thread %d", (int)((a - STACKS) / STACK_SZ - MAXT));
    else if (in(a, STACKS, STACK_SZ * MAXT)) snprintf(b, sizeof b, "stack of thread %d", (int)((a - STACKS) / STACK_SZ));
    else if (in(a, CROWDS, CROWD_SZ * MAXCROWD)) snprintf(b, sizeof b, "memory of another thread");
    else if (a < 0x10000000ull) snprintf(b, sizeof b, "static data at 0x%zx", (size_t)a);
    else snprintf(b, sizeof b, "other memory");
    return b;
}

// ---------------------------------------------------------------- baton
static void futex(std::atomic<int> *a, int op, int v) { syscall(SYS_futex, (int *)a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }
static void give(std::atomic<int> *a) { a->store(1); futex(a, FUTEX_WAKE, 1); }
static void take(std::atomic<int> *a)
{
    while (a->load() == 0) futex(a, FUTEX_WAIT, 0);
    a->store(0);
}
static bool runnable(int i) { return i >= 0 && i < W->P->nthreads && W->t[i]->st == TS_RUN; }

static void log_ev(T *t, int kind, int arg, uint32_t step)
{
    if (W->replay) return;
    uint32_t n = g_shm->nlog;
    if (n >= NLOG) { g_shm->logdrop++; return; }
    LogEv &e = g_shm->log[n];
    e.round = (uint8_t)W->round; e.phase = (uint8_t)W->phase; e.t = (uint8_t)t->id; e.kind = (uint8_t)kind;
    e.op = (uint16_t)t->opidx; e.arg = (int16_t)arg; e.step = step;
    g_shm->nlog = n + 1;
}
static const Ev *find_ev(T *t, uint32_t step, int kind)    // kind -1: any but NEXT
{
    if (!t->op) return nullptr;
    for (const Ev &e : t->op->evs)
        if (e.step == step && e.round == W->round && (kind < 0 ? e.kind != EV_NEXT : e.kind == kind)) return &e;
    return nullptr;
}
static void switch_to(T *t, int target)
{
    h(0x1000 + (uint64_t)t->id * 16 + (uint64_t)target); 
    W->ih = mix(W->ih, ((uint64_t)t->id << 40) ^ ((uint64_t)target << 36) ^ ((uint64_t)(t->op ? t->op->kind : 63) << 28) ^ t->step);
    W->cur = target;
    const int e = errno;
    const char sg = sysgate;
    sysgate = 0;
    give(&W->t[target]->go);
    take(&t->go);
    sysgate = sg;
    errno = e;
}
static void leave(T *t, bool forever)     // t cannot run now (blocked, stalled or done): pick another
{
    int cand[MAXT], n = 0;
    for (int i = 0; i < W->P->nthreads; i++) if (runnable(i)) cand[n++] = i;
    if (n == 0) {
        for (int i = 0; i < W->P->nthreads; i++)
            if (W->t[i]->st == TS_BLOCKED) {
                if (W->stalled) violation(V_BLOCKED, "thread %d waits for ever for a lock held by a thread that is stalled inside a conversion", i);
                violation(V_HANG, "deadlock: thread %d waits for ever for a lock", i);
            }
        W->cur = -1;
        give(&W->ctl);
        if (forever) for (;;) take(&t->go);
        take(&t->go);
        return;
    }
    int target = cand[0];
    const uint32_t key = t->st == TS_DONE ? 0xffffffffu : t->step;
    if (t->op) {
        if (W->replay) { const Ev *e = find_ev(t, key, EV_NEXT); if (e && runnable(e->arg)) target = e->arg; }
        else { target = cand[W->rng.below((uint64_t)n)]; if (n > 1) log_ev(t, EV_NEXT, target, key); }
    }
    h(0x2000 + (uint64_t)t->id * 16 + (uint64_t)target);
    W->ih = mix(W->ih, 0x777 + ((uint64_t)t->id << 20) + (uint64_t)target);
    W->cur = target;
    give(&W->t[target]->go);
    if (forever) for (;;) take(&t->go);
    take(&t->go);
}
static void run_op(T *t, const Op &op, bool nested);
static void locale_global(int i);

static uint64_t op_len(const Op &op);
static void do_preempt(T *t, int target, bool boundary)
{
    cnt(boundary ? C_SWITCH_BOUND : C_SWITCH_MID);
    if (!boundary) g_shm->nontrivial = 1;
    switch_to(t, target);
}
static void do_intr(T *t, int idx, bool sig = true)
{
    if (sig) { cnt(C_INTR); if (t->depth) cnt(C_INTR_NESTED); } else cnt(C_REENTER);
    g_shm->nontrivial = 1;
    h(0x3000 + (uint64_t)idx); W->ih = mix(W->ih, 0x999 + (uint64_t)idx * 64 + t->step);
    const int e = errno;
    const bool ic = t->in_core, hk = t->hooks; const HeapMode hm = t->heap; const Op *fo = t->failop; const uint32_t al = t->allocs;
    t->depth++;
    t->failop = nullptr;
    run_op(t, W->P->nested[(size_t)idx % W->P->nested.size()], true);
    t->depth--;
    t->failop = fo; t->allocs = al; t->in_core = ic; t->hooks = hk; t->heap = hm;
    errno = e;
}
// The program's own operator new, operator delete or new-handler converts. Not in the initialisation of a function-local static.
static bool do_reenter(T *t, bool failed)
{
    if (!t->hooks || t->initdepth || t->depth >= 2 || W->P->nested.empty()) return false;
    Core c(t);
    t->step++;
    int i;
    if (W->replay) {
        const Ev *e = find_ev(t, t->step, EV_REENTER);
        if (!e) return false;
        i = e->arg;
    } else {
        if (t->re_left <= 0) return false;
        if (failed) { if (W->rng.pct(50)) return false; }
        else { if (!t->cd_re || --t->cd_re) return false; t->cd_re = W->rng.geom(W->P->st.re_mean); }
        t->re_left--;
        i = (int)W->rng.below(W->P->nested.size());
        log_ev(t, EV_REENTER, i, t->step);
    }
    if (t->budget) t->budget += 1500000 + 600 * op_len(W->P->nested[(size_t)i % W->P->nested.size()]);
    do_intr(t, i, false);
    if (failed) cnt(C_RESCUE);
    return true;
}
static void do_stall(T *t)
{
    cnt(C_STALL); g_shm->nontrivial = 1;
    h(0x4000); W->ih = mix(W->ih, 0xaaa + t->step);
    W->stalled++;
    t->st = TS_STALLED;
    leave(t, true);
}
static void do_loc(T *, int i)
{
    if (W->infloat) return;
    cnt(C_LOC_MID); g_shm->nontrivial = 1;
    W->ih = mix(W->ih, 0xbbb + (uint64_t)i);
    locale_global(i);
}

// A signal handler leaves the conversion with siglongjmp. Not in the initialisation of a function-local static, which happens once.
static bool abandonable(T *t) { return t->jb && t->initdepth == 0; }
static void do_abandon(T *t)
{
    cnt(C_ABANDON); g_shm->nontrivial = 1;
    h(0x5000); W->ih = mix(W->ih, 0xccc + t->step);
    jmp_buf *j = t->jb; t->jb = nullptr;
    _longjmp(*j, 1);
}

// One scheduling point. boundary: between operations.
static void point(T *t, bool boundary)
{
    t->step++;
    cnt(C_STEPS);
    if (!boundary) {
        if (t->budget && t->step > t->budget)
            violation(V_NOPROGRESS, "no end after %u steps of its own%s", t->step, W->stalled ? " while other threads are stalled" : "");
        if (t->step % (t->op && (t->op->fresh & 32) ? std::max(100000u, W->P->fair) : W->P->fair) == 0) {
            for (int k = 1; k < MAXT; k++) { int i = (t->id + k) % MAXT; if (runnable(i)) { switch_to(t, i); break; } }
            return;
        }
    }
    if (W->replay) {
        const Op *op = t->op;
        if (!op || op->evs.empty()) return;
        const Ev *e = find_ev(t, t->step, -1);
        if (!e) return;
        switch (e->kind) {
            case EV_PREEMPT: if (runnable(e->arg) && e->arg != t->id) do_preempt(t, e->arg, boundary); break;
            case EV_INTR: if (!boundary && t->depth < 2 && !W->P->nested.empty()) do_intr(t, e->arg); break;
            case EV_STALL: if (!boundary) do_stall(t); break;
            case EV_LOC: if (!boundary) do_loc(t, e->arg); break;
            case EV_ABANDON: if (!boundary && abandonable(t)) do_abandon(t); break;
            default: break;
        }
        return;
    }
    const Strat &s = W->P->st;
    if (!boundary) {
        if (t->cd_intr && t->intr_left > 0 && t->depth < 2 && --t->cd_intr == 0) {
            t->cd_intr = W->rng.geom(s.intr_mean);
            t->intr_left--;
            int i = (int)W->rng.below(W->P->nested.size());
            log_ev(t, EV_INTR, i, t->step);
            do_intr(t, i);
            return;
        }
        if (t->cd_ab && t->jb && --t->cd_ab == 0) {
            if (!abandonable(t)) t->cd_ab = 1;
            else { t->cd_ab = W->rng.pct(50) ? W->rng.geom(s.ab_mean) : 0; log_ev(t, EV_ABANDON, 0, t->step); do_abandon(t); }
        }
        if (t->cd_stall && --t->cd_stall == 0) {
            int others = 0;
            for (int i = 0; i < W->P->nthreads; i++) if (i != t->id && W->t[i]->st == TS_RUN) others++;
            if (others && W->want_stall > 0) { W->want_stall--; log_ev(t, EV_STALL, 0, t->step); do_stall(t); }
        }
        if (t->cd_loc && --t->cd_loc == 0) {
            t->cd_loc = W->rng.geom(s.loc_mean);
            int i = (int)W->rng.below((uint64_t)locales_count());
            if (!W->infloat) { log_ev(t, EV_LOC, i, t->step); do_loc(t, i); return; }
        }
        if (!t->cd_sw || --t->cd_sw != 0) return;
        t->cd_sw = W->rng.geom(s.sw_mean);
    } else if (!W->rng.pct(s.sw_bound)) return;
    int cand[MAXT], n = 0;
    for (int i = 0; i < W->P->nthreads; i++) if (i != t->id && runnable(i)) cand[n++] = i;
    if (!n) return;
    int target = cand[W->rng.below((uint64_t)n)];
    log_ev(t, EV_PREEMPT, target, t->step);
    do_preempt(t, target, boundary);
}

// ---------------------------------------------------------------- memory monitor and race detector
static void race_access(T *t, uintptr_t a, size_t n, bool w)
{
    cnt(C_RACE_CHECKS);
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
        uint8_t m = 0;
        for (int b = 0; b < 8; b++) { uintptr_t x = (g << 3) + (uintptr_t)b; if (x >= a && x < a + n) m |= (uint8_t)(1 << b); }
        Shd &s = W->shd[g];
        for (int b = 0; b < 8; b++)
            if ((m >> b & 1) && s.wc[b] && s.wt[b] != t->id && t->vc[s.wt[b]] < s.wc[b])
                violation(V_RACE, "thread %d %s %s, which thread %d wrote without synchronisation", t->id, w ? "writes" : "reads", where(a).c_str(), s.wt[b]);
        if (w)
            for (int i = 0; i < MAXT; i++)
                if (i != t->id && s.rc[i] && (s.rm[i] & m) && t->vc[i] < s.rc[i])
                    violation(V_RACE, "thread %d writes %s, which thread %d read without synchronisation", t->id, where(a).c_str(), i);
        const uint32_t now = t->vc[t->id];
        if (w) { for (int b = 0; b < 8; b++) if (m >> b & 1) { s.wc[b] = now; s.wt[b] = (uint8_t)t->id; } }
        else if (s.rc[t->id] == now) s.rm[t->id] |= m;
        else { s.rc[t->id] = now; s.rm[t->id] = m; }
    }
}
static void race_clear(uintptr_t a, size_t n)
{
    if (!W->P->race) return;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) W->shd.erase(g);
}
extern "C" char _end;
static void check_access(T *t, uintptr_t a, size_t n, bool w)
{
    if (n == 0) return;
    if (W->P->smallstack && t->sp0 && a < t->sp0 - STACK_LIMIT && in(a, STACKS, STACK_SZ * MAXT * 2) && in(t->sp0 - a, 0, STACK_SZ))
        violation(V_STACK, "thread %d uses more than %zu bytes of stack in a conversion", t->id, STACK_LIMIT);
    if (in(a, STACKS + STACK_SZ * (size_t)t->id, STACK_SZ)) return;
    if (in(a, STACKS + STACK_SZ * MAXT, STACK_SZ * MAXT)) {
        const int o = (int)((a - STACKS) / STACK_SZ) - MAXT;
        if (o == t->id && t->fresh) return;
        if (o >= W->P->nthreads || !W->t[o]->fresh) violation(V_UAF, "thread %d %s memory of a thread that has ended", t->id, w ? "writes" : "reads");
    }
    if (in(a, CROWDS, CROWD_SZ * MAXCROWD)) {
        const int k = (int)((a - CROWDS) / CROWD_SZ);
        if (t->crowd == k + 1) return;
        if (k >= ncrowd || CR[k].gone) violation(V_UAF, "thread %d %s memory of a thread that has ended", t->id, w ? "writes" : "reads");
    }
    cnt(C_LIB_ACCESS);
    if (in(a, BASE, SIM_END - BASE)) {
        h((a - BASE) * 4 + w);
        for (size_t i = 0; i < n; i++) {
            uint8_t s = *shadow(a + i);
            if (s == S_LIVE || (s == S_RO && !w)) continue;
            if (s == S_RO) {
                if (in(a, ARG, ARG_SZ)) violation(V_ARGMOD, "thread %d writes to its argument (%s)", t->id, where(a + i).c_str());
                violation(V_ARGMOD, "thread %d modifies an object that it only reads (%s)", t->id, where(a + i).c_str());
            }
            if (s == S_FREED) violation(V_UAF, "thread %d %s memory that no longer belongs to anyone: %s", t->id, w ? "writes" : "reads", where(a + i).c_str());
            violation(V_OOB, "thread %d %s outside any object: %s", t->id, w ? "writes" : "reads", where(a + i).c_str());
        }
    } else if (W->P->outside && ((a >= g_envs && a < g_enve) || in(a, (uintptr_t)&environ, sizeof environ))) violation(V_OUTSIDE, "%s: %s the environment of the process", g_shm->last, w ? "changes" : "reads");
    else if (a < (uintptr_t)&_end) h(a * 4 + w);     // static data; the real heap's place differs between processes
    if (W->P->race) race_access(t, a, n, w);
}
static void access_slow(T *t, const void *p, size_t n, bool w)
{
    const int e = errno;
    {
        Core c(t);
        point(t, false);
        t->touched += n;
        if (t->touched > t->touchmax) violation(V_COST, "%s: reads and writes more than %lu bytes", g_shm->last, (unsigned long)t->touchmax);
        check_access(t, (uintptr_t)p, n, w);
    }
    errno = e;
}
static inline T *hooked()
{
    T *t = self_;
    return t && t->hooks ? t : nullptr;
}
static inline void acc(const void *p, size_t n, bool w) { if (T *t = hooked()) access_slow(t, p, n, w); }
static void just_point() { if (T *t = hooked()) { const int e = errno; { Core c(t); point(t, false); } errno = e; } }
static void acquire(T *t, uintptr_t a) { VC &v = W->sync[a]; for (int i = 0; i < MAXT; i++) if (v.c[i] > t->vc[i]) t->vc[i] = v.c[i]; }
static void release(T *t, uintptr_t a) { VC &v = W->sync[a]; for (int i = 0; i < MAXT; i++) if (t->vc[i] > v.c[i]) v.c[i] = t->vc[i]; t->vc[t->id]++; }

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { just_point(); }
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void *p) { acc(p, N, false); } \
    void __tsan_write##N(void *p) { acc(p, N, true); } \
    void __tsan_unaligned_read##N(void *p) { acc(p, N, false); } \
    void __tsan_unaligned_write##N(void *p) { acc(p, N, true); } \
    void __tsan_volatile_read##N(void *p) { acc(p, N, false); } \
    void __tsan_volatile_write##N(void *p) { acc(p, N, true); } \
    void __tsan_read_write##N(void *p) { acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { acc(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { acc(p, n, true); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true); }
void __tsan_vptr_read(void **p) { acc(p, 8, false); }
void __tsan_read1_pc(void *p, void *) { acc(p, 1, false); }

// Values are sequentially consistent; what an operation orders is what its memory order says, so that
// unordered publication shows as a race. A fence may order relaxed operations: after one, they count as ordered.
static inline bool oacq(T *t, int o) { o &= 0xffff; return o == 1 || o == 2 || o >= 4 || t->fenced; }
static inline bool orel(T *t, int o) { o &= 0xffff; return o >= 3 || t->fenced; }
#define AT_BEGIN(a) T *t = hooked(); if (t) { Core c(t); point(t, false); }
#define AT_END(acqf, relf, a) if (t) { Core c(t); if (acqf) acquire(t, (uintptr_t)(a)); if (relf) release(t, (uintptr_t)(a)); }
#define RMW(N, TYPE, NAME, EXPR) TYPE __tsan_atomic##N##_##NAME(volatile TYPE *a, TYPE v, int o) { AT_BEGIN(a) TYPE r = EXPR(a, v, 5); AT_END(oacq(t, o), orel(t, o), a) return r; }
#define ATOMIC(N, TYPE) \
    TYPE __tsan_atomic##N##_load(const volatile TYPE *a, int o) { AT_BEGIN(a) TYPE v = __atomic_load_n(a, 5); AT_END(oacq(t, o), 0, a) return v; } \
    void __tsan_atomic##N##_store(volatile TYPE *a, TYPE v, int o) { AT_BEGIN(a) AT_END(0, orel(t, o), a) __atomic_store_n(a, v, 5); } \
    RMW(N, TYPE, exchange, __atomic_exchange_n) RMW(N, TYPE, fetch_add, __atomic_fetch_add) RMW(N, TYPE, fetch_sub, __atomic_fetch_sub) RMW(N, TYPE, fetch_and, __atomic_fetch_and) \
    RMW(N, TYPE, fetch_or, __atomic_fetch_or) RMW(N, TYPE, fetch_xor, __atomic_fetch_xor) RMW(N, TYPE, fetch_nand, __atomic_fetch_nand) \
    int __tsan_atomic##N##_compare_exchange_strong(volatile TYPE *a, TYPE *c_, TYPE v, int o, int f) { AT_BEGIN(a) int r = __atomic_compare_exchange_n(a, c_, v, 0, 5, 5); AT_END(oacq(t, r ? o : f), r && orel(t, o), a) return r; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile TYPE *a, TYPE *c_, TYPE v, int o, int f) { AT_BEGIN(a) int r = __atomic_compare_exchange_n(a, c_, v, 0, 5, 5); AT_END(oacq(t, r ? o : f), r && orel(t, o), a) return r; } \
    TYPE __tsan_atomic##N##_compare_exchange_val(volatile TYPE *a, TYPE c_, TYPE v, int o, int f) { AT_BEGIN(a) int r = __atomic_compare_exchange_n(a, &c_, v, 0, 5, 5); AT_END(oacq(t, r ? o : f), r && orel(t, o), a) return c_; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { just_point(); if (T *t = self_) t->fenced = true; }
void __tsan_atomic_signal_fence(int) {}
}

#ifdef SIM_ASAN
// ---- the same seam through AddressSanitizer's callbacks: adds bounds of static data and of stack objects
extern "C" {
#define ARW(N) \
    void __real___asan_load##N(uintptr_t); void __real___asan_store##N(uintptr_t); \
    void __wrap___asan_load##N(uintptr_t a) { acc((void *)a, N, false); __real___asan_load##N(a); } \
    void __wrap___asan_store##N(uintptr_t a) { acc((void *)a, N, true); __real___asan_store##N(a); }
ARW(1) ARW(2) ARW(4) ARW(8) ARW(16)
void __real___asan_loadN(uintptr_t, size_t); void __real___asan_storeN(uintptr_t, size_t);
void __wrap___asan_loadN(uintptr_t a, size_t n) { acc((void *)a, n, false); __real___asan_loadN(a, n); }
void __wrap___asan_storeN(uintptr_t a, size_t n) { acc((void *)a, n, true); __real___asan_storeN(a, n); }
int __asan_get_report_access_type(); size_t __asan_get_report_access_size(); const char *__asan_get_report_description();
void __asan_on_error()
{
    T *t = self_;
    violation(V_OOB, "thread %d %s %zu bytes outside any object: %s", t ? t->id : -1, __asan_get_report_access_type() ? "writes" : "reads", __asan_get_report_access_size(), __asan_get_report_description());
}
const char *__asan_default_options() { return "detect_leaks=0:alloc_dealloc_mismatch=0:log_path=/dev/null:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:detect_odr_violation=0"; }
}
#endif

// ---------------------------------------------------------------- simulated heap
static uint8_t fill_byte(uintptr_t i)
{
    switch (W->P->fill) {
        case 0: return 0;
        case 1: return 0xff;
        case 2: return '0' + (uint8_t)(i % 10);
        case 3: return '.';
        case 4: return 'e';
        default: return (uint8_t)(W->fillrng.next() >> 24);
    }
}
static void dirty(uintptr_t a, size_t n)
{
    cnt(C_DIRTY);
    if (n > 4096) { memset((void *)a, 0xA5 ^ W->P->fill, n); return; }
    for (size_t i = 0; i < n; i++) *(uint8_t *)(a + i) = fill_byte(i);
}
static inline uint8_t rz_byte(uintptr_t a) { return (uint8_t)(0xC0 ^ (a * 37)); }
static void *blk_make(uintptr_t base, size_t n, size_t cap, uint8_t sh)
{
    BlkHdr *hd = (BlkHdr *)base;
    hd->magic = MAGIC; hd->size = n; hd->id = (uint32_t)W->nblk++; hd->forever = 0; hd->next = cap;
    uintptr_t u = base + RZ;
    for (uintptr_t x = u + n; x < u + cap + RZ; x++) *(uint8_t *)x = rz_byte(x);
    memset(shadow(base), S_RED, RZ + cap + RZ);
    if (n) memset(shadow(u), sh, n);
    return (void *)u;
}
// Memory that code of a shared library asks for, as libstdc++ may under a lock of its own, is not a scheduling point.
static inline bool ours(const void *ret) { return (uintptr_t)ret < (uintptr_t)&_end; }
static void *sim_alloc(T *t, size_t n, bool sched = true)      // nullptr: injected failure
{
    Core c(t);
    if (c.hk && sched) point(t, false);
    cnt(C_ALLOC);
    const uint32_t idx = t->allocs++;
    bool fail = false;
    if (t->failop) {
        const Op *o = t->failop;
        if (o->fail == FM_ALL) fail = true;
        else if (o->fail == FM_MASK) fail = idx < 64 ? (o->failarg >> idx) & 1 : false;
        else if (o->fail == FM_SIZE) fail = n >= o->failarg;
    }
    h(0x5000 + n * 2 + fail);
    if (fail) { cnt(C_FAULT_ALLOC); t->fired++; g_shm->nontrivial = 1; W->ih = mix(W->ih, 0xccc + idx); return nullptr; }
    size_t cap = (n + 15) & ~(size_t)15;
    if (!cap) cap = 16;
    uintptr_t base;
    { auto &f = W->freed[cap]; if (f.size() - W->freed_pos[cap] > 100000) { base = f[W->freed_pos[cap]++]; goto have; } }    // freed memory stays poisoned for long
    if (W->heap_top + cap + 2 * RZ > HEAP + HEAP_SZ) {
        auto &f = W->freed[cap]; size_t &p = W->freed_pos[cap];
        if (p >= f.size()) { base = 0; for (auto &kv : W->freed) if (kv.first >= cap && W->freed_pos[kv.first] < kv.second.size()) { base = kv.second[W->freed_pos[kv.first]++]; cap = kv.first; break; } 
            if (!base) { fprintf(stderr, "simulated heap exhausted\n"); _exit(9); } }
        else base = f[p++];
    } else { base = W->heap_top; W->heap_top += cap + 2 * RZ; }
have:
    void *r = blk_make(base, n, cap, S_LIVE);
    dirty((uintptr_t)r, n);
    if (n) race_clear((uintptr_t)r, n);
    W->live++;
    t->touched += n; t->mem += (int64_t)n; t->mempeak = std::max(t->mempeak, t->mem);
    if (t->initdepth) { ((BlkHdr *)((uintptr_t)r - RZ))->forever = 1; W->forever++; }
    return r;
}
static void blk_check(uintptr_t u, const char *when)
{
    BlkHdr *hd = (BlkHdr *)(u - RZ);
    if (hd->magic != MAGIC) violation(V_OOB, "memory before an allocated block was overwritten (%s), at %s", when, where(u).c_str());
    for (uintptr_t x = u + hd->size; x < u + hd->next + RZ; x++)
        if (*(uint8_t *)x != rz_byte(x)) violation(V_OOB, "memory after an allocated block of %zu bytes was overwritten (%s), at +%zu", (size_t)hd->size, when, (size_t)(x - u));
}
static void sim_free(T *t, void *p, bool sched)
{
    Core c(t);
    if (c.hk && sched) point(t, false);
    uintptr_t u = (uintptr_t)p;
    BlkHdr *hd = (BlkHdr *)(u - RZ);
    if ((u & 15) || hd->magic != MAGIC) violation(V_OOB, "free of something that is not an allocated block: %s", where(u).c_str());
    if (hd->size && *shadow(u) == S_FREED) violation(V_UAF, "double free of %s", where(u).c_str());
    blk_check(u, "at free");
    h(0x6000 + hd->size);
    if (hd->size) { memset(shadow(u), S_FREED, hd->size); memset(p, 0xDD, hd->size); }
    W->freed[hd->next].push_back(u - RZ);
    W->live--;
    t->mem -= (int64_t)hd->size;
    if (hd->forever) W->forever--;
}
static void *arg_alloc(size_t n)
{
    size_t cap = ((n + 15) & ~(size_t)15); if (!cap) cap = 16;
    if (W->arg_top + cap + 2 * RZ > ARG + ARG_SZ) { fprintf(stderr, "argument memory exhausted\n"); _exit(9); }
    uintptr_t b = W->arg_top; W->arg_top += cap + 2 * RZ;
    return blk_make(b, n, cap, S_RO);
}

extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
}
static inline T *simheap() { T *t = self_; return t && !t->in_core && t->heap == H_SIM ? t : nullptr; }

static void *op_new(size_t n, bool nothrow, const void *ret)
{
    T *t = self_;
    if (t && !t->in_core && t->heap == H_SIM) {
        if (W->P->reenter) do_reenter(t, false);
        void *p = sim_alloc(t, n, ours(ret));
        if (!p && W->P->reenter && do_reenter(t, true)) { const Op *fo = t->failop; t->failop = nullptr; p = sim_alloc(t, n, ours(ret)); t->failop = fo; }    // a new-handler made memory available
        if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        return p;
    }
    if (t && t->heap == H_ARG) return arg_alloc(n);
    void *p = __real_malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
}
static void op_delete(void *p, const void *ret = nullptr)
{
    if (!p) return;
    uintptr_t a = (uintptr_t)p;
    if (in(a, HEAP, HEAP_SZ)) {
        if (self_) { if (W->P->reenter && ret && !self_->in_core && self_->heap == H_SIM) do_reenter(self_, false); sim_free(self_, p, ours(ret)); }
        else { BlkHdr *hd = (BlkHdr *)(a - RZ); if (hd->size) { memset(shadow(a), S_FREED, hd->size); memset(p, 0xDD, hd->size); } W->live--; if (hd->forever) W->forever--; }
        return;
    }
    if (in(a, ARG, ARG_SZ)) {
        T *t = self_;
        if (t && !t->in_core) violation(V_ARGMOD, "thread %d frees its argument's memory", t->id);
        return;
    }
    if (W && W->P->stages && !(self_ && self_->in_core)) memset(p, 0xDD, malloc_usable_size(p));
    __real_free(p);
}
void *operator new(size_t n) { return op_new(n, false, __builtin_return_address(0)); }
void *operator new[](size_t n) { return op_new(n, false, __builtin_return_address(0)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, true, __builtin_return_address(0)); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, true, __builtin_return_address(0)); }
void operator delete(void *p) noexcept { op_delete(p, __builtin_return_address(0)); }
void operator delete[](void *p) noexcept { op_delete(p, __builtin_return_address(0)); }
void operator delete(void *p, size_t) noexcept { op_delete(p, __builtin_return_address(0)); }
void operator delete[](void *p, size_t) noexcept { op_delete(p, __builtin_return_address(0)); }
void operator delete(void *p, const std::nothrow_t &) noexcept { op_delete(p, __builtin_return_address(0)); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { op_delete(p, __builtin_return_address(0)); }

// ---------------------------------------------------------------- wrapped libc entry points (library and client only see these)
extern "C" {
void *__wrap_malloc(size_t n) { if (T *t = simheap()) { void *p = sim_alloc(t, n); if (!p) errno = ENOMEM; return p; } return __real_malloc(n); }
void __wrap_free(void *p) { if (p && in((uintptr_t)p, BASE, SIM_END - BASE)) { op_delete(p); return; } __real_free(p); }
void *__wrap_calloc(size_t a, size_t b)
{
    if (T *t = simheap()) { void *p = sim_alloc(t, a * b); if (p) memset(p, 0, a * b); else errno = ENOMEM; return p; }
    return __real_calloc(a, b);
}
void *__wrap_realloc(void *o, size_t n)
{
    if (T *t = simheap()) {
        void *p = sim_alloc(t, n); if (!p) { errno = ENOMEM; return nullptr; }
        if (o && in((uintptr_t)o, HEAP, HEAP_SZ)) { size_t m = ((BlkHdr *)((uintptr_t)o - RZ))->size; memcpy(p, o, m < n ? m : n); op_delete(o); }
        return p;
    }
    return __real_realloc(o, n);
}
char *__wrap_strdup(const char *s)
{
    if (simheap()) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
    return __real_strdup(s);
}
char *__real_strndup(const char *, size_t); int __real_vasprintf(char **, const char *, va_list); void *__real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t);
char *__wrap_strndup(const char *s, size_t m)
{
    if (simheap()) { size_t n = 0; while (n < m && s[n]) n++; char *p = (char *)__wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
    return __real_strndup(s, m);
}
int __wrap_vasprintf(char **d, const char *f, va_list ap)
{
    if (!simheap()) return __real_vasprintf(d, f, ap);
    va_list b; va_copy(b, ap); const int r = vsnprintf(nullptr, 0, f, b); va_end(b);
    if (r < 0) return r;
    char *p = (char *)__wrap_malloc((size_t)r + 1);
    if (!p) return -1;
    *d = p;
    return vsnprintf(p, (size_t)r + 1, f, ap);
}
int __wrap_asprintf(char **d, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vasprintf(d, f, ap); va_end(ap); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { return simheap() && a <= 16 ? __wrap_malloc(n) : __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n)
{
    if (!simheap() || a > 16) return __real_posix_memalign(p, a, n);
    const int e = errno; void *q = __wrap_malloc(n); errno = e;
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
char *__real_strncpy(char *, const char *, size_t); char *__real_strcpy(char *, const char *); 
// A copy is not atomic: it has scheduling points inside.
static void wr2(T *t, void *d, const void *s, size_t n) { access_slow(t, s, n, false); access_slow(t, d, n, true); }
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    if (T *t = hooked()) {
        if (n >= 2) { size_t k = n / 2; wr2(t, d, s, k); __real_memcpy(d, s, k); wr2(t, (char *)d + k, (const char *)s + k, n - k); __real_memcpy((char *)d + k, (const char *)s + k, n - k); return d; }
        if (n) wr2(t, d, s, n);
    }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    if (T *t = hooked()) if (n) {
        wr2(t, d, s, n);
        if (n >= 2 && n <= 256) {
            char tmp[256]; __real_memcpy(tmp, s, n);
            size_t k = n / 2; __real_memcpy(d, tmp, k); just_point(); __real_memcpy((char *)d + k, tmp + k, n - k); return d;
        }
    }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n)
{
    if (T *t = hooked()) if (n) access_slow(t, d, n, true);
    return __real_memset(d, c, n);
}
char *__wrap_strncpy(char *d, const char *s, size_t n)
{
    if (T *t = hooked()) if (n) {
        size_t l = strnlen(s, n); size_t r = l < n ? l + 1 : n;
        access_slow(t, s, r, false); access_slow(t, d, n, true);
        if (n >= 2) { size_t k = n / 2; for (size_t i = 0; i < k; i++) d[i] = i < l ? s[i] : 0; just_point(); for (size_t i = k; i < n; i++) d[i] = i < l ? s[i] : 0; return d; }
    }
    return __real_strncpy(d, s, n);
}
char *__wrap_strcpy(char *d, const char *s)
{
    if (T *t = hooked()) { size_t n = strlen(s) + 1; wr2(t, d, s, n); }
    return __real_strcpy(d, s);
}
static void rd(const void *p, size_t n) { if (T *t = hooked()) if (n) access_slow(t, p, n, false); }
static void wr(const void *p, size_t n) { if (T *t = hooked()) if (n) access_slow(t, p, n, true); }
#define STRTO(TYPE, NAME) \
    TYPE __real_##NAME(const char *, char **); \
    TYPE __wrap_##NAME(const char *s, char **e) { just_point(); char *x; TYPE v = __real_##NAME(s, &x); if (e) *e = x; rd(s, (size_t)(x - s) + 1); return v; }
STRTO(long double, strtold) STRTO(double, strtod) STRTO(float, strtof)
#define STRTOI(TYPE, NAME) \
    TYPE __real_##NAME(const char *, char **, int); \
    TYPE __wrap_##NAME(const char *s, char **e, int b) { just_point(); char *x; TYPE v = __real_##NAME(s, &x, b); if (e) *e = x; rd(s, (size_t)(x - s) + 1); return v; }
STRTOI(unsigned long long, strtoull) STRTOI(long long, strtoll) STRTOI(unsigned long, strtoul) STRTOI(long, strtol)
STRTOI(unsigned long long, __isoc23_strtoull) STRTOI(long long, __isoc23_strtoll) STRTOI(unsigned long, __isoc23_strtoul) STRTOI(long, __isoc23_strtol)
size_t __real_strlen(const char *); int __real_memcmp(const void *, const void *, size_t); void *__real_memchr(const void *, int, size_t);
int __real_strcmp(const char *, const char *); int __real_strncmp(const char *, const char *, size_t); char *__real_strchr(const char *, int); char *__real_strrchr(const char *, int);
char *__real_strcat(char *, const char *); int __real_vsnprintf(char *, size_t, const char *, va_list); int __real_vsprintf(char *, const char *, va_list);
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); rd(s, n + 1); return n; }
int __wrap_memcmp(const void *a, const void *b, size_t n) { rd(a, n); rd(b, n); return __real_memcmp(a, b, n); }
void *__wrap_memchr(const void *a, int c, size_t n) { void *p = __real_memchr(a, c, n); rd(a, p ? (size_t)((char *)p - (char *)a) + 1 : n); return p; }
static size_t cmpn(const char *a, const char *b, size_t n) { size_t i = 0; while (i < n && a[i] == b[i] && a[i]) i++; return i < n ? i + 1 : n; }
int __wrap_strcmp(const char *a, const char *b) { size_t n = cmpn(a, b, ~(size_t)0); rd(a, n); rd(b, n); return __real_strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t k) { size_t n = cmpn(a, b, k); rd(a, n); rd(b, n); return __real_strncmp(a, b, k); }
char *__wrap_strchr(const char *s, int c) { char *p = __real_strchr(s, c); rd(s, p ? (size_t)(p - s) + 1 : __real_strlen(s) + 1); return p; }
char *__wrap_strrchr(const char *s, int c) { rd(s, __real_strlen(s) + 1); return __real_strrchr(s, c); }
char *__wrap_strcat(char *d, const char *s) { size_t n = __real_strlen(s) + 1, m = __real_strlen(d); rd(s, n); rd(d, m + 1); wr(d + m, n); return __real_strcat(d, s); }
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list ap)
{
    just_point();
    char tmp[512];
    va_list b; va_copy(b, ap); int r = __real_vsnprintf(tmp, sizeof tmp, f, b); va_end(b);
    if (r >= 0 && n) wr(d, (size_t)r < n ? (size_t)r + 1 : n);
    return __real_vsnprintf(d, n, f, ap);
}
int __wrap_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int __wrap_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(d, 0x7fffffff, f, ap); va_end(ap); return r; }

// ---- locks and one-time initialisation: decided by the simulator
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *); int __real_pthread_rwlock_wrlock(pthread_rwlock_t *); int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_pthread_spin_lock(pthread_spinlock_t *); int __real_pthread_spin_unlock(pthread_spinlock_t *);
int __real___cxa_guard_acquire(uint64_t *); void __real___cxa_guard_release(uint64_t *); void __real___cxa_guard_abort(uint64_t *);
int __real_sched_yield(); int __real_nanosleep(const struct timespec *, struct timespec *); int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);

static inline T *insim() { T *t = self_; return t && !t->in_core ? t : nullptr; }
static void block_on(T *t, uintptr_t a) { t->st = TS_BLOCKED; t->blocked_on = a; leave(t, false); }
static void wake(uintptr_t a) { for (int i = 0; i < W->P->nthreads; i++) { T *o = W->t[i]; if (o->st == TS_BLOCKED && o->blocked_on == a) { o->st = TS_RUN; o->blocked_on = 0; } } }
static int lock_(T *t, void *m, bool rec, bool tryl)
{
    Core c(t); if (c.hk) point(t, false);
    uintptr_t a = (uintptr_t)m;
    for (;;) {
        Lock &l = W->locks[a];
        if (l.owner < 0 && l.readers == 0) { l.owner = t->id; l.count = 1; break; }
        if (l.owner == t->id && rec) { l.count++; break; }
        if (tryl) return EBUSY;
        block_on(t, a);
    }
    acquire(t, a);
    return 0;
}
static int unlock_(T *t, void *m)
{
    Core c(t); if (c.hk) point(t, false);
    uintptr_t a = (uintptr_t)m; Lock &l = W->locks[a];
    release(t, a);
    if (l.readers > 0) l.readers--; else if (--l.count <= 0) { l.owner = -1; l.count = 0; }
    wake(a);
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (T *t = insim()) return lock_(t, m, (m->__data.__kind & 3) == 1, false); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (T *t = insim()) return lock_(t, m, (m->__data.__kind & 3) == 1, true); return __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (T *t = insim()) return unlock_(t, m); return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { if (T *t = insim()) return lock_(t, (void *)m, false, false); return __real_pthread_spin_lock(m); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { if (T *t = insim()) return unlock_(t, (void *)m); return __real_pthread_spin_unlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (T *t = insim()) return lock_(t, m, false, false); return __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (T *t = insim()) {
        Core c(t); if (c.hk) point(t, false);
        uintptr_t a = (uintptr_t)m;
        while (W->locks[a].owner >= 0) block_on(t, a);
        W->locks[a].readers++; acquire(t, a);
        return 0;
    }
    return __real_pthread_rwlock_rdlock(m);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { if (T *t = insim()) return unlock_(t, m); return __real_pthread_rwlock_unlock(m); }
// waiting with a time limit: the others get some turns, then the time is over
static bool give_way(T *t)
{
    for (int k = 1; k < MAXT; k++) { int i = (t->id + k) % MAXT; if (runnable(i)) { switch_to(t, i); return true; } }
    return false;
}
static int64_t g_skipped = 0;       // simulated time that was waited
static int lock_timed(T *t, void *m, bool rec)
{
    for (int k = 0; k < 5; k++) {
        if (lock_(t, m, rec, true) == 0) return 0;
        Core c(t);
        if (!give_way(t)) break;
    }
    g_skipped += 10000000000ll;
    return ETIMEDOUT;
}
static int rdlock_(T *t, void *m, int mode)     // 0 waits, 1 tries, 2 waits with a limit
{
    Core c(t); if (c.hk) point(t, false);
    uintptr_t a = (uintptr_t)m;
    for (int k = 0; W->locks[a].owner >= 0; k++) {
        if (mode == 0) block_on(t, a);
        else if (mode == 1) return EBUSY;
        else if (k == 5 || !give_way(t)) { g_skipped += 10000000000ll; return ETIMEDOUT; }
    }
    W->locks[a].readers++; acquire(t, a);
    return 0;
}
int __real_pthread_mutex_timedlock(pthread_mutex_t *, const struct timespec *); int __real_pthread_mutex_clocklock(pthread_mutex_t *, clockid_t, const struct timespec *);
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *e) { if (T *t = insim()) return lock_timed(t, m, (m->__data.__kind & 3) == 1); return __real_pthread_mutex_timedlock(m, e); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t k, const struct timespec *e) { if (T *t = insim()) return lock_timed(t, m, (m->__data.__kind & 3) == 1); return __real_pthread_mutex_clocklock(m, k, e); }
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (T *t = insim()) return rdlock_(t, m, 1); return __real_pthread_rwlock_tryrdlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (T *t = insim()) return lock_(t, m, false, true); return __real_pthread_rwlock_trywrlock(m); }
int __real_pthread_rwlock_timedrdlock(pthread_rwlock_t *, const struct timespec *); int __real_pthread_rwlock_timedwrlock(pthread_rwlock_t *, const struct timespec *);
int __wrap_pthread_rwlock_timedrdlock(pthread_rwlock_t *m, const struct timespec *e) { if (T *t = insim()) return rdlock_(t, m, 2); return __real_pthread_rwlock_timedrdlock(m, e); }
int __wrap_pthread_rwlock_timedwrlock(pthread_rwlock_t *m, const struct timespec *e) { if (T *t = insim()) return lock_timed(t, m, false); return __real_pthread_rwlock_timedwrlock(m, e); }
int __real_pthread_rwlock_clockrdlock(pthread_rwlock_t *, clockid_t, const struct timespec *); int __real_pthread_rwlock_clockwrlock(pthread_rwlock_t *, clockid_t, const struct timespec *);
int __wrap_pthread_rwlock_clockrdlock(pthread_rwlock_t *m, clockid_t k, const struct timespec *e) { if (T *t = insim()) return rdlock_(t, m, 2); return __real_pthread_rwlock_clockrdlock(m, k, e); }
int __wrap_pthread_rwlock_clockwrlock(pthread_rwlock_t *m, clockid_t k, const struct timespec *e) { if (T *t = insim()) return lock_timed(t, m, false); return __real_pthread_rwlock_clockwrlock(m, k, e); }
int __real_pthread_spin_trylock(pthread_spinlock_t *);
int __wrap_pthread_spin_trylock(pthread_spinlock_t *m) { if (T *t = insim()) return lock_(t, (void *)m, false, true); return __real_pthread_spin_trylock(m); }
// condition variables: a signal wakes all that wait, which check their condition again
static int cond_wait(T *t, void *cv, pthread_mutex_t *m, bool timed)
{
    int r = 0;
    {
        Core c(t); if (c.hk) point(t, false);
        const uintptr_t a = (uintptr_t)m, b = (uintptr_t)cv;
        Lock &l = W->locks[a];
        release(t, a); l.owner = -1; l.count = 0; wake(a);
        if (!timed) block_on(t, b);
        else {
            const int g = W->locks[b].once;
            for (int k = 0; k < 5 && W->locks[b].once == g; k++) if (!give_way(t)) break;
            if (W->locks[b].once == g) { g_skipped += 10000000000ll; r = ETIMEDOUT; }
        }
    }
    lock_(t, m, false, false);
    return r;
}
static int cond_signal(T *t, void *cv) { Core c(t); if (c.hk) point(t, false); W->locks[(uintptr_t)cv].once++; wake((uintptr_t)cv); return 0; }
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *); int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *); int __real_pthread_cond_signal(pthread_cond_t *); int __real_pthread_cond_broadcast(pthread_cond_t *);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (T *t = insim()) return cond_wait(t, c, m, false); return __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *e) { if (T *t = insim()) return cond_wait(t, c, m, true); return __real_pthread_cond_timedwait(c, m, e); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *e) { if (T *t = insim()) return cond_wait(t, c, m, true); return __real_pthread_cond_clockwait(c, m, k, e); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (T *t = insim()) return cond_signal(t, c); return __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (T *t = insim()) return cond_signal(t, c); return __real_pthread_cond_broadcast(c); }
// (std::condition_variable, whose first member is the pthread_cond_t, and std::unique_lock, whose first member points to the mutex)
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *, void *); void __real__ZNSt18condition_variable10notify_oneEv(void *); void __real__ZNSt18condition_variable10notify_allEv(void *);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, void *l) { if (T *t = insim()) cond_wait(t, c, *(pthread_mutex_t **)l, false); else __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l); }
void __wrap__ZNSt18condition_variable10notify_oneEv(void *c) { if (T *t = insim()) cond_signal(t, c); else __real__ZNSt18condition_variable10notify_oneEv(c); }
void __wrap__ZNSt18condition_variable10notify_allEv(void *c) { if (T *t = insim()) cond_signal(t, c); else __real__ZNSt18condition_variable10notify_allEv(c); }
// semaphores: the count is kept in the real one
int __real_sem_wait(sem_t *); int __real_sem_trywait(sem_t *); int __real_sem_post(sem_t *); int __real_sem_timedwait(sem_t *, const struct timespec *); int __real_sem_clockwait(sem_t *, clockid_t, const struct timespec *);
static int sem_(T *t, sem_t *m, int mode)
{
    Core c(t); if (c.hk) point(t, false);
    for (int k = 0; __real_sem_trywait(m) != 0; k++) {
        if (mode == 0) block_on(t, (uintptr_t)m);
        else if (mode == 1) { errno = EAGAIN; return -1; }
        else if (k == 5 || !give_way(t)) { g_skipped += 10000000000ll; errno = ETIMEDOUT; return -1; }
    }
    acquire(t, (uintptr_t)m);
    return 0;
}
int __wrap_sem_wait(sem_t *m) { if (T *t = insim()) return sem_(t, m, 0); return __real_sem_wait(m); }
int __wrap_sem_trywait(sem_t *m) { if (T *t = insim()) return sem_(t, m, 1); return __real_sem_trywait(m); }
int __wrap_sem_timedwait(sem_t *m, const struct timespec *e) { if (T *t = insim()) return sem_(t, m, 2); return __real_sem_timedwait(m, e); }
int __wrap_sem_clockwait(sem_t *m, clockid_t k, const struct timespec *e) { if (T *t = insim()) return sem_(t, m, 2); return __real_sem_clockwait(m, k, e); }
int __wrap_sem_post(sem_t *m)
{
    T *t = insim();
    if (!t) return __real_sem_post(m);
    Core c(t); if (c.hk) point(t, false);
    release(t, (uintptr_t)m);
    const int r = __real_sem_post(m);
    wake((uintptr_t)m);
    return r;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void))
{
    T *t = insim();
    if (!t) return __real_pthread_once(o, f);
    uintptr_t a = (uintptr_t)o;
    {
        Core c(t); if (c.hk) point(t, false);
        while (W->locks[a].once == 1) block_on(t, a);
        if (W->locks[a].once == 2 || *o == 2) { acquire(t, a); return 0; }
        W->locks[a].once = 1;
    }
    t->initdepth++;
    try { f(); } catch (...) { t->initdepth--; Core c(t); W->locks[a].once = 0; wake(a); throw; }
    t->initdepth--;
    Core c(t);
    W->locks[a].once = 2; *o = 2; release(t, a); wake(a);
    return 0;
}
int __wrap___cxa_guard_acquire(uint64_t *g)
{
    T *t = insim();
    if (!t) return __real___cxa_guard_acquire(g);
    Core c(t); if (c.hk) point(t, false);
    uintptr_t a = (uintptr_t)g;
    for (;;) {
        if (*(volatile char *)g) { acquire(t, a); return 0; }
        Lock &l = W->locks[a];
        if (l.once != 1) { l.once = 1; t->initdepth++; return 1; }
        block_on(t, a);
    }
}
void __wrap___cxa_guard_release(uint64_t *g)
{
    T *t = insim();
    if (!t) { __real___cxa_guard_release(g); return; }
    Core c(t);
    t->initdepth--; *(volatile char *)g = 1; W->locks[(uintptr_t)g].once = 2; release(t, (uintptr_t)g); wake((uintptr_t)g);
}
void __wrap___cxa_guard_abort(uint64_t *g)
{
    T *t = insim();
    if (!t) { __real___cxa_guard_abort(g); return; }
    Core c(t);
    t->initdepth--; W->locks[(uintptr_t)g].once = 0; wake((uintptr_t)g);
}
// ---- what belongs to the process or to the system, and is not memory
static void outside(const char *does)
{
    T *t = insim();
    if (t && sysgate) { Core c(t); violation(V_OUTSIDE, "%s: %s", g_shm->last, does); }
}
int __real_rand(); void __real_srand(unsigned); long __real_random(); void __real_srandom(unsigned); double __real_drand48(); long __real_lrand48(); char *__real_strtok(char *, const char *);
int __wrap_rand() { outside("takes a number from rand"); return __real_rand(); }
void __wrap_srand(unsigned s) { outside("seeds rand"); __real_srand(s); }
long __wrap_random() { outside("takes a number from random"); return __real_random(); }
void __wrap_srandom(unsigned s) { outside("seeds random"); __real_srandom(s); }
double __wrap_drand48() { outside("takes a number from drand48"); return __real_drand48(); }
long __wrap_lrand48() { outside("takes a number from lrand48"); return __real_lrand48(); }
char *__wrap_strtok(char *s, const char *d) { outside("uses strtok"); return __real_strtok(s, d); }
char *getenv(const char *n) noexcept        // no run depends on the environment of the check
{
    if (insim()) { outside("reads an environment variable"); return nullptr; }
    const size_t k = strlen(n);
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1;
    return nullptr;
}
char *secure_getenv(const char *n) noexcept { return getenv(n); }
// ---- time: one simulated clock, driven by the steps of the run
static uint64_t g_random;
static int64_t sim_ns() { return 1700000000000000000ll + (int64_t)(W->P->seed % 1000000007ull) * 1000003ll + (int64_t)g_shm->cnt[C_STEPS] * 1000ll + g_skipped; }
// Numbers from the system's generators follow from the seed of the run.
static uint64_t sim_random() { uint64_t x = W->P->seed + 0x9E3779B97F4A7C15ull * ++g_random; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; return x; }
static void sim_fill(void *p, size_t n) { wr(p, n); for (size_t i = 0; i < n; i++) ((char *)p)[i] = (char)sim_random(); }
ssize_t __real_getrandom(void *, size_t, unsigned); int __real_getentropy(void *, size_t); uint32_t __real_arc4random(); uint32_t __real_arc4random_uniform(uint32_t);
unsigned __real__ZNSt13random_device9_M_getvalEv(void *);
ssize_t __wrap_getrandom(void *p, size_t n, unsigned f) { if (!insim()) return __real_getrandom(p, n, f); outside("takes a number from getrandom"); sim_fill(p, n); return (ssize_t)n; }
int __wrap_getentropy(void *p, size_t n) { if (!insim()) return __real_getentropy(p, n); outside("takes a number from getentropy"); sim_fill(p, n); return 0; }
uint32_t __wrap_arc4random() { if (!insim()) return __real_arc4random(); outside("takes a number from arc4random"); return (uint32_t)sim_random(); }
uint32_t __wrap_arc4random_uniform(uint32_t n) { if (!insim()) return __real_arc4random_uniform(n); outside("takes a number from arc4random_uniform"); return n ? (uint32_t)sim_random() % n : 0; }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *d) { if (!insim()) return __real__ZNSt13random_device9_M_getvalEv(d); outside("takes a number from std::random_device"); return (unsigned)sim_random(); }
time_t __real_time(time_t *); int __real_clock_gettime(clockid_t, struct timespec *);
int64_t __real__ZNSt6chrono3_V212system_clock3nowEv(); int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
clock_t __real_clock();
time_t __wrap_time(time_t *p) { if (!insim()) return __real_time(p); outside("asks for the time"); time_t v = (time_t)(sim_ns() / 1000000000); if (p) *p = v; return v; }
clock_t __wrap_clock() { if (!insim()) return __real_clock(); outside("asks for the processor time"); return (clock_t)(sim_ns() / 1000 % 1000000000); }
int __real_gettimeofday(struct timeval *, void *); int __real_timespec_get(struct timespec *, int);
int __wrap_gettimeofday(struct timeval *p, void *z) { if (!insim()) return __real_gettimeofday(p, z); outside("asks for the time"); int64_t v = sim_ns(); p->tv_sec = v / 1000000000; p->tv_usec = v % 1000000000 / 1000; return 0; }
int __wrap_timespec_get(struct timespec *p, int b) { if (!insim()) return __real_timespec_get(p, b); outside("asks for the time"); int64_t v = sim_ns(); p->tv_sec = v / 1000000000; p->tv_nsec = v % 1000000000; return b; }
int __wrap_clock_gettime(clockid_t k, struct timespec *p) { if (!insim()) return __real_clock_gettime(k, p); outside("asks for the time"); int64_t v = sim_ns(); p->tv_sec = v / 1000000000; p->tv_nsec = v % 1000000000; return 0; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { outside("asks for the time"); return insim() ? sim_ns() : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { outside("asks for the time"); return insim() ? sim_ns() : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
// processors and identifiers: the same in every execution of a run
int __wrap_sched_getcpu() { return insim() ? self_->id & 1 : 0; }
int __wrap_getcpu(unsigned *c, unsigned *n) { if (c) *c = (unsigned)__wrap_sched_getcpu(); if (n) *n = 0; return 0; }
int __real_getpid(); int __real_gettid();
int __wrap_getpid() { if (insim()) { outside("asks for the process identifier"); return 1000; } return __real_getpid(); }
int __wrap_gettid() { if (insim()) { outside("asks for the thread identifier"); return 1000 + self_->id; } return __real_gettid(); }
int __wrap_sched_yield() { if (insim()) { outside("yields the processor"); just_point(); return 0; } return __real_sched_yield(); }
void *__real___cxa_allocate_exception(size_t n);
void *__wrap___cxa_allocate_exception(size_t n)     // the runtime's memory: whoever had it before is done with it
{
    void *p = __real___cxa_allocate_exception(n);
    if (p && insim() && n) { T *t = self_; Core c(t); race_clear((uintptr_t)p, n); }
    return p;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (insim()) { outside("sleeps"); just_point(); return 0; } return __real_nanosleep(a, b); }
int __wrap_clock_nanosleep(clockid_t k, int f, const struct timespec *a, struct timespec *b) { if (insim()) { outside("sleeps"); just_point(); return 0; } return __real_clock_nanosleep(k, f, a, b); }
}

// ---------------------------------------------------------------- system calls
// The kernel hands every system call of a thread whose gate is closed to this handler. Those of the simulator, and those
// for memory, are made from here; any other is the library's.
extern "C" { extern const char sysgate_from[], sysgate_to[], sysgate_back[]; long sysgate_raw(long n, long a, long b, long c, long d, long e, long f); }
__asm__(".text\n.globl sysgate_from\n.globl sysgate_to\n.globl sysgate_back\n.globl sysgate_raw\nsysgate_from:\n"
    "sysgate_back: mov $15, %eax\n syscall\n"
    "sysgate_raw: mov %rdi, %rax\n mov %rsi, %rdi\n mov %rdx, %rsi\n mov %rcx, %rdx\n mov %r8, %r10\n mov %r9, %r8\n mov 8(%rsp), %r9\n syscall\n ret\n"
    "sysgate_to:\n");
static void sysgate_trap(int, siginfo_t *si, void *p)
{
    ucontext_t *u = (ucontext_t *)p;
    greg_t *g = u->uc_mcontext.gregs;
    const int n = si->si_syscall;
    T *t = self_;
    const bool mem = n == SYS_mmap || n == SYS_munmap || n == SYS_mremap || n == SYS_brk || n == SYS_madvise || n == SYS_mprotect
        || (n == SYS_futex && (g[REG_RSI] & 127) == FUTEX_WAKE);     // the C++ runtime, having initialised something for its first exception
    if (t && !t->in_core && !mem) {
        t->in_core = true; t->hooks = false;
        violation(V_OUTSIDE, "%s: makes the system call %d%s", g_shm->last, n, n == SYS_write || n == SYS_writev ? " (write)" : n == SYS_openat || n == SYS_open ? " (open)" : "");
    }
    if (t && !t->in_core) cnt(C_MEMCALL);
    g[REG_RAX] = sysgate_raw(n, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
}
// The processor's clock is the simulated one, also where it is read by the instruction for it.
static void tsc_trap(int sig, siginfo_t *, void *p)
{
    greg_t *g = ((ucontext_t *)p)->uc_mcontext.gregs;
    const unsigned char *i = (const unsigned char *)g[REG_RIP];
    const bool ts = i[0] == 0x0f && i[1] == 0x31, tsp = i[0] == 0x0f && i[1] == 0x01 && i[2] == 0xf9;
    if (!ts && !tsp) {      // a true fault: it comes again, and ends the process
        struct { void (*h)(int); unsigned long flags; const void *restorer; uint64_t mask; } sa = {nullptr, 0x04000000, sysgate_back, 0};
        sysgate_raw(SYS_rt_sigaction, sig, (long)&sa, 0, 8, 0, 0);
        return;
    }
    outside("reads the processor's clock");
    const uint64_t v = (uint64_t)sim_ns() * 3;
    g[REG_RAX] = (uint32_t)v; g[REG_RDX] = (uint32_t)(v >> 32);
    if (tsp) g[REG_RCX] = 0;
    g[REG_RIP] += ts ? 2 : 3;
}
extern "C" __attribute__((weak)) void __asan_init();
static void tsc_open()
{
    if (__asan_init) return;        // AddressSanitizer's allocator asks for the time while a thread ends and signals are blocked
    struct { void (*h)(int, siginfo_t *, void *); unsigned long flags; const void *restorer; uint64_t mask; } sa = {tsc_trap, SA_SIGINFO | SA_NODEFER | 0x04000000, sysgate_back, 0};
    if (!syscall(SYS_rt_sigaction, SIGSEGV, &sa, nullptr, 8)) prctl(PR_SET_TSC, PR_TSC_SIGSEGV);
}
static bool sysgate_open()      // false: the kernel cannot do it
{
    static bool installed = false, cannot = false;
    if (cannot) return false;
    if (!installed) {
        mallopt(M_ARENA_MAX, 1);        // or glibc's malloc reads the number of processors from a file, for the exceptions of a ninth thread
        struct { void (*h)(int, siginfo_t *, void *); unsigned long flags; const void *restorer; uint64_t mask; } sa = {sysgate_trap, SA_SIGINFO | SA_NODEFER | 0x04000000, sysgate_back, 0};
        if (syscall(SYS_rt_sigaction, SIGSYS, &sa, nullptr, 8)) { cannot = true; return false; }
        installed = true;
    }
    if (!sysgate_on) {
        if (prctl(59 /* PR_SET_SYSCALL_USER_DISPATCH */, 1, (unsigned long)sysgate_from, (unsigned long)(sysgate_to - sysgate_from), &sysgate)) { cannot = true; return false; }
        sysgate_on = 1;
    }
    return true;
}

// ---------------------------------------------------------------- locales
static const char *const LOCS[] = {"C", "de_DE.UTF-8", "fr_FR.ISO-8859-1", "tr_TR.ISO-8859-9", "ps_AF.UTF-8"};
static constexpr int NLOCS = 5;
static locale_t LT[NLOCS];
static std::locale *CXX[NLOCS];
int locales_count() { return NLOCS; }
const char *cxx_locale_name(int i) { return LOCS[i % NLOCS]; }
void locales_load()
{
    for (int i = 0; i < NLOCS; i++) {
        LT[i] = newlocale(LC_ALL_MASK, LOCS[i], (locale_t)0);
        if (!LT[i]) { fprintf(stderr, "locale %s is missing (LOCPATH)\n", LOCS[i]); exit(2); }
        CXX[i] = new std::locale(LOCS[i]);
    }
}
static void locale_global(int i)
{
    i %= NLOCS;
    if (!setlocale(LC_ALL, LOCS[i])) { fprintf(stderr, "setlocale failed\n"); _exit(9); }
    W->locname = setlocale(LC_ALL, nullptr);
    W->loc_global = i;
}

// ---------------------------------------------------------------- oracles
static void *slot_ptr(int i) { return (void *)(SLOTS + (size_t)i * SLOT_STRIDE + SLOT_OFF); }
static void slot_redzone(int i, bool check)
{
    uintptr_t b = SLOTS + (size_t)i * SLOT_STRIDE, u = b + SLOT_OFF, e = b + SLOT_STRIDE;
    size_t n = client_sizeof(W->slot[i].ft);
    auto one = [&](uintptr_t x) {
        if (!check) *(uint8_t *)x = rz_byte(x);
        else if (*(uint8_t *)x != rz_byte(x)) violation(V_OOB, "memory %s a formatter was overwritten (slot %d, offset %ld of an object of %zu bytes)", x < u ? "before" : "after", i, (long)(x - u), n);
    };
    for (uintptr_t x = u - 128; x < u; x++) one(x);
    for (uintptr_t x = u + n; x < u + n + 128 && x < e; x++) one(x);
}
static const std::string &val_text(int v) { return W->text[(size_t)v]; }

static void check_view(const COut &r, const std::string &e, const char *what)
{
    if (r.size != e.size() || r.length != e.size())
        violation(V_MISMATCH, "%s: size() is %zu and length() is %zu, expected %zu (\"%s\")", what, r.size, r.length, e.size(), model_quote(e).c_str());
    if (!r.data || !r.cstr) violation(V_MISMATCH, "%s: null data", what);
    if (memcmp(r.data, e.data(), e.size()) || memcmp(r.cstr, e.data(), e.size()))
        violation(V_MISMATCH, "%s: text is \"%s\", expected \"%s\"", what, model_quote(std::string(r.data, r.size)).c_str(), model_quote(e).c_str());
    if (r.data[e.size()] != 0 || r.cstr[e.size()] != 0)
        violation(V_MISMATCH, "%s: text \"%s\" is not null-terminated", what, model_quote(e).c_str());
}
static bool readable(const char *p, size_t n)
{
    uintptr_t a = (uintptr_t)p;
    if (in(a, BASE, SIM_END - BASE)) {
        for (size_t i = 0; i <= n; i++) if (*shadow(a + i) != S_LIVE && *shadow(a + i) != S_RO) return false;
        return true;
    }
    if (in(a, STACKS + STACK_SZ * MAXT, STACK_SZ * MAXT)) { const size_t o = (a - STACKS) / STACK_SZ - MAXT; return o < (size_t)W->P->nthreads && W->t[o]->fresh; }
    if (in(a, CROWDS, CROWD_SZ * MAXCROWD)) { const int k = (int)((a - CROWDS) / CROWD_SZ); return k < ncrowd && !CR[k].gone; }
    return a > 0x1000;
}
static void check_held()
{
    cnt(C_HELD_CHECKS);
    for (int i = 0; i < NSLOT; i++) {
        Slot &s = W->slot[i];
        if (s.st != SL_LIVE || !s.held) continue;
        const std::string &e = val_text(s.val);
        if (!readable(s.hp, s.hn)) violation(V_UAF, "the pointer given out by the live formatter in slot %d (\"%s\") refers to dead memory", i, model_quote(e).c_str());
        if (s.hn != e.size() || memcmp(s.hp, e.data(), e.size()) || s.hp[e.size()] != 0)
            violation(V_HELD, "text given out earlier by the formatter in slot %d changed from \"%s\" to \"%s\"", i, model_quote(e).c_str(), model_quote(std::string(s.hp, s.hn)).c_str());
    }
    for (int t = 0; t < W->P->nthreads; t++)
        for (int k = 0; k < NRES; k++) {
            ResS &r = W->res[t][k];
            if (!r.live) continue;
            std::string *s = (std::string *)(RES + (size_t)(t * NRES + k) * 64);
            if (*s != r.exp || s->c_str()[s->size()] != 0)
                violation(V_HELD, "a string returned earlier to thread %d changed from \"%s\" to \"%s\"", t, model_quote(r.exp).c_str(), model_quote(*s).c_str());
        }
    for (Msg &m : W->msgs)
        if (*m.s != m.exp) violation(V_HELD, "a text in the channel changed from \"%s\" to \"%s\"", model_quote(m.exp).c_str(), model_quote(*m.s).c_str());
    for (int t = 0; t < W->P->nthreads; t++)
        for (int f = 0; f < F_N; f++) {
            if (W->vbusy[t][f] || W->vexp[t][f].empty()) continue;
            for (size_t i = 0; i < W->vexp[t][f].size(); i++) {
                COut r{}; 
                if (client_vec_look(f, W->vec[t][f], i, r) != W->vexp[t][f].size()) violation(V_MISMATCH, "container size changed");
                if (!readable(r.data, W->vexp[t][f][i].size())) violation(V_UAF, "a formatter in a container refers to dead memory");
                char w[64]; snprintf(w, sizeof w, "formatter %zu of %zu in a container", i, W->vexp[t][f].size());
                check_view(r, W->vexp[t][f][i], w);
            }
        }
}
static void look_slot(int i, const char *what)
{
    Slot &s = W->slot[i];
    COut r{};
    client_look(s.ft, slot_ptr(i), r);
    if (!readable(r.data, val_text(s.val).size()) || !readable(r.cstr, val_text(s.val).size())) violation(V_UAF, "%s: data() refers to dead memory", what);
    check_view(r, val_text(s.val), what);
    s.held = true; s.hp = r.data; s.hn = r.size;
}
static void ambient_check(T *t, const char *what)
{
    if (fegetround() != t->round) violation(V_AMBIENT, "%s changed the rounding mode from %d to %d", what, t->round, fegetround());
    if (!W->P->ambient) return;
    const char *n = setlocale(LC_ALL, nullptr);
    if (W->locname != n) violation(V_AMBIENT, "%s: the process locale is \"%s\" and was set to \"%s\"", what, n, W->locname.c_str());
    locale_t u = uselocale((locale_t)0);
    if (!(std::locale() == *CXX[W->cxx_global])) violation(V_AMBIENT, "%s: the C++ locale is \"%s\" and was set to \"%s\"", what, std::locale().name().c_str(), LOCS[W->cxx_global]);
    if (u != (t->loc >= 0 ? LT[t->loc % NLOCS] : LC_GLOBAL_LOCALE)) violation(V_AMBIENT, "%s changed the thread's locale", what);
}

// ---------------------------------------------------------------- operations
static bool noalloc_op(const COp &o)
{
    switch (o.kind) {
        case K_MAKE: case K_COPY: case K_ASSIGN: case K_SWAP: case K_DESTROY: return true;
        case K_READ: return o.var == 0;
        case K_EXTRACT: return !ty_float(o.ty) && o.var != 1;
        case K_XMAKE: return !ty_float(o.ty);
        case K_XREAD: case K_XCOPY: case K_XDEL: return true;
        default: return false;
    }
}
// What the stack held before the call is as arbitrary as what the heap held.
__attribute__((noinline)) static void dirty_stack()
{
    static const uint8_t k[] = {0, 0xff, '7', '.', 'e', 0x5a, 0x80};
    char b[6144];
    memset(b, k[W->P->fill % 7], sizeof b);
    __asm__ volatile("" : : "r"(b) : "memory");
}
// A call that needs no memory and leaves no half-written object that is used again: whoever makes it may give it up.
static bool may_abandon(T *, const COp &o)
{
    if (o.ctx) return false;
    switch (o.kind) {
        case K_MAKE: return true;
        case K_COPY: return o.var != 1;
        case K_READ: return o.var == 0;
        case K_EXTRACT: return !ty_float(o.ty) && o.var != 1;
        case K_XMAKE: return !ty_float(o.ty);
        case K_XREAD: return true;
        default: return false;
    }
}
// Returns true if the call was abandoned.
__attribute__((noinline)) static bool exec_abandonable(T *t, const COp &o, COut &r)
{
    jmp_buf here;
    t->jb = &here;
    if (_setjmp(here)) return true;
    client_exec(o, r);
    t->jb = nullptr;
    return false;
}
// The work of one call: memory accesses and synchronisation of the library's own code, and memory held.
static size_t arg_len(const COp &o) { return o.kind == K_STR || o.kind == K_EXTRACT || o.kind == K_REJECT || o.kind == K_XMAKE ? o.s->size() : 0; }
static void cost_bound(T *t, const COp &o, uint64_t steps, const char *what)
{
    const size_t len = arg_len(o);
    cnt(C_COSTED);
    t->least = t->least ? std::min(t->least, steps) : steps;
    if (steps > COST0 + COST1 * len) violation(V_COST, "%s: %lu steps, for an argument of %zu characters", what, (unsigned long)steps, len);
    if (t->touched > COSTB0 + COSTB1 * len) violation(V_COST, "%s: reads and writes %lu bytes, for an argument of %zu characters", what, (unsigned long)t->touched, len);
    if (t->mempeak > (int64_t)(COSTM0 + COSTM1 * len)) violation(V_COST, "%s: %ld bytes of memory, for an argument of %zu characters", what, (long)t->mempeak, len);
}
static void cost_compare(uint64_t early, uint64_t late, const char *what)
{
    cnt(C_COMPARED);
    if (late > 2 * early + COST_SLACK) violation(V_COST, "%s: %lu steps, and %lu earlier in the same process", what, (unsigned long)late, (unsigned long)early);
}
// The exception flags that a conversion meets are those the program or its earlier conversions set, and never those of the simulator's own arithmetic.
static void fp_raise(int f) { f &= ~fegetexcept(); if (f) feraiseexcept(f); }
static constexpr unsigned DENORMALS = 0x8040;      // the processor takes denormal numbers for zero, and gives zero for them
static int fp_enter(T *t)
{
    const int was = fetestexcept(FE_ALL_EXCEPT);
    feclearexcept(FE_ALL_EXCEPT); fp_raise(t->flags | t->sticky);
    const unsigned mx = _mm_getcsr();
    if ((mx & DENORMALS) != t->denormals) _mm_setcsr((mx & ~DENORMALS) | t->denormals);
    return was | (int)((mx & DENORMALS) << 15);
}
static void fp_leave(T *t, int was)
{
    const unsigned mx = _mm_getcsr(), to = (unsigned)was >> 15 & DENORMALS;
    t->sticky |= fetestexcept(FE_ALL_EXCEPT); feclearexcept(FE_ALL_EXCEPT); fp_raise(was & FE_ALL_EXCEPT);
    if ((mx & DENORMALS) != to) _mm_setcsr((_mm_getcsr() & ~DENORMALS) | to);
    if ((mx & DENORMALS) != t->denormals) violation(V_AMBIENT, "%s changed how denormal numbers are treated", g_shm->last);
}
// Runs one library call under the simulator. Returns false if it threw a permitted bad_alloc or was abandoned.
static bool call(T *t, const Op &op, COp &o, COut &r, const char *what, bool want_throw = false)
{
    memset((void *)&r, 0, sizeof r);
    const bool isf = (o.kind == K_EXTRACT || o.kind == K_XMAKE) && ty_float(o.ty);
    if (isf) W->infloat++;
    bool abandoned = false;
    const uint32_t fired0 = t->fired;
    t->allocs = 0; t->mem = t->mempeak = 0; t->touched = 0; t->touchmax = W->P->cost && op.fail == FM_NONE ? COSTB0 + COSTB1 * arg_len(o) : ~0ull;
    const uint32_t step0 = t->step;
    t->failop = op.fail != FM_NONE ? &op : nullptr;
    const bool hooks = op.repeat <= 4 || ((op.fresh & 19) && op.repeat <= 500);
    dirty_stack();
    o.ctx = op.fresh & 12; if (o.ctx) cnt(C_UNWIND);
    const uintptr_t sp_before = t->sp0;
    t->sp0 = (uintptr_t)__builtin_frame_address(0);
    if (W->P->smallstack) memset((void *)(t->sp0 - STACK_LIMIT - STACK_CANARY), 0x6b, STACK_CANARY);
    snprintf(g_shm->last, sizeof g_shm->last, "%s", what);
    if (t->err) errno = t->err;
    const int fp = fp_enter(t);
    const int traps_before = t->traps ? fegetexcept() : 0;
    size_t pend = 0;
    const char gate = W->P->outside;
    if (gate) { if (sysgate_open()) { cnt(C_GUARDED); g_shm->nontrivial = 1; } pend = __fpending(stdout) + __fpending(stderr); }
    if (t->traps) { cnt(C_TRAP); g_shm->nontrivial = 1; feclearexcept(FE_ALL_EXCEPT); feenableexcept(t->traps); }
    {
        const bool ic = t->in_core; const HeapMode hm = t->heap;
        jmp_buf *const jb = t->jb;
        t->jb = nullptr;
        t->heap = H_SIM; t->in_core = false; t->hooks = hooks;
        const char sg = sysgate;
        sysgate = gate;
        if (W->P->abandon && hooks && !want_throw && !(op.kind == K_NFMT && o.kind != K_MAKE) && may_abandon(t, o)) abandoned = exec_abandonable(t, o, r);
        else client_exec(o, r);
        sysgate = sg;
        t->hooks = false; t->in_core = ic; t->heap = hm;
        t->jb = jb;
    }
    fp_leave(t, fp);
    if (W->P->cost && hooks) cost_bound(t, o, t->step - step0, what);
    if (gate && pend != __fpending(stdout) + __fpending(stderr)) violation(V_OUTSIDE, "%s: writes to a stream", what);
    if (t->traps) {
        const int now = fegetexcept();
        feclearexcept(FE_ALL_EXCEPT); fedisableexcept(FE_ALL_EXCEPT); feenableexcept(traps_before);
        if (now != t->traps) violation(V_AMBIENT, "%s changed the floating-point exceptions that are trapped from 0x%x to 0x%x", what, t->traps, now);
    }
    t->failop = nullptr;
    if (W->P->smallstack) {
        const uint64_t *q = (const uint64_t *)((t->sp0 - STACK_LIMIT - STACK_CANARY + 7) & ~(uintptr_t)7);
        for (size_t i = 0; i < STACK_CANARY / 8 - 1; i++) if (q[i] != 0x6b6b6b6b6b6b6b6bull) violation(V_STACK, "%s: uses more than %zu bytes of stack", what, STACK_LIMIT);
    }
    t->sp0 = sp_before;
    if (isf) W->infloat--;
    cnt(C_OPS);
    if (W->stalled) cnt(C_AFTER_STALL_OPS);
    if (W->P->stages && W->phase != 2) cnt(C_STAGE_OPS);
    h(0x7000 + (uint64_t)r.outcome);
    const bool fired = t->fired != fired0;
    ambient_check(t, what);
    if (abandoned) return false;
    if (r.outcome == O_BADALLOC) {
        if (!fired) violation(V_BADEXC, "%s: std::bad_alloc although no allocation failed", what);
        cnt(C_FAULT_ALLOC_THROWN);
        if (W->P->strict && noalloc_op(o)) violation(V_ALLOC, "%s: failed for lack of memory", what);
        t->failed_before = true;
        return false;
    }
    if (want_throw) {
        if (r.outcome == O_OK) violation(V_BADEXC, "%s: a value was extracted from a text that is not one", what);
        if (r.outcome != O_RUNTIME) violation(V_BADEXC, "%s: an exception other than std::runtime_error", what);
        return true;
    }
    if (r.outcome != O_OK) violation(V_BADEXC, "%s: threw %s%s", what, r.outcome == O_RUNTIME ? "std::runtime_error" : "an unknown exception", fired ? " when an allocation failed" : "");
    if (t->failed_before) { cnt(C_RETRY_OK); t->failed_before = false; }
    return true;
}
static void *res_mem(T *t, int &k)
{
    k = t->rescur; t->rescur = (t->rescur + 1) % NRES;
    ResS &r = W->res[t->id][k];
    std::string *s = (std::string *)(RES + (size_t)(t->id * NRES + k) * 64);
    if (r.live) { r.live = false; s->~basic_string(); }
    memset((void *)s, 0xEE, sizeof(std::string));
    race_clear((uintptr_t)s, sizeof(std::string));
    return s;
}
static void res_keep(T *t, int k, const std::string &e, const char *what)
{
    std::string *s = (std::string *)(RES + (size_t)(t->id * NRES + k) * 64);
    if (*s != e) violation(V_MISMATCH, "%s: gave \"%s\" (%zu), expected \"%s\" (%zu)", what, model_quote(*s).c_str(), s->size(), model_quote(e).c_str(), e.size());
    if (s->c_str()[s->size()]) violation(V_MISMATCH, "%s: result is not null-terminated", what);
    W->res[t->id][k].live = true; W->res[t->id][k].exp = e;
}
static void slot_open(int i, int ft)
{
    Slot &s = W->slot[i];
    s.ft = (uint8_t)ft; s.st = SL_BUSY; s.held = false;
    size_t n = client_sizeof(ft);
    if (n > SLOT_MAX) { fprintf(stderr, "formatter too large for the simulator\n"); _exit(9); }
    dirty((uintptr_t)slot_ptr(i), n);
    slot_redzone(i, false);
    memset(shadow((uintptr_t)slot_ptr(i)), S_LIVE, n);
    race_clear((uintptr_t)slot_ptr(i), n);
}
static void slot_close(int i)
{
    Slot &s = W->slot[i];
    size_t n = client_sizeof(s.ft);
    s.st = SL_DEAD; s.held = false;
    memset(shadow((uintptr_t)slot_ptr(i)), S_FREED, n);
    memset(slot_ptr(i), 0xDD, n);
}
// The caller's buffer, at the same place each time with another content.
static std::string *arg_string(const std::string &s, size_t cap)
{
    T arg; arg.id = 0; arg.heap = H_ARG; arg.in_core = true;
    T *old = self_;
    void *p = arg_alloc(sizeof(std::string));
    self_ = &arg;
    std::string *r = ::new (p) std::string(s.data(), s.size());
    if (cap > r->capacity()) r->reserve(cap);
    self_ = old;
    return r;
}
static void scratch(T *t, const std::string &s, int how, COp &o)
{
    cnt(C_REUSED);
    const int k = s.size() <= 15 && (how & 2) ? 1 : 0;
    if (!t->scr[k]) t->scr[k] = arg_string("", k ? 0 : W->longest + 16);
    if (!t->scrc) t->scrc = (char *)arg_alloc(W->longest + 17);
    t->scr[k]->assign(s);
    memcpy(t->scrc, s.c_str(), s.size() + 1);
    o.s = t->scr[k]; o.cs = t->scrc;
}
static void scratch_spoil(T *t, const COp &o)
{
    std::string *s = const_cast<std::string *>(o.s);
    for (auto &c : *s) c = (char)(c ^ 1 ? c ^ 1 : 3);
    for (char *p = t->scrc; *p; p++) *p = (char)(*p ^ 1 ? *p ^ 1 : 3);
}
static void *xslot_ptr(int i) { return (void *)(SLOTS + (size_t)(NSLOT + i) * SLOT_STRIDE + SLOT_OFF); }
static void xslot_open(int i, int xk)
{
    XSlot &s = W->xslot[i];
    s.xk = (uint8_t)xk; s.st = SL_BUSY;
    const size_t n = client_xsizeof(xk);
    if (n > SLOT_MAX) { fprintf(stderr, "extractor too large for the simulator\n"); _exit(9); }
    dirty((uintptr_t)xslot_ptr(i), n);
    memset(shadow((uintptr_t)xslot_ptr(i)), S_LIVE, n);
    race_clear((uintptr_t)xslot_ptr(i), n);
}
static void xslot_close(int i)
{
    XSlot &s = W->xslot[i];
    const size_t n = client_xsizeof(s.xk);
    s.st = SL_DEAD; s.shared_ro = false;
    memset(shadow((uintptr_t)xslot_ptr(i)), S_FREED, n);
    memset(xslot_ptr(i), 0xDD, n);
}
static void *fun_ptr(int t) { return (void *)(SLOTS + (size_t)(FUN0 + t * FUN_SLOTS) * SLOT_STRIDE + SLOT_OFF); }
// The thread's own Format and Extract objects, used for many conversions.
static void fun_take(T *t, COp &o, bool copy)
{
    const size_t n = client_funs_sizeof();
    if (W->P->abandon || W->fun[t->id] == 2 || n + 2 * SLOT_OFF > FUN_SLOTS * SLOT_STRIDE) return;
    void *const p = fun_ptr(t->id);
    if (!W->fun[t->id]) {
        dirty((uintptr_t)p, n);
        memset(shadow((uintptr_t)p), S_LIVE, n);
        race_clear((uintptr_t)p, n);
        const HeapMode hm = t->heap; const bool ic = t->in_core, hk = t->hooks;
        t->heap = H_SIM; t->in_core = false; t->hooks = false;
        client_funs_make(p);
        t->heap = hm; t->in_core = ic; t->hooks = hk;
    }
    W->fun[t->id] = 2;
    o.fun = p; o.funcopy = copy;
    cnt(C_KEPTFUN);
}
static void fun_give(T *t, const COp &o) { if (o.fun) W->fun[t->id] = 1; }
static bool src_live(int i) { return i >= 0 && i < NSLOT && W->slot[i].st == SL_LIVE; }

static void crowd_end(T *t, int n);
static void run_many(T *t, const Op &op, uint32_t n);
static void run_once(T *t, const Op &op, bool nested)
{
    const Plan &P = *W->P;
    char what[300];
    snprintf(what, sizeof what, "%s", K_NAME[op.kind]);
    COp o; memset(&o, 0, sizeof o);
    o.kind = op.kind; o.var = op.var;
    COut r;
    switch (op.kind) {
        case K_NFMT: case K_MAKE: {
            if (op.val < 0 || op.val >= (int)P.vals.size()) return;
            const Val &v = P.vals[(size_t)op.val];
            int i = op.kind == K_NFMT ? NS0 + t->id * 6 + std::min(t->depth, 2) * 2 : op.a;
            if (i < 0 || i >= NSLOT || W->slot[i].st != SL_DEAD) return;
            snprintf(what, sizeof what, "formatter of %s \"%s\"%s", TY_NAME[v.ty], model_quote(val_text(op.val)).c_str(), nested ? " in a signal handler" : "");
            slot_open(i, ft_of(v.ty));
            W->slot[i].val = op.val;
            o.kind = K_MAKE; o.ty = v.ty; o.bits = v.bits; o.a = slot_ptr(i);
            if (op.kind == K_MAKE && (op.var & 9) == 9 && !nested) fun_take(t, o, false);
            bool ok = call(t, op, o, r, what);
            fun_give(t, o);
            slot_redzone(i, true);
            if (!ok) { slot_close(i); return; }
            W->slot[i].st = SL_LIVE;
            if (!(op.var & 2)) look_slot(i, what);
            if (op.kind == K_NFMT) {
                o.var = 0; o.ft = W->slot[i].ft;
                if (op.var & 4 && W->slot[i + 1].st == SL_DEAD) {       // by way of a copy, which is assigned back
                    Slot &s = W->slot[i];
                    slot_open(i + 1, s.ft);
                    W->slot[i + 1].val = op.val;
                    o.kind = K_COPY; o.b = slot_ptr(i + 1);
                    s.st = SL_BUSY; s.held = false;
                    bool okc = call(t, op, o, r, what);
                    slot_redzone(i + 1, true);
                    if (okc) {
                        cnt(C_COPY);
                        o.kind = K_ASSIGN; std::swap(o.a, o.b);
                        call(t, op, o, r, what);
                        cnt(C_COPY);
                        o.kind = K_DESTROY;
                        call(t, op, o, r, what);
                        slot_redzone(i + 1, true);
                        std::swap(o.a, o.b);
                        o.a = slot_ptr(i);
                    }
                    slot_close(i + 1);
                    slot_redzone(i, true);
                    s.st = SL_LIVE;
                }
                o.kind = K_READ;
                call(t, op, o, r, what);
                check_view(r, val_text(op.val), what);
                o.kind = K_DESTROY;
                W->slot[i].st = SL_BUSY;
                call(t, op, o, r, what);
                slot_redzone(i, true);
                slot_close(i);
            }
            return;
        }
        case K_COPY: {
            if (!src_live(op.a) || op.b < 0 || op.b >= NSLOT || W->slot[op.b].st != SL_DEAD || op.a == op.b) return;
            Slot &s = W->slot[op.a];
            o.var = op.var & 3;
            if (o.var == 1 && s.shared_ro) return;
            const int val = s.val;
            snprintf(what, sizeof what, "copy of the formatter of \"%s\"", model_quote(val_text(val)).c_str());
            slot_open(op.b, s.ft);
            W->slot[op.b].val = val;
            o.ft = s.ft; o.a = slot_ptr(op.a); o.b = slot_ptr(op.b);
            if (o.var == 1) { s.st = SL_MOVED; s.held = false; }
            bool ok = call(t, op, o, r, what);
            slot_redzone(op.b, true); slot_redzone(op.a, true);
            cnt(C_COPY);
            if (!ok) { slot_close(op.b); return; }
            W->slot[op.b].st = SL_LIVE;
            if (!(op.var & 4)) look_slot(op.b, what);
            return;
        }
        case K_ASSIGN: {
            if (!src_live(op.a) || op.b < 0 || op.b >= NSLOT) return;
            Slot &d = W->slot[op.b], &s = W->slot[op.a];
            if ((d.st != SL_LIVE && d.st != SL_MOVED) || d.ft != s.ft || d.shared_ro) return;
            o.var = op.var & 1;
            if (o.var == 1 && (s.shared_ro || op.a == op.b)) return;
            const int val = s.val;
            snprintf(what, sizeof what, "%s of the formatter of \"%s\"", op.a == op.b ? "self-assignment" : "assignment", model_quote(val_text(val)).c_str());
            o.ft = s.ft; o.a = slot_ptr(op.a); o.b = slot_ptr(op.b);
            d.held = false; d.st = SL_BUSY;
            if (o.var == 1) { s.st = SL_MOVED; s.held = false; }
            bool ok = call(t, op, o, r, what);
            cnt(C_COPY);
            slot_redzone(op.b, true);
            if (!ok) { d.st = SL_MOVED; return; }
            d.val = val; d.st = SL_LIVE;
            if (!(op.var & 4)) look_slot(op.b, what);
            return;
        }
        case K_SWAP: {
            if (!src_live(op.a) || !src_live(op.b) || op.a == op.b) return;
            Slot &x = W->slot[op.a], &y = W->slot[op.b];
            if (x.ft != y.ft || x.shared_ro || y.shared_ro) return;
            snprintf(what, sizeof what, "swap of the formatters of \"%s\" and \"%s\"", model_quote(val_text(x.val)).c_str(), model_quote(val_text(y.val)).c_str());
            o.ft = x.ft; o.a = slot_ptr(op.a); o.b = slot_ptr(op.b);
            x.st = y.st = SL_BUSY; x.held = y.held = false;
            bool ok = call(t, op, o, r, what);
            cnt(C_COPY, 3);
            slot_redzone(op.a, true); slot_redzone(op.b, true);
            if (!ok) { x.st = y.st = SL_MOVED; return; }
            std::swap(x.val, y.val);
            x.st = y.st = SL_LIVE;
            if (!(op.var & 4)) { look_slot(op.a, what); look_slot(op.b, what); }
            return;
        }
        case K_DESTROY: {
            if (op.a < 0 || op.a >= NSLOT) return;
            Slot &s = W->slot[op.a];
            if ((s.st != SL_LIVE && s.st != SL_MOVED) || s.shared_ro) return;
            snprintf(what, sizeof what, "destruction of the formatter of \"%s\"", model_quote(val_text(s.val)).c_str());
            o.ft = s.ft; o.a = slot_ptr(op.a);
            s.st = SL_BUSY; s.held = false;
            call(t, op, o, r, what);
            slot_redzone(op.a, true);
            slot_close(op.a);
            return;
        }
        case K_READ: {
            if (!src_live(op.a)) return;
            Slot &s = W->slot[op.a];
            static const char *const names[] = {"size/length/data/c_str", "string()", "conversion to std::string", "escape()", "jsonify()"};
            o.var = op.var % 5; o.bits = (uint64_t)(op.b & 3);
            snprintf(what, sizeof what, "%s of the formatter of %s \"%s\"", names[o.var], TY_NAME[P.vals[(size_t)s.val].ty], model_quote(val_text(s.val)).c_str());
            o.ft = s.ft; o.a = slot_ptr(op.a);
            if (s.shared_ro) cnt(C_SHARED_READ);
            int k = 0;
            if (o.var) o.res = res_mem(t, k);
            const int val = s.val;
            if (!call(t, op, o, r, what)) { look_slot(op.a, what); return; }
            if (!readable(r.data, val_text(val).size())) violation(V_UAF, "%s: data() refers to dead memory", what);
            check_view(r, val_text(val), what);
            if (o.var) res_keep(t, k, o.var == 3 ? W->esc[(size_t)val] : o.var == 4 ? W->json[(size_t)val] : val_text(val), what);
            slot_redzone(op.a, true);
            if (!s.shared_ro) { s.held = true; s.hp = r.data; s.hn = r.size; }
            return;
        }
        case K_VPUSH: case K_VGROW: case K_VERASE: case K_VCOPY: case K_VCLEAR: {
            int ft;
            if (op.kind == K_VPUSH) {
                if (!src_live(op.a)) return;
                ft = W->slot[op.a].ft;
                o.a = slot_ptr(op.a);
                if (W->vexp[t->id][ft].size() > 40) return;
            } else ft = op.b % F_N;
            auto &ex = W->vexp[t->id][ft];
            if (op.kind == K_VERASE && ex.empty()) return;
            snprintf(what, sizeof what, "%s of a container of %zu formatters", op.kind == K_VPUSH ? "push_back" : op.kind == K_VGROW ? "relocation" : op.kind == K_VERASE ? "erase" : op.kind == K_VCOPY ? "copy" : "clearing", ex.size());
            o.ft = (uint8_t)ft; o.vec = W->vec[t->id][ft]; o.bits = (uint64_t)(op.var & 7);
            W->vbusy[t->id][ft] = true;
            bool ok = call(t, op, o, r, what);
            W->vbusy[t->id][ft] = false;
            cnt(C_RELOC);
            if (!ok) return;
            if (op.kind == K_VPUSH) ex.push_back(val_text(W->slot[op.a].val));
            else if (op.kind == K_VERASE) ex.erase(ex.begin());
            else if (op.kind == K_VCLEAR) ex.clear();
            return;
        }
        case K_SEND: case K_CONV: {
            if (op.val < 0 || op.val >= (int)P.vals.size()) return;
            const Val &v = P.vals[(size_t)op.val];
            if (op.kind == K_SEND && (v.ty == T_F80 || v.ty == T_UC || W->msgs.size() >= NMSG)) return;
            static const char *const fns[] = {"lexi", "string", "escape", "jsonify"};
            o.kind = K_CONV;
            if (op.kind == K_SEND) o.var = (uint8_t)((op.var & 1) | (op.var & 12));
            int fn = o.var & 3;
            snprintf(what, sizeof what, "%s of %s \"%s\"", fns[fn], TY_NAME[v.ty], model_quote(val_text(op.val)).c_str());
            o.ty = v.ty; o.bits = v.bits;
            int k; o.res = res_mem(t, k);
            if (op.kind == K_CONV && op.a && (op.var >> 2) % 3 == 1 && v.ty != T_UC && !nested) fun_take(t, o, op.a == 2);
            const bool ok = call(t, op, o, r, what);
            fun_give(t, o);
            if (!ok) return;
            const std::string &e = fn == 2 ? W->esc[(size_t)op.val] : fn == 3 ? W->json[(size_t)op.val] : val_text(op.val);
            res_keep(t, k, e, what);
            if (op.kind == K_SEND) {
                // The string itself travels: move it into the channel.
                std::string *s = (std::string *)(RES + 0x40000 + W->msgs.size() * 64);
                std::string *from = (std::string *)o.res;
                ::new ((void *)s) std::string(std::move(*from));
                from->~basic_string(); W->res[t->id][k].live = false;
                Msg m; m.s = s; m.val = op.val; m.ty = v.ty; m.recvs = 0; m.exp = e; m.sender_loc = t->loc >= 0 ? t->loc : W->loc_global;
                W->msgs.push_back(m);
                for (int i = 0; i < MAXT; i++) if (t->vc[i] > W->chan.c[i]) W->chan.c[i] = t->vc[i];
                t->vc[t->id]++;
            }
            return;
        }
        case K_RECV: {
            if (W->msgs.empty()) return;
            Msg &m = W->msgs[(size_t)op.a % W->msgs.size()];
            for (int i = 0; i < MAXT; i++) if (W->chan.c[i] > t->vc[i]) t->vc[i] = W->chan.c[i];
            if (ty_float(m.ty) && (t->round != FE_TONEAREST || t->traps)) return;
            const Ty ty = (Ty)m.ty; const int val = m.val;
            snprintf(what, sizeof what, "extraction of %s from the received text \"%s\"", TY_NAME[ty], model_quote(m.exp).c_str());
            cnt(C_RECV); if (m.recvs++) cnt(C_RECV_DUP);
            if (m.sender_loc != (t->loc >= 0 ? t->loc : W->loc_global)) cnt(C_RECV_XLOC);
            o.kind = K_EXTRACT; o.ty = (uint8_t)ty; o.var = op.var % 6; o.s2 = W->other[ty == T_BOOL ? 1 : ty == T_NUL ? 2 : 0]; o.s = m.s; o.cs = m.s->c_str();
            if (o.var == 1 && m.exp.find('\0') != std::string::npos) o.var = 0;
            std::string before = m.exp;
            if (!call(t, op, o, r, what)) return;
            XVal e{0, 0};
            const Val &v = P.vals[(size_t)val];
            if (ty_float(ty)) e.ld = bits_double(v.bits); else e.bits = model_wrap(ty, v.bits);
            if (!model_equal(ty, e, r.x)) violation(V_MISMATCH, "%s: gave %lld / %.21Lg, expected %lld / %.21Lg", what, (long long)r.x.bits, r.x.ld, (long long)e.bits, e.ld);
            return;
        }
        case K_STR: {
            if (op.a < 0 || op.a >= (int)P.strs.size()) return;
            const std::string &s = P.strs[(size_t)op.a];
            static const char *const fns[] = {"lexi", "string", "escape", "jsonify"};
            int fn = op.var & 3, form = (op.var >> 2) % 5;
            if (form && form != 4 && s.find('\0') != std::string::npos) { form = 0; o.var = (uint8_t)fn; }
            snprintf(what, sizeof what, "%s of the string \"%s\" (%zu)", fns[fn], model_quote(s).c_str(), s.size());
            o.s = W->strs[(size_t)op.a]; o.cs = W->cstrs[(size_t)op.a];
            const bool scr = (op.b & 1) && !nested;
            if (scr) scratch(t, s, op.b, o);
            if (s.size() > 1000) cnt(C_LONG);
            int k; o.res = res_mem(t, k);
            bool ok = call(t, op, o, r, what);
            if (*o.s != s || memcmp(o.cs, s.c_str(), s.size() + 1)) violation(V_ARGMOD, "%s modified its argument", what);
            if (scr) scratch_spoil(t, o);
            if (!ok) return;
            res_keep(t, k, fn < 2 ? s : fn == 2 ? W->sesc[(size_t)op.a] : W->sjson[(size_t)op.a], what);
            return;
        }
        case K_EXTRACT: case K_REJECT: {
            if (op.a < 0 || op.a >= (int)P.txts.size()) return;
            const Txt &x = P.txts[(size_t)op.a];
            if ((op.kind == K_REJECT) != (x.reject == 1)) return;
            const int odd = W->oddk[(size_t)op.a], alone = odd < 0 ? O_OK : g_shm->odd[odd][x.ty].outcome;
            if (x.reject == 2 && (odd < 0 || (alone != O_OK && alone != O_RUNTIME))) return;
            if (odd >= 0) cnt(C_ODD);
            if (op.kind == K_EXTRACT && ty_float(x.ty) && (t->round != FE_TONEAREST || t->traps)) return;
            snprintf(what, sizeof what, "extraction of %s from \"%s\"%s", TY_NAME[x.ty], model_quote(x.s).c_str(), nested ? " in a signal handler" : "");
            o.ty = x.ty; o.s = W->txts[(size_t)op.a]; o.cs = W->ctxts[(size_t)op.a];
            o.var = op.var % 6; o.s2 = W->other[x.ty == T_BOOL ? 1 : x.ty == T_NUL ? 2 : 0];
            if (o.var == 1 && ((nested && !P.reenter) || x.s.find('\0') != std::string::npos)) o.var = 0;
            if (op.kind == K_REJECT) cnt(C_REJECT);
            const bool scr = (op.b & 1) && !nested;
            if (scr) scratch(t, x.s, op.b, o);
            if ((op.b & 4) && o.var == 2 && x.ty != T_UC && !nested) fun_take(t, o, op.b & 8);
            bool ok = call(t, op, o, r, what, op.kind == K_REJECT || alone == O_RUNTIME);
            fun_give(t, o);
            if (*o.s != x.s || memcmp(o.cs, x.s.c_str(), x.s.size() + 1)) violation(V_ARGMOD, "%s modified its argument", what);
            if (scr) scratch_spoil(t, o);
            if (!ok || op.kind == K_REJECT || alone != O_OK) return;
            const XVal &e = W->xexp[(size_t)op.a];
            if (!model_equal((Ty)x.ty, e, r.x)) violation(V_MISMATCH, "%s: gave %lld / %.21Lg, expected %lld / %.21Lg", what, (long long)r.x.bits, r.x.ld, (long long)e.bits, e.ld);
            return;
        }
        case K_XMAKE: {
            if (op.a < 0 || op.a >= (int)P.txts.size() || op.b < 0 || op.b >= NX || W->xslot[op.b].st != SL_DEAD) return;
            const Txt &x = P.txts[(size_t)op.a];
            if (x.reject == 1 || (ty_float(x.ty) && t->round != FE_TONEAREST)) return;
            if (x.reject == 2 && (W->oddk[(size_t)op.a] < 0 || g_shm->odd[W->oddk[(size_t)op.a]][x.ty].outcome != O_OK)) return;
            snprintf(what, sizeof what, "extractor of %s from \"%s\"", TY_NAME[x.ty], model_quote(x.s).c_str());
            xslot_open(op.b, xk_of(x.ty));
            W->xslot[op.b].txt = op.a;
            o.ty = x.ty; o.ft = xk_of(x.ty); o.b = xslot_ptr(op.b);
            scratch(t, x.s, op.var, o);
            bool ok = call(t, op, o, r, what);
            if (*o.s != x.s) violation(V_ARGMOD, "%s modified its argument", what);
            scratch_spoil(t, o);
            if (!ok) { xslot_close(op.b); return; }
            W->xslot[op.b].st = SL_LIVE;
            return;
        }
        case K_XCOPY: {
            if (op.a < 0 || op.a >= NX || op.b < 0 || op.b >= NX || op.a == op.b || W->xslot[op.a].st != SL_LIVE) return;
            XSlot &s = W->xslot[op.a], &d = W->xslot[op.b];
            o.var = op.var & 1;
            if (o.var ? d.st != SL_LIVE || d.xk != s.xk || d.shared_ro : d.st != SL_DEAD) return;
            snprintf(what, sizeof what, "copy of an extractor");
            if (!o.var) xslot_open(op.b, s.xk);
            d.st = SL_BUSY; const int txt = s.txt;
            o.ft = s.xk; o.a = xslot_ptr(op.a); o.b = xslot_ptr(op.b);
            const bool ok = call(t, op, o, r, what);
            if (!ok) { xslot_close(op.b); return; }
            d.st = SL_LIVE; d.txt = txt;
            return;
        }
        case K_XREAD: {
            if (op.a < 0 || op.a >= NX || W->xslot[op.a].st != SL_LIVE) return;
            const XSlot &s = W->xslot[op.a];
            const Txt &x = P.txts[(size_t)s.txt];
            Txt y = x; y.ty = (uint8_t)(op.var % T_N);
            if (xk_of(y.ty) != s.xk) y.ty = x.ty;
            if (ty_float(y.ty) && (t->round != FE_TONEAREST || t->traps)) return;
            if (x.reject == 2 && g_shm->odd[W->oddk[(size_t)s.txt]][y.ty].outcome != O_OK) return;
            snprintf(what, sizeof what, "value as %s of the extractor of \"%s\"", TY_NAME[y.ty], model_quote(x.s).c_str());
            o.ty = y.ty; o.a = xslot_ptr(op.a);
            cnt(C_XREAD); if (s.shared_ro) cnt(C_SHARED_READ);
            if (!call(t, op, o, r, what)) return;
            const XVal e = x.reject == 2 ? g_shm->odd[W->oddk[(size_t)s.txt]][y.ty].x : model_extract(y);
            if (!model_equal((Ty)y.ty, e, r.x)) violation(V_MISMATCH, "%s: gave %lld / %.21Lg, expected %lld / %.21Lg", what, (long long)r.x.bits, r.x.ld, (long long)e.bits, e.ld);
            return;
        }
        case K_XDEL: {
            if (op.a < 0 || op.a >= NX || W->xslot[op.a].st != SL_LIVE || W->xslot[op.a].shared_ro) return;
            o.ft = W->xslot[op.a].xk; o.a = xslot_ptr(op.a);
            W->xslot[op.a].st = SL_BUSY;
            call(t, op, o, r, "destruction of an extractor");
            xslot_close(op.a);
            return;
        }
        case K_ERRNO: t->err = op.a; cnt(C_ERRNO); g_shm->nontrivial = 1; return;
        case K_FPFLAGS: t->flags = op.a & FE_ALL_EXCEPT; t->denormals = (op.b & 1 ? 0x8000 : 0) | (op.b & 2 ? 0x40 : 0); cnt(C_FPFLAGS); g_shm->nontrivial = 1; return;
        case K_ROUND: {
            static const int modes[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
            t->round = modes[op.a & 3]; fesetround(t->round); cnt(C_ROUND); g_shm->nontrivial = 1;
            return;
        }
        case K_LOCTHREAD:
            t->loc = op.a % NLOCS; uselocale(LT[t->loc]); cnt(C_LOC); g_shm->nontrivial = 1; return;
        case K_LOCGLOBAL:
            if (W->infloat) return;
            locale_global(op.a); cnt(C_LOC); g_shm->nontrivial = 1; return;
        case K_CROWDEND: crowd_end(t, op.a); return;
        case K_MANY: run_many(t, op, op.repeat); return;
        case K_TRAP: t->traps = op.a & (FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW); t->flags = 0; return;
        case K_LOCCXX:
            if (W->infloat) return;
            std::locale::global(*CXX[op.a % NLOCS]);
            W->locname = setlocale(LC_ALL, nullptr); W->loc_global = W->cxx_global = op.a % NLOCS;
            cnt(C_LOC); g_shm->nontrivial = 1;
            return;
        default: return;
    }
}
// Very many calls of one kind: the same oracle, without scheduling points.
static void run_fast(T *t, const Op &op, uint32_t n)
{
    const Plan &P = *W->P;
    if (op.kind == K_EXTRACT && ty_float(P.txts[(size_t)op.a].ty) && (t->round != FE_TONEAREST || t->traps)) return;
    COp o; memset(&o, 0, sizeof o); COut r;
    o.kind = op.kind; o.var = op.var;
    alignas(16) static char obj[SLOT_MAX];
    const bool text = op.kind == K_CONV || op.kind == K_STR;
    const std::string *e = nullptr;
    int ft = 0;
    if (op.kind == K_CONV || op.kind == K_NFMT) {
        const Val &v = P.vals[(size_t)op.val]; o.ty = v.ty; o.bits = v.bits; const int fn = op.var & 3;
        e = op.kind == K_NFMT || fn < 2 ? &val_text(op.val) : fn == 2 ? &W->esc[(size_t)op.val] : &W->json[(size_t)op.val];
        ft = ft_of(v.ty);
    } else if (op.kind == K_STR) {
        const int fn = op.var & 3;
        if (P.strs[(size_t)op.a].find('\0') != std::string::npos) o.var = (uint8_t)fn;
        o.s = W->strs[(size_t)op.a]; o.cs = W->cstrs[(size_t)op.a];
        e = fn < 2 ? &P.strs[(size_t)op.a] : fn == 2 ? &W->sesc[(size_t)op.a] : &W->sjson[(size_t)op.a];
    } else {
        const Txt &x = P.txts[(size_t)op.a];
        o.ty = x.ty; o.s = W->txts[(size_t)op.a]; o.cs = W->ctxts[(size_t)op.a]; o.var = op.var % 6; o.s2 = W->other[x.ty == T_BOOL ? 1 : x.ty == T_NUL ? 2 : 0];
        if (o.var == 1 && x.s.find('\0') != std::string::npos) o.var = 0;
    }
    if ((op.kind == K_CONV && op.a && (op.var >> 2) % 3 == 1 && o.ty != T_UC) || ((op.kind == K_EXTRACT || op.kind == K_REJECT) && (op.b & 4) && o.var == 2 && o.ty != T_UC)) fun_take(t, o, false);
    int k = 0;
    for (uint32_t i = 0; i < n; i++) {
        if (text) o.res = res_mem(t, k);
        else if (op.kind == K_NFMT) { o.kind = K_MAKE; o.a = obj; o.ft = (uint8_t)ft; memset(obj, (int)(i * 7), client_sizeof(ft)); }
        memset((void *)&r, 0, sizeof r);
        const HeapMode hm = t->heap; const bool ic = t->in_core;
        t->heap = H_SIM; t->in_core = false;
        const int fp = fp_enter(t);
        client_exec(o, r);
        fp_leave(t, fp);
        t->heap = hm; t->in_core = ic;
        cnt(C_OPS);
        if (op.kind == K_REJECT) {
            if (r.outcome != O_RUNTIME) violation(V_BADEXC, "call %u of the same kind: %s", i, r.outcome == O_OK ? "a value was extracted from a text that is not one" : "an exception other than std::runtime_error");
            continue;
        }
        if (r.outcome != O_OK) violation(V_BADEXC, "call %u of the same kind threw", i);
        if (text) res_keep(t, k, *e, "one of very many equal calls");
        else if (op.kind == K_NFMT) {
            COut l{}; client_look(ft, obj, l);
            check_view(l, *e, "one of very many equal formatters");
            client_destroy(ft, obj);
        } else if (!model_equal((Ty)o.ty, W->xexp[(size_t)op.a], r.x)) violation(V_MISMATCH, "call %u of the same kind: gave %lld / %.21Lg", i, (long long)r.x.bits, r.x.ld);
    }
    fun_give(t, o);
}
// Very many conversions, each of another value.
enum { M_TEXT = 4, M_LIVE, M_EXTRACT, M_STR, M_REJECT, M_XLIVE, M_BOTH, M_KINDS };
constexpr int MAXLIVE = 640;
static uint64_t many_bits(const Val &v, uint64_t i, int apart)
{
    static const uint64_t stride[16] = {1, 1, 2, 3, 7, 8, 10, 64, 100, 256, 1000, 4096, 1000003, 1ull << 20, 1ull << 32, 0x9E3779B97F4A7C15ull};
    const uint64_t d = i * stride[apart & 15];
    if (v.ty == T_F32) {
        float f = (float)bits_double(v.bits); uint32_t u;
        memcpy(&u, &f, 4);
        u += (uint32_t)d;
        if ((u >> 23 & 255) == 255) u ^= 1u << 29;
        memcpy(&f, &u, 4);
        return double_bits(f);
    }
    if (ty_float(v.ty)) { uint64_t u = v.bits + d; if ((u >> 52 & 2047) == 2047) u ^= 1ull << 61; return u; }
    return model_wrap((Ty)v.ty, v.bits + d);
}
static std::string many_number(const Val &v, uint64_t bits, uint64_t i)
{
    if (!ty_float(v.ty)) return model_text((Ty)v.ty, bits);
    char b[80];
    snprintf(b, sizeof b, "%s%llu.%llue%d", i & 1 ? "-" : "", (unsigned long long)(bits % 1000003), (unsigned long long)(i % 100000), (int)(i % 31) - 15);
    return b;
}
static void run_many(T *t, const Op &op, uint32_t n)
{
    const Plan &P = *W->P;
    const int what = op.var % 16 % M_KINDS;
    if (op.val < 0 || op.val >= (int)P.vals.size() || (what == M_STR && (op.a < 0 || op.a >= (int)P.strs.size()))) return;
    const Val &v = P.vals[(size_t)op.val];
    const int ft = ft_of(v.ty), xk = xk_of(v.ty);
    const bool ch = v.ty == T_CH || v.ty == T_UC, fl = what != M_STR && ty_float(v.ty);
    if (what == M_REJECT && v.ty != T_BOOL && v.ty != T_NUL) return;
    if ((what == M_EXTRACT || what == M_XLIVE || what == M_BOTH) && fl && (t->round != FE_TONEAREST || t->traps)) return;
    alignas(16) static char mem[MAXT][MAXLIVE][SLOT_MAX];       // touched only where needed
    const bool live = what == M_LIVE || what == M_XLIVE;
    if (live && n > MAXLIVE) n = MAXLIVE;
    auto at = [&](uint64_t i) { return (void *)mem[t->id][live ? i : 0]; };
    std::vector<std::string> seen;      // texts of floating-point numbers
    COp o; COut r;
    bool measured = false;
    uint64_t steps = 0;
    auto go = [&](const char *w) {
        memset((void *)&r, 0, sizeof r);
        const HeapMode hm = t->heap; const bool ic = t->in_core;
        const uint32_t step0 = t->step;
        t->mem = t->mempeak = 0; t->touched = 0;
        const int fp = fp_enter(t);
        t->heap = H_SIM; t->in_core = false; t->hooks = measured;
        client_exec(o, r);
        fp_leave(t, fp);
        t->hooks = false; t->heap = hm; t->in_core = ic;
        if (measured) { steps = std::max<uint64_t>(steps, t->step - step0); cost_bound(t, o, t->step - step0, w); }
        cnt(C_OPS); cnt(C_MANY);
        if (r.outcome != (what == M_REJECT ? O_RUNTIME : O_OK)) violation(V_BADEXC, "%s: %s", w, r.outcome == O_OK ? "a value was extracted from a text that is not one" : "threw");
    };
    const std::string base = what == M_STR ? P.strs[(size_t)op.a].substr(0, 300) : std::string();
    const uint64_t first = (uint64_t)W->round * n;
    std::string w, s, e;
    auto value = [&](uint64_t i) {
        memset(&o, 0, sizeof o);
        o.ty = v.ty; o.bits = many_bits(v, first + i, op.b); o.ft = (uint8_t)ft;
        w = "conversion " + std::to_string(i + 1) + " of " + std::to_string(n) + " of different values: " + TY_NAME[v.ty];
        if (what == M_STR) {
            static const char some[] = ",\"\n\\;\x7f \x01-\xc3";
            s = std::to_string(first + i);
            switch ((i + (unsigned)op.b) % 4) { case 0: break; case 1: s += some[i / 4 % 10]; break; case 2: s = base + s; break; default: s += base; break; }
            return;
        }
        if (what == M_REJECT) { s = "not " + std::to_string(first + i); return; }
        s = many_number(v, o.bits, first + i);
    };
    auto right = [&](const char *text, size_t len, uint64_t i) {
        if (fl) {
            if (strlen(text) != len) violation(V_MISMATCH, "%s: an embedded null", w.c_str());
            fesetround(FE_TONEAREST);
            const char *m = model_float_error(o.bits, text);
            fesetround(t->round);
            if (m) violation(V_MISMATCH, "%s %.17g: \"%s\": %s", w.c_str(), bits_double(o.bits), model_quote(text).c_str(), m);
            if (seen.size() <= i) seen.resize(n);
            if (seen[i].empty()) seen[i] = text;
            else if (seen[i] != text) violation(V_MISMATCH, "%s %.17g: gave \"%s\" at first, now \"%s\"", w.c_str(), bits_double(o.bits), seen[i].c_str(), text);
            return;
        }
        const std::string &x = e;
        if (x.size() != len || memcmp(text, x.data(), len + 1)) violation(V_MISMATCH, "%s: gave \"%s\" (%zu), expected \"%s\" (%zu)", w.c_str(), model_quote(std::string(text, len)).c_str(), len, model_quote(x).c_str(), x.size());
    };
    auto conv = [&](uint64_t i, int fn) {
        o.kind = what == M_STR ? K_STR : K_CONV; o.var = (uint8_t)(fn | (what == M_STR ? 0 : (op.var >> 4) % 3 << 2));
        if (what == M_STR) { o.s = &s; o.cs = s.c_str(); }
        e = fn < 2 ? s : fn == 2 ? (ch || what == M_STR ? model_escape(s) : s) : ch || what == M_STR ? model_json(s) : s;
        int k; o.res = res_mem(t, k);
        go(w.c_str());
        const std::string &g = *(std::string *)o.res;
        right(g.c_str(), g.size(), i);
        res_keep(t, k, fl && what != M_STR ? g : e, w.c_str());
    };
    auto ask = [&](uint64_t i) {
        (void)i;
        Txt x; x.ty = v.ty; x.reject = 0; x.s = s;
        o.kind = K_EXTRACT; o.var = (uint8_t)((op.var >> 4) % 6); o.s = &s; o.cs = s.c_str(); o.s2 = W->other[v.ty == T_BOOL ? 1 : v.ty == T_NUL ? 2 : 0];
        if (o.var == 1 && s.find('\0') != std::string::npos) o.var = 0;
        go(w.c_str());
        if (what == M_REJECT) return;
        const XVal m = model_extract(x);
        if (!model_equal((Ty)v.ty, m, r.x)) violation(V_MISMATCH, "%s from \"%s\": gave %lld / %.21Lg, expected %lld / %.21Lg", w.c_str(), model_quote(s).c_str(), (long long)r.x.bits, r.x.ld, (long long)m.bits, m.ld);
    };
    auto look = [&](uint64_t i, const char *when) {
        COut l{}; client_look(ft, at(i), l);
        if (l.size != l.length || l.cstr != l.data) violation(V_MISMATCH, "%s: size, length, data and c_str disagree %s", w.c_str(), when);
        e = s;
        right(l.data, l.size, i);
    };
    auto one = [&](uint64_t i) {
        value(i);
        switch (what) {
            case M_TEXT: case M_LIVE:
                o.kind = K_MAKE; o.var = (op.var >> 4) & 1; o.a = at(i);
                memset(at(i), (int)(i * 7), client_sizeof(ft));
                go(w.c_str());
                look(i, "at once");
                if (!live) client_destroy(ft, at(i));
                break;
            case M_XLIVE:
                o.kind = K_XMAKE; o.ft = (uint8_t)xk; o.b = at(i); o.s = &s; o.cs = s.c_str();
                memset(at(i), (int)(i * 7), client_xsizeof(xk));
                go(w.c_str());
                break;
            case M_EXTRACT: case M_REJECT: ask(i); break;
            case M_BOTH: conv(i, (int)(i & 3)); ask(i); break;
            default: conv(i, what == M_STR ? (op.var >> 4) & 3 : what); break;
        }
    };
    uint64_t early = 0, late = ~0ull;
    for (uint32_t i = 0; i < n; i++) {
        measured = P.cost && !live && n >= 40 && (i < 8 || i >= n - 8);
        steps = 0;
        one(i);
        if (i && i % 500 == 0) check_held();
        if (measured && i && i < 8) early = std::max(early, steps);
        if (measured && i >= 8) late = std::min(late, steps);
    }
    if (measured) cost_compare(early, late, w.c_str());
    measured = false;
    if (live) for (uint64_t k = 0; k < n; k++) {        // all of them are alive: each still has its own
        const uint64_t i = op.b & 16 ? n - 1 - k : k;
        value(i);
        if (what == M_LIVE) { look(i, "when all are alive"); client_destroy(ft, at(i)); continue; }
        Txt x; x.ty = v.ty; x.reject = 0; x.s = s;
        o.kind = K_XREAD; o.a = at(i); o.ty = v.ty;
        go(w.c_str());
        const XVal m = model_extract(x);
        if (!model_equal((Ty)v.ty, m, r.x)) violation(V_MISMATCH, "the extractor of %s from \"%s\", when %u are alive: gave %lld / %.21Lg, expected %lld / %.21Lg", TY_NAME[v.ty], model_quote(s).c_str(), n, (long long)r.x.bits, r.x.ld, (long long)m.bits, m.ld);
        o.kind = K_XDEL; o.ft = (uint8_t)xk; o.a = at(i);
        go(w.c_str());
    }
    else for (uint64_t i = 0; i < n; i += 1 + n / 20) one(i);      // some of them once more
    check_held();
}
// The operation on a thread of its own, which then ends.
struct Fresh { T *t; const Op *op; };
static void fresh_begin(T *t)
{
    self_ = t;
    fesetround(t->round);
    if (t->loc >= 0) uselocale(LT[t->loc % NLOCS]);
}
static void fresh_end(void *p)      // every C++ thread-local object of the thread is gone
{
    Fresh *f = (Fresh *)p;
    cnt(C_FRESH_EXIT);
    Core c(f->t);
    run_once(f->t, *f->op, false);
}
static pthread_key_t fresh_key;
static void *fresh_main(void *p)
{
    Fresh *f = (Fresh *)p;
    fresh_begin(f->t);
    Core c(f->t);
    if ((f->op->fresh & 3) == 2) {
        pthread_setspecific(fresh_key, f);
        Op o = *f->op;
        switch (o.kind) {
            case K_MAKE: o.kind = K_NFMT; run_once(f->t, o, false); break;
            case K_CONV: case K_STR: case K_EXTRACT: case K_REJECT: case K_READ: case K_NFMT: case K_RECV: case K_XREAD: run_once(f->t, o, false); break;
            default: break;
        }
    } else run_once(f->t, *f->op, false);
    return nullptr;
}
static void run_fresh(T *t, const Op &op)
{
    static bool made = false;
    if (!made) { made = true; if (pthread_key_create(&fresh_key, fresh_end)) { fprintf(stderr, "pthread_key_create failed\n"); _exit(9); } }
    cnt(C_FRESH);
    Fresh f{t, &op};
    void *const stack = (void *)(STACKS + STACK_SZ * (size_t)(MAXT + t->id));
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stack, STACK_SZ);
    pthread_t th;
    t->fresh = true;
    if (pthread_create(&th, &at, fresh_main, &f)) { fprintf(stderr, "pthread_create failed\n"); _exit(9); }
    pthread_join(th, nullptr);
    pthread_attr_destroy(&at);
    t->fresh = false;
    t->in_core = true; t->hooks = false;
    madvise(stack, STACK_SZ, MADV_DONTNEED);
}
static void *crowd_main(void *p)
{
    Crowd *c = (Crowd *)p;
    fresh_begin(c->t);
    c->t->crowd = c->k + 1;
    { Core x(c->t); run_once(c->t, *c->op, false); }
    c->t->crowd = 0;
    self_ = nullptr;
    give(&c->done);
    take(&c->go);
    self_ = c->t;           // ends, with its thread-local objects, while thread t waits for it
    fesetround(c->t->round);
    c->t->crowd = c->k + 1;
    return nullptr;
}
// The operation on a thread of its own, which stays.
static void run_crowd(T *t, const Op &op)
{
    if (ncrowd >= MAXCROWD) { run_once(t, op, false); return; }
    const int k = ncrowd++;
    Crowd &c = CR[k];
    c.t = t; c.op = &op; c.k = k;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void *)(CROWDS + CROWD_SZ * (size_t)k), CROWD_SZ);
    const int err = pthread_create(&c.th, &at, crowd_main, &c);
    pthread_attr_destroy(&at);
    if (err == EINVAL) { ncrowd--; run_once(t, op, false); return; }        // so much thread-local storage that a small stack has no room for it
    if (err) { fprintf(stderr, "pthread_create failed\n"); _exit(9); }
    cnt(C_CROWD);
    take(&c.done);
    c.parked = true;
    t->in_core = true; t->hooks = false; t->crowd = 0;
}
static void crowd_end(T *t, int n)
{
    for (int k = 0; k < ncrowd && n > 0; k++) {
        Crowd &c = CR[k];
        if (c.gone || !c.parked) continue;
        c.t = t; c.parked = false;
        give(&c.go);
        pthread_join(c.th, nullptr);
        c.gone = true; t->crowd = 0; t->in_core = true; t->hooks = false;
        cnt(C_CROWD_END);
        n--;
    }
}
static uint64_t op_len(const Op &op)
{
    const Plan &P = *W->P;
    if (op.kind == K_STR && op.a >= 0 && op.a < (int)P.strs.size()) return P.strs[(size_t)op.a].size();
    if ((op.kind == K_EXTRACT || op.kind == K_REJECT || op.kind == K_XMAKE) && op.a >= 0 && op.a < (int)P.txts.size()) return P.txts[(size_t)op.a].s.size();
    return 64;
}
static void run_op(T *t, const Op &op, bool nested)
{
    Core c(t);
    h(0x8000 + op.kind);
    if (!nested) W->ih = mix(W->ih, 0x5151 + op.kind + ((uint64_t)t->id << 8));
    const bool fast = op.repeat > 20000 && op.fail == FM_NONE && !nested && (op.kind == K_CONV || op.kind == K_NFMT ? op.val >= 0 && op.val < (int)W->P->vals.size()
        : op.kind == K_STR ? op.a >= 0 && op.a < (int)W->P->strs.size() : (op.kind == K_EXTRACT || op.kind == K_REJECT) && op.a >= 0 && op.a < (int)W->P->txts.size() && W->P->txts[(size_t)op.a].reject == (op.kind == K_REJECT));
    t->least = 0;
    for (uint32_t i = 0, n = op.kind == K_MANY ? 1 : op.repeat; i < n; i++) {
        if (i == 1) t->least = 0;
        if (fast && i == 100) { run_fast(t, op, op.repeat - 200); i = op.repeat - 100; }
        if (!nested && i) t->budget = t->step + 1500000 + 8ull * W->P->fair + 600 * op_len(op);
        const bool amb = op.kind == K_ERRNO || op.kind == K_FPFLAGS || op.kind == K_ROUND || op.kind == K_LOCTHREAD || op.kind == K_CROWDEND || op.kind == K_TRAP;
        if ((op.fresh & 16) && !nested && !amb && op.repeat <= MAXCROWD) run_crowd(t, op);
        else if ((op.fresh & 3) && !nested && !amb && op.repeat <= 1000) run_fresh(t, op);
        else run_once(t, op, nested);
        if (i && i % 500 == 0) check_held();
    }
    if (op.repeat > 1 && op.kind != K_MANY) cnt(C_REPEAT, op.repeat);
    if (W->P->cost && t->least && op.repeat >= 2 && op.repeat <= 4 && !nested) {
        uint64_t k = mix(mix(op.kind, op.var), op.fresh);
        k = mix(mix(mix(k, (uint64_t)op.val), (uint64_t)op.a), (uint64_t)op.b);
        const auto f = W->cost.emplace(k, t->least);
        if (!f.second) cost_compare(f.first->second, t->least, op_describe(*W->P, op).c_str());
    }
    check_held();
}

static void *thread_main(void *p)
{
    T *t = (T *)p;
    self_ = t;
    fesetround(FE_TONEAREST);
    for (;;) {
        take(&t->go);
        const auto &ops = W->P->prog[W->phase][t->id];
        for (size_t i = 0; i < ops.size(); i++) {
            const Op &op = ops[i];
            t->op = &op; t->opidx = (int)i; t->step = 0;
            t->budget = 1500000 + 8ull * W->P->fair + 600 * op_len(op);
            if (!W->replay) {
                const Strat &s = W->P->st;
                t->cd_sw = s.sw_mean && !(op.fresh & 32) ? s.at && W->rng.pct(50) ? s.at : W->rng.geom(s.sw_mean) : 0;
                t->cd_intr = s.intr_mean && !W->P->nested.empty() ? W->rng.geom(s.intr_mean) : 0; t->intr_left = 3;
                t->cd_loc = s.loc_mean ? W->rng.geom(s.loc_mean) : 0;
                t->cd_re = s.re_mean ? W->rng.geom(s.re_mean) : 0; t->re_left = 6;
                t->cd_ab = s.ab_mean && W->rng.pct(50) ? W->rng.geom(s.ab_mean) : 0;
                t->cd_stall = W->want_stall > 0 && W->rng.pct(60) ? s.at ? s.at : W->rng.geom(s.stall_mean) : 0;
            }
            point(t, true);
            run_op(t, op, false);
        }
        t->st = TS_DONE;
        if (ops.empty()) t->op = nullptr;
        leave(t, false);
        // resumed only for the next phase: the baton is already taken
        t->go.store(1);
    }
    return nullptr;
}

static void map_fixed(uintptr_t a, size_t n)
{
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)a) { fprintf(stderr, "cannot map the simulated memory\n"); _exit(9); }
}
// Alone in a process: on a clean stack at a fixed place, in clean memory at a fixed place.
static void *float_main(void *p)
{
    const Plan &P = *(const Plan *)p;
    for (size_t i = 0; i < P.vals.size() && i < 64; i++)
        if (ty_float(P.vals[i].ty)) feclearexcept(FE_ALL_EXCEPT), client_float_text(P.vals[i].ty, P.vals[i].bits, (void *)(BASE + 4096 * (i + 1)), g_shm->ftext[i], sizeof g_shm->ftext[i]);
    int k = 0;
    for (auto &x : P.txts) {
        if (x.reject != 2 || k >= MAXODD) continue;
        for (int ty = 0; ty < T_N; ty++) {
            if (xk_of(ty) != xk_of(x.ty)) continue;
            COp o{}; COut r{};
            o.kind = K_EXTRACT; o.ty = (uint8_t)ty; o.s = &x.s; o.cs = x.s.c_str();
            feclearexcept(FE_ALL_EXCEPT);
            client_exec(o, r);
            g_shm->odd[k][ty].outcome = r.outcome; g_shm->odd[k][ty].x = r.x;
        }
        k++;
    }
    _exit(0);
}
void float_texts(const Plan *P)
{
    map_fixed(BASE, SIM_END - BASE);
    map_fixed(STACKS, STACK_SZ);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void *)STACKS, STACK_SZ);
    pthread_t th;
    if (pthread_create(&th, &at, float_main, (void *)P)) { fprintf(stderr, "pthread_create failed\n"); _exit(9); }
    for (;;) pause();
}
void world_setup(const Plan *P, bool replay)
{
    map_fixed(BASE, SIM_END - BASE);
    map_fixed(SHADOW, SIM_END - BASE);
    map_fixed(STACKS, STACK_SZ * MAXT * 2 + CROWD_SZ * MAXCROWD);
    memset(shadow(RES), S_LIVE, RES_SZ);
    W = new World;
    W->P = P; W->replay = replay;
    tsc_open();
    g_envs = g_enve = (uintptr_t)environ; for (char **e = environ; e && *e; e++) g_enve += sizeof *e;
    W->rng = Rng(P->seed ^ 0x5ced0e5ull); W->fillrng = Rng(P->seed ^ 0xf111ull);
    W->want_stall = (int)P->st.stall;
    W->locname = setlocale(LC_ALL, nullptr);
    memset(W->vec, 0, sizeof W->vec); memset(W->vbusy, 0, sizeof W->vbusy);
    for (size_t i = 0; i < P->vals.size(); i++) {
        const Val &v = P->vals[i];
        std::string tx;
        if (ty_float(v.ty)) {
            tx = g_shm->ftext[i];
            if (const char *e = model_float_error(v.bits, tx.c_str())) violation(V_MISMATCH, "formatting of %s %.17g, alone in a fresh process: \"%s\": %s", TY_NAME[v.ty], bits_double(v.bits), model_quote(tx).c_str(), e);
        } else tx = model_text((Ty)v.ty, v.bits);
        W->text.push_back(tx);
        const bool ch = v.ty == T_CH || v.ty == T_UC;
        W->esc.push_back(ch ? model_escape(tx) : tx);
        W->json.push_back(ch ? model_json(tx) : tx);
    }
    T arg; arg.id = 0; arg.heap = H_ARG; arg.in_core = true;
    for (auto &s : P->strs) W->longest = std::max(W->longest, s.size());
    for (auto &x : P->txts) W->longest = std::max(W->longest, x.s.size());
    auto mkstr = [&](const std::string &s, std::vector<std::string *> &a, std::vector<char *> &c) {
        T *old = self_;
        void *p = arg_alloc(sizeof(std::string));
        self_ = &arg;
        ::new (p) std::string(s.data(), s.size());
        char *cp = (char *)arg_alloc(s.size() + 1);
        self_ = old;
        memcpy(cp, s.c_str(), s.size() + 1);
        a.push_back((std::string *)p); c.push_back(cp);
    };
    { std::vector<char *> c; mkstr("7", W->other, c); mkstr("true", W->other, c); mkstr("null", W->other, c); }
    for (auto &s : P->strs) { mkstr(s, W->strs, W->cstrs); W->sesc.push_back(model_escape(s)); W->sjson.push_back(model_json(s)); }
    int odd = 0;
    for (auto &x : P->txts) {
        mkstr(x.s, W->txts, W->ctxts);
        const bool o = x.reject == 2 && odd < MAXODD;
        W->oddk.push_back(o ? odd++ : -1);
        W->xexp.push_back(o ? g_shm->odd[W->oddk.back()][x.ty].x : x.reject ? XVal{0, 0} : model_extract(x));
    }
    for (int i = 0; i < P->nthreads; i++) {
        T *t = W->t[i] = new T;
        t->id = i;
        for (int k = 0; k < MAXT; k++) t->vc[k] = k == i ? 1 : 0;
        pthread_attr_t at; pthread_attr_init(&at);
        pthread_attr_setstack(&at, (void *)(STACKS + STACK_SZ * (size_t)i), STACK_SZ);
        if (pthread_create(&t->th, &at, thread_main, t)) { fprintf(stderr, "pthread_create failed\n"); _exit(9); }
        pthread_attr_destroy(&at);
    }
}
void world_phase(int p)
{
    const Plan *P = W->P;
    W->phase = p;
    // phases are separated by a barrier
    uint32_t m[MAXT] = {};
    for (int i = 0; i < P->nthreads; i++) for (int k = 0; k < MAXT; k++) if (W->t[i]->vc[k] > m[k]) m[k] = W->t[i]->vc[k];
    int first = -1;
    for (int i = 0; i < P->nthreads; i++) {
        T *t = W->t[i];
        for (int k = 0; k < MAXT; k++) t->vc[k] = m[k];
        t->vc[i]++;
        t->op = nullptr;
        if (t->st != TS_STALLED) { t->st = P->prog[p][i].empty() ? TS_DONE : TS_RUN; if (t->st == TS_RUN && first < 0) first = i; }
    }
    // shared formatters are read-only in phases with several threads
    if (P->rozone) {
        int act = 0;
        for (int i = 0; i < P->nthreads; i++) if (!P->prog[p][i].empty()) act++;
        for (int i = SH0; i < SH0 + NSH; i++) {
            Slot &s = W->slot[i];
            s.shared_ro = act > 1 && s.st == SL_LIVE;
            if (s.st == SL_LIVE) memset(shadow((uintptr_t)slot_ptr(i)), s.shared_ro ? S_RO : S_LIVE, client_sizeof(s.ft));
        }
        for (int i = XSH0; i < NX; i++) {
            XSlot &s = W->xslot[i];
            s.shared_ro = act > 1 && s.st == SL_LIVE;
            if (s.st == SL_LIVE) memset(shadow((uintptr_t)xslot_ptr(i)), s.shared_ro ? S_RO : S_LIVE, client_xsizeof(s.xk));
        }
    }
    if (first < 0) return;
    W->cur = first;
    give(&W->t[first]->go);
    take(&W->ctl);
}
static void cleanup(bool final)
{
    T ctl; ctl.id = 0; ctl.in_core = true; ctl.heap = H_REAL;
    for (int k = 0; k < MAXT; k++) ctl.vc[k] = 0xffffffffu;
    self_ = &ctl;
    check_held();
    for (int i = 0; i < NSLOT; i++)
        if (W->slot[i].st == SL_LIVE) { slot_redzone(i, true); if (!W->stalled || !final) look_slot(i, "formatter at the end"); }
    for (uintptr_t b = HEAP; b < W->heap_top; ) {
        BlkHdr *hd = (BlkHdr *)b;
        if (hd->magic != MAGIC) violation(V_OOB, "memory before an allocated block was overwritten");
        blk_check(b + RZ, "at the end");
        b += hd->next + 2 * RZ;
    }
    if (W->stalled) { self_ = nullptr; return; }
    for (int t = 0; t < W->P->nthreads; t++) {
        for (int k = 0; k < NRES; k++) if (W->res[t][k].live) { W->res[t][k].live = false; ((std::string *)(RES + (size_t)(t * NRES + k) * 64))->~basic_string(); }
        for (int f = 0; f < F_N; f++) { client_vec_free(f, W->vec[t][f]); W->vexp[t][f].clear(); }
        W->t[t]->rescur = 0;
    }
    for (Msg &m : W->msgs) m.s->~basic_string();
    W->msgs.clear();
    for (int i = 0; i < NSLOT; i++) {
        Slot &s = W->slot[i];
        if (s.st == SL_LIVE || s.st == SL_MOVED) { memset(shadow((uintptr_t)slot_ptr(i)), S_LIVE, client_sizeof(s.ft)); client_destroy(s.ft, slot_ptr(i)); slot_close(i); s.shared_ro = false; }
    }
    for (int t = 0; t < W->P->nthreads; t++) if (W->fun[t]) { const size_t n = client_funs_sizeof(); ctl.heap = H_SIM; client_funs_destroy(fun_ptr(t)); ctl.heap = H_REAL; memset(shadow((uintptr_t)fun_ptr(t)), S_FREED, n); memset(fun_ptr(t), 0xDD, n); W->fun[t] = 0; }
    for (int i = 0; i < NX; i++) if (W->xslot[i].st == SL_LIVE) {
        COp o; memset(&o, 0, sizeof o); COut r{};
        o.kind = K_XDEL; o.ft = W->xslot[i].xk; o.a = xslot_ptr(i);
        memset(shadow((uintptr_t)xslot_ptr(i)), S_LIVE, client_xsizeof(o.ft));
        client_exec(o, r); xslot_close(i);
    }
    self_ = nullptr;
}
void world_finish()
{
    cleanup(true);
    h(W->live);
    g_shm->ihash = W->ih;
    g_shm->done = 1;
}
void world_run(const Plan *P, bool replay)
{
    world_setup(P, replay);
    for (int r = 0; r < P->rounds; r++) {
        W->round = r;
        for (int p = 0; p < P->nphases; p++) world_phase(p);
        if (r + 1 < P->rounds) cleanup(false);
        else world_finish();
        W->live_round[r & 7] = W->live;
        if (P->leak && !W->stalled && W->live != W->forever)
            violation(V_LEAK, "%lu blocks of memory are still in use when every result and formatter is gone", (unsigned long)(W->live - W->forever));
    }
    if (P->leak && !W->stalled && P->rounds >= 3) {
        int n = P->rounds;
        if (W->live_round[n - 1] > W->live_round[n - 2] && W->live_round[n - 2] > W->live_round[n - 3])
            violation(V_LEAK, "memory in use grows each time the same conversions are made: %lu, %lu, %lu blocks", (unsigned long)W->live_round[n - 3], (unsigned long)W->live_round[n - 2], (unsigned long)W->live_round[n - 1]);
    }
    _exit(0);
}
