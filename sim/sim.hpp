// Deterministic simulator for lexi: shared declarations.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

// ---------------------------------------------------------------- value types
enum Ty : uint8_t {
    T_I8, T_U8, T_I16, T_U16, T_I32, T_U32, T_L, T_UL, T_LL, T_ULL,
    T_EU32, T_EI8, T_ELL, T_EPLAIN, T_FPOS,
    T_F32, T_F64, T_F80, T_CH, T_UC, T_BOOL, T_NUL, T_N
};
extern const char *const TY_NAME[T_N];
inline bool ty_float(int t) { return t == T_F32 || t == T_F64 || t == T_F80; }
inline bool ty_int(int t) { return t <= T_FPOS; }

enum Ft : uint8_t { F_INT, F_FLOAT, F_BOOL, F_CHAR, F_NULL, F_ENUM, F_N };
inline Ft ft_of(int t)
{
    if (t >= T_EU32 && t <= T_EPLAIN) return F_ENUM;
    if (ty_int(t)) return F_INT;
    if (ty_float(t)) return F_FLOAT;
    if (t == T_CH || t == T_UC) return F_CHAR;
    return t == T_BOOL ? F_BOOL : F_NULL;
}

// ---------------------------------------------------------------- operations
enum Kind : uint8_t {
    K_MAKE,      // construct formatter of val in slot a (var&1: through Format(), &2: not looked at, &4: default constructor of FormatNull, &8: with &1, through a Format that is kept)
    K_COPY,      // slot b <- new copy of slot a (var 0 copy, 1 move, 2 by value)
    K_ASSIGN,    // slot b = slot a (var 0 copy, 1 move)
    K_SWAP,      // std::swap(slot a, slot b)
    K_DESTROY,   // destroy slot a
    K_READ,      // read slot a (var bit 0 string, 1 operator, 2 escape, 3 jsonify; 0: views only)
    K_VPUSH,     // vector of val's formatter type: push_back
    K_VGROW,     // reserve more: relocates
    K_VERASE,    // erase first
    K_VCOPY,     // replace by copy of itself
    K_VCLEAR,
    K_CONV,      // free conversion of val (var: fn + 4*via; a: 1 with via 1, through a Format that is kept, 2 through a copy of it)
    K_STR,       // conversion of string arg a (var: fn + 4*form)
    K_EXTRACT,   // extract txt a (var: form; b&4: with form 2, through an Extract that is kept, &8 through a copy of it)
    K_REJECT,    // extract rejected txt a (var: form)
    K_NFMT,      // formatter on the handler's stack: make, look, destroy
    K_ERRNO, K_FPFLAGS, K_ROUND,            // thread state
    K_LOCTHREAD, K_LOCGLOBAL, K_LOCCXX,     // locale
    K_SEND,      // format val, put text in the channel
    K_RECV,      // take message a (mod), extract, compare
    K_XMAKE,     // extractor of txt a in slot b; the text is gone afterwards
    K_XCOPY,     // extractor slot b <- slot a (var 0 copy, 1 assignment)
    K_XREAD,     // value of the extractor in slot a, as type var
    K_XDEL,      // destroy the extractor in slot a
    K_CROWDEND,  // a of the threads that stayed end
    K_TRAP,      // thread state: which floating-point exceptions are trapped
    K_MANY,      // `repeat` conversions, each of another value: see run_many (var: what; val, a: where they begin; b: how far apart they are)
    K_N
};
extern const char *const K_NAME[K_N];

enum EvKind : uint8_t { EV_PREEMPT, EV_INTR, EV_STALL, EV_LOC, EV_NEXT, EV_ABANDON, EV_REENTER };
struct Ev { uint32_t step; uint8_t kind; uint8_t round; int16_t arg; };

enum FailMode : uint8_t { FM_NONE, FM_MASK, FM_ALL, FM_SIZE };
struct Op {
    uint8_t kind = 0, var = 0, fail = FM_NONE;
    uint8_t fresh = 0;          // &3: 1 on a thread of its own that ends after it, 2 again after that thread's thread-local objects are gone
                                // &16: on a thread of its own that stays
                                // &32: without preemption
                                // &4: in a destructor during stack unwinding, &8: in a catch handler
    int16_t val = 0, a = 0, b = 0;
    uint32_t repeat = 1;
    uint64_t failarg = 0;
    std::vector<Ev> evs;
};

struct XVal { uint64_t bits; long double ld; };
struct Val { uint8_t ty; uint64_t bits; };                 // floats: bits of the (exact) double
struct Txt { uint8_t ty; uint8_t reject; std::string s; };     // reject: 1 must be rejected, 2 odd: whatever the call gives alone in a fresh process

constexpr int MAXT = 6;         // simulated threads
constexpr int MAXPH = 6;
constexpr int MAXODD = 4;       // odd texts in a plan
constexpr int PRIV = 6;         // private slots per thread
constexpr int SH0 = MAXT * PRIV;        // first shared slot
constexpr int NSH = 8;
constexpr int NS0 = SH0 + NSH;          // slots of short-lived formatters: 2 per thread and depth of handlers
constexpr int NSLOT = NS0 + MAXT * 6;
constexpr int XPRIV = 3, XSH0 = MAXT * XPRIV, NXSH = 4, NX = XSH0 + NXSH;    // extractors
enum Xk : uint8_t { X_INT, X_ENUM, X_FLOAT, X_BOOL, X_CHAR, X_NULL, X_N };
inline Xk xk_of(int t)
{
    if (t >= T_EU32 && t <= T_EPLAIN) return X_ENUM;
    if (ty_int(t)) return X_INT;
    if (ty_float(t)) return X_FLOAT;
    return t == T_BOOL ? X_BOOL : t == T_NUL ? X_NULL : X_CHAR;
}

struct Strat {
    uint32_t sw_mean = 0;       // mean steps between preemptions (0: none inside operations)
    uint32_t sw_bound = 30;     // percent: switch at an operation boundary
    uint32_t intr_mean = 0;     // mean steps between handler invocations
    uint32_t loc_mean = 0;      // mean steps between locale changes by the environment
    uint32_t stall = 0;         // number of threads to stall for ever
    uint32_t stall_mean = 40;
    uint32_t ab_mean = 0;       // mean steps before a conversion is abandoned (0: none is)
    uint32_t at = 0;            // step of each operation at which threads are stalled, and often preempted (0: anywhere)
    uint32_t re_mean = 0;       // mean allocations and releases between conversions that the allocator makes (0: none)
};

struct Plan {
    std::string prop;
    uint64_t seed = 0;
    int nthreads = 1, nphases = 1, rounds = 1;
    bool seeded = false;        // replay by running the seeded scheduler again, not an explicit schedule
    bool race = false, strict = false, rozone = false, ambient = false, stages = false, leak = false, smallstack = false, abandon = false, reenter = false, outside = false, cost = false;
    uint32_t fair = 2000;       // a thread that makes this many steps in one operation gives way
    uint8_t fill = 0;           // dirty-memory pattern
    Strat st;
    std::vector<Val> vals;
    std::vector<std::string> strs;
    std::vector<Txt> txts;
    std::vector<Op> nested;
    std::vector<Op> prog[MAXPH][MAXT];
};

// ---------------------------------------------------------------- results, in memory shared with the parent
enum Cls : int {
    V_NONE, V_MISMATCH, V_RACE, V_OOB, V_UAF, V_LEAK, V_BADEXC, V_CRASH, V_HANG, V_NOPROGRESS, V_BLOCKED,
    V_ALLOC, V_AMBIENT, V_HELD, V_ARGMOD, V_STACK, V_OUTSIDE, V_COST, V_N
};
extern const char *const CLS_NAME[V_N];

enum Cnt : int {
    C_STEPS, C_OPS, C_SWITCH_MID, C_SWITCH_BOUND, C_ALLOC, C_FAULT_ALLOC, C_FAULT_ALLOC_THROWN, C_INTR, C_INTR_NESTED, C_STALL,
    C_AFTER_STALL_OPS, C_LOC, C_LOC_MID, C_ERRNO, C_FPFLAGS, C_ROUND, C_DIRTY, C_REJECT, C_RELOC, C_COPY, C_RECV, C_RECV_DUP, C_RECV_XLOC,
    C_HELD_CHECKS, C_LIB_ACCESS, C_SHARED_READ, C_RETRY_OK, C_RACE_CHECKS, C_STAGE_OPS, C_LONG, C_REPEAT, C_FRESH, C_FRESH_EXIT, C_REUSED, C_UNWIND, C_XREAD, C_CROWD, C_CROWD_END, C_ODD, C_ABANDON, C_KEPTFUN, C_REENTER, C_RESCUE, C_TRAP, C_GUARDED, C_MEMCALL, C_MANY, C_COSTED, C_COMPARED, C_N
};
extern const char *const CNT_NAME[C_N];

struct LogEv { uint8_t round, phase, t, kind; uint16_t op; int16_t arg; uint32_t step; };
constexpr uint32_t NLOG = 60000;
struct Shm {
    volatile int cls;
    volatile int done;
    int vround, vphase, vthread, vop; uint32_t vstep;
    char msg[600];
    char last[240];         // the call begun last
    uint64_t hash;          // of every event of the run
    uint64_t ihash;         // of the schedule and the faults
    uint64_t nontrivial;
    uint64_t cnt[C_N];
    uint32_t nlog;
    uint32_t logdrop;
    struct Alone { int outcome; XVal x; } odd[MAXODD][T_N];     // what the odd texts give, as each type
    char ftext[64][40];     // texts of the floating-point values, from a process of their own
    LogEv log[NLOG];
};

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool pct(unsigned p) { return below(100) < p; }
    // geometric with the given mean, integer arithmetic only
    uint32_t geom(uint32_t mean)
    {
        uint32_t n = 1;
        while (n < 100000000u && below(mean) != 0) n++;
        return n;
    }
};
inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

// ---------------------------------------------------------------- model (model.cpp)
std::string model_text(Ty ty, uint64_t bits);                  // non-float
const char *model_float_error(uint64_t bits, const char *text);     // null if text is right
std::string model_escape(const std::string &s);
std::string model_json(const std::string &s);
std::string model_quote(const std::string &s);
uint64_t model_wrap(Ty ty, uint64_t v);                        // sign/zero-extend to type
XVal model_extract(const Txt &t);
bool model_equal(Ty ty, const XVal &a, const XVal &b);
double bits_double(uint64_t b);
uint64_t double_bits(double d);

// ---------------------------------------------------------------- client (client.cpp, instrumented with the library)
struct COp {
    uint8_t kind, ty, var, ft, ctx;
    uint64_t bits;
    void *a, *b;            // slots
    void *vec;
    void *res;              // memory for a std::string result
    const std::string *s;
    const char *cs;
    const std::string *s2;  // another valid text
    void *fun;              // Format and Extract objects that the caller keeps (null: a temporary for each call)
    bool funcopy;           // a copy of them
};
enum { O_OK, O_BADALLOC, O_RUNTIME, O_OTHER };
struct COut {
    int outcome;
    bool has_res;
    const char *data, *cstr;
    size_t size, length;
    XVal x;
    size_t n;
};
void client_exec(const COp &, COut &);
size_t client_sizeof(int ft);
size_t client_xsizeof(int xk);
void client_look(int ft, const void *slot, COut &);            // size, length, data, c_str
size_t client_vec_look(int ft, void *vec, size_t i, COut &);   // returns count
void client_vec_free(int ft, void *vec);
void client_destroy(int ft, void *slot);
size_t client_funs_sizeof();
void client_funs_make(void *p);
void client_funs_destroy(void *p);
void client_float_text(int ty, uint64_t bits, void *mem, char *out, size_t cap);

// ---------------------------------------------------------------- core (core.cpp)
extern Shm *g_shm;
void world_setup(const Plan *plan, bool replay);
void world_phase(int p);
void world_finish();
void world_run(const Plan *plan, bool replay);                 // all of it; exits the process
void float_texts(const Plan *);                                // in a fresh process: fills g_shm->ftext
void locales_load();
int locales_count();
const char *cxx_locale_name(int i);
[[noreturn]] void violation(Cls c, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

// ---------------------------------------------------------------- plans (plan.cpp)
extern bool g_marathon;         // whether this build is fast enough for a million calls in a run
Plan plan_generate(const std::string &prop, uint64_t seed, bool thorough);
std::string plan_save(const Plan &);
bool plan_load(const std::string &text, Plan &, std::string &err);
std::string plan_describe(const Plan &);
std::string op_describe(const Plan &, const Op &);
