// The caller's side: every use of lexi's public API. Compiled with the same
// instrumentation as the library, since much of the API is templates.
#include <lexi/lexi.hpp>
#include <ios>
#include <new>
#include <utility>
#include <vector>
#include "sim.hpp"

enum class EU32 : uint32_t {};
enum class EI8 : int8_t {};
enum class ELL : long long {};
enum EPLAIN : unsigned short {};

// By the instructions that no setting for denormal numbers changes.
static inline float to_float(double d) { float f; __asm__ volatile("fldl %1\n\tfstps %0" : "=m"(f) : "m"(d)); return f; }
#define VALUE_SWITCH(ty, bits, CALL)                                                  \
    switch (ty) {                                                                     \
        case T_I8: { CALL((int8_t)(bits)); break; }                                   \
        case T_U8: { CALL((uint8_t)(bits)); break; }                                  \
        case T_I16: { CALL((short)(bits)); break; }                                   \
        case T_U16: { CALL((unsigned short)(bits)); break; }                          \
        case T_I32: { CALL((int)(bits)); break; }                                     \
        case T_U32: { CALL((unsigned int)(bits)); break; }                            \
        case T_L: { CALL((long)(bits)); break; }                                      \
        case T_UL: { CALL((unsigned long)(bits)); break; }                            \
        case T_LL: { CALL((long long)(bits)); break; }                                \
        case T_ULL: { CALL((unsigned long long)(bits)); break; }                      \
        case T_EU32: { CALL((EU32)(bits)); break; }                                   \
        case T_EI8: { CALL((EI8)(bits)); break; }                                     \
        case T_ELL: { CALL((ELL)(bits)); break; }                                     \
        case T_EPLAIN: { CALL((EPLAIN)(bits)); break; }                               \
        case T_FPOS: { CALL(std::streampos((std::streamoff)(bits))); break; }         \
        case T_F32: { CALL(to_float(bits_double(bits))); break; }                         \
        case T_F64: { CALL(bits_double(bits)); break; }                               \
        case T_F80: { CALL((long double)bits_double(bits)); break; }                  \
        case T_CH: { CALL((char)(bits)); break; }                                     \
        case T_BOOL: { CALL((bool)((bits) & 1)); break; }                             \
        case T_NUL: { CALL(nullptr); break; }                                         \
        default: break;                                                               \
    }

struct Derived: std::string { explicit Derived(const std::string &s): std::string(s) {} };

// Direct construction: the formatter class named by the caller.
template <typename T> struct Direct { using type = lexi::FormatInt; };
template <> struct Direct<EU32> { using type = lexi::FormatEnum; };
template <> struct Direct<EI8> { using type = lexi::FormatEnum; };
template <> struct Direct<ELL> { using type = lexi::FormatEnum; };
template <> struct Direct<EPLAIN> { using type = lexi::FormatEnum; };
template <> struct Direct<float> { using type = lexi::FormatFloat; };
template <> struct Direct<double> { using type = lexi::FormatFloat; };
template <> struct Direct<long double> { using type = lexi::FormatFloat; };
template <> struct Direct<char> { using type = lexi::FormatChar; };
template <> struct Direct<bool> { using type = lexi::FormatBool; };
template <> struct Direct<std::nullptr_t> { using type = lexi::FormatNull; };

// The function objects, as a caller may keep them.
template <typename T> struct Kept { lexi::Extract<T> x; };
template <typename... T> struct KeptAll: Kept<T>... { lexi::Format f; };
using Funs = KeptAll<int8_t, uint8_t, short, unsigned short, int, unsigned int, long, unsigned long, long long, unsigned long long,
                     EU32, EI8, ELL, EPLAIN, std::streampos, float, double, long double, char, bool, std::nullptr_t>;
size_t client_funs_sizeof() { return sizeof(Funs); }
void client_funs_make(void *p) { ::new (p) Funs(); }
void client_funs_destroy(void *p) { static_cast<Funs *>(p)->~Funs(); }
static lexi::Format &kept_format(const COp &o) { return static_cast<Funs *>(o.fun)->f; }
template <typename T> static lexi::Extract<T> &kept_extract(const COp &o) { return static_cast<Kept<T> *>(static_cast<Funs *>(o.fun))->x; }

template <typename T> static void make(const COp &o, T v)
{
    using F = typename Direct<T>::type;
    void *const p = o.a; const int var = o.var;
    if (o.fun) ::new (p) F(kept_format(o)(v));
    else if (var & 1) ::new (p) F(lexi::Format()(v)); else ::new (p) F(v);
}
static void make(const COp &o, std::nullptr_t v)
{
    void *const p = o.a; const int var = o.var;
    if (o.fun) ::new (p) lexi::FormatNull(kept_format(o)(v));
    else if (var & 1) ::new (p) lexi::FormatNull(lexi::Format()(v));
    else if (var & 4) ::new (p) lexi::FormatNull();
    else ::new (p) lexi::FormatNull(v);
}
static void make(const COp &o, std::streampos v)
{
    if (o.fun) ::new (o.a) lexi::FormatInt(kept_format(o)(v)); else ::new (o.a) lexi::FormatInt(lexi::Format()(v));
}

template <typename T> static void conv_kept(void *res, T v, int fn, lexi::Format &f)
{
    if (fn == 0) ::new (res) std::string(std::string(f(v)));
    else if (fn == 1) ::new (res) std::string(f(v).string());
    else if (fn == 2) ::new (res) std::string(f(v).escape());
    else ::new (res) std::string(f(v).jsonify());
}
template <typename T> static void conv_fun(const COp &o, T v, int fn)
{
    if (o.funcopy) { lexi::Format f(kept_format(o)); conv_kept(o.res, v, fn, f); }
    else conv_kept(o.res, v, fn, kept_format(o));
}
template <typename T> static void conv(void *res, T v, int fn, int via)
{
    using F = typename Direct<T>::type;
    if (via == 0) {
        if (fn == 0) ::new (res) std::string(lexi::lexi(v));
        else if (fn == 1) ::new (res) std::string(lexi::string(v));
        else if (fn == 2) ::new (res) std::string(lexi::escape(v));
        else ::new (res) std::string(lexi::jsonify(v));
    } else if (via == 1) {
        if (fn == 0) ::new (res) std::string(std::string(lexi::Format()(v)));
        else if (fn == 1) ::new (res) std::string(lexi::Format()(v).string());
        else if (fn == 2) ::new (res) std::string(lexi::Format()(v).escape());
        else ::new (res) std::string(lexi::Format()(v).jsonify());
    } else {
        F f(v);
        if (fn == 0) ::new (res) std::string(std::string(f));
        else if (fn == 1) ::new (res) std::string(f.string());
        else if (fn == 2) ::new (res) std::string(f.escape());
        else ::new (res) std::string(f.jsonify());
    }
}
static void conv(void *res, std::streampos v, int fn, int via)
{
    if (via == 2) {
        lexi::FormatInt f = lexi::Format()(v);
        if (fn == 0) ::new (res) std::string(std::string(f));
        else if (fn == 1) ::new (res) std::string(f.string());
        else if (fn == 2) ::new (res) std::string(f.escape());
        else ::new (res) std::string(f.jsonify());
        return;
    }
    if (fn == 0) ::new (res) std::string(lexi::lexi(v));
    else if (fn == 1) ::new (res) std::string(lexi::string(v));
    else if (fn == 2) ::new (res) std::string(lexi::escape(v));
    else ::new (res) std::string(lexi::jsonify(v));
}
template <typename S> static void strconv(void *res, const S &s, int fn)
{
    if (fn == 0) ::new (res) std::string(lexi::lexi(s));
    else if (fn == 1) ::new (res) std::string(lexi::string(s));
    else if (fn == 2) ::new (res) std::string(lexi::escape(s));
    else ::new (res) std::string(lexi::jsonify(s));
}

template <typename T> static void put(XVal &x, T v) { x.bits = (uint64_t)(long long)v; }
static void put(XVal &x, uint8_t v) { x.bits = v; }
static void put(XVal &x, char v) { x.bits = (uint8_t)v; }
static void put(XVal &x, unsigned short v) { x.bits = v; }
static void put(XVal &x, unsigned int v) { x.bits = v; }
static void put(XVal &x, unsigned long v) { x.bits = v; }
static void put(XVal &x, unsigned long long v) { x.bits = v; }
static void put(XVal &x, EU32 v) { x.bits = (uint32_t)v; }
static void put(XVal &x, EPLAIN v) { x.bits = (unsigned short)v; }
static void put(XVal &x, bool v) { x.bits = v; }
static void put(XVal &x, float v) { x.ld = v; }
static void put(XVal &x, double v) { x.ld = v; }
static void put(XVal &x, long double v) { x.ld = v; }
static void put(XVal &x, std::streampos v) { x.bits = (uint64_t)(std::streamoff)v; }
static void put(XVal &x, std::nullptr_t) { x.bits = 0; }

template <typename T, typename X> struct Named { static T get(const X &x) { return T(x); } };
template <typename X> struct Named<std::nullptr_t, X> { static std::nullptr_t get(const X &x) { std::nullptr_t n = static_cast<std::nullptr_t>(x); (void)x.null(); return n; } };
template <typename X> struct Named<std::streampos, X> { static std::streampos get(const X &x) { return std::streampos(std::streamoff(x)); } };
template <typename T, typename X> static T named(const COp &o)
{
    if (o.var == 4) {           // an extractor that is copied, and asked twice
        X a(*o.s);
        const X b(a);
        (void)Named<T, X>::get(b);
        return Named<T, X>::get(a);
    }
    if (o.var == 5) {           // an extractor that is asked after another one was made
        X a(*o.s);
        X b(*o.s2);
        (void)Named<T, X>::get(b);
        return Named<T, X>::get(a);
    }
    return Named<T, X>::get(X(*o.s));
}

template <typename T, typename X> static void extract(const COp &o, COut &r)
{
    switch (o.var) {
        case 0: put(r.x, lexi::lexi<T>(*o.s)); break;
        case 1: put(r.x, lexi::lexi<T>(o.cs)); break;
        case 2:
            if (!o.fun) put(r.x, lexi::Extract<T>()(*o.s));
            else if (o.funcopy) { lexi::Extract<T> x(kept_extract<T>(o)); put(r.x, x(*o.s)); }
            else put(r.x, kept_extract<T>(o)(*o.s));
            break;
        default: put(r.x, named<T, X>(o)); break;
    }
}
static void extract_uc(const COp &o, COut &r)
{
    put(r.x, (uint8_t)named<unsigned char, lexi::ExtractChar>(o));
}

template <typename F> __attribute__((noinline)) static F by_value(F f) { return f; }

template <typename F> static void on_formatter(const COp &o, COut &r)
{
    F *a = static_cast<F *>(o.a), *b = static_cast<F *>(o.b);
    std::vector<F> *v = static_cast<std::vector<F> *>(o.vec);
    switch (o.kind) {
        case K_COPY:
            if (o.var == 0) ::new (o.b) F(static_cast<const F &>(*a));
            else if (o.var == 1) ::new (o.b) F(std::move(*a));
            else ::new (o.b) F(by_value<F>(*a));
            break;
        case K_ASSIGN:
            if (o.var == 0) *b = static_cast<const F &>(*a); else *b = std::move(*a);
            break;
        case K_SWAP: std::swap(*a, *b); break;
        case K_DESTROY: a->~F(); break;
        case K_READ: {
            const F &f = *a;
            if (o.bits & 2) { r.cstr = f.c_str(); r.length = f.length(); }
            if (!(o.bits & 1) || !o.var) { r.size = f.size(); r.length = f.length(); r.data = f.data(); r.cstr = f.c_str(); }
            if (o.var == 1) { ::new (o.res) std::string(f.string()); r.has_res = true; }
            else if (o.var == 2) { ::new (o.res) std::string(std::string(f)); r.has_res = true; }
            else if (o.var == 3) { ::new (o.res) std::string(f.escape()); r.has_res = true; }
            else if (o.var == 4) { ::new (o.res) std::string(f.jsonify()); r.has_res = true; }
            if (o.bits & 1) { r.data = f.data(); r.cstr = f.c_str(); r.length = f.length(); r.size = f.size(); }
            break;
        }
        case K_VPUSH: v->push_back(*static_cast<const F *>(o.a)); break;
        case K_VGROW: v->reserve(v->capacity() + 1 + o.bits); break;
        case K_VERASE: if (!v->empty()) v->erase(v->begin()); break;
        case K_VCOPY: { std::vector<F> w(*v); v->swap(w); break; }
        case K_VCLEAR: { std::vector<F> w; v->swap(w); break; }
        default: break;
    }
}
#define FT_SWITCH(ft, CALL)                         \
    switch (ft) {                                   \
        case F_INT: CALL(lexi::FormatInt); break;   \
        case F_FLOAT: CALL(lexi::FormatFloat); break; \
        case F_BOOL: CALL(lexi::FormatBool); break; \
        case F_CHAR: CALL(lexi::FormatChar); break; \
        case F_NULL: CALL(lexi::FormatNull); break; \
        case F_ENUM: CALL(lexi::FormatEnum); break; \
        default: break;                             \
    }

template <typename X> static void on_extractor(const COp &o)
{
    switch (o.kind) {
        case K_XMAKE: ::new (o.b) X(*o.s); break;
        case K_XCOPY: if (o.var == 0) ::new (o.b) X(*static_cast<const X *>(o.a)); else *static_cast<X *>(o.b) = *static_cast<const X *>(o.a); break;
        case K_XDEL: static_cast<X *>(o.a)->~X(); break;
        default: break;
    }
}
template <typename T, typename X> static void xread(const COp &o, COut &r) { put(r.x, Named<T, X>::get(*static_cast<const X *>(o.a))); }
#define X_SWITCH(xk, CALL)                            \
    switch (xk) {                                     \
        case X_INT: CALL(lexi::ExtractInt); break;    \
        case X_ENUM: CALL(lexi::ExtractEnum); break;  \
        case X_FLOAT: CALL(lexi::ExtractFloat); break; \
        case X_BOOL: CALL(lexi::ExtractBool); break;  \
        case X_CHAR: CALL(lexi::ExtractChar); break;  \
        case X_NULL: CALL(lexi::ExtractNull); break;  \
        default: break;                               \
    }
size_t client_xsizeof(int xk)
{
    size_t n = 0;
#define CALL(X) n = sizeof(X)
    X_SWITCH(xk, CALL)
#undef CALL
    return n;
}

static void dispatch(const COp &o, COut &r)
{
    switch (o.kind) {
        case K_XMAKE: case K_XCOPY: case K_XDEL:
#define CALL(X) on_extractor<X>(o)
            X_SWITCH(o.ft, CALL)
#undef CALL
            return;
        case K_XREAD:
            switch (o.ty) {
                case T_I8: xread<int8_t, lexi::ExtractInt>(o, r); break;
                case T_U8: xread<uint8_t, lexi::ExtractInt>(o, r); break;
                case T_I16: xread<short, lexi::ExtractInt>(o, r); break;
                case T_U16: xread<unsigned short, lexi::ExtractInt>(o, r); break;
                case T_I32: xread<int, lexi::ExtractInt>(o, r); break;
                case T_U32: xread<unsigned int, lexi::ExtractInt>(o, r); break;
                case T_L: xread<long, lexi::ExtractInt>(o, r); break;
                case T_UL: xread<unsigned long, lexi::ExtractInt>(o, r); break;
                case T_LL: xread<long long, lexi::ExtractInt>(o, r); break;
                case T_ULL: xread<unsigned long long, lexi::ExtractInt>(o, r); break;
                case T_FPOS: xread<std::streampos, lexi::ExtractInt>(o, r); break;
                case T_EU32: xread<EU32, lexi::ExtractEnum>(o, r); break;
                case T_EI8: xread<EI8, lexi::ExtractEnum>(o, r); break;
                case T_ELL: xread<ELL, lexi::ExtractEnum>(o, r); break;
                case T_EPLAIN: xread<EPLAIN, lexi::ExtractEnum>(o, r); break;
                case T_F32: xread<float, lexi::ExtractFloat>(o, r); break;
                case T_F64: xread<double, lexi::ExtractFloat>(o, r); break;
                case T_F80: xread<long double, lexi::ExtractFloat>(o, r); break;
                case T_BOOL: xread<bool, lexi::ExtractBool>(o, r); break;
                case T_CH: xread<char, lexi::ExtractChar>(o, r); break;
                case T_UC: xread<unsigned char, lexi::ExtractChar>(o, r); break;
                case T_NUL: xread<std::nullptr_t, lexi::ExtractNull>(o, r); break;
                default: break;
            }
            return;
        case K_MAKE:
            if (o.ty == T_UC) { ::new (o.a) lexi::FormatChar((unsigned char)o.bits); return; }
#define CALL(v) make(o, v)
            VALUE_SWITCH(o.ty, o.bits, CALL)
#undef CALL
            return;
        case K_CONV: {
            int fn = o.var & 3, via = (o.var >> 2) % 3;
            if (o.ty == T_UC) {
                lexi::FormatChar f((unsigned char)o.bits);
                if (fn == 0) ::new (o.res) std::string(std::string(f));
                else if (fn == 1) ::new (o.res) std::string(f.string());
                else if (fn == 2) ::new (o.res) std::string(f.escape());
                else ::new (o.res) std::string(f.jsonify());
            } else {
#define CALL(v) do { if (o.fun) conv_fun(o, v, fn); else conv(o.res, v, fn, via); } while (0)
                VALUE_SWITCH(o.ty, o.bits, CALL)
#undef CALL
            }
            r.has_res = true;
            return;
        }
        case K_STR: {
            int fn = o.var & 3, form = (o.var >> 2) % 5;
            if (form == 0) strconv(o.res, *o.s, fn);
            else if (form == 1) strconv(o.res, o.cs, fn);
            else if (form == 2) { char *p = const_cast<char *>(o.cs); strconv(o.res, p, fn); }
            else if (form == 3) strconv(o.res, *reinterpret_cast<const char (*)[8]>(o.cs), fn);     // as a string literal
            else { const Derived d(*o.s); strconv(o.res, static_cast<const Derived &>(d), fn); }
            r.has_res = true;
            return;
        }
        case K_EXTRACT: case K_REJECT:
            switch (o.ty) {
                case T_I8: extract<int8_t, lexi::ExtractInt>(o, r); break;
                case T_U8: extract<uint8_t, lexi::ExtractInt>(o, r); break;
                case T_I16: extract<short, lexi::ExtractInt>(o, r); break;
                case T_U16: extract<unsigned short, lexi::ExtractInt>(o, r); break;
                case T_I32: extract<int, lexi::ExtractInt>(o, r); break;
                case T_U32: extract<unsigned int, lexi::ExtractInt>(o, r); break;
                case T_L: extract<long, lexi::ExtractInt>(o, r); break;
                case T_UL: extract<unsigned long, lexi::ExtractInt>(o, r); break;
                case T_LL: extract<long long, lexi::ExtractInt>(o, r); break;
                case T_ULL: extract<unsigned long long, lexi::ExtractInt>(o, r); break;
                case T_EU32: extract<EU32, lexi::ExtractEnum>(o, r); break;
                case T_EI8: extract<EI8, lexi::ExtractEnum>(o, r); break;
                case T_ELL: extract<ELL, lexi::ExtractEnum>(o, r); break;
                case T_EPLAIN: extract<EPLAIN, lexi::ExtractEnum>(o, r); break;
                case T_FPOS: extract<std::streampos, lexi::ExtractInt>(o, r); break;
                case T_F32: extract<float, lexi::ExtractFloat>(o, r); break;
                case T_F64: extract<double, lexi::ExtractFloat>(o, r); break;
                case T_F80: extract<long double, lexi::ExtractFloat>(o, r); break;
                case T_CH: extract<char, lexi::ExtractChar>(o, r); break;
                case T_UC: extract_uc(o, r); break;
                case T_BOOL: extract<bool, lexi::ExtractBool>(o, r); break;
                case T_NUL: extract<std::nullptr_t, lexi::ExtractNull>(o, r); break;
                default: break;
            }
            return;
        default:
#define CALL(F) on_formatter<F>(o, r)
            FT_SWITCH(o.ft, CALL)
#undef CALL
            return;
    }
}

static void exec(const COp &o, COut &r);
struct Unwind {
    const COp &o; COut &r;
    ~Unwind() { exec(o, r); }
};
void client_exec(const COp &o, COut &r)
{
    if (o.ctx & 4) {            // in a destructor, while an exception of the caller's is on its way
        try { Unwind u{o, r}; throw 7; } catch (int) {}
    } else if (o.ctx & 8) {     // while the caller handles an exception
        try { throw 7; } catch (int) { exec(o, r); }
    } else exec(o, r);
}
static void exec(const COp &o, COut &r)
{
    try {
        dispatch(o, r);
        r.outcome = O_OK;
    } catch (const std::bad_alloc &) {
        r.outcome = O_BADALLOC;
    } catch (const std::runtime_error &) {
        r.outcome = O_RUNTIME;
    } catch (...) {
        r.outcome = O_OTHER;
    }
}

size_t client_sizeof(int ft)
{
    size_t n = 0;
#define CALL(F) n = sizeof(F)
    FT_SWITCH(ft, CALL)
#undef CALL
    return n;
}
template <typename F> static void look(const void *p, COut &r)
{
    const F &f = *static_cast<const F *>(p);
    r.size = f.size(); r.length = f.length(); r.data = f.data(); r.cstr = f.c_str();
}
void client_look(int ft, const void *p, COut &r)
{
#define CALL(F) look<F>(p, r)
    FT_SWITCH(ft, CALL)
#undef CALL
}
template <typename F> static size_t vlook(void *p, size_t i, COut &r)
{
    std::vector<F> &v = *static_cast<std::vector<F> *>(p);
    if (i < v.size()) look<F>(&v[i], r);
    return v.size();
}
size_t client_vec_look(int ft, void *vec, size_t i, COut &r)
{
    size_t n = 0;
#define CALL(F) n = vlook<F>(vec, i, r)
    FT_SWITCH(ft, CALL)
#undef CALL
    return n;
}
template <typename F> static void vfree(void *p) { std::vector<F>().swap(*static_cast<std::vector<F> *>(p)); }
void client_vec_free(int ft, void *vec)
{
#define CALL(F) vfree<F>(vec)
    FT_SWITCH(ft, CALL)
#undef CALL
}
template <typename F> static void destroy(void *p) { static_cast<F *>(p)->~F(); }
void client_destroy(int ft, void *p)
{
#define CALL(F) destroy<F>(p)
    FT_SWITCH(ft, CALL)
#undef CALL
}
void client_float_text(int ty, uint64_t bits, void *mem, char *out, size_t cap)
{
    const double d = bits_double(bits);
    lexi::FormatFloat *f = ty == T_F32 ? ::new (mem) lexi::FormatFloat(to_float(d)) : ty == T_F64 ? ::new (mem) lexi::FormatFloat(d) : ::new (mem) lexi::FormatFloat((long double)d);
    size_t n = f->size();
    if (n >= cap) n = cap - 1;
    memcpy(out, f->data(), n);
    out[n] = 0;
    f->~FormatFloat();
}
