// Plans: seeded generation per property, the replay file format, and a readable trace.
#include "sim.hpp"
#include <cmath>
#include <cfenv>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <sstream>

// ================================================================ generation
bool g_marathon = false;
static uint64_t p10(int k) { uint64_t r = 1; while (k-- > 0) r *= 10; return r; }

static uint64_t gen_int_bits(Rng &r, Ty ty)
{
    uint64_t v;
    switch (r.below(9)) {
        case 0: v = r.below(20); break;
        case 1: v = p10(r.range(0, 19)) + (uint64_t)r.range(-1, 1); break;
        case 2: v = (r.below(64) == 63 ? 1ull << 63 : 1ull << r.below(64)) + (uint64_t)r.range(-1, 1); break;
        case 3: v = r.pct(50) ? ~0ull : 1ull << 63; if (r.pct(30)) v >>= 32; break;
        case 4: { uint64_t p = p10(r.range(0, 19)); v = (1 + r.below(9)) * p + r.below(p < 100 ? p : 100); break; }
        case 5: { int n = r.range(1, 20); uint64_t d = 1 + r.below(9); v = 0; while (n--) v = v * 10 + d; break; }
        case 6: v = r.next() >> r.below(64); break;
        case 7: { int n = r.range(1, 19); uint64_t lo = p10(n - 1); v = lo + r.below(9 * lo); break; }
        default: { int n = r.range(1, 9); uint64_t lo = p10(n - 1); v = lo + r.below(9 * lo); break; }
    }
    static const int width[] = {8, 8, 16, 16, 32, 32, 64, 64, 64, 64, 32, 8, 64, 16, 64};
    if (width[ty] < 64 && r.pct(50)) v &= (1ull << r.range(1, width[ty])) - 1;
    if (r.pct(40)) v = 0 - v;
    return model_wrap(ty, v);
}
// NaNs have a sign and a payload, none of which shows.
static uint64_t some_nan(Rng &r)
{
    uint64_t b = double_bits(NAN) & 0x7fffffffffffffffull;
    if (r.pct(40)) b |= 1ull << 63;
    if (r.pct(30)) b |= r.pct(50) ? 1ull << r.below(51) : r.next() >> 13;
    return b;
}
// Doubles whose text is so close to halfway between two doubles that rounding it twice goes wrong.
static const uint64_t HARD[] = {0xc71b9f63d49c4741ull,0x0f1d7264895c36bdull,0xd20ac691d14c137bull,0xcab934a1626d4047ull,0xe55ff8e837d742c3ull,0x9c0c298b74037335ull,0x472332f642a62539ull,0xc4d8cad174ca60afull,0xed13710c336fa96bull,0xf64ff3d6d02ce4a1ull,0x6fcace9c9f03f407ull,0xb329f9256f5d5ccdull,0xb57f7664f1a6dc81ull,0xeac906c494681181ull,0x1fa29f0e3a96f227ull,0x908d1441f47cc53bull,0x76eb51bd26a637d5ull,0x04efe68f6c03a7efull,0x45b788fbad469b47ull,0xb6bca2a8885cf367ull,0x76ae64c79e2d48f3ull,0x4788b5b29a420ecdull,0x8ea430a3a952ff87ull,0x472eea7cdf8db7cfull,0x5258884525c5f33bull,0x552d2aa3a091432dull,0xc95f470d08c8a867ull,0x6cebd9a65d234c0bull,0xd57d83621b8d0ddfull,0xc1fee5849b9f1447ull,0x6d824b3234ab72bbull,0xc7876068dd2ca7cbull,0x52c4abbd3d0784e7ull,0x47652735669dba6bull,0xd5afe301ce5a056dull,0x6d241a5dd8de5c8dull,0x8dcfc0562d42d847ull,0x73aa416c5f05966full,0xb04fca48b3c17763ull,0xb9a0eadbc11801d5ull,0xc709829f50696195ull,0x708d21e8c82bf483ull,0x7e0e37c0c79228ddull,0x918784010bc33aa7ull,0x763db2bed9f2edc3ull,0x8e7e608b0a7721f1ull,0x910371cf768e2e09ull,0x717eae8879959a65ull,0x6b4d0b10e8ad284bull,0xdd5f12feac37553bull,0xa2cbfd191a4cf287ull,0x6cbe979c0df16cc7ull,0x21c89577e99f537full,0x84aa938bc180bf6dull,0xf259bd0b2cf8cd71ull,0x49f9056a12164273ull,0xe9cd649852b9b365ull,0xc50f4dbc7b59178bull,0x9b088424fc50d195ull,0x450e19ec5628c4d7ull,0xed39bb5972f2d5b9ull,0x1be58700fdf10131ull,0x717c16b12bc2dc55ull,0x32dfd3d4fc8a3547ull};
static double float_pool(Rng &r)
{
    double d;
    switch (r.below(17)) {
        case 15: case 16: {      // the thresholds of the layouts, with any number of digits
            static const int lo[] = {-11, -6, 0, 1, 15, 20, 22}, hi[] = {-6, 0, 1, 17, 22, 23, 40};
            const uint64_t k = r.below(7);
            const int len = r.range(1, 17), kk = r.range(lo[k], hi[k]);
            char b[40]; snprintf(b, sizeof b, "%llue%d", (unsigned long long)(p10(len - 1) + r.below(p10(len) - p10(len - 1))), kk - len); d = strtod(b, nullptr); break; }
        case 14: d = bits_double(HARD[r.below(sizeof HARD / sizeof *HARD)]); break;
        case 0: { static const double k[] = {0.0, -0.0, 1.0, 0.5, 0.1, 0.3, 2.0 / 3, 1e21, 1e22, 1e-6, 1e-7, 1e-5, 1e-4, 123456789.0, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308,
                    1.7976931348623157e308, 9007199254740992.0, 9007199254740993.0, 4294967295.0, 4294967296.0, 1e9, 1e10, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 999999999999999900000.0, 1.5e300, 1e100, 1e-100, 12.5, 3.14159, 99.99, 1e5, 100.0};
            d = k[r.below(sizeof k / sizeof *k)]; break; }
        case 1: { uint64_t b = r.next(); d = bits_double(b); break; }
        case 2: d = bits_double((r.below(2047) << 52) | (r.next() >> 12)); break;
        case 3: d = ldexp(1.0, r.range(-1074, 1023)); break;
        case 4: d = (double)(r.next() >> r.below(64)); break;
        case 5: { d = (double)r.below(1000000) / (double)p10(r.range(0, 6)); break; }
        case 6: { char b[40]; snprintf(b, sizeof b, "%llue%d", (unsigned long long)(1 + r.below(p10(r.range(1, 17)))), r.range(-25, 25)); d = strtod(b, nullptr); break; }
        case 7: d = bits_double(r.next() >> (12 + r.below(52))); break;          // denormal
        case 8: { char b[40]; snprintf(b, sizeof b, "%llue%d", (unsigned long long)(1 + r.below(999)), r.range(-320, 305)); d = strtod(b, nullptr); break; }
        case 9: { static const double k[] = {NAN, INFINITY, -INFINITY}; d = k[r.below(3)]; break; }
        case 10: { char b[40]; snprintf(b, sizeof b, "1e%d", r.range(-323, 308)); d = strtod(b, nullptr); uint64_t x = double_bits(d); if (r.pct(50)) x += (uint64_t)r.range(-1, 1); d = bits_double(x); break; }
        case 11: d = (double)r.below(100000); break;
        case 12: { float f = (float)(ldexp((double)(r.next() >> 40), r.range(-150, 90))); d = f; break; }
        default: d = bits_double(((uint64_t)r.range(1023 - 70, 1023 + 80) << 52) | (r.next() >> 12)); break;
    }
    return r.pct(40) ? -d : d;
}
static uint64_t gen_float_bits(Rng &r, Ty ty)
{
    double d = float_pool(r);
    if (ty == T_F32) {
        float f = (float)d;
        if (r.pct(30)) { uint32_t u = (uint32_t)r.next(); memcpy(&f, &u, 4); }
        d = f;
    }
    if (std::isnan(d)) return some_nan(r);
    return double_bits(d);
}
static Val gen_val(Rng &r, const std::vector<uint8_t> &tys)
{
    Val v;
    v.ty = tys[r.below(tys.size())];
    Ty ty = (Ty)v.ty;
    if (ty_int(ty)) v.bits = gen_int_bits(r, ty);
    else if (ty_float(ty)) v.bits = gen_float_bits(r, ty);
    else if (ty == T_CH || ty == T_UC) {
        static const unsigned char sp[] = {0, 8, 9, 10, 12, 13, 27, 31, 32, 34, 47, 48, 57, 58, 64, 65, 90, 91, 92, 96, 97, 122, 123, 126, 127, 128, 255};
        v.bits = r.pct(50) ? sp[r.below(sizeof sp)] : r.below(256);
    } else v.bits = model_wrap(ty, r.next());
    return v;
}
static Val relative(Rng &r, const Val &o)
{
    Val v = o; Ty ty = (Ty)v.ty;
    if (ty_int(ty)) {
        switch (r.below(11)) {
            case 9: case 10: { static const uint8_t t[] = {T_L, T_UL, T_LL, T_ULL}; if ((int64_t)v.bits >= 0) v.bits = 0 - v.bits; v.ty = t[r.below(4)]; break; }      // the same 64 bits, of another sign
            case 6: v.bits = (v.bits & 0xffffu) | (r.next() << 16); break;
            case 7: v.bits = (v.bits & ~0xffffull) | (r.next() & 0xffff); break;
            case 8: { uint64_t p = p10(r.range(1, 9)); v.bits = v.bits / p * p + r.below(p); break; }
            case 0: v.bits = v.bits + 1; break;
            case 1: v.bits = 0 - v.bits; break;
            case 2: v.bits ^= 1ull << r.below(64); break;
            case 3: v.bits = (v.bits & 0xffffffffu) | (r.next() << 32); break;
            case 4: { static const uint8_t t[] = {T_I32, T_U32, T_L, T_ULL, T_LL, T_ELL, T_EU32}; v.ty = t[r.below(7)]; break; }
            default: v.bits = v.bits * 10 + r.below(10); break;
        }
        v.bits = model_wrap((Ty)v.ty, v.bits);
    } else if (ty_float(ty)) {
        switch (r.below(8)) {
            case 4: v.bits ^= r.next() >> (12 + r.below(50)); break;
            case 5: v.bits = (v.bits & 0xffffffffull) | (r.next() << 32); break;
            case 6: v.bits = (v.bits & ~0xffffffffull) | (r.next() >> 32); break;
            case 7: { double d = bits_double(v.bits) * (r.pct(50) ? 10.0 : 2.0); if (std::isfinite(d)) v.bits = double_bits(d); break; }
            case 0: v.bits ^= 1ull << 63; break;
            case 1: v.bits += 1; break;
            case 2: v.bits = (v.bits & 0x800fffffffffffffull) | (r.below(2047) << 52); break;
            default: v.ty = r.pct(50) ? T_F80 : T_F64; break;
        }
        double d = bits_double(v.bits);
        if (v.ty == T_F32) d = (float)d;
        v.bits = std::isnan(d) ? some_nan(r) : double_bits(d);
    } else if (ty == T_CH || ty == T_UC) v.bits = (r.pct(40) ? v.bits + 1 : r.pct(50) ? v.bits ^ 128 : r.next()) & 255;
    else v.bits = model_wrap(ty, v.bits + 1);
    return v;
}
// Another value of the same type, with as many digits in the same places.
static Val kin(Rng &r, const Val &o)
{
    Val v = o; const Ty ty = (Ty)v.ty;
    if (ty_int(ty)) {
        const std::string t = model_text(ty, v.bits);
        uint64_t x = 0;
        const bool neg = t[0] == '-';
        for (size_t i = neg; i < t.size(); i++) x = x * 10 + (i == (size_t)neg ? 1 + r.below(9) : r.below(10));
        v.bits = model_wrap(ty, neg ? 0 - x : x);
    } else if (ty_float(ty) && std::isfinite(bits_double(v.bits)) && bits_double(v.bits) != 0) {
        const double d = bits_double(v.bits);
        char b[64];
        snprintf(b, sizeof b, "%.*e", r.pct(50) ? (int)r.below(17) : 16, d);
        char *e = strchr(b, 'e');
        bool first = true;
        for (char *c = b; c < e; c++) if (*c >= '0' && *c <= '9') { *c = (char)(first ? '1' + r.below(9) : '0' + r.below(10)); first = false; }
        double x = strtod(b, nullptr);
        if (ty == T_F32) x = (float)x;
        if (std::isfinite(x) && x != 0) v.bits = double_bits(x);
    } else return relative(r, o);
    return v;
}
static std::string gen_str(Rng &r, int biglen)
{
    size_t n;
    if (biglen && r.pct(8)) n = r.below((uint64_t)biglen);
    else switch (r.below(8)) {
        case 0: n = 0; break;
        case 1: n = 1; break;
        case 2: n = r.below(4); break;
        case 3: n = 14 + r.below(5); break;       // around the small-string limit
        case 4: n = 6 + r.below(4); break;
        case 5: { static const int k[] = {32, 64, 128, 256, 512, 1024}; n = (size_t)(k[r.below(6)] + r.range(-2, 2)); break; }
        default: n = r.below(40); break;
    }
    std::string s(n, 'a');
    int mode = (int)r.below(7);
    static const char json[] = "\b\f\n\r\t\\\"/<>\x01\x1f\x7f";
    if (mode == 6) {        // one short pattern, again and again
        char u[3]; for (char &c : u) c = r.pct(40) ? json[r.below(sizeof json - 1)] : (char)r.below(256);
        const size_t m = 1 + r.below(3);
        for (size_t i = 0; i < n; i++) s[i] = u[i % m];
        return s;
    }
    for (size_t i = 0; i < n; i++) switch (mode) {
        case 0: s[i] = (char)r.below(256); break;
        case 1: s[i] = (char)(1 + r.below(127)); break;
        case 2: s[i] = json[r.below(sizeof json - 1)]; break;
        case 3: s[i] = (char)('a' + r.below(26)); break;
        case 4: s[i] = r.pct(20) ? json[r.below(sizeof json - 1)] : (char)(32 + r.below(95)); break;
        default: s[i] = r.pct(50) ? (char)(128 + r.below(128)) : (char)r.below(128); break;
    }
    if (mode != 0 && r.pct(85)) for (auto &c : s) if (!c) c = 'z';
    return s;
}
static std::string relative_str(Rng &r, const std::string &o)
{
    std::string s = o; const size_t n = s.size();
    if (!n) return std::string(1, 'a');
    switch (r.below(8)) {
        case 0: s[r.below(n)] ^= 1; break;
        case 1: s[n - 1] = (char)(s[n - 1] + 1); break;
        case 2: s += gen_str(r, 0); break;
        case 3: s = s.substr(0, r.below(n)); break;
        case 4: std::swap(s[r.below(n)], s[r.below(n)]); break;
        case 5: s[0] = (char)(s[0] ^ (1 << r.below(7))); break;
        case 6: for (size_t i = 1; i + 1 < n; i++) s[i] = (char)(33 + r.below(94)); break;
        default: for (size_t i = 0; i < n; i++) s[i] = (char)(33 + r.below(94)); break;
    }
    return s;
}
static std::string ws(Rng &r) { static const char w[] = " \t\n\v\f\r"; std::string s; int n = (int)r.below(4); while (n--) s += w[r.below(6)]; return s; }
static Txt gen_txt(Rng &r, const std::vector<uint8_t> &tys)
{
    Txt t; t.reject = 0;
    Val v = gen_val(r, tys);
    t.ty = v.ty; Ty ty = (Ty)v.ty;
    if (ty_float(ty)) {
        double d = bits_double(v.bits);
        char b[1400];
        if (!std::isfinite(d)) { static const char *const k[] = {"NaN", "Infinity", "-Infinity", "inf", "nan"}; t.s = k[r.below(5)]; return t; }
        switch (r.below(8)) {
            case 7: {   // a hair above or below the middle of two neighbours
                double x = ty == T_F32 ? (double)(float)d : d;
                if (std::fabs(x) < 1e-30 || std::fabs(x) > 1e30) x = 1.0 + (double)r.below(1000) / 8;
                if (ty == T_F32) { float f = (float)x, n = std::nextafter(f, INFINITY); snprintf(b, sizeof b, "%.80e", ((double)f + (double)n) / 2); }
                else { long double l = x, n = std::nextafter(x, INFINITY); snprintf(b, sizeof b, "%.80Le", (l + n) / 2); }
                char *e = strchr(b, 'e'), *q = e - 1;
                if (r.pct(50)) *q = '1';
                else { while (*q == '0') { *q = '9'; q--; } if (*q == '.') q--; if (*q > '0') --*q; }
                break;
            }
            case 0: snprintf(b, sizeof b, "%.17g", d); break;
            case 1: snprintf(b, sizeof b, "%.9g", d); break;
            case 2: snprintf(b, sizeof b, "%.20e", d); break;
            case 3: snprintf(b, sizeof b, "%.*f", (int)r.below(30), std::fabs(d) < 1e60 ? d : 1.5); break;
            case 4: snprintf(b, sizeof b, "%.17G", d); break;
            case 5: snprintf(b, sizeof b, "%llu.%llu", (unsigned long long)(r.next() >> r.below(64)), (unsigned long long)(r.next() >> r.below(64))); break;
            default: snprintf(b, sizeof b, "%s%llu", r.pct(50) ? "." : "0.", (unsigned long long)(r.next() >> r.below(64))); break;
        }
        t.s = b;
        if (r.pct(20)) {        // many digits
            const size_t dot = t.s.find('.'), e = t.s.find_first_of("eE");
            std::string z(r.below(r.pct(20) ? 400 : 60), r.pct(60) ? '0' : (char)('0' + r.below(10)));
            if (dot != std::string::npos && r.pct(70)) t.s.insert(e == std::string::npos ? t.s.size() : e, z);
            else t.s.insert(t.s.find_first_of("0123456789."), std::string(z.size(), '0'));
        }
        if (r.pct(15)) t.s = ws(r) + t.s;
        if (r.pct(10) && t.s[0] != '-' && !strchr(" \t\n\v\f\r", t.s[0])) t.s = "+" + t.s;
        if (r.pct(15)) { static const char *const j[] = {"abc", " 7", "x", ".", "kg"}; if (strchr(t.s.c_str(), '.')) t.s += j[r.below(5)]; }
        return t;
    }
    t.s = model_text(ty, v.bits);
    if (ty_int(ty)) {
        bool neg = t.s[0] == '-';
        if (r.pct(12)) t.s.insert(neg ? 1 : 0, std::string(r.below(r.pct(30) ? 60 : 5), '0'));
        if (r.pct(10) && !neg) t.s = "+" + t.s;
        if (r.pct(12)) t.s = ws(r) + t.s;
        if (r.pct(12)) { static const char *const j[] = {"abc", " 7", "x", ".5", "-", "e3"}; t.s += j[r.below(6)]; }
        if (r.pct(2)) t.s = r.pct(50) ? "" : "zz";
    } else if (ty == T_CH || ty == T_UC) { if (r.pct(40)) t.s += gen_str(r, 0); }
    return t;
}
// Another text of the same type that looks much like it.
static Txt relative_txt(Rng &r, const Txt &o)
{
    Txt t = o;
    std::vector<size_t> d;
    for (size_t i = 0; i < t.s.size(); i++) if (t.s[i] >= '0' && t.s[i] <= '9') d.push_back(i);
    if (d.empty() || t.reject || t.ty == T_BOOL || t.ty == T_NUL) return t;
    switch (r.below(4)) {
        case 0: t.s[d[r.below(d.size())]] = (char)('0' + r.below(10)); break;
        case 1: std::swap(t.s[d[r.below(d.size())]], t.s[d[r.below(d.size())]]); break;
        case 2: t.s[d.back()] = (char)('0' + r.below(10)); break;
        default: if (ty_int(t.ty)) { static const uint8_t k[] = {T_I32, T_U32, T_L, T_ULL, T_I8, T_U16, T_ELL}; t.ty = k[r.below(7)]; } else t.ty = r.pct(50) ? T_F32 : T_F64; break;
    }
    if (ty_int(t.ty)) {     // only texts of values of the type
        size_t i = t.s.find_first_of("0123456789"); const bool neg = i > 0 && t.s[i - 1] == '-';
        __int128 v = 0;
        for (; i < t.s.size() && t.s[i] >= '0' && t.s[i] <= '9' && v < ((__int128)1 << 70); i++) v = v * 10 + (t.s[i] - '0');
        if (neg) v = -v;
        const std::string w = model_text((Ty)t.ty, model_wrap((Ty)t.ty, (uint64_t)v));
        std::string x; __int128 a = v < 0 ? -v : v; do x.insert(x.begin(), (char)('0' + (int)(a % 10))); while (a /= 10); if (v < 0) x.insert(x.begin(), '-');
        if (w != x) return o;
    }
    return t;
}
static Txt gen_reject(Rng &r)
{
    Txt t; t.reject = 1;
    static const uint8_t ty[] = {T_BOOL, T_BOOL, T_NUL, T_NUL, T_CH, T_UC};
    t.ty = ty[r.below(6)];
    if (t.ty == T_CH || t.ty == T_UC) { t.s = ""; return t; }
    static const char *const lit[] = {"true", "false", "null"};
    const char *own = t.ty == T_NUL ? "null" : lit[r.below(2)];
    for (;;) {
        std::string s;
        switch (r.below(17)) {
            case 15: {
                static const char *const k[] = {"yes", "no", "on", "off", "t", "f", "y", "n", "T", "F", "Y", "N", "True", "False", "TRUE", "FALSE", "Null", "NULL", "None", "nil", "nullptr", "NIL",
                    "1", "0", "-1", "00", "01", "+1", "1.0", "0x1", "(null)", "NaN", "undefined", "void", "tru", "fals", "nul", "YES", "NO", "ON", "OFF", "oui", "evet", "ja", "wahr", "vrai", "!false", "\xef\xbb\xbftrue"};
                s = k[r.below(sizeof k / sizeof *k)]; break; }
            case 16: {
                static const char *const a[] = {"", "\n", "\t", "\r\n", " ", "\"", "'", "\v", "\f", "\xc2\xa0", ",", ";", "."};
                const size_t n = sizeof a / sizeof *a;
                const std::string q = a[r.below(n)];
                s = r.pct(30) ? q + own + q : r.pct(50) ? own + q : q + own; break; }
            case 12: s = own; for (size_t i = 1; i + 1 < s.size(); i++) s[i] = (char)('a' + r.below(26)); break;
            case 13: s = own; std::swap(s[r.below(s.size())], s[r.below(s.size())]); break;
            case 14: s = std::string(r.below(r.pct(10) ? 70000 : 400), (char)('a' + r.below(26))); if (r.pct(50)) s = own + s; break;
            case 0: s = ""; break;
            case 1: s = std::string(own).substr(0, r.below(strlen(own))); break;
            case 2: s = std::string(own) + (char)(r.pct(30) ? 0 : 32 + r.below(95)); break;
            case 3: s = " " + std::string(own); break;
            case 4: s = own; s[r.below(s.size())] ^= 32; break;
            case 5: s = own; for (auto &c : s) c = (char)(c - 32); break;
            case 6: s = own; s[r.below(s.size())] = (char)r.below(256); break;
            case 7: s = gen_str(r, 0); break;
            case 8: s = r.pct(50) ? "1" : "0"; break;
            case 9: s = lit[r.below(3)]; break;
            case 10: s = std::string(own) + std::string(1, '\0') + gen_str(r, 0); break;
            default: s = std::string(own) + own; if (r.pct(30)) s += std::string(r.below(3000), 'q'); break;
        }
        bool bad = t.ty == T_NUL ? s != "null" : s != "true" && s != "false";
        if (bad) { t.s = s; return t; }
    }
}

// A text that is no number, or none that the type can hold.
static Txt gen_odd(Rng &r)
{
    Txt t; t.reject = 2;
    static const uint8_t ity[] = {T_I8, T_U8, T_I16, T_U32, T_I32, T_L, T_UL, T_LL, T_ULL, T_EU32, T_ELL, T_FPOS}, fty[] = {T_F32, T_F64, T_F80};
    const bool fl = r.pct(50);
    t.ty = fl ? fty[r.below(3)] : ity[r.below(12)];
    const std::string sign = r.pct(30) ? "-" : r.pct(10) ? "+" : "";
    auto digits = [&](int n) { std::string s; while (n-- > 0) s += (char)('0' + r.below(10)); return s; };
    static const char *const k[] = {"", "-", "+", ".", "+-5", "-+5", "--1", "- 5", "e5", ".e1", "1e", "1e+", "0x", "0x1p", "zz", "i", "infin", "na", "nan(12)", "nan(", "INFINITY", "-inf", "-nan", "1_000", "0b11", "017", "\x80", "\xef\xbb\xbf" "12"};
    if (r.pct(25)) { t.s = k[r.below(sizeof k / sizeof *k)]; return t; }
    if (!fl) {
        switch (r.below(5)) {
            case 0: t.s = sign + digits(r.range(20, 45)); break;
            case 1: { static const char *const b[] = {"18446744073709551616", "18446744073709551617", "18446744073709551625", "20000000000000000000", "9223372036854775808", "99999999999999999999", "36893488147419103232"}; t.s = sign + b[r.below(7)]; break; }
            case 2: t.s = sign + "1" + digits(r.range(9, 19)); break;
            case 3: t.s = sign + "0x" + digits(r.range(1, 12)); break;
            default: t.s = sign + std::string(r.below(60), '0') + digits(r.range(18, 24)); break;
        }
        return t;
    }
    char b[64];
    switch (r.below(8)) {
        case 0: snprintf(b, sizeof b, "%llu.5e%d", (unsigned long long)r.below(1000), r.range(305, 330)); t.s = sign + b; break;
        case 1: snprintf(b, sizeof b, "%llu.5e-%d", (unsigned long long)r.below(1000), r.range(305, 345)); t.s = sign + b; break;
        case 2: snprintf(b, sizeof b, "%llue%s%d", (unsigned long long)(1 + r.below(1000)), r.pct(50) ? "-" : "", r.range(4900, 5000)); t.s = sign + b; break;
        case 3: t.s = sign + digits(r.range(300, 420)) + (r.pct(50) ? ".5" : ""); break;
        case 4: t.s = sign + "0." + std::string((size_t)r.range(30, 400), '0') + digits(r.range(1, 30)); break;
        case 5: snprintf(b, sizeof b, "0x%llx.%llxp%d", (unsigned long long)r.below(100000), (unsigned long long)(r.next() >> r.below(60)), r.range(-1100, 1040)); t.s = sign + b; break;
        case 6: snprintf(b, sizeof b, "1e%s99999%llu", r.pct(50) ? "-" : "", (unsigned long long)(r.next() >> r.below(60))); t.s = sign + b; break;
        default: snprintf(b, sizeof b, "%llu.%llue%d", (unsigned long long)r.below(100), (unsigned long long)(r.next() >> r.below(60)), r.range(36, 48) * (r.pct(50) ? 1 : -1)); t.s = sign + b; break;
    }
    return t;
}
// A text of many characters, most of which add nothing to the value.
static Txt gen_longtxt(Rng &r, bool odd)
{
    Txt t; t.reject = 0;
    const size_t n = r.below(r.pct(30) ? 20000 : 160000);
    static const char blank[] = " \t\n\v\f\r";
    auto many = [&](std::string u) { if (u.empty()) u = "q"; std::string s; s.reserve(n + u.size()); while (s.size() < n) s += u; return s; };
    if (r.pct(15)) {            // rejected
        t.reject = 1; t.ty = r.pct(60) ? T_BOOL : T_NUL;
        const char *own = t.ty == T_NUL ? "null" : r.pct(50) ? "true" : "false";
        switch (r.below(4)) {
            case 0: t.s = own + many(std::string(1, (char)r.below(256))); break;
            case 1: t.s = many(std::string(1, blank[r.below(6)])) + own; break;
            case 2: t.s = many(own); break;
            default: t.s = many(gen_str(r, 0)); break;
        }
        if (t.s == own || (t.ty == T_BOOL && (t.s == "true" || t.s == "false"))) t.s += "q";
        return t;
    }
    if (r.pct(8)) { t.ty = r.pct(50) ? T_CH : T_UC; t.s = many(gen_str(r, 0)); return t; }
    static const uint8_t ity[] = {T_I8, T_I16, T_U32, T_I32, T_L, T_UL, T_ULL, T_EU32, T_ELL, T_FPOS}, fty[] = {T_F32, T_F64, T_F80};
    const bool fl = r.pct(50);
    t.ty = fl ? fty[r.below(3)] : ity[r.below(10)];
    if (odd && r.pct(55)) {         // several parts, each of any length
        t.reject = 2;
        const int lng = (int)r.below(7);
        auto part = [&](int k, const char *of, size_t m, bool one) {
            const size_t len = k == lng ? n : r.pct(35) ? 0 : r.pct(50) ? 1 + r.below(3) : r.below(200);
            const char c = of[r.below(m)];
            for (size_t i = 0; i < len; i++) t.s += one ? c : of[r.below(m)];
        };
        part(0, blank, 6, r.pct(70));
        if (r.pct(30)) t.s += r.pct(70) ? "-" : "+";
        part(1, "0", 1, true);
        part(2, "0123456789", 10, r.pct(50));
        if (fl && r.pct(70)) { t.s += '.'; part(3, "0", 1, true); part(4, "0123456789", 10, r.pct(50)); }
        if (fl && r.pct(40)) { t.s += r.pct(50) ? "e" : "E-"; part(5, "0", 1, true); t.s += std::to_string(r.below(400)); }
        part(6, "xyzQ,.-+ 0\n", 11, r.pct(70));
        return t;
    }
    const std::string d = std::to_string(r.below(100)), junk = r.pct(50) ? std::string(1, (char)('g' + r.below(17))) : "z.";
    switch (r.below(fl ? 10 : 5)) {
        case 0: t.s = many("0") + d; break;
        case 1: t.s = many(std::string(1, blank[r.below(6)])) + d; break;
        case 2: t.s = (r.pct(50) ? "-" : "+") + many("0") + "7"; if (!fl && t.s[0] == '-' && t.ty != T_I8 && t.ty != T_I16 && t.ty != T_I32 && t.ty != T_L && t.ty != T_ELL && t.ty != T_FPOS) t.s[0] = '+'; break;
        case 3: t.s = d + many(junk); break;
        case 4: t.s = many(junk); break;
        case 5: t.s = d + "." + many(std::to_string(r.below(1000))); break;
        case 6: t.s = many(std::to_string(1 + r.below(1000))) + (r.pct(50) ? ".5" : ""); break;
        case 7: t.s = d + ".5e" + many("0") + "3"; break;
        case 8: t.s = "." + many("0") + d; break;
        default: t.s = many(std::string(1, blank[r.below(6)])) + d + "." + d; break;
    }
    if (fl && t.s.find('.') == std::string::npos && r.pct(50)) t.s += ".25";
    return t;
}

struct W8 { uint8_t kind; int w; };
struct Gen {
    Plan &P; Rng &r; bool thorough;
    int failpct = 0;            // percent of operations with injected allocation failures
    int retry = 0;              // percent of those retried without
    int reppct = 0;             // percent repeated
    int freshpct = 0;           // percent made on a thread that ends
    bool bigrep = false;
    int ctxpct = 0, scrpct = 0;
    unsigned keptpct = 0;       // conversions through Format and Extract objects that the thread keeps
    std::vector<uint8_t> tys;
    bool xlive[NX] = {};
    bool live[NSLOT] = {}; uint8_t lft[NSLOT] = {};     // a guess of what lives where, to make most operations apply

    int pick(const std::vector<W8> &w)
    {
        int n = 0; for (auto &x : w) n += x.w;
        int k = (int)r.below((uint64_t)n);
        for (auto &x : w) { if (k < x.w) return x.kind; k -= x.w; }
        return w[0].kind;
    }
    int16_t val() { return (int16_t)r.below(P.vals.size()); }
    int16_t txt(bool rej)
    {
        std::vector<int> c;
        for (size_t i = 0; i < P.txts.size(); i++) if ((P.txts[i].reject == 1) == rej) c.push_back((int)i);
        return c.empty() ? -1 : (int16_t)c[r.below(c.size())];
    }
    void fault(Op &o)
    {
        if (!r.pct((unsigned)failpct)) return;
        switch (r.below(6)) {
            case 0: o.fail = FM_ALL; break;
            case 1: case 2: o.fail = FM_MASK; o.failarg = 1ull << r.below(4); break;
            case 3: o.fail = FM_MASK; o.failarg = 1ull << r.below(10); break;
            case 4: o.fail = FM_MASK; o.failarg = r.next() & r.next(); break;
            default: o.fail = FM_SIZE; o.failarg = 1 + r.below(r.pct(50) ? 64 : 3000); break;
        }
    }
    // base: the first of the PRIV slots that thread t may use
    Op make_op(int kind, int base, bool shared_only)
    {
        Op o; o.kind = (uint8_t)kind;
        auto own = [&]() -> int16_t { return (int16_t)(base + (int)r.below(PRIV)); };
        auto find = [&](bool want, int ft) -> int16_t {
            std::vector<int> c;
            for (int i = base; i < base + PRIV; i++) if (live[i] == want && (ft < 0 || lft[i] == ft)) c.push_back(i);
            return c.empty() || r.pct(8) ? own() : (int16_t)c[r.below(c.size())];
        };
        auto slot = [&]() -> int16_t {
            if (shared_only || (P.rozone && r.pct(75))) {
                std::vector<int> c; for (int i = SH0; i < SH0 + NSH; i++) if (live[i]) c.push_back(i);
                return c.empty() ? (int16_t)SH0 : (int16_t)c[r.below(c.size())];
            }
            return find(true, -1);
        };
        // nothing there yet: make something first
        if (kind == K_READ || kind == K_COPY || kind == K_ASSIGN || kind == K_SWAP || kind == K_VPUSH || kind == K_DESTROY) {
            bool any = P.rozone; for (int i = base; i < base + PRIV; i++) any |= live[i];
            if (!any) { kind = K_MAKE; o.kind = K_MAKE; }
        }
        if (kind == K_XMAKE || kind == K_XCOPY || kind == K_XREAD || kind == K_XDEL) {
            const int xb = base / PRIV * XPRIV;
            auto xfind = [&](bool want, bool sh) -> int16_t {
                std::vector<int> c;
                for (int i = xb; i < xb + XPRIV; i++) if (xlive[i] == want) c.push_back(i);
                if (sh) for (int i = XSH0; i < NX; i++) if (xlive[i] == want) { c.push_back(i); c.push_back(i); }
                return c.empty() ? (int16_t)(xb + (int)r.below(XPRIV)) : (int16_t)c[r.below(c.size())];
            };
            bool any = false; for (int i = xb; i < xb + XPRIV; i++) any |= xlive[i];
            for (int i = XSH0; i < NX; i++) any |= xlive[i];
            if (!any) o.kind = (uint8_t)(kind = K_XMAKE);
            if (kind == K_XMAKE) { bool room = false; for (int i = xb; i < xb + XPRIV; i++) room |= !xlive[i]; if (!room) o.kind = (uint8_t)(kind = r.pct(60) ? K_XREAD : K_XDEL); }
            switch (kind) {
                case K_XMAKE: o.a = txt(false); o.b = xfind(false, false); o.var = (uint8_t)r.below(4); xlive[o.b] = true; break;
                case K_XCOPY: o.a = xfind(true, true); o.var = (uint8_t)r.below(2); o.b = xfind(o.var == 1, false); xlive[o.b] = true; break;
                case K_XREAD: o.a = xfind(true, true); o.var = (uint8_t)r.below(T_N); break;
                default: o.a = xfind(true, false); xlive[o.a] = false; break;
            }
            return o;
        }
        if (kind == K_MAKE) { bool room = false; for (int i = base; i < base + PRIV; i++) room |= !live[i]; if (!room) { kind = r.pct(50) ? K_DESTROY : K_NFMT; o.kind = (uint8_t)kind; } }
        switch (kind) {
            case K_MAKE: o.val = val(); o.a = find(false, -1); o.var = (uint8_t)((r.pct(50) ? 1 : 0) | (r.pct(25) ? 2 : 0) | (r.pct(50) ? 4 : 0) | (r.pct(keptpct) ? 8 : 0)); live[o.a] = true; lft[o.a] = ft_of(P.vals[(size_t)o.val].ty); break;
            case K_NFMT: o.val = val(); o.var = (uint8_t)r.below(8); break;
            case K_COPY: o.a = slot(); o.b = find(false, -1); o.var = (uint8_t)r.below(3); if (live[o.a] && !live[o.b]) { live[o.b] = true; lft[o.b] = lft[o.a]; if (o.var == 1) live[o.a] = live[o.a] && o.a >= SH0; } if (r.pct(25)) o.var |= 4; break;
            case K_ASSIGN: o.a = slot(); o.b = r.pct(12) ? o.a : find(true, lft[o.a]); o.var = (uint8_t)r.below(2); if (r.pct(25)) o.var |= 4; break;
            case K_SWAP: o.a = find(true, -1); o.b = find(true, lft[o.a]); if (r.pct(25)) o.var = 4; break;
            case K_DESTROY: o.a = find(true, -1); live[o.a] = false; break;
            case K_READ: o.a = slot(); o.var = (uint8_t)r.below(5); o.b = (int16_t)(r.pct(50) ? r.below(4) : 0); break;
            case K_VPUSH: o.a = slot(); break;
            case K_VGROW: case K_VERASE: case K_VCOPY: case K_VCLEAR: o.b = (int16_t)(r.pct(70) ? r.below(2) : r.below(F_N)); o.var = (uint8_t)r.below(8); break;
            case K_CONV:
                o.val = val(); o.var = (uint8_t)r.below(12);
                if (r.pct(keptpct)) { o.var = (uint8_t)((o.var & 3) | 4); o.a = r.pct(75) ? 1 : 2; }
                break;
            case K_SEND: o.val = val(); o.var = (uint8_t)r.below(12); break;
            case K_RECV: o.a = (int16_t)r.below(60); o.var = (uint8_t)r.below(6); break;
            case K_STR: o.a = (int16_t)r.below(P.strs.size()); o.var = (uint8_t)r.below(20); break;
            case K_EXTRACT: o.a = txt(false); o.var = (uint8_t)r.below(6); break;
            case K_REJECT: o.a = txt(true); o.var = (uint8_t)r.below(6); break;
            case K_ERRNO: { static const int k[] = {ERANGE, EINVAL, ENOMEM, EINTR, 0, 1, 255, ERANGE}; o.a = (int16_t)k[r.below(8)]; break; }
            case K_FPFLAGS: o.a = (int16_t)(r.pct(30) ? FE_ALL_EXCEPT : (int)r.below(64)); o.b = (int16_t)(P.prop == "C10" && r.pct(50) ? r.below(4) : 0); break;
            case K_ROUND: o.a = (int16_t)r.below(4); break;
            case K_LOCTHREAD: case K_LOCGLOBAL: case K_LOCCXX: o.a = (int16_t)r.below((uint64_t)locales_count()); break;
        }
        return o;
    }
    void add(std::vector<Op> &to, Op o)
    {
        fault(o);
        if (freshpct && r.pct((unsigned)freshpct)) o.fresh = (uint8_t)(1 + r.below(2));
        if (ctxpct && r.pct((unsigned)ctxpct)) o.fresh |= r.pct(50) ? 4 : 8;
        if ((o.kind == K_STR || o.kind == K_EXTRACT || o.kind == K_REJECT) && r.pct((unsigned)scrpct) && !(P.rozone && r.pct(60))) o.b = (int16_t)(1 | (r.pct(50) ? 2 : 0));
        const bool faulted = o.fail != FM_NONE;
        if ((o.kind == K_EXTRACT || o.kind == K_REJECT) && r.pct(keptpct)) { o.var = 2; o.b = (int16_t)(o.b | 4 | (r.pct(25) ? 8 : 0)); }
        const bool rep = o.kind == K_CONV || o.kind == K_STR || o.kind == K_EXTRACT || o.kind == K_REJECT || o.kind == K_NFMT || o.kind == K_READ;
        if (rep && r.pct((unsigned)reppct)) {
            static const uint32_t k[] = {2, 3, 4, 5, 10, 17, 33, 65, 101, 129, 257, 513};
            o.repeat = k[r.below(12)];
            if (bigrep) { uint64_t x = r.below(100); if (x < 14) o.repeat = 1025; else if (x < 22) o.repeat = 4100; else if (x < 24) o.repeat = 66000; }
            if (o.kind == K_STR && P.strs[(size_t)o.a].size() > 200 && o.repeat > 50) o.repeat = 50;
            if ((o.kind == K_EXTRACT || o.kind == K_REJECT) && o.a >= 0 && P.txts[(size_t)o.a].s.size() > 200 && o.repeat > 50) o.repeat = 50;
        }
        if (o.kind == K_VPUSH && !faulted && r.pct(15)) { static const uint32_t k[] = {5, 9, 17, 33, 65, 70, 129, 140, 257, 300, 520}; o.repeat = k[r.below(P.race ? 6 : 11)]; }
        to.push_back(o);
        if (faulted && r.pct((unsigned)retry)) { o.fail = FM_NONE; o.failarg = 0; o.repeat = 1; o.fresh = 0; to.push_back(o); }
    }
    void fill(int ph, int t, int n, const std::vector<W8> &w, int base, bool shared_only = false)
    {
        for (int i = 0; i < n; i++) add(P.prog[ph][t], make_op(pick(w), base, shared_only));
    }
};
static bool marathon_ok(const Plan &P, const Op &o)
{
    if (o.fail != FM_NONE) return false;
    if (o.kind == K_STR) return P.strs[(size_t)o.a].size() <= 24;
    if (o.kind == K_REJECT) return o.a >= 0 && P.txts[(size_t)o.a].s.size() <= 24;
    return o.kind == K_CONV || o.kind == K_NFMT || (o.kind == K_EXTRACT && o.a >= 0 && !P.txts[(size_t)o.a].reject);
}
static std::vector<uint8_t> swarm_types(Rng &r)
{
    std::vector<uint8_t> t;
    if (r.pct(8)) { t.push_back((uint8_t)r.below(T_N)); return t; }
    switch (r.below(5)) {
        case 0: t = {T_F32, T_F64, T_F80}; break;
        case 1: for (int i = 0; i <= T_FPOS; i++) t.push_back((uint8_t)i); break;
        case 2: t = {T_I32, T_U32, T_L, T_UL, T_LL, T_ULL, T_F64, T_ELL}; break;
        default: for (int i = 0; i < T_N; i++) t.push_back((uint8_t)i); t.push_back(T_F64); t.push_back(T_F64); t.push_back(T_F32); t.push_back(T_ULL); t.push_back(T_LL); break;
    }
    return t;
}
static void strategy(Plan &P, Rng &r)
{
    static const uint32_t m[] = {3, 6, 12, 30, 60, 120, 300};
    P.st.sw_mean = P.nthreads > 1 ? m[r.below(7)] : 0;
    P.st.sw_bound = (uint32_t)r.range(5, 80);
    if (P.nthreads > 1 && r.pct(25)) {      // whole operations, however long, before others get their turn
        static const uint32_t l[] = {0, 0, 1000, 10000};
        P.st.sw_mean = l[r.below(4)]; P.fair = 300000;
        if (r.pct(50)) P.st.sw_bound = 100;
    }
}

Plan plan_generate(const std::string &prop, uint64_t seed, bool thorough)
{
    Plan P; P.prop = prop; P.seed = seed;
    Rng r(seed);
    Gen g{P, r, thorough, 0, 0, 0, 0, false, 0, 0, {}, {}, {}, {}};
    if (r.pct(15)) g.ctxpct = r.range(10, 60);
    g.scrpct = r.pct(40) ? 0 : r.range(10, 100);
    g.keptpct = r.pct(50) ? 0 : (unsigned)r.range(5, 60);
    g.tys = swarm_types(r);
    const int id = atoi(prop.c_str() + 1);
    if (id == 8 && !g.keptpct) g.keptpct = r.pct(50) ? 0 : 40;
    int scale = thorough && r.pct(30) ? 3 : 1;
    int nv = r.range(1, 8) * (r.pct(20) ? 3 : 1);
    if (nv > 40) nv = 40;
    const unsigned relpct = r.pct(60) ? 35 : 70;
    const bool family = r.pct(id == 1 || id == 12 ? 16 : 8);
    if (family && nv < 3) nv = 3;
    for (int i = 0; i < nv; i++) P.vals.push_back(family && i ? kin(r, P.vals[0]) : !P.vals.empty() && r.pct(relpct) ? relative(r, P.vals[r.below(P.vals.size())]) : gen_val(r, g.tys));
    int big = r.pct(20) ? 5000 : 0;
    if (big && r.pct(8)) big = 70000;
    if (id == 24) big = r.pct(35) ? 24000 : 0;
    const bool heavy = id == 1 || id == 2 || id == 12 || id == 11;
    if (heavy && big) big = 400;
    int ns = r.range(1, 4);
    for (int i = 0; i < ns; i++) P.strs.push_back(!P.strs.empty() && r.pct(30) ? relative_str(r, P.strs[r.below(P.strs.size())]) : gen_str(r, big));
    if (!heavy && r.pct(1)) {       // a very long one
        const std::string u = gen_str(r, 0) + (char)r.below(256); const size_t n = (size_t)r.range(20000, 150000);
        std::string &x = P.strs[0]; x.clear();
        while (x.size() < n) x += u;
    }
    int nx = r.range(2, 8);
    for (int i = 0; i < nx; i++) P.txts.push_back(!P.txts.empty() && r.pct(30) ? relative_txt(r, P.txts[r.below(P.txts.size())]) : gen_txt(r, g.tys));
    int nr = r.range(1, 3);
    for (int i = 0; i < nr; i++) P.txts.push_back(gen_reject(r));
    if (id != 5 && id != 9 && r.pct(25)) { const int n = r.range(1, MAXODD); for (int i = 0; i < n; i++) P.txts.push_back(gen_odd(r)); }
    if (heavy) for (auto &t : P.txts) if (t.s.size() > 3000) t.s.resize(3000);
    P.fill = (uint8_t)r.below(7);
    if (r.pct(18)) g.freshpct = r.range(10, 50);

    const std::vector<W8> ALL = {{K_CONV, 28}, {K_STR, 16}, {K_EXTRACT, 18}, {K_REJECT, 5}, {K_NFMT, 12}, {K_MAKE, 9}, {K_READ, 8}, {K_DESTROY, 4}, {K_COPY, 3}, {K_ASSIGN, 5}, {K_SWAP, 1}};
    const std::vector<W8> OBJ = {{K_MAKE, 26}, {K_COPY, 22}, {K_ASSIGN, 24}, {K_SWAP, 6}, {K_READ, 12}, {K_DESTROY, 8}, {K_VPUSH, 4}, {K_XMAKE, 12}, {K_XCOPY, 8}, {K_XREAD, 12}};
    // swarm: drop some of the operation kinds in some runs
    auto swarm = [&](std::vector<W8> w) {
        if (r.pct(50)) return w;
        std::vector<W8> o; for (auto &x : w) if (r.pct(60)) o.push_back(x);
        return o.empty() ? w : o;
    };
    auto nthreads = [&](int lo, int hi) { P.nthreads = r.range(lo, hi); };
    auto multi = [&](const std::vector<W8> &w, int lo, int hi) {
        for (int ph = 0; ph < P.nphases; ph++)
            for (int t = 0; t < P.nthreads; t++) {
                // slots change hands between phases
                int base = ((t + ph) % P.nthreads) * PRIV;
                g.fill(ph, t, r.range(lo, hi) * scale, w, base);
            }
    };
    auto many = [&](int n) {
        for (; n > 0; n--) {
            static const uint8_t k[] = {0, 1, 2, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 9, 10, 10};
            Op o; o.kind = K_MANY; bool edge = false;
            const int what = id == 17 && r.pct(50) ? 9 : id == 6 && r.pct(50) ? 5 : id == 15 && r.pct(60) ? 8 : k[r.below(16)];
            o.var = (uint8_t)(what | (int)r.below(16) << 4);
            if (what == 8) { P.vals.push_back(Val{(uint8_t)(r.pct(50) ? T_BOOL : T_NUL), 1}); o.val = (int16_t)(P.vals.size() - 1); }
            else if (r.pct(25)) {       // an integer type counts over a power of ten or of two
                static const uint8_t ints[] = {T_I16, T_U16, T_I32, T_U32, T_L, T_UL, T_LL, T_ULL};
                const int ty = !g.tys.empty() && r.pct(30) && g.tys[0] <= T_ULL ? g.tys[0] : ints[r.below(8)];
                uint64_t p = 10; for (uint64_t k = r.below(19); k; k--) p *= 10;
                if (r.pct(25)) p = 1ull << r.below(64);
                P.vals.push_back(Val{(uint8_t)ty, model_wrap((Ty)ty, p - r.below(60))}); o.val = (int16_t)(P.vals.size() - 1);
                edge = true;
            }
            else o.val = g.val();
            o.a = (int16_t)r.below(P.strs.size()); o.b = (int16_t)(edge && r.pct(70) ? r.below(2) + 16 * r.below(2) : r.below(32));
            const uint64_t c = r.below(100);
            o.repeat = (uint32_t)(c < 25 ? r.range(5, 40) : c < 65 ? r.range(40, 300) : c < 90 ? r.range(300, 1300) : r.range(1300, 5000));
            if (id == 24 && o.repeat < 300) o.repeat *= 10;
            const int ph = (int)r.below((uint64_t)P.nphases), t = (int)r.below((uint64_t)P.nthreads);
            auto &v = P.prog[ph][t];
            v.insert(v.begin() + (long)r.below(v.size() + 1), o);
        }
    };
    switch (id) {
        case 1:
            nthreads(2, r.pct(60) ? 3 : 6); P.race = true; strategy(P, r);
            if (r.pct(10)) { g.failpct = 20; g.retry = 50; }
            if (r.pct(12)) multi(OBJ, 3, 10); else if (r.pct(25)) multi(swarm(ALL), 4, 14); else multi(swarm(ALL), 1, 5);
            break;
        case 2: {
            nthreads(2, r.pct(60) ? 3 : 6); P.race = true; P.rozone = true; P.nphases = r.range(2, 3); strategy(P, r);
            int n = r.range(1, NSH);
            for (int i = 0; i < n; i++) { Op o; o.kind = K_MAKE; o.val = g.val(); o.a = (int16_t)(SH0 + i); o.var = (uint8_t)(r.below(2) | (r.pct(70) ? 2 : 0)); P.prog[0][0].push_back(o); g.live[SH0 + i] = true; g.lft[SH0 + i] = ft_of(P.vals[(size_t)o.val].ty); }
            auto w = swarm({{K_READ, 50}, {K_COPY, 8}, {K_STR, 22}, {K_EXTRACT, 14}, {K_REJECT, 4}, {K_VPUSH, 4}, {K_DESTROY, 3}});
            for (int ph = 1; ph < P.nphases; ph++) for (int t = 0; t < P.nthreads; t++) g.fill(ph, t, r.range(2, 6) * scale, w, t * PRIV);
            if (r.pct(40)) for (int ph = 1; ph < P.nphases; ph++) for (int t = 0; t < P.nthreads; t++) for (Op &o : P.prog[ph][t]) if (o.kind == K_READ) o.a = (int16_t)SH0;
            break;
        }
        case 3: case 4: {
            nthreads(1, 3); strategy(P, r);
            g.failpct = r.range(20, 90); g.retry = r.range(20, 100);
            P.nphases = r.range(1, 2);
            if (id == 4) { P.rounds = 3; P.leak = true; g.failpct = r.pct(30) ? 0 : r.range(10, 80); g.reppct = 15; }
            multi(swarm({{K_CONV, 25}, {K_STR, 25}, {K_READ, 14}, {K_MAKE, 12}, {K_EXTRACT, 14}, {K_REJECT, id == 4 ? 16 : 8}, {K_VPUSH, 4}, {K_COPY, 3}, {K_ASSIGN, 2}, {K_DESTROY, 3}, {K_VCOPY, 1}, {K_VERASE, 1}, {K_NFMT, 3}}), 2, 8);
            break;
        }
        case 5:
            nthreads(1, 2); strategy(P, r); P.strict = true;
            multi(swarm({{K_MAKE, 25}, {K_NFMT, 25}, {K_COPY, 10}, {K_ASSIGN, 6}, {K_SWAP, 3}, {K_READ, 12}, {K_DESTROY, 8}, {K_EXTRACT, 22}}), 4, 14);
            for (int ph = 0; ph < P.nphases; ph++) for (int t = 0; t < P.nthreads; t++) for (Op &o : P.prog[ph][t]) {
                if (o.kind == K_READ) o.var = 0;
                if (o.kind == K_EXTRACT && o.var == 1) o.var = 0;
                if (r.pct(85)) o.fail = FM_ALL; else { o.fail = FM_MASK; o.failarg = 1ull << r.below(4); }
            }
            break;
        case 6:
            nthreads(1, 3); strategy(P, r); P.nphases = r.range(1, 3); P.race = P.nthreads > 1 && r.pct(50);
            if (r.pct(15)) { g.failpct = 15; g.retry = 30; }
            multi(swarm({{K_MAKE, 22}, {K_COPY, 22}, {K_ASSIGN, 12}, {K_SWAP, 6}, {K_DESTROY, 12}, {K_READ, 14}, {K_VPUSH, 12}, {K_VGROW, 4}, {K_VERASE, 4}, {K_VCOPY, 3}, {K_VCLEAR, 1}, {K_CONV, 3}, {K_NFMT, 3}}), 3, 16);
            break;
        case 7:
            nthreads(1, 4); strategy(P, r); P.nphases = r.range(1, 3);
            if (r.pct(25)) { g.failpct = 25; g.retry = 50; }
            if (r.pct(20)) g.reppct = 20;
            multi(swarm({{K_MAKE, 18}, {K_READ, 18}, {K_CONV, 24}, {K_STR, 16}, {K_EXTRACT, 8}, {K_REJECT, 4}, {K_NFMT, 8}, {K_COPY, 4}, {K_DESTROY, 3}, {K_ASSIGN, 2}}), 2, 10);
            break;
        case 8:
            nthreads(1, 2); strategy(P, r);
            g.failpct = r.pct(50) ? 0 : 15; g.retry = 60; g.reppct = r.pct(50) ? 45 : 5; g.bigrep = true;
            multi(swarm({{K_CONV, 28}, {K_STR, 16}, {K_EXTRACT, 18}, {K_REJECT, 8}, {K_NFMT, 14}, {K_MAKE, 9}, {K_READ, 8}, {K_DESTROY, 5}, {K_COPY, 3}, {K_ERRNO, r.pct(30) ? 3 : 0}}), 3, 18);
            if (r.pct(1)) {     // very many conversions of a text, which take more memory than a process keeps for that
                Op o; o.kind = K_STR; o.var = (uint8_t)(r.below(4) | r.below(3) << 2); o.repeat = 66000;
                std::string x = gen_str(r, 0); if (x.size() > 60) x.resize(60); else if (x.size() < 8) x += "a \"long\" text";
                P.strs.push_back(x); o.a = (int16_t)(P.strs.size() - 1);
                P.prog[0][0].push_back(o);
            }
            if (g_marathon && r.pct(1)) {
                auto &v = P.prog[0][0];
                for (Op &o : v) if (marathon_ok(P, o)) { o.repeat = o.kind == K_REJECT ? 120000 : 1100000; break; }
            }
            break;
        case 9: {
            nthreads(1, 4); strategy(P, r); P.ambient = true; P.nphases = r.range(1, 2);
            P.st.loc_mean = r.pct(60) ? (uint32_t)r.range(30, 400) : 0;
            if (r.pct(10)) { g.failpct = 15; g.retry = 60; }
            int lw = r.range(8, 30);
            auto w = swarm({{K_CONV, 26}, {K_STR, 16}, {K_EXTRACT, 34}, {K_REJECT, 5}, {K_NFMT, 12}, {K_SEND, 4}, {K_RECV, 6}});
            w.push_back({K_LOCTHREAD, lw}); w.push_back({K_LOCGLOBAL, lw}); w.push_back({K_LOCCXX, lw / 3 + 1});
            multi(w, 3, 10);
            break;
        }
        case 10: {
            nthreads(1, 3); strategy(P, r); P.ambient = true;
            if (r.pct(10)) { g.failpct = 15; g.retry = 60; }
            auto w = swarm({{K_CONV, 32}, {K_STR, 10}, {K_EXTRACT, 28}, {K_REJECT, 5}, {K_NFMT, 20}, {K_SEND, 4}, {K_RECV, 6}});
            w.push_back({K_ERRNO, 10}); w.push_back({K_FPFLAGS, 10}); w.push_back({K_ROUND, 12});
            multi(w, 4, 14);
            break;
        }
        case 11: {
            nthreads(1, 2); strategy(P, r);
            static const uint32_t m[] = {5, 10, 20, 40, 80, 200};
            P.st.intr_mean = m[r.below(6)];
            int n = r.range(1, 6);
            for (int i = 0; i < n; i++) {
                Op o = g.make_op(r.pct(70) ? K_NFMT : K_EXTRACT, 0, false);
                if (o.kind == K_EXTRACT) {
                    { static const uint8_t k[] = {0, 2, 3, 4, 5}; o.var = k[r.below(5)]; }
                    if (o.a < 0 || !ty_int(P.txts[(size_t)o.a].ty)) {
                        Txt x; x.reject = 0;
                        static const uint8_t small[] = {T_CH, T_UC, T_BOOL, T_BOOL, T_NUL};
                        if (r.pct(50)) x = gen_txt(r, {small[r.below(5)]});
                        else { x.ty = (uint8_t)r.below(T_FPOS + 1); x.s = model_text((Ty)x.ty, gen_int_bits(r, (Ty)x.ty)); }
                        P.txts.push_back(x); o.a = (int16_t)(P.txts.size() - 1);
                    }
                }
                P.nested.push_back(o);
            }
            multi(swarm(ALL), 2, 8);
            break;
        }
        case 12:
            nthreads(2, r.pct(50) ? 3 : 6); strategy(P, r);
            P.st.stall = (uint32_t)r.range(1, P.nthreads - 1);
            { static const uint32_t m[] = {4, 10, 25, 60, 150}; P.st.stall_mean = m[r.below(5)]; }
            if (r.pct(20)) { g.failpct = 20; g.retry = 50; }
            if (r.pct(12)) multi(OBJ, 3, 10); else multi(swarm(ALL), 1, 5);
            break;
        case 13:
            P.nthreads = 1; P.stages = true; P.nphases = MAXPH; P.st.sw_mean = 0;
            for (int ph = 0; ph < P.nphases; ph++) {
                if (ph && r.pct(15)) continue;
                g.fill(ph, 0, r.range(2, 8), swarm({{K_CONV, 24}, {K_STR, 14}, {K_EXTRACT, 16}, {K_REJECT, 5}, {K_NFMT, 12}, {K_MAKE, 14}, {K_READ, 14}, {K_COPY, 4}, {K_VPUSH, 3}, {K_DESTROY, 2}}), 0);
            }
            break;
        case 14:
            nthreads(1, 3); strategy(P, r); P.nphases = r.range(1, 2);
            if (r.pct(15)) { g.failpct = 20; g.retry = 30; }
            multi(swarm({{K_MAKE, 26}, {K_NFMT, 26}, {K_READ, 10}, {K_COPY, 12}, {K_ASSIGN, 6}, {K_SWAP, 3}, {K_VPUSH, 6}, {K_VGROW, 2}, {K_VERASE, 2}, {K_VCOPY, 2}, {K_DESTROY, 8}, {K_CONV, 12}, {K_STR, 5}, {K_EXTRACT, 6}}), 3, 16);
            break;
        case 15: {
            nthreads(1, 3); strategy(P, r);
            int n = r.range(3, 12);
            for (int i = 0; i < n; i++) P.txts.push_back(gen_reject(r));
            P.rounds = r.pct(50) ? 3 : 1; P.leak = P.rounds == 3;
            g.failpct = r.pct(40) ? 0 : r.range(5, 60); g.retry = 50; g.reppct = 12;
            multi(swarm({{K_REJECT, 60}, {K_EXTRACT, 22}, {K_CONV, 10}, {K_STR, 6}, {K_NFMT, 4}}), 3, 10);
            if (r.pct(10)) for (int t = 0; t < P.nthreads; t++) for (Op &o : P.prog[0][t]) if (o.kind == K_REJECT && r.pct(30)) o.repeat = 300;
            break;
        }
        case 16: {
            nthreads(2, 4); strategy(P, r); P.ambient = true; P.nphases = r.range(1, 3);
            bool loc = r.pct(60);
            P.st.loc_mean = loc && r.pct(50) ? (uint32_t)r.range(30, 400) : 0;
            g.failpct = r.pct(50) ? 0 : r.range(10, 50); g.retry = 50;
            int lw = loc ? r.range(3, 12) : 0;
            auto w = swarm({{K_CONV, 6}, {K_STR, 4}, {K_REJECT, 5}, {K_NFMT, 4}, {K_EXTRACT, 6}, {K_ERRNO, 2}, {K_FPFLAGS, 2}});
            w.push_back({K_SEND, 40}); w.push_back({K_RECV, 60});
            if (lw) { w.push_back({K_LOCTHREAD, lw}); w.push_back({K_LOCGLOBAL, lw}); w.push_back({K_LOCCXX, lw / 3 + 1}); }
            while (P.vals.size() < 12) P.vals.push_back(r.pct(35) ? relative(r, P.vals[r.below(P.vals.size())]) : gen_val(r, g.tys));
            multi(w, 4, 14);
            break;
        }
    }
    if (id == 17) {
        nthreads(1, 4); strategy(P, r); P.nphases = r.range(1, 3); P.race = P.nthreads > 1;
        if (r.pct(30)) { g.failpct = 15; g.retry = 60; }
        if (r.pct(60) && P.nthreads > 1) {     // some extractors are shared by all threads from the second phase on
            P.rozone = true; if (P.nphases == 1) P.nphases = 2;
            const int n = r.range(1, NXSH);
            for (int i = 0; i < n; i++) { Op o; o.kind = K_XMAKE; o.a = g.txt(false); o.b = (int16_t)(XSH0 + i); o.var = (uint8_t)r.below(4); P.prog[0][0].push_back(o); g.xlive[XSH0 + i] = true; }
        }
        auto w = swarm({{K_XMAKE, 28}, {K_XCOPY, 12}, {K_XDEL, 6}, {K_EXTRACT, 8}, {K_REJECT, 4}, {K_CONV, 6}, {K_STR, 4}, {K_NFMT, 4}});
        w.push_back({K_XREAD, 40});
        if (P.rozone) { for (int ph = 1; ph < P.nphases; ph++) for (int t = 0; t < P.nthreads; t++) g.fill(ph, t, r.range(2, 10) * scale, w, t * PRIV); }
        else multi(w, 3, 14);
    }
    if (id == 18) {
        nthreads(1, 2); strategy(P, r); P.smallstack = true;
        if (r.pct(20)) { g.failpct = 20; g.retry = 50; }
        if (r.pct(50)) {
            std::string u = r.pct(70) ? std::string(1, (char)r.below(256)) : gen_str(r, 0);
            const size_t n = r.below(r.pct(60) ? 30000 : 120000);
            if (u.empty()) u = "\x01";
            std::string &s = P.strs[0]; s.clear();
            while (s.size() < n) s += u;
            if (r.pct(50)) s += gen_str(r, 4000);
        }
        if (r.pct(30) && P.strs[0].size() < 90000) P.strs[0] += P.strs[0];
        int odds = 0; for (auto &x : P.txts) odds += x.reject == 2;
        if (r.pct(60)) { P.txts.push_back(gen_longtxt(r, odds < MAXODD)); odds += P.txts.back().reject == 2; }
        if (r.pct(15)) P.txts.push_back(gen_longtxt(r, odds < MAXODD));
        multi(swarm({{K_CONV, 26}, {K_STR, 34}, {K_EXTRACT, 20}, {K_REJECT, 8}, {K_NFMT, 10}, {K_MAKE, 6}, {K_READ, 8}, {K_COPY, 3}, {K_XMAKE, 4}, {K_XREAD, 4}}), 3, 10);
    }
    if (id == 19) {
        nthreads(1, 4); strategy(P, r); P.nphases = r.range(1, 3); P.race = P.nthreads > 1 && r.pct(50);
        g.freshpct = r.range(40, 90);
        if (r.pct(20)) { g.failpct = 20; g.retry = 50; }
        if (r.pct(20)) g.reppct = 15;
        multi(swarm({{K_CONV, 24}, {K_STR, 14}, {K_EXTRACT, 16}, {K_REJECT, 5}, {K_NFMT, 10}, {K_MAKE, 14}, {K_READ, 14}, {K_COPY, 6}, {K_ASSIGN, 4}, {K_VPUSH, 4}, {K_DESTROY, 3}, {K_SEND, 5}, {K_RECV, 6}, {K_XMAKE, 4}, {K_XREAD, 6}}), 3, 12);
    }
    if (id == 20) {
        nthreads(1, r.pct(50) ? 1 : 4); strategy(P, r); P.abandon = true; P.nphases = r.range(1, 2); P.race = P.nthreads > 1 && r.pct(50);
        static const uint32_t m[] = {3, 6, 12, 25, 50, 100, 250};
        P.st.ab_mean = m[r.below(7)];
        g.ctxpct = g.ctxpct ? g.ctxpct / 3 : 0;
        if (r.pct(40)) { P.leak = true; P.rounds = r.pct(50) ? 3 : 1; }
        if (r.pct(15)) { g.failpct = 15; g.retry = 60; }
        if (r.pct(20)) {        // a handler also converts
            P.st.intr_mean = (uint32_t)r.range(10, 80);
            for (int i = r.range(1, 3); i > 0; i--) P.nested.push_back(g.make_op(K_NFMT, 0, false));
        }
        auto w = swarm({{K_NFMT, 16}, {K_MAKE, 20}, {K_READ, 10}, {K_COPY, 6}, {K_EXTRACT, 26}, {K_XMAKE, 5}, {K_XREAD, 8}, {K_CONV, 12}, {K_STR, 6}, {K_REJECT, 4}, {K_DESTROY, 4}, {K_ASSIGN, 2}});
        w.push_back({K_NFMT, 8}); w.push_back({K_EXTRACT, 4});
        multi(w, 3, 14);
        // the same call again, whether it was abandoned or not
        for (int ph = 0; ph < P.nphases; ph++) for (int t = 0; t < P.nthreads; t++) {
            auto &v = P.prog[ph][t];
            for (size_t i = 0; i < v.size(); i++)
                if ((v[i].kind == K_NFMT || v[i].kind == K_EXTRACT || v[i].kind == K_READ) && v[i].repeat == 1 && r.pct(25)) v[i].repeat = (uint32_t)r.range(2, 4);
        }
    }
    if (id == 21) {
        nthreads(1, r.pct(50) ? 1 : 3); strategy(P, r); P.reenter = true;
        static const uint32_t m[] = {1, 2, 3, 5, 9};
        P.st.re_mean = m[r.below(5)];
        if (r.pct(30)) { P.leak = true; P.rounds = r.pct(50) ? 3 : 1; }
        if (r.pct(50)) { g.failpct = r.range(10, 60); g.retry = 40; }
        const int n = r.range(1, 6);
        for (int i = 0; i < n; i++) {
            static const uint8_t k[] = {K_NFMT, K_CONV, K_CONV, K_STR, K_STR, K_EXTRACT, K_REJECT};
            Op o = g.make_op(k[r.below(7)], 0, false);
            if ((o.kind == K_EXTRACT || o.kind == K_REJECT) && o.a < 0) o = g.make_op(K_CONV, 0, false);
            if ((o.kind == K_STR && P.strs[(size_t)o.a].size() > 300) || ((o.kind == K_EXTRACT || o.kind == K_REJECT) && P.txts[(size_t)o.a].s.size() > 300)) o = g.make_op(K_CONV, 0, false);
            o.fail = FM_NONE; o.repeat = 1; o.fresh = 0;
            P.nested.push_back(o);
        }
        multi(swarm({{K_CONV, 26}, {K_STR, 34}, {K_EXTRACT, 18}, {K_REJECT, 8}, {K_READ, 10}, {K_MAKE, 5}, {K_XMAKE, 4}, {K_XREAD, 3}, {K_VPUSH, 3}, {K_COPY, 2}, {K_NFMT, 3}}), 3, 12);
    }
    if (id == 22) {
        nthreads(1, 3); strategy(P, r); P.nphases = r.range(1, 2);
        if (r.pct(60)) for (int i = r.range(1, 6); i > 0; i--) P.vals.push_back(gen_val(r, {T_F32, T_F64, T_F80}));
        if (r.pct(10)) { g.failpct = 15; g.retry = 60; }
        if (r.pct(15)) {        // a handler also formats
            P.st.intr_mean = (uint32_t)r.range(10, 80);
            for (int i = r.range(1, 3); i > 0; i--) P.nested.push_back(g.make_op(K_NFMT, 0, false));
        }
        auto w = swarm({{K_CONV, 34}, {K_NFMT, 26}, {K_MAKE, 12}, {K_READ, 8}, {K_COPY, 4}, {K_DESTROY, 4}, {K_STR, 6}, {K_EXTRACT, 10}, {K_REJECT, 4}, {K_VPUSH, 2}});
        if (r.pct(30)) w.push_back({K_ROUND, 6});
        multi(w, 3, 12);
        static const int m[] = {FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW, FE_INVALID, FE_OVERFLOW, FE_DIVBYZERO, FE_INVALID | FE_DIVBYZERO};
        for (int ph = 0; ph < P.nphases; ph++) for (int t = 0; t < P.nthreads; t++) {
            auto &v = P.prog[ph][t];
            if (v.empty() || (ph && r.pct(50))) continue;
            Op o; o.kind = K_TRAP; o.a = (int16_t)(ph && r.pct(20) ? 0 : m[r.pct(50) ? 0 : r.below(5)]);
            v.insert(v.begin() + (long)r.below(r.pct(70) ? 1 : v.size() + 1), o);
        }
    }
    if (id == 23) {
        nthreads(1, 3); strategy(P, r); P.outside = true; P.nphases = r.range(1, 2);
        if (r.pct(40)) { g.failpct = r.range(10, 40); g.retry = 40; }
        if (r.pct(40)) multi(swarm({{K_EXTRACT, 30}, {K_REJECT, 45}, {K_XMAKE, 15}, {K_XREAD, 5}}), 3, 14);
        else multi(swarm({{K_CONV, 26}, {K_STR, 26}, {K_EXTRACT, 18}, {K_REJECT, 18}, {K_READ, 8}, {K_MAKE, 8}, {K_NFMT, 6}, {K_XMAKE, 5}, {K_XREAD, 3}, {K_COPY, 3}, {K_VPUSH, 3}, {K_DESTROY, 2}}), 3, 14);
    }
    if (id == 24) {
        nthreads(1, r.pct(60) ? 1 : 3); strategy(P, r); P.st.sw_mean = 0; P.fair = 300000; P.cost = true; P.nphases = r.range(1, 3);
        g.freshpct = 0; g.ctxpct = 0;
        if (r.pct(35)) {
            std::string u = r.pct(70) ? std::string(1, (char)r.below(256)) : gen_str(r, 0);
            const size_t n = r.below(r.pct(85) ? 24000 : 170000);
            if (u.empty()) u = "\x01";
            std::string &s = P.strs[0]; s.clear();
            while (s.size() < n) s += u;
        }
        std::vector<Op> probe;
        static const uint8_t k[] = {K_CONV, K_CONV, K_STR, K_STR, K_EXTRACT, K_EXTRACT, K_REJECT, K_NFMT};
        for (int i = r.range(1, 5); i > 0; i--) {
            Op o = g.make_op(k[r.below(8)], 0, false);
            if (o.kind != K_CONV && o.kind != K_NFMT && o.a < 0) continue;
            o.repeat = (uint32_t)r.range(2, 4);
            probe.push_back(o);
        }
        auto put = [&](int ph) { for (Op o : probe) if (r.pct(85)) P.prog[ph][r.below((uint64_t)P.nthreads)].push_back(o); };
        put(0);
        multi(swarm({{K_CONV, 26}, {K_STR, 26}, {K_EXTRACT, 18}, {K_REJECT, 12}, {K_READ, 8}, {K_MAKE, 8}, {K_NFMT, 6}, {K_XMAKE, 5}, {K_XREAD, 3}, {K_COPY, 3}, {K_VPUSH, 3}, {K_DESTROY, 2}}), 2, 8);
        if (r.pct(30)) for (int t = 0; t < P.nthreads; t++) for (Op &o : P.prog[0][t]) if (o.repeat == 1 && r.pct(30) && (o.kind == K_CONV || o.kind == K_STR || o.kind == K_EXTRACT || o.kind == K_REJECT || o.kind == K_NFMT)) o.repeat = (uint32_t)r.range(5, 3000);
        many(r.range(0, 2));
        put(P.nphases - 1);
    }
    // in some, most calls are the same one, with different arguments of one type
    const bool chorus = (id == 1 || id == 11 || id == 12 || id == 19 || id == 20 || id == 21 || id == 23) && r.pct(id == 12 ? 45 : 30);
    if (chorus) {
        static const uint8_t k[] = {K_CONV, K_CONV, K_CONV, K_NFMT, K_NFMT, K_STR, K_EXTRACT, K_EXTRACT, K_EXTRACT, K_REJECT};
        const uint8_t kind = k[r.below(10)];
        const std::vector<uint8_t> ty{(uint8_t)r.below(T_N)};
        std::vector<int16_t> arg;
        for (int i = r.range(1, 4); i > 0; i--) {
            if (kind == K_CONV || kind == K_NFMT) { P.vals.push_back(gen_val(r, ty)); arg.push_back((int16_t)(P.vals.size() - 1)); }
            else if (kind == K_STR) arg.push_back((int16_t)r.below(P.strs.size()));
            else { P.txts.push_back(kind == K_REJECT ? gen_reject(r) : gen_txt(r, ty)); if (heavy && P.txts.back().s.size() > 3000) P.txts.back().s.resize(3000); arg.push_back((int16_t)(P.txts.size() - 1)); }
        }
        if (id == 11 && (kind == K_CONV || kind == K_NFMT)) for (Op &o : P.nested) if (o.kind == K_NFMT && r.pct(70)) o.val = arg[r.below(arg.size())];
        // all threads are stopped at the same place
        if (P.nthreads > 1 && r.pct(50)) { P.st.at = r.pct(50) ? (uint32_t)r.range(1, 60) : (uint32_t)r.range(60, 400); if (r.pct(60)) arg.resize(1); }
        const int var = r.pct(P.st.at ? 80 : 50) ? (int)g.make_op(kind, 0, false).var : -1;
        for (auto &ph : P.prog) for (auto &t : ph) for (Op &o : t) {
            if ((o.kind != K_CONV && o.kind != K_NFMT && o.kind != K_STR && o.kind != K_EXTRACT && o.kind != K_REJECT) || r.pct(25)) continue;
            Op n = g.make_op(kind, 0, false);
            n.fail = o.fail; n.failarg = o.failarg; n.fresh = o.fresh;
            n.repeat = kind == K_CONV || kind == K_NFMT ? o.repeat : 1;
            if (var >= 0) n.var = (uint8_t)var;
            (kind == K_CONV || kind == K_NFMT ? n.val : n.a) = arg[r.below(arg.size())];
            o = n;
        }
    }
    // some runs of every property take place under a locale, errno, flags or rounding mode other than the default
    bool anyodd = false; for (auto &x : P.txts) anyodd |= x.reject == 2;
    if (id != 9 && id != 10 && id != 22 && id != 24 && !anyodd && r.pct(18)) {
        auto put = [&](int kind, int ph, int t) {
            Op o = g.make_op(kind, 0, false);
            auto &v = P.prog[ph][t];
            v.insert(v.begin() + (long)r.below(r.pct(60) ? 1 : v.size() + 1), o);
        };
        const int n = r.range(1, 3);
        for (int i = 0; i < n; i++) {
            static const uint8_t k[] = {K_LOCGLOBAL, K_LOCGLOBAL, K_LOCTHREAD, K_LOCCXX, K_ERRNO, K_FPFLAGS, K_ROUND};
            const int kind = id == 13 ? k[4 + r.below(3)] : k[r.below(7)];
            int ph = r.pct(70) ? 0 : (int)r.below((uint64_t)P.nphases);
            int t = (int)r.below((uint64_t)P.nthreads);
            if (P.prog[ph][t].empty()) t = 0;
            put(kind, ph, t);
        }
        P.ambient = id != 13;     // (the stages of a process load no locales)
    }
    // some have very many threads, one after another or at the same time
    if (id != 13 && id != 5 && r.pct(family ? (id == 1 || id == 12 ? 35 : 20) : id == 19 ? 12 : id == 1 ? 9 : id == 7 || id == 8 || id == 12 ? 5 : 2)) {
        const int n = r.range(1, 2);
        for (int i = 0; i < n; i++) {
            static const uint8_t k[] = {K_CONV, K_STR, K_EXTRACT, K_NFMT, K_REJECT};
            const int ph = (int)r.below((uint64_t)P.nphases), t = (int)r.below((uint64_t)P.nthreads);
            if (P.rozone && ph == 0) continue;
            Op o = g.make_op(k[r.below(family ? 4 : 5)], t * PRIV, false);
            if (r.pct(50)) {        // what another thread does, too
                const auto &w = P.prog[ph][r.below((uint64_t)P.nthreads)];
                std::vector<const Op *> c;
                for (auto &x : w) if (x.kind == K_CONV || x.kind == K_STR || x.kind == K_EXTRACT) c.push_back(&x);
                if (!c.empty()) { o = *c[r.below(c.size())]; }
            }
            if (o.kind != K_CONV && o.kind != K_NFMT && o.a < 0) continue;
            o.repeat = (uint32_t)(r.pct(30) ? r.range(5, 20) : r.pct(40) ? (1 << r.range(3, 7)) + r.range(-2, 2) : r.range(20, 135));
            o.fail = FM_NONE;
            const bool stay = r.pct(50);
            o.fresh = stay ? 16 : 1;
            if (r.pct(60)) o.fresh |= 32;
            if (!stay && r.pct(40)) o.repeat *= 2 + (uint32_t)r.below(2);
            auto &v = P.prog[ph][t];
            const size_t at = r.pct(40) ? 0 : r.below(v.size() + 1);
            v.insert(v.begin() + (long)at, o);
            if (stay && r.pct(50)) { Op e; e.kind = K_CROWDEND; e.a = (int16_t)r.range(1, 140); v.insert(v.begin() + (long)(at + 1 + r.below(v.size() - at)), e); }
        }
    }
    // some make very many conversions of different values
    static const unsigned manypct[] = {4, 6, 6, 3, 25, 0, 12, 18, 35, 5, 4, 0, 6, 0, 8, 10, 14, 16, 4, 10, 4, 4, 4, 4, 0};
    if (r.pct(manypct[id])) many(r.range(1, 2));
    // no run takes long: bound the characters that go through repeated calls
    uint64_t cost = 0;
    for (auto &ph : P.prog) for (auto &t : ph) for (size_t i = 0; i < t.size();) {
        Op &o = t[i];
        uint64_t len = 0;
        if (o.kind == K_STR) len = P.strs[(size_t)o.a].size();
        else if ((o.kind == K_EXTRACT || o.kind == K_REJECT || o.kind == K_XMAKE) && o.a >= 0) len = P.txts[(size_t)o.a].s.size();
        if (len > 200 && len * o.repeat > 40000) o.repeat = len > 40000 ? 1 : (uint32_t)(40000 / len);
        if (len > 200) cost += len * o.repeat;
        if (len > 200 && cost > 200000) { cost -= len * o.repeat; t.erase(t.begin() + (long)i); continue; }
        i++;
    }
    return P;
}

// ================================================================ replay files
static std::string hex(const std::string &s)
{
    static const char h[] = "0123456789abcdef";
    std::string r; for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; }
    return r.empty() ? "-" : r;
}
static std::string unhex(const std::string &s)
{
    std::string r; if (s == "-") return r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
static const char *const EV_NAME[] = {"preempt", "interrupt", "stall", "locale", "next", "abandon", "reenter"};
static void put_op(std::ostringstream &o, const Op &op)
{
    o << K_NAME[op.kind] << ' ' << (int)op.var << ' ' << op.val << ' ' << op.a << ' ' << op.b << ' ' << op.repeat << ' ' << (int)op.fail << ' ' << op.failarg << ' ' << (int)op.fresh << '\n';
    for (const Ev &e : op.evs) o << "  ev " << (int)e.round << ' ' << e.step << ' ' << EV_NAME[e.kind] << ' ' << e.arg << '\n';
}
std::string plan_save(const Plan &P)
{
    std::ostringstream o;
    o << "property " << P.prop << "\nseed " << P.seed << "\nshape " << P.nthreads << ' ' << P.nphases << ' ' << P.rounds << "\nflags " << P.race << ' ' << P.strict << ' ' << P.rozone << ' '
      << P.ambient << ' ' << P.stages << ' ' << P.leak << ' ' << P.smallstack << ' ' << P.abandon << ' ' << P.reenter << ' ' << P.outside << ' ' << P.cost << ' ' << P.fair << "\nfill " << (int)P.fill << '\n';
    if (P.seeded) o << "seeded " << P.st.sw_mean << ' ' << P.st.sw_bound << ' ' << P.st.intr_mean << ' ' << P.st.loc_mean << ' ' << P.st.stall << ' ' << P.st.stall_mean << ' ' << P.st.ab_mean << ' ' << P.st.re_mean << ' ' << P.st.at << '\n';
    for (auto &v : P.vals) o << "val " << TY_NAME[v.ty] << ' ' << v.bits << '\n';
    for (auto &s : P.strs) o << "str " << hex(s) << '\n';
    for (auto &t : P.txts) o << "txt " << TY_NAME[t.ty] << ' ' << (int)t.reject << ' ' << hex(t.s) << '\n';
    for (auto &n : P.nested) { o << "nested "; put_op(o, n); }
    for (int p = 0; p < MAXPH; p++) for (int t = 0; t < MAXT; t++) for (auto &op : P.prog[p][t]) { o << "op " << p << ' ' << t << ' '; put_op(o, op); }
    return o.str();
}
static int name_index(const char *const *names, int n, const std::string &s) { for (int i = 0; i < n; i++) if (s == names[i]) return i; return -1; }
bool plan_load(const std::string &text, Plan &P, std::string &err)
{
    std::istringstream in(text); std::string line; Op *last = nullptr; int ln = 0;
    auto get_op = [&](std::istringstream &l, Op &op) {
        std::string k; int var, fail, fresh; l >> k >> var >> op.val >> op.a >> op.b >> op.repeat >> fail >> op.failarg >> fresh; op.fresh = (uint8_t)fresh;
        int ki = name_index(K_NAME, K_N, k); if (ki < 0 || !l) return false;
        op.kind = (uint8_t)ki; op.var = (uint8_t)var; op.fail = (uint8_t)fail; return true;
    };
    while (std::getline(in, line)) {
        ln++;
        std::istringstream l(line); std::string w; l >> w;
        bool ok = true;
        if (w.empty() || w[0] == '#') continue;
        if (w == "property") l >> P.prop;
        else if (w == "seed") l >> P.seed;
        else if (w == "shape") l >> P.nthreads >> P.nphases >> P.rounds;
        else if (w == "flags") { l >> P.race >> P.strict >> P.rozone >> P.ambient >> P.stages >> P.leak >> P.smallstack >> P.abandon >> P.reenter >> P.outside >> P.cost >> P.fair; if (!P.fair) P.fair = 2000; }
        else if (w == "seeded") { P.seeded = true; l >> P.st.sw_mean >> P.st.sw_bound >> P.st.intr_mean >> P.st.loc_mean >> P.st.stall >> P.st.stall_mean >> P.st.ab_mean >> P.st.re_mean >> P.st.at; }
        else if (w == "fill") { int f; l >> f; P.fill = (uint8_t)f; }
        else if (w == "val") { std::string t; Val v; l >> t >> v.bits; int i = name_index(TY_NAME, T_N, t); ok = i >= 0; v.ty = (uint8_t)i; P.vals.push_back(v); }
        else if (w == "str") { std::string s; l >> s; P.strs.push_back(unhex(s)); }
        else if (w == "txt") { std::string t, s; int rj; l >> t >> rj >> s; int i = name_index(TY_NAME, T_N, t); ok = i >= 0; P.txts.push_back(Txt{(uint8_t)i, (uint8_t)rj, unhex(s)}); }
        else if (w == "nested") { Op op; ok = get_op(l, op); P.nested.push_back(op); last = &P.nested.back(); }
        else if (w == "op") { int p, t; l >> p >> t; if (p < 0 || p >= MAXPH || t < 0 || t >= MAXT) ok = false; else { Op op; ok = get_op(l, op); P.prog[p][t].push_back(op); last = &P.prog[p][t].back(); } }
        else if (w == "ev") { int rd; Ev e; std::string k; l >> rd >> e.step >> k >> e.arg; int i = name_index(EV_NAME, 7, k); ok = i >= 0 && last; e.kind = (uint8_t)i; e.round = (uint8_t)rd; if (ok) last->evs.push_back(e); }
        else if (w == "variant" || w == "class" || w == "hash") continue;
        else ok = false;
        if (!ok || l.fail()) { err = "line " + std::to_string(ln) + ": " + line.substr(0, 80); return false; }
    }
    if (P.nthreads < 1 || P.nthreads > MAXT || P.nphases < 1 || P.nphases > MAXPH) { err = "bad shape"; return false; }
    return true;
}
// ================================================================ readable
std::string op_describe(const Plan &P, const Op &o)
{
    std::ostringstream s;
    auto val = [&]() { if (o.val < 0 || o.val >= (int)P.vals.size()) return std::string("?"); const Val &v = P.vals[(size_t)o.val]; char b[64];
        if (ty_float(v.ty)) snprintf(b, sizeof b, "%.17g", bits_double(v.bits)); else snprintf(b, sizeof b, "%s", model_quote(model_text((Ty)v.ty, v.bits)).c_str());
        return std::string(TY_NAME[v.ty]) + " " + b; };
    static const char *const fn[] = {"lexi", "string", "escape", "jsonify"};
    switch (o.kind) {
        case K_MAKE: s << "slot " << o.a << " = " << ((o.var & 9) == 9 ? "kept Format(" : o.var & 1 ? "Format()(" : "Formatter(") << val() << ")"; break;
        case K_NFMT: s << "temporary formatter of " << val() << ", read and destroyed"; break;
        case K_COPY: s << "slot " << o.b << ((o.var & 3) == 1 ? " = new formatter moved from slot " : (o.var & 3) == 2 ? " = new formatter, by value, from slot " : " = new copy of slot ") << o.a; break;
        case K_ASSIGN: s << "slot " << o.b << ((o.var & 1) == 1 ? " move-assigned from slot " : " assigned from slot ") << o.a; break;
        case K_SWAP: s << "swap slots " << o.a << " and " << o.b; break;
        case K_DESTROY: s << "destroy slot " << o.a; break;
        case K_READ: { static const char *const n[] = {"size/length/data/c_str", "string()", "std::string()", "escape()", "jsonify()"}; s << "read slot " << o.a << " with " << n[o.var % 5]; break; }
        case K_VPUSH: s << "push_back slot " << o.a << " into its vector"; break;
        case K_CONV: s << fn[o.var & 3] << "(" << val() << ") via " << (o.var >> 2) % 3 << (o.a == 1 ? " (kept)" : o.a == 2 ? " (copy of the kept one)" : ""); break;
        case K_SEND: s << "send " << fn[o.var & 1] << "(" << val() << ")"; break;
        case K_RECV: s << "receive message " << o.a << " and extract, form " << o.var % 6; break;
        case K_STR: s << fn[o.var & 3] << "(\"" << (o.a >= 0 && o.a < (int)P.strs.size() ? model_quote(P.strs[(size_t)o.a]) : "?") << "\") form " << (o.var >> 2) % 5; break;
        case K_EXTRACT: case K_REJECT: if (o.a >= 0 && o.a < (int)P.txts.size()) s << "extract " << TY_NAME[P.txts[(size_t)o.a].ty] << " from \"" << model_quote(P.txts[(size_t)o.a].s) << "\" form " << o.var % 6 << ((o.b & 4) && o.var % 6 == 2 ? " (kept Extract)" : "") << (o.kind == K_REJECT ? " (must be rejected)" : ""); break;
        case K_XMAKE: if (o.a >= 0 && o.a < (int)P.txts.size()) s << "extractor " << o.b << " of " << TY_NAME[P.txts[(size_t)o.a].ty] << " from \"" << model_quote(P.txts[(size_t)o.a].s) << "\""; break;
        case K_XCOPY: s << "extractor " << o.b << (o.var & 1 ? " assigned from " : " copied from ") << o.a; break;
        case K_XREAD: s << "value of extractor " << o.a << " as " << TY_NAME[o.var % T_N]; break;
        case K_XDEL: s << "destroy extractor " << o.a; break;
        case K_MANY: {
            static const char *const n[] = {"lexi", "string", "escape", "jsonify", "temporary formatters", "formatters that live at the same time", "extractions", "conversions of strings", "extractions that are rejected", "extractors that live at the same time", "conversions and extractions"};
            s << n[o.var % 16 % 11] << ", each of another value, from " << val();
            break;
        }
        case K_TRAP: s << "floating-point traps 0x" << std::hex << o.a << std::dec; break;
        case K_CROWDEND: s << o.a << " of the threads that stayed end"; break;
        case K_ERRNO: s << "errno = " << o.a << " before each following call"; break;
        case K_FPFLAGS: s << "raise floating-point flags 0x" << std::hex << o.a << std::dec << " before each following call" << (o.b & 3 ? ", and treat denormal numbers as zero" : ""); break;
        case K_ROUND: { static const char *const n[] = {"nearest", "upward", "downward", "toward zero"}; s << "rounding mode " << n[o.a & 3]; break; }
        case K_LOCTHREAD: s << "uselocale " << cxx_locale_name(o.a); break;
        case K_LOCGLOBAL: s << "setlocale " << cxx_locale_name(o.a); break;
        case K_LOCCXX: s << "std::locale::global " << cxx_locale_name(o.a); break;
        default: s << K_NAME[o.kind] << " of the vector of formatter kind " << o.b; break;
    }
    if (o.repeat > 1) s << " x" << o.repeat;
    if (o.fresh & 4) s << " [during stack unwinding]"; else if (o.fresh & 8) s << " [in a catch handler]";
    if ((o.kind == K_STR || o.kind == K_EXTRACT || o.kind == K_REJECT) && (o.b & 1)) s << " [argument in a reused buffer]";
    if (o.fresh & 32) s << " [not preempted]";
    if (o.fresh & 16) s << " [on threads of their own that stay]";
    else if (o.fresh & 3) s << ((o.fresh & 3) == 1 ? " [on a thread that then ends]" : " [on a thread that is ending]");
    if (o.fail == FM_ALL) s << " [all allocations fail]";
    else if (o.fail == FM_MASK) s << " [allocations " << std::hex << "0x" << o.failarg << std::dec << " fail]";
    else if (o.fail == FM_SIZE) s << " [allocations of " << o.failarg << " bytes or more fail]";
    return s.str();
}
std::string plan_describe(const Plan &P)
{
    std::ostringstream o;
    for (int p = 0; p < P.nphases; p++) for (int t = 0; t < P.nthreads; t++) for (auto &op : P.prog[p][t]) {
        o << "# phase " << p << " thread " << t << ": " << op_describe(P, op) << '\n';
        for (const Ev &e : op.evs) {
            o << "#     ";
            if (P.rounds > 1) o << "round " << (int)e.round << ", ";
            if (e.kind == EV_NEXT) o << (e.step == 0xffffffffu ? "when this thread has ended: " : "when it cannot run: ") << "thread " << e.arg << " runs";
            else {
                if (e.step <= 1) o << "before the call: "; else o << "at step " << e.step << " of the call: ";
                if (e.kind == EV_PREEMPT) o << "switch to thread " << e.arg;
                else if (e.kind == EV_STALL) o << "stalled for ever";
                else if (e.kind == EV_ABANDON) o << "abandoned";
                else if (e.kind == EV_REENTER) o << "the allocator converts: " << (P.nested.empty() ? std::string() : op_describe(P, P.nested[(size_t)e.arg % P.nested.size()]));
                else if (e.kind == EV_LOC) o << "environment sets locale " << cxx_locale_name(e.arg);
                else if (!P.nested.empty()) o << "signal handler: " << op_describe(P, P.nested[(size_t)e.arg % P.nested.size()]);
            }
            o << '\n';
        }
    }
    return o.str();
}
