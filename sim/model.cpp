// Reference model: small, independent statements of what each conversion gives.
#include "sim.hpp"
#include <cfloat>
#include <cmath>
#include <clocale>
#include <cstdlib>
#include <locale.h>

static locale_t c_loc()
{
    static locale_t l = newlocale(LC_ALL_MASK, "C", (locale_t)0);
    return l;
}
double bits_double(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
uint64_t double_bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

uint64_t model_wrap(Ty ty, uint64_t v)
{
    switch (ty) {
        case T_I8: case T_EI8: return (uint64_t)(int64_t)(int8_t)v;
        case T_U8: case T_UC: return (uint8_t)v;
        case T_CH: return (uint8_t)v;
        case T_I16: return (uint64_t)(int64_t)(int16_t)v;
        case T_U16: case T_EPLAIN: return (uint16_t)v;
        case T_I32: return (uint64_t)(int64_t)(int32_t)v;
        case T_U32: case T_EU32: return (uint32_t)v;
        case T_BOOL: return v & 1;
        case T_NUL: return 0;
        default: return v;
    }
}
static bool is_signed_ty(Ty t)
{
    return t == T_I8 || t == T_I16 || t == T_I32 || t == T_L || t == T_LL || t == T_EI8 || t == T_ELL || t == T_FPOS;
}
std::string model_text(Ty ty, uint64_t bits)
{
    switch (ty) {
        case T_BOOL: return bits & 1 ? "true" : "false";
        case T_NUL: return "null";
        case T_CH: case T_UC: return std::string(1, (char)bits);
        default: break;
    }
    bool neg = is_signed_ty(ty) && (int64_t)bits < 0;
    unsigned __int128 u = neg ? (unsigned __int128)(-(__int128)(int64_t)bits) : bits;
    std::string r;
    do { r.insert(r.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u);
    return neg ? "-" + r : r;
}

// Layout of digits d1..dn with value 0.d1..dn * 10^kk
static std::string layout(const std::string &d, int kk)
{
    int n = (int)d.size();
    if (n <= kk && kk <= 21) return d + std::string((size_t)(kk - n), '0') + ".0";
    if (0 < kk && kk <= 21) return d.substr(0, (size_t)kk) + "." + d.substr((size_t)kk);
    if (-6 < kk && kk <= 0) return "0." + std::string((size_t)-kk, '0') + d;
    std::string e = "e" + std::to_string(kk - 1);
    return n == 1 ? d + e : d.substr(0, 1) + "." + d.substr(1) + e;
}
const char *model_float_error(uint64_t bits, const char *text)
{
    double v = bits_double(bits);
    std::string t = text;
    if (std::isnan(v)) return t == "NaN" ? nullptr : "NaN expected";
    if (std::isinf(v)) return t == (v > 0 ? "Infinity" : "-Infinity") ? nullptr : "infinity expected";
    if (v == 0) return t == "0.0" ? nullptr : "0.0 expected";
    size_t i = 0;
    if (v < 0) { if (t[0] != '-') return "sign missing"; i = 1; }
    std::string digs; int point = -1; int e10 = 0; size_t n = 0;
    for (; i < t.size(); i++) {
        char c = t[i];
        if (c >= '0' && c <= '9') { digs += c; n++; }
        else if (c == '.' && point < 0 && n > 0) point = (int)n;
        else if (c == 'e' && n > 0) {
            char *end; e10 = (int)strtol(t.c_str() + i + 1, &end, 10);
            if (*end || end == t.c_str() + i + 1) return "malformed exponent";
            i = t.size(); break;
        } else return "malformed number";
    }
    if (n == 0) return "no digits";
    if (point < 0) point = (int)n;
    int kk = point + e10;
    size_t z = 0;
    while (z + 1 < digs.size() && digs[z] == '0') { z++; kk--; }
    std::string sig = digs.substr(z);
    while (sig.size() > 1 && sig.back() == '0') sig.pop_back();
    if (sig.size() > 17) return "more than 17 digits";
    char *end;
    double r = strtod_l(t.c_str(), &end, c_loc());
    if (*end) return "malformed number";
    if (r != v) return "text does not identify the number";
    std::string l = layout(sig, kk);
    if ((v < 0 ? "-" + l : l) != t) return "wrong layout";
    return nullptr;
}
std::string model_escape(const std::string &s)
{
    std::string r;
    for (char ch : s) {
        unsigned char c = (unsigned char)ch;
        bool alnum = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
        if (c < 127 && !alnum) r += '\\';
        r += ch;
    }
    return r;
}
std::string model_json(const std::string &s)
{
    std::string r = "\"";
    for (char ch : s) {
        unsigned char c = (unsigned char)ch;
        static const char from[] = "\b\f\n\r\t\\\"", to[] = "bfnrt\\\"";
        const char *f = c ? strchr(from, (char)c) : nullptr;
        if (f) { r += '\\'; r += to[f - from]; }
        else if (c < 32) { char b[8]; static const char h[] = "0123456789abcdef"; b[0]='\\';b[1]='u';b[2]='0';b[3]='0';b[4]=h[c>>4];b[5]=h[c&15];b[6]=0; r += b; }
        else r += ch;
    }
    return r + "\"";
}
std::string model_quote(const std::string &s)
{
    std::string r;
    for (char ch : s) {
        unsigned char c = (unsigned char)ch;
        if (c < 32 || c >= 127 || c == '\\' || c == '"') {
            static const char h[] = "0123456789abcdef";
            r += "\\x"; r += h[c >> 4]; r += h[c & 15];
        } else r += ch;
        if (r.size() > 160) { r += "..."; break; }
    }
    return r;
}
XVal model_extract(const Txt &t)
{
    XVal x{0, 0};
    Ty ty = (Ty)t.ty;
    if (ty_int(ty)) {
        size_t i = 0; const std::string &s = t.s;
        while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++;
        bool neg = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
        uint64_t v = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') v = v * 10 + (uint64_t)(s[i++] - '0');
        x.bits = model_wrap(ty, neg ? 0 - v : v);
    } else if (ty == T_BOOL) x.bits = t.s == "true";
    else if (ty == T_CH || ty == T_UC) x.bits = (uint8_t)t.s[0];
    else if (ty == T_F32) x.ld = strtof_l(t.s.c_str(), nullptr, c_loc());
    else if (ty == T_F64) x.ld = strtod_l(t.s.c_str(), nullptr, c_loc());
    else if (ty == T_F80) x.ld = strtold_l(t.s.c_str(), nullptr, c_loc());
    return x;
}
bool model_equal(Ty ty, const XVal &a, const XVal &b)
{
    if (ty_float(ty)) return a.ld == b.ld || (std::isnan(a.ld) && std::isnan(b.ld));
    return a.bits == b.bits;
}
