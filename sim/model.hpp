// Executable reference model: what values of a type are, which texts denote them, and which value a text denotes.
// It is written independently of the library; it relies on rapidjson only to split a text into JSON values.
#pragma once
#include <charconv>
#include "rt.h"
#include "counters.h"
#include <rapidjson/document.h>
#include <rapidjson/pointer.h>
#include <array>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace sim
{
    using u64 = std::uint64_t;
    using Json = rapidjson::Value;

    struct Rng
    {
        u64 s;
        explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
        u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
        u64 below(u64 n) { return n ? next() % n : 0; }
        int range(int lo, int hi) { return lo + (int)below((u64)(hi - lo + 1)); }
        bool chance(int pct) { return (int)below(100) < pct; }
    };
    inline u64 mix(u64 a, u64 b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next(); }

    // ------------------------------------------------------------ generation
    struct Gen
    {
        Rng r;
        int budget;              // number of elements that may still be made
        int depth = 0;
        bool share = true;       // make shared pointers share
        int poison_at = -1;      // number of the site at which to put a value JSON cannot express
        int sites = 0;           // such sites seen
        bool poisoned = false;
        int in_set = 0;
        int levels = 200;        // of deep nesting that may still be made
        int serial = 0;
        std::map<std::type_index, std::vector<std::shared_ptr<void>>> pool;
        int big = 0;             // one container has this many elements, or one string this many characters
        int theme = 0;           // values are drawn from the few that belong to this theme: they are equal or alike
        u64 near(int salt) { u64 v = Rng((u64)theme * 1000003 + (u64)salt + 17 * r.below(3)).next(); return v; }
        bool themed(int pct = 65) { return theme && r.chance(pct); }
        Gen(u64 seed, int size) : r(seed), budget(size) { if (seed >> 56 == 0x7E) theme = 1 + (int)(seed >> 48 & 0xFF); if (size > 1000) { big = size - 1000; budget = 12; } }
        int count(int most = 6, bool cheap = false)
        {
            if (big && r.chance(70)) { int n = big > 4200 && !cheap ? 1000 + big % 256 : big; big = 0; return n; }
            if (budget <= 0 || depth > 12) return 0;
            int n = r.chance(12) ? 0 : r.range(1, most);
            if (r.chance(4)) n = r.range(0, 40);
            if (n > budget) n = budget;
            budget -= n;
            return n;
        }
        bool poison() { bool p = sites++ == poison_at; if (p) poisoned = true; return p; }
    };

    // ------------------------------------------------------------ dump: a canonical rendering of a value
    struct Dump
    {
        std::string out;
        std::map<std::pair<const void*, std::type_index>, int> ids;       // identity of shared objects
        bool identity = true;
        std::set<const void*>* seen = nullptr; // collects the shared objects
        int bad = 0;                          // values that JSON cannot express
        void num(long long v) { char b[32]; int n = 0; bool neg = v < 0; unsigned long long u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v; do { b[n++] = (char)('0' + u % 10); u /= 10; } while (u); if (neg) out += '-'; while (n) out += b[--n]; }
        void hex(u64 v) { static const char d[] = "0123456789abcdef"; for (int i = 60; i >= 0; i -= 4) out += d[(v >> i) & 15]; }
        void str(std::string_view s) { out += '"'; for (char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') out += c; else { static const char d[] = "0123456789abcdef"; out += '\\'; out += d[((unsigned char)c) >> 4]; out += d[c & 15]; } } out += '"'; }
    };

    // ------------------------------------------------------------ enc: a text that denotes the value
    struct Enc
    {
        Rng r;
        int style = 0;           // 0 plain; 1 white space, escapes, number formats and member order vary
        bool refs = true;        // write back-references
        std::string out;
        std::vector<std::string> path;
        std::map<std::pair<const void*, std::type_index>, std::string> known;
        explicit Enc(u64 seed) : r(seed) {}
        void ws() { if (style && r.chance(25)) { int n = r.range(1, 3); while (n--) out += " \n\t\r"[r.below(4)]; } }
        void raw(std::string_view s) { ws(); out += s; ws(); }
        void str(std::string_view s, bool key = false)
        {
            ws();
            out += '"';
            for (size_t i = 0; i < s.size(); ++i) {
                unsigned char c = (unsigned char)s[i];
                static const char d[] = "0123456789abcdef"; static const char D[] = "0123456789ABCDEF";
                if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
                else if (c < 32) {
                    const char* p = std::strchr("\bb\ff\nn\rr\tt", c);
                    if (p && c && r.chance(70)) { out += '\\'; out += p[1]; } else { out += "\\u00"; out += d[c >> 4]; out += d[c & 15]; }
                }
                else if (style && c < 127 && r.chance(6)) { if (c == '/' && r.chance(50)) out += "\\/"; else { out += "\\u00"; out += D[c >> 4]; out += d[c & 15]; } }
                else out += (char)c;
            }
            out += '"';
            if (!key) ws();
        }
        std::string pointer() const { std::string p; for (auto& s : path) { p += '/'; for (char c : s) { if (c == '~') p += "~0"; else if (c == '/') p += "~1"; else p += c; } } return p; }
    };

    // ------------------------------------------------------------ dec: the value that a JSON value denotes
    struct Dec
    {
        bool sax = false;        // unknown members are refused and references are not recognised
        bool strict = false;     // judging written text: unknown members are refused
        bool dontcare = false;   // the text uses a freedom the properties leave open
        bool int_for_float = false;
        bool unknown = false;    // has members unknown to the class
        bool has_ref = false;
        bool has_variant = false;
        const Json* root = nullptr;
        std::vector<std::string> faults;   // locations of all elements at fault, as JSON pointers
        std::vector<std::string> path;
        std::map<std::pair<const Json*, std::type_index>, std::shared_ptr<void>> objects; std::vector<std::pair<const Json*, std::type_index>> made;   // in the order in which they were made
        static void esc(std::string& p, std::string_view s) { p += '/'; for (char c : s) { if (c == '~') p += "~0"; else if (c == '/') p += "~1"; else p += c; } }
        std::string pointer() const { std::string p; for (auto& s : path) esc(p, s); return p; }
        void fault() { faults.push_back(pointer()); }
        void fault_at(std::string_view sub) { faults.push_back(pointer()); std::string p = pointer(); esc(p, sub); faults.push_back(p); }
    };

    template<typename T, typename E = void> struct Spec;

    template<typename T> std::string dump_of(const T& v, bool identity = true) { Dump d; d.identity = identity; Spec<T>::dump(v, d); return std::move(d.out); }

    // ------------------------------------------------------------ fundamentals
    template<> struct Spec<std::nullptr_t>
    {
        static void gen(Gen&, std::nullptr_t& v) { v = nullptr; }
        static void dump(const std::nullptr_t&, Dump& d) { d.out += "nil"; }
        static void enc(const std::nullptr_t&, Enc& e) { e.raw("null"); }
        static void dec(const Json& j, std::nullptr_t& v, Dec& c) { v = nullptr; if (!j.IsNull()) c.fault(); }
    };
    template<> struct Spec<bool>
    {
        static void gen(Gen& g, bool& v) { v = g.r.chance(50); }
        static void dump(const bool& v, Dump& d) { unsigned char b; std::memcpy(&b, &v, 1); d.out += b == 1 ? "T" : b == 0 ? "F" : "?"; }
        static void enc(const bool& v, Enc& e) { e.raw(v ? "true" : "false"); }
        static void dec(const Json& j, bool& v, Dec& c) { v = false; if (j.IsBool()) v = j.GetBool(); else c.fault(); }
    };
    template<typename T> struct IntSpec
    {
        static void gen(Gen& g, T& v)
        {
            using L = std::numeric_limits<T>;
            if (g.themed()) { u64 b = g.near(1); if (g.theme & 1) b &= 0xFFF; if (g.r.chance(50)) b ^= (u64)1 << g.r.below(64); if (g.r.chance(30)) b += (u64)g.r.range(-1, 1); v = static_cast<T>(b); return; }
            switch (g.r.below(8)) {
            case 0: v = L::min(); break;
            case 1: v = L::max(); break;
            case 2: v = 0; break;
            case 3: v = static_cast<T>(g.r.range(-3, 12)); break;
            case 4: v = static_cast<T>((u64)1 << g.r.below(64)); break;
            case 5: v = static_cast<T>(((u64)1 << g.r.below(64)) - 1); break;
            case 6: v = static_cast<T>(0 - ((u64)1 << g.r.below(64))); break;
            default: v = static_cast<T>(g.r.next()); break;
            }
        }
        static void put(T v, std::string& o) { Dump d; if constexpr (std::is_signed_v<T>) d.num(v); else { u64 u = v; char b[24]; int n = 0; do { b[n++] = (char)('0' + u % 10); u /= 10; } while (u); while (n) d.out += b[--n]; } o += d.out; }
        static void dump(const T& v, Dump& d) { put(v, d.out); }
        static void enc(const T& v, Enc& e) { e.ws(); if (v == 0 && e.style && e.r.chance(10)) e.out += "-0"; else put(v, e.out); e.ws(); }
        static bool get(const Json& j, T& v)
        {
            if (j.IsUint64()) { u64 u = j.GetUint64(); v = static_cast<T>(u); return u <= (u64)std::numeric_limits<T>::max(); }
            if (j.IsInt64()) { std::int64_t s = j.GetInt64(); v = static_cast<T>(s); if constexpr (std::is_signed_v<T>) return s >= (std::int64_t)std::numeric_limits<T>::min(); else return false; }
            v = 0; return false;
        }
        static void dec(const Json& j, T& v, Dec& c) { if (!get(j, v)) c.fault(); }
    };
    template<typename T> struct Spec<T, std::enable_if_t<std::is_integral_v<T>>> : IntSpec<T> {};

    template<typename T> struct Spec<T, std::enable_if_t<std::is_floating_point_v<T>>>
    {
        static void gen(Gen& g, T& v)
        {
            using L = std::numeric_limits<T>;
            static const double some[] = { 0.0, -0.0, 0.1, -0.5, 1.0 / 3, 3.14159265358979, 1e22, 1e23, 123456789.123456789, 9007199254740993.0, 1e-7, 1e21, 2.5e-8, 100.0, -1.0, 4.35, 0.3, 65504.5 };
            switch (g.r.below(8)) {
            case 0: v = L::max(); break;
            case 1: v = L::denorm_min(); break;
            case 2: v = L::min(); break;
            case 3: v = (T)some[g.r.below(sizeof some / sizeof some[0])]; break;
            case 4: v = (T)g.r.range(-1000, 1000); break;
            case 5: v = (T)(g.r.range(-100000, 100000) / 1000.0); break;
            default: {
                using U = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
                do { U u = (U)g.r.next(); std::memcpy(&v, &u, sizeof v); } while (!std::isfinite(v));
            }
            }
            if (g.themed()) {
                double b = (double)(std::int64_t)(g.near(2) & 0xFFFFFF) / ((g.theme & 1) ? 16.0 : 1000.0);
                v = (T)b;
                if (g.r.chance(40)) v = std::nextafter(v, g.r.chance(50) ? L::max() : -L::max());
                else if (g.r.chance(30)) v = std::trunc(v);
                else if (g.r.chance(20)) v *= 2;
            }
            if (g.r.chance(30)) v = -v;
            if (g.poison()) { int k = (int)g.r.below(g.in_set ? 2 : 3); v = k == 0 ? L::infinity() : k == 1 ? -L::infinity() : L::quiet_NaN(); }
            else if (g.in_set && v == 0) v = 0;
        }
        static void dump(const T& v, Dump& d) { double x = v; if (!std::isfinite(x)) d.bad++; u64 u; std::memcpy(&u, &x, 8); if (x != x) d.out += "nan"; else d.hex(u); }
        static void enc(const T& v, Enc& e)
        {
            char b[64];
            e.ws();
            int how = e.style ? (int)e.r.below(4) : 0;
            char* q = how == 1 ? std::to_chars(b, b + 63, (double)v, std::chars_format::scientific, 16).ptr
                : how == 2 && std::fabs((double)v) < 1e15 && std::fabs((double)v) >= 1e-5 ? std::to_chars(b, b + 63, (double)v, std::chars_format::fixed, 25).ptr
                : std::to_chars(b, b + 63, (double)v, std::chars_format::general, 17).ptr;
            *q = 0;
            e.out += b;
            if (!std::strpbrk(b, ".eE")) { if (how == 3 && std::fabs((double)v) < 16777216.0 && !(v == 0 && std::signbit(v))) {} else e.out += e.style && e.r.chance(20) ? "e0" : ".0"; }
            e.ws();
        }
        static void dec(const Json& j, T& v, Dec& c)
        {
            v = 0;
            if (!j.IsNumber()) { c.fault(); return; }
            double x = j.GetDouble();
            if (!std::isfinite(x)) { c.fault(); return; }       // too large for a double
            if (!j.IsDouble()) {
                c.int_for_float = true;
                if (c.sax && !(x > -16777216.0 && x < 16777216.0)) c.dontcare = true;
            }
            if constexpr (sizeof(T) == 4) {
                double m = (double)std::numeric_limits<float>::max();
                if (x > m || x < -m) { if (x < 3.4028236e38 && x > -3.4028236e38) c.dontcare = true; c.fault(); return; }
            }
            v = static_cast<T>(x);
        }
    };

    // ------------------------------------------------------------ strings, bytes, dates
    inline std::string gen_string(Gen& g, bool key = false)
    {
        std::string s;
        if (g.themed()) {        // strings that share a length, a prefix, a suffix or a sum
            Rng b(g.near(3)); int n = b.chance(40) ? b.range(1, 6) : b.chance(60) ? b.range(8, 16) : b.range(17, 60);
            for (int i = 0; i < n; ++i) s += (char)b.range('a', 'z');
            switch (g.r.below(8)) {
            case 0: s.back()++; break;
            case 1: s.front()++; break;
            case 2: s[s.size() / 2]++; break;
            case 3: s.pop_back(); break;
            case 4: s += (char)g.r.range('a', 'c'); break;
            case 5: std::swap(s.front(), s.back()); break;
            default: break;
            }
            return s;
        }
        static const char* const some[] = { "", "a", "~", "/", "~1", "a/b~c", "$ref", "0", "-", "#", "\"", "\\", "é", "\xe2\x82\xac", "\xf0\x9d\x84\x9e", "null", " x ", "longer than the small string buffer, certainly", "\x7f", "\xff\xfe" };
        switch (g.r.below(7)) {
        case 0: s = some[g.r.below(sizeof some / sizeof some[0])]; break;
        case 1: { int n = g.r.range(0, 40); for (int i = 0; i < n; ++i) s += (char)g.r.range(32, 126); break; }
        case 2: { int n = g.r.range(1, 12); for (int i = 0; i < n; ++i) s += (char)g.r.below(256); break; }
        case 3: { int n = g.r.range(14, 18); for (int i = 0; i < n; ++i) s += (char)g.r.range('a', 'z'); break; }
        case 4: { int n = g.r.range(1, 6); for (int i = 0; i < n; ++i) s += "\"\\/\b\f\n\r\t\0\x1f" "ab"[g.r.below(12)]; break; }
        default: { int n = g.r.range(1, 8); for (int i = 0; i < n; ++i) s += (char)g.r.range('a', 'z'); break; }
        }
        if (g.big && g.r.chance(g.big > 49000 ? 90 : 30)) { int n = g.big; g.big = 0; int c = g.r.range(0, 2); for (int i = 0; i < n; ++i) s += c == 0 ? (char)g.r.range(33, 122) : c == 1 ? (char)(97 + i % 26) : (char)(1 + i % 126); }
        else if (g.r.chance(key ? 1 : 3)) { int n = key ? g.r.range(240, 270) : g.r.range(60, 300); for (int i = 0; i < n; ++i) s += (char)g.r.range(33, 122); }
        return s;
    }
    template<> struct Spec<std::string>
    {
        static void gen(Gen& g, std::string& v) { v = gen_string(g); }
        static void dump(const std::string& v, Dump& d) { d.str(v); }
        static void enc(const std::string& v, Enc& e) { e.str(v); }
        static void dec(const Json& j, std::string& v, Dec& c) { v.clear(); if (j.IsString()) v.assign(j.GetString(), j.GetStringLength()); else c.fault(); }
    };

    using Bytes = std::vector<std::byte>;
    inline const char* b64_alphabet() { return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; }
    inline std::string b64(const Bytes& v)
    {
        std::string o; const char* al = b64_alphabet();
        for (size_t i = 0; i < v.size(); i += 3) {
            unsigned n = (unsigned)v[i] << 16; size_t k = v.size() - i;
            if (k > 1) n |= (unsigned)v[i + 1] << 8;
            if (k > 2) n |= (unsigned)v[i + 2];
            o += al[n >> 18]; o += al[(n >> 12) & 63]; o += k > 1 ? al[(n >> 6) & 63] : '='; o += k > 2 ? al[n & 63] : '=';
        }
        return o;
    }
    // 1 valid, 0 invalid, 2 valid except for stray bits in the last character
    inline int unb64(std::string_view s, Bytes& v)
    {
        v.clear();
        if (s.size() % 4) return 0;
        size_t n = s.size(); unsigned acc = 0; int bits = 0;
        size_t pad = 0; if (n && s[n - 1] == '=') { pad = 1; if (s[n - 2] == '=') pad = 2; }
        for (size_t i = 0; i < n - pad; ++i) {
            const char* p = s[i] ? std::strchr(b64_alphabet(), s[i]) : nullptr;
            if (!p) return 0;
            acc = (acc << 6) | (unsigned)(p - b64_alphabet()); bits += 6;
            if (bits >= 8) { bits -= 8; v.push_back((std::byte)((acc >> bits) & 255)); acc &= (1u << bits) - 1; }
        }
        return acc ? 2 : 1;
    }
    template<> struct Spec<Bytes>
    {
        static void gen(Gen& g, Bytes& v) { v.clear(); if (g.themed()) { Rng b(g.near(4)); int m = b.chance(50) ? b.range(1, 6) : b.range(7, 40); for (int i = 0; i < m; ++i) v.push_back((std::byte)b.below(256)); if (g.r.chance(60)) v[g.r.chance(30) ? 0 : g.r.chance(50) ? v.size() - 1 : g.r.below(v.size())] ^= (std::byte)(1 << g.r.below(8)); else if (g.r.chance(30)) v.pop_back(); return; } int n = g.r.chance(25) ? g.r.range(0, 80) : g.r.range(0, 14); if (g.big && g.r.chance(g.big > 49000 ? 90 : 50)) { n = g.big; g.big = 0; } for (int i = 0; i < n; ++i) v.push_back((std::byte)g.r.below(256)); if (g.r.chance(20)) v.shrink_to_fit(); }
        static void dump(const Bytes& v, Dump& d) { d.out += 'b'; d.num((long long)v.size()); for (auto b : v) { d.out += "0123456789abcdef"[(int)b >> 4]; d.out += "0123456789abcdef"[(int)b & 15]; } }
        static void enc(const Bytes& v, Enc& e) { e.str(b64(v)); }
        static void dec(const Json& j, Bytes& v, Dec& c) { v.clear(); if (!j.IsString()) { c.fault(); return; } int k = unb64(std::string_view(j.GetString(), j.GetStringLength()), v); if (k == 0) c.fault(); if (k == 2) c.dontcare = true; }
    };

    inline long long days_of(int y, int m, int d) { long long Y = y - (m <= 2); long long era = (Y >= 0 ? Y : Y - 399) / 400; long long yoe = Y - era * 400; long long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; long long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
    inline void civil_of(long long z, int& y, int& m, int& d) { z += 719468; long long era = (z >= 0 ? z : z - 146096) / 146097; long long doe = z - era * 146097; long long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long long doy = doe - (365 * yoe + yoe / 4 - yoe / 100); long long mp = (5 * doy + 2) / 153; d = (int)(doy - (153 * mp + 2) / 5 + 1); m = (int)(mp < 10 ? mp + 3 : mp - 9); y = (int)(yoe + era * 400 + (m <= 2)); }
    inline bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
    inline int month_days(int y, int m) { static const int n[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap(y) ? 29 : n[m - 1]; }
    inline void put2(std::string& o, int v) { o += (char)('0' + v / 10); o += (char)('0' + v % 10); }
    inline void put4(std::string& o, int v) { put2(o, v / 100); put2(o, v % 100); }
    inline bool digits(std::string_view s, size_t at, size_t n, int& v) { v = 0; for (size_t i = 0; i < n; ++i) { char c = s[at + i]; if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); } return true; }
    inline bool date_fields(std::string_view s, int& y, int& m, int& d) { return s.size() >= 10 && s[4] == '-' && s[7] == '-' && digits(s, 0, 4, y) && digits(s, 5, 2, m) && digits(s, 8, 2, d) && m >= 1 && m <= 12 && d >= 1 && d <= month_days(y, m); }

    // puts a value at or beyond its limit into a field of one of the dates in a text
    inline bool edge_date(std::string& s, Rng& r)
    {
        std::vector<size_t> at; int y, m, d;
        for (size_t i = 0; i + 10 <= s.size(); ++i) if (s[i + 4] == '-' && s[i + 7] == '-' && digits(s, i, 4, y) && digits(s, i + 5, 2, m) && digits(s, i + 8, 2, d)) at.push_back(i);
        if (at.empty()) return false;
        size_t i = at[r.below(at.size())]; bool time = i + 20 <= s.size() && s[i + 13] == ':';
        static const char* const years[] = { "0000", "1677", "1678", "2262", "2263", "9999", "1900", "2100", "2000", "2001", "1600" };
        static const char* const months[] = { "00", "01", "12", "13", "02", "04" };
        static const char* const days[] = { "00", "01", "28", "29", "30", "31", "32" };
        static const char* const sixty[] = { "00", "59", "60", "61" };
        static const char* const hours[] = { "00", "23", "24", "25" };
        int n = 1 + (int)r.below(2);
        while (n--) switch (r.below(time ? 7 : 4)) {
        case 0: s.replace(i, 4, years[r.below(11)]); break;
        case 1: s.replace(i + 5, 2, months[r.below(6)]); break;
        case 2: s.replace(i + 8, 2, days[r.below(7)]); break;
        case 3: s.replace(i, 10, std::string(years[5 + r.below(6)]) + (r.chance(70) ? "-02-" : "-06-") + days[2 + r.below(4)]); break;
        case 4: s.replace(i + 11, 2, hours[r.below(4)]); break;
        case 5: s.replace(i + 14, 2, sixty[r.below(4)]); break;
        default: s.replace(i + 17, 2, sixty[r.below(4)]); break;
        }
        return true;
    }
    using Timestamp = std::chrono::time_point<std::chrono::system_clock>;
    inline std::string iso_of(long long sec) { long long z = sec >= 0 ? sec / 86400 : -((-sec + 86399) / 86400); int r = (int)(sec - z * 86400); int y, m, d; civil_of(z, y, m, d); std::string o; put4(o, y); o += '-'; put2(o, m); o += '-'; put2(o, d); o += 'T'; put2(o, r / 3600); o += ':'; put2(o, r / 60 % 60); o += ':'; put2(o, r % 60); o += 'Z'; return o; }
    // 1 valid, 0 invalid, 2 uses a blank instead of T
    inline int parse_iso(std::string_view s, long long& sec)
    {
        int y, m, d, h, mi, se;
        if (s.size() != 20 || !date_fields(s, y, m, d) || (s[10] != 'T' && s[10] != ' ') || s[13] != ':' || s[16] != ':' || s[19] != 'Z') return 0;
        if (!digits(s, 11, 2, h) || !digits(s, 14, 2, mi) || !digits(s, 17, 2, se) || h > 23 || mi > 59 || se > 59) return 0;
        sec = days_of(y, m, d) * 86400 + h * 3600 + mi * 60 + se;
        return s[10] == ' ' ? 2 : 1;
    }
    inline long long gen_seconds(Gen& g)
    {
        static const long long some[] = { 0, -1, 1, 951782400, 951868799, -2203891200ll, 4107542400ll, 1709164800, 1711846800, 1698541200, 86399, -86400, 9223286400ll, -9223286400ll, 253402300799ll };
        if (g.themed()) { long long v = g.theme & 1 ? some[g.theme / 2 % 14] : (long long)(g.near(5) % 18000000000ull) - 9000000000ll; v += g.r.chance(60) ? g.r.range(-90000, 90000) : 86400 * (long long)g.r.range(-40, 40); return std::clamp(v, -9223286400ll, 9223372000ll); }
        switch (g.r.below(4)) {
        case 0: { long long v = some[g.r.below(14)]; return v; }
        case 1: { int y = g.r.range(1678, 2261), m = g.r.range(1, 12); int d = g.r.chance(50) ? month_days(y, m) : 1; return days_of(y, m, d) * 86400 + (g.r.chance(50) ? 86399 : (long long)g.r.below(86400)); }
        default: return (long long)(g.r.below(18446572800ull)) - 9223286400ll;
        }
    }
    template<> struct Spec<Timestamp>
    {
        static void gen(Gen& g, Timestamp& v) { v = Timestamp(std::chrono::seconds(gen_seconds(g))); }
        static void dump(const Timestamp& v, Dump& d) { d.out += '@'; d.num((long long)v.time_since_epoch().count()); }
        static void enc(const Timestamp& v, Enc& e) { e.str(iso_of(std::chrono::duration_cast<std::chrono::seconds>(v.time_since_epoch()).count())); }
        static void dec(const Json& j, Timestamp& v, Dec& c)
        {
            v = Timestamp();
            long long sec = 0;
            if (!j.IsString() || !parse_iso(std::string_view(j.GetString(), j.GetStringLength()), sec)) { c.fault(); return; }
            if (sec > 9223372036ll || sec < -9223372036ll) { if (sec < 9223372038ll && sec > -9223372038ll) c.dontcare = true; c.fault(); return; }
            v = Timestamp(std::chrono::seconds(sec));
        }
    };
    using Ymd = std::chrono::year_month_day;
    template<> struct Spec<Ymd>
    {
        static Ymd make(int y, int m, int d) { return Ymd(std::chrono::year(y), std::chrono::month((unsigned)m), std::chrono::day((unsigned)d)); }
        static void gen(Gen& g, Ymd& v)
        {
            static const int edge[] = { 0, 9999, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 5, 50, 500, 1900, 1970, 2000 };
            int y = g.r.chance(30) ? edge[g.r.below(18)] : g.r.chance(30) ? 4 * g.r.range(0, 2499) : g.r.range(0, 9999); int m = g.r.chance(30) ? 2 : g.r.range(1, 12); int d = g.r.chance(30) ? month_days(y, m) : g.r.range(1, month_days(y, m));
            if (g.poison()) { y = g.r.chance(50) ? -(g.r.chance(30) ? 1 : g.r.range(1, 30000)) : g.r.chance(30) ? 10000 : g.r.range(10000, 32000); d = g.r.range(1, 28); }
            v = make(y, m, d);
        }
        static void dump(const Ymd& v, Dump& d) { if ((int)v.year() < 0 || (int)v.year() > 9999) d.bad++; d.out += 'y'; d.num((int)v.year()); d.out += '-'; d.num((unsigned)v.month()); d.out += '-'; d.num((unsigned)v.day()); }
        static void enc(const Ymd& v, Enc& e) { std::string o; put4(o, (int)v.year()); o += '-'; put2(o, (int)(unsigned)v.month()); o += '-'; put2(o, (int)(unsigned)v.day()); e.str(o); }
        static void dec(const Json& j, Ymd& v, Dec& c)
        {
            v = Ymd(); int y, m, d;
            if (!j.IsString() || j.GetStringLength() != 10 || !date_fields(std::string_view(j.GetString(), 10), y, m, d)) { c.fault(); return; }
            v = make(y, m, d);
        }
    };

    // ------------------------------------------------------------ sequences
    template<typename T> struct Item
    {
        static void dec(const Json& j, T& v, Dec& c, std::string seg) { c.path.push_back(std::move(seg)); Spec<T>::dec(j, v, c); c.path.pop_back(); }
        static void enc(const T& v, Enc& e, std::string seg) { e.path.push_back(std::move(seg)); Spec<T>::enc(v, e); e.path.pop_back(); }
    };
    inline std::string seg(size_t i) { Dump d; d.num((long long)i); return d.out; }

    template<typename T> struct Spec<std::vector<T>>
    {
        static void gen(Gen& g, std::vector<T>& v) { v.clear(); g.depth++; int n = g.count(6, g.depth == 1 && (std::is_arithmetic_v<T> || requires { typename T::element_type::cheap; })); for (int i = 0; i < n; ++i) { v.emplace_back(); Spec<T>::gen(g, v.back()); } g.depth--; }
        static void dump(const std::vector<T>& v, Dump& d) { d.out += '['; for (auto& x : v) { Spec<T>::dump(x, d); d.out += ','; } d.out += ']'; }
        static void enc(const std::vector<T>& v, Enc& e) { e.raw("["); size_t i = 0; for (auto& x : v) { if (i) e.raw(","); Item<T>::enc(x, e, seg(i)); ++i; } e.raw("]"); }
        static void dec(const Json& j, std::vector<T>& v, Dec& c) { v.clear(); if (!j.IsArray()) { c.fault(); return; } size_t i = 0; for (auto& x : j.GetArray()) { v.emplace_back(); Item<T>::dec(x, v.back(), c, seg(i++)); } }
    };
    template<> struct Spec<std::vector<bool>>
    {
        static void gen(Gen& g, std::vector<bool>& v) { v.clear(); g.depth++; int n = g.count(); for (int i = 0; i < n; ++i) v.push_back(g.r.chance(50)); g.depth--; }
        static void dump(const std::vector<bool>& v, Dump& d) { d.out += '['; for (bool x : v) { Spec<bool>::dump(x, d); d.out += ','; } d.out += ']'; }
        static void enc(const std::vector<bool>& v, Enc& e) { e.raw("["); size_t i = 0; for (bool x : v) { if (i++) e.raw(","); Spec<bool>::enc(x, e); } e.raw("]"); }
        static void dec(const Json& j, std::vector<bool>& v, Dec& c) { v.clear(); if (!j.IsArray()) { c.fault(); return; } size_t i = 0; for (auto& x : j.GetArray()) { bool b = false; Item<bool>::dec(x, b, c, seg(i++)); v.push_back(b); } }
    };
    template<typename T> struct Spec<std::set<T>>
    {
        static void gen(Gen& g, std::set<T>& v) { v.clear(); g.depth++; g.in_set++; int n = g.count(); for (int i = 0; i < n; ++i) { T x{}; Spec<T>::gen(g, x); v.insert(std::move(x)); } g.in_set--; g.depth--; }
        static void dump(const std::set<T>& v, Dump& d)
        {
            // order by content, so that sets ordered by address render alike
            std::multimap<std::string, const T*> m;
            for (auto& x : v) m.emplace(dump_of(x, false), &x);
            d.out += '<'; for (auto& x : m) { if constexpr (requires { typename T::no_pointers; }) d.out += x.first; else Spec<T>::dump(*x.second, d); d.out += ','; } d.out += '>';
        }
        static void enc(const std::set<T>& v, Enc& e) { e.raw("["); size_t i = 0; for (auto& x : v) { if (i) e.raw(","); Item<T>::enc(x, e, seg(i)); ++i; } e.raw("]"); }
        static void dec(const Json& j, std::set<T>& v, Dec& c) { v.clear(); if (!j.IsArray()) { c.fault(); return; } size_t i = 0; for (auto& x : j.GetArray()) { T t{}; Item<T>::dec(x, t, c, seg(i++)); v.insert(std::move(t)); }
            if constexpr (requires(T& p) { p.use_count(); }) { std::set<std::string> seen; for (auto& x : v) if (x && !seen.insert(dump_of(x, false)).second) c.dontcare = true; }   // alike objects in an order that depends on addresses
        }
    };
    template<typename T, size_t N> struct Spec<std::array<T, N>>
    {
        static void gen(Gen& g, std::array<T, N>& v) { for (auto& x : v) Spec<T>::gen(g, x); }
        static void dump(const std::array<T, N>& v, Dump& d) { d.out += "a["; for (auto& x : v) { Spec<T>::dump(x, d); d.out += ','; } d.out += ']'; }
        static void enc(const std::array<T, N>& v, Enc& e) { e.raw("["); size_t i = 0; for (auto& x : v) { if (i) e.raw(","); Item<T>::enc(x, e, seg(i)); ++i; } e.raw("]"); }
        static void dec(const Json& j, std::array<T, N>& v, Dec& c)
        {
            if (!j.IsArray()) { c.fault(); return; }
            if (j.Size() != N) c.fault();
            for (rapidjson::SizeType i = 0; i < j.Size() && i < N; ++i) Item<T>::dec(j[i], v[i], c, seg(i));
        }
    };
    template<typename C, size_t... I> struct TupleSpec
    {
        template<size_t K> using E = std::tuple_element_t<K, C>;
        static void gen(Gen& g, C& v) { (Spec<E<I>>::gen(g, std::get<I>(v)), ...); }
        static void dump(const C& v, Dump& d) { d.out += '('; ((Spec<E<I>>::dump(std::get<I>(v), d), d.out += ','), ...); d.out += ')'; }
        static void enc(const C& v, Enc& e) { e.raw("["); ((I ? e.raw(",") : void(), Item<E<I>>::enc(std::get<I>(v), e, seg(I))), ...); e.raw("]"); }
        static void dec(const Json& j, C& v, Dec& c)
        {
            if (!j.IsArray()) { c.fault(); return; }
            if (j.Size() != sizeof...(I)) c.fault();
            ((I < j.Size() ? Item<E<I>>::dec(j[(rapidjson::SizeType)I], std::get<I>(v), c, seg(I)) : void()), ...);
        }
    };
    template<typename C, typename S> struct TupleOf;
    template<typename C, size_t... I> struct TupleOf<C, std::index_sequence<I...>> : TupleSpec<C, I...> {};
    template<typename A, typename B> struct Spec<std::pair<A, B>> : TupleOf<std::pair<A, B>, std::make_index_sequence<2>> {};
    template<typename... Ts> struct Spec<std::tuple<Ts...>> : TupleOf<std::tuple<Ts...>, std::make_index_sequence<sizeof...(Ts)>> {};

    // ------------------------------------------------------------ dictionaries
    template<typename M> struct MapSpec
    {
        using V = typename M::mapped_type;
        static void gen(Gen& g, M& v) { v.clear(); g.depth++; int n = g.count(); for (int i = 0; i < n; ++i) { auto k = gen_string(g, true); if (k == "$ref") k = "$re"; Spec<V>::gen(g, v[k]); } g.depth--; }
        static void dump(const M& v, Dump& d) { std::map<std::string_view, const V*> m; for (auto& x : v) m.emplace(x.first, &x.second); d.out += '{'; d.num((long long)v.size()); for (auto& x : m) { d.str(x.first); d.out += ':'; Spec<V>::dump(*x.second, d); d.out += ','; } d.out += '}'; }
        static void enc(const M& v, Enc& e) { e.raw("{"); bool first = true; for (auto& x : v) { if (!first) e.raw(","); first = false; e.str(x.first, true); e.raw(":"); Item<V>::enc(x.second, e, x.first); } e.raw("}"); }
        static void dec(const Json& j, M& v, Dec& c) { v.clear(); if (!j.IsObject()) { c.fault(); return; } for (auto& x : j.GetObject()) { std::string k(x.name.GetString(), x.name.GetStringLength()); Item<V>::dec(x.value, v[k], c, k); } }
    };
    template<typename T> struct Spec<std::map<std::string, T>> : MapSpec<std::map<std::string, T>> {};
    template<typename T> struct Spec<std::unordered_map<std::string, T>> : MapSpec<std::unordered_map<std::string, T>> {};

    // a sequence of names and values: a JSON object in the order of the sequence
    template<typename T> struct Spec<std::vector<std::pair<std::string, T>>>
    {
        using M = std::vector<std::pair<std::string, T>>;
        static void gen(Gen& g, M& v) { v.clear(); g.depth++; int n = g.count(); std::set<std::string> used; for (int i = 0; i < n; ++i) { auto k = gen_string(g, true); if (k == "$ref") k = "$re"; if (!used.insert(k).second) continue; v.emplace_back(); v.back().first = k; Spec<T>::gen(g, v.back().second); } g.depth--; }
        static void dump(const M& v, Dump& d) { d.out += "d{"; for (auto& x : v) { d.str(x.first); d.out += ':'; Spec<T>::dump(x.second, d); d.out += ','; } d.out += '}'; }
        static void enc(const M& v, Enc& e) { e.raw("{"); bool first = true; for (auto& x : v) { if (!first) e.raw(","); first = false; e.str(x.first, true); e.raw(":"); Item<T>::enc(x.second, e, x.first); } e.raw("}"); }
        static void dec(const Json& j, M& v, Dec& c) { v.clear(); if (!j.IsObject()) { c.fault(); return; } for (auto& x : j.GetObject()) { std::string k(x.name.GetString(), x.name.GetStringLength()); v.emplace_back(); v.back().first = k; Item<T>::dec(x.value, v.back().second, c, k); } }
    };

    // ------------------------------------------------------------ types that can be written only; they refer to constants
    inline const std::string_view (&literals())[12] { static constexpr std::string_view t[12] = { "", "a", "a/b", "m~n", "name", std::string_view("x\0y", 3), "\xe2\x82\xac", "\"quoted\" \\ and \x01", "longer than the small string buffer", "0", " ", "z\x1f" }; return t; }
    inline std::string_view literal_of(std::string_view s) { for (auto& x : literals()) if (x == s) return x; return std::string_view(nullptr, 0); }
    template<> struct Spec<std::string_view>
    {
        static void gen(Gen& g, std::string_view& v) { v = g.r.chance(5) ? std::string_view() : literals()[g.r.below(12)]; }
        static void dump(const std::string_view& v, Dump& d) { d.str(v); }
        static void enc(const std::string_view& v, Enc& e) { e.str(v); }
        static void dec(const Json& j, std::string_view& v, Dec& c) { v = std::string_view(); if (j.IsString()) { v = literal_of(std::string_view(j.GetString(), j.GetStringLength())); if (v.data()) return; } c.fault(); }
    };
    template<typename M> struct LiteralMapSpec
    {
        using V = typename M::value_type::second_type;
        static void gen(Gen& g, M& v) { v.clear(); g.depth++; int n = g.count(); for (int i = 0; i < n; ++i) { auto k = literals()[g.r.below(12)]; V x{}; Spec<V>::gen(g, x); bool have = false; for (auto& y : v) if (y.first == k) have = true; if (!have) v.insert(v.end(), typename M::value_type(k, std::move(x))); } g.depth--; }
        static void dump(const M& v, Dump& d) { std::map<std::string_view, const V*> m; for (auto& x : v) m.emplace(x.first, &x.second); d.out += '{'; d.num((long long)v.size()); for (auto& x : m) { d.str(x.first); d.out += ':'; Spec<V>::dump(*x.second, d); d.out += ','; } d.out += '}'; }
        static void enc(const M& v, Enc& e) { e.raw("{"); bool first = true; for (auto& x : v) { if (!first) e.raw(","); first = false; e.str(x.first, true); e.raw(":"); Item<V>::enc(x.second, e, std::string(x.first)); } e.raw("}"); }
        static void dec(const Json& j, M& v, Dec& c)
        {
            v.clear(); if (!j.IsObject()) { c.fault(); return; }
            for (auto& x : j.GetObject()) { auto k = literal_of(std::string_view(x.name.GetString(), x.name.GetStringLength())); if (!k.data()) { c.fault(); continue; } V y{}; Item<V>::dec(x.value, y, c, std::string(k)); v.insert(v.end(), typename M::value_type(k, std::move(y))); }
        }
    };
    template<typename T> struct Spec<std::vector<std::pair<std::string_view, T>>> : LiteralMapSpec<std::vector<std::pair<std::string_view, T>>> {};
    template<typename T> struct Spec<std::map<std::string_view, T>> : LiteralMapSpec<std::map<std::string_view, T>> {};
    template<typename T> struct Spec<std::unordered_map<std::string_view, T>> : LiteralMapSpec<std::unordered_map<std::string_view, T>> {};
    template<typename T> struct Spec<T*>    // T::pool() has a few constant objects
    {
        using P = T*;
        static void gen(Gen& g, P& v) { v = &T::pool()[g.r.below(4)]; if (g.poison()) v = nullptr; }
        static void dump(const P& v, Dump& d) { if (!v) { d.bad++; d.out += "null"; return; } d.out += '^'; Spec<std::remove_const_t<T>>::dump(*v, d); }
        static void enc(const P& v, Enc& e) { Spec<std::remove_const_t<T>>::enc(*v, e); }
        static void dec(const Json& j, P& v, Dec& c) { v = nullptr; std::remove_const_t<T> x; size_t n = c.faults.size(); Spec<std::remove_const_t<T>>::dec(j, x, c); if (c.faults.size() != n) return; std::string s = dump_of(x, false); for (size_t i = 0; i < 4; ++i) if (dump_of(T::pool()[i], false) == s) { v = &T::pool()[i]; return; } c.fault(); }
    };

    // ------------------------------------------------------------ pointers and alternatives
    template<typename T> struct Spec<std::unique_ptr<T>>
    {
        static void gen(Gen& g, std::unique_ptr<T>& v) { v = std::make_unique<T>(); Spec<T>::gen(g, *v); if (g.poison()) v.reset(); }
        static void dump(const std::unique_ptr<T>& v, Dump& d) { if (!v) { d.bad++; d.out += "null"; return; } d.out += '^'; Spec<T>::dump(*v, d); }
        static void enc(const std::unique_ptr<T>& v, Enc& e) { Spec<T>::enc(*v, e); }
        static void dec(const Json& j, std::unique_ptr<T>& v, Dec& c) { v = std::make_unique<T>(); Spec<T>::dec(j, *v, c); }
    };
    /** RFC 6901 */
    inline const Json* resolve(const Json& root, std::string_view path)
    {
        const Json* v = &root;
        while (!path.empty()) {
            if (path[0] != '/') return nullptr;
            size_t end = path.find('/', 1);
            std::string_view raw = path.substr(1, end == path.npos ? end : end - 1);
            path = end == path.npos ? std::string_view() : path.substr(end);
            std::string name;
            for (size_t k = 0; k < raw.size(); k++) {
                if (raw[k] != '~') { name += raw[k]; continue; }
                if (++k == raw.size() || (raw[k] != '0' && raw[k] != '1')) return nullptr;
                name += raw[k] == '0' ? '~' : '/';
            }
            if (v->IsObject()) {
                const Json* next = nullptr;
                for (auto it = v->MemberBegin(); it != v->MemberEnd() && !next; ++it)
                    if (std::string_view(it->name.GetString(), it->name.GetStringLength()) == name) next = &it->value;
                if (!next) return nullptr;
                v = next;
            } else if (v->IsArray()) {
                if (name.empty() || name.size() > 9 || (name.size() > 1 && name[0] == '0') || name.find_first_not_of("0123456789") != name.npos) return nullptr;
                size_t k = 0; for (char ch : name) k = k * 10 + (size_t)(ch - '0');
                if (k >= v->Size()) return nullptr;
                v = &(*v)[(rapidjson::SizeType)k];
            } else return nullptr;
        }
        return v;
    }
    template<typename T> struct Spec<std::shared_ptr<T>>
    {
        static void gen(Gen& g, std::shared_ptr<T>& v)
        {
            bool want = g.r.chance(45); u64 which = g.r.next();
            auto& p = g.pool[typeid(T)];
            if (g.share && want && !p.empty()) { v = std::static_pointer_cast<T>(which >> 62 ? p[which % p.size()] : p[p.size() - 1 - which % std::min<size_t>(p.size(), 8)]); rt_count(P_SHARED_SRC, 1); return; }
            v = std::make_shared<T>(); Spec<T>::gen(g, *v);
            if (g.poison()) v.reset(); else g.pool[typeid(T)].push_back(v);
        }
        static void dump(const std::shared_ptr<T>& v, Dump& d)
        {
            if (!v) { d.bad++; d.out += "null"; return; }
            if (d.seen) d.seen->insert(v.get());
            if (d.identity) {
                auto it = d.ids.find({ v.get(), typeid(T) });
                if (it != d.ids.end()) { d.out += '#'; d.num(it->second); return; }
            }
            d.out += '*';
            Spec<T>::dump(*v, d);
            if (d.identity) { int k = (int)d.ids.size(); d.ids.emplace(std::make_pair((const void*)v.get(), std::type_index(typeid(T))), k); d.out += '='; d.num(k); }
        }
        static void enc(const std::shared_ptr<T>& v, Enc& e)
        {
            auto key = std::make_pair((const void*)v.get(), std::type_index(typeid(T)));
            auto it = e.known.find(key);
            if (e.refs && it != e.known.end()) { e.raw("{"); e.str("$ref", true); e.raw(":"); e.str(it->second); e.raw("}"); return; }
            Spec<T>::enc(*v, e);
            e.known.emplace(key, e.pointer());
        }
        static void dec(const Json& j, std::shared_ptr<T>& v, Dec& c)
        {
            if (!c.sax && j.IsObject()) {
                auto it = j.FindMember("$ref");
                if (it != j.MemberEnd()) {
                    c.has_ref = true;
                    if (c.strict && j.MemberCount() != 1) c.fault();
                    v.reset();
                    if (it->value.IsString()) {
                        std::string_view path(it->value.GetString(), it->value.GetStringLength());
                        if (!path.empty() && path[0] == '#') c.dontcare = true;   // URI fragment form: not specified
                        const Json* t = resolve(*c.root, path);
                        if (t) { auto o = c.objects.find({ t, std::type_index(typeid(T)) }); if (o != c.objects.end()) v = std::static_pointer_cast<T>(o->second); }
                    }
                    if (!v) { c.fault_at("$ref"); rt_count(P_REF_REFUSED, 1); } else rt_count(P_REF_READ, 1);
                    return;
                }
            }
            v = std::make_shared<T>();
            size_t before = c.faults.size();
            Spec<T>::dec(j, *v, c);
            if (c.faults.size() == before && c.objects.emplace(std::make_pair(&j, std::type_index(typeid(T))), v).second) c.made.emplace_back(&j, std::type_index(typeid(T)));
        }
    };
    template<typename V> constexpr bool overlapping = false;   // later alternatives accept what an earlier one does
    struct Bomb { template<typename T> operator T() const { throw 1; } };
    template<typename... Ts> struct Spec<std::variant<Ts...>>
    {
        using V = std::variant<Ts...>;
        template<size_t I> static void gen_i(Gen& g, V& v, size_t k) { if constexpr (I < sizeof...(Ts)) { if (k == I) { v.template emplace<I>(); Spec<std::tuple_element_t<I, std::tuple<Ts...>>>::gen(g, std::get<I>(v)); } else gen_i<I + 1>(g, v, k); } }
        template<size_t I> static void lose_i(V& v) { if constexpr (I < sizeof...(Ts)) { if constexpr (requires { v.template emplace<I>(Bomb()); }) { try { v.template emplace<I>(Bomb()); } catch (int) {} } if (!v.valueless_by_exception()) lose_i<I + 1>(v); } }
        static void gen(Gen& g, V& v)
        {
            gen_i<0>(g, v, overlapping<V> ? 0 : g.r.below(sizeof...(Ts)));
            if (!g.in_set && g.poison()) lose_i<0>(v);       // a variant without a value
        }
        static void dump(const V& v, Dump& d) { d.out += '|'; if (v.valueless_by_exception()) { d.out += "valueless"; d.bad++; return; } d.num((long long)v.index()); std::visit([&](auto& x) { Spec<std::decay_t<decltype(x)>>::dump(x, d); }, v); }
        static void enc(const V& v, Enc& e) { std::visit([&](auto& x) { Spec<std::decay_t<decltype(x)>>::enc(x, e); }, v); }
        template<typename T> static bool one(const Json& j, V& v, Dec& c) { Dec s; s.sax = c.sax; s.strict = c.strict; s.root = c.root; s.path = c.path; s.objects.swap(c.objects); T x{}; Spec<T>::dec(j, x, s); c.objects.swap(s.objects); c.dontcare |= s.dontcare; c.unknown |= s.unknown; c.int_for_float |= s.int_for_float; c.has_ref |= s.has_ref; if (!s.faults.empty()) { for (auto& k : s.made) c.objects.erase(k); return false; } c.made.insert(c.made.end(), s.made.begin(), s.made.end()); v = std::move(x); return true; }
        static void dec(const Json& j, V& v, Dec& c) { c.has_variant = true; if (!(... || one<Ts>(j, v, c))) c.fault(); }
    };
    template<typename T> struct Spec<std::optional<T>>   // members only
    {
        static void gen(Gen& g, std::optional<T>& v) { if (g.depth < 12 && g.budget > 0 && g.r.chance(60)) { g.depth++; g.budget--; v.emplace(); Spec<T>::gen(g, *v); g.depth--; } else v.reset(); }
        static void dump(const std::optional<T>& v, Dump& d) { if (v) { d.out += '?'; Spec<T>::dump(*v, d); } else d.out += "none"; }
    };

    // ------------------------------------------------------------ classes: T::fields(object, f) calls f(name, member, has_default)
    struct FieldProbe { template<typename M> void operator()(std::string_view, M&, bool = false) {} };
    template<typename T> concept HasFields = requires(T & t, FieldProbe p) { T::fields(t, p); };
    template<typename T> struct is_optional : std::false_type {};
    template<typename T> struct is_optional<std::optional<T>> : std::true_type {};

    template<typename T> struct Spec<T, std::enable_if_t<HasFields<T>>>
    {
        static void gen(Gen& g, T& v) { g.depth++; T::fields(v, [&](std::string_view, auto& m, bool = false) { Spec<std::decay_t<decltype(m)>>::gen(g, m); }); g.depth--; if constexpr (requires { v.serial; }) v.serial = ++g.serial; if constexpr (requires { v.entwine(g); }) v.entwine(g); if constexpr (requires { v.deepen(); }) if (g.depth < 2 && g.levels > 0 && g.r.chance(35)) { int n = g.r.chance(50) ? g.r.range(10, 60) : g.r.range(20, 150); g.levels -= n; T* at = &v; while (n--) { at->deepen(); at = &at->below(); Spec<int>::gen(g, at->v); } } }
        static void dump(const T& v, Dump& d) { d.out += '{'; T::fields(v, [&](std::string_view n, auto& m, bool = false) { d.out += n; d.out += '='; Spec<std::decay_t<decltype(m)>>::dump(m, d); d.out += ';'; }); d.out += '}'; }
        static void enc(const T& v, Enc& e)
        {
            // each member is rendered in declaration order (so that references point backwards), then possibly laid out in another order
            std::vector<std::string> parts;
            std::string save = std::move(e.out);
            T::fields(v, [&](std::string_view n, auto& m, bool = false) {
                using M = std::decay_t<decltype(m)>;
                e.out.clear();
                if constexpr (is_optional<M>::value) { if (!m) return; e.str(n, true); e.raw(":"); Item<typename M::value_type>::enc(*m, e, std::string(n)); }
                else { e.str(n, true); e.raw(":"); Item<M>::enc(m, e, std::string(n)); }
                parts.push_back(std::move(e.out));
            });
            e.out = std::move(save);
            if (e.style && e.r.chance(40)) for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[e.r.below(i)]);
            e.raw("{"); for (size_t i = 0; i < parts.size(); ++i) { if (i) e.raw(","); e.out += parts[i]; } e.raw("}");
        }
        static void dec(const Json& j, T& v, Dec& c)
        {
            if (!j.IsObject()) { c.fault(); return; }
            std::vector<std::string_view> names;
            T::fields(v, [&](std::string_view n, auto& m, bool has_default = false) {
                using M = std::decay_t<decltype(m)>;
                names.push_back(n);
                const Json* x = nullptr;
                for (auto& k : j.GetObject()) if (std::string_view(k.name.GetString(), k.name.GetStringLength()) == n) { x = &k.value; break; }
                if constexpr (is_optional<M>::value) { m.reset(); if (x) { m.emplace(); Item<typename M::value_type>::dec(*x, *m, c, std::string(n)); } }
                else if (x) Item<M>::dec(*x, m, c, std::string(n));
                else if (!has_default) c.fault();
            });
            for (auto& k : j.GetObject()) {
                std::string_view n(k.name.GetString(), k.name.GetStringLength());
                bool known = false; for (auto& x : names) if (x == n) known = true;
                if (!known) { c.unknown = true; if (c.sax || c.strict) c.fault(); }
            }
        }
    };
}
