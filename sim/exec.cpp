// Executes a plan inside the simulator and checks every operation against the reference model. Not instrumented.
#include <charconv>
#include "plan.hpp"
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <locale>

namespace sim
{
    // ---------------------------------------------------------------- user code
    HookCtl hook_ctl[RT_MAXT];
    bool hook(unsigned site)
    {
        int w = rt_window_leave();
        if (!w) return true;
        HookCtl& h = hook_ctl[rt_tid()];
        bool ok = true;
        bool counts = (h.mask & site) && !h.fired && !(h.action == A_FALSE && !(site & (H_FROM_STRING | H_EXT)));
        if (counts && ++h.seen == h.fire_at) {
            h.fired = true;
            rt_hash(0x400C + h.seen);
            switch (h.action) {
            case A_FALSE: rt_count(F_HOOK_FALSE, 1); ok = false; break;
            case A_THROW:
                rt_count(F_HOOK_THROW, 1);
                switch (h.payload / 5 % 4) {
                case 0: { rt_window_enter(w); throw HookError{ h.payload }; }
                case 1: { HookStd e(h.payload); rt_window_enter(w); throw e; }
                case 2: { HookRun e(h.payload); rt_window_enter(w); throw e; }
                default: { HookAlloc e(h.payload); rt_window_enter(w); throw e; }
                }
            case A_NEST: rt_count(F_HOOK_NEST, 1); if (h.nest) h.nest(h.nest_arg); break;
            }
        }
        rt_window_enter(w);
        rt_hot();
        return ok;
    }

    // life cycle of user objects: a fixed table, no allocation
    enum { NTRACK = 1 << 16 };
    static const void* g_track[NTRACK]; static long g_tracked;
    static unsigned track_slot(const void* p) { return (unsigned)(((u64)p >> 3) * 0x9E3779B97F4A7C15ull >> 48); }
    static int track_find(const void* p) { for (unsigned i = track_slot(p), n = 0; n < NTRACK; ++n, i = (i + 1) & (NTRACK - 1)) { if (g_track[i] == p) return (int)i; if (!g_track[i]) return -1; } return -1; }
    static const void* const GRAVE = (const void*)1;
    void track_born(const void* p)
    {
        if (!rt_in_child()) return;
        if (track_find(p) >= 0) rt_report(V_LIFECYCLE, "a user object is constructed where another is still alive");
        g_tracked++;
        for (unsigned i = track_slot(p);; i = (i + 1) & (NTRACK - 1)) if (!g_track[i] || g_track[i] == GRAVE) { g_track[i] = p; return; }
    }
    void track_gone(const void* p)
    {
        if (!rt_in_child()) return;
        int i = track_find(p);
        if (i < 0) { rt_report(V_LIFECYCLE, "a user object is destroyed that is not alive"); return; }
        g_track[i] = GRAVE; g_tracked--;
    }
    void track_used(const void* p) { if (rt_in_child() && track_find(p) < 0) rt_report(V_LIFECYCLE, "a user object is used that is not alive"); }
    long tracked_live() { return g_tracked; }

    // ---------------------------------------------------------------- small helpers
    Type* find_type(const std::string& name) { for (auto* t : registry().types) if (name == t->name) return t; return nullptr; }
    static u64 digest(std::string_view s, u64 h = 1469598103934665603ull) { for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull; return h; }
    static std::string clip(std::string_view s, size_t n = 300) { Dump d; d.str(s.substr(0, n)); if (s.size() > n) d.out += "..."; return d.out; }

    static bool g_mt, g_retry_of[RT_MAXT];
    #define g_retry g_retry_of[rt_tid()]
    static const Plan* g_plan;
    static uint32_t functional(uint32_t c)
    {
        if (g_retry && (c & (V_ACCEPT | V_REJECT | V_VALUE | V_TEXT | V_WFAIL | V_EXC | V_PATH | V_DISAGREE))) return V_RETRY;
        return c;
    }
    __attribute__((format(printf, 3, 4)))
    static void fail(const Op& op, uint32_t cls, const char* fmt, ...)
    {
        char b[RT_MSG - 400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        rt_report(functional(cls), "operation %d (%s %s)%s: %s", op.id, verb_names[op.verb], op.type.c_str(), g_retry ? " repeated after a failure" : "", b);
    }

    // ---------------------------------------------------------------- environment
    struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1"; } };
    static void env_apply(long code)
    {
        // code = what + 16 * variant
        static const char* const zones[] = { "UTC0", "XYZ-5:30", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "ABC11:59:59", "<+14>-14" };
        long v = code / 16;
        switch (code % 16) {
        case 0: setenv("TZ", zones[v % 6], 1); tzset(); rt_count(F_ENV_TZ, 1); break;
        case 1: rt_env_comma((int)(v & 1) ^ 1); rt_count(F_ENV_LOCALE_C, 1); break;
        case 2: if (v & 1) std::locale::global(std::locale::classic()); else std::locale::global(std::locale(std::locale::classic(), new Punct)); rt_count(F_ENV_LOCALE_CPP, 1); break;
        case 3: { static const long t[] = { 0, 1, 4102444800, 951782400, 2147483647, 2147483648, -1, 1711846800 }; rt_env_clock(t[v % 8]); rt_count(F_ENV_CLOCK, 1); break; }
        case 4: errno = v & 1 ? ERANGE : EINVAL; rt_count(F_ENV_ERRNO, 1); break;
        }
    }
    static void env_mid(void* p) { rt_count(F_ENV_MIDCALL, 1); int e = errno; env_apply((long)(intptr_t)p); errno = e; }

    // ---------------------------------------------------------------- damage to texts
    struct Span { size_t b, e; char kind; int parent; size_t kb, ke; int index; };  // kind: { [ s n l ; key span for members
    struct Scan
    {
        const std::string& s; std::vector<Span> v; size_t i = 0; bool ok = true;
        explicit Scan(const std::string& t) : s(t) { ws(); value(-1, 0, 0, 0, 0); ws(); if (i != s.size()) ok = false; }
        void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) ++i; }
        bool str() { if (i >= s.size() || s[i] != '"') return ok = false; ++i; while (i < s.size() && s[i] != '"') { if (s[i] == '\\') ++i; ++i; } if (i >= s.size()) return ok = false; ++i; return true; }
        void value(int parent, size_t kb, size_t ke, int index, int depth)
        {
            if (!ok || i >= s.size() || depth > 200) { ok = false; return; }
            int me = (int)v.size(); v.push_back({ i, i, 'l', parent, kb, ke, index });
            char c = s[i];
            if (c == '"') { v[me].kind = 's'; str(); }
            else if (c == '{' || c == '[') {
                v[me].kind = c; ++i; ws(); int n = 0;
                if (i < s.size() && s[i] == (c == '{' ? '}' : ']')) ++i;
                else for (;;) {
                    size_t a = 0, b = 0;
                    ws();
                    if (c == '{') { a = i; if (!str()) return; b = i; ws(); if (i >= s.size() || s[i] != ':') { ok = false; return; } ++i; ws(); }
                    value(me, a, b, n++, depth + 1); if (!ok) return;
                    ws();
                    if (i >= s.size()) { ok = false; return; }
                    if (s[i] == ',') { ++i; continue; }
                    if (s[i] == (c == '{' ? '}' : ']')) { ++i; break; }
                    ok = false; return;
                }
            }
            else { if (c == '-' || (c >= '0' && c <= '9')) v[me].kind = 'n'; size_t b = i; while (i < s.size() && !std::strchr(",]} \n\t\r", s[i])) ++i; if (i == b) ok = false; }
            v[me].e = i;
        }
        std::string path(int k) const
        {
            std::vector<std::string> segs;
            for (; k > 0 && v[k].parent >= 0; k = v[k].parent) { if (v[k].ke) segs.push_back(s.substr(v[k].kb + 1, v[k].ke - v[k].kb - 2)); else { Dump d; d.num(v[k].index); segs.push_back(d.out); } }
            std::string p; for (size_t n = segs.size(); n--;) Dec::esc(p, segs[n]); return p;
        }
    };
    static int damage_counter(int k)
    {
        static const int c[] = { F_TRUNC, F_BITFLIP, F_ZERO, F_DUPBLOCK, F_SWAPBLOCK, F_STALE, F_MISDIRECT, F_INSERT, F_DELETE, F_TOK_DIGIT, F_TOK_NUM, F_TOK_TYPE, F_TOK_KEY, F_TOK_DROP, F_TOK_DUP, F_TOK_EXTRA, F_TOK_REF, F_TOK_STR, F_TOK_DEEP, F_TOK_DUP, F_TOK_RUNAWAY };
        return c[k];
    }
    static void damage(std::string& s, const Fault& f, const std::string& other)
    {
        std::string before = s;
        Rng r((u64)f.a * 1000003 + (u64)f.b * 17 + (u64)f.k);
        size_t n = s.size();
        auto at = [&] { return n ? (size_t)r.below(n) : 0; };
        if (f.k <= X_DELETE) {
            size_t blk = (size_t)1 << r.below(7);
            switch (f.k) {
            case X_TRUNC: s.resize(n ? r.below(n) : 0); break;
            case X_BITFLIP: if (n) s[at()] ^= (char)(1 << r.below(8)); break;
            case X_ZERO: if (n) { size_t p = at(); for (size_t i = p; i < p + blk && i < n; ++i) s[i] = 0; } break;
            case X_DUPBLOCK: if (n) { size_t p = at(); s.insert(p, s.substr(p, blk)); } break;
            case X_SWAPBLOCK: if (n > 2 * blk) { size_t p = r.below(n - 2 * blk); std::string x = s.substr(p, blk), y = s.substr(p + blk, blk); s.replace(p, 2 * blk, y + x); } break;
            case X_STALE: { size_t p = at(); s = s.substr(0, p) + (other.size() > p ? other.substr(p) : std::string()); break; }
            case X_MISDIRECT: if (n && !other.empty()) { size_t p = at(), q = r.below(other.size()); std::string x = other.substr(q, blk); s.replace(p, std::min(x.size(), n - p), x); } break;
            case X_INSERT: if (r.chance(35)) {   // what lenient readers let pass
                static const char* const odd[] = { ",", "/**/", "//\n", "/*x*/ ", "\xEF\xBB\xBF", "\f", "\v", "\xC2\xA0", "+", "'", ";", "0", "]", "}", "x", "null", "{}", "//", "#", "\r\n" };
                std::vector<size_t> c = { 0, n, n }; for (size_t i = 0; i < n; ++i) { if (std::strchr(",:[{", s[i])) c.push_back(i + 1); if (std::strchr("]},", s[i])) c.push_back(i); }
                if (r.chance(25)) { std::vector<size_t> e; for (size_t i = 0; i < n; ++i) if (s[i] == ']' || s[i] == '}') e.push_back(i); if (!e.empty()) { s.insert(e[r.below(e.size())], ","); break; } }
                s.insert(c[r.below(c.size())], odd[r.below(sizeof odd / sizeof odd[0])]); break;
            }
            { std::string x; for (size_t i = 1 + r.below(3); i--;) x += r.chance(60) ? "{}[]\",:0123456789-+.eEtfn\\u/ \n$"[r.below(32)] : (char)r.below(256); s.insert(at(), x); break; }
            case X_DELETE: if (n) s.erase(at(), 1 + r.below(4)); break;
            }
        }
        else {
            Scan sc(s);
            if ((!sc.ok || sc.v.empty()) && f.k != X_RUNAWAY) return;
            auto any = [&](const char* kinds, bool nonroot = false) -> int {
                std::vector<int> c; for (size_t i = 0; i < sc.v.size(); ++i) if (std::strchr(kinds, sc.v[i].kind) && !(nonroot && sc.v[i].parent < 0)) c.push_back((int)i);
                return c.empty() ? -1 : c[r.below(c.size())];
            };
            auto put = [&](const Span& x, const std::string& t) { s.replace(x.b, x.e - x.b, t); };
            auto cut = [&](int k) {   // removes an element with its comma
                const Span& x = sc.v[k]; size_t b = x.ke ? x.kb : x.b, e = x.e;
                size_t q = e; while (q < s.size() && std::strchr(" \n\t\r", s[q])) ++q;
                if (q < s.size() && s[q] == ',') { s.erase(b, q + 1 - b); return; }
                size_t p = b; while (p > 0 && std::strchr(" \n\t\r", s[p - 1])) --p;
                if (p > 0 && s[p - 1] == ',') b = p - 1;
                s.erase(b, e - b);
            };
            switch (f.k) {
            case X_DIGIT: { if (r.chance(60) && edge_date(s, r)) break; std::vector<size_t> d; for (size_t i = 0; i < n; ++i) if (s[i] >= '0' && s[i] <= '9') d.push_back(i); if (!d.empty()) { size_t p = d[r.below(d.size())]; s[p] = (char)('0' + (s[p] - '0' + 1 + r.below(9)) % 10); } break; }
            case X_NUM: {
                static const char* const nums[] = { "0", "-0", "-1", "1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
                    "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.5", "-0.0", "1e2", "1E400", "-1e400", "1e-400", "3.4028234663852886e38", "3.5e38", "-3.5e38", "1e308", "1.7976931348623157e308", "1.7976931348623159e308",
                    "0.1", "4.9e-324", "2.2250738585072011e-308", "123456789012345678901234567890", "1.0", "100000000000000000000000", "9007199254740993", "01", "+1", "1.", ".5", "1e", "NaN", "Infinity", "-", "0x10", "1e5000000000" };
                int k = any("n"); if (k < 0) k = any("lns"); if (k >= 0) put(sc.v[k], nums[r.below(sizeof nums / sizeof nums[0])]); break; }
            case X_TYPE: {
                static const char* const vals[] = { "null", "true", "false", "0", "-1", "1", "1.5", "\"\"", "\"a\"", "\"red\"", "{}", "[]", "[0]", "[[]]", "{\"a\":1}", "[null]", "\"2000-01-01\"", "\"2000-01-01T00:00:00Z\"", "\"AAAA\"", "[1,\"x\"]", "nul", "True", "\"0\"", "{\"$ref\":\"\"}", "{\"value\":1}" };
                int k = any("{[snl"); if (k >= 0) put(sc.v[k], vals[r.below(sizeof vals / sizeof vals[0])]); break; }
            case X_KEY: {
                std::vector<int> c; for (size_t i = 0; i < sc.v.size(); ++i) if (sc.v[i].ke) c.push_back((int)i);
                if (c.empty()) break;
                const Span& x = sc.v[c[r.below(c.size())]]; std::string k = s.substr(x.kb + 1, x.ke - x.kb - 2);
                switch (r.below(9)) {
                case 0: k += "x"; break; case 1: if (!k.empty()) k.pop_back(); break; case 2: k += "\\u0000"; break; case 3: k = ""; break;
                case 4: if (!k.empty() && k.find('\\') == k.npos) k[r.below(k.size())] ^= 1; break; case 5: k = "$ref"; break; case 6: if (!k.empty() && k[0] >= 'a' && k[0] <= 'z') k[0] = (char)(k[0] - 32); break;
                case 7: { const Span& y = sc.v[c[r.below(c.size())]]; k = s.substr(y.kb + 1, y.ke - y.kb - 2); break; }
                default: if (!k.empty() && (unsigned char)k[0] >= 32 && k[0] != '\\' && (unsigned char)k[0] < 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", (unsigned)k[0]); k = b + k.substr(1); }
                }
                s.replace(x.kb, x.ke - x.kb, "\"" + k + "\""); break; }
            case X_DROP: { int k = any("{[snl", true); if (k < 0) k = 0; if (sc.v[k].parent < 0) s.clear(); else cut(k); break; }
            case X_DUP: { int k = any("{[snl", true); if (k < 0) break; const Span& x = sc.v[k]; size_t b = x.ke ? x.kb : x.b; std::string t = s.substr(b, x.e - b); s.insert(x.e, "," + t); break; }
            case X_REPEAT: { int k = any("[", false); if (k < 0) break; std::string el; for (size_t i = 0; i < sc.v.size(); ++i) if (sc.v[i].parent == k) { el = s.substr(sc.v[i].b, sc.v[i].e - sc.v[i].b); break; } if (el.empty() || el.size() > 2000) break; size_t m = r.chance(50) ? 1 + r.below(3) : r.below(300); std::string t; for (size_t i = 0; i < m; ++i) t += "," + el; s.insert(sc.v[k].e - 1, t); break; }
            case X_EXTRA: {
                int k = any("{[", false); if (k < 0) break; bool empty = true; for (auto& x : sc.v) if (x.parent == k) empty = false;
                static const char* const vals[] = { "null", "0", "\"x\"", "{}", "[]", "1.5", "true", "[[],{}]" }; std::string t = vals[r.below(8)];
                if (sc.v[k].kind == '{') { static const char* const keys[] = { "extra", "", "value", "$ref", "name", "a", "\\u0000" }; t = std::string("\"") + keys[r.below(7)] + "\":" + t; }
                if (r.chance(50)) s.insert(sc.v[k].b + 1, empty ? t : t + ","); else s.insert(sc.v[k].e - 1, empty ? t : "," + t);
                break; }
            case X_REF: {
                static const char* const odd[] = { "", "/", "//", "#", "#/a", "a", "/~", "/~2", "/0", "/-", "/b/0/leaves/0", "/nowhere", "/a/serial", "/~0~1", "~1", "/99999999999999999999", "/b/01", "\\u0000", "/a\\u0000b", "/leaves" };
                std::string p = r.chance(60) ? sc.path((int)r.below(sc.v.size())) : odd[r.below(sizeof odd / sizeof odd[0])];
                std::vector<int> refs; for (size_t i = 0; i < sc.v.size(); ++i) if (sc.v[i].ke && s.substr(sc.v[i].kb, sc.v[i].ke - sc.v[i].kb) == "\"$ref\"") refs.push_back((int)i);
                if (!refs.empty() && r.chance(60)) { const Span& x = sc.v[refs[r.below(refs.size())]]; if (r.chance(15)) put(x, r.chance(50) ? "0" : "null"); else put(x, "\"" + p + "\""); }
                else { int k = any("{[snl"); put(sc.v[k], "{\"$ref\":\"" + p + "\"" + (r.chance(10) ? ",\"serial\":3}" : "}")); }
                break; }
            case X_STR: {
                int k = any("s"); if (k < 0) break; const Span& x = sc.v[k]; std::string t = s.substr(x.b + 1, x.e - x.b - 2);
                static const char* const parts[] = { "\\u0000", "\\u00e9", "\\ud834\\udd1e", "\\ud834", "\\udd1e", "\\x", "\\u12", "\t", "=", "==", "A", "\\n", "-", "\xff", "Z", "T", " ", "0", "\\\"", "\\/" };
                switch (r.below(9)) {
                case 5: { static const char* const edge[] = { " ", "\\n", "\\t", "\\r\\n", "+", "0", "\\ufeff", "\\u00a0" }; const char* e = edge[r.below(8)]; if (r.chance(50)) t += e; else t = e + t; break; }      // what lenient readers let pass
                case 6: { std::vector<size_t> c; for (size_t i = 0; i < t.size(); ++i) if (std::isalpha((unsigned char)t[i]) && !(i && t[i - 1] == '\\')) c.push_back(i); if (!c.empty()) t[c[r.below(c.size())]] ^= 32; break; }
                case 7: if (!t.empty()) { size_t q = r.below(t.size()); for (size_t i = 0; i < t.size(); ++i) if ((t[i] == '+' || t[i] == '/') && r.chance(50)) { q = i; break; } t[q] = t[q] == '+' ? '-' : t[q] == '/' ? '_' : r.chance(50) ? '-' : '_'; } break;
                case 8: while (!t.empty() && t.back() == '=') t.pop_back(); if (r.chance(50)) t += r.chance(50) ? "=" : "=="; break;
                case 4: t += r.chance(50) ? "\\u0000" : "\\u0000x"; break;
                case 0: if (!t.empty()) t.erase(r.below(t.size()), 1 + r.below(3)); break;
                case 1: if (!t.empty()) t[r.below(t.size())] = "=-:TZ 0123456789AZaz+/_.\\"[r.below(26)]; break;
                default: t.insert(r.below(t.size() + 1), parts[r.below(sizeof parts / sizeof parts[0])]); break;
                }
                put(x, "\"" + t + "\""); break; }
            case X_DEEP: {
                int k = any("{[snl"); if (k < 0) break; int depth = r.chance(70) ? r.range(1, 40) : r.range(20, 120); std::string a, b;
                for (int i = 0; i < depth; ++i) { if (r.chance(50)) { a += "["; b = "]" + b; } else { a += r.chance(50) ? "{\"a\":" : r.chance(50) ? "{\"tail\":" : "{\"next\":"; b = "}" + b; } }
                put(sc.v[k], a + s.substr(sc.v[k].b, sc.v[k].e - sc.v[k].b) + b); break; }
            case X_RUNAWAY: {
                // far more levels than a call stack has room for; no type accepts more than two of them
                size_t m = r.chance(30) ? r.range(500, 5000) : r.range(60000, 90000); bool array = r.chance(50), closed = r.chance(50); std::string a, b;
                for (size_t i = 0; i < m; ++i) a += array ? "[{\"zz\":" : "{\"zz\":[";
                if (closed) { a += "0"; for (size_t i = 0; i < m; ++i) b += array ? "}]" : "]}"; }
                int k = sc.ok && !sc.v.empty() ? any("{[snl") : -1;
                if (k < 0 || r.chance(20)) s = a + b;
                else if (sc.v[k].kind == '{' && r.chance(60)) { bool empty = true; for (auto& x : sc.v) if (x.parent == k) empty = false; s.insert(sc.v[k].b + 1, "\"zz\":" + a + b + (empty ? "" : ",")); }
                else put(sc.v[k], a + b);
                break; }
            }
        }
        if (s != before) rt_count(damage_counter(f.k), 1);
    }

    // ---------------------------------------------------------------- what a text denotes
    static int depth_of(const Json& root, bool& dup)     // without recursion: a text may have more levels than a call stack has room for
    {
        int depth = 0; std::vector<std::pair<const Json*, int>> todo = { { &root, 0 } };
        while (!todo.empty()) {
            auto [j, d] = todo.back(); todo.pop_back();
            if (j->IsObject()) {
                std::set<std::string_view> seen;
                for (auto& m : j->GetObject()) { if (!seen.insert(std::string_view(m.name.GetString(), m.name.GetStringLength())).second) dup = true; todo.push_back({ &m.value, d + 1 }); }
            }
            else if (j->IsArray()) for (auto& m : j->GetArray()) todo.push_back({ &m, d + 1 });
            else continue;
            depth = std::max(depth, d + 1);
        }
        return depth;
    }
    static std::string as_read(const std::string& text) { return std::string(text.c_str()); }
    // the document that a text denotes, with correctly rounded numbers (the full-precision mode of RapidJSON 1.1.0 is not usable: it reads out of bounds)
    struct ExactNumbers
    {
        rapidjson::Document& d; bool large = false;
        bool Null() { return d.Null(); } bool Bool(bool b) { return d.Bool(b); } bool Int(int i) { return d.Int(i); } bool Uint(unsigned i) { return d.Uint(i); } bool Int64(int64_t i) { return d.Int64(i); } bool Uint64(uint64_t i) { return d.Uint64(i); } bool Double(double x) { return d.Double(x); }
        bool String(const char* s, rapidjson::SizeType n, bool c) { return d.String(s, n, c); } bool Key(const char* s, rapidjson::SizeType n, bool c) { return d.Key(s, n, c); }
        bool StartObject() { return d.StartObject(); } bool EndObject(rapidjson::SizeType n) { return d.EndObject(n); } bool StartArray() { return d.StartArray(); } bool EndArray(rapidjson::SizeType n) { return d.EndArray(n); }
        bool RawNumber(const char* s, rapidjson::SizeType n, bool)
        {
            const char* e = s + n; bool whole = true;
            for (const char* p = s; p != e; ++p) if (*p == '.' || *p == 'e' || *p == 'E') whole = false;
            if (whole) {
                int64_t i = 0; uint64_t u = 0;
                if (*s == '-') { if (std::from_chars(s, e, i).ec == std::errc()) return d.Int64(i); }
                else if (std::from_chars(s, e, u).ec == std::errc()) return d.Uint64(u);
            }
            double x = 0;
            if (std::from_chars(s, e, x).ec != std::errc()) {
                // out of range: the sign of the decimal exponent of the leading digit tells which side
                long lead = 0; bool point = false, seen = false; const char* p = s;
                for (; p != e && *p != 'e' && *p != 'E'; ++p) { if (*p == '.') point = true; else if (*p != '-') { if (*p != '0') seen = true; if (seen && !point) ++lead; if (!seen && point) --lead; } }
                bool minus = false; long ex = 0;
                if (p != e) { ++p; if (*p == '+' || *p == '-') minus = *p++ == '-'; for (; p != e; ++p) if (ex < 100000000) ex = ex * 10 + (*p - '0'); }
                large |= lead + (minus ? -ex : ex) > 0;
                x = lead + (minus ? -ex : ex) > 0 ? std::numeric_limits<double>::infinity() : 0.0;
                if (*s == '-') x = -x;
            }
            return d.Double(x);
        }
    };
    static bool parse_text(rapidjson::Document& d, const std::string& text)    // true if it has a number that is too large for a double
    {
        bool bad = false, large = false;
        auto generate = [&](rapidjson::Document& target) { ExactNumbers h{ target }; rapidjson::Reader r; rapidjson::StringStream is(text.c_str()); bad = r.Parse<rapidjson::kParseNumbersAsStringsFlag | rapidjson::kParseIterativeFlag>(is, h).IsError(); large = h.large; return !bad; };
        d.Populate(generate);
        if (bad) d.Parse<rapidjson::kParseIterativeFlag>(text.c_str());
        return large;
    }
    static const int max_depth = 24;     // the direct parser may refuse what is nested deeper
    static Verdict judge(const Type& t, const std::string& text, bool sax, u64 prefill = 0, int size = 0)
    {
        Verdict v;
        rapidjson::Document d; std::string s = as_read(text); v.large = parse_text(d, s);
        if (d.HasParseError()) { v.syntax = true; v.offset = d.GetErrorOffset(); return v; }
        v.depth = depth_of(d, v.dup);
        Dec c; c.sax = sax;
        t.dec(d, c, v, prefill, size);
        if (v.dup || (v.large && v.accept)) v.dontcare = true;
        v.deep = sax && v.depth > max_depth;
        return v;
    }

    // ---------------------------------------------------------------- preparation (before any call)
    static int prefill_size(u64 seed) { u64 h = (seed * 0x9E3779B97F4A7C15ull) >> 57; return h < 96 ? 8 : h < 118 ? 40 : 1020 + (int)(seed >> 7 & 255); }
    typedef decltype(Gen::pool) Pool;
    struct Prep
    {
        Pool pool; int serial = 0;     // shared objects of an object that cannot be expressed: the repaired object has them too
        Type* t = nullptr; void* obj = nullptr; uint32_t q0 = 0, q1 = 0; bool bad = false; std::string dump, dump_noid;
        std::string* text = nullptr; uint32_t tq0 = 0, tq1 = 0; Verdict vs, vd, us, ud; bool textual = false; u64 prefill = 0;
        MiscIn* misc = nullptr;
    };
    static const Fault* find(const Op& op, int k) { for (auto& f : op.f) if (f.k == k) return &f; return nullptr; }

    static std::map<int, Pool>* g_pools;    // shared objects of each operation's object
    static void make_object(Prep& p, u64 seed, int size, bool share, const Fault* poison, const Pool* kin = nullptr, Pool* out = nullptr, int serial = 0)
    {
        Type& t = *p.t;
        int site = -1;
        if (poison) {
            Gen g(seed, size); g.share = share; g.serial = serial; if (kin) g.pool = *kin; void* o = t.raw(); t.construct(o); t.gen(o, g); t.destroy(o); t.release_raw(o);
            if (g.sites) site = (int)((u64)poison->a % (u64)g.sites);
        }
        p.q0 = rt_seq();
        p.obj = t.raw(); t.construct(p.obj);
        { Gen g(seed, size); g.share = share; g.poison_at = site; g.serial = serial; if (kin) g.pool = *kin; t.gen(p.obj, g); if (poison) { p.pool = g.pool; p.serial = g.serial; } if (out) *out = std::move(g.pool); }
        p.q1 = rt_seq();
        p.bad = t.inexpressible(p.obj) > 0;
        if (p.bad) rt_count(F_POISON, 1);
        p.dump = t.dump(p.obj, true, nullptr); if (t.flags & T_SHARED) p.dump_noid = t.dump(p.obj, false, nullptr);
    }
    static void free_object(Prep& p) { p.pool.clear(); if (p.obj) { p.t->destroy(p.obj); p.t->release_raw(p.obj); p.obj = nullptr; } }

    struct Outcome { bool ok = false; int exc = 0; std::string what, path, text, dump, dump_noid; size_t offset = 0; u64 payload = 0; bool hook_fired = false, addr = false; u64 alloc_fired = 0; std::set<const void*> seen;
        u64 sum() const { if (addr) return (u64)ok * 7 + (u64)exc * 131 + payload; /* order depends on addresses: judged against the model only */ u64 h = digest(text); h = digest(dump, h); h = digest(what, h); h = digest(path, h); return h * 31 + (u64)ok * 7 + (u64)exc * 131 + offset * 1009 + payload; } };

    static std::string render(const Json& j) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); j.Accept(w); return std::string(b.GetString(), b.GetSize()); }

    // faults of one call
    struct Inject { const Fault* hook = nullptr; const Fault* alloc = nullptr; const Fault* env = nullptr; const Fault* nest = nullptr; const Fault* err = nullptr; u64 hook_nth = 0, alloc_nth = 0; };
    static void run_op(const Op& op, Prep* p);
    static std::map<int, Prep>* g_preps;
    static void nested(void* arg)
    {
        int id = (int)(intptr_t)arg;
        for (auto& o : g_plan->ops) if (o.id == id) {
            HookCtl save = hook_ctl[rt_tid()]; hook_ctl[rt_tid()] = HookCtl();
            bool sr = g_retry; g_retry = false;
            int sc = rt_sh->cur_op; char ph[sizeof rt_sh->phase]; std::memcpy(ph, rt_sh->phase, sizeof ph);
            run_op(o, &(*g_preps)[id]);
            rt_sh->cur_op = sc; std::memcpy(rt_sh->phase, ph, sizeof ph);
            g_retry = sr; hook_ctl[rt_tid()] = save; rt_count(P_NESTED_OK, 1);
        }
    }
    static void arm(const Op& op, const Inject& in)
    {
        HookCtl& h = hook_ctl[rt_tid()]; h = HookCtl();
        if (in.hook) { h.mask = (unsigned)(in.hook->b / 16); h.action = (int)(in.hook->b % 16); h.fire_at = in.hook_nth; h.payload = op.seed * 7 + 5; }
        if (in.nest) { h.mask = H_ALL; h.action = A_NEST; h.fire_at = (u64)in.nest->a; h.nest = nested; h.nest_arg = (void*)(intptr_t)in.nest->b; }
        if (in.alloc) rt_alloc_fault(in.alloc_nth, (u64)in.alloc->b);
        if (in.env) rt_at_step((u64)in.env->a, env_mid, (void*)(intptr_t)in.env->b);
        if (in.err) { errno = (int)in.err->a; rt_count(F_ENV_ERRNO, 1); }
    }
    static void disarm(Outcome& o) { HookCtl& h = hook_ctl[rt_tid()]; o.hook_fired = h.fired && h.action != A_NEST; h = HookCtl(); o.alloc_fired = rt_alloc_fired(); }

    static void take(Outcome& o, CallIo& io) { o.ok = io.ok; o.exc = io.exc; o.what = std::move(io.what); o.path = std::move(io.path); o.offset = io.offset; o.payload = io.payload; }

    // performs one writing call; `keep` receives the document of S1, S2
    static Outcome call_write(const Op& op, int kind, Prep& p, const Inject& in, rapidjson::Document* keep = nullptr)
    {
        Outcome o; o.addr = p.t->flags & T_ADDR; CallIo io; io.kind = kind; io.op = op.id; io.src = p.obj;
        std::string* target = new std::string(kind == W1 ? (op.a % 3 == 0 ? "" : op.a % 3 == 1 ? "old" : "a string that was there before the call and is long") : "");
        std::string before = *target;
        rapidjson::Document* doc = keep ? keep : new rapidjson::Document;
        if (kind == S1 && op.a % 3) doc->Parse(op.a % 3 == 1 ? "{\"old\":[1,\"a string that was there before the call\"]}" : "[0,{\"old\":true},\"older\"]");
        io.scratch = target; io.doc = doc;
        if (!g_mt) { rt_freeze_since(p.q0, p.q1, 1); rt_count(P_FROZEN_CHECKED, 1); }
        arm(op, in);
        p.t->call(io);
        disarm(o);
        if (!g_mt) rt_freeze_since(p.q0, p.q1, 0);
        take(o, io);
        if (kind == W1 && !o.ok) {
            if (*target != before) fail(op, V_TARGET, "%s fails and changes the target string from %s to %s", kind_name(kind), clip(before).c_str(), clip(*target).c_str()); else rt_count(P_TARGET_KEPT, 1);
        }
        if (o.ok) { if (kind <= W2) o.text = *target; else o.text = render(*doc); }
        delete target; if (!keep) delete doc;
        if (!g_mt && p.t->dump(p.obj, true, nullptr) != p.dump) fail(op, V_FROZEN, "%s changes the object it writes", kind_name(kind));
        rt_count(o.ok ? K_WRITE_OK : K_WRITE_FAIL, 1);
        return o;
    }
    static Outcome call_read(const Op& op, int kind, Type& t, const std::string* text, uint32_t tq0, uint32_t tq1, rapidjson::Document* doc, uint32_t dq0, uint32_t dq1, const Inject& in, void** keep = nullptr, void* into = nullptr)
    {
        Outcome o; o.addr = t.flags & T_ADDR; CallIo io; io.kind = kind; io.op = op.id; io.text = text; io.doc = doc;
        std::string* scratch = nullptr;
        if (kind == D2 || kind == D4) { scratch = new std::string(*text); scratch->shrink_to_fit(); io.scratch = scratch; }
        if (!is_flag(kind)) into = nullptr;
        void* obj = into ? into : t.raw(); io.obj = obj;
        if (into) io.constructed = true;
        else if (is_flag(kind)) { t.construct(obj); io.constructed = true; }
        if (!g_mt) { if (kind == D5 || kind == D6) rt_freeze_since(dq0, dq1, 1); else if (!scratch) rt_freeze_since(tq0, tq1, 1); rt_count(P_FROZEN_CHECKED, 1); }
        arm(op, in);
        t.call(io);
        disarm(o);
        if (!g_mt) { if (kind == D5 || kind == D6) rt_freeze_since(dq0, dq1, 0); else if (!scratch) rt_freeze_since(tq0, tq1, 0); }
        take(o, io);
        delete scratch;
        if (o.ok) { o.dump = t.dump(obj, true, &o.seen); if (t.flags & T_SHARED) o.dump_noid = t.dump(obj, false, nullptr); }
        if (into) {}
        else if (keep && io.constructed) *keep = obj;
        else { if (io.constructed) t.destroy(obj); t.release_raw(obj); }
        rt_count(o.ok ? K_ACCEPT : K_REJECT, 1);
        return o;
    }
    // an object that a reading call is to replace; shared objects in it are also held by somebody else
    struct Used
    {
        Type& t; void* obj = nullptr; void* held = nullptr; std::string dump;
        Used(Type& t, u64 seed, int size) : t(t) { if (!seed) return; obj = t.raw(); t.construct(obj); { Gen g(seed, size); t.gen(obj, g); } held = t.holder(obj); if (held) dump = t.dump(held, true, nullptr); rt_count(F_PREFILL, 1); }
        void check(const Op& op, const char* kn) { if (held) { if (t.dump(held, true, nullptr) != dump) fail(op, V_FROZEN, "%s writes to shared objects that the target held before and others still hold", kn); else rt_count(P_HELD_CHECKED, 1); } }
        ~Used() { if (obj) { t.destroy(obj); t.release_raw(obj); } if (held) { t.destroy(held); t.release_raw(held); } }
    };
    static std::string exc_text(const Outcome& o)
    {
        static const char* const n[] = { "no exception", "JsonSerializationError", "JsonParseError", "JsonDeserializationError", "the exception of user code", "bad_alloc", "a standard exception", "an unknown exception" };
        std::string s = o.ok ? "success" : n[o.exc]; if (!o.what.empty()) s += " (" + o.what + ")"; return s;
    }

    // ---------------------------------------------------------------- checks of outcomes
    static void check_write(const Op& op, int kind, Prep& p, const Outcome& o, const Fault* hookf, bool judge_text = true)
    {
        const char* kn = kind_name(kind);
        if (o.hook_fired) {
            if (o.ok) fail(op, V_LOSTFAIL, "%s succeeds although user code failed", kn);
            else if (hookf && hookf->b % 16 == A_THROW && (o.exc != E_HOOK || o.payload != op.seed * 7 + 5)) fail(op, V_EXC, "%s: the exception of user code does not reach the caller, instead %s", kn, exc_text(o).c_str());
            return;
        }
        if (p.bad) {
            if (o.ok) fail(op, V_LOSTFAIL, "%s succeeds although JSON cannot express the object %s; text %s", kn, clip(p.dump).c_str(), clip(o.text).c_str());
            else if (p.dump.find("|valueless") != std::string::npos) {}    // in what way is left open
            else if (!o.alloc_fired && is_flag(kind) && o.exc) fail(op, V_EXC, "%s throws %s instead of returning false", kn, exc_text(o).c_str());
            else if (!o.alloc_fired && !is_flag(kind) && o.exc != E_SER) fail(op, V_EXC, "%s fails with %s", kn, exc_text(o).c_str());
            return;
        }
        if (!o.ok) { if (!o.alloc_fired) fail(op, V_WFAIL, "%s fails (%s) for the object %s", kn, exc_text(o).c_str(), clip(p.dump).c_str()); return; }
        if (!judge_text) return;
        rapidjson::Document d; parse_text(d, o.text);
        if (d.HasParseError()) { fail(op, o.alloc_fired ? V_LOSTFAIL : V_TEXT, "%s produces a text that is not JSON: %s", kn, clip(o.text).c_str()); return; }
        Verdict v; Dec c; c.strict = true; p.t->dec(d, c, v);
        if (v.has_ref) rt_count(P_REF_WRITTEN, 1);
        uint32_t cl = o.alloc_fired ? V_LOSTFAIL : V_TEXT;
        if (v.dontcare) return;
        if (!v.accept) fail(op, cl, "%s produces a text that does not denote a value of the type (at %s): %s for the object %s", kn, v.faults.empty() ? "?" : v.faults[0].c_str(), clip(o.text, 2500).c_str(), clip(p.dump, 2500).c_str());
        else if (v.dump != p.dump) {
            if ((p.t->flags & T_SHARED) && v.dump_noid == p.dump_noid) fail(op, V_IDENTITY, "%s loses the identity of shared objects: text %s for the object %s", kn, clip(o.text, 2500).c_str(), clip(p.dump, 2500).c_str());
            else fail(op, cl, "%s produces a text for another object: text %s for the object %s", kn, clip(o.text, 2500).c_str(), clip(p.dump, 2500).c_str());
        }
        else if (p.t->flags & T_SHARED) rt_count(P_IDENT_CHECKED, 1);
    }
    static bool path_in(const std::string& path, const std::vector<std::string>& faults) { for (auto& f : faults) if (f == path || (f.empty() && path == "/")) return true; return false; }
    static void check_read(const Op& op, int kind, Type& t, const std::string& text, const Verdict& v, const Outcome& o, const Fault* hookf)
    {
        const char* kn = kind_name(kind);
        if (o.hook_fired) {
            if (o.ok) fail(op, V_LOSTFAIL, "%s succeeds although user code failed; text %s", kn, clip(text).c_str());
            else if (hookf && hookf->b % 16 == A_THROW && (o.exc != E_HOOK || o.payload != op.seed * 7 + 5)) fail(op, V_EXC, "%s: the exception of user code does not reach the caller, instead %s", kn, exc_text(o).c_str());
            return;
        }
        if (!o.ok && !o.alloc_fired) {
            // documented means of failure
            if (is_flag(kind)) { if (o.exc) { fail(op, V_EXC, "%s throws %s instead of returning false; text %s", kn, exc_text(o).c_str(), clip(text).c_str()); return; } }
            else if (is_sax(kind)) { if (o.exc != E_PARSE) { fail(op, V_EXC, "%s fails with %s; text %s", kn, exc_text(o).c_str(), clip(text).c_str()); return; } }
            else if (o.exc != E_PARSE && o.exc != E_DESER) { fail(op, V_EXC, "%s fails with %s; text %s", kn, exc_text(o).c_str(), clip(text).c_str()); return; }
            if (o.exc == E_PARSE && o.offset > as_read(text).size()) fail(op, V_PATH, "%s reports the error offset %zu, but the text has %zu characters: %s", kn, o.offset, as_read(text).size(), clip(text).c_str());
            if (is_dom(kind) && !is_flag(kind)) {
                if (v.syntax) {
                    if (o.exc != E_PARSE) fail(op, V_PATH, "%s reports %s for a text that is not JSON: %s", kn, exc_text(o).c_str(), clip(text).c_str());
                    else if (o.offset != v.offset && v.large) {}
                    else if (o.offset != v.offset) fail(op, V_PATH, "%s reports the error offset %zu, the syntax error is at %zu: %s", kn, o.offset, v.offset, clip(text).c_str());
                    else rt_count(P_OFFSET_CHECKED, 1);
                }
                else if (o.exc == E_PARSE && v.large) {}    // a number too large for any type may be refused either way
                else if (o.exc == E_PARSE) fail(op, V_PATH, "%s reports a parse error for well-formed JSON: %s", kn, clip(text).c_str());
                else if (!v.accept && !v.dontcare) { if (!path_in(o.path, v.faults)) { std::string all; for (auto& f : v.faults) all += " '" + f + "'"; fail(op, V_PATH, "%s reports the location '%s' (%s), but the elements at fault are%s; text %s", kn, o.path.c_str(), o.what.c_str(), clip(all).c_str(), clip(text, 600).c_str()); } else rt_count(P_PATH_CHECKED, 1); }
            }
        }
        if (v.dontcare) { rt_count(K_DONTCARE, 1); return; }
        if (o.ok && !v.accept) { fail(op, o.alloc_fired ? V_LOSTFAIL : V_ACCEPT, "%s accepts a text that denotes no value of the type (at fault: '%s'): %s, delivering %s", kn, v.syntax ? "syntax" : v.faults.empty() ? "?" : v.faults[0].c_str(), clip(text, 600).c_str(), clip(o.dump).c_str()); return; }
        if (!o.ok && v.accept) { if (!o.alloc_fired && !v.deep) fail(op, V_REJECT, "%s refuses (%s) a text that denotes the value %s: %s", kn, exc_text(o).c_str(), clip(v.dump).c_str(), clip(text, 600).c_str()); return; }
        if (o.ok && o.dump != v.dump) {
            if ((t.flags & T_SHARED) && o.dump_noid == v.dump_noid) fail(op, V_IDENTITY, "%s delivers %s, the text denotes %s: %s", kn, clip(o.dump, 600).c_str(), clip(v.dump, 600).c_str(), clip(text, 600).c_str());
            else fail(op, o.alloc_fired ? V_LOSTFAIL : V_VALUE, "%s delivers %s, the text denotes %s: %s", kn, clip(o.dump, 600).c_str(), clip(v.dump, 600).c_str(), clip(text, 600).c_str());
        }
        else if (o.ok && (t.flags & T_SHARED)) rt_count(P_IDENT_CHECKED, 1);
    }

    // ---------------------------------------------------------------- operations
    static u64 g_sum[RT_MAXT];   // digest of the operation in progress, by thread
    static void note(u64 v) { g_sum[rt_tid()] = (g_sum[rt_tid()] ^ v) * 1099511628211ull + 0x9E37; }
    static void note(const Outcome& o) { note(o.sum()); }

    static Inject inject_of(const Op& op) { Inject in; in.hook = find(op, X_HOOK); in.alloc = find(op, X_ALLOC); in.env = find(op, X_ENVMID); in.nest = find(op, X_NEST); in.err = find(op, X_ERRNO); if (in.hook) in.hook_nth = (u64)in.hook->a; if (in.alloc) in.alloc_nth = (u64)in.alloc->a; return in; }
    static bool supports(const Type& t, int kind) { return is_write(kind) ? t.flags & T_W : is_sax(kind) ? t.flags & T_SAX : t.flags & T_DOM; }

    // runs `call` once, or for every n-th fault in turn when the number of the fault is 0
    template<typename F> static void with_faults(const Op& op, F&& call)
    {
        Inject in = inject_of(op);
        bool sweep_hook = in.hook && in.hook->a == 0, sweep_alloc = in.alloc && in.alloc->a == 0;
        if (!sweep_hook && !sweep_alloc) { call(in); return; }
        u64 limit = op.b > 0 ? (u64)op.b : 400;
        for (u64 n = 1; n <= limit; ++n) {
            if (sweep_hook) in.hook_nth = n;
            if (sweep_alloc) in.alloc_nth = n;
            if (!call(in)) break;
        }
    }

    static void op_write(const Op& op, Prep& p)
    {
        if (!supports(*p.t, op.kind) || !is_write(op.kind)) return;
        with_faults(op, [&](const Inject& in) -> bool {
            long objs = tracked_live();
            Outcome o = call_write(op, op.kind, p, in);
            check_write(op, op.kind, p, o, in.hook);
            if (!in.alloc) note(o);    // which allocation is the n-th depends on what earlier calls set up once and for all: judged against the model only
            if (!g_mt && tracked_live() != objs) fail(op, V_LIFECYCLE, "%s leaves %ld user objects behind", kind_name(op.kind), tracked_live() - objs);
            bool fired = o.hook_fired || o.alloc_fired;
            if (fired || p.bad) {
                // the cause is gone: the same call again
                g_retry = true;
                if (p.bad) { Prep q; q.t = p.t; make_object(q, op.seed, op.size, true, nullptr, &p.pool, nullptr, p.serial); Outcome o2 = call_write(op, op.kind, q, Inject()); check_write(op, op.kind, q, o2, nullptr); if (!in.alloc) note(o2); free_object(q); }
                else { Outcome o2 = call_write(op, op.kind, p, Inject()); check_write(op, op.kind, p, o2, nullptr); if (!in.alloc) note(o2); }
                g_retry = false; rt_count(P_RETRY_OK, 1);
            }
            return fired;
        });
    }

    struct DocBox { rapidjson::Document* d = nullptr; uint32_t q0 = 0, q1 = 0; explicit DocBox(const std::string& text) { q0 = rt_seq(); d = new rapidjson::Document; parse_text(*d, as_read(text)); q1 = rt_seq(); } ~DocBox() { delete d; } bool bad() const { return d->HasParseError(); } };

    static void op_read(const Op& op, Prep& p)
    {
        Type& t = *p.t; int kind = op.kind;
        if (!supports(t, kind) || is_write(kind)) return;
        bool prefilled = p.prefill && is_flag(kind) && !op.a; const Verdict& v = prefilled ? (is_sax(kind) ? p.us : p.ud) : is_sax(kind) ? p.vs : p.vd;
        with_faults(op, [&](const Inject& in) -> bool {
            long objs = tracked_live();
            bool needs_doc = kind == D5 || kind == D6;
            DocBox box(needs_doc ? *p.text : std::string("null"));
            void* kept = nullptr; bool result;
            {
            Used used(t, prefilled ? p.prefill : 0, prefill_size(p.prefill));
            Outcome o = call_read(op, kind, t, p.text, p.tq0, p.tq1, box.d, box.q0, box.q1, in, op.a ? &kept : nullptr, used.obj);
            used.check(op, kind_name(kind));
            check_read(op, kind, t, *p.text, v, o, in.hook);
            if (!in.alloc) note(o);
            bool fired = o.hook_fired || o.alloc_fired;
            if (fired || op.a) {
                g_retry = fired;
                Outcome o2 = call_read(op, kind, t, p.text, p.tq0, p.tq1, box.d, box.q0, box.q1, Inject(), nullptr, used.obj);
                check_read(op, kind, t, *p.text, v, o2, nullptr);
                if (!in.alloc) note(o2);
                g_retry = false; if (fired) rt_count(P_RETRY_OK, 1);
                if (!fired && o.ok && o2.ok) for (auto* x : o2.seen) if (o.seen.count(x)) { fail(op, V_IDENTITY, "two calls of %s deliver one and the same shared object", kind_name(kind)); break; }
                if (!fired && (o.ok != o2.ok || o.exc != o2.exc || o.what != o2.what || o.dump != o2.dump)) fail(op, V_FROZEN, "%s repeated on the same input has another outcome: first %s %s, then %s %s; text %s", kind_name(kind), exc_text(o).c_str(), clip(o.dump).c_str(), exc_text(o2).c_str(), clip(o2.dump).c_str(), clip(*p.text).c_str());
            }
            if (kept) { t.destroy(kept); t.release_raw(kept); }
            result = fired;
            }
            if (!g_mt && tracked_live() != objs) fail(op, V_LIFECYCLE, "%s leaves %ld user objects behind", kind_name(kind), tracked_live() - objs);
            return result;
        });
    }

    // all entry points on one input
    static void op_agree(const Op& op, Prep& p)
    {
        Type& t = *p.t;
        if (op.b == 1) {        // writing
            if (!(t.flags & T_W)) return;
            Outcome o[4]; rapidjson::Document docs[2];
            for (int k = W1; k <= S2; ++k) { o[k] = call_write(op, k, p, Inject(), k >= S1 ? &docs[k - S1] : nullptr); check_write(op, k, p, o[k], nullptr, k >= S1 || op.a); note(o[k]); }
            for (int k = W2; k <= S2; ++k) if (o[k].ok != o[W1].ok) { fail(op, V_DISAGREE, "%s %s but %s %s for the object %s", kind_name(W1), o[W1].ok ? "succeeds" : "fails", kind_name(k), o[k].ok ? "succeeds" : "fails", clip(p.dump).c_str()); return; }
            if (o[W1].ok) {
                rapidjson::Document d; parse_text(d, o[W1].text); rapidjson::Document d2; parse_text(d2, o[W2].text);
                if (d.HasParseError() || d2.HasParseError()) { fail(op, V_DISAGREE, "the direct writer produces no JSON where the document writer produces %s: %s", clip(o[S1].text).c_str(), clip(o[W1].text).c_str()); return; }
                if (o[W1].text != o[W2].text) fail(op, V_DISAGREE, "the two forms of write_to_string disagree: %s and %s", clip(o[W1].text).c_str(), clip(o[W2].text).c_str());
                for (int k = 0; k < 2; ++k) if (!(d == docs[k])) fail(op, V_DISAGREE, "the two writing paths disagree: direct %s, document %s", clip(o[W1].text, 600).c_str(), clip(o[S1 + k].text, 600).c_str());
            }
            return;
        }
        DocBox box(*p.text);
        Outcome o[NKIND]; bool have[NKIND] = {};
        for (int k = P1; k < NKIND; ++k) {
            if (!supports(t, k)) continue;
            Used used(t, is_flag(k) ? p.prefill : 0, prefill_size(p.prefill));
            o[k] = call_read(op, k, t, p.text, p.tq0, p.tq1, box.d, box.q0, box.q1, Inject(), nullptr, used.obj); have[k] = true;
            check_read(op, k, t, *p.text, is_sax(k) ? p.vs : p.vd, o[k], nullptr);
            note(o[k]);
        }
        auto same = [&](int a, int b) {
            if (!have[a] || !have[b] || (p.vd.large && (b == D5 || b == D6))) return;
            if (o[a].ok != o[b].ok) { fail(op, V_DISAGREE, "%s %s but %s %s; text %s", kind_name(a), o[a].ok ? "succeeds" : "fails", kind_name(b), o[b].ok ? "succeeds" : ("fails with " + exc_text(o[b])).c_str(), clip(*p.text, 600).c_str()); return; }
            if ((t.flags & T_ADDR) && p.vd.dontcare) return;    // alike objects in an order that depends on addresses
            if (o[a].ok && o[a].dump != o[b].dump) fail(op, V_DISAGREE, "%s delivers %s but %s delivers %s; text %s", kind_name(a), clip(o[a].dump).c_str(), kind_name(b), clip(o[b].dump).c_str(), clip(*p.text, 600).c_str());
        };
        auto same_error = [&](int a, int b) {
            if (!have[a] || !have[b] || o[a].ok || o[b].ok || p.vd.large) return;
            if (o[a].exc != o[b].exc || o[a].path != o[b].path || o[a].offset != o[b].offset) fail(op, V_DISAGREE, "%s fails with %s but %s with %s; text %s", kind_name(a), exc_text(o[a]).c_str(), kind_name(b), exc_text(o[b]).c_str(), clip(*p.text, 600).c_str());
        };
        same(P1, P2); same(D1, D3); same(D2, D4); same(D5, D6); same(D1, D2); same(D1, D5); same(D3, D4); same(D3, D6);
        same_error(D3, D4); same_error(D3, D6);
        if (have[P1] && have[D1] && (p.vd.syntax || !(p.vd.dup || p.vd.has_ref || p.vd.unknown || p.vd.int_for_float || p.vd.has_variant || p.vd.depth > max_depth || p.vs.int_for_float || p.vs.unknown))) { same(P1, D1); same(P2, D3); }
    }

    static int nesting(const std::string& s) { int d = 0, most = 0; bool in = false; for (size_t i = 0; i < s.size(); ++i) { char c = s[i]; if (in) { if (c == '\\') ++i; else if (c == '"') in = false; } else if (c == '"') in = true; else if (c == '[' || c == '{') most = std::max(most, ++d); else if (c == ']' || c == '}') --d; } return most; }
    // a store with two slots, power failure while saving, restart and recovery
    static void op_store(const Op& op, Prep& p)
    {
        Type& t = *p.t;
        int wk = op.kind, rk = op.style;
        if (!(t.flags & T_W) || p.bad || !supports(t, wk)) return;
        if (!is_write(wk) || is_write(rk)) return;
        bool direct = op.a == 3;
        // earlier save, complete
        Prep old; old.t = p.t; make_object(old, op.seed ^ 0x5A5A, op.size, true, nullptr);
        struct Slot { std::string disk; bool intact = false; std::string dump; };
        Slot slot[2];
        rapidjson::Document* kept = new rapidjson::Document; bool refs = false;
        auto save = [&](Prep& q, Slot& s, rapidjson::Document* keep) -> bool {
            Outcome o = call_write(op, wk, q, Inject(), wk >= S1 ? keep : nullptr);
            check_write(op, wk, q, o, nullptr);
            note(o);
            if (!o.ok) return false;
            s.disk = o.text; s.intact = true; s.dump = q.dump;
            return true;
        };
        rapidjson::Document* tmp = new rapidjson::Document;
        bool ok = save(old, slot[0], tmp);
        if (direct && op.src < 0) {   // the object is gone before the document is read
            Prep gone; gone.t = p.t; make_object(gone, op.seed, op.size, true, nullptr);
            ok = ok && save(gone, slot[1], kept); free_object(gone);
        }
        else ok = ok && save(p, slot[1], kept);
        delete tmp;
        free_object(old);
        if (!ok) { delete kept; return; }
        auto has_refs = [&](const std::string& s) { return (t.flags & T_SHARED) && s.find("\"$ref\"") != s.npos; };
        refs = has_refs(slot[0].disk) || has_refs(slot[1].disk);
        bool deep = std::max(nesting(slot[0].disk), nesting(slot[1].disk)) > max_depth;
        void* into = nullptr;
        auto load = [&](const std::string& disk, int k, Outcome& o, rapidjson::Document* doc) -> bool {   // false: this path does not apply
            if (!supports(t, k) || (is_sax(k) && refs)) return false;
            uint32_t q0 = rt_seq(); std::string* text = new std::string(disk); text->shrink_to_fit(); uint32_t q1 = rt_seq();
            {
                DocBox box(k >= D5 && !doc ? disk : std::string("null"));
                o = call_read(op, k, t, text, q0, q1, doc ? doc : box.d, box.q0, doc ? box.q0 : box.q1, Inject(), nullptr, into);
            }
            delete text; note(o);
            return true;
        };
        auto must_equal = [&](const Slot& s, const Outcome& o, int k, const char* what) {
            if (!o.ok && is_sax(k) && deep) return;
            if (!o.ok) fail(op, V_REJECT, "%s %s cannot be read by %s (%s): %s", what, kind_name(wk), kind_name(k), exc_text(o).c_str(), clip(s.disk, 600).c_str());
            else if (o.dump != s.dump) fail(op, (t.flags & T_SHARED) && p.dump_noid == o.dump_noid ? V_IDENTITY : V_VALUE, "%s %s is read by %s as %s, saved was %s; text %s", what, kind_name(wk), kind_name(k), clip(o.dump, 600).c_str(), clip(s.dump, 600).c_str(), clip(s.disk, 600).c_str());
        };
        Outcome o;
        if (direct) { if (wk >= S1) for (int k : { (int)D5, (int)D6 }) if (load("null", k, o, kept)) must_equal(slot[1], o, k, "the document made by"); delete kept; return; }
        delete kept;
        const Fault* pf = find(op, X_PREFILL);
        Used used(t, pf ? (u64)pf->a | 1 : 0, pf ? prefill_size((u64)pf->a | 1) : 0);    // all of the recovery into one object
        into = used.obj;
        size_t n = slot[1].disk.size();
        std::vector<size_t> cuts;
        if (op.a == 0) { cuts.push_back(n); rt_count(F_CRASH_COMPLETE, 1); }
        else if (op.a == 1) cuts.push_back((size_t)op.b % (n + 1));
        else { size_t step = n > 160 ? n / 160 + 1 : 1; for (size_t c = 0; c <= n; c += step) cuts.push_back(c); if (n) cuts.push_back(n - 1); cuts.push_back(n); }
        std::string full = slot[1].disk;
        for (size_t cut : cuts) {
            rt_count(F_RESTART, 1);
            if (cut < n) rt_count(cut ? F_CRASH_TORN : F_CRASH_EMPTY, 1);
            slot[1].disk = full.substr(0, cut); slot[1].intact = cut == n;
            for (int k = P1; k < NKIND; ++k) {
                if (op.a != 0 && k != rk) continue;
                // recovery: newest readable slot
                if (load(slot[1].disk, k, o, nullptr)) {
                    if (slot[1].intact) { must_equal(slot[1], o, k, "an object completely stored by"); if (o.ok) rt_count(P_RECOVER_NEW, 1); }
                    else if (!(t.flags & T_ROOT)) { }
                    else if (o.ok) fail(op, V_ACCEPT, "%s accepts the torn text of a save by %s (%zu of %zu bytes): %s, delivering %s", kind_name(k), kind_name(wk), cut, n, clip(slot[1].disk, 600).c_str(), clip(o.dump).c_str());
                    else if (is_flag(k) ? o.exc != E_NONE : o.exc != E_PARSE && o.exc != E_DESER) fail(op, V_EXC, "%s reports a torn text with %s", kind_name(k), exc_text(o).c_str());
                    if (!o.ok && (op.a != 2 || cut % 16 == 0) && load(slot[0].disk, k, o, nullptr)) { must_equal(slot[0], o, k, "the previous save by"); if (o.ok) rt_count(P_RECOVER_OLD, 1); }
                }
            }
        }
    }

    static void op_misc(const Op& op, Prep& p)
    {
        std::string* scratch = new std::string;
        bool dontcare = false;
        std::string want = misc_expect(*p.misc, dontcare);
        with_faults(op, [&](const Inject& in) -> bool {
            Outcome o; arm(op, in);
            std::string got = misc_call(*p.misc, op.id, scratch);
            disarm(o); if (!in.alloc) note(digest(got));
            if (dontcare) return o.alloc_fired > 0;
            if (got != want) {
                bool failed = !got.empty() && got[0] == '!';
                int w = p.misc->which; bool reads = w == M_B64_DEC || w == M_PARSE_DT || w == M_PARSE_D || w == M_PARSE_YMD || w == M_COLOR;
                uint32_t cl = reads ? (want[0] == '!' ? V_ACCEPT : failed ? V_REJECT : V_VALUE) : V_TEXT;
                if (!(o.alloc_fired && failed)) fail(op, o.alloc_fired ? V_LOSTFAIL : cl, "%s of %s gives %s, expected %s", misc_name(w), clip(p.misc->text.empty() ? dump_of(p.misc->bytes) : p.misc->text).c_str(), clip(got).c_str(), clip(want).c_str());
            }
            return o.alloc_fired > 0;
        });
        delete scratch;
    }

    static void op_schema(const Op& op, Prep& p)
    {
        std::string want;
        if (find(op, X_ALLOC)) want = p.t->schema(op.id, op.a & 1);
        with_faults(op, [&](const Inject& in) -> bool {
            Outcome o; arm(op, in);
            std::string s = p.t->schema(op.id, op.a & 1);
            disarm(o);
            if (!in.alloc) note(digest(s));
            bool failed = !s.empty() && s[0] == '!';
            if (o.alloc_fired) {
                if (!failed && s != want) fail(op, V_LOSTFAIL, "the schema is %s, expected %s", clip(s).c_str(), clip(want).c_str());
                std::string again = p.t->schema(op.id, op.a & 1);
                if (again != want) fail(op, V_LOSTFAIL, "the schema after a failed call is %s, expected %s", clip(again).c_str(), clip(want).c_str());
                return true;
            }
            if (!s.empty()) { rapidjson::Document d; parse_text(d, s); if (failed || d.HasParseError()) fail(op, V_TEXT, "the schema is not JSON: %s", clip(s).c_str()); }
            return false;
        });
    }

    static void prepare(const Op& op, Prep& p)
    {
        if (op.verb == OP_ENV) return;
        if (op.verb == OP_MISC) { p.misc = new MiscIn; misc_gen(*p.misc, op.seed); return; }
        p.t = find_type(op.type); if (!p.t) return;
        if (op.verb == OP_SCHEMA) return;
        const Fault* poison = find(op, X_POISON);
        bool reading = op.verb == OP_READ || (op.verb == OP_AGREE && op.b == 0);
        const Fault* kin = find(op, X_KIN); const Pool* from = nullptr;
        if (kin && !reading && g_pools) { auto it = g_pools->find((int)kin->a); if (it != g_pools->end()) { from = &it->second; rt_count(F_KIN, 1); } }
        make_object(p, op.seed, op.size, true, poison, from, !reading && g_pools ? &(*g_pools)[op.id] : nullptr, !reading && g_pools ? 1000000 * (op.id + 1) : 0);
        if (!reading) return;
        auto encode = [&](u64 seed, int size) {
            Prep q; q.t = p.t; make_object(q, seed, size, true, nullptr);
            Enc e(seed); e.style = op.style & 1; e.refs = !(op.style & 2); e.ws(); p.t->enc(q.obj, e); free_object(q); return e.out;
        };
        std::string s = encode(op.seed, op.size), other;
        for (auto& f : op.f) if (f.k < X_TEXT_END) {
            if ((f.k == X_STALE || f.k == X_MISDIRECT) && other.empty()) other = encode(op.seed ^ 0x77, op.size);
            if (s.size() < 20000) damage(s, f, other);
        }
        free_object(p);
        p.textual = true;
        p.tq0 = rt_seq(); p.text = new std::string(s); p.text->shrink_to_fit(); p.tq1 = rt_seq();
        p.vs = judge(*p.t, s, true); p.vd = judge(*p.t, s, false);
        if (const Fault* f = find(op, X_PREFILL)) {
            // members with a default that are absent keep what the target holds
            u64 seed = (u64)f->a | 1; p.us = judge(*p.t, s, true, seed, prefill_size(seed)); p.ud = judge(*p.t, s, false, seed, prefill_size(seed));
            if (op.verb != OP_AGREE || (p.us.dump == p.vs.dump && p.ud.dump == p.vd.dump)) p.prefill = seed;
        }
    }
    static void unprepare(Prep& p) { free_object(p); delete p.text; p.text = nullptr; delete p.misc; p.misc = nullptr; }

    static void perform(const Op& op, Prep& p)
    {
        switch (op.verb) {
        case OP_WRITE: if (p.obj) op_write(op, p); break;
        case OP_READ: if (p.text) op_read(op, p); break;
        case OP_STORE: if (p.obj) op_store(op, p); break;
        case OP_AGREE: if (p.t) op_agree(op, p); break;
        case OP_MISC: op_misc(op, p); break;
        case OP_SCHEMA: if (p.t) op_schema(op, p); break;
        case OP_ENV: env_apply(op.a); break;
        }
    }
    static void run_op(const Op& op, Prep* p)
    {
        u64 save = g_sum[rt_tid()]; g_sum[rt_tid()] = 0x1234;
        rt_count(K_OPS, 1);
        if (op.rep <= 1) perform(op, *p);
        else {
            // the same call over and over, or calls with ever new inputs (b = 2): nothing may pile up
            bool vary = op.b == 2;
            u64 blocks[3] = {}, bytes[3] = {}, first = 0, last = 0; long objs[3] = {};
            int n = vary ? 12 + op.rep * 6 : op.rep + 2, mid = vary ? n / 2 : 2;
            for (int i = 0; i < n; ++i) {
                if (i == mid) { blocks[0] = rt_live_blocks(); bytes[0] = rt_live_bytes(); objs[0] = tracked_live(); }
                if (vary) { Op o = op; o.seed = op.seed + (u64)i * 7919; o.rep = 1; o.b = 0; Prep q; prepare(o, q); perform(o, q); unprepare(q); }
                else { Op o = op; o.b = 0; g_sum[rt_tid()] = 0x1234; perform(o, *p); if (i == 0) first = last = g_sum[rt_tid()]; else if (g_sum[rt_tid()] != first) last = last * 31 + g_sum[rt_tid()]; }
            }
            if (!vary) g_sum[rt_tid()] = last;     // that of a single call if all of them have the same outcome
            u64 more = rt_live_blocks() - blocks[0], morebytes = rt_live_bytes() - bytes[0]; int calls = n - mid;
            if (g_mt) {}
            else if ((long)(tracked_live() - objs[0]) != 0) fail(op, V_LIFECYCLE, "%d repeated calls leave %ld user objects behind", calls, tracked_live() - objs[0]);
            if (g_mt) {}
            else if ((long)more > 0 && (!vary || (long)more >= calls / 2)) fail(op, V_LEAK, "%d repeated calls leave %ld blocks (%ld bytes) behind", calls, (long)more, (long)morebytes);
            else if (!vary && (long)morebytes > 0) fail(op, V_LEAK, "%d repeated calls leave %ld more bytes in use", calls, (long)morebytes);
            rt_count(P_LEAK_CHECKED, 1);
        }
        if (op.id >= 0 && op.id < RT_MAXOP) { rt_sh->op_hash[op.id] = g_sum[rt_tid()]; rt_sh->op_flags[op.id] = 1; }
        rt_hash(g_sum[rt_tid()]); rt_hash((u64)op.id);
        g_sum[rt_tid()] = save;
    }

    static bool is_nested(const Plan& pl, int id) { for (auto& o : pl.ops) for (auto& f : o.f) if (f.k == X_NEST && f.b == id) return true; return false; }
    static void thread_body(int tid, void*)
    {
        for (auto& op : g_plan->ops) if (op.tid == tid && !is_nested(*g_plan, op.id)) run_op(op, &(*g_preps)[op.src >= 0 && g_preps->count(op.src) && (*g_preps)[op.src].t ? op.src : op.id]);
    }
    void plan_exec(const Plan& plan0)
    {
        rt_child_init(plan0.fill, plan0.reuse);
        static Plan plan; plan = plan0; g_plan = &plan;
        static std::map<int, Prep> preps; g_preps = &preps;
        static std::map<int, Pool> pools; for (auto& o : plan0.ops) if (find(o, X_KIN)) g_pools = &pools;
        g_mt = plan.threads() > 1;
        rt_count(K_RUNS, 1);
        for (auto& op : plan.ops) prepare(op, preps[op.id]);
        rt_sched(plan.sw.data(), (uint32_t)plan.sw.size());
        int n = plan.threads();
        rt_threads_run(n, thread_body, nullptr);
        rt_finish();
    }

    // ---------------------------------------------------------------- text form
    std::string plan_text(const Plan& p)
    {
        std::string s; char b[512];
        std::snprintf(b, sizeof b, "plan %s %llu %d %d %d\n", p.prop.c_str(), (unsigned long long)p.seed, p.fill, p.reuse, p.boot); s += b;
        for (auto& o : p.ops) {
            std::snprintf(b, sizeof b, "op %d thread %d %s %s seed %llu size %d kind %d style %d a %d b %d rep %d src %d\n", o.id, o.tid, verb_names[o.verb], o.type.c_str(), (unsigned long long)o.seed, o.size, o.kind, o.style, o.a, o.b, o.rep, o.src); s += b;
            for (auto& f : o.f) { std::snprintf(b, sizeof b, "  fault %d %ld %ld   # %s\n", f.k, f.a, f.b, fault_name(f.k)); s += b; }
        }
        for (auto& w : p.sw) { std::snprintf(b, sizeof b, "switch thread %d step %llu to %d\n", w.tid, (unsigned long long)w.step, w.target); s += b; }
        return s;
    }
    bool plan_parse(const std::string& s, Plan& p)
    {
        p = Plan(); size_t i = 0; bool ok = false;
        while (i < s.size()) {
            size_t e = s.find('\n', i); if (e == s.npos) e = s.size();
            std::string l = s.substr(i, e - i); i = e + 1;
            char a[128], t[128]; unsigned long long u; Op o; Fault f; RtSwitch w;
            if (std::sscanf(l.c_str(), "plan %127s %llu %d %d %d", a, &u, &p.fill, &p.reuse, &p.boot) == 5) { p.prop = a; p.seed = u; ok = true; }
            else if (std::sscanf(l.c_str(), "op %d thread %d %127s %127s seed %llu size %d kind %d style %d a %d b %d rep %d src %d", &o.id, &o.tid, a, t, &u, &o.size, &o.kind, &o.style, &o.a, &o.b, &o.rep, &o.src) == 12) {
                o.seed = u; o.type = t; for (int k = 0; k < OP_NVERB; ++k) if (!std::strcmp(a, verb_names[k])) o.verb = k; p.ops.push_back(o);
            }
            else if (std::sscanf(l.c_str(), " fault %d %ld %ld", &f.k, &f.a, &f.b) == 3) { if (!p.ops.empty()) p.ops.back().f.push_back(f); }
            else if (std::sscanf(l.c_str(), "switch thread %d step %llu to %d", &w.tid, &u, &w.target) == 3) { w.step = u; p.sw.push_back(w); }
        }
        return ok;
    }
}
