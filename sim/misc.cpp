// Calls of the helper functions of the library: Base64, dates, enumeration names, documents. Instrumented.
#include "types.hpp"
#include <persistence/base64.hpp>
#include <persistence/datetime.hpp>

namespace sim
{
    const char* misc_name(int w)
    {
        static const char* const n[] = { "base64_encode(bytes)", "base64_decode", "to_iso_datetime", "parse_datetime", "to_iso_date", "parse_date(timestamp)", "parse_date(year_month_day)", "make_datetime",
            "enum converter", "described enum", "string_to_document(const string&)", "string_to_document(string&&)", "base64_encode(string_view)" };
        return n[w];
    }
    static std::string number(long long v) { Dump d; d.num(v); return d.out; }
    static std::string render(const Bytes& v) { return dump_of(v); }
    static long long seconds(Timestamp t) { return (long long)std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count(); }

    void misc_gen(MiscIn& in, u64 seed)
    {
        Gen g(seed, 40);
        in.which = g.themed() ? g.theme % M_COUNT : (int)g.r.below(M_COUNT);
        Spec<Bytes>::gen(g, in.bytes);
        in.sec = gen_seconds(g);
        in.value = (int)g.r.below(5);
        if ((in.which == M_PARSE_DT || in.which == M_PARSE_D || in.which == M_PARSE_YMD) && g.r.chance(25)) { int y = g.r.range(0, 9999), m = g.r.range(1, 12); in.sec = days_of(y, m, g.r.range(1, month_days(y, m))) * 86400 + (long long)g.r.below(86400); }   // years that a time point cannot have
        int y, m, d; civil_of(in.sec >= 0 ? in.sec / 86400 : -((-in.sec + 86399) / 86400), y, m, d);
        switch (in.which) {
        case M_B64_DEC: in.text = b64(in.bytes); break;
        case M_B64_VIEW: in.text = gen_string(g); break;
        case M_PARSE_DT: in.text = iso_of(in.sec); break;
        case M_PARSE_D: case M_PARSE_YMD: in.text = iso_of(in.sec).substr(0, 10); break;
        case M_COLOR: in.text = g.r.chance(80) ? std::string(EnumNames<Color>::names[g.r.below(5)]) : gen_string(g); break;
        case M_SUIT: in.text = g.r.chance(80) ? std::string(EnumNames<Suit>::names[g.r.below(3)]) : gen_string(g); break;
        case M_DOC_C: case M_DOC_R: { CNest n; Spec<CNest>::gen(g, n); Enc e(seed); e.style = 1; Spec<CNest>::enc(n, e); in.text = e.out; break; }
        }
        if ((in.which == M_B64_DEC || in.which == M_PARSE_DT || in.which == M_PARSE_D || in.which == M_PARSE_YMD) && g.r.chance(50) && !in.text.empty()) {
            size_t at = g.r.below(in.text.size());
            if (g.r.chance(55) && edge_date(in.text, g.r)) {}
            else switch (g.r.below(5)) {
            case 0: in.text[at] = (char)('0' + g.r.below(10)); break;
            case 1: in.text[at] = (char)g.r.below(256); break;
            case 2: in.text.erase(at, 1 + g.r.below(4)); break;
            case 3: in.text.insert(at, 1, "=:-T Z0/+A"[g.r.below(10)]); break;
            default: in.text.resize(at); break;
            }
        }
        in.text.shrink_to_fit();
    }
    static std::string used(const MiscIn& in) { return std::string(in.value % 3 ? (size_t)in.value * 7 : 0, '#'); }   // what the target holds before
    std::string misc_call(const MiscIn& in, int op, std::string* scratch)
    {
        std::string r;
        rt_call_begin(op, misc_name(in.which));
        try {
            switch (in.which) {
            case M_B64_ENC: { std::string s = used(in); bool ok = persistence::base64_encode(in.bytes, s); rt_call_end(); r = ok ? s : "!"; break; }
            case M_B64_VIEW: { std::string s = used(in); bool ok = persistence::base64_encode(std::string_view(in.text), s); rt_call_end(); r = ok ? s : "!"; break; }
            case M_B64_DEC: { Bytes b(in.value % 3 ? (size_t)in.value * 7 : 0); bool ok = persistence::base64_decode(in.text, b); rt_call_end(); r = ok ? render(b) : "!"; break; }
            case M_ISO_DT: { auto d = persistence::to_iso_datetime(Timestamp(std::chrono::seconds(in.sec))); rt_call_end(); r.assign(d.text, d.length()); break; }
            case M_ISO_D: { auto d = persistence::to_iso_date(Timestamp(std::chrono::seconds(in.sec))); rt_call_end(); r.assign(d.text, d.length()); break; }
            case M_PARSE_DT: { Timestamp t{}; bool ok = persistence::parse_datetime(in.text.data(), in.text.size(), t); rt_call_end(); r = ok ? number(seconds(t)) : "!"; break; }
            case M_PARSE_D: { Timestamp t{}; bool ok = persistence::parse_date(in.text.data(), in.text.size(), t); rt_call_end(); r = ok ? number(seconds(t)) : "!"; break; }
            case M_PARSE_YMD: { Ymd t{}; bool ok = persistence::parse_date(in.text.data(), in.text.size(), t); rt_call_end(); r = ok ? dump_of(t) : "!"; break; }
            case M_MAKE_DT: {
                long long z = in.sec >= 0 ? in.sec / 86400 : -((-in.sec + 86399) / 86400); int s = (int)(in.sec - z * 86400); int y, m, d; civil_of(z, y, m, d);
                auto t = persistence::make_datetime((unsigned)y, (unsigned)m, (unsigned)d, (unsigned)(s / 3600), (unsigned)(s / 60 % 60), (unsigned)(s % 60)); rt_call_end(); r = number(seconds(t)); break; }
            case M_COLOR: { auto s = persistence::enum_traits<Color>::to_string((Color)in.value); Color c = Color::Red; bool ok = persistence::enum_traits<Color>::from_string(in.text, c); rt_call_end(); r = std::string(s) + "," + (ok ? number((long long)c) : "!"); break; }
            case M_SUIT: { std::string s = persistence::write_to_string((Suit)(in.value % 3)); rt_call_end(); r = s; break; }
            case M_DOC_C: { auto d = persistence::string_to_document(in.text); std::string s = persistence::document_to_string(d); rt_call_end(); r = s; break; }
            case M_DOC_R: {
                *scratch = in.text; std::string s;
                { auto d = persistence::string_to_document(std::move(*scratch)); rt_window_leave(); std::string().swap(*scratch); rt_window_enter(1); s = persistence::document_to_string(d); }
                rt_call_end(); r = s; break; }
            }
        }
        catch (const std::bad_alloc&) { rt_call_end(); r = "!alloc"; }
        catch (const std::exception&) { rt_call_end(); r = "!exception"; }
        return r;
    }
    std::string misc_expect(const MiscIn& in, bool& dontcare)
    {
        dontcare = false;
        long long sec; Bytes b; int y, m, d;
        switch (in.which) {
        case M_B64_ENC: return b64(in.bytes);
        case M_B64_VIEW: { Bytes v; for (char c : in.text) v.push_back((std::byte)c); return b64(v); }
        case M_B64_DEC: { int k = unb64(in.text, b); dontcare = k == 2; return k ? render(b) : "!"; }
        case M_ISO_DT: return iso_of(in.sec);
        case M_ISO_D: return iso_of(in.sec).substr(0, 10);
        case M_PARSE_DT: if (!parse_iso(in.text, sec)) return "!"; if (sec > 9223372036ll || sec < -9223372036ll) { dontcare = sec < 9223372038ll && sec > -9223372038ll; return "!"; } return number(sec);
        case M_PARSE_D: if (in.text.size() != 10 || !date_fields(in.text, y, m, d)) return "!"; sec = days_of(y, m, d) * 86400; if (sec > 9223372036ll || sec < -9223372036ll) { dontcare = sec < 9223372038ll && sec > -9223372038ll; return "!"; } return number(sec);
        case M_PARSE_YMD: if (in.text.size() != 10 || !date_fields(in.text, y, m, d)) return "!"; return dump_of(Spec<Ymd>::make(y, m, d));
        case M_MAKE_DT: return number(in.sec);
        case M_COLOR: { std::string r(EnumNames<Color>::names[(size_t)in.value]); r += ','; for (size_t i = 0; i < 5; ++i) if (EnumNames<Color>::names[i] == in.text) return r + number((long long)i); return r + "!"; }
        case M_SUIT: return "\"" + std::string(EnumNames<Suit>::names[(size_t)(in.value % 3)]) + "\"";
        default: {
            rapidjson::Document doc; doc.Parse<rapidjson::kParseFullPrecisionFlag>(in.text.data());
            rapidjson::StringBuffer sb; rapidjson::Writer<rapidjson::StringBuffer> w(sb); doc.Accept(w); return std::string(sb.GetString(), sb.GetSize()); }
        }
    }
}
