// User-defined types that the simulation stores and loads. `persist` is what a user of the library writes;
// `fields` describes the same class to the reference model.
#pragma once
#include "libops.hpp"
#include <persistence/object.hpp>
#include <persistence/enum.hpp>
#include <persistence/enum_utility.hpp>
#include <boost/describe.hpp>

namespace sim
{
    // ------------------------------------------------------------ enumerations
    enum class Small : signed char { A = -128, B = -1, C = 0, D = 1, E = 127 };
    enum class Wide : unsigned short { A = 0, B = 1, C = 255, D = 256, E = 65535 };
    enum class Huge : long long { A = std::numeric_limits<long long>::min(), B = -1, C = 0, D = 1ll << 40, E = std::numeric_limits<long long>::max() };
    enum class Color { Red, Green, Blue, Octarine, Bluegreen };
    enum class Suit { Hearts, Spades, Clubs };
    BOOST_DESCRIBE_ENUM(Suit, Hearts, Spades, Clubs)
    enum class Mood { Calm, Cross, Calmer };   // its name conversions are user code that can fail

    template<typename E> struct EnumNames;
    template<> struct EnumNames<Color> { static constexpr std::array<std::string_view, 5> names{ "red", "green", "blue", "octarine", "blue-green" }; };
    template<> struct EnumNames<Suit> { static constexpr std::array<std::string_view, 3> names{ "Hearts", "Spades", "Clubs" }; };
    template<> struct EnumNames<Mood> { static constexpr std::array<std::string_view, 3> names{ "calm", "cross", "calmer" }; };
    template<typename E> concept Named = requires { EnumNames<E>::names; };

    template<typename E> struct Spec<E, std::enable_if_t<std::is_enum_v<E> && !std::is_same_v<E, std::byte> && !Named<E>>>
    {
        using U = std::underlying_type_t<E>;
        static void gen(Gen& g, E& v) { U u; if (g.r.chance(30)) Spec<U>::gen(g, u); else { static const E some[] = { E::A, E::B, E::C, E::D, E::E }; u = (U)some[g.r.below(5)]; } v = (E)u; }
        static void dump(const E& v, Dump& d) { d.out += 'e'; Spec<U>::dump((U)v, d); }
        static void enc(const E& v, Enc& e) { Spec<U>::enc((U)v, e); }
        static void dec(const Json& j, E& v, Dec& c) { U u = 0; Spec<U>::dec(j, u, c); v = (E)u; }
    };
    template<typename E> struct Spec<E, std::enable_if_t<std::is_enum_v<E> && Named<E>>>
    {
        static constexpr auto& names() { return EnumNames<E>::names; }
        static void gen(Gen& g, E& v) { v = (E)g.r.below(names().size()); if (g.poison()) v = (E)(g.r.chance(50) ? -1 - (int)g.r.below(3) : (int)names().size() + (int)g.r.below(300)); }
        static void dump(const E& v, Dump& d) { if ((size_t)v >= names().size()) d.bad++; d.out += 'n'; d.num((long long)v); }
        static void enc(const E& v, Enc& e) { e.str(names()[(size_t)v]); }
        static void dec(const Json& j, E& v, Dec& c)
        {
            v = (E)0;
            if (j.IsString()) {
                std::string_view s(j.GetString(), j.GetStringLength());
                for (size_t i = 0; i < names().size(); ++i) if (names()[i] == s) { v = (E)i; return; }
            }
            c.fault();
        }
    };
}

namespace persistence
{
    template<> struct enum_traits<sim::Color>
    {
        inline constexpr static auto converter = make_enum_converter({ make_enum(sim::Color::Red, "red"), make_enum(sim::Color::Green, "green"), make_enum(sim::Color::Blue, "blue"),
            make_enum(sim::Color::Octarine, "octarine"), make_enum(sim::Color::Bluegreen, "blue-green") });
        static std::string_view to_string(sim::Color v) { return converter.to_string(v); }
        static bool from_string(const std::string_view& s, sim::Color& v) { return converter.from_string(s, v); }
    };
    template<> struct enum_traits<sim::Mood>
    {
        static std::string_view to_string(sim::Mood v) { sim::hook(sim::H_TO_STRING); return (std::size_t)v < 3 ? sim::EnumNames<sim::Mood>::names[(std::size_t)v] : std::string_view(); }
        static bool from_string(const std::string_view& s, sim::Mood& v)
        {
            if (!sim::hook(sim::H_FROM_STRING)) return false;
            auto& n = sim::EnumNames<sim::Mood>::names;
            for (std::size_t i = 0; i < n.size(); ++i) if (n[i] == s) { v = (sim::Mood)i; return true; }
            return false;
        }
    };
}

#define PERSIST template<typename Archive> constexpr auto persist(Archive& ar)
#define FIELDS template<typename S, typename F> static void fields(S& s, F&& f)

namespace sim
{
    // ------------------------------------------------------------ classes
    struct C1 { int value = 0; PERSIST { return ar & MEMBER_VARIABLE(value); } FIELDS { f("value", s.value); } bool operator<(const C1& o) const { return value < o.value; } };
    struct C2 { std::string name; double weight = 0; PERSIST { return ar & MEMBER_VARIABLE(name) & MEMBER_VARIABLE(weight); } FIELDS { f("name", s.name); f("weight", s.weight); } };
    struct C3
    {
        bool flag = false; std::string text; std::vector<int> list;
        PERSIST { return ar & MEMBER_VARIABLE(flag) & MEMBER_VARIABLE(text) & MEMBER_VARIABLE(list); }
        FIELDS { f("flag", s.flag); f("text", s.text); f("list", s.list); }
    };
    struct CDerived : C3
    {
        long extra = 0; Color color = Color::Red;
        PERSIST { return this->C3::persist(ar) & MEMBER_VARIABLE(extra) & MEMBER_VARIABLE(color); }
        FIELDS { C3::fields(s, f); f("extra", s.extra); f("color", s.color); }
    };
    struct CDerived2 : CDerived
    {
        double ratio = 0;
        PERSIST { return this->CDerived::persist(ar) & MEMBER_VARIABLE(ratio); }
        FIELDS { CDerived::fields(s, f); f("ratio", s.ratio); }
    };
    struct C12
    {
        int a = 0, ab = 0, abc = 0, abcd = 0, b = 0, ba = 0; unsigned short c = 0; std::string d; double e = 0; float g = 0; signed char h = 0; unsigned long long i = 0;
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(ab) & MEMBER_VARIABLE(abc) & MEMBER_VARIABLE(abcd) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(ba)
            & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(e) & MEMBER_VARIABLE(g) & MEMBER_VARIABLE(h) & MEMBER_VARIABLE(i); }
        FIELDS { f("a", s.a); f("ab", s.ab); f("abc", s.abc); f("abcd", s.abcd); f("b", s.b); f("ba", s.ba); f("c", s.c); f("d", s.d); f("e", s.e); f("g", s.g); f("h", s.h); f("i", s.i); }
    };
    struct COpt
    {
        std::optional<int> a; std::optional<std::string> b; int c = 0; std::optional<std::vector<std::string>> d; std::optional<C2> e; std::optional<Color> g; std::optional<Timestamp> h; std::optional<std::map<std::string, int>> i;
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(e) & MEMBER_VARIABLE(g) & MEMBER_VARIABLE(h) & MEMBER_VARIABLE(i); }
        FIELDS { f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); f("e", s.e); f("g", s.g); f("h", s.h); f("i", s.i); }
    };
    struct CSoloOpt { std::optional<C2> only; PERSIST { return ar & MEMBER_VARIABLE(only); } FIELDS { f("only", s.only); } };
    struct CPairOpt { std::optional<double> x; C1 y; PERSIST { return ar & MEMBER_VARIABLE(x) & MEMBER_VARIABLE(y); } FIELDS { f("x", s.x); f("y", s.y); } };
    struct CDefault
    {
        std::string a = "default"; int b = 42; std::vector<int> c; double d = 2.5;
        PERSIST { return ar & MEMBER_VARIABLE_DEFAULT(a) & MEMBER_VARIABLE_DEFAULT(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE_DEFAULT(d); }
        FIELDS { f("a", s.a, true); f("b", s.b, true); f("c", s.c); f("d", s.d, true); }
    };
    struct CSoloDef { int only = 7; PERSIST { return ar & MEMBER_VARIABLE_DEFAULT(only); } FIELDS { f("only", s.only, true); } };
    struct CNamed
    {
        int a = 0, b = 0, c = 0, d = 0; std::string e; C1 g; std::vector<C1> h; int i = 0;
        PERSIST { return ar & NAMED_MEMBER_VARIABLE("a/b", a) & NAMED_MEMBER_VARIABLE("m~n", b) & NAMED_MEMBER_VARIABLE("", c) & NAMED_MEMBER_VARIABLE("with \"quotes\"", d)
            & NAMED_MEMBER_VARIABLE("\xc3\xa9", e) & NAMED_MEMBER_VARIABLE("~1", g) & NAMED_MEMBER_VARIABLE("/", h) & NAMED_MEMBER_VARIABLE_DEFAULT("0", i); }
        FIELDS { f("a/b", s.a); f("m~n", s.b); f("", s.c); f("with \"quotes\"", s.d); f("\xc3\xa9", s.e); f("~1", s.g); f("/", s.h); f("0", s.i, true); }
    };
    struct CNest
    {
        C1 one; C2 two; CDerived three; std::array<C2, 2> four; std::map<std::string, C3> five; std::unique_ptr<C2> six = std::make_unique<C2>(); Bytes seven; Ymd eight{}; Timestamp nine{}; Suit ten = Suit::Hearts; Small eleven = Small::A; std::nullptr_t twelve = nullptr;
        PERSIST { return ar & MEMBER_VARIABLE(one) & MEMBER_VARIABLE(two) & MEMBER_VARIABLE(three) & MEMBER_VARIABLE(four) & MEMBER_VARIABLE(five) & MEMBER_VARIABLE(six)
            & MEMBER_VARIABLE(seven) & MEMBER_VARIABLE(eight) & MEMBER_VARIABLE(nine) & MEMBER_VARIABLE(ten) & MEMBER_VARIABLE(eleven) & MEMBER_VARIABLE(twelve); }
        FIELDS { f("one", s.one); f("two", s.two); f("three", s.three); f("four", s.four); f("five", s.five); f("six", s.six); f("seven", s.seven); f("eight", s.eight); f("nine", s.nine); f("ten", s.ten); f("eleven", s.eleven); f("twelve", s.twelve); }
    };
    struct CTail   // containers that are followed by something
    {
        std::vector<std::pair<std::string, int>> a; std::set<bool> b; std::vector<bool> c; std::array<bool, 2> d{}; std::unordered_map<std::string, std::vector<int>> e; std::set<float> g; std::array<float, 2> h{}; std::vector<std::pair<std::string, std::set<bool>>> i;
        std::set<Suit> k; std::array<std::string, 5> l; std::set<unsigned short> m; std::vector<std::nullptr_t> n; bool last = false;
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(e) & MEMBER_VARIABLE(g) & MEMBER_VARIABLE(h) & MEMBER_VARIABLE(i) & MEMBER_VARIABLE(k) & MEMBER_VARIABLE(l) & MEMBER_VARIABLE(m) & MEMBER_VARIABLE(n) & MEMBER_VARIABLE(last); }
        FIELDS { f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); f("e", s.e); f("g", s.g); f("h", s.h); f("i", s.i); f("k", s.k); f("l", s.l); f("m", s.m); f("n", s.n); f("last", s.last); }
    };
    struct CDom   // members that only the document path can read
    {
        std::pair<int, std::string> a; std::tuple<double, bool, C1> b; std::variant<int, std::string, C2> c; std::set<std::pair<int, int>> d; std::optional<std::tuple<int>> e;
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(e); }
        FIELDS { f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); f("e", s.e); }
    };
    struct Fixed { int n = 0; std::string s; PERSIST { return ar & MEMBER_VARIABLE(n) & MEMBER_VARIABLE(s); } FIELDS { f("n", s.n); f("s", s.s); }
        static Fixed* pool() { static Fixed p[4] = { { 0, "" }, { -1, "one" }, { 2147483647, "a string that is long enough for the heap" }, { 5, "\"" } }; return p; } };
    struct WriteOnly   // members that can be written but not read
    {
        std::string_view a; std::map<std::string_view, double> b; std::vector<std::pair<std::string_view, std::string>> c; std::unordered_map<std::string_view, C1> d; Fixed* e = Fixed::pool(); std::vector<Fixed*> g; std::optional<std::string_view> h; std::vector<std::string_view> i;
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(e) & MEMBER_VARIABLE(g) & MEMBER_VARIABLE(h) & MEMBER_VARIABLE(i); }
        FIELDS { f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); f("e", s.e); f("g", s.g); f("h", s.h); f("i", s.i); }
    };
    // many members: names of all lengths with common beginnings and ends
    #define WIDE(X) X(x) X(xx) X(xxx) X(y) X(yx) X(xy) X(identifier) X(identifier1) X(identifier2) X(identifier_) X(Identifier) X(value) X(values) X(val) X(name_of_something_rather_long) X(name_of_something_rather_lonh) \
        X(a1) X(a2) X(a3) X(a4) X(a5) X(a6) X(a7) X(a8) X(a9) X(a10) X(a11) X(a12) X(a13) X(a14) X(a15) X(a16) X(b1) X(b2) X(b3) X(b4) X(b5) X(b6) X(b7) X(b8) X(b9) X(c_) X(c__) X(c___) X(A1) X(B1)
    struct CWide
    {
    #define WIDE_DECLARE(n) int n = 0;
    #define WIDE_PERSIST(n) & MEMBER_VARIABLE(n)
    #define WIDE_FIELD(n) f(#n, s.n);
        WIDE(WIDE_DECLARE) bool last = false;
        PERSIST { return ar WIDE(WIDE_PERSIST) & MEMBER_VARIABLE(last); }
        FIELDS { WIDE(WIDE_FIELD) f("last", s.last); }
    };
    struct CSeventy   // more members than a machine word has bits
    {
    #define TEN(X, p) X(p##0) X(p##1) X(p##2) X(p##3) X(p##4) X(p##5) X(p##6) X(p##7) X(p##8) X(p##9)
    #define SEVENTY(X) TEN(X, m0) TEN(X, m1) TEN(X, m2) TEN(X, m3) TEN(X, m4) TEN(X, m5) TEN(X, m6)
        SEVENTY(WIDE_DECLARE) std::optional<int> opt; int def = 3;
        PERSIST { return ar SEVENTY(WIDE_PERSIST) & MEMBER_VARIABLE(opt) & MEMBER_VARIABLE_DEFAULT(def); }
        FIELDS { SEVENTY(WIDE_FIELD) f("opt", s.opt); f("def", s.def, true); }
    };
    struct Tree
    {
        std::string label; std::vector<Tree> children; std::map<std::string, Tree> named;
        PERSIST { return ar & MEMBER_VARIABLE(label) & MEMBER_VARIABLE(children) & MEMBER_VARIABLE_DEFAULT(named); }
        FIELDS { f("label", s.label); f("children", s.children); f("named", s.named, true); }
    };
    struct Chain
    {
        int head = 0; std::optional<std::unique_ptr<Chain>> tail;
        PERSIST { return ar & MEMBER_VARIABLE(head) & MEMBER_VARIABLE(tail); }
        FIELDS { f("head", s.head); f("tail", s.tail); }
    };

    // ------------------------------------------------------------ object graphs
    struct Leaf { using cheap = void; int serial = 0; PERSIST { return ar & MEMBER_VARIABLE(serial); } FIELDS { f("serial", s.serial); } };
    struct Node
    {
        int serial = 0; std::vector<std::shared_ptr<Leaf>> leaves; std::optional<std::shared_ptr<Leaf>> best; std::optional<std::shared_ptr<Node>> next;
        PERSIST { return ar & MEMBER_VARIABLE(serial) & MEMBER_VARIABLE(leaves) & MEMBER_VARIABLE(best) & MEMBER_VARIABLE(next); }
        FIELDS { f("serial", s.serial); f("leaves", s.leaves); f("best", s.best); f("next", s.next); }
    };
    struct DeepTree     // values of any depth
    {
        int v = 0; std::vector<DeepTree> kids; std::map<std::string, DeepTree> m;
        void deepen() { if (v & 1) { m.clear(); m["next"]; } else { kids.clear(); kids.emplace_back(); } }
        DeepTree& below() { return v & 1 ? m["next"] : kids[0]; }
        PERSIST { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(kids) & MEMBER_VARIABLE(m); }
        FIELDS { f("v", s.v); f("kids", s.kids); f("m", s.m); }
    };
    struct DeepChain
    {
        int v = 0; std::optional<std::shared_ptr<DeepChain>> next; std::optional<std::string> s;
        void deepen() { next = std::make_shared<DeepChain>(); }
        DeepChain& below() { return **next; }
        PERSIST { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(next) & MEMBER_VARIABLE(s); }
        FIELDS { f("v", s.v); f("next", s.next); f("s", s.s); }
    };
    struct Spine
    {
        int v = 0; std::vector<std::unique_ptr<Spine>> a; std::string t;
        void deepen() { a.clear(); a.push_back(std::make_unique<Spine>()); }
        Spine& below() { return *a[0]; }
        PERSIST { return ar & MEMBER_VARIABLE(t) & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(v); }
        FIELDS { f("t", s.t); f("a", s.a); f("v", s.v); }
    };
    struct DeepSet      // its parsers take up much room
    {
        using no_pointers = void;
        std::set<DeepSet> k; int v = 0;
        static int order(const DeepSet& a, const DeepSet& b)     // linear in the number of levels
        {
            if (a.v != b.v) return a.v < b.v ? -1 : 1;
            auto i = a.k.begin(), j = b.k.begin();
            for (; i != a.k.end() && j != b.k.end(); ++i, ++j) if (int c = order(*i, *j)) return c;
            return i != a.k.end() ? 1 : j != b.k.end() ? -1 : 0;
        }
        bool operator<(const DeepSet& o) const { return order(*this, o) < 0; }
        void deepen() { k.clear(); k.emplace(); }
        DeepSet& below() { return const_cast<DeepSet&>(*k.begin()); }
        PERSIST { return ar & MEMBER_VARIABLE(k) & MEMBER_VARIABLE(v); }
        FIELDS { f("k", s.k); f("v", s.v); }
    };
    struct First { std::shared_ptr<Leaf> inner = std::make_shared<Leaf>(); PERSIST { return ar & MEMBER_VARIABLE(inner); } FIELDS { f("inner", s.inner); } };   // object and first member at one address
    struct Graph
    {
        std::shared_ptr<Leaf> a = std::make_shared<Leaf>(); std::vector<std::shared_ptr<Node>> b; std::map<std::string, std::shared_ptr<Leaf>> c; std::unordered_map<std::string, std::shared_ptr<Node>> d;
        std::set<std::shared_ptr<Leaf>> e; std::array<std::shared_ptr<Leaf>, 2> g{ std::make_shared<Leaf>(), std::make_shared<Leaf>() }; std::vector<std::vector<std::shared_ptr<Leaf>>> h; std::shared_ptr<C1> i = std::make_shared<C1>(); std::optional<std::shared_ptr<C1>> k;
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & NAMED_MEMBER_VARIABLE("c/~d", c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(e) & MEMBER_VARIABLE(g) & NAMED_MEMBER_VARIABLE("", h) & MEMBER_VARIABLE(i) & MEMBER_VARIABLE(k); }
        FIELDS { f("a", s.a); f("b", s.b); f("c/~d", s.c); f("d", s.d); f("e", s.e); f("g", s.g); f("", s.h); f("i", s.i); f("k", s.k); }
    };
    struct Blank { std::optional<int> v; PERSIST { return ar & MEMBER_VARIABLE(v); } FIELDS { f("v", s.v); } };   // may be an object without members
    using OverNum = std::variant<std::vector<long long>, std::vector<double>>; using OverStr = std::variant<std::set<std::string>, std::vector<std::string>, Bytes>; using OverObj = std::variant<C3, C1, Blank>;
    template<> constexpr bool overlapping<OverNum> = true; template<> constexpr bool overlapping<OverStr> = true; template<> constexpr bool overlapping<OverObj> = true;
    struct GraphX   // shared objects whose JSON is not an object, or one without members
    {
        std::vector<std::shared_ptr<Blank>> a; std::vector<std::shared_ptr<int>> b; std::map<std::string, std::shared_ptr<std::vector<int>>> c; std::vector<std::shared_ptr<std::string>> d; std::vector<std::shared_ptr<std::map<std::string, int>>> e;
        std::shared_ptr<double> g = std::make_shared<double>(); std::optional<std::shared_ptr<std::set<int>>> h; std::vector<std::shared_ptr<Suit>> i; std::array<std::shared_ptr<std::vector<std::shared_ptr<Leaf>>>, 2> k{ std::make_shared<std::vector<std::shared_ptr<Leaf>>>(), std::make_shared<std::vector<std::shared_ptr<Leaf>>>() };
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(e) & MEMBER_VARIABLE(g) & MEMBER_VARIABLE(h) & MEMBER_VARIABLE(i) & MEMBER_VARIABLE(k); }
        FIELDS { f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); f("e", s.e); f("g", s.g); f("h", s.h); f("i", s.i); f("k", s.k); }
    };
    struct GraphT   // through tuples and pairs
    {
        std::tuple<std::shared_ptr<Leaf>, std::shared_ptr<Leaf>> a{ std::make_shared<Leaf>(), std::make_shared<Leaf>() }; std::pair<std::shared_ptr<Node>, int> b{ std::make_shared<Node>(), 0 }; std::vector<std::pair<std::shared_ptr<Node>, std::shared_ptr<Leaf>>> c;
        std::unique_ptr<std::shared_ptr<Leaf>> d = std::make_unique<std::shared_ptr<Leaf>>();
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d); }
        FIELDS { f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); }
    };
    struct GraphW   // at higher positions
    {
        using P = std::shared_ptr<Leaf>;
        static P mk() { return std::make_shared<Leaf>(); }
        std::array<P, 7> a{ mk(), mk(), mk(), mk(), mk(), mk(), mk() }; std::tuple<P, P, int, P, std::string, P, P> b{ mk(), mk(), 0, mk(), "", mk(), mk() }; std::tuple<int, P, std::pair<P, P>, std::vector<P>> c{ 0, mk(), { mk(), mk() }, {} }; std::optional<std::tuple<P, P, P, P>> d;
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d); }
        FIELDS { f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); }
    };

    struct Whole { Leaf head; int x = 0; std::array<Leaf, 2> rest; PERSIST { return ar & MEMBER_VARIABLE(head) & MEMBER_VARIABLE(x) & MEMBER_VARIABLE(rest); } FIELDS { f("head", s.head); f("x", s.x); f("rest", s.rest); } };
    struct GraphA   // pointers to parts of shared objects: same owner, the first part also at the same address
    {
        std::vector<std::shared_ptr<Whole>> a; std::vector<std::shared_ptr<Leaf>> b; std::map<std::string, std::shared_ptr<Whole>> c; std::optional<std::shared_ptr<Leaf>> d;
        void entwine(Gen& g)
        {
            std::vector<std::shared_ptr<Whole>> w(a); for (auto& [k, v] : c) w.push_back(v);
            auto part = [&](std::shared_ptr<Leaf>& p) { bool want = g.r.chance(60); u64 which = g.r.next(), at = g.r.below(4); if (!want || !p || w.empty()) return; auto& o = w[which % w.size()]; if (o) p = std::shared_ptr<Leaf>(o, at < 2 ? &o->head : &o->rest[at - 2]); };
            for (auto& p : b) part(p);
            if (d) part(*d);
        }
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d); }
        FIELDS { f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); }
    };

    struct AltA { std::shared_ptr<Leaf> p = std::make_shared<Leaf>(); std::optional<std::shared_ptr<Node>> q; int n = 0; PERSIST { return ar & MEMBER_VARIABLE(p) & MEMBER_VARIABLE(q) & MEMBER_VARIABLE(n); } FIELDS { f("p", s.p); f("q", s.q); f("n", s.n); } };
    struct AltB { Leaf p; std::optional<std::shared_ptr<Node>> q; std::string t; PERSIST { return ar & MEMBER_VARIABLE(p) & MEMBER_VARIABLE(q) & MEMBER_VARIABLE(t); } FIELDS { f("p", s.p); f("q", s.q); f("t", s.t); } };
    struct AltC { std::shared_ptr<Leaf> p = std::make_shared<Leaf>(); bool b = false; PERSIST { return ar & MEMBER_VARIABLE(p) & MEMBER_VARIABLE(b); } FIELDS { f("p", s.p); f("b", s.b); } };
    using Alt = std::variant<AltA, AltB, std::shared_ptr<AltC>, std::shared_ptr<Leaf>, int>;   // alternatives that fail half way have read shared objects
    struct GraphV
    {
        Alt a; std::vector<Alt> b; std::vector<std::shared_ptr<Leaf>> c; std::optional<std::variant<std::pair<std::shared_ptr<Leaf>, AltA>, std::pair<std::shared_ptr<Leaf>, AltB>>> d;
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d); }
        FIELDS { f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); }
    };

    // ------------------------------------------------------------ user objects with code that can fail, and a watched life cycle
    struct Watched
    {
        Watched() { hook(H_CTOR); track_born(this); }
        Watched(const Watched& o) : id(o.id), mood(o.mood), tag(o.tag) { track_used(&o); hook(H_COPY); track_born(this); }
        Watched(Watched&& o) : id(o.id), mood(o.mood), tag(std::move(o.tag)) { track_used(&o); hook(H_COPY); track_born(this); }
        Watched& operator=(const Watched& o) { track_used(&o); track_used(this); id = o.id; mood = o.mood; tag = o.tag; return *this; }
        Watched& operator=(Watched&& o) { track_used(&o); track_used(this); id = o.id; mood = o.mood; tag = std::move(o.tag); return *this; }
        ~Watched() { track_gone(this); }
        bool operator<(const Watched& o) const { track_used(this); track_used(&o); hook(H_LESS); return id != o.id ? id < o.id : tag < o.tag; }
        int id = 0; Mood mood = Mood::Calm; std::string tag;
        template<typename Archive> auto persist(Archive& ar) { hook(H_PERSIST); return ar & MEMBER_VARIABLE(id) & MEMBER_VARIABLE(mood) & MEMBER_VARIABLE(tag); }
        FIELDS { f("id", s.id); f("mood", s.mood); f("tag", s.tag); }
    };
    struct WatchedBase { Mood first = Mood::Calm; Watched second; PERSIST { return ar & MEMBER_VARIABLE(first) & MEMBER_VARIABLE(second); } FIELDS { f("first", s.first); f("second", s.second); } };
    struct WatchedDerived : WatchedBase { Watched third; int fourth = 0; PERSIST { return this->WatchedBase::persist(ar) & MEMBER_VARIABLE(third) & MEMBER_VARIABLE(fourth); } FIELDS { WatchedBase::fields(s, f); f("third", s.third); f("fourth", s.fourth); } };
    struct WatchedMix
    {
        std::vector<Watched> a; std::map<std::string, Mood> b; std::optional<Watched> c; std::array<Mood, 2> d{}; std::unique_ptr<Watched> e = std::make_unique<Watched>(); int z = 0;
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(e) & MEMBER_VARIABLE(z); }
        FIELDS { f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); f("e", s.e); f("z", s.z); }
    };

    // ------------------------------------------------------------ a value that JSON cannot always express, at every position
    struct Fragile
    {
        double a = 0; std::vector<double> b; std::map<std::string, double> c; std::optional<double> d; std::array<float, 2> e{}; std::unique_ptr<C1> g = std::make_unique<C1>(); Ymd h = Spec<Ymd>::make(2000, 1, 1); std::unordered_map<std::string, std::vector<float>> i; int z = 0;
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE_DEFAULT(e) & MEMBER_VARIABLE(g) & MEMBER_VARIABLE(h) & MEMBER_VARIABLE(i) & MEMBER_VARIABLE(z); }
        FIELDS { f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); f("e", s.e, true); f("g", s.g); f("h", s.h); f("i", s.i); f("z", s.z); }
    };
    struct FragileBase { float base = 0; PERSIST { return ar & MEMBER_VARIABLE(base); } FIELDS { f("base", s.base); } };
    struct FragileDerived : FragileBase
    {
        std::tuple<int, double, std::string> a; std::pair<double, std::unique_ptr<C1>> b{ 0, std::make_unique<C1>() }; std::variant<std::string, double, C2> c; std::set<double> d; std::shared_ptr<C2> e = std::make_shared<C2>(); int z = 0;
        PERSIST { return this->FragileBase::persist(ar) & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(e) & MEMBER_VARIABLE(z); }
        FIELDS { FragileBase::fields(s, f); f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); f("e", s.e); f("z", s.z); }
    };

    // ------------------------------------------------------------ envelope of the simulated store
    template<typename T> struct Envelope
    {
        unsigned seq = 0; T data{};
        PERSIST { return ar & MEMBER_VARIABLE(seq) & MEMBER_VARIABLE(data); }
        FIELDS { f("seq", s.seq); f("data", s.data); }
    };
}
