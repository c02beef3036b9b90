// A type with user-supplied conversions (specialisations of the four conversion templates).
#pragma once
#include "types.hpp"
namespace sim { struct Ext { int v = 0; bool bad = false; bool operator<(const Ext& o) const { return v < o.v; } }; }
namespace persistence
{
    template<> struct JsonWriter<sim::Ext> { bool operator()(const sim::Ext& e, StringWriter& w) const { if (!sim::hook(sim::H_EXT) || e.bad) return false; JsonWriter<int> i; return i(e.v, w); } };
    template<> struct JsonSerializer<sim::Ext> { bool operator()(const sim::Ext& e, rapidjson::Value& j) const { if (!sim::hook(sim::H_EXT) || e.bad) return false; JsonSerializer<int> i; return i(e.v, j); } };
    template<> struct JsonParser<sim::Ext> : JsonParser<int> { JsonParser(ReaderContext& c, sim::Ext& e) : JsonParser<int>(c, e.v) { sim::hook(sim::H_CTOR); } };
    template<bool Exception> struct JsonDeserializer<Exception, sim::Ext> : JsonContextAwareDeserializer
    {
        using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
        bool operator()(const rapidjson::Value& j, sim::Ext& e) const
        {
            if (!sim::hook(sim::H_EXT)) { if constexpr (Exception) { if (j.IsInt() && j.GetInt() % 2) throw JsonDeserializationError("conversion fails", "/"); } return false; }
            return deserialize<Exception>(j, e.v, context);
        }
    };
}
namespace sim
{
    template<> struct Spec<Ext>
    {
        static void gen(Gen& g, Ext& e) { Spec<int>::gen(g, e.v); e.bad = g.poison(); }
        static void dump(const Ext& e, Dump& d) { d.out += 'x'; d.num(e.v); if (e.bad) { d.out += '!'; d.bad++; } }
        static void enc(const Ext& e, Enc& x) { Spec<int>::enc(e.v, x); }
        static void dec(const Json& j, Ext& e, Dec& c) { Spec<int>::dec(j, e.v, c); e.bad = false; }
    };
    struct ExtMix
    {
        Ext a; std::vector<Ext> b; std::map<std::string, Ext> c; std::array<Ext, 2> d; std::set<Ext> e; std::optional<Ext> g; std::unique_ptr<Ext> h = std::make_unique<Ext>(); int z = 0;
        PERSIST { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(e) & MEMBER_VARIABLE(g) & MEMBER_VARIABLE(h) & MEMBER_VARIABLE(z); }
        FIELDS { f("a", s.a); f("b", s.b); f("c", s.c); f("d", s.d); f("e", s.e); f("g", s.g); f("h", s.h); f("z", s.z); }
    };
    struct ExtDerived : ExtMix
    {
        std::tuple<Ext, int> t; std::variant<std::string, Ext> u; std::shared_ptr<Ext> w = std::make_shared<Ext>();
        PERSIST { return this->ExtMix::persist(ar) & MEMBER_VARIABLE(t) & MEMBER_VARIABLE(u) & MEMBER_VARIABLE(w); }
        FIELDS { ExtMix::fields(s, f); f("t", s.t); f("u", s.u); f("w", s.w); }
    };
}
