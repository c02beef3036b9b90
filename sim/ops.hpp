// Interface between the type-independent simulation and the types under test.
#pragma once
#include <stdexcept>
#include <new>
#include "model.hpp"

namespace sim
{
    // every public entry point
    enum Kind { W1, W2, S1, S2, P1, P2, D1, D2, D3, D4, D5, D6, NKIND };
    inline const char* kind_name(int k)
    {
        static const char* const n[] = { "write_to_string(obj, string&)", "write_to_string(obj)", "serialize_to_document(obj, doc&)", "serialize_to_document(obj)",
            "parse(str, obj&)", "parse<T>(str)", "deserialize(const string&, obj&)", "deserialize(string&&, obj&)", "deserialize<T>(const string&)", "deserialize<T>(string&&)",
            "deserialize(doc&, obj&)", "deserialize<T>(doc&)" };
        return n[k];
    }
    inline bool is_write(int k) { return k <= S2; }
    inline bool is_sax(int k) { return k == P1 || k == P2; }
    inline bool is_dom(int k) { return k >= D1; }
    inline bool is_flag(int k) { return k == W1 || k == S1 || k == P1 || k == D1 || k == D2 || k == D5; }

    enum Exc { E_NONE, E_SER, E_PARSE, E_DESER, E_HOOK, E_ALLOC, E_STD, E_OTHER };

    struct CallIo
    {
        int kind = 0, op = 0;
        const void* src = nullptr;         // writing: the object
        const std::string* text = nullptr; // reading: the text
        std::string* scratch = nullptr;    // expiring text; target of W1; result of W2
        rapidjson::Document* doc = nullptr;// source of D5, D6; target of S1; result of S2
        void* obj = nullptr;               // reading into an object: the object; returning: raw storage
        bool constructed = false;          // raw storage now holds an object
        bool ok = false;
        int exc = E_NONE;
        u64 payload = 0;
        size_t offset = 0;
        std::string what, path;
    };

    enum : unsigned { T_W = 1, T_SAX = 2, T_DOM = 4, T_ROOT = 8 /* outermost value is an object, array or string */, T_SHARED = 16, T_HOOK = 32, T_VARIANT = 64, T_EXT = 128, T_PLAIN = 256, T_ADDR = 512 /* order depends on addresses */ };

    struct Verdict
    {
        bool accept = false, dontcare = false, dup = false, syntax = false, int_for_float = false, unknown = false, has_ref = false, has_variant = false, large = false, deep = false;
        size_t offset = 0; int depth = 0;
        std::string dump, dump_noid;
        std::vector<std::string> faults;
    };

    struct Type
    {
        const char* name = ""; unsigned flags = 0;
        virtual ~Type() = default;
        virtual void* raw() const = 0;                     // storage for one object
        virtual void release_raw(void*) const = 0;
        virtual void construct(void*) const = 0;
        virtual void destroy(void*) const = 0;
        virtual void gen(void*, Gen&) const = 0;
        virtual void* holder(const void*) const = 0;       // a copy that shares the shared objects, or null
        virtual std::string dump(const void*, bool identity, std::set<const void*>* seen) const = 0;
        virtual int inexpressible(const void*) const = 0;  // number of values that JSON cannot express
        virtual void enc(const void*, Enc&) const = 0;
        virtual void dec(const Json&, Dec&, Verdict&, u64 prefill = 0, int size = 0) const = 0;   // what the value denotes, for a target that holds the value of seed `prefill`
        virtual void call(CallIo&) const = 0;
        virtual std::string schema(int op, bool document) const = 0;  // generated JSON Schema of the type, T_PLAIN only
    };
    struct Registry { std::vector<Type*> types; };
    Registry& registry();

    // ---------------------------------------------------------------- helper functions of the library
    enum { M_B64_ENC, M_B64_DEC, M_ISO_DT, M_PARSE_DT, M_ISO_D, M_PARSE_D, M_PARSE_YMD, M_MAKE_DT, M_COLOR, M_SUIT, M_DOC_C, M_DOC_R, M_B64_VIEW, M_COUNT };
    struct MiscIn { int which = 0; Bytes bytes; std::string text; long long sec = 0; int value = 0; };
    void misc_gen(MiscIn& in, u64 seed);                   // makes an input
    std::string misc_call(const MiscIn& in, int op, std::string* scratch);  // outcome of the call, "!" for failure
    std::string misc_expect(const MiscIn& in, bool& dontcare);             // what it must be
    const char* misc_name(int which);

    // ---------------------------------------------------------------- user code that the library calls
    struct HookError { u64 payload; };      // what user code throws: unrelated to the standard exceptions, or one of them
    struct HookStd : std::exception { u64 payload; explicit HookStd(u64 p) : payload(p) {} };
    struct HookRun : std::runtime_error { u64 payload; explicit HookRun(u64 p) : std::runtime_error("user code"), payload(p) {} };
    struct HookAlloc : std::bad_alloc { u64 payload; explicit HookAlloc(u64 p) : payload(p) {} };
    enum : unsigned { H_FROM_STRING = 1, H_TO_STRING = 2, H_CTOR = 4, H_COPY = 8, H_PERSIST = 16, H_LESS = 32, H_EXT = 64, H_ALL = 127 };
    enum { A_NONE, A_FALSE, A_THROW, A_NEST };
    struct HookCtl { unsigned mask = 0; u64 seen = 0, fire_at = 0, payload = 0; int action = 0; bool fired = false; void (*nest)(void*) = nullptr; void* nest_arg = nullptr; };
    extern HookCtl hook_ctl[RT_MAXT];
    bool hook(unsigned site);                              // false: report failure
    // life cycle of user objects
    void track_born(const void* p);
    void track_gone(const void* p);
    void track_used(const void* p);
    long tracked_live();
}
