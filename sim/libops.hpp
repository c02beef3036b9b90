// Calls of the library for one type; everything here goes through the public interface.
#pragma once
#include "ops.hpp"
#include <persistence/write_all.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/utility.hpp>
#include <persistence/exception.hpp>
#include <persistence/schema_utility.hpp>
#include <new>

namespace sim
{
    template<typename T, unsigned F> struct Ops : Type
    {
        static constexpr size_t alloc_size = sizeof(T) ? sizeof(T) : 1;
        void* raw() const override { return ::operator new(alloc_size); }
        void release_raw(void* p) const override { ::operator delete(p); }
        void construct(void* p) const override { ::new (p) T(); }
        void destroy(void* p) const override { static_cast<T*>(p)->~T(); }
        void gen(void* p, Gen& g) const override { Spec<T>::gen(g, *static_cast<T*>(p)); }
        std::string dump(const void* p, bool identity, std::set<const void*>* seen) const override { Dump d; d.identity = identity; d.seen = seen; Spec<T>::dump(*static_cast<const T*>(p), d); return std::move(d.out); }
        int inexpressible(const void* p) const override { Dump d; Spec<T>::dump(*static_cast<const T*>(p), d); return d.bad; }
        void enc(const void* p, Enc& e) const override { Spec<T>::enc(*static_cast<const T*>(p), e); }
        void* holder(const void* p) const override { if constexpr ((F & T_SHARED) && std::is_copy_constructible_v<T>) return new (::operator new(alloc_size)) T(*static_cast<const T*>(p)); else return nullptr; }
        void dec(const Json& j, Dec& c, Verdict& v, u64 prefill, int size) const override
        {
            T t{};
            if (prefill) { Gen g(prefill, size); Spec<T>::gen(g, t); }
            c.root = &j;
            Spec<T>::dec(j, t, c);
            v.accept = c.faults.empty();
            v.dontcare = c.dontcare; v.int_for_float = c.int_for_float; v.unknown = c.unknown; v.has_ref = c.has_ref; v.has_variant = c.has_variant; v.faults = std::move(c.faults);
            if (v.accept) { v.dump = dump_of(t); if (F & T_SHARED) v.dump_noid = dump_of(t, false); }
        }
        std::string schema(int op, bool document) const override
        {
            std::string r;
            if constexpr (F & T_PLAIN) {
                rt_call_begin(op, name);
                try { std::string s = document ? persistence::schema_document_to_string<T>() : persistence::schema_to_string<T>(); rt_call_end(); r = s; }
                catch (const std::bad_alloc&) { rt_call_end(); r = "!alloc"; }
                catch (const std::exception&) { rt_call_end(); r = "!exception"; }
            }
            (void)op; (void)document;
            return r;
        }

        void call(CallIo& a) const override
        {
            const T* src = static_cast<const T*>(a.src);
            T* obj = static_cast<T*>(a.obj);
            (void)src; (void)obj;
            rt_call_begin(a.op, name);
            try {
                switch (a.kind) {
                case W1: if constexpr (F & T_W) { a.ok = persistence::write_to_string(*src, *a.scratch); } break;
                case W2: if constexpr (F & T_W) { std::string s = persistence::write_to_string(*src); a.ok = true; rt_call_end(); *a.scratch = std::move(s); } break;
                case S1: if constexpr (F & T_W) { a.ok = persistence::serialize_to_document(*src, *a.doc); } break;
                case S2: if constexpr (F & T_W) { rapidjson::Document d = persistence::serialize_to_document(*src); a.ok = true; rt_call_end(); a.doc->Swap(d); } break;
                case P1: if constexpr (F & T_SAX) { a.ok = persistence::parse(*a.text, *obj); } break;
                case P2: if constexpr (F & T_SAX) { ::new (a.obj) T(persistence::parse<T>(*a.text)); a.constructed = a.ok = true; } break;
                case D1: if constexpr (F & T_DOM) { a.ok = persistence::deserialize(*a.text, *obj); } break;
                case D2: if constexpr (F & T_DOM) { a.ok = persistence::deserialize(std::move(*a.scratch), *obj); } break;
                case D3: if constexpr (F & T_DOM) { ::new (a.obj) T(persistence::deserialize<T>(*a.text)); a.constructed = a.ok = true; } break;
                case D4: if constexpr (F & T_DOM) { ::new (a.obj) T(persistence::deserialize<T>(std::move(*a.scratch))); a.constructed = a.ok = true; } break;
                case D5: if constexpr (F & T_DOM) { a.ok = persistence::deserialize(*a.doc, *obj); } break;
                case D6: if constexpr (F & T_DOM) { ::new (a.obj) T(persistence::deserialize<T>(*a.doc)); a.constructed = a.ok = true; } break;
                }
                rt_call_end();
            }
            catch (const HookStd& e) { rt_call_end(); a.ok = false; a.exc = E_HOOK; a.payload = e.payload; }
            catch (const HookRun& e) { rt_call_end(); a.ok = false; a.exc = E_HOOK; a.payload = e.payload; }
            catch (const HookAlloc& e) { rt_call_end(); a.ok = false; a.exc = E_HOOK; a.payload = e.payload; }
            catch (const HookError& e) { rt_call_end(); a.ok = false; a.exc = E_HOOK; a.payload = e.payload; }
            catch (const persistence::JsonSerializationError& e) { rt_call_end(); a.ok = false; a.exc = E_SER; a.what = e.what(); }
            catch (const persistence::JsonParseError& e) { rt_call_end(); a.ok = false; a.exc = E_PARSE; a.what = e.what(); a.offset = e.offset; }
            catch (const persistence::JsonDeserializationError& e) { rt_call_end(); a.ok = false; a.exc = E_DESER; a.what = e.what(); a.path = e.path; }
            catch (const std::bad_alloc& e) { rt_call_end(); a.ok = false; a.exc = E_ALLOC; }
            catch (const std::exception& e) { rt_call_end(); a.ok = false; a.exc = E_STD; a.what = e.what(); }
            catch (...) { rt_call_end(); a.ok = false; a.exc = E_OTHER; }
        }
    };
    template<typename T, unsigned F> void add(const char* name) { static Ops<T, F> ops; ops.name = name; ops.flags = F; registry().types.push_back(&ops); }
}
