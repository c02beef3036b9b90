// A plan is one complete, repeatable execution: operations, the faults injected into them, and the thread switches.
#pragma once
#include "ops.hpp"

namespace sim
{
    enum Verb { OP_WRITE, OP_READ, OP_STORE, OP_AGREE, OP_MISC, OP_SCHEMA, OP_ENV, OP_NVERB };
    inline const char* const verb_names[] = { "write", "read", "store", "agree", "misc", "schema", "env" };

    // faults; the numbers are part of the replay format
    enum FaultKind
    {
        // damage to a stored text
        X_TRUNC, X_BITFLIP, X_ZERO, X_DUPBLOCK, X_SWAPBLOCK, X_STALE, X_MISDIRECT, X_INSERT, X_DELETE,
        X_DIGIT, X_NUM, X_TYPE, X_KEY, X_DROP, X_DUP, X_EXTRA, X_REF, X_STR, X_DEEP, X_REPEAT, X_RUNAWAY,
        X_TEXT_END,
        // faults of the surroundings
        X_POISON = 40,  // a: which place; a value that JSON cannot express
        X_HOOK,         // a: n-th call of user code (0: each in turn), b: action + 16 * mask
        X_ALLOC,        // a: n-th allocation (0: each in turn), b: how many
        X_ENVMID,       // a: step of the call, b: environment change
        X_NEST,         // a: n-th call of user code, b: number of the operation performed there
        X_ERRNO,        // a: value of the error indicator on entry
        X_PREFILL,      // a: seed of what the target of a reading call holds before; on a store, all of the recovery reads into one target
        X_KIN           // a: number of an earlier operation with whose object this one's shares shared objects
    };
    inline const char* fault_name(int k)
    {
        static const char* const n[] = { "truncate", "bit-flip", "zeroed-block", "duplicated-block", "swapped-blocks", "stale-tail", "misdirected-write", "inserted-bytes", "deleted-bytes",
            "digit", "number", "type", "key", "drop", "duplicate", "extra", "reference", "string", "deep", "repeat", "runaway-nesting" };
        static const char* const m[] = { "inexpressible-value", "user-code", "allocation", "environment-mid-call", "nested-call", "errno", "used-target", "kin" };
        return k < X_TEXT_END ? n[k] : m[k - X_POISON];
    }
    struct Fault { int k; long a, b; };

    struct Op
    {
        int id = 0, tid = 1, verb = 0; std::string type = "-"; u64 seed = 0;
        int size = 20, kind = 0, style = 0, a = 0, b = 0, rep = 1, src = -1;   // meaning by verb, see exec.cpp
        std::vector<Fault> f;
    };
    struct Plan
    {
        std::string prop; u64 seed = 0; int fill = 0xA5, reuse = 0, boot = 0;
        std::vector<Op> ops; std::vector<RtSwitch> sw;
        int threads() const { int n = 1; for (auto& o : ops) if (o.tid > n) n = o.tid; return n; }
    };
    std::string plan_text(const Plan&);
    bool plan_parse(const std::string&, Plan&);
    [[noreturn]] void plan_exec(const Plan&);     // runs in the child, never returns
    void register_all();
    Type* find_type(const std::string& name);
}
