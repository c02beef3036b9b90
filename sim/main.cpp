// Seeded search over plans, minimisation and replay. Not instrumented; never calls the library itself.
#include "plan.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <functional>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double)t.tv_sec + t.tv_nsec * 1e-9; }

static const uint32_t SAFETY = V_CRASH | V_MEMSAFE | V_BADFREE | V_HANG;
struct Prop { const char* id; uint32_t relevant; };
static const Prop props[] = {
    { "C01", V_RACE | V_ACCEPT | V_REJECT | V_VALUE | V_TEXT | V_WFAIL | V_EXC | V_IDENTITY | V_PATH | V_LOSTFAIL | V_RETRY | V_TARGET | V_FROZEN | SAFETY },
    { "C02", V_REJECT | V_VALUE | V_ACCEPT | V_TEXT | V_WFAIL | V_EXC | V_IDENTITY | SAFETY },
    { "C03", V_ACCEPT | V_REJECT | V_VALUE | V_EXC | V_IDENTITY | SAFETY },
    { "C04", V_DISAGREE | V_PATH | V_EXC | SAFETY },
    { "C05", V_LOSTFAIL | V_EXC | V_RETRY | SAFETY },
    { "C06", V_LOSTFAIL | V_RETRY | V_LEAK | V_LIFECYCLE | V_FROZEN | SAFETY },
    { "C07", V_LEAK | V_LIFECYCLE | V_BADFREE | V_MEMSAFE | V_CRASH },
    { "C08", V_IDENTITY | V_ACCEPT | V_VALUE | V_REJECT | V_TEXT | V_WFAIL | V_EXC | SAFETY },
    { "C09", 0 }, { "C10", 0 },
    { "C11", V_FROZEN | V_TARGET },
};
static const Prop& prop_of(const std::string& id) { for (auto& p : props) if (id == p.id) return p; std::fprintf(stderr, "unknown property %s\n", id.c_str()); std::exit(2); }

// ---------------------------------------------------------------- one execution
struct Run { int status = 0; uint32_t cls = 0; std::string msg; u64 hash = 0, steps = 0, foreign = 0; std::vector<u64> op_hash, op_flags; u64 tsteps[RT_MAXT]; std::vector<u64> hot[RT_MAXT]; };
static u64 g_cnt[RT_CNT]; static u64 g_runs, g_steps_total, g_exhausted;
static int g_memfd;
static std::string g_self;
static std::unordered_set<u64> g_seen_runs, g_seen_scheds, g_seen_out;

static Run execute(const Plan& plan, uint32_t relevant)
{
    rt_reset(); rt_sh->relevant = relevant;
    pid_t pid;
    if (plan.boot) {
        std::string text = plan_text(plan);
        int pfd = (int)syscall(SYS_memfd_create, "plan", 0); if (write(pfd, text.data(), text.size()) < 0) std::exit(2);
        lseek(pfd, 0, SEEK_SET);
        pid = fork();
        if (pid == 0) {
            char a[64], b[64]; std::snprintf(a, sizeof a, "SIM_BOOT=%d,%d", pfd, g_memfd); std::snprintf(b, sizeof b, "TZ=UTC0");
            char* argv[] = { (char*)g_self.c_str(), nullptr }; char* envp[] = { a, b, nullptr };
            execve("/proc/self/exe", argv, envp); _exit(7);
        }
        close(pfd);
    }
    else {
        pid = fork();
        if (pid == 0) plan_exec(plan);
    }
    if (pid < 0) { perror("fork"); std::exit(2); }
    Run r; int st = 0; bool killed = false;
    int pfd = (int)syscall(SYS_pidfd_open, pid, 0);
    if (pfd >= 0) { struct pollfd pf = { pfd, POLLIN, 0 }; if (poll(&pf, 1, 60000) == 0) { kill(pid, SIGKILL); killed = true; } close(pfd); waitpid(pid, &st, 0); }
    else { double t0 = now(); while (waitpid(pid, &st, WNOHANG) == 0) { if (now() - t0 > 60) { kill(pid, SIGKILL); killed = true; } usleep(200); } }
    r.status = rt_sh->status; r.cls = rt_sh->cls; r.msg = rt_sh->msg; r.hash = rt_sh->hash; r.steps = rt_sh->steps; r.foreign = rt_sh->foreign;
    if (killed) { r.status = 1; r.cls = V_HANG; r.msg = "the call does not end; operation " + std::to_string(rt_sh->cur_op) + " (" + rt_sh->phase + ")"; r.hash = 0x4A46; }
    else if (WIFSIGNALED(st)) { r.status = 1; r.cls = V_CRASH; r.msg = "the program crashes with signal " + std::to_string(WTERMSIG(st)) + "; operation " + std::to_string(rt_sh->cur_op) + " (" + rt_sh->phase + ")"; r.hash = 0xC4A5; }
    else if (r.status == 0) { r.status = 1; r.cls = V_CRASH; r.msg = "the program ends within a call (exit status " + std::to_string(WEXITSTATUS(st)) + "); operation " + std::to_string(rt_sh->cur_op) + " (" + rt_sh->phase + ")"; r.hash = 0xE817; }
    if (r.status == 3) g_exhausted++;
    for (int i = 0; i < RT_MAXOP; ++i) { r.op_hash.push_back(rt_sh->op_hash[i]); r.op_flags.push_back(rt_sh->op_flags[i]); }
    for (int i = 0; i < RT_MAXT; ++i) { r.tsteps[i] = rt_sh->tsteps[i]; r.hot[i].assign(rt_sh->hot[i], rt_sh->hot[i] + rt_sh->nhot[i]); }
    for (int i = 0; i < RT_CNT; ++i) g_cnt[i] += rt_sh->cnt[i];
    g_runs++; g_steps_total += r.steps;
    if (g_seen_runs.size() < 4000000) g_seen_runs.insert(r.hash);
    return r;
}

// ---------------------------------------------------------------- what a property asks of a plan
struct Result { bool bad = false; uint32_t cls = 0; std::string msg; u64 hash = 0; Run run; };
static Plan without(const Plan& p, const std::function<bool(const Fault&)>& drop) { Plan q = p; for (auto& o : q.ops) o.f.erase(std::remove_if(o.f.begin(), o.f.end(), drop), o.f.end()); return q; }
static bool env_fault(const Fault& f) { return f.k == X_ENVMID || f.k == X_ERRNO; }
static std::string op_text(const Plan& p, int id) { for (auto& o : p.ops) if (o.id == id) return std::string(verb_names[o.verb]) + " " + o.type; return "?"; }

static Result compare(const Plan& plan, const Run& base, const Run& r, const char* how, int only = -1)
{
    Result x; x.run = r; x.hash = r.hash;
    if (base.status != 2) return x;                       // fails already without the influence: another property's matter
    if (r.status == 3) return x;
    if (r.status == 1) { x.bad = true; x.cls = r.cls; x.msg = std::string(how) + ": " + r.msg; return x; }
    for (size_t i = 0; i < r.op_hash.size(); ++i) if ((only < 0 || only == (int)i) && base.op_flags[i] && r.op_flags[i] && base.op_hash[i] != r.op_hash[i]) { x.bad = true; x.cls = V_OUTCOME; x.msg = std::string(how) + ": operation " + std::to_string(i) + " (" + op_text(plan, (int)i) + ") has another outcome"; return x; }
    return x;
}
static Plan alone(const Plan& plan, const Op& o)
{
    Plan q = plan; q.boot = 0; q.sw.clear(); q.ops.clear();
    if (o.src >= 0) for (auto& k : plan.ops) if (k.id == o.src) { q.ops.push_back(k); q.ops.back().tid = 0; }   // prepared, never performed
    q.ops.push_back(o); q.ops.back().tid = 1; if (o.b != 2) q.ops.back().rep = 1;
    auto& f = q.ops.back().f; f.erase(std::remove_if(f.begin(), f.end(), [](const Fault& x) { return x.k == X_NEST; }), f.end());
    return q;
}
static Result evaluate(const Plan& plan, const Run* serial = nullptr)
{
    const Prop& pr = prop_of(plan.prop);
    Result x;
    if (plan.prop == "C01") {
        Run s; bool given = serial != nullptr;
        if (!given) { Plan q = plan; q.sw.clear(); s = execute(q, pr.relevant); serial = &s; }
        x.run = *serial; x.hash = serial->hash;
        if (serial->status == 1 && (serial->cls & V_RACE)) { x.bad = true; x.cls = V_RACE; x.msg = serial->msg; return x; }
        if (serial->status == 1 || (serial->status == 2 && (!given || plan.sw.empty()) && plan.seed % 3 == 0 && plan.threads() > 1)) {
            // each call made alone, in a process of its own
            for (auto& o : plan.ops) {
                Run b = execute(alone(plan, o), pr.relevant);
                if (b.status != 2) return x;              // fails already when made alone
                if (serial->status == 1) continue;
                Result y = compare(plan, b, *serial, "with calls by other threads", o.id);
                if (y.bad) return y;
            }
            if (serial->status == 1) { x.bad = true; x.cls = serial->cls; x.msg = "with calls by other threads: " + serial->msg; return x; }
        }
        if (serial->status != 2 || plan.sw.empty()) return x;
        Run r = execute(plan, pr.relevant);
        if (r.status == 1 && (r.cls & V_RACE)) { x.bad = true; x.cls = V_RACE; x.msg = r.msg; x.hash = r.hash; x.run = r; return x; }
        return compare(plan, *serial, r, "under this interleaving of threads");
    }
    if (plan.prop == "C09") {
        Plan q = without(plan, env_fault); q.ops.erase(std::remove_if(q.ops.begin(), q.ops.end(), [](const Op& o) { return o.verb == OP_ENV; }), q.ops.end());
        Run b = execute(q, 0), r = execute(plan, 0);
        return compare(plan, b, r, "after a change of the environment");
    }
    if (plan.prop == "C10") {
        Run r = execute(plan, 0); x.run = r; x.hash = r.hash;
        int last = -1; if (r.status == 1) last = (int)plan.ops.size();
        for (auto& o : plan.ops) {
            Run b = execute(alone(plan, o), 0);
            if (b.status != 2) return x;                  // fails already when made alone
            if (r.status == 1) continue;
            Result y = compare(plan, b, r, plan.boot ? "called before main" : "after the preceding or from within the enclosing calls", o.id);
            if (y.bad) return y;
        }
        if (r.status == 1 && last >= 0) { x.bad = true; x.cls = r.cls; x.msg = std::string(plan.boot ? "called before main: " : "in this history: ") + r.msg; }
        return x;
    }
    Run r = execute(plan, pr.relevant); x.run = r; x.hash = r.hash;
    if (r.status == 1 && (r.cls & pr.relevant)) {
        // is the fault needed?  otherwise another property is concerned
        if (plan.prop == "C05" || plan.prop == "C06") {
            Plan q = without(plan, [](const Fault& f) { return f.k >= X_TEXT_END && f.k != X_PREFILL; });
            Run c = execute(q, pr.relevant);
            if (c.status == 1) return x;
        }
        x.bad = true; x.cls = r.cls; x.msg = r.msg;
    }
    return x;
}

// ---------------------------------------------------------------- generation of plans
static std::vector<Type*> types_with(unsigned all, unsigned none = 0, unsigned any = 0) { std::vector<Type*> v; for (auto* t : registry().types) if ((t->flags & all) == all && !(t->flags & none) && (!any || (t->flags & any))) v.push_back(t); return v; }
static int read_kind(Rng& r, const Type& t) { if (!(t.flags & (T_SAX | T_DOM))) return D1; for (;;) { int k = r.range(P1, D6); if (is_sax(k) ? t.flags & T_SAX : t.flags & T_DOM) return k; } }
static Type* pick(Rng& r, const std::vector<Type*>& v) { return v[r.below(v.size())]; }
// a size above 1000: one large container or string
static int pick_size(Rng& r) { if (r.chance(1)) return 1000 + (r.chance(65) ? r.range(250, 300) : r.chance(90) ? r.range(100, 1200) : r.chance(80) ? r.range(4000, 4200) : r.range(65500, 65700)); return r.chance(60) ? r.range(1, 12) : r.chance(85) ? r.range(10, 40) : r.range(40, 160); }
static long rnd(Rng& r) { return (long)(r.next() & 0xFFFFFF); }

// strings that have to follow a format
static bool formatted(const Type& t) { std::string n = t.name; for (char& c : n) if (c >= 'A' && c <= 'Z') c |= 32; for (const char* x : { "bytes", "time", "ymd", "color", "suit", "mood" }) if (n.find(x) != n.npos) return true; return false; }
static void add_damage(Rng& r, Op& o, const Type& t, bool semantic_only = false)
{
    int n = r.chance(70) ? 1 : r.range(2, 4);
    for (int i = 0; i < n; ++i) {
        int k = semantic_only || r.chance(75) ? r.range(X_DIGIT, X_REPEAT) : r.range(X_TRUNC, X_DELETE);
        if (k == X_REF && !(t.flags & T_SHARED) && r.chance(70)) k = X_TYPE;
        if ((t.flags & T_SHARED) && r.chance(25)) k = X_REF;
        if (formatted(t) ? r.chance(40) : k != X_REF && r.chance(6)) k = X_STR;
        o.f.push_back({ k, rnd(r), rnd(r) });
    }
}
static Op base_op(Rng& r, int id, int verb, Type* t) { Op o; o.id = id; o.verb = verb; if (t) o.type = t->name; o.seed = r.next() & 0xFFFFFFFFFFull; o.size = pick_size(r); return o; }
static Op write_op(Rng& r, int id, Type* t) { Op o = base_op(r, id, OP_WRITE, t); o.kind = r.range(W1, S2); o.a = r.range(0, 2); return o; }
static Op read_op(Rng& r, int id, Type* t, int damage_pct) { Op o = base_op(r, id, OP_READ, t); o.kind = read_kind(r, *t); o.style = r.range(0, 3); if (r.chance(damage_pct)) add_damage(r, o, *t); if (is_flag(o.kind) && r.chance(30)) o.f.push_back({ X_PREFILL, rnd(r), 0 }); return o; }
static Fault hook_fault(Rng& r, bool sweep)
{
    static const unsigned masks[] = { H_ALL, H_ALL, H_FROM_STRING, H_TO_STRING, H_CTOR, H_COPY, H_PERSIST, H_LESS, H_EXT };
    int action = r.chance(40) ? A_FALSE : A_THROW;
    unsigned mask = masks[r.below(9)]; if (action == A_FALSE) mask = H_ALL;
    return { X_HOOK, sweep ? 0 : r.chance(70) ? r.range(1, 6) : r.range(1, 40), action + 16 * (long)mask };
}
static Op any_op(Rng& r, int id, const std::vector<Type*>& ts, bool faults)
{
    int w = (int)r.below(100);
    if (w < 8) { Op o = base_op(r, id, OP_MISC, nullptr); return o; }
    if (w < 11) { static const auto plain = types_with(T_PLAIN); Op o = base_op(r, id, OP_SCHEMA, pick(r, plain)); o.a = r.range(0, 1); return o; }
    Type* t = pick(r, ts);
    Op o = w < 50 ? write_op(r, id, t) : read_op(r, id, t, 30);
    if (faults && r.chance(25)) {
        if ((t->flags & T_HOOK) && r.chance(70)) o.f.push_back(hook_fault(r, false));
        else if (o.verb == OP_WRITE && r.chance(60)) o.f.push_back({ X_POISON, rnd(r), 0 });
        else o.f.push_back({ X_ALLOC, r.range(1, 25), r.chance(50) ? 1 : 1000000 });
    }
    return o;
}
// the values of all calls are equal or alike
static void set_theme(Plan& p, int theme) { for (auto& o : p.ops) o.seed |= (u64)0x7E << 56 | (u64)(theme - 1) << 48; }
// lengths and counts that do not fit 16 bits
static bool huge_op(Rng& r, Op& o)
{
    if (r.below(500)) return false;
    static const char* const names[] = { "string", "bytes", "v_int", "v_bool", "v_string", "m_string", "m_bytes", "v_bytes", "m_int", "s_int" };
    Type* t = find_type(names[r.chance(60) ? r.below(2) : r.below(10)]);
    if (!t) return false;
    o.type = t->name; o.size = 1000 + (r.chance(50) ? r.range(65500, 65700) : r.range(49100, 70000)); o.f.clear();
    return true;
}
static Plan make_plan(const std::string& prop, u64 seed)
{
    Rng r(mix(seed, (u64)(prop[1] * 100 + prop[2])));
    Plan p; p.prop = prop; p.seed = seed;
    static const int fills[] = { 0xA5, 0x00, 0xFF, 0x01, 0x7F, 0x22 };
    p.fill = fills[r.below(6)]; p.reuse = r.chance(30);
    static const auto all = types_with(0), shared = types_with(T_SHARED), hooked = types_with(T_HOOK), noaddr = types_with(0, T_ADDR), sharedna = types_with(T_SHARED, T_ADDR), hookedna = types_with(T_HOOK, T_ADDR), plain = types_with(T_PLAIN);
    int n = r.range(2, 6);
    if (prop == "C02") {
        for (int i = 0; i < n; ++i) {
            if (r.chance(6)) { Op o = base_op(r, i, OP_MISC, nullptr); p.ops.push_back(o); continue; }
            Op o = base_op(r, i, OP_STORE, pick(r, all)); Type* t = find_type(o.type);
            o.kind = r.range(W1, S2); o.style = read_kind(r, *t); o.a = r.chance(45) ? 0 : r.chance(50) ? 1 : r.chance(75) ? 2 : 3; o.b = (int)rnd(r);
            if (huge_op(r, o)) { o.a = 0; p.ops.push_back(o); continue; }
            if (o.a == 2 && o.size > 20) o.size = 20;
            if (r.chance(45)) o.f.push_back({ X_PREFILL, rnd(r), 0 });
            p.ops.push_back(o);
        }
    }
    else if (prop == "C03") {
        for (int i = 0; i < n * 2; ++i) {
            if (r.chance(5)) { p.ops.push_back(base_op(r, i, OP_MISC, nullptr)); continue; }
            p.ops.push_back(read_op(r, i, pick(r, r.chance(12) ? shared : all), 88));
            if (huge_op(r, p.ops.back()) && r.chance(50)) add_damage(r, p.ops.back(), *find_type(p.ops.back().type), true);
            if (r.below(1000) == 0) p.ops.back().f.push_back({ X_RUNAWAY, rnd(r), rnd(r) });
        }
    }
    else if (prop == "C04") {
        for (int i = 0; i < n; ++i) {
            Type* t = pick(r, all); Op o = base_op(r, i, OP_AGREE, t); o.b = r.chance(20); o.a = r.range(0, 2); o.style = r.range(0, 3);
            if (huge_op(r, o)) { p.ops.push_back(o); continue; }
            if (o.b) { if (r.chance(20)) o.f.push_back({ X_POISON, rnd(r), 0 }); } else if (r.chance(80)) add_damage(r, o, *t, r.chance(60));
            if (!o.b && r.chance(30)) o.f.push_back({ X_PREFILL, rnd(r), 0 });
            if (!o.b && r.below(800) == 0) o.f.push_back({ X_RUNAWAY, rnd(r), rnd(r) });
            p.ops.push_back(o);
        }
    }
    else if (prop == "C05") {
        for (int i = 0; i < n; ++i) {
            bool hook = r.chance(60);
            Type* t = pick(r, hook ? hooked : all);
            Op o = (hook ? r.chance(50) : true) ? write_op(r, i, t) : read_op(r, i, t, 10);
            if (hook) { o.f.push_back(hook_fault(r, r.chance(35))); o.size = std::min(o.size, 30); o.b = 60; }
            if (!hook || (o.verb == OP_WRITE && r.chance(10))) o.f.push_back({ X_POISON, rnd(r), 0 });
            p.ops.push_back(o);
        }
    }
    else if (prop == "C06") {
        n = r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            Type* t = pick(r, r.chance(20) ? hooked : r.chance(20) ? shared : all);
            Op o = r.chance(6) ? base_op(r, i, OP_MISC, nullptr) : r.chance(4) ? base_op(r, i, OP_SCHEMA, pick(r, plain)) : r.chance(40) ? write_op(r, i, t) : read_op(r, i, t, 12);
            o.size = std::min(o.size, 40);
            bool sweep = r.chance(60);
            o.f.push_back({ X_ALLOC, sweep ? 0 : r.chance(60) ? r.range(1, 12) : r.range(1, 120), r.chance(50) ? 1 : r.chance(30) ? 2 : 1000000 });
            if (sweep) o.b = 150;
            o.rep = r.chance(50) && !sweep ? r.range(2, 4) : 1;
            p.ops.push_back(o);
        }
    }
    else if (prop == "C07") {
        n = r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            Op o;
            int w = (int)r.below(100);
            if (w < 5) o = base_op(r, i, OP_MISC, nullptr);
            else if (w < 8) { o = base_op(r, i, OP_SCHEMA, pick(r, plain)); if (r.chance(50)) o.f.push_back({ X_ALLOC, r.range(1, 60), r.chance(50) ? 1 : 1000000 }); }
            else {
                Type* t = pick(r, r.chance(35) ? hooked : r.chance(25) ? shared : all);
                o = r.chance(40) ? write_op(r, i, t) : read_op(r, i, t, 55);
                if ((t->flags & T_HOOK) && r.chance(60)) o.f.push_back(hook_fault(r, false));
                else if (o.verb == OP_WRITE && r.chance(40)) o.f.push_back({ X_POISON, rnd(r), 0 });
                if (r.chance(15)) o.f.push_back({ X_ALLOC, r.range(1, 30), r.chance(50) ? 1 : 1000000 });
            }
            o.size = std::min(o.size, 40);
            o.rep = r.range(3, 5);
            if (r.chance(30)) { o.b = 2; o.rep = r.range(2, 4); o.size = std::min(o.size, 15); }
            p.ops.push_back(o);
        }
    }
    else if (prop == "C08") {
        n = r.range(2, 7);
        if (r.below(8192) == 0) { n = 0; Op o = base_op(r, 0, OP_STORE, find_type("v_s_leaf")); o.size = 66600; o.kind = r.range(W1, S2); o.style = r.range(D1, D6); o.a = 0; p.ops.push_back(o); }   // more elements than 16 bits can count
        for (int i = 0; i < n; ++i) {
            Type* t = pick(r, shared);
            if (i && r.chance(40)) t = find_type(p.ops.back().type);
            if (r.chance(35)) { Op o = base_op(r, i, OP_STORE, t); o.kind = r.range(W1, S2); o.style = r.range(D1, D6); o.a = r.chance(30) ? 3 : 0; if (o.a == 3) o.kind = r.range(S1, S2); p.ops.push_back(o); }
            else if (r.chance(45)) { Op o = write_op(r, i, t); if (r.chance(50)) o.f.push_back({ X_POISON, rnd(r), 0 }); else if ((t->flags & T_HOOK) && r.chance(40)) o.f.push_back(hook_fault(r, false)); p.ops.push_back(o); }
            else {
                Op o = read_op(r, i, t, 0); o.kind = r.chance(90) || !(t->flags & T_SAX) ? r.range(D1, D6) : r.range(P1, P2); o.style &= 1; o.a = r.chance(30);
                if (r.chance(55)) { int m = r.range(1, 2); while (m--) o.f.push_back({ r.chance(75) ? (int)X_REF : r.chance(50) ? (int)X_DROP : r.range(X_DIGIT, X_STR), rnd(r), rnd(r) }); }
                if ((t->flags & T_HOOK) && r.chance(20)) o.f.push_back(hook_fault(r, false));
                p.ops.push_back(o);
            }
            Op& o = p.ops.back();
            if (o.verb != OP_READ) for (size_t k = p.ops.size() - 1; k-- > 0;) if (p.ops[k].verb != OP_READ && r.chance(35)) { o.f.push_back({ X_KIN, p.ops[k].id, 0 }); break; }
        }
    }
    else if (prop == "C09") {
        p.reuse = 0;
        int id = 0;
        static std::vector<Type*> dated; if (dated.empty()) for (auto* t : noaddr) { std::string s = t->name; for (auto* w : { "time", "ymd", "COpt", "CNest", "double", "float", "Fragile", "C2", "CDerived2", "C12", "Env_nest", "tuple", "variant", "ulong", "u_c2" }) if (s.find(w) != s.npos) { dated.push_back(t); break; } }
        for (int i = 0; i < n; ++i) {
            int changes = r.range(0, 2);
            while (changes--) { Op e; e.id = id++; e.verb = OP_ENV; e.a = (int)(r.below(5) + 16 * r.below(8)); p.ops.push_back(e); }
            Op o = any_op(r, id++, r.chance(60) ? dated : noaddr, false);
            if (r.chance(40)) o.f.push_back({ X_ENVMID, r.chance(60) ? r.range(1, 300) : r.range(1, 6000), (long)(r.below(4) + 16 * r.below(8)) });
            if (r.chance(40)) o.f.push_back({ X_ERRNO, r.chance(50) ? ERANGE : EINVAL, 0 });
            p.ops.push_back(o);
        }
    }
    else if (prop == "C10") {
        p.reuse = 0; p.boot = r.chance(8);
        int id = 0;
        Type* favourite = pick(r, noaddr);
        int theme = r.chance(22) ? 1 + (int)r.below(255) : 0;
        n = theme ? r.range(3, 9) : r.range(2, 7);
        for (int i = 0; i < n; ++i) {
            std::vector<Type*> one = { favourite };
            Op o = any_op(r, id++, r.chance(theme ? 80 : 40) ? one : r.chance(40) ? hookedna : r.chance(30) ? sharedna : noaddr, true);
            Type* t = o.type == "-" ? nullptr : find_type(o.type);
            if (r.chance(5)) { o.rep = r.range(30, 300); o.size = std::min(o.size, 6); if (r.chance(6)) { o.rep = r.chance(90) ? r.range(1000, 4500) : 66000; o.size = 1; p.reuse = 1; } }   // a long history
            else if (t && (t->flags & T_HOOK) && (o.f.empty() || (o.f.size() == 1 && o.f[0].k == X_PREFILL)) && r.chance(60) && (o.verb == OP_WRITE || o.verb == OP_READ)) {
                std::vector<Type*> same = { t };
                Op in = any_op(r, id++, r.chance(50) ? same : noaddr, true);
                if (r.chance(40)) { in = o.verb == OP_WRITE ? write_op(r, in.id, t) : read_op(r, in.id, t, 30); in.kind = o.kind; }    // the very same function is entered again
                if (r.chance(8)) { in.rep = r.range(4, 40); in.size = std::min(in.size, 4); }
                o.f.push_back({ X_NEST, r.range(1, 8), in.id });
                p.ops.push_back(o); p.ops.push_back(in);
                continue;
            }
            p.ops.push_back(o);
        }
        if (theme) set_theme(p, theme);
    }
    else if (prop == "C11") {
        for (int i = 0; i < n; ++i) {
            Type* t = pick(r, r.chance(25) ? shared : r.chance(20) ? hooked : all);
            Op o = r.chance(60) ? write_op(r, i, t) : read_op(r, i, t, 40);
            if (o.verb == OP_READ) o.a = r.chance(50);
            int w = (int)r.below(100);
            if (o.verb == OP_WRITE && w < 35) o.f.push_back({ X_POISON, rnd(r), 0 });
            else if ((t->flags & T_HOOK) && w < 75) o.f.push_back(hook_fault(r, false));
            else if (w < 60) o.f.push_back({ X_ALLOC, r.range(1, 20), r.chance(50) ? 1 : 1000000 });
            p.ops.push_back(o);
        }
    }
    else if (prop == "C01") {
        int threads = r.chance(60) ? 2 : r.range(3, 4); int per = r.range(1, 3); int id = 0; bool busy = r.chance(12);
        Type* favourite = pick(r, r.chance(25) ? shared : all);
        std::vector<Type*> one = { favourite };
        static std::vector<Type*> special; if (special.empty()) for (auto* t : all) { std::string s = t->name; for (auto* w : { "time", "ymd", "Color", "color", "Suit", "bytes", "COpt", "CNest", "double", "C12", "m_", "u_", "s_", "variant", "pair" }) if (s.find(w) != s.npos) { special.push_back(t); break; } }
        for (int t = 1; t <= threads; ++t) for (int i = 0; i < per; ++i) {
            Op o = any_op(r, id++, r.chance(45) ? one : r.chance(40) ? special : all, true);
            o.tid = t; o.size = std::min(o.size, 25);
            if (busy && t > 1 && i == 0) { o.rep = r.range(4, 40); o.size = std::min(o.size, 4); }     // many calls while another thread stands still
            o.f.erase(std::remove_if(o.f.begin(), o.f.end(), [](const Fault& f) { return f.k == X_ALLOC && f.a == 0; }), o.f.end());
            // a source that several threads read
            if (t > 1 && r.chance(40)) for (auto& q : p.ops) if (q.tid != t && q.type == o.type && q.verb == o.verb && o.verb <= OP_READ && q.src < 0) { bool pz = false; for (auto& f : q.f) if (f.k == X_POISON) pz = true; for (auto& f : o.f) if (f.k == X_POISON) pz = true; if (!pz) { o.src = q.id; break; } }
            p.ops.push_back(o);
        }
    }
    if (prop != "C10" && r.chance(prop == "C01" || prop == "C07" ? 15 : 8)) set_theme(p, 1 + (int)r.below(255));
    return p;
}
static void make_schedule(Plan& p, const Run& serial, Rng& r)
{
    p.sw.clear();
    int n = p.threads();
    int many = r.chance(40) ? r.range(1, 3) : r.range(2, 25);
    for (int i = 0; i < many; ++i) {
        RtSwitch w; w.tid = r.range(1, n); do w.target = r.range(1, n); while (w.target == w.tid);
        auto& h = serial.hot[w.tid];
        if (!h.empty() && r.chance(65)) w.step = h[r.below(h.size())] + r.below(3); else w.step = 1 + r.below(serial.tsteps[w.tid] + 1);
        p.sw.push_back(w);
    }
    if (r.chance(20)) {  // dense: switch at every step of a window
        int t = r.range(1, n); u64 s0 = serial.hot[t].empty() ? 1 : serial.hot[t][r.below(serial.hot[t].size())];
        for (int i = 0; i < 20; ++i) { RtSwitch w; w.tid = t; w.step = s0 + (u64)i * (1 + r.below(3)); do w.target = r.range(1, n); while (w.target == t); p.sw.push_back(w); }
    }
    std::stable_sort(p.sw.begin(), p.sw.end(), [](const RtSwitch& a, const RtSwitch& b) { return a.step < b.step; });
}

// ---------------------------------------------------------------- minimisation
static Plan minimise(Plan p, uint32_t cls, double until)
{
    auto still = [&](const Plan& q) { Result x = evaluate(q); return x.bad && x.cls == cls; };
    bool again = true;
    while (again && now() < until) {
        again = false;
        auto attempt = [&](Plan& q) { if (now() < until && still(q)) { p = q; again = true; return true; } return false; };
        for (size_t c = p.sw.size(); c >= 1; c /= 2) for (size_t i = 0; i + c <= p.sw.size();) { Plan q = p; q.sw.erase(q.sw.begin() + (long)i, q.sw.begin() + (long)(i + c)); if (!attempt(q)) i += c; if (now() > until) break; }
        for (size_t i = p.ops.size(); i-- > 0 && p.ops.size() > 1;) { Plan q = p; q.ops.erase(q.ops.begin() + (long)i); attempt(q); }
        for (size_t i = 0; i < p.ops.size(); ++i) for (size_t k = p.ops[i].f.size(); k-- > 0;) { Plan q = p; q.ops[i].f.erase(q.ops[i].f.begin() + (long)k); attempt(q); }
        for (size_t i = 0; i < p.ops.size(); ++i) {
            for (int s : { 0, 1, 2, 4, 8, 16, 32 }) if (s < p.ops[i].size) { Plan q = p; q.ops[i].size = s; if (attempt(q)) break; }
            if (p.ops[i].style & 1 && p.ops[i].verb == OP_READ) { Plan q = p; q.ops[i].style &= ~1; attempt(q); }
            if (p.ops[i].src >= 0) { Plan q = p; q.ops[i].src = -1; attempt(q); }
            for (int k = 1; p.ops[i].rep > 1 && k < p.ops[i].rep; k = k * 2 + 1) { Plan q = p; q.ops[i].rep = k; if (attempt(q)) break; }
            for (size_t k = 0; k < p.ops[i].f.size(); ++k) if ((p.ops[i].f[k].k == X_ALLOC || p.ops[i].f[k].k == X_HOOK) && p.ops[i].f[k].a == 0) for (int m = 1; m <= 60; ++m) { Plan q = p; q.ops[i].f[k].a = m; if (attempt(q)) break; }
        }
        if (p.reuse) { Plan q = p; q.reuse = 0; attempt(q); }
        if (p.boot) { Plan q = p; q.boot = 0; attempt(q); }
    }
    return p;
}

static std::string slurp(const char* path) { std::string s; FILE* f = std::fopen(path, "r"); if (!f) return s; char b[4096]; size_t n; while ((n = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, n); std::fclose(f); return s; }
static std::string json_str(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }

static void setup()
{
    g_memfd = (int)syscall(SYS_memfd_create, "record", 0);
    if (g_memfd < 0 || ftruncate(g_memfd, sizeof(RtShared))) { perror("memfd"); std::exit(2); }
    setenv("TZ", "UTC0", 1); tzset();
    struct rlimit l = { 0, 0 }; setrlimit(RLIMIT_CORE, &l);
    rt_map(g_memfd);
    register_all();
}

// Runs a plan before main and before the initialisation of any static object of the library.
struct Boot { Boot()
{
    const char* s = getenv("SIM_BOOT"); int pfd, rfd;
    if (!s || std::sscanf(s, "%d,%d", &pfd, &rfd) != 2) return;
    unsetenv("SIM_BOOT");
    std::string text; char b[4096]; ssize_t n; while ((n = read(pfd, b, sizeof b)) > 0) text.append(b, (size_t)n);
    tzset();
    rt_map(rfd); register_all();
    Plan p; if (!plan_parse(text, p)) _exit(8);
    p.boot = 0; rt_count(P_BOOT, 1);
    plan_exec(p);
} };
static Boot boot __attribute__((init_priority(101)));

int main(int argc, char** argv)
{
    g_self = argv[0];
    if (argc < 2) { std::fprintf(stderr, "usage: sim search PROP SEED SECONDS WORKER WORKERS OUT | replay FILE | plan PROP SEED\n"); return 2; }
    setup();
    std::string cmd = argv[1];
    if (cmd == "types") { for (auto* t : registry().types) std::printf("%s %x\n", t->name, t->flags); return 0; }
    if (cmd == "plan" && argc == 4) { std::fputs(plan_text(make_plan(argv[2], std::strtoull(argv[3], nullptr, 10))).c_str(), stdout); return 0; }
    if (cmd == "replay" && argc == 3) {
        Plan p; if (!plan_parse(slurp(argv[2]), p)) { std::fprintf(stderr, "not a replay file\n"); return 2; }
        Result x = evaluate(p), y = evaluate(p);
        bool same = x.bad == y.bad && x.cls == y.cls && x.hash == y.hash && x.msg == y.msg;
        std::printf("%s %s %016llx %s\n%s\n", x.bad ? "VIOLATED" : "held", cls_name(x.cls), (unsigned long long)x.hash, same ? "repeatable" : "NOT-REPEATABLE", x.msg.c_str());
        if (!x.bad && x.run.status == 1) std::printf("(foreign: %s %s)\n", cls_name(x.run.cls), x.run.msg.c_str());
        if (!same) return 3;
        return x.bad ? 1 : 0;
    }
    if (cmd == "twice" && argc == 5) {   // determinism: every plan twice, in separate processes
        u64 a = std::strtoull(argv[3], nullptr, 10), n = std::strtoull(argv[4], nullptr, 10), bad = 0;
        for (u64 s = a; s < a + n; ++s) {
            Plan p = make_plan(argv[2], s);
            if (p.prop == "C01") { Run ser = execute(p, 0); Rng r(s); make_schedule(p, ser, r); }
            Run x = execute(p, 0), y = execute(p, 0);
            if (x.hash != y.hash || x.status != y.status || x.steps != y.steps) { bad++; std::printf("seed %llu differs\n", (unsigned long long)s); }
        }
        std::printf("%llu plans executed twice, %llu differ\n", (unsigned long long)n, (unsigned long long)bad);
        return bad ? 1 : 0;
    }
    if (cmd == "search" && argc == 8) {
        std::string prop = argv[2]; prop_of(prop);
        u64 base = std::strtoull(argv[3], nullptr, 10); double secs = std::atof(argv[4]); int w = std::atoi(argv[5]), nw = std::atoi(argv[6]); std::string out = argv[7];
        double t0 = now(); u64 plans = 0, foreign = 0; int rc = 0; std::string samples, foreign_msg; std::unordered_set<u64> types_seen;
        for (u64 k = (u64)w; now() - t0 < secs; k += (u64)nw) {
            u64 seed = base * 1000000007ull + k;
            Plan p = make_plan(prop, seed);
            plans++;
            for (auto& o : p.ops) { u64 h = mix((u64)o.verb * 100 + (u64)o.kind, std::hash<std::string>()(o.type)); types_seen.insert(h); }
            Result x;
            if (prop == "C01") {
                Run ser = execute(p, prop_of(prop).relevant);
                x = evaluate(p, &ser);
                Rng r(mix(seed, 77));
                for (int i = 0; i < 6 && !x.bad && ser.status == 2 && p.threads() > 1; ++i) { make_schedule(p, ser, r); x = evaluate(p, &ser); g_seen_scheds.insert(x.hash); }
            }
            else x = evaluate(p);
            if (x.run.status == 1 && !x.bad) { foreign++; if (foreign_msg.empty()) foreign_msg = x.run.msg; }
            for (auto h : x.run.op_hash) if (h && g_seen_out.size() < 4000000) g_seen_out.insert(h);
            if (plans <= 2) { if (!samples.empty()) samples += ","; samples += json_str(plan_text(p)); }
            if (x.bad) {
                Plan m = minimise(p, x.cls, now() + 25);
                Result y = evaluate(m), z = evaluate(m);
                if (!(y.bad && z.bad && y.hash == z.hash && y.msg == z.msg)) {
                    // never report what cannot be repeated
                    Result a = evaluate(p), b = evaluate(p);
                    if (a.bad && b.bad && a.hash == b.hash && a.msg == b.msg) { m = p; y = a; }
                    else { std::fprintf(stderr, "seed %llu: outcome is not repeatable: %s | %s\n", (unsigned long long)seed, x.msg.c_str(), y.msg.c_str()); rc = 4; break; }
                }
                std::string path = out + ".replay"; FILE* f = std::fopen(path.c_str(), "w");
                std::fprintf(f, "# %s violated: %s\n# %s\n# seed %llu, execution hash %016llx\n%s", prop.c_str(), cls_name(y.cls), [&] { std::string s = y.msg; for (auto& c : s) if (c == '\n') c = ' '; return s; }().c_str(), (unsigned long long)seed, (unsigned long long)y.hash, plan_text(m).c_str());
                std::fclose(f);
                rc = 1; break;
            }
        }
        FILE* f = std::fopen((out + ".json").c_str(), "w");
        std::fprintf(f, "{\"rc\":%d,\"plans\":%llu,\"runs\":%llu,\"steps\":%llu,\"wall\":%.2f,\"distinct_runs\":%zu,\"distinct_schedules\":%zu,\"distinct_outcomes\":%zu,\"distinct_calls\":%zu,\"foreign\":%llu,\"exhausted\":%llu,\"foreign_msg\":%s,\"samples\":[%s],\"counters\":{", rc, (unsigned long long)plans, (unsigned long long)g_runs, (unsigned long long)g_steps_total, now() - t0,
            g_seen_runs.size(), g_seen_scheds.size(), g_seen_out.size(), types_seen.size(), (unsigned long long)foreign, (unsigned long long)g_exhausted, json_str(foreign_msg).c_str(), samples.c_str());
        for (int i = 0; i < K_LAST; ++i) std::fprintf(f, "%s\"%s\":%llu", i ? "," : "", counter_name(i), (unsigned long long)g_cnt[i]);
        std::fprintf(f, "}}\n"); std::fclose(f);
        return rc;
    }
    return 2;
}
