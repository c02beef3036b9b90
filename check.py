#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and searches seeded executions for a violation of one property.

usage: check.py PROPERTY [quick|thorough] | check.py --replay FILE | check.py --build

Environment: VERIF_SEED (default 1), VERIF_TIER (quick, thorough), VERIF_SECONDS (search time), REPO (default /repo).
Exit status 0: held on everything explored, 1: violated, 2: the check itself failed.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
REPO = os.environ.get('REPO', '/repo')
LEVEL = 'exploration'
CORES = max(1, min(8, len(os.sched_getaffinity(0))))

REAL = ['all of include/persistence (compiled from the working tree, with thread-sanitizer call-outs)', 'RapidJSON', 'libstdc++ containers, streams and charconv (static)']
STUB = ['thread scheduler (one thread runs at a time, switches at simulator-chosen memory accesses)', 'heap (arena with red zones, quarantine, failing operator new)', 'mutexes, once-guards of static objects',
        'clock, time zone database, gmtime/localtime/mktime, C locale data (simulated)', 'storage (byte strings with torn writes and damage)', 'user code called by the library (name conversions, constructors, comparison, persist)']


def die(msg):
    print('check: ' + msg, file=sys.stderr)
    sys.exit(2)


def source_hash():
    h = hashlib.sha256()
    files = [os.path.join(SIM, f) for f in sorted(os.listdir(SIM))]
    for root, dirs, names in os.walk(os.path.join(REPO, 'include')):
        dirs.sort()
        files += [os.path.join(root, n) for n in sorted(names)]
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def build():
    """Returns (binary, seconds, mode)."""
    t0 = time.time()
    base = os.path.join(HERE, 'build')
    os.makedirs(base, exist_ok=True)
    key = source_hash()
    out = os.path.join(base, key)
    binary = os.path.join(out, 'sim')
    done = os.path.join(out, 'mode')
    if os.path.exists(done) and os.path.exists(binary):
        return binary, 0.0, open(done).read()
    for old in os.listdir(base):          # earlier builds
        if old != key:
            shutil.rmtree(os.path.join(base, old), ignore_errors=True)
    log = ''
    for mode in ('full', 'noext'):
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        subprocess.run([sys.executable, os.path.join(SIM, 'gen_types.py'), out] + (['noext'] if mode == 'noext' else []), check=True, stdout=subprocess.DEVNULL)
        r = subprocess.run(['make', '-s', '-f', os.path.join(SIM, 'Makefile'), '-j%d' % CORES, 'OUT=' + out, 'REPO=' + REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            for f in os.listdir(out):
                if f.endswith('.o') or f.endswith('.cpp'):
                    os.unlink(os.path.join(out, f))
            with open(done, 'w') as fh:
                fh.write(mode)
            return binary, time.time() - t0, mode
        log = r.stdout
    die('the simulator does not build:\n' + '\n'.join(l for l in log.splitlines() if 'error' in l)[:4000])


def known_findings():
    """Entries 'known: property=<id> <class>: <text that occurs in the violation>'."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) (.*)', line.strip())
            if m:
                out.append((m.group(1), m.group(2)))
    return out


def replay(binary, path):
    r = subprocess.run([binary, 'replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300)
    return r.returncode, r.stdout


def main():
    args = sys.argv[1:]
    if args and args[0] == '--build':
        binary, secs, mode = build()
        print('%s (%s, %.0f s)' % (binary, mode, secs))
        return 0
    if len(args) == 2 and args[0] == '--replay':
        binary, _, _ = build()
        rc, out = replay(binary, args[1])
        print(out, end='')
        return rc
    if not args:
        die('usage: check.py PROPERTY [quick|thorough]')
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    seconds = float(os.environ.get('VERIF_SECONDS', '45' if tier == 'quick' else '600'))
    t0 = time.time()
    binary, build_s, mode = build()
    run = os.path.join(HERE, 'run', prop)
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)

    # one seed is one execution: replaying a sample must give identical executions
    twice = subprocess.run([binary, 'twice', prop, str(seed * 1000 + 17), '12' if tier == 'quick' else '200'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    unrepeatable = twice.returncode not in (0, 1) or 'differ' not in twice.stdout

    workers = CORES
    procs = [subprocess.Popen([binary, 'search', prop, str(seed), str(seconds), str(w), str(workers), os.path.join(run, 'w%d' % w)], stdout=subprocess.DEVNULL, stderr=open(os.path.join(run, 'w%d.err' % w), 'w')) for w in range(workers)]
    deadline = time.time() + seconds + 180
    found = None
    while any(p.poll() is None for p in procs) and time.time() < deadline:
        time.sleep(0.2)
        if found is None and any(p.poll() == 1 for p in procs):
            found = time.time()
            deadline = min(deadline, found + 40)      # the others may finish what they are minimising
            for p in procs:
                pass
        if found and time.time() > found + 1:
            break
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()

    stats = []
    for w in range(workers):
        f = os.path.join(run, 'w%d.json' % w)
        if os.path.exists(f):
            with open(f, errors='replace') as fh:
                stats.append(json.load(fh))
    if not stats:
        die('no worker delivered a result: ' + ''.join(open(os.path.join(run, 'w%d.err' % w)).read() for w in range(workers))[:2000])

    violations, known = [], []
    findings = known_findings()
    for w in range(workers):
        f = os.path.join(run, 'w%d.replay' % w)
        if not os.path.exists(f):
            continue
        rc, out = replay(binary, f)                   # in a fresh process
        if rc != 1:
            print('check: %s does not repeat in a fresh process (%d), not reported: %s' % (f, rc, out[:500]), file=sys.stderr)
            continue
        text = open(f, errors='replace').read()
        hit = next((k for p, k in findings if p == prop and k in text), None)
        if hit:
            known.append(hit)
            continue
        violations.append((f, out, text))

    cnt = {}
    for s in stats:
        for k, v in s['counters'].items():
            cnt[k] = cnt.get(k, 0) + v
    total = lambda k: sum(s[k] for s in stats)
    search_s = max(s['wall'] for s in stats)
    faults = {k: cnt[k] for k in cnt if k in FAULTS and cnt[k]}
    probes = {k: cnt[k] for k in cnt if k in PROBES and cnt[k]}
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL, 'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'evaluations': total('runs'),
            'distinct_nontrivial': total('distinct_runs'),
            'rule': 'A case is one simulated process executing a plan (types, values, calls, schedule and faults) derived from one seed. '
                    'Distinct: by the hash over every scheduling decision, memory-access count and call outcome of the execution, counted per worker (workers use disjoint seeds). '
                    'Non-trivial: it made at least one library call.',
            'samples': [x for s in stats[:2] for x in s['samples'][:1]],
            'seeds': total('plans'),
            'runs_per_hour': int(total('runs') / search_s * 3600),
            'seeds_per_hour': int(total('plans') / search_s * 3600),
            'simulated_steps': total('steps'),
            'simulated_time': 'logical: one step per instrumented memory access or synchronisation; the simulated wall clock only moves by injected jumps',
            'library_calls': cnt['calls'], 'operations': cnt['ops'],
            'distinct_call_outcomes': total('distinct_outcomes'),
            'distinct_interleavings': total('distinct_schedules'),
            'distinct_interleavings_measure': 'hash of the sequence of (thread, step) switch points that took effect together with the outcomes',
            'distinct_operation_kinds': max(s['distinct_calls'] for s in stats),
            'faults_injected': faults, 'conditions_reached': probes,
            'accepted_inputs': cnt['accept'], 'refused_inputs': cnt['reject'], 'not_judged_inputs': cnt['dontcare'], 'writes_ok': cnt['write_ok'], 'writes_failed': cnt['write_fail'],
            'executions_over_resource_limit': total('exhausted'),
            'violations_of_other_properties': total('foreign'),
            'determinism_sample': twice.stdout.strip().splitlines()[-1:] and twice.stdout.strip().splitlines()[-1],
            'real_code': REAL, 'stubs': STUB, 'build': mode, 'build_s': round(build_s, 1), 'search_s': round(search_s, 1), 'workers': workers,
        },
        'assumptions': ASSUMPTIONS + ([] if mode == 'full' else ['user types with functions of their own (ext.hpp) do not compile with this tree and were left out']),
        'violations': [{'replay': f, 'what': re.sub(r'^# ', '', t.split('\n')[1])[:2000]} for f, o, t in violations],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1)
        fh.write('\n')

    for k in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violations:
        f, out, text = min(violations, key=lambda v: len(v[2]))
        dest = os.path.join(HERE, 'run', '%s.replay' % prop)
        shutil.copy(f, dest)
        print(text[:6000])
        print('VIOLATION property=%s replay=%s' % (prop, dest))
        return 1
    if unrepeatable or twice.returncode == 1:
        die('executions are not repeatable: ' + twice.stdout[-2000:])
    if any(p.returncode not in (0, 1) for p in procs):
        bad = [(w, p.returncode, open(os.path.join(run, 'w%d.err' % w)).read()[:500]) for w, p in enumerate(procs) if p.returncode not in (0, 1)]
        die('workers failed: %r' % bad)
    print('%s held: %d runs from %d seeds in %.0f s (build %.0f s), %d library calls, %d steps' % (prop, total('runs'), total('plans'), search_s, build_s, cnt['calls'], total('steps')))
    return 0


FAULTS = ['alloc_fail', 'crash_torn_write', 'crash_after_complete_write', 'crash_before_first_byte', 'restart', 'truncate', 'bit_flip', 'zeroed_block', 'duplicated_block', 'swapped_blocks', 'stale_tail', 'misdirected_write',
          'inserted_bytes', 'deleted_bytes', 'digit_damage', 'number_damage', 'type_damage', 'key_damage', 'dropped_token', 'duplicated_token', 'extra_token', 'reference_damage', 'string_damage', 'deep_nesting', 'runaway_nesting',
          'user_code_fails', 'user_code_throws', 'nested_call', 'inexpressible_value', 'time_zone_change', 'c_locale_change', 'cpp_locale_change', 'clock_jump', 'errno_noise', 'environment_change_mid_call',
          'preemption', 'preemption_at_shared_state', 'blocked_on_lock', 'used_target', 'object_shared_with_earlier_call']
PROBES = ['shared_source', 'reference_written', 'reference_read', 'reference_refused', 'first_use_overlap', 'nested_ok', 'leak_checked', 'frozen_checked', 'path_checked', 'offset_checked', 'retry_ok', 'recovered_new', 'recovered_old',
          'recovered_none', 'guard_contended', 'boot', 'identity_checked', 'target_kept', 'held_checked', 'threads', 'switches']
ASSUMPTIONS = ['the types registered in sim/gen_types.py stand for all types', 'RapidJSON, the C++ library and the compiler are correct', 'sequentially consistent memory between instrumented accesses; data races are reported, not simulated',
               'allocation failures are injected into operator new only (RapidJSON does not check malloc)']

if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception as e:                # an error of the check, not a verdict
        print('check: %s: %s' % (type(e).__name__, e), file=sys.stderr)
        sys.exit(2)
