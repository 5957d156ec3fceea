#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and decides one property with it.

  check.py PROPERTY [quick|thorough]   (default: VERIF_TIER; VERIF_SEED)
  check.py --build              build everything the quick checks need
  check.py --replay FILE        rebuild and run one replay file
"""
import concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, 'build')
JOBS = min(8, os.cpu_count() or 1)
TOOLCHAIN = 'nightly-2020-07-01'
DEV, REL = 'debug', 'release'

# (cpu, profile) in the order they are explored; the first is the cheapest to debug in
QUICK = [('haswell', DEV), ('nehalem', REL), ('x86-64', DEV)]
THOROUGH = [('haswell', DEV), ('haswell', REL), ('nehalem', DEV), ('nehalem', REL), ('x86-64', DEV), ('x86-64', REL)]
TRACED = {'C15', 'C16'}
TRACE_QUICK = [('haswell', DEV), ('x86-64', REL)]

# runs per configuration: (quick debug, quick release, thorough debug, thorough release)
RUNS = {p: (300000, 1000000, 4000000, 12000000) for p in ['C%02d' % i for i in range(1, 15)]}
RUNS['C09'] = (12000, 24000, 150000, 300000)
RUNS['C15'] = (50000, 100000, 2000000, 3000000)
RUNS['C16'] = (50000, 100000, 2000000, 3000000)
LIMIT = {'quick': 420, 'thorough': 6 * 3600}  # a run that reaches it says so in its evidence

REAL = ['the faster crate of /repo, compiled unchanged for each instruction set and profile (iterators, zips, strides, pairs, adapters, vector operations, tracing)',
        'Rust std: threads, thread-locals and their destructors, unwinding, Vec, and the libc calls std makes']
STUB = ['thread scheduling: real threads, one runs at a time, chosen by the simulator',
        'heap allocator: a simulated pool with guard pages, junk contents and refusals',
        'collections: buffers flush against unmapped pages; user-implemented storage and streams which record every access and fail on command',
        'closures: counted, stateful, failing on command',
        'log file and standard output system calls: executed by the simulated file layer, which injects faults']

NO_HISTORIES = []  # set: C15 runs leave out histories, because those fail without tracing as well

class Harness(Exception): pass

def log(*a): print(*a, file=sys.stderr, flush=True)

def cpu_ok(cpu):
    try: flags = set(re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M).group(1).split())
    except Exception: return cpu == 'x86-64'
    need = {'haswell': {'avx2', 'fma', 'bmi1', 'bmi2', 'movbe', 'f16c', 'abm'}, 'nehalem': {'sse4_2', 'popcnt', 'ssse3'}}.get(cpu, set())
    return need <= flags

def env_for(cpu, traced):
    e = dict(os.environ)
    e.update(HOME=e.get('HOME', '/root'), RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0',
             CARGO_HOME=os.path.join(BUILD, 'cargo-home'), CARGO_TARGET_DIR=target_dir(cpu, traced),
             RUSTFLAGS='-C target-cpu=%s -Z thinlto=no' % cpu)
    for k in ('FASTER_DEBUG_FILE', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'RUST_BACKTRACE'): e.pop(k, None)
    return e
def target_dir(cpu, traced): return os.path.join(BUILD, ('trace-' if traced else 'target-') + cpu)
def binary(cpu, prof, traced): return os.path.join(target_dir(cpu, traced), prof, 'sim')

def prepare():
    os.makedirs(os.path.join(BUILD, 'cargo-home'), exist_ok=True)
    with open(os.path.join(BUILD, 'cargo-home', 'config'), 'w') as f:
        f.write('[source.crates-io]\nreplace-with = "vendored-sources"\n\n[source.vendored-sources]\ndirectory = "/opt/vp/vendor"\n')

def build(cpu, prof, traced):
    cmd = ['cargo', 'build', '--offline', '-j', str(JOBS)] + (['--release'] if prof == REL else []) + (['--features', 'trace'] if traced else [])
    r = subprocess.run(cmd, cwd=os.path.join(HERE, 'sim'), env=env_for(cpu, traced), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Harness('build for %s (%s%s) failed:\n%s' % (cpu, prof, ', traced' if traced else '', r.stdout.decode(errors='replace')[-6000:]))

def build_all(configs):
    """configs: (cpu, profile, traced). Different target directories build in parallel."""
    dirs = {}
    for c in configs: dirs.setdefault((c[0], c[2]), []).append(c)
    def one(cs):
        for c in cs: build(*c)
    with cf.ThreadPoolExecutor(len(dirs)) as ex:
        for f in [ex.submit(one, cs) for cs in dirs.values()]: f.result()

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='faster-sim-')
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

def sim_env(known):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG')}
    e['SIM_KNOWN'] = ','.join(known)
    return e

def sim(cfg, args, cwd, known, timeout=None):
    traced = cfg[2]
    e = sim_env(known)
    if args[1].startswith('C15') and traced: e['SIM_PLAIN'] = binary(cfg[0], cfg[1], False)
    if NO_HISTORIES: e['SIM_NO_HISTORIES'] = '1'
    r = subprocess.run([binary(*cfg)] + [str(a) for a in args], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if r.returncode: raise Harness('sim %s ended with %d: %s' % (args[:3], r.returncode, r.stderr.decode(errors='replace')[-2000:]))
    return r.stdout.decode(errors='replace')

def replay_choices(cfg, prop, choices, cwd, known):
    out = sim(cfg, ['replay', prop, ','.join(map(str, choices))], cwd, known, 120)
    head, _, trace = out.partition('---\n')
    d = dict(l.split('=', 1) for l in head.splitlines() if '=' in l)
    return d.get('class', ''), d.get('message', ''), d.get('digest', ''), trace

def replay_batch(cfg, prop, b, cwd, known):
    sim(cfg, ['run', prop, b['seed'], b['from'], b['count'], b['count'], os.path.join(cwd, 'rb.json')], cwd, known, 300)
    v = json.load(open(os.path.join(cwd, 'rb.json')))['violation']
    return (v['class'], v['message'], v['index']) if v else ('', '', None)

def findings(prop):
    known, fixed, classes = [], [], []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'KNOWN-FINDING: property=(\S+) scenario=(\S+) class=(\S+) (.*)', l)
        if m:
            classes.append(m.group(3))
            if m.group(1) == prop: known.append(m.groups()[1:])
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m and m.group(1) == prop: fixed.append(m.group(2) + ' ' + m.group(3))
    # C15 drives the histories of other properties under tracing
    return known, fixed, classes if prop == 'C15' else [k[1] for k in known]

def explore(prop, configs, tier, seed, known, cwd):
    """Search; returns per-configuration totals and the first violation, if any."""
    traced = prop in TRACED
    q = RUNS[prop]
    t0 = time.time()
    chunks = []
    for ci, (cpu, prof) in enumerate(configs):
        total = q[(0 if prof == DEV else 1) + (0 if tier == 'quick' else 2)]
        n = max(1, min(64 if tier != 'quick' else 12, total // 50))
        per = -(-total // n)
        for k in range(n):
            chunks.append((ci, (cpu, prof, traced), ci * 10**9 + k * per, min(per, total - k * per)))
    # interleave configurations, so a time limit cuts all of them alike
    chunks.sort(key=lambda c: (c[2] % 10**9, c[0]))
    stop = threading.Event()
    cut = []
    def one(i, c):
        if stop.is_set(): return None
        if time.time() - t0 > LIMIT[tier]:
            cut.append(i); return None
        out = os.path.join(cwd, 'chunk%d.json' % i)
        d = os.path.join(cwd, 'w%d' % i)
        os.makedirs(d, exist_ok=True)
        sim(c[1], ['run', prop, seed, c[2], c[3], 64, out], d, known, LIMIT[tier] + 300)
        r = json.load(open(out))
        r['digests'] = out + '.digests'
        if r['violation']: stop.set()
        return r
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = [f.result() for f in [ex.submit(one, i, c) for i, c in enumerate(chunks)]]
    viol = None
    for c, r in zip(chunks, res):
        if r and r['violation'] and viol is None: viol = (c, r['violation'])
    return chunks, res, viol, len(cut), time.time() - t0

def untraced_fails(viol, seed, known, cwd):
    """Whether a history fails like this without tracing, too: then tracing has not changed it."""
    cfg = viol[0][1][:2] + (False,)
    out = os.path.join(cwd, 'untraced.json')
    for k in range(20):
        sim(cfg, ['run', 'C15-untraced', seed, k * 10**6, 20000, 64, out], cwd, known, 300)
        v = json.load(open(out))['violation']
        if v: return True
    return False

def determinism(prop, chunks, res, seed, known, cwd):
    """Repeat the beginning of one chunk per configuration in other processes and batches."""
    checked = 0
    diff = []
    seen = set()
    for c, r in zip(chunks, res):
        if r is None or c[1] in seen: continue
        seen.add(c[1])
        n = min(c[3], 400 if prop not in ('C09', 'C15', 'C16') else 60)
        first = open(r['digests'], 'rb').read()[:8 * n]
        for size in (7, 50):
            out = os.path.join(cwd, 'det.json')
            sim(c[1], ['run', prop, seed, c[2], n, size, out], cwd, known, 600)
            again = open(out + '.digests', 'rb').read()
            checked += n
            if again != first:
                k = next((i for i in range(n) if again[8*i:8*i+8] != first[8*i:8*i+8]), n)
                diff.append('%s/%s index %d' % (c[1][0], c[1][1], c[2] + k))
    return checked, diff

def report(prop, seed, c, v, known, cwd):
    """Minimise a violation, write its replay file and confirm it in fresh processes."""
    cfg = c[1]
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-%s-%s-%d.json' % (prop, cfg[0], cfg[1], v['index']))
    doc = dict(property=prop, cpu=cfg[0], profile=cfg[1], traced=cfg[2], no_histories=NO_HISTORIES, seed=seed, index=v['index'], class_=v['class'], message=v['message'])
    choices = v['choices']
    cls = replay_choices(cfg, prop, choices, cwd, known)[0]
    ok = False
    if cls == v['class']:
        s = sim(cfg, ['shrink', prop, v['class'], 40, ','.join(map(str, choices))], cwd, known, 200).strip()
        small = [int(x) for x in s.split(',') if x]
        a = replay_choices(cfg, prop, small, cwd, known)
        b = replay_choices(cfg, prop, small, cwd, known)
        ok = a == b and a[0] == v['class']
        doc.update(mode='choices', choices=small, choices_before_minimising=len(choices), message=a[1], digest=a[2], trace=a[3].splitlines())
    if not ok:
        # the violation needs what earlier runs left behind in the process: replay the batch up to it
        first = c[2] + (v['index'] - c[2]) // 64 * 64
        b = dict(seed=seed, **{'from': first}, count=v['index'] - first + 1)
        lo, hi = 1, b['count']
        x = replay_batch(cfg, prop, b, cwd, known)
        ok = x[0] != '' and x == replay_batch(cfg, prop, b, cwd, known)
        doc.update(mode='batch', batch=b, class_=x[0] or v['class'], message=x[1] or v['message'])
    doc['class'] = doc.pop('class_')
    doc['confirmed_in_fresh_processes'] = ok
    with open(path, 'w') as f: json.dump(doc, f, indent=1)
    return path, doc, ok

def check(prop, tier=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    traced = prop in TRACED
    configs = (TRACE_QUICK if traced else QUICK) if tier == 'quick' else THOROUGH
    skipped = [c for c in configs if not cpu_ok(c[0])]
    configs = [c for c in configs if cpu_ok(c[0])]
    known, fixed, classes = findings(prop)
    log('seed %d, tier %s' % (seed, tier))
    prepare()
    need = [(cpu, prof, traced) for cpu, prof in configs]
    if prop == 'C15': need += [(cpu, prof, False) for cpu, prof in configs]
    build_all(need)
    tb = time.time() - t0
    log('built in %.0f s' % tb)
    with Scratch() as cwd:
        lines = []
        for scen, cls, what in known:
            c = replay_choices((configs[0][0], configs[0][1], traced), scen, [], cwd, [])
            if c[0] == cls: lines.append('KNOWN-FINDING: property=%s %s' % (prop, what))
        chunks, res, viol, cut, ts = explore(prop, configs, tier, seed, classes, cwd)
        if viol and prop == 'C15' and untraced_fails(viol, seed, classes, cwd):
            NO_HISTORIES.append(viol[1]['class'])
            log('histories fail without tracing as well (%s): left out' % viol[1]['class'])
            chunks, res, viol, cut, ts = explore(prop, configs, tier, seed, classes, cwd)
        done = [r for r in res if r]
        tot = {}
        for r in done:
            for k, n in r['counters'].items(): tot[k] = tot.get(k, 0) + n
        runs, steps, nontriv = (sum(r[k] for r in done) for k in ('runs', 'steps', 'nontrivial'))
        cpu_s = sum(r['seconds'] for r in done)
        dist = sim((configs[0][0], configs[0][1], traced), ['distinct'] + [r['digests'] for r in done], cwd, [])
        all_distinct, distinct = map(int, dist.split())
        checked, diff = (0, []) if viol else determinism(prop, chunks, res, seed, classes, cwd)
        samples = []
        for ci, (cpu, prof) in enumerate(configs[:2]):
            out = sim((cpu, prof, traced), ['sample', prop, seed, ci * 10**9 + 1], cwd, classes, 120)
            samples.append({'configuration': '%s/%s' % (cpu, prof), 'index': ci * 10**9 + 1, 'trace': out.splitlines()[:60]})
        path = doc = None
        confirmed = True
        if viol:
            path, doc, confirmed = report(prop, seed, viol[0], viol[1], classes, cwd)
        per = {}
        for c, r in zip(chunks, res):
            if r: per['%s/%s' % c[1][:2]] = per.get('%s/%s' % c[1][:2], 0) + r['runs']
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': runs, 'distinct_nontrivial': distinct,
                'rule': 'one run = one seeded random history (operations, data, lengths, alignments, faults, schedule) executed against the real library and checked step by step; '
                        'non-trivial: at least one injected fault or misuse fired, or at least two kinds of operation were applied; distinct: different digests of the event log '
                        '(operations, accesses, closure calls, deliveries, switches, faults)',
                'samples': samples,
                'distinct_event_logs': all_distinct,
                'runs_per_configuration': per, 'configurations_skipped': ['%s/%s' % c for c in skipped],
                'search_seconds': round(ts, 2), 'build_seconds': round(tb, 2), 'simulator_cpu_seconds': round(cpu_s, 2),
                'runs_per_hour': int(runs / ts * 3600) if ts else 0, 'seeds_per_hour': int(runs / ts * 3600) if ts else 0,
                'simulated_time': 'the code has no clock; simulated time is counted in events of the simulator', 'simulated_events': steps,
                'faults_fired': {k: v for k, v in tot.items() if k.startswith('fault_') and v},
                'rare_conditions_hit': {k[6:]: v for k, v in tot.items() if k.startswith('probe_') and v},
                'operations': tot.get('ops', 0), 'calls_into_the_library': tot.get('lib_calls', 0), 'vectors_delivered': tot.get('vectors', 0), 'threads': tot.get('threads', 0),
                'histories_left_out_because_they_fail_untraced': NO_HISTORIES, 'known_findings_met': tot.get('known_finding', 0),
                'chunks_not_run_for_time': cut,
                'determinism': {'runs_repeated_in_other_processes_and_batches': checked, 'differences': diff},
                'real_components': REAL, 'simulated_components': STUB,
                'repaired_findings': fixed,
            },
            'assumptions': ['sampling: a clean result is evidence, not proof', 'the reference model in sim/src/model.rs and sim/src/subject.rs states the property correctly',
                            'one thread runs at a time: effects of weakly ordered memory are not simulated (the library shares no mutable memory)'],
            'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0,
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for l in lines: print(l)
        log('%d runs, %d distinct and non-trivial, %.0f s' % (runs, distinct, time.time() - t0))
        if viol:
            log('%s: %s' % (doc['class'], doc['message']))
            if not confirmed: log('(the replay file did not reproduce it twice alike)')
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            return 1
        if diff: raise Harness('runs are not repeatable: ' + '; '.join(diff))
        if not runs: raise Harness('nothing was explored')
    return 0

def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            if a[:1] == ['--build']:
                prepare()
                build_all([(c, p, False) for c, p in QUICK if cpu_ok(c)])
                return 0
            if a[:1] == ['--replay']:
                d = json.load(open(a[1]))
                cfg = (d['cpu'], d['profile'], d['traced'])
                prepare()
                build_all([cfg] + ([(cfg[0], cfg[1], False)] if d['property'] == 'C15' else []))
                known = findings(d['property'])[2]
                NO_HISTORIES[:] = d.get('no_histories', [])
                with Scratch() as cwd:
                    if d['mode'] == 'choices':
                        c, m, dg, tr = replay_choices(cfg, d['property'], d['choices'], cwd, known)
                        print(tr, end='')
                        same = c == d['class'] and dg == d['digest']
                    else:
                        c, m, _ = replay_batch(cfg, d['property'], d['batch'], cwd, known)
                        same = c == d['class']
                    print('class=%s\nmessage=%s\n%s' % (c, m, 'reproduced exactly' if same else 'NOT the recorded outcome'))
                    if c: print('VIOLATION property=%s replay=%s' % (d['property'], a[1]))
                    return 1 if c else 0
            if a and a[0] in RUNS and a[1:] in ([], ['quick'], ['thorough']): return check(*a)
        except (Harness, OSError, subprocess.TimeoutExpired, ValueError, KeyError) as x:
            log('ERROR: %s' % x)
            return 2
    print(__doc__, file=sys.stderr)
    return 2

if __name__ == '__main__': sys.exit(main())
