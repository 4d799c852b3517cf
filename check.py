#!/usr/bin/env python3
"""check.py PROP [--thorough|--quick] [--seconds S] : decide one property by seeded search in the simulator.
   check.py --replay FILE : rebuild and replay a recorded violation with a readable trace.
   check.py --setup : build everything once (warm cache)."""
import sys, os, json, time, subprocess, tempfile, shutil, struct, re
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, 'tools')); sys.dont_write_bytecode = True; sys.stdout.reconfigure(errors='backslashreplace')
import build as B
from concurrent.futures import ThreadPoolExecutor
NW = 8
def props(): return {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()}
def known():
    """known_findings.txt: 'finding: property=<id> key=<violation key> <what fails>' suppresses exactly that key; 'fixed: ...' lines suppress nothing."""
    out = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m: out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return out
def run(cmd, timeout=120, env=None):
    e = dict(os.environ); e.pop('SIM_VERBOSE', None); e['TZ'] = 'UTC'; e.update(env or {})
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='backslashreplace', timeout=timeout, env=e, stdin=subprocess.DEVNULL)
def u64s(f):
    b = open(f, 'rb').read(); return struct.unpack('<%dQ' % (len(b) // 8), b)
def fail(msg):
    print('ERROR: ' + msg); sys.stdout.flush(); os._exit(2)
def prune():
    """keep the build cache small"""
    try:
        ds = [os.path.join(B.BUILD, d) for d in os.listdir(B.BUILD)]
        ds = sorted([d for d in ds if os.path.isdir(d)], key=os.path.getmtime)
        for d in ds[:-14]:
            if time.time() - os.path.getmtime(d) > 1200: shutil.rmtree(d, ignore_errors=True)
    except OSError: pass
def one(bin, seed, idx, out=None, verbose=False):
    r = run([bin, 'one', str(seed), str(idx)] + ([out] if out else []), env={'SIM_VERBOSE': '1'} if verbose else None)
    return json.loads(r.stdout)
def replay(bin, f, verbose=False):
    r = run([bin, 'replay', f], env={'SIM_VERBOSE': '1'} if verbose else None); return json.loads(r.stdout)
def same(a, b): return a['status'] == b['status'] and a['key'] == b['key'] and (a['hash'] == b['hash'] or a['key'].startswith('no-progress:cpu'))
def main():
    a = sys.argv[1:]
    if '--replay' in a:
        f = a[a.index('--replay') + 1]; t = open(f, errors='backslashreplace').read(); scn = re.search(r'^scenario (\S+)', t, re.M).group(1); var = re.search(r'^variant (\S+)', t, re.M).group(1)
        bin = B.build(scn, var); r = replay(bin, f, True); log = r.pop('log')
        for m in re.finditer(r'frame (0x[0-9a-f]+)', log):
            try: log = log.replace(m.group(0) + '\n', ' '.join(subprocess.run(['addr2line', '-fpe', bin, m.group(1)], stdout=subprocess.PIPE, text=True).stdout.split()) + '\n')
            except OSError: pass
        print(log); print(json.dumps(r)); ok = r['status'] == 2 and r['key'] == re.search(r'^key (.*)$', t, re.M).group(1)
        if ok: print('VIOLATION property=%s replay=%s' % (scn, f))
        sys.exit(1 if ok else 0)
    if '--setup' in a:
        seen = set()
        for p in sorted(props()):
            if os.path.exists(os.path.join(V, 'scn', p + '.c')):
                vs, d = B.scn_meta(p)
                for v in vs: seen.add((v, tuple(d)))
        for v, d in sorted(seen): B.build_base(v, d)
        for p in sorted(props()):
            if os.path.exists(os.path.join(V, 'scn', p + '.c')):
                for v in B.scn_meta(p)[0]: B.build(p, v)
        print('built'); return
    prop = a[0]; tier = 'thorough' if '--thorough' in a else 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'), 0)
    except ValueError: seed = 1
    P = props()[prop]; t0 = time.time()
    variants, _ = B.scn_meta(prop)
    meta = open(os.path.join(V, 'scn', prop + '.c')).read(4000)
    m = re.search(r'//\s*minruns:\s*(\d+)', meta); minruns = int(m.group(1)) if m else 0
    m = re.search(r'//\s*quick:\s*(\d+)', meta); secs = float(m.group(1)) if m else 14.0
    if tier == 'thorough': secs = 600.0; minruns = 0
    if '--seconds' in a: secs = float(a[a.index('--seconds') + 1])
    try:
        with ThreadPoolExecutor(4) as ex: bins = dict(zip(variants, ex.map(lambda v: B.build(prop, v), variants)))
    except RuntimeError as e: fail('build failed: %s' % e)
    prune(); tb = time.time() - t0
    kf = known().get(prop, {})
    tmp = tempfile.mkdtemp(prefix='zplsim-')
    try:
        # determinism gate: the same seeds in two sets of fresh processes must give identical traces
        nd = 24 if tier == 'quick' else 240; parts = 4
        def dj(x):
            v, k, _ = x; return run([bins[v], 'hashes', str(seed), str(k * nd // parts), str(nd // parts)], timeout=300).stdout
        jobs = [(v, k, r) for r in range(2) for v in variants for k in range(parts)]
        with ThreadPoolExecutor(NW) as ex: outs = list(ex.map(dj, jobs))
        half = len(jobs) // 2; pairs = mism = 0
        for x, y in zip(outs[:half], outs[half:]):
            for lx, ly in zip(x.splitlines(), y.splitlines()):
                pairs += 1
                if lx != ly and 'no-progress:cpu' not in lx: mism += 1
        # search
        work = [(variants[w % len(variants)], w // len(variants)) for w in range(max(NW, len(variants)))]
        nper = {v: sum(1 for x in work if x[0] == v) for v in variants}
        def sj(x):
            v, w = x; o = os.path.join(tmp, '%s-%d' % (v, w))
            try: r = run([bins[v], 'search', str(seed), str(w), str(nper[v]), '1000000000', str(secs), o] + list(kf), timeout=secs * 5 + 120, env={'SIM_MINRUNS': str(minruns // len(work))})
            except subprocess.TimeoutExpired: return None
            return (v, o, json.load(open(o + '.json', errors='backslashreplace'))) if r.returncode == 0 and os.path.exists(o + '.json') else None
        ts = time.time()
        with ThreadPoolExecutor(len(work)) as ex: rs = list(ex.map(sj, work))
        tsrch = time.time() - ts
        if any(r is None for r in rs): fail('a search worker did not finish')
        tot = {}; faults = {}; probes = {}; hs = {}; nt = {}; fs = set(); viol = {}
        for v, o, r in rs:
            for k in ('runs', 'ok', 'discarded', 'violating', 'fault_runs', 'ops', 'syscalls', 'points', 'switches', 'simtime_s'): tot[k] = tot.get(k, 0) + r[k]
            for k, n in r['faults'].items(): faults[k] = faults.get(k, 0) + n
            for k, n in r['probes'].items(): probes[k] = probes.get(k, 0) + n
            hs.setdefault(v, set()).update(u64s(o + '.hashes')); nt.setdefault(v, set()).update(u64s(o + '.nt')); fs.update(u64s(o + '.feats'))
            for x in r['violations']: viol.setdefault((x['key'], v), []).extend((i, x['msg']) for i in x['idx'])
        # confirm, minimise and record violations
        reported = []; shown_known = set(); unconf = []
        for (key, v), xs in sorted(viol.items()):
            if key in kf: shown_known.add(key); continue
            if len(reported) >= 3: continue
            done = False
            for idx, msg in sorted(xs)[:3]:
                f0 = os.path.join(tmp, 'raw.replay')
                r1 = one(bins[v], seed, idx, f0); r2 = one(bins[v], seed, idx)
                if r1['status'] != 2 or not same(r1, r2): continue
                if not same(r1, replay(bins[v], f0)): continue
                os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
                out = os.path.join(V, 'replays', '%s-%s-%s.replay' % (prop, v, re.sub(r'[^a-zA-Z0-9]+', '_', key)[:40]))
                f1 = os.path.join(tmp, 'min.replay'); best = f0
                try:
                    run([bins[v], 'minimise', f0, f1, '15' if tier == 'quick' else '60'], timeout=150)
                    if os.path.exists(f1):
                        m1 = replay(bins[v], f1); m2 = replay(bins[v], f1)
                        if m1['status'] == 2 and m1['key'] == r1['key'] and same(m1, m2): best = f1
                except subprocess.TimeoutExpired: pass
                fin = replay(bins[v], best, True)
                txt = open(best, errors='backslashreplace').read().replace('zpl-dst-replay 1\n', 'zpl-dst-replay 1\nvariant %s\nseed %d run %d\n' % (v, seed, idx), 1)
                open(out, 'w', errors='backslashreplace').write(txt + ''.join('# ' + l + '\n' for l in fin['log'].splitlines()[-400:]))
                reported.append((key, fin['msg'] or msg, out, v, idx)); done = True; break
            if not done: unconf.append((key, v, xs[0]))
        # evidence
        sym = {}
        for v in variants:
            for l in open(os.path.join(os.path.dirname(bins[v]), 'symbols.txt')):
                k, *r = l.split(); sym.setdefault(k, set()).update(r)
        samples = []
        for v in variants[:3]:
            for idx in (1, 5):
                r = one(bins[v], seed, idx, verbose=True); lg = r['log'].splitlines()
                samples.append({'variant': v, 'run': idx, 'verdict': {1: 'held', 2: 'violated', 3: 'discarded'}.get(r['status'], '?'), 'trace_hash': r['hash'], 'operations': r['ops'], 'faults': r['faults'], 'trace': lg[:25] + (['... %d more lines' % (len(lg) - 25)] if len(lg) > 25 else [])})
        rule = re.search(r'scenario_rule\s*=\s*"([^"]*)"', meta); wall = time.time() - t0
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': len(reported),
          'coverage': {'evaluations': tot['runs'], 'distinct_nontrivial': sum(len(x) for x in nt.values()),
            'rule': 'each run is one seeded execution of a generated program with generated faults and schedule; ' + (rule.group(1) if rule else ''),
            'samples': samples, 'runs_that_held': tot['ok'], 'runs_discarded': tot['discarded'], 'distinct_traces': sum(len(x) for x in hs.values()), 'distinct_states_reached': len(fs), 'state_measure': 'hash of the scenario model state at marked points',
            'runs_per_hour': int(tot['runs'] / max(tsrch, .001) * 3600), 'seeds_per_hour': int(tot['runs'] / max(tsrch, .001) * 3600), 'search_wall_s': round(tsrch, 2), 'build_wall_s': round(tb, 2), 'workers': len(work), 'variants': variants,
            'simulated_time_s': round(tot['simtime_s'], 3), 'operations': tot['ops'], 'simulated_system_calls': tot['syscalls'], 'schedule_points': tot['points'], 'context_switches': tot['switches'],
            'runs_with_faults': tot['fault_runs'], 'faults_injected': faults, 'probes_reached': probes,
            'determinism': {'seed_pairs_compared': pairs, 'mismatches': mism},
            'real_code': ['all of zpl (single translation unit built from /repo/code)'] + sorted(sym.get('real', [])), 'simulated_calls': sorted(sym.get('simulated', [])), 'unsupported_calls_discard_the_run': sorted(sym.get('unsupported', []))},
          'assumptions': ['the simulated system calls behave as POSIX describes them', 'memory is sequentially consistent between schedule points (no store buffers)', 'sampled, not exhaustive']}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
        for k in sorted(kf):
            print('KNOWN-FINDING: property=%s %s [%s]%s' % (prop, kf[k], k, '' if k in shown_known else ' (not met in this run)'))
        print('%s %s: %d runs (%d discarded), %d distinct non-trivial, %d states, faults %s, %.1f s (build %.1f)' % (prop, tier, tot['runs'], tot['discarded'], ev['coverage']['distinct_nontrivial'], len(fs), faults, wall, tb))
        for key, msg, out, v, idx in reported:
            print('  %s (variant %s, seed %d, run %d): %s' % (key, v, seed, idx, msg)); print('VIOLATION property=%s replay=%s' % (prop, out))
        if reported: sys.exit(1)
        if unconf: fail('violation did not reproduce: %r' % (unconf,))
        if mism: fail('%d of %d seed pairs were not deterministic' % (mism, pairs))
        if not tot['ok'] or tot['discarded'] * 2 > tot['runs']: fail('%d of %d runs were discarded' % (tot['discarded'], tot['runs']))
    finally: shutil.rmtree(tmp, ignore_errors=True)
try: main()
except (SystemExit, KeyboardInterrupt): raise
except BaseException:
    import traceback; traceback.print_exc(); fail('the check itself failed')
