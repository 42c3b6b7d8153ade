#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]  -- decide one property by deterministic simulation of /repo's current tree.

Exit 0: held on every simulated run.  Exit 1: VIOLATION line + replay file.  Exit 2: the check itself could not be carried out."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, 'sim'))
import build as B
from catalogue import PROPS, REAL, STUB, ASSUMPTIONS

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=66:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=1:malloc_context_size=10:max_malloc_fill_size=4096:symbolize=0:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=16', LC_ALL='C')

def symbolise(exe, text):
    """Replace code addresses by function (file:line) where they can be resolved."""
    pcs = sorted(set(re.findall(r'\b(?:pc 0x|\+0x|0x)([0-9a-f]{5,8})\b', text)))
    if not pcs: return text
    res = text
    for p in pcs:
        try: o = subprocess.run(['addr2line', '-C', '-f', '-s', '-e', exe, '0x' + p], capture_output=True, text=True, timeout=30).stdout.split('\n')
        except Exception: break
        if len(o) >= 2 and not o[0].startswith('??'): res = re.sub(r'0x' + p + r'\b', '0x%s [%s %s]' % (p, o[0][:110], o[1]), res)
    return res

def known():
    p = os.path.join(HERE, 'known-findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)', l) or re.match(r'known: property=(\S+) (probe)=(\S+) (.*)', l)
                if m: out.append(m.groups())
    return out

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time(); P = PROPS[prop]
    try: exes = B.build(P['builds'], P['real'] == 'rt')
    except Exception as e:
        print('cannot build the simulation from %s: %s' % (B.REPO, e)); return 2
    tb = time.time() - t0
    total = float(os.environ.get('SIM_SECS', P.get(tier, 40 if tier == 'quick' else 600)))
    work = tempfile.mkdtemp(prefix='tdbsim.'); procs = []; ncpu = 8
    try:
        alloc = {}
        for i in range(ncpu): alloc.setdefault(P['builds'][i % len(P['builds'])], []).append(i)
        for b, ws in alloc.items():
            for j, w in enumerate(ws):
                out = '%s/%s.%d' % (work, b, j)
                cmd = [exes[b], 'batch', '--prop', prop, '--seed', str(seed), '--start', str(j), '--stride', str(len(ws)), '--secs', str(total), '--tier', '1' if tier == 'thorough' else '0', '--minimise-secs', '15' if tier == 'quick' else '60', '--out', out]
                procs.append((b, out, subprocess.Popen(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=open(out + '.stderr', 'w'))))
        res = []; bad = None; stop_at = None
        pending = list(procs)
        while pending:
            for t in list(pending):
                b, out, p = t
                if p.poll() is None: continue
                pending.remove(t)
                try: r = json.load(open(out))
                except Exception: bad = bad or 'worker %s died (%s): %s' % (out, p.returncode, open(out + '.stderr').read()[-800:]); continue
                r['_exe'] = exes[b]; r['_out'] = out; res.append(r)
                if r['error']: bad = bad or r['error']
                if r.get('violation') and stop_at is None: stop_at = time.time() + 2
            if stop_at and time.time() > stop_at:
                for b, out, p in pending: p.kill()
                for b, out, p in pending: p.wait()
                break
            if time.time() > t0 + tb + total + 400:
                for b, out, p in pending: p.kill()
                bad = bad or 'a worker did not finish'; break
            time.sleep(0.05)
        viol = [r for r in res if r.get('violation')]; kn = known(); hits = []; real = []
        for r in viol:
            v = r['violation']; f = [x for x in kn if x[0] == prop and x[1] == v['class'] and re.search(x[2], v['msg'])]
            (hits if f else real).append((r, f))
        for x in kn:        # findings the scenario recognises itself and goes on
            if x[0] == prop and x[1] == 'probe' and any(r['probes'].get('known:' + x[2]) for r in res): print('KNOWN-FINDING: property=%s %s' % (prop, x[3]))
        for r in res:
            for q in r['probes']:
                if q.startswith('known:') and not any(x[:3] == (prop, 'probe', q[6:]) for x in kn): bad = bad or 'finding %s is not listed in known-findings.txt' % q
        for x in sorted(set(x for _, f in hits for x in f)): print('KNOWN-FINDING: property=%s %s' % (prop, x[3]))
        write_evidence(prop, tier, seed, P, res, real, time.time() - t0, tb)
        if real:
            r, v = real[0][0], real[0][0]['violation']
            os.makedirs(HERE + '/replays', exist_ok=True)
            dst = '%s/replays/%s-%s-%s.replay' % (HERE, prop, re.sub(r'[^A-Za-z0-9_.-]+', '_', v['class']), v['seed'])
            shutil.copy(v['replay'], dst)
            ok = 0
            for _ in range(2):
                q = subprocess.run([r['_exe'], 'replay', dst], env=ENV, capture_output=True, text=True)
                ok += 'REPRODUCED' in q.stdout
            print('class: %s\nseed: %s (build %s), %d decisions minimised to %d in %d runs' % (v['class'], v['seed'], r['build'], v['decisions'], v['minimised_decisions'], v['minimisation_runs']))
            print(symbolise(r['_exe'], v['msg'])[:6000])
            if ok != 2: print('the replay file did not reproduce the violation exactly (%d of 2)' % ok); return 2
            print('replay reproduced the violation exactly, twice: python3 %s/replay.py %s' % (HERE, dst))
            print('VIOLATION property=%s replay=%s' % (prop, dst)); return 1
        if bad: print('check could not be carried out: ' + bad); return 2
        runs = sum(r['runs'] for r in res)
        print('%s %s: %d simulated runs, no violation (build %.1f s, total %.1f s)' % (prop, tier, runs, tb, time.time() - t0)); return 0
    finally: shutil.rmtree(work, ignore_errors=True)

def union(res, ext):
    s = set()
    for r in res:
        try: b = open(r['_out'] + ext, 'rb').read()
        except OSError: continue
        for i in range(0, len(b) - 7, 8): s.add((r['build'], b[i:i + 8]))
    return len(s)

def write_evidence(prop, tier, seed, P, res, real, wall, tb):
    tot = lambda k: sum(r[k] for r in res)
    faults, probes = {}, {}
    for r in res:
        for k, v in r['faults'].items(): faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items(): probes[k] = probes.get(k, 0) + v
    runs = tot('runs'); simwall = max([r['wall'] for r in res] or [1])
    samples = [x for r in res for x in r['samples']][:6] or ['(no sample recorded)']
    cov = dict(evaluations=runs, distinct_nontrivial=union(res, '.hashes'), rule=P['rule'] + ' A run counts as distinct and non-trivial when it made at least one oracle comparison, had at least one injected fault or thread switch, and its event log (all system calls, results, switches, simulated times and data) hashes to a value no other run had.',
               samples=samples, runs_per_hour=int(runs / max(simwall, 1e-3) * 3600), one_seed_per_run=True, simulated_seconds=round(tot('sim_seconds'), 3), scheduler_steps=tot('steps'), thread_switches=tot('switches'),
               operations=tot('ops'), oracle_checks=tot('checks'), faults_injected=faults, conditions_reached=probes, distinct_interleavings=union(res, '.sched'), interleaving_measure='64-bit hash over (scheduler step, thread switched to) of every switch in a run; 1 for purely sequential schedules',
               determinism_checks=tot('determinism_checks'), determinism_failures=tot('determinism_failures'), runs_with_exhausted_decision_budget=tot('truncated_runs'), builds=P['builds'], real_components=REAL[P['real']], stub_components=STUB, build_seconds=round(tb, 1), workers=len(res))
    ev = dict(property=prop, tier=tier, seed=seed, level=P['level'], coverage=cov, assumptions=ASSUMPTIONS + P.get('assumptions', []), wall_s=round(wall, 2), violations=len(real))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    tmp = '%s/evidence/.%s.tmp' % (HERE, prop)
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
    os.replace(tmp, '%s/evidence/%s.json' % (HERE, prop))

if __name__ == '__main__': sys.exit(main())
