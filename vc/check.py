#!/usr/bin/env python3
"""Decide one property: generate every obligation from /repo's current source, discharge them, report."""
import os, sys, json, time, re, subprocess, shutil, tempfile, hashlib, multiprocessing, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import verify
from verify import *
from props import PROPS
REPO = os.environ.get('VERIF_REPO', '/repo')
MEMO = {}

class Job: pass

def gen_one(args):
    """one function of one group -> picklable result"""
    gi, fn = args
    prog, specs = MEMO[gi]
    out = dict(group=gi, fn=fn, misfit=None, obls=[], smoke=[], loops=0, inlined=[], called=[], file='', line=0, assumes=[])
    t0 = time.time()
    try:
        if fn is None:
            lo, LE = lemma_obligations(prog, specs)
            out['obls'] = [dict(kind=o.kind, label=o.label, line=o.line, text=o.text, fn='lemma') for o in lo]
        else:
            R, E = verify_function(prog, specs, fn)
            out['misfit'] = R.misfit
            out.update(loops=R.loops, inlined=sorted(R.inlined), called=sorted(R.called), file=R.file, line=R.line)
            if R.misfit is None:
                add_lemmas(E, specs); prepare(R, E)
                out['obls'] = [dict(kind=o.kind, label=o.label, line=o.line, text=o.text, fn=fn) for o in R.obls]
                out['smoke'] = [(str(n), q) for n, q in smoke_queries(R, E)]
    except Misfit as e: out['misfit'] = str(e)
    except RecursionError: out['misfit'] = 'nesting too deep for the generator'
    except Exception as e:
        out['misfit'] = 'generator: %s: %s' % (type(e).__name__, str(e)[:300]); out['tb'] = traceback.format_exc()
    out['gen'] = time.time() - t0
    return out

class O:
    def __init__(s, d): s.__dict__.update(d); s.result = None; s.solver = None; s.time = 0; s.log = []; s.err = ''
    def name(s): return '%s: %s [%s]%s' % (s.fn, s.kind, s.label, ' near line %d' % s.line if s.line else '')

def build_harness(h, work, sanitize=True):
    src = [os.path.join(REPO, 'src', f) for f in sorted(os.listdir(REPO + '/src')) if f.endswith('.c')]
    exe = os.path.join(work, h['name'])
    # the same flags as the project's own checking build: undefined behaviour other than plain integer wrap stops the run
    cf = ['-g', '-O1', '-w', '-fno-omit-frame-pointer', '-I' + REPO + '/src', '-I' + VERIF + '/replay', '-DEXHAUSTIVE' if h.get('exhaustive') else '-DNOEXH'] + h.get('cflags', [])
    if sanitize: cf += ['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all'] + h.get('nosan', [])
    objs = []; procs = []
    for i, f in enumerate(src + [os.path.join(VERIF, 'replay', h['src'])]):
        o = os.path.join(work, '%s_%d.o' % (h['name'], i)); objs.append(o)
        procs.append((f, subprocess.Popen(['clang'] + cf + ['-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for f, p in procs:
        out = p.communicate()[0].decode('utf8', 'replace')
        if p.returncode: return None, 'cannot build %s: %s' % (f, out[:1500])
    p = subprocess.run(['clang', '-fsanitize=address,undefined', '-o', exe] + objs + ['-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: return None, 'cannot link: ' + p.stdout.decode('utf8', 'replace')[:1500]
    return exe, None

def run_harness(h, exe, seed, secs, work):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98')
    n = h.get('procs', 4)
    ps = []
    for i in range(n):
        d = os.path.join(work, 'run%d' % i); os.makedirs(d, exist_ok=True)
        f = open(os.path.join(d, 'out'), 'wb')
        ps.append((i, d, f, subprocess.Popen([exe, str(seed * 16 + i), str(secs)] + h.get('args', []), cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)))
    res = []
    for i, d, f, p in ps:
        try: rc = p.wait(timeout=secs + 120)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); rc = 'timeout'
        f.close(); out = open(os.path.join(d, 'out'), 'rb').read().decode('utf8', 'replace')
        res.append((rc, out, seed * 16 + i))
    return res

def search(P, pid, seed, secs, log):
    """run the property's concrete searcher against the real code; returns (failing text or None, stats)"""
    stats = []
    for h in P.get('harness', []):
        work = tempfile.mkdtemp(prefix='nkrep')
        try:
            exe, err = build_harness(h, work)
            if not exe: stats.append(dict(searcher=h['name'], unavailable=err[:300])); log('searcher unavailable: ' + err[:300]); continue
            res = run_harness(h, exe, seed, secs, work)
            cases = 0
            for rc, out, sd in res:
                m = re.search(r'OK cases=(\d+)', out)
                if m: cases += int(m.group(1))
                if rc == 0: continue
                if rc == 'timeout': stats.append(dict(searcher=h['name'], note='did not finish')); continue
                if 'HARNESS-UNUSABLE' in out: stats.append(dict(searcher=h['name'], note='unusable on this tree')); continue
                txt = 'failing input found by %s (seed %s, exit %s)\n%s' % (h['name'], sd, rc, out if len(out) < 60000 else out[:30000] + '\n...\n' + out[-25000:])
                return txt, stats
            stats.append(dict(searcher=h['name'], cases=cases, seconds=secs, processes=len(res)))
        finally: shutil.rmtree(work, ignore_errors=True)
    return None, stats

def load_known(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)) if k.get('property') == pid and k.get('status') == 'known']

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-search', action='store_true'); ap.add_argument('--search-secs', type=float)
    a = ap.parse_args()
    pid = a.prop; P = PROPS[pid]; tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    def log(*x): print(*x); sys.stdout.flush()
    budget = 420 if tier == 'quick' else 1500
    jobs = []; misfits = []
    allc = {}
    for gi, g in enumerate(P.get('groups', [])):
        try:
            prog = load(REPO, g['files'])
            specs = load_specs(prog, [os.path.join(VERIF, 'specs', f + '.spec') for f in g['specs']])
        except Misfit as e:
            misfits.append(('group %d' % gi, str(e))); continue
        except Exception as e:
            misfits.append(('group %d' % gi, 'cannot load: %s: %s' % (type(e).__name__, str(e)[:300]))); continue
        MEMO[gi] = (prog, specs)
        fns = g.get('fns') or [n for n, c in specs.contracts.items() if not c.extern]
        fns = [f for f in fns if f not in g.get('skip', ())]
        if specs.lemmas: jobs.append((gi, None))
        jobs += [(gi, f) for f in fns]
        allc[gi] = specs
    with multiprocessing.Pool(8) as pool: results = pool.map(gen_one, jobs, chunksize=1)
    tgen = time.time() - t0
    obls = []; fnres = {}
    for r in results:
        if r['misfit']: misfits.append((r['fn'] or 'lemmas', r['misfit']))
        for d in r['obls']: o = O(d); o.group = r['group']; obls.append(o)
    if P.get('sites'):
        import sites
        try:
            found_ = sites.scan(REPO); ver = set(r['fn'] for r in results if r['fn']) | set(x for r in results for x in r['inlined'])
            for (what, allowed) in P['sites']:
                for f, ln in sorted(found_.get(what, {}).items()):
                    ok = sites.reached_only_from(found_, f, lambda g: g in ver or g in allowed)
                    obls.append(O(dict(kind='site', label=' '.join(what), line=ln, text='; ' + ('%s is assigned in %s, which is not among the verified functions' % ('.'.join(what[1:]), f) if what[0] == 'w' else '%s is called by %s, which is not among the verified functions' % (what[1], f)), fn=f, group=-1, fixed='proved' if ok else 'refuted')))
        except Exception as e: misfits.append(('sites', '%s: %s' % (type(e).__name__, str(e)[:200])))
    # discharge: fast pass over everything, then the stubborn ones with the whole portfolio
    fast = [('z3cs3', 4), ('z3mbqi0', 4), ('cvc5', 5)]
    for o in obls:
        if hasattr(o, 'fixed'): o.result = o.fixed; o.solver = 'ast'
    with ThreadPoolExecutor(8) as ex: 
        def first(o):
            if time.time() - t0 > budget: o.result = 'unknown'; o.err = 'out of time'; o.log = []; o.late = True; return
            discharge(o, fast)
        list(ex.map(first, [o for o in obls if not hasattr(o, 'fixed')]))
    left = [o for o in obls if o.result != 'proved' and not hasattr(o, 'fixed')]
    slow = [('z3plain', 4), ('z3', 8), ('z3old', 8), ('z3cs3', 25), ('z3mbqi0', 25), ('cvc5', 25), ('z3', 30)] + ([('cvc5', 90), ('z3cs3', 90), ('z3mbqi0', 90), ('z3', 120)] if tier == 'thorough' else [])
    found = None; early = []
    # an input that fails settles it: look for one before the long solver runs
    if (left or misfits) and not a.no_search: found, early = search(P, pid, seed, a.search_secs or 12, log)
    if left and not found:
        def again(o):
            if time.time() - t0 > budget: o.late = True; return
            lg = o.log
            if o.result == 'unknown' and discharge_parts(o): return
            lg = o.log; discharge(o, slow); o.log = lg + o.log
        with ThreadPoolExecutor(8) as ex: list(ex.map(again, left))
    failed = [o for o in obls if o.result != 'proved']
    # vacuity guard: no entry, loop head may be contradictory; at least one exit must be reachable
    vac = []; nsm = 0
    sq = [(r['fn'], n, q) for r in results for (n, q) in r['smoke']]
    def smoke(x):
        return x[0], x[1], run_solver('z3mbqi0', x[2], 1.5)[0]
    if found: sq = []
    with ThreadPoolExecutor(8) as ex: sm = list(ex.map(smoke, sq))
    byf = {}
    for fn, n, r in sm: byf.setdefault(fn, []).append((n, r)); nsm += 1
    for fn, l in byf.items():
        ex_ = [r for n, r in l if n == 'exit']
        if any(n == 'entry' and r == 'unsat' for n, r in l): vac.append((fn, 'precondition contradictory'))
        if ex_ and all(r == 'unsat' for r in ex_): vac.append((fn, 'no exit reachable'))
    known = load_known(pid)
    proved = [o for o in obls if o.result == 'proved']
    bysolver = {}
    for o in proved: bysolver[o.solver] = bysolver.get(o.solver, 0) + 1
    viol = None; stats = []
    evdir = os.path.join(VERIF, 'evidence'); os.makedirs(evdir, exist_ok=True)
    kn = [o for o in failed if any(k.get('obligation') and re.search(k['obligation'], o.name()) for k in known)]
    newfail = [o for o in failed if o not in kn]
    for k in known: log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for o in newfail[:30]: log('UNPROVED', o.name(), o.result, o.err[:200], o.log)
    for f, m in misfits: log('UNDECIDED', f, m)
    for f, m in vac: log('VACUOUS', f, m)
    bounded = P.get('bounded_secs', 0)
    secs = 0
    if newfail or misfits or vac: secs = a.search_secs or (90 if tier == 'quick' else 240)
    elif tier == 'thorough': secs = a.search_secs or P.get('thorough_secs', 120)
    elif bounded: secs = bounded
    stats = early
    if secs and not a.no_search and not found: found, stats = search(P, pid, seed + 1 if early else seed, secs, log); stats = early + stats
    rp = os.path.join(evdir, '%s.replay.txt' % pid)
    if os.path.exists(rp): os.remove(rp)
    def obltext(l):
        s = ''
        for o in l[:12]: s += 'failed obligation: %s\n  result %s, solver log %s\n' % (o.name(), o.result, o.log)
        return s
    if found:
        with open(rp, 'w') as f:
            f.write('property %s\n%s\n' % (pid, P['title'])); f.write(obltext(newfail)); f.write('\n'.join('undecided: %s %s' % m for m in misfits) + '\n'); f.write(found)
        log(found[:3000]); viol = 'VIOLATION property=%s replay=%s' % (pid, rp)
    elif newfail:
        # report only obligations whose failure speaks about the code, not a generator error
        real = [o for o in newfail if o.result in ('unknown', 'refuted')]
        if real:
            with open(rp, 'w') as f:
                f.write('property %s\n%s\n' % (pid, P['title'])); f.write(obltext(newfail)); f.write('concrete search: %s\n' % json.dumps(stats))
                for o in real[:3]: f.write('\n; ---- %s\n%s\n' % (o.name(), o.text))
            viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)
    wall = time.time() - t0
    asm = []
    for gi, sp in allc.items():
        for n, c in sp.contracts.items():
            if c.extern: asm.append('assumed contract: %s (%s)' % (n, P['groups'][gi].get('extern_note', {}).get(n, 'external or decided under another property')))
        for ax in sp.axioms: asm.append('axiom: %s' % ax[0])
        for fp in getattr(sp, 'fnptrs', {}): asm.append('assumed contract of host callback: %s' % (fp,))
    asm += P.get('assumptions', [])
    asm = sorted(set(asm)) + ['abstract memory model: typed field-indexed heaps over symbolic blocks; no two live blocks overlap; no partial-word aliasing except where a union or byte view is modelled',
                              'floating-point values are uninterpreted' ] + ['known gap: %s: %s' % m for m in misfits]
    fnl = []
    for r in results:
        if r['fn'] is None: continue
        ob = [o for o in obls if o.fn == r['fn'] and o.group == r['group']]
        fnl.append(dict(function=r['fn'], file=os.path.basename(r['file']), line=r['line'], obligations=len(ob), discharged=sum(1 for o in ob if o.result == 'proved'), loops=r['loops'], inlined=r['inlined'], undecided=r['misfit'], solver_s=round(sum(o.time for o in ob), 2)))
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'),
        coverage=dict(obligations=len(obls), discharged=len(proved), checker_cmd='python3 /verif/vc/check.py %s --tier %s' % (pid, tier),
            trusted_base=['clang 18 front end (JSON AST)', 'obligation generator /verif/vc', 'SMT solvers z3 5.3, z3 4.8, cvc5 1.1', 'contracts listed under assumptions'],
            by_backend=bysolver, solver_s=round(sum(o.time for o in obls), 1), generation_s=round(tgen, 1), functions=fnl, lemmas=sum(1 for o in obls if o.fn == 'lemma'),
            vacuity_guards=nsm, vacuous=[list(v) for v in vac], undecided=[list(m) for m in misfits], unproved=[o.name() for o in failed],
            bounded_search=stats, bounded_note='concrete searches are bounded and never counted as proved', not_covered=P.get('not_covered', [])),
        assumptions=asm, wall_s=round(wall, 1), violations=1 if viol else 0)
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    log('%s: %d/%d obligations discharged over %d functions, %d undecided, generation %.1fs, wall %.1fs %s' % (pid, len(proved), len(obls), len(fnl), len(misfits), tgen, wall, json.dumps(stats)))
    if viol: log(viol); sys.exit(1)
    sys.exit(0)

if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); print('internal problem, nothing decided'); sys.exit(0)
