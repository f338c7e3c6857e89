"""Verify one function against its contract; discharge obligations with a solver portfolio."""
import os, sys, time, re, traceback
from concurrent.futures import ThreadPoolExecutor
from cfront import *
from spec import *
from engine import *
import calls
from calls import *
from smt import *
from speceval import SE, NameMissing, MATH

EXTRA_TYPES = {'ptr': PTR(VOID), 'integer': MATH, 'bool': Ty('boolterm'), 'iptr': Ty('maparr', 'Int', PTR(VOID), '(Array Int Ptr)'),
               'imap': Ty('maparr', 'Int', MATH, '(Array Int Int)'), 'set': Ty('maparr', 'Ptr', Ty('boolterm'), '(Array Ptr Bool)'), 'pmap': Ty('maparr', 'Ptr', MATH, '(Array Ptr Int)')}

def make_tparse(prog):
    def tp(q):
        q = q.strip()
        if q in EXTRA_TYPES: return EXTRA_TYPES[q]
        if q.startswith('integer'): return MATH
        if q == 'bool': return Ty('boolterm')
        if q.startswith('heap<'):
            inner = q[5:-1]
            return Ty('maparr', 'Ptr', None, '(Array Ptr %s)' % {'int': 'Int', 'ptr': 'Ptr', 'bool': 'Bool'}[inner])
        return prog.tp.parse(q)
    return tp

def load_specs(prog, files):
    sp = Specs()
    # bool as logical type inside specs
    for f in files:
        Parser(open(f).read(), os.path.basename(f), sp, make_tparse(prog)).parse()
    return sp

def register_all(E):
    p = E.p
    for sname, st in p.structs.items():
        if sname.startswith('?') or sname.startswith('_'): continue
        k = 0
        for (n, t) in st.fields:
            if n == '':
                if t.k == 'struct' and t.name in p.structs:
                    try: E.heapref('%s.u%d' % (san(sname), k), E.uraw(t.name))
                    except Exception: pass
                    k += 1
            elif t.k not in ('struct', 'array'): E.heapref('%s.%s' % (san(sname), n), t)
    for t in (U32, I32, U8, I8, U64, FLOAT, PTR(VOID)): E.cellheap(t)
    E.heapref('$alive', 'Bool'); E.heapref('$born', 'Bool')
    for (s, n), t in E.sp.ghostf.items(): E.heapref('G.%s.%s' % (san(s), n), t)

def make_engine(prog, specs):
    smt = Smt(); E = Engine(prog, specs, smt); register_all(E)
    st = State({}, Facts(None, None), set()); E.root = Root(None)
    E.frames = []
    for (n, e, ind, ln, f, uses) in specs.axioms:
        t = SE(E, st, {}, st, None).boolean(e)
        syms = logic_syms(E, t)
        smt.axioms.append((n, t, syms))
    return E

def logic_syms(E, t):
    """alternatives: an axiom is relevant once every logic symbol of one of its patterns occurs"""
    pats = [p for p in outer_patterns(t)]
    alts = [sorted(set(m for m in TOKRE.findall(p) if m in E.sp.logics)) for p in pats]
    alts = [a for a in alts if a]
    if alts and len(alts) == len(pats): return alts
    return [sorted(set(m for m in TOKRE.findall(t) if m in E.sp.logics)) or sorted(set(m for m in TOKRE.findall(t) if m in BUILTIN))[:1]]
def outer_patterns(t):
    if not t.startswith('(forall '): return []
    b = split_args(t)[2]
    if not b.startswith('(! '): return []
    a = split_args(b); return [a[i + 1] for i in range(2, len(a) - 1) if a[i] == ':pattern']

class FnResult:
    def __init__(s, fn): s.fn = fn; s.obls = []; s.misfit = None; s.smoke = []; s.loops = 0; s.inlined = set(); s.called = set(); s.file = ''; s.line = 0; s.time = 0; s.lemma = False

def verify_function(prog, specs, fn):
    """generate the obligations of one function"""
    if any('*' in (c.writes or []) for c in [d for _, d in specs.defaults] + list(specs.contracts.values())):
        # "writes *" stands for every heap the function or the contracts touch, so these have to be known first
        R, E = verify_function1(prog, specs, fn, None)
        if E is None: return R, E
        heaps = (dict(E.smt.heaps), dict(E.smt.heapty))
        while True:
            R, E = verify_function1(prog, specs, fn, heaps)
            if len(E.smt.heaps) == len(heaps[0]): return R, E
            heaps = (dict(E.smt.heaps), dict(E.smt.heapty))
    return verify_function1(prog, specs, fn, None)

def verify_function1(prog, specs, fn, heaps):
    R = FnResult(fn)
    c = specs.contracts[fn]
    f = prog.funcs.get(fn)
    if f is None or f.body is None:
        R.misfit = 'function %s does not exist in the current source' % fn; return R, None
    R.file, R.line = f.file, f.line
    # storage model: fields whose address is taken in code reachable here
    E = make_engine(prog, specs)
    if heaps: E.smt.heaps.update(heaps[0]); E.smt.heapty.update(heaps[1])
    R.E = E
    E.fn = fn; E.root = Root(c)
    if c.paths: E.maxpaths = c.paths
    E.prune = 'prune' in c.opts
    st = State({}, Facts(None, None), set())
    def entry(fr, s):
        names = dict(fr.params)
        cp = [p.get('name', 'arg%d' % i) for i, p in enumerate(f.params)]
        if c.params is not None:
            if len(c.params) != len(fr.params): raise Misfit('parameter count of %s changed' % fn)
            names = {n: V(v.t, v.ty, v.agg) for (n, t), (_, v) in zip(c.params, fr.params)}
        E.entry_params = names
        E.root.literal_apart = [(p.get('name'), (fr.params[p.get('name')].t, fr.params[p.get('name')].ty)) for p in f.params if p.get('name') in dict(fr.params) and fr.params[p['name']].ty.k == 'ptr' and not p['type']['qualType'].startswith('const')] if isinstance(fr.params, dict) else []
        E.alive_born(s)
        E.old = s.copy()
        for (lab, e, ln) in c.requires: s.assume(E.sbool(e, s, names, s, None))
        if E.smoke is not None: E.smoke.append(('entry', s.copy()))
        E.root.locs = None if c.noframe else E.eval_assigns(c.assigns, E.old, names, E.old)
        if c.ghost_entry: E.run_ghost(s, c.ghost_entry, names, E.old)
        E.old_state = E.old
        for h in c.hints: s.assume(Imp(E.sbool(h, s, names, E.old, None), 'true'))
    E.entry_hook = entry; E.smoke = []
    try:
        outs, fr = run_function(E, f, None, st)
        names = E.entry_params
        E.frames.append(fr)
        nexit = 0
        for (k, s, v) in outs:
            if k != 'r': raise Misfit('unexpected control flow')
            if f.ret.k != 'void' and v is None: continue
            res = v if v is not None else V(0, VOID)
            if c.ghost_exit: E.run_ghost(s, c.ghost_exit, names, E.old, res)
            E.smoke.append(('exit', s.copy()))
            nexit += 1
            for (lab, e, ln) in c.ensures:
                for i, g in enumerate(E.split_goal(E.sbool(e, s, names, E.old, res))):
                    E.oblige(s, 'post', lab + ('' if i == 0 else '.%d' % i), g, None)
            check_frame(E, s, c, 'frame')
        if fr.throws:
            if c.throws is False:
                for s, t in fr.throws: E.oblige(s, 'throw', 'must not fail', 'false')
            else:
                thr = [s for s, t in fr.throws]
                if 'splitthrow' in c.opts: thr = [E.merge(thr[i:i+6]) if len(thr[i:i+6]) > 1 else thr[i] for i in range(0, len(thr), 6)]
                elif len(thr) > 6: thr = [E.merge(thr)]
                for s in thr:
                    for (lab, e, ln) in c.exsures:
                        for i, g in enumerate(E.split_goal(E.sbool(e, s, names, E.old, None))):
                            E.oblige(s, 'ex', lab + ('' if i == 0 else '.%d' % i), g)
                    check_frame(E, s, c, 'exframe')
        E.frames.pop()
    except NameMissing as e: R.misfit = str(e)
    except Misfit as e: R.misfit = str(e) + ' (line %d)' % E.curline
    for ln, s in E.root.loopheads: E.smoke.append((ln, s))
    R.obls = E.obls; R.loops = len(E.root.loopids); R.inlined = E.inlined; R.called = E.called; R.smoke = E.smoke
    if c.loops and R.misfit is None:
        mx = max([k for k in c.loops if k != '*'] or [-1])
        if mx >= R.loops: R.misfit = 'loop %d no longer exists (found %d loops)' % (mx, R.loops)
        elif R.loops != len(c.loops) and False: pass
    return R, E

def check_frame(E, s, c, kind):
    if c.noframe: return
    keys = [k for k in s.env if k[0] == 'H']
    for k in sorted(keys):
        g = E.frame_goal(k, E.old, s, check=True)
        if g: E.oblige(s, kind, k[2:], g)
    if c.writes is not None:
        allowed = set('H:' + w for w in c.writes) | set('G:' + w for w in c.writes)
        if '*' not in c.writes:
            for k in keys:
                if k not in allowed and s.env[k] != E.get(E.old, k): E.oblige(s, kind, 'undeclared write ' + k[2:], 'false')

def lemma_obligations(prog, specs, names=None):
    """each lemma is proved from the axioms and the lemmas before it"""
    out = []
    E = make_engine(prog, specs)
    st = State({}, Facts(None, None), set()); E.root = Root(None); E.fn = 'lemma'
    for (n, e, ind, ln, f, uses) in specs.lemmas:
        t = SE(E, st, {}, st, None).boolean(e)
        if names is None or n in names:
            extra = []
            if ind:
                assert e[0] == 'forall'
                goal, extra = induction(E, st, e, ind)
            else: goal = t
            o = Obl('lemma', 'lemma', n, ln, Facts(None, None), goal); o.text = E.smt.query(extra, goal); o.E = E
            out.append(o)
        E.smt.axioms.append((n, t, logic_syms(E, t)))
    return out, E

def add_lemmas(E, specs):
    st = State({}, Facts(None, None), set())
    sv = E.root; E.root = Root(None)
    for (n, e, ind, ln, f, uses) in specs.lemmas:
        t = SE(E, st, {}, st, None).boolean(e)
        E.smt.axioms.append((n, t, logic_syms(E, t)))
    E.root = sv

def induction(E, st, e, v):
    """forall xs, v. body : prove body for skolem constants assuming it for all 0 <= v' < v"""
    names = {}; 
    for (n, t) in e[1]:
        s = E.fresh('ind_' + n, E.sort(t) if t.k != 'boolterm' else 'Bool'); names[n] = V(s, t)
    se = SE(E, st, names, st, None)
    goal = se.boolean(e[3])
    n2 = {}; bs = []
    for (n, t) in e[1]:
        bv = 'ih_' + n; bs.append('(%s %s)' % (bv, E.sort(t))); n2[n] = V(bv, t)
    ih = SE(E, st, n2, st, None)
    body = ih.boolean(e[3])
    trig = ''.join(' :pattern (' + ' '.join(S(ih.val(x).t) for x in tr) + ')' for tr in e[2])
    hyp = '(forall (%s) %s)' % (' '.join(bs), ('(! (=> (and (<= 0 ih_%s) (< ih_%s %s)) %s)%s)' % (v, v, names[v].t, body, trig)) if trig else '(=> (and (<= 0 ih_%s) (< ih_%s %s)) %s)' % (v, v, names[v].t, body))
    return goal, [hyp]

# ------------------------------------------------------------------ discharge
PLAN = [('z3cs3', 3), ('z3mbqi0', 3), ('z3plain', 4), ('z3', 6), ('cvc5', 10), ('z3old', 10), ('z3cs3', 30), ('z3mbqi0', 30), ('cvc5', 30), ('z3', 40)]
FAST0 = [('z3cs3', 3), ('z3mbqi0', 4), ('cvc5', 5)]
def discharge(o, plan=None):
    plan = plan or PLAN
    t0 = time.time(); last = 'unknown'; log = []
    for (s, to) in plan:
        r, dt = run_solver(s, o.text, to)
        log.append((s, r, round(dt, 2)))
        if r == 'unsat':
            o.result = 'proved'; o.solver = s; o.time = time.time() - t0; o.log = log; return o
        if r == 'sat' and s in ('z3',): 
            o.result = 'refuted'; o.solver = s; o.time = time.time() - t0; o.log = log; return o
        if r.startswith('(error') or r.startswith('error'):
            o.result = 'error'; o.solver = s; o.log = log; o.err = r
            if s.startswith('z3'): return o
    o.result = 'unknown'; o.time = time.time() - t0; o.log = log
    return o

def goal_parts(text):
    """the goal of a query as a list of weaker goals that together imply it"""
    i = text.rfind('\n(assert (not '); j = text.rfind('\n(check-sat)')
    if i < 0 or j < i: return []
    g = text[i + len('\n(assert (not '):j - 2]
    def go(x, wrap, out, d=0):
        if x.startswith('(and '):
            for y in split_args(x)[1:]: go(y, wrap, out, d + 1)
        elif x.startswith('(=> '):
            a = split_args(x)
            if len(a) != 3: out.append(wrap(x)); return
            go(a[2], lambda y, a=a, w=wrap: w('(=> %s %s)' % (a[1], y)), out, d + 1)
        elif x.startswith('(forall '):
            a = split_args(x); b = a[2]
            if b.startswith('(! '): b = split_args(b)[1]
            go(b, lambda y, a=a, w=wrap: w('(forall %s %s)' % (a[1], y)), out, d + 1)
        elif x.startswith('(= ') and d == 0: out.append(wrap(x))
        elif x.startswith('(let '):
            a = split_args(x); go(a[2], lambda y, a=a, w=wrap: w('(let %s %s)' % (a[1], y)), out, d + 1)
        else: out.append(wrap(x))
    out = []
    try: go(g, lambda y: y, out)
    except Exception: return []
    if len(out) < 2 or len(out) > 24: return []
    return [text[:i] + '\n(assert (not %s))' % y + text[j:] for y in out]
def case_split(text):
    """cases on whether an address read by the goal is one that was just written (skolemised goal)"""
    i = text.rfind('\n(assert (not '); j = text.rfind('\n(check-sat)')
    g = text[i + len('\n(assert (not '):j - 2]; decls = ''
    while g.startswith('(forall '):
        a = split_args(g)
        for b in split_args(a[1]):
            n, so = b[1:-1].split(' ', 1); decls += '\n(declare-fun %s () %s)' % (n, so)
        g = a[2]
        if g.startswith('(! '): g = split_args(g)[1]
    if not decls: return []
    # reads in the goal
    reads = []
    def walk(x):
        if not x.startswith('('): return
        a = split_args(x)
        if a and a[0] == 'select' and len(a) == 3 and re.match(r'^[A-Za-z_$][\w$]*$', a[1]) and (a[1], a[2]) not in reads: reads.append((a[1], a[2]))
        for y in a: walk(y)
    walk(g)
    conds = []
    for h, ad in reads:
        k = 0
        while k < 3:
            m = text.find('\n(assert (= %s (store ' % h)
            if m < 0: break
            l = text[m + 1:text.index('\n', m + 1)]
            st = split_args(split_args(split_args(l)[1])[2])
            if len(st) != 4: break
            if ad != st[2] and (ad, st[2]) not in conds and 'Ptr' in decls: conds.append((ad, st[2]))
            h = st[1]; k += 1
            if not re.match(r'^[A-Za-z_$][\w$]*$', h): break
    conds = [c for c in conds if any(n in c[0] for n in re.findall(r'declare-fun (\S+)', decls))][:3]
    if not conds: return []
    out = []
    for mask in range(1 << len(conds)):
        cs = ''.join('\n(assert %s)' % (('(= %s %s)' if mask >> q & 1 else '(not (= %s %s))') % c) for q, c in enumerate(conds))
        out.append(text[:i] + decls + cs + '\n(assert (not %s))' % g + text[j:])
    return out
CASEPLAN = [('z3cs3', 5), ('z3mbqi0', 5), ('cvc5', 8)]
PARTPLAN = [('z3cs3', 6), ('z3mbqi0', 6), ('z3plain', 4), ('cvc5', 8), ('z3', 8)]
def discharge_parts(o, plan=None):
    """prove the conjuncts of a stubborn goal one by one"""
    ps = goal_parts(o.text)
    if not ps: return False
    t0 = time.time(); used = []
    for k, t in enumerate(ps):
        for s, to in plan or PARTPLAN:
            r, dt = run_solver(s, t, to)
            if r == 'unsat': used.append(s); break
        else:
            cs = case_split(t)
            if cs and all(any(run_solver(s, c, to)[0] == 'unsat' for s, to in CASEPLAN) for c in cs): used.append('z3cs3'); continue
            o.log.append(('part %d of %d' % (k, len(ps)), 'unproved', round(time.time() - t0, 1))); o.part = t; o.time += time.time() - t0; return False
    o.result = 'proved'; o.solver = used[0]; o.time += time.time() - t0; o.log.append(('parts', len(ps), round(time.time() - t0, 1)))
    return True
def prepare(R, E):
    for o in R.obls:
        o.text = E.smt.query(facts_list(o.facts), o.goal)

def discharge_all(obls, jobs=8, plan=None, budget=None):
    def one(o):
        if discharge(o, FAST0 if plan is None else plan).result == 'proved' or o.result == 'error': return
        if discharge_parts(o, plan): return
        if plan is None: discharge(o, PLAN)
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, obls))

def smoke_queries(R, E):
    out = []
    for (nm, s) in R.smoke:
        out.append((nm, E.smt.query(facts_list(s.facts), None)))
    return out

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('--repo', default='/repo'); ap.add_argument('--spec', nargs='*'); ap.add_argument('--files', nargs='*'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--dump'); ap.add_argument("--secs",type=float); ap.add_argument('--fast', action='store_true'); ap.add_argument('--smoke', action='store_true'); ap.add_argument('fns', nargs='*')
    a = ap.parse_args()
    files = a.files or sorted(f for f in os.listdir(a.repo + '/src') if f.endswith('.c'))
    prog = load(a.repo, files)
    specs = load_specs(prog, a.spec)
    fns = a.fns or [n for n, c in specs.contracts.items() if not c.extern]
    plan = [('z3cs3', 4), ('z3mbqi0', 5), ('z3plain', 4), ('cvc5', 8), ('z3', 8)] if a.fast else None
    lo, LE = lemma_obligations(prog, specs)
    if lo and not a.fns:
        discharge_all(lo, 8, plan)
        for o in lo: print('lemma', o.label, o.result, o.solver, '%.1fs' % o.time)
    for fn in fns:
        t0 = time.time()
        R, E = verify_function(prog, specs, fn)
        if R.misfit: print('%-32s MISFIT %s' % (fn, R.misfit))
        if not R.obls: print(fn, 'no obligations'); continue
        add_lemmas(E, specs)
        prepare(R, E); tg = time.time() - t0
        discharge_all(R.obls, 8, plan)
        bad = [o for o in R.obls if o.result != 'proved']
        print('%-32s %d/%d proved, gen %.1fs, total %.1fs, loops %d, inlined %s' % (fn, len(R.obls) - len(bad), len(R.obls), tg, time.time() - t0, R.loops, ','.join(sorted(R.inlined))))
        for o in bad: print('    FAIL', o.kind, o.label, 'line', o.line, o.result, getattr(o, 'err', ''), o.log)
        if a.v:
            for o in R.obls: print('     ', o.kind, o.label, o.line, o.result, o.solver, '%.2f' % o.time)
        if a.smoke:
            for nm, q in smoke_queries(R, E):
                r, dt = run_solver('z3mbqi0', q, 2); print('     smoke', nm, r, 'VACUOUS' if r == 'unsat' else '')
        if a.dump:
            os.makedirs(a.dump, exist_ok=True)
            for i, o in enumerate(R.obls):
                if o.result != 'proved' or a.v: open('%s/%s_%d_%s.smt2' % (a.dump, fn, i, san(o.label)[:40]), 'w').write('; %s\n' % o.name() + getattr(o, 'part', o.text))
