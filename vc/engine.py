"""Verification-condition generator: symbolic execution of clang's AST, function by function.

Each function under contract is executed for all inputs: parameters, the heap and every
callee's effect are symbolic; loops are cut at their invariants; calls to functions with
a contract use the contract only; calls to functions without a contract are executed in
line (so extracting a helper does not change what is proved).
"""
import re
from cfront import *
from spec import Contract, SpecError

class Misfit(Exception):
    """the code no longer has the shape the annotations attach to (or uses a construct outside the subset)"""

# ------------------------------------------------------------------ terms
def lit(t): return isinstance(t, int)
def S(t):
    if isinstance(t, int): return str(t) if t >= 0 else '(- %d)' % -t
    return t
def app(f, *a): return '(' + f + ' ' + ' '.join(S(x) for x in a) + ')'
def add(a, b):
    if lit(a) and lit(b): return a + b
    if a == 0: return b
    if b == 0: return a
    return app('+', a, b)
def sub(a, b):
    if lit(a) and lit(b): return a - b
    if b == 0: return a
    return app('-', a, b)
def mul(a, b):
    if lit(a) and lit(b): return a * b
    if a == 1: return b
    if b == 1: return a
    return app('*', a, b)
def And(*xs):
    ys = []
    for x in xs:
        if x == 'true': continue
        if x == 'false': return 'false'
        ys.append(x)
    if not ys: return 'true'
    if len(ys) == 1: return ys[0]
    return '(and ' + ' '.join(ys) + ')'
def Or(*xs):
    ys = []
    for x in xs:
        if x == 'false': continue
        if x == 'true': return 'true'
        ys.append(x)
    if not ys: return 'false'
    if len(ys) == 1: return ys[0]
    return '(or ' + ' '.join(ys) + ')'
def Not(x):
    if x == 'true': return 'false'
    if x == 'false': return 'true'
    if x.startswith('(not ') : return x[5:-1]
    return '(not ' + x + ')'
def Imp(a, b):
    if a == 'true': return b
    if a == 'false' or b == 'true': return 'true'
    return '(=> ' + a + ' ' + b + ')'
def Ite(c, a, b):
    if c == 'true' or a == b: return a
    if c == 'false': return b
    return app('ite', c, a, b)
def Eq(a, b):
    if a == b: return 'true'
    if lit(a) and lit(b): return 'true' if a == b else 'false'
    return app('=', a, b)
def cmp_(op, a, b):
    if lit(a) and lit(b): return 'true' if {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op] else 'false'
    return app(op, a, b)
def sel(h, p): return app('select', h, p)

MAXV = lambda bits: 2 ** bits - 1
def in_range(ty, t):
    if ty.k == 'int' and not ty.a: return 'true'
    lo, hi = rng(ty)
    return And(cmp_('<=', lo, t), cmp_('<=', t, hi))
def rng(ty):
    if ty.k == 'bool': return 0, 1
    if ty.b: return -2 ** (ty.a - 1), 2 ** (ty.a - 1) - 1
    return 0, 2 ** ty.a - 1

class V:
    """a rvalue: SMT term + C type (agg: dict leaf -> V)"""
    __slots__ = ('t', 'ty', 'agg')
    def __init__(s, t, ty, agg=None): s.t, s.ty, s.agg = t, ty, agg
    def __repr__(s): return 'V(%s:%r)' % (s.t, s.ty)

class Facts:
    __slots__ = ('parent', 'f', 'n')
    def __init__(s, parent, f): s.parent, s.f = parent, f; s.n = parent.n + 1 if parent else 0
def facts_list(n):
    out = []
    while n.parent is not None: out.append(n.f); n = n.parent
    out.reverse(); return out

class State:
    __slots__ = ('env', 'facts', 'checked', 'tag')
    def __init__(s, env, facts, checked): s.env, s.facts, s.checked = env, facts, checked; s.tag = None
    def copy(s): return State(dict(s.env), s.facts, set(s.checked))
    def assume(s, f):
        if f != 'true': s.facts = Facts(s.facts, f)

class Obl:
    def __init__(s, fn, kind, label, line, facts, goal, extra=None):
        s.fn, s.kind, s.label, s.line, s.facts, s.goal, s.extra = fn, kind, label, line, facts, goal, extra
        s.result = None; s.time = 0; s.solver = None
    def name(s): return '%s:%s:%s' % (s.fn, s.kind, s.label)

class Frame:
    def __init__(s, func): s.func = func; s.names = {}; s.setjmp = None; s.throws = []; s.chain = ''; s.rets = []; s.scopes = []

def san(x): return re.sub(r'[^A-Za-z0-9_$]', '_', x)

class Engine:
    def __init__(self, prog, specs, smt):
        self.unsigned_of = {}
        self.p, self.sp, self.smt = prog, specs, smt
        self.obls = []; self.dry = 0; self.written = [set()]
        self.memoW = {}; self.inprog = {}
        self.fn = None; self.root = None; self.nframe = 0
        self.throwstack = []
        self.inlined = set(); self.called = set(); self.sites = {}
        self.maxpaths = 8
        self.frames = []
        self.misfits = []
        self.curline = 0
        self.check_mem = True; self.prune = False; self.feas = {}
        self.force_inline = set(); self.init = {}; self.old = None; self.entry_params = {}

    # ---------------------------------------------------------- symbols
    def sort(self, ty):
        if ty.k in ('ptr', 'func', 'array'): return 'Ptr'
        if ty.k in ('float', 'double'): return 'F'
        if ty.k == 'boolterm': return 'Bool'
        if ty.k == 'maparr': return ty.name
        return 'Int'
    def heap_sort(self, h): return '(Array Ptr %s)' % self.smt.heaps[h]
    def fresh(self, base, sort):
        return self.smt.declare(base, sort)
    def heapref(self, name, elem):
        """register heap 'name' holding elements of C type elem"""
        if name not in self.smt.heaps:
            self.smt.heaps[name] = self.sort(elem) if not isinstance(elem, str) else elem
            self.smt.heapty[name] = elem
        return 'H:' + name
    def get(self, st, key):
        if key not in st.env:
            if key.startswith('H:'):
                st.env[key] = self.initial(key)
            elif key.startswith('G:'):
                st.env[key] = self.initial_g(key)
            else: raise Misfit('unbound ' + key)
        return st.env[key]
    def initial(self, key):
        if key in self.init: return self.init[key]
        self.init[key] = self.new_heap(key[2:]); return self.init[key]
    def initial_g(self, key):
        if key in self.init: return self.init[key]
        ty = self.sp.ghostv[key[2:]]
        self.init[key] = self.fresh('g_' + key[2:], self.sort(ty)); return self.init[key]
    def new_heap(self, name):
        s = self.fresh('h_' + san(name), self.heap_sort(name))
        ty = self.smt.heapty[name]
        if not isinstance(ty, str) and ty.k in ('int', 'bool') and not (ty.k == 'int' and not ty.a):
            lo, hi = rng(ty)
            self.smt.axiom_for(s, '(forall ((p Ptr)) (! (and (<= %s (select %s p)) (<= (select %s p) %s)) :pattern ((select %s p))))' % (S(lo), s, s, S(hi), s))
        if name == '$alive':
            self.smt.axiom_for(s, '(not (select %s null))' % s)
        return s
    def havoc(self, st, key):
        if key.startswith('H:'): st.env[key] = self.new_heap(key[2:])
        elif key.startswith('G:'): st.env[key] = self.fresh('g_' + key[2:], self.sort(self.sp.ghostv[key[2:]]))
        else:
            old = st.env[key]; st.env[key] = self.fresh_like(st, old, key)
    def fresh_like(self, st, v, base):
        if v.agg is not None: return V(None, v.ty, {k: self.fresh_like(st, x, base) for k, x in v.agg.items()})
        t = self.fresh('v_' + san(base), self.sort(v.ty))
        if v.ty.k in ('int', 'bool'): st.assume(in_range(v.ty, t))
        return V(t, v.ty)
    def define(self, base, sort, term):
        if lit(term) or len(term) < 48: return term
        return self.smt.define(base, sort, term)
    def write(self, st, key, val):
        for w in self.written: w.add(key)
        st.env[key] = val
    def hstore(self, st, key, p, val):
        h = self.get(st, key)
        self.write(st, key, self.smt.define('h_' + san(key[2:]), self.heap_sort(key[2:]), app('store', h, p, val)))

    # ---------------------------------------------------------- obligations
    def oblige(self, st, kind, label, goal, line=None, extra=None):
        if goal == 'true': return
        if not self.dry and not (kind == 'mem' and self.root and self.root.contract and 'nomem' in self.root.contract.opts):
            self.obls.append(Obl(self.fn, kind, label, line or self.curline, st.facts, goal, extra))
        st.assume(goal)
    # ---------------------------------------------------------- layout
    def norm(self, sname):
        return sname
    def leaf(self, sname, fname):
        """locate field: returns ('f', sname, fname, ty) or ('u', sname, k, uname, ty)"""
        st = self.p.structs.get(sname)
        if st is None: raise Misfit('unknown struct ' + str(sname))
        k = 0
        for (n, t) in st.fields:
            if n == fname: return ('f', sname, n, t)
            if n == '' and t.k == 'struct':
                for (m, mt) in self.p.structs[t.name].fields:
                    if m == fname: return ('u', sname, k, t.name, mt)
                k += 1
        g = self.sp.ghostf.get((sname, fname))
        if g is not None: return ('g', sname, fname, g)
        raise Misfit('no field %s in %s' % (fname, sname))
    def uraw(self, uname):
        ts = [t for _, t in self.p.structs[uname].fields]
        if all(t.k == 'ptr' for t in ts): return PTR(VOID)
        return U32
    def fieldaddr(self, sname, fname, p):
        ty = self.leaf(sname, fname)
        return app(self.fieldfn(sname, fname, ty), p)
    def fieldfn(self, sname, fname, ty=None):
        ty = ty or self.leaf(sname, fname)
        flex = None
        if ty[0] == 'f' and ty[3].k == 'array' and ty[3].b == 1 and self.p.structs[sname].fields[-1][0] == fname: flex = self.p.offsetof(sname, fname)
        return self.smt.fieldfn(san(sname), fname, self.p.sizeof(ty[3]) if ty[0] == 'f' else 4, flex)
    def cellheap(self, ty):
        if ty.k in ('ptr', 'func'): return self.heapref('cell:ptr', PTR(VOID))
        if ty.k in ('int', 'bool', 'float', 'double'): return self.heapref('cell:%r' % ty, ty)
        raise Misfit('cell of type %r' % ty)
    def member_lv(self, p, sname, fname):
        """lvalue for field fname of the struct object at address p"""
        L = self.leaf(sname, fname)
        if L[0] == 'g': return ('mem', self.heapref('G.%s.%s' % (san(sname), fname), L[3]), p, L[3])
        if L[0] == 'u':
            raw = self.uraw(L[3])
            return ('raw', self.heapref('%s.u%d' % (san(sname), L[2]), raw), p, L[4], raw)
        t = L[3]
        if t.k in ('struct', 'array'): return ('agg', self.fieldaddr(sname, fname, p), t)
        if (sname, fname) in self.p.addr_fields:
            return ('mem', self.cellheap(t), self.fieldaddr(sname, fname, p), t)
        return ('mem', self.heapref('%s.%s' % (san(sname), fname), t), p, t)
    def deref_lv(self, p, t):
        if t.k in ('struct', 'array'): return ('agg', p, t)
        return ('mem', self.cellheap(t), p, t)
    # raw union conversions
    def from_raw(self, raw, rawty, ty):
        if ty == rawty or rawty.k == 'ptr': return V(raw, ty)
        if ty.k == 'int':
            if ty.b and ty.a == 32: return V(self.conv_int(raw, U32, I32), ty)
            return V(self.conv_int(raw, U32, ty), ty)
        if ty.k == 'float': return V(app('f32_of_bits', raw), ty)
        if ty.k == 'struct':
            fs = self.p.structs[ty.name].fields
            if len(fs) == 1: return V(None, ty, {fs[0][0]: self.from_raw(raw, rawty, fs[0][1])})
        raise Misfit('union member %r' % ty)
    def to_raw(self, v, rawty):
        ty = v.ty
        if rawty.k == 'ptr': return v.t
        if ty.k == 'int': return self.conv_int(v.t, ty, U32)
        if ty.k == 'float': return app('bits_of_f32', v.t)
        if v.agg is not None and len(v.agg) == 1: return self.to_raw(list(v.agg.values())[0], rawty)
        raise Misfit('union store %r' % ty)

    def load(self, st, lv):
        k = lv[0]
        if k == 'loc': return self.locget(st, lv)
        if k == 'mem':
            t = sel(self.get(st, lv[1]), lv[2])
            if lv[3].k in ('int', 'bool'): st.assume(in_range(lv[3], t)) if not self.spec_mode else None
            return V(t, lv[3])
        if k == 'raw':
            t = sel(self.get(st, lv[1]), lv[2])
            return self.from_raw(t, lv[4], lv[3])
        if k == 'agg':
            ty = lv[2]
            if ty.k == 'array': return V(lv[1], PTR(ty.a))
            return V(None, ty, self.load_agg(st, lv[1], ty))
        if k == 'rval': return lv[1]
        raise Misfit('load ' + k)
    spec_mode = False
    def load_agg(self, st, p, ty):
        d = {}; k = 0
        for (n, t) in self.p.structs[ty.name].fields:
            if n == '':
                raw = self.uraw(t.name)
                d['u%d' % k] = V(sel(self.get(st, self.heapref('%s.u%d' % (san(ty.name), k), raw)), p), raw); k += 1
            elif t.k == 'array':
                d[n] = V(None, t, {'$arr': V(self.fieldaddr(ty.name, n, p), PTR(t.a)), '$st': dict(st.env)})
            else: d[n] = self.load(st, self.member_lv(p, ty.name, n))
        return d
    def store(self, st, lv, v):
        k = lv[0]
        if k == 'loc': return self.locset(st, lv, v)
        if k == 'mem':
            key = lv[1]
            old = sel(self.get(st, key), lv[2])
            hook = self.hook_for(lv)
            self.hstore(st, key, lv[2], v.t)
            if hook: self.run_hook(st, hook, lv, old, v)
            return
        if k == 'raw':
            if lv[3].k == 'struct' and v.agg is not None: r = self.to_raw(list(v.agg.values())[0], lv[4])
            else: r = self.to_raw(V(v.t, lv[3], v.agg), lv[4])
            self.hstore(st, lv[1], lv[2], r); return
        if k == 'agg':
            if v.agg is None: raise Misfit('agg store')
            self.store_agg(st, lv[1], lv[2], v.agg); return
        raise Misfit('store ' + k)
    def store_agg(self, st, p, ty, d):
        k = 0
        for (n, t) in self.p.structs[ty.name].fields:
            if n == '':
                raw = self.uraw(t.name)
                self.hstore(st, self.heapref('%s.u%d' % (san(ty.name), k), raw), p, d['u%d' % k].t); k += 1
            elif t.k == 'array':
                raise Misfit('array member copy')
            else: self.store(st, self.member_lv(p, ty.name, n), d[n])
    # locals
    def locget(self, st, lv):
        v = self.get(st, lv[1])
        for f in lv[3]: v = v.agg[f]
        if len(lv) > 4 and lv[4]: return self.from_raw(v.t, v.ty, lv[2])
        return v
    def locset(self, st, lv, v):
        if not lv[3]: self.write(st, lv[1], v); return
        def upd(o, path):
            if not path:
                if len(lv) > 4 and lv[4]: return V(self.to_raw(V(v.t, lv[2], v.agg), o.ty), o.ty)
                return v
            d = dict(o.agg); d[path[0]] = upd(d[path[0]], path[1:]); return V(None, o.ty, d)
        self.write(st, lv[1], upd(self.get(st, lv[1]), list(lv[3])))
    def loc_member(self, lv, sname, f):
        L = self.leaf(sname, f)
        if L[0] == 'u': return ('loc', lv[1], L[4], lv[3] + ('u%d' % L[2],), True)
        return ('loc', lv[1], L[3], lv[3] + (f,))
    # ---- ghost hooks
    def hook_for(self, lv):
        key = lv[1][2:]
        for (s, f), h in self.sp.onwrite.items():
            if key == '%s.%s' % (san(s), f): return (s, f, h, lv[2])
            if key.startswith('cell:') and (s, f) in self.p.addr_fields:
                m = re.match(r'^\(Fld_%s_%s ' % (re.escape(san(s)), re.escape(f)), lv[2]) if isinstance(lv[2], str) else None
                if m: return (s, f, h, lv[2][m.end():-1])
        return None
    def run_hook(self, st, hook, lv, old, v):
        s, f, ((a, b, c), blk), p = hook
        ty = self.leaf(s, f)[3]
        names = {a: V(p, PTR(STRUCT(s))), b: V(old, ty), c: V(v.t, ty)}
        self.run_ghost(st, blk, names)
    def run_ghost(self, st, blk, names, old=None, result=None):
        for g in blk:
            if g[0] == 'if':
                c = self.sbool(g[1], st, names, old, result)
                a = st.copy(); b = st.copy(); base = st.facts
                if c == 'true': self.run_ghost(st, g[2], names, old, result); continue
                if c == 'false': self.run_ghost(st, g[3], names, old, result); continue
                a.assume(c); b.assume(Not(c))
                self.run_ghost(a, g[2], names, old, result); self.run_ghost(b, g[3], names, old, result)
                for k in set(a.env) | set(b.env):
                    x = self.get(a, k); y = self.get(b, k)
                    if x is not y and x != y:
                        st.env[k] = self.smt.define('g_' + san(k), self.keysort(k, x), Ite(c, x, y))
                for (s2, cc) in ((a, c), (b, Not(c))):
                    for ff in facts_list(s2.facts)[base.n:]: st.assume(Imp(cc, ff))
            elif g[0] == 'assert':
                self.oblige(st, 'ghost', 'assert', self.sbool(g[1], st, names, old, result))
            elif g[0] == 'map':
                _, t, n, l, e = g
                names2 = dict(names); bv = 'gm_%d' % self.smt.counter(); names2[n] = V(bv, PTR(t))
                lv = self.slv(l, st, names2, old, result)
                self.quant.append(bv)
                try:
                    rt = self.sval(e, st, names2, old, result)
                finally: self.quant.pop()
                h0 = self.get(st, lv[1])
                h1 = self.fresh('h_' + san(lv[1][2:]), self.heap_sort(lv[1][2:]))
                rhs = rt.t
                self.smt.axiom_for(h1, '(forall ((%s Ptr)) (! (= (select %s %s) %s) :pattern ((select %s %s)) :pattern ((select %s %s))))' % (bv, h1, bv, S(rhs), h1, bv, h0, bv))
                self.write(st, lv[1], h1)
            elif g[0] == 'choose':
                l, e = g[1], g[2]
                if e[0] != 'exists' or len(e[1]) != 1: raise Misfit('choose needs one exists')
                self.oblige(st, 'ghost', 'choose', self.sbool(e, st, names, old, result))
                (n, t), = e[1]
                w = V(self.fresh('choice_' + san(n), self.sort(t)), t); names2 = dict(names); names2[n] = w
                st.assume(self.sbool(e[3], st, names2, old, result))
                lv = self.slv(l, st, names, old, result)
                if lv[0] == 'gv': self.write(st, lv[1], w.t)
                else: self.hstore(st, lv[1], lv[2], w.t)
            else:
                lv = self.gset_lv(g[1], st, names, old, result); r = self.sval(g[2], st, names, old, result)
                if lv[0] == 'gv': self.write(st, lv[1], r.t)
                elif lv[0] == 'mapel':
                    b = lv[1]
                    cur = sel(self.get(st, b[1]), b[2]) if b[0] != 'gv' else self.get(st, b[1])
                    nv = app('store', cur, lv[2], r.t)
                    if b[0] == 'gv': self.write(st, b[1], self.smt.define('g', self.keysort(b[1]), nv))
                    else: self.hstore(st, b[1], b[2], nv)
                else: self.hstore(st, lv[1], lv[2], r.t)
    def gset_lv(self, l, st, names, old, result):
        if l[0] == 'idx':
            b = self.sval(l[1], st, names, old, result)
            if b.ty.k == 'maparr':
                i = self.sval(l[2], st, names, old, result)
                return ('mapel', self.slv(l[1], st, names, old, result), i.t)
        return self.slv(l, st, names, old, result)
    def keysort(self, k, v=None):
        if k.startswith('H:'): return self.heap_sort(k[2:])
        if k.startswith('G:'): return self.sort(self.sp.ghostv[k[2:]])
        return self.sort(v.ty)

    # ---------------------------------------------------------- integer conversion / arithmetic
    def conv_int(self, t, a, b):
        lo, hi = rng(b); la, ha = rng(a)
        if lit(t):
            if b.k == 'bool': return int(t != 0)
            m = (t - lo) % (hi - lo + 1) + lo
            return m
        if b.k == 'bool': return app('ite', app('=', t, 0), 0, 1)
        if lo <= la and ha <= hi: return t
        if a.a == b.a or (b.a > a.a):
            if a.b and not b.b: return app('ite', app('<', t, 0), app('+', t, 2 ** b.a), t)
            if not a.b and b.b: return app('ite', app('>', t, hi), app('-', t, 2 ** b.a), t)
        if not b.b: return app('ite', And(cmp_('<=', 0, t), cmp_('<=', t, hi)), t, app('mod', t, 2 ** b.a))
        m = app('mod', t, 2 ** b.a)
        return app('ite', And(cmp_('<=', lo, t), cmp_('<=', t, hi)), t, app('ite', app('>', m, hi), app('-', m, 2 ** b.a), m))
    def conv(self, st, v, ty, ck=None):
        a, b = v.ty, ty
        if a == b or b.k == 'void': return V(v.t, ty, v.agg)
        isint = lambda x: x.k in ('int', 'bool')
        if isint(a) and isint(b):
            t = self.conv_int(v.t, a, b)
            if a.k == 'int' and b.k == 'int' and a.b and not b.b and a.a == b.a and not lit(t): self.unsigned_of[t, a.a] = v.t
            return V(t, b)
        isf = lambda x: x.k in ('float', 'double')
        if isint(a) and isf(b) and lit(v.t) and v.t == 0: return V('f_zero', b)
        if isint(a) and isf(b): return V(app('f_of_int_%s' % b.k, v.t), b)
        if isf(a) and isint(b):
            if not self.spec_mode: self.oblige(st, 'ub', 'float-to-int', app('f_fits_%s%d' % ('i' if b.b else 'u', b.a), v.t))
            t = app('f_to_int', v.t)
            if not self.spec_mode: st.assume(in_range(b, t))
            return V(t, b)
        if isf(a) and isf(b): return V(app('f_%s_to_%s' % (a.k, b.k), v.t), b)
        pt = lambda x: x.k in ('ptr', 'array', 'func')
        if pt(a) and pt(b): return V(v.t, b)
        if isint(a) and pt(b):
            if v.t == 0: return V('null', b)
            return V(app('ptr_of_int', v.t), b)
        if pt(a) and isint(b):
            if b.k == 'bool': return V(Ite(Eq(v.t, 'null'), 0, 1), b)
            t = app('int_of_ptr', v.t); return V(self.conv_int(t, U64, b), b)
        if a.k == 'struct' and b.k == 'struct': return V(v.t, b, v.agg)
        raise Misfit('conversion %r -> %r' % (a, b))
    def wrap(self, st, t, ty, what):
        """result of an arithmetic operation whose mathematical value is t"""
        lo, hi = rng(ty)
        if lit(t): 
            if lo <= t <= hi: return t
            if not ty.b: return t % (hi + 1)
        if ty.b:
            self.oblige(st, 'ub', 'signed-overflow ' + what, And(cmp_('<=', lo, t), cmp_('<=', t, hi))); return t
        M = hi + 1
        if what == '+': return app('ite', app('<=', t, hi), t, app('-', t, M))
        if what == '-': return app('ite', app('>=', t, 0), t, app('+', t, M))
        return app('ite', And(cmp_('<=', 0, t), cmp_('<=', t, hi)), t, app('mod', t, M))
    def arith(self, st, op, a, b, ty):
        x, y = a.t, b.t
        if ty.k in ('float', 'double'):
            return V(app({'+': 'f_add', '-': 'f_sub', '*': 'f_mul', '/': 'f_div'}[op] + '_' + ty.k, x, y), ty)
        if op in ('+', '-', '*'):
            t = {'+': add, '-': sub, '*': mul}[op](x, y)
            if not lit(t) and len(t) > 60: t = self.smt.define('a', 'Int', t)
            r = self.defint(self.wrap(st, t, ty, op))
            if op == '*' and not ty.b and not lit(r) and ((x, ty.a) in self.unsigned_of or (y, ty.a) in self.unsigned_of):
                # (a mod M)(b mod M) and ab are the same modulo M: the product of the signed originals wraps to the same word
                st.assume(Eq(r, app('mod', mul(self.unsigned_of.get((x, ty.a), x), self.unsigned_of.get((y, ty.a), y)), rng(ty)[1] + 1)))
            return V(r, ty)
        if op in ('/', '%'):
            self.oblige(st, 'ub', 'division by zero', Not(Eq(y, 0)))
            if ty.b:
                lo, hi = rng(ty)
                self.oblige(st, 'ub', 'signed-overflow ' + op, Not(And(Eq(x, lo), Eq(y, -1))))
                if lit(x) and lit(y) and y != 0:
                    q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                    return V(q if op == '/' else x - q * y, ty)
                return V(app('tdiv' if op == '/' else 'tmod', x, y), ty)
            if lit(x) and lit(y) and y != 0: return V(x // y if op == '/' else x % y, ty)
            if lit(y): return V(app('div' if op == '/' else 'mod', x, y), ty)
            t = app('udiv' if op == '/' else 'umod', x, y); return V(t, ty)
        if op in ('&', '|', '^'):
            if ty.b and not (lit(x) and lit(y)):
                # signed bit operations: only through conversions; keep uninterpreted but ranged
                t = app({'&': 'sband', '|': 'sbor', '^': 'sbxor'}[op], x, y)
                st.assume(in_range(ty, t)); return V(t, ty)
            if lit(x) and lit(y): return V({'&': x & y, '|': x | y, '^': x ^ y}[op], ty)
            if op == '&':
                for u, w in ((x, y), (y, x)):
                    if lit(w) and w & (w + 1) == 0: return V(app('mod', u, w + 1) if w else 0, ty)
            t = app({'&': 'band', '|': 'bor', '^': 'bxor'}[op], x, y)
            if op != '&': st.assume(in_range(ty, t))
            return V(t, ty)
        if op in ('<<', '>>'):
            self.oblige(st, 'ub', 'shift amount', And(cmp_('<=', 0, y), cmp_('<', y, ty.a)))
            if lit(y):
                if op == '>>' and not ty.b: return V(app('div', x, 2 ** y) if not lit(x) else x >> y, ty)
                if op == '<<' and not ty.b:
                    if lit(x): return V((x << y) % 2 ** ty.a, ty)
                    t = app('*', x, 2 ** y)
                    if y == 1: return V(app('ite', app('<', x, 2 ** (ty.a - 1)), t, app('-', t, 2 ** ty.a)), ty)
                    return V(app('mod', t, 2 ** ty.a), ty)
                if lit(x) and op == '<<': return V(x << y, ty)
                if op == '>>' : return V(app('div', x, 2 ** y), ty)
            t = app('shl' if op == '<<' else 'shr', x, y); st.assume(in_range(ty, t)); return V(t, ty)
        raise Misfit('op ' + op)
    def defint(self, t):
        if lit(t) or len(t) < 60: return t
        return self.smt.define('i', 'Int', t)

    # ---------------------------------------------------------- memory validity
    def valid(self, st, p, size):
        return '(validp %s %s %s)' % (self.get(st, self.heapref('$alive', 'Bool')), S(p), S(size))
    def check_valid(self, st, p, ty, what):
        if not self.check_mem: return
        if isinstance(p, str) and p.startswith('|&') : return
        g = self.valid(st, p, self.p.sizeof(ty) if ty.k != 'func' else 1)
        if g in st.checked: return
        self.oblige(st, 'mem', what, g)
        st.checked.add(g)

    # ---------------------------------------------------------- expressions
    def strip(self, n):
        while n['kind'] in ('ParenExpr',): n = n['inner'][0]
        return n
    def lookup_var(self, n):
        d = n['referencedDecl']; k = d['kind']; nm = d['name']
        if k in ('VarDecl', 'ParmVarDecl'):
            key = 'v:%s@%d' % (d['id'], self.frames[-1].id)
            return key, nm
        return None, nm
    def lv(self, n, st):
        k = n['kind']
        if k == 'ParenExpr': return self.lv(n['inner'][0], st)
        ty = self.p.ty(n)
        if k == 'DeclRefExpr':
            key, nm = self.lookup_var(n)
            d = n['referencedDecl']
            if key in self.frames[-1].mem: return self.deref_lv(self.frames[-1].mem[key], ty)
            if key in st.env: return ('loc', key, ty, ())
            if nm in self.p.globals or d['kind'] == 'VarDecl':
                g = self.global_addr(nm, ty); st.assume(sel(self.get(st, self.heapref('$alive', 'Bool')), g))
                return self.deref_lv(g, ty)
            raise Misfit('variable ' + nm)
        if k == 'MemberExpr':
            b = n['inner'][0]; f = n.get('name', '')
            bt = self.p.ty(b)
            if n.get('isArrow'):
                pv = self.ev(b, st); stt = bt.a
                self.check_valid(st, pv.t, stt, '%s->%s' % (self.src(b), f))
                if f == '': return ('ureg', stt.name, self.ukey(stt.name, ty), pv.t)
                return self.member_lv(pv.t, stt.name, f)
            bl = self.lv(b, st)
            if bl[0] == 'ureg':
                uname = None
                j = 0
                for (m, mt) in self.p.structs[bl[1]].fields:
                    if m == '':
                        if j == bl[2]: uname = mt.name
                        j += 1
                raw = self.uraw(uname)
                return ('raw', self.heapref('%s.u%d' % (san(bl[1]), bl[2]), raw), bl[3], ty, raw)
            if bl[0] == 'agg':
                if f == '': return ('ureg', bl[2].name, self.ukey(bl[2].name, ty), bl[1])
                return self.member_lv(bl[1], bl[2].name, f)
            if bl[0] == 'raw':     # member of single-field struct inside a union
                return ('raw', bl[1], bl[2], ty, bl[4])
            if bl[0] == 'loc':
                if f == '': return ('locu', bl, self.ukey(bt.name, ty))
                return self.loc_member(bl, bt.name, f)
            if bl[0] == 'locu':
                return ('loc', bl[1][1], ty, bl[1][3] + ('u%d' % bl[2],), True)
            if bl[0] == 'rval':
                v = bl[1]
                if f == '': return ('rvalu', v, self.ukey(bt.name, ty))
                return ('rval', v.agg[f])
            if bl[0] == 'rvalu':
                r = bl[1].agg['u%d' % bl[2]]
                return ('rval', self.from_raw(r.t, r.ty, ty))
            raise Misfit('member of ' + bl[0])
        if k == 'UnaryOperator' and n['opcode'] == '*':
            pv = self.ev(n['inner'][0], st)
            self.check_valid(st, pv.t, ty, '*' + self.src(n['inner'][0]))
            return self.deref_lv(pv.t, ty)
        if k == 'ArraySubscriptExpr':
            b, i = n['inner']
            if self.p.ty(b).k not in ('ptr', 'array'): b, i = i, b
            b0 = b
            if b0['kind'] == 'ImplicitCastExpr' and b0.get('castKind') == 'ArrayToPointerDecay':
                al = self.lv(b0['inner'][0], st); iv = self.ev(i, st)
                at = self.p.ty(b0['inner'][0])
                if al[0] == 'rval': raise Misfit('array rvalue')
                if at.b:
                    self.oblige(st, 'mem', 'index %s' % self.src(n), And(cmp_('<=', 0, iv.t), cmp_('<', iv.t, at.b)))
                return self.deref_lv(self.shift(al[1], iv.t), ty)
            pv = self.ev(b, st); iv = self.ev(i, st)
            q = self.shift(pv.t, iv.t)
            self.check_valid(st, q, ty, self.src(n))
            return self.deref_lv(q, ty)
        if k in ('StringLiteral',):
            return ('agg', self.strlit(n, st), ty)
        if k in ('CStyleCastExpr', 'ImplicitCastExpr') and n.get('castKind') in ('NoOp',):
            return self.lv(n['inner'][0], st)
        if k == 'CompoundLiteralExpr': raise Misfit('compound literal')
        # rvalue of aggregate type
        return ('rval', self.ev(n, st))
    def ukey(self, sname, uty):
        j = 0
        for (m, mt) in self.p.structs[sname].fields:
            if m == '':
                if mt.name == uty.name or self.p.structs.get(mt.name) is self.p.structs.get(uty.name): return j
                j += 1
        raise Misfit('anonymous member')
    def shift(self, p, i):
        if i == 0: return p
        return app('shift', p, i)
    def src(self, n):
        k = n['kind']
        if k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'): return self.src(n['inner'][0]) if n.get('inner') else '?'
        if k == 'DeclRefExpr': return n['referencedDecl']['name']
        if k == 'MemberExpr':
            b = self.src(n['inner'][0]); nm = n.get('name', '')
            if not nm: return b
            return b + ('->' if n.get('isArrow') else '.') + nm
        if k == 'ArraySubscriptExpr': return self.src(n['inner'][0]) + '[' + self.src(n['inner'][1]) + ']'
        if k == 'UnaryOperator': return n['opcode'] + self.src(n['inner'][0])
        if k == 'BinaryOperator': return self.src(n['inner'][0]) + n['opcode'] + self.src(n['inner'][1])
        if k == 'IntegerLiteral': return n['value']
        if k == 'CallExpr': return self.src(n['inner'][0]) + '()'
        return k
    def global_addr(self, nm, ty):
        return self.smt.const_ptr('glob_' + nm)
    def strlit(self, n, st):
        g = self.smt.const_ptr('str_' + san(n.get('value', ''))[:24] + '_%x' % (hash_str(n.get('value', '')) & 0xffffff))
        try:
            ln = len(eval(n['value'])) + 1
        except Exception: ln = 1
        st.assume(And(sel(self.get(st, self.heapref('$alive', 'Bool')), g), Eq(app('bsize', g), ln)))
        if self.root and self.root.contract and 'literals' in self.root.contract.opts and not self.spec_mode: self.literal_facts(g, n, st)
        return g
    def literal_facts(self, g, n, st):
        """string constants are never written: their contents hold in every state; they are apart from the writable blocks parameters point to"""
        from spec import Parser
        try: txt = eval(n['value'])
        except Exception: return
        nm = {'lit__': V(g, PTR(I8))}
        e = 'cstr(lit__) && len(lit__) == %d' % len(txt) + ''.join(' && lit__[%d] == %d' % (i, b) for i, b in enumerate((txt + '\0').encode()))
        for (pn, pt) in self.root.literal_apart:
            nm['apart__' + pn] = V(pt[0], pt[1]); e += ' && \\blk(apart__%s) != \\blk(lit__)' % pn
        st.assume(self.sbool(Parser(e, 'literal', self.sp, None).expr(), st, nm, st, None))
    def ev(self, n, st):
        k = n['kind']; self.last = n
        l = line_of(n)
        if l: self.curline = l
        m = getattr(self, 'ev_' + k, None)
        if m is None: raise Misfit('expression kind %s (line %d)' % (k, self.curline))
        return m(n, st)
    def ev_ParenExpr(self, n, st): return self.ev(n['inner'][0], st)
    def ev_ConstantExpr(self, n, st): return self.ev(n['inner'][0], st)
    def ev_IntegerLiteral(self, n, st): return V(int(n['value']), self.p.ty(n))
    def ev_CharacterLiteral(self, n, st): return V(int(n['value']), self.p.ty(n))
    def float_const(self, v, ty):
        import struct
        x = float(v)
        if ty.k == 'float':
            try: x = struct.unpack('f', struct.pack('f', x))[0]
            except OverflowError: pass
        return 'f_zero' if x == 0 else self.smt.const_f('fc_' + san(repr(x)))
    def ev_FloatingLiteral(self, n, st):
        v = n['value']
        return V(self.float_const(v, self.p.ty(n)), self.p.ty(n))
    def ev_StringLiteral(self, n, st): return V(self.strlit(n, st), PTR(I8))
    def ev_PredefinedExpr(self, n, st): return V(self.smt.const_ptr('str_func'), PTR(I8))
    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        if 'argType' in n:
            a = n['argType']; t = self.p.tp.parse(a.get('desugaredQualType') or a['qualType'])
        else: t = self.p.ty(n['inner'][0])
        return V(self.p.sizeof(t), self.p.ty(n))
    def ev_ImplicitCastExpr(self, n, st):
        ck = n['castKind']; i = n['inner'][0]; ty = self.p.ty(n)
        if ck == 'LValueToRValue':
            return self.load(st, self.lv(i, st))
        if ck == 'ArrayToPointerDecay':
            l = self.lv(i, st)
            if l[0] == 'agg': return V(l[1], ty)
            if l[0] == 'mem': return V(l[2], ty)
            raise Misfit('decay ' + l[0])
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.fnval(i, ty)
        if ck == 'NullToPointer':
            return V('null', ty)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return V(Ite(self.truth(self.ev(i, st)), 1, 0), ty)
        v = self.ev(i, st)
        return self.conv(st, v, ty, ck)
    def ev_CStyleCastExpr(self, n, st):
        ck = n.get('castKind'); ty = self.p.ty(n)
        if ck == 'ToVoid':
            self.ev(n['inner'][0], st); return V(0, VOID)
        v = self.ev_ImplicitCastExpr(n, st)
        if ty.k == 'ptr' and ty.a.k != 'void' and self.is_alloc(n['inner'][0]):
            # the block returned by the allocator is used as an array of this type
            st.assume(Imp(Not(Eq(v.t, 'null')), Eq(app('btype', v.t), self.tid(ty.a))))
        return v
    def is_alloc(self, n):
        while n['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'): n = n['inner'][0]
        if n['kind'] != 'CallExpr': return False
        from calls import callee_of
        try: c = self.sp.contracts.get(callee_of(self, n)[1])
        except Misfit: return False
        return c is not None and 'alloc' in c.opts
    def tid(self, t):
        k = 'ptr' if t.k == 'ptr' else 'byte' if (t.k == 'int' and t.a == 8) else repr(t)
        return self.smt.tids.setdefault(k, len(self.smt.tids) + 1)
    def fnval(self, i, ty):
        i = self.strip(i)
        if i['kind'] == 'DeclRefExpr': return V(self.smt.const_ptr('fn_' + i['referencedDecl']['name']), ty)
        raise Misfit('function value')
    def ev_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl': return V(self.p.enums[d['name']], self.p.ty(n))
        if d['kind'] == 'FunctionDecl': return self.fnval(n, self.p.ty(n))
        return self.load(st, self.lv(n, st))
    def ev_MemberExpr(self, n, st): return self.load(st, self.lv(n, st))
    def ev_ArraySubscriptExpr(self, n, st): return self.load(st, self.lv(n, st))
    def truth(self, v):
        if v.ty.k in ('ptr', 'array', 'func'): return Not(Eq(v.t, 'null'))
        if v.ty.k in ('float', 'double'): return app('f_nonzero', v.t)
        if lit(v.t): return 'true' if v.t else 'false'
        m = re.match(r'^\(ite (.*) 1 0\)$', v.t)
        if m and balanced(m.group(1)): return m.group(1)
        return Not(Eq(v.t, 0))
    def cond(self, n, st):
        n0 = n; n = self.strip(n); k = n['kind']
        if k == 'UnaryOperator' and n['opcode'] == '!': return Not(self.cond(n['inner'][0], st))
        if k == 'BinaryOperator':
            op = n['opcode']
            if op in ('<', '>', '<=', '>=', '==', '!='):
                l = line_of(n)
                if l: self.curline = l
                a = self.ev(n['inner'][0], st); b = self.ev(n['inner'][1], st)
                return self.compare(op, a, b)
            if op in ('&&', '||'):
                a = self.cond(n['inner'][0], st)
                s2 = st.copy(); base = st.facts
                s2.assume(a if op == '&&' else Not(a)); mark = s2.facts.n
                if (a == 'false' and op == '&&'): return 'false'
                if (a == 'true' and op == '||'): return 'true'
                b = self.cond(n['inner'][1], s2)
                g = a if op == '&&' else Not(a)
                self.absorb(st, s2, g, mark)
                return And(a, b) if op == '&&' else Or(a, b)
        if k == 'ImplicitCastExpr' and n['castKind'] in ('IntegralToBoolean', 'PointerToBoolean', 'IntegralCast'):
            if n['castKind'] == 'IntegralCast':
                src = self.strip(n['inner'][0])
                if src['kind'] in ('BinaryOperator', 'UnaryOperator') and src.get('opcode') in ('<', '>', '<=', '>=', '==', '!=', '&&', '||', '!'): return self.cond(src, st)
            else: return self.cond(n['inner'][0], st)
        return self.truth(self.ev(n, st))
    def compare(self, op, a, b):
        if a.ty.k in ('float', 'double') or b.ty.k in ('float', 'double'):
            f = {'<': 'f_lt', '<=': 'f_le', '>': 'f_gt', '>=': 'f_ge', '==': 'f_eq', '!=': 'f_ne'}[op]
            if op in ('>', '>='): return app('f_lt' if op == '>' else 'f_le', b.t, a.t)
            if op == '!=': return Not(app('f_eq', a.t, b.t))
            return app(f, a.t, b.t)
        if op == '==': return Eq(a.t, b.t)
        if op == '!=': return Not(Eq(a.t, b.t))
        if a.ty.k in ('ptr', 'array'): return cmp_(op, app('idx', a.t), app('idx', b.t))
        return cmp_(op, a.t, b.t)
    def absorb(self, st, s2, g, mark):
        """s2 is st's continuation under condition g: fold its effects back"""
        for ff in facts_list(s2.facts)[mark:]: st.assume(Imp(g, ff))
        for k in set(s2.env) - set(st.env):
            if k[0] in 'HG': self.get(st, k)
        for k, x in list(s2.env.items()):
            if k not in st.env: continue
            y = st.env[k]
            if x is y or x == y: continue
            st.env[k] = self.ite_val(k, g, x, y)
        st.checked |= set()
    def ite_val(self, k, g, x, y):
        if isinstance(x, V):
            if x.agg is not None: return V(None, x.ty, {f: self.ite_val(k, g, x.agg[f], y.agg[f]) for f in x.agg})
            if x.t == y.t: return x
            return V(self.define('m_' + san(k.split(':')[-1].split('@')[0]), self.sort(x.ty), Ite(g, x.t, y.t)), x.ty)
        return self.smt.define('m_' + san(k[2:]), self.keysort(k), Ite(g, x, y))
    def ev_BinaryOperator(self, n, st):
        op = n['opcode']; ty = self.p.ty(n)
        if op == '=':
            r = self.ev(n['inner'][1], st)
            l = self.lv(n['inner'][0], st)
            if r.agg is None and not lit(r.t): r = V(self.named(r), r.ty)
            self.store(st, l, V(r.t, self.p.ty(n['inner'][0]), r.agg)); return r
        if op == ',':
            self.ev(n['inner'][0], st); return self.ev(n['inner'][1], st)
        if op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
            return V(Ite(self.cond(n, st), 1, 0), ty)
        a = self.ev(n['inner'][0], st); b = self.ev(n['inner'][1], st)
        return self.binop(st, op, a, b, ty)
    def binop(self, st, op, a, b, ty):
        if a.ty.k in ('ptr', 'array'):
            if op == '+': return V(self.pshift(a, b.t), ty)
            if op == '-' and b.ty.k in ('ptr', 'array'): return V(app('-', app('idx', a.t), app('idx', b.t)), ty)
            if op == '-': return V(self.pshift(a, sub(0, b.t)), ty)
        if b.ty.k in ('ptr', 'array') and op == '+': return V(self.pshift(b, a.t), ty)
        return self.arith(st, op, a, b, ty)
    def pshift(self, p, i): return self.shift(p.t, i)
    def named(self, v):
        if v.agg is not None or lit(v.t) or len(v.t) < 70: return v.t
        return self.smt.define('t', self.sort(v.ty), v.t)
    def ev_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]; l = self.lv(n['inner'][0], st); lt = self.p.ty(n['inner'][0])
        cur = self.load(st, l); r = self.ev(n['inner'][1], st)
        c = n.get('computeLHSType') or n['type']
        ct = self.p.tp.parse(c.get('desugaredQualType') or c['qualType'])
        if lt.k == 'ptr': res = self.binop(st, op, cur, r, lt)
        else:
            a = self.conv(st, cur, ct); res = self.conv(st, self.arith(st, op, a, self.conv(st, r, ct) if op not in ('<<', '>>') else r, ct), lt)
        res = V(self.named(res), res.ty)
        self.store(st, l, res); return res
    def ev_UnaryOperator(self, n, st):
        op = n['opcode']; ty = self.p.ty(n); i = n['inner'][0]
        if op in ('++', '--'):
            l = self.lv(i, st); cur = self.load(st, l)
            if ty.k == 'ptr': new = V(self.shift(cur.t, 1 if op == '++' else -1), ty)
            else:
                # narrow types are computed in int and converted back
                ct = ty if ty.a >= 32 else I32
                new = self.conv(st, self.arith(st, op[0], self.conv(st, cur, ct), V(1, ct), ct), ty)
            new = V(self.named(new), ty)
            self.store(st, l, new); return cur if n.get('isPostfix') else new
        if op == '&':
            i = self.strip(i)
            if i['kind'] == 'DeclRefExpr' and i['referencedDecl']['kind'] == 'FunctionDecl': return self.fnval(i, ty)
            if i['kind'] == 'ArraySubscriptExpr':
                b, ix = i['inner']
                pv = self.ev(b, st); iv = self.ev(ix, st)
                return V(self.shift(pv.t, iv.t), ty)
            l = self.lv(i, st)
            if l[0] == 'mem':
                return V(l[2], ty)
            if l[0] == 'agg': return V(l[1], ty)
            if l[0] == 'raw': 
                return V(app(self.smt.fieldfn('raw', san(l[1][2:]), 4), l[2]), ty)
            raise Misfit('address of ' + l[0])
        if op == '*': return self.load(st, self.lv(n, st))
        if op == '!': return V(Ite(self.cond(n, st), 1, 0), ty)
        v = self.ev(i, st)
        if op == '-':
            if ty.k in ('float', 'double'): return V(app('f_neg_' + ty.k, v.t), ty)
            return self.arith(st, '-', V(0, ty), v, ty)
        if op == '+': return v
        if op == '~':
            lo, hi = rng(ty)
            return V(sub(hi, v.t) if not ty.b else sub(-1, v.t), ty)
        if op == '__extension__': return v
        raise Misfit('unary ' + op)
    def ev_ConditionalOperator(self, n, st):
        c = self.cond(n['inner'][0], st); ty = self.p.ty(n)
        if c == 'true': return self.ev(n['inner'][1], st)
        if c == 'false': return self.ev(n['inner'][2], st)
        a = st.copy(); a.assume(c); ma = a.facts.n; va = self.ev_dead(n['inner'][1], a)
        b = st.copy(); b.assume(Not(c)); mb = b.facts.n; vb = self.ev_dead(n['inner'][2], b)
        if va is None and vb is None: raise Misfit('dead conditional')
        if vb is None:
            st.env = a.env; st.facts = a.facts; return va
        if va is None:
            st.env = b.env; st.facts = b.facts; return vb
        base = st.copy()
        for ff in facts_list(a.facts)[ma:]: st.assume(Imp(c, ff))
        for ff in facts_list(b.facts)[mb:]: st.assume(Imp(Not(c), ff))
        for k in set(a.env) | set(b.env):
            if k not in a.env or k not in b.env:
                if k[0] in 'HG': self.get(a, k); self.get(b, k)
                else: continue
            x, y = a.env[k], b.env[k]
            st.env[k] = x if (x is y or x == y) else self.ite_val(k, c, x, y)
        if ty.k == 'void': return V(0, VOID)
        return self.ite_val('c:cond', c, V(va.t, ty, va.agg), V(vb.t, ty, vb.agg))
    def ev_dead(self, n, st):
        try: return self.ev(n, st)
        except Dead: return None
    def ev_InitListExpr(self, n, st):
        ty = self.p.ty(n)
        if ty.k == 'struct':
            d = {}; fs = self.p.structs[ty.name].fields
            inn = n.get('inner', [])
            k = 0
            for j, (f, ft) in enumerate(fs):
                if f == '':
                    raw = self.uraw(ft.name); r = inn[j] if j < len(inn) else None
                    if r is not None and r['kind'] == 'InitListExpr' and r.get('inner') and r['inner'][0]['kind'] != 'ImplicitValueInitExpr':
                        d['u%d' % k] = V(self.to_raw(self.ev(r['inner'][0], st), raw), raw)
                    else: d['u%d' % k] = self.zero(raw)
                    k += 1; continue
                if j < len(inn) and inn[j]['kind'] != 'ImplicitValueInitExpr': d[f] = self.conv(st, self.ev(inn[j], st), ft)
                else: d[f] = self.zero(ft)
            return V(None, ty, d)
        raise Misfit('init list %r' % ty)
    def ev_ImplicitValueInitExpr(self, n, st): return self.zero(self.p.ty(n))
    def zero(self, ty):
        if ty.k in ('int', 'bool'): return V(0, ty)
        if ty.k in ('ptr', 'func'): return V('null', ty)
        if ty.k in ('float', 'double'): return V('f_zero', ty)
        if ty.k == 'struct':
            d = {}; k = 0
            for (n, t) in self.p.structs[ty.name].fields:
                if n == '': d['u%d' % k] = self.zero(self.uraw(t.name)); k += 1
                else: d[n] = self.zero(t)
            return V(None, ty, d)
        raise Misfit('zero of %r' % ty)
    def ev_VAArgExpr(self, n, st): return self.uninit(st, self.p.ty(n), 'vararg')   # whatever the caller passed
    def ev_StmtExpr(self, n, st):
        inner = n['inner'][0].get('inner', [])
        # glibc's assert(): ({ if (expr) ; else __assert_fail(...); })
        outs = self.exec(n['inner'][0], st.copy())
        outs = [o for o in outs]
        norm = [o[1] for o in outs if o[0] == 'n']
        if len(norm) != len(outs): raise Misfit('statement expression')
        if not norm: raise Dead()
        m = self.merge(norm); st.env, st.facts, st.checked = m.env, m.facts, m.checked
        return V(0, VOID)

    # ---------------------------------------------------------- calls
    def ev_CallExpr(self, n, st):
        from calls import do_call
        return do_call(self, n, st)

    # ---------------------------------------------------------- merging
    def merge(self, sts):
        if len(sts) == 1: return sts[0]
        # common ancestor of fact chains
        chains = [s.facts for s in sts]
        while len(set(id(c) for c in chains)) > 1:
            m = max(c.n for c in chains)
            chains = [c.parent if c.n == m and len(set(map(id, chains))) > 1 else c for c in chains]
        anc = chains[0]
        sels = [self.smt.declare('br', 'Bool') for _ in sts]
        facts = Facts(anc, Or(*sels))
        for b, s in zip(sels, sts):
            fs = facts_list(s.facts)[anc.n:]
            if fs: facts = Facts(facts, Imp(b, And(*fs)))
        env = {}
        keys = set()
        for s in sts: keys |= set(s.env)
        for k in keys:
            if k[0] in 'HG':
                for s in sts: self.get(s, k)
            elif not all(k in s.env for s in sts): continue
            v = sts[-1].env[k]
            for b, s in list(zip(sels, sts))[-2::-1]:
                x = s.env[k]
                if x is v or x == v or (isinstance(x, V) and x.agg is None and isinstance(v, V) and v.agg is None and x.t == v.t): continue
                v = self.ite_val(k, b, x, v)
            env[k] = v
        ck = set.intersection(*[s.checked for s in sts])
        return State(env, facts, ck)
    def limit(self, outs, n=None):
        """bound the number of simultaneous normal paths by merging"""
        n = n or self.maxpaths
        norm = [o for o in outs if o[0] == 'n']
        if len(norm) <= n: return outs
        return [o for o in outs if o[0] != 'n'] + [('n', self.merge([o[1] for o in norm]), None)]

    # ---------------------------------------------------------- statements
    def exec(self, n, st):
        k = n['kind']
        l = line_of(n)
        if l: self.curline = l
        m = getattr(self, 'x_' + k, None)
        if m is None:
            try:
                self.ev(n, st)
            except Dead: return []
            return [('n', st, None)]
        try:
            return m(n, st)
        except Dead: return []
    def x_NullStmt(self, n, st): return [('n', st, None)]
    def x_CompoundStmt(self, n, st):
        return self.seq(n.get('inner', []), st)
    def seq(self, stmts, st):
        outs = [('n', st, None)]
        for s in stmts:
            nxt = [o for o in outs if o[0] != 'n']
            live = [o for o in outs if o[0] == 'n']
            if not live: break
            if s['kind'] in ('ForStmt', 'WhileStmt', 'DoStmt') and len(live) > 2 and not self.is_do0(s):
                live = [('n', self.merge([o[1] for o in live]), None)]
            for o in live: nxt += self.exec(s, o[1])
            outs = self.limit(nxt)
        return outs
    def x_DeclStmt(self, n, st):
        for d in n['inner']:
            if d['kind'] != 'VarDecl': continue
            self.declare_local(d, st)
        return [('n', st, None)]
    def declare_local(self, d, st, val=None):
        ty = self.p.ty(d); fr = self.frames[-1]
        key = 'v:%s@%d' % (d['id'], fr.id)
        fr.names[d['name']] = (key, ty)
        fr.order.append(d['name'])
        init = [c for c in d.get('inner', []) if not c['kind'].endswith('Comment') and not c['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static':
            g = self.smt.const_ptr('static_' + d['name']); fr.mem[key] = g
            st.assume(sel(self.get(st, self.heapref('$alive', 'Bool')), g)); return
        if d['id'] in fr.addr or ty.k == 'array':
            p = self.fresh('loc_' + d['name'], 'Ptr'); fr.mem[key] = p
            self.new_block(st, p, self.p.sizeof(ty), local=True)
            fr.locals.append((p, ty))
            if val is not None: self.store(st, self.deref_lv(p, ty), val)
            elif init:
                if init[0]['kind'] == 'InitListExpr' and ty.k == 'array': return
                if ty.k == 'array': return
                v = self.ev(init[0], st); self.store(st, self.deref_lv(p, ty), V(v.t, ty, v.agg))
            return
        if val is not None: v = val
        elif init: 
            v = self.ev(init[0], st); v = V(self.named(v), ty, v.agg)
        else: v = self.uninit(st, ty, d['name'])
        for w in self.written: w.add(key)
        st.env[key] = v
    def uninit(self, st, ty, nm):
        if ty.k == 'struct':
            dd = {}; k = 0
            for (f, t) in self.p.structs[ty.name].fields:
                if f == '': dd['u%d' % k] = self.uninit(st, self.uraw(t.name), nm); k += 1
                else: dd[f] = self.uninit(st, t, nm)
            return V(None, ty, dd)
        t = self.fresh('u_' + nm, self.sort(ty))
        if ty.k in ('int', 'bool'): st.assume(in_range(ty, t))
        return V(t, ty)
    def new_block(self, st, p, size, local=False):
        ak = self.heapref('$alive', 'Bool'); al = self.get(st, ak)
        st.assume(And(Not(Eq(p, 'null')), Not(sel(al, p)), Eq(app('root', p), p), Eq(app('blk', p), p), Eq(app('idx', p), 0), Eq(app('bsize', p), size),
                      Eq(app('tag', p), 0)))
        bk = self.heapref('$born', 'Bool'); bo = self.get(st, bk); st.assume(Not(sel(bo, p)))
        self.write(st, ak, self.smt.define('h__alive', '(Array Ptr Bool)', app('store', al, p, 'true')))
        self.write(st, bk, self.smt.define('h__born', '(Array Ptr Bool)', app('store', bo, p, 'true')))
    def alive_born(self, st):
        a = self.get(st, self.heapref('$alive', 'Bool')); b = self.get(st, self.heapref('$born', 'Bool'))
        st.assume('(forall ((q Ptr)) (! (=> (select %s q) (select %s q)) :pattern ((select %s q))))' % (a, b, a))
    def no_return(self, old, st):
        """blocks never come back: addresses are handed out once, and what was ever born stays born"""
        ka = self.heapref('$alive', 'Bool'); kb = self.heapref('$born', 'Bool')
        a0 = self.get(old, ka); b0 = self.get(old, kb); a1 = self.get(st, ka); b1 = self.get(st, kb)
        if a0 != a1: st.assume('(forall ((q Ptr)) (! (=> (and (select %s q) (select %s q)) (select %s q)) :pattern ((select %s q))))' % (b0, a1, a0, a1))
        if b0 != b1: st.assume('(forall ((q Ptr)) (! (=> (select %s q) (select %s q)) :pattern ((select %s q))))' % (b0, b1, b1))
    def x_IfStmt(self, n, st):
        inner = n['inner']
        sj = self.find_setjmp(inner[0])
        if sj is not None: return self.if_setjmp(n, st, sj)
        c = self.cond(inner[0], st)
        outs = []
        if c not in ('true', 'false') and not self.dry and self.prune:
            if self.infeasible(st, c): c = 'false'
            elif self.infeasible(st, Not(c)): c = 'true'
        if c != 'false':
            a = st.copy(); a.assume(c); outs += self.exec(inner[1], a)
        if c != 'true':
            b = st.copy(); b.assume(Not(c))
            if len(inner) > 2: outs += self.exec(inner[2], b)
            else: outs.append(('n', b, None))
        return self.limit(outs)
    def infeasible(self, st, c):
        """the quantifier-free part of what is known already contradicts c"""
        from smt import run_solver
        fs = []
        def add_(f):
            if not isinstance(f, str): return
            if f.startswith('(and '):
                for x in split_args(f)[1:]: add_(x)
            elif 'forall' not in f and 'exists' not in f: fs.append(f)
        for f in facts_list(st.facts): add_(f)
        q = self.smt.query(fs + [c], None, use_axioms=False)
        q = '\n'.join(l for l in q.split('\n') if 'forall' not in l and 'exists' not in l)
        h = hash(q)
        if h not in self.feas: self.feas[h] = run_solver('z3', q, 2)[0] == 'unsat'
        return self.feas[h]
    def find_setjmp(self, n):
        st = [n]
        while st:
            x = st.pop()
            if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['name'] in ('_setjmp', 'setjmp', '__sigsetjmp'): return x
            st += [c for c in x.get('inner', []) if c]
        return None
    def if_setjmp(self, n, st, sj):
        fr = self.frames[-1]
        fr.sjmark = len(fr.throws)
        c = self.cond(n['inner'][0], st)     # setjmp() evaluates to 0 here
        outs = []
        if c != 'false':
            a = st.copy(); a.assume(c); outs += self.exec(n['inner'][1], a)
        b = st.copy(); b.assume(Not(c))
        fr.setjmp = (n, fr.sjbuf); fr.sjenv = dict(b.env); outs.append(('n', b, None))
        return outs
    def x_ReturnStmt(self, n, st):
        v = None
        if n.get('inner'):
            v = self.ev(n['inner'][0], st)
            v = V(self.named(v), self.frames[-1].func.ret, v.agg)
        return [('r', st, v)]
    def x_BreakStmt(self, n, st): return [('b', st, None)]
    def x_ContinueStmt(self, n, st): return [('c', st, None)]
    def x_LabelStmt(self, n, st): raise Misfit('label')
    def x_GotoStmt(self, n, st): raise Misfit('goto')
    def const_false(self, n):
        n = self.strip(n)
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'): n = n['inner'][0]
        return n['kind'] == 'IntegerLiteral' and int(n['value']) == 0
    def is_do0(self, n): return n['kind'] == 'DoStmt' and self.const_false(n['inner'][1])
    def x_DoStmt(self, n, st):
        body, c = n['inner']
        if self.is_do0(n):
            outs = self.exec(body, st)
            return self.limit([('n', o[1], None) if o[0] in ('b', 'c') else o for o in outs])
        return self.loop(n, st, None, c, body, None, True)
    def x_WhileStmt(self, n, st):
        inner = n['inner']; return self.loop(n, st, None, inner[0], inner[1], None, False)
    def x_ForStmt(self, n, st):
        init, cv, c, inc, body = n['inner']
        if init and init.get('kind'):
            if init['kind'] == 'DeclStmt': self.x_DeclStmt(init, st)
            else: self.ev(init, st)
        return self.loop(n, st, None, c if c and c.get('kind') else None, body, inc if inc and inc.get('kind') else None, False)
    def x_SwitchStmt(self, n, st):
        inner = n['inner']; v = self.ev(inner[0], st); body = inner[1]
        # flatten: list of (labels or None, stmt)
        items = []
        def flat(s):
            if s['kind'] == 'CaseStmt':
                val = self.case_val(s['inner'][0]); items.append(('case', val)); flat(s['inner'][-1])
            elif s['kind'] == 'DefaultStmt': items.append(('default', None)); flat(s['inner'][0])
            else: items.append(('stmt', s))
        for s in body.get('inner', []): flat(s)
        vals = [x[1] for x in items if x[0] == 'case']
        outs = []; t = self.defint(v.t)
        entry = []
        for i, it in enumerate(items):
            if it[0] == 'case': entry.append((Eq(t, it[1]), i))
            elif it[0] == 'default': entry.append((And(*[Not(Eq(t, x)) for x in vals]), i))
        if not any(it[0] == 'default' for it in items):
            entry.append((And(*[Not(Eq(t, x)) for x in vals]), len(items)))
        # group consecutive labels
        groups = {}
        for c, i in entry:
            j = i
            while j < len(items) and items[j][0] != 'stmt': j += 1
            groups.setdefault(j, []).append(c)
        for j, cs in groups.items():
            c = Or(*cs)
            if c == 'false' or (not self.dry and self.prune and self.infeasible(st, c)): continue
            a = st.copy(); a.assume(c)
            o = self.seq([x[1] for x in items[j:] if x[0] == 'stmt'], a)
            outs += [('n', q[1], None) if q[0] == 'b' else q for q in o]
        return self.limit(outs)
    def case_val(self, n):
        while n['kind'] in ('ConstantExpr', 'ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
            if 'value' in n: return int(n['value'])
            n = n['inner'][0]
        if 'value' in n: return int(n['value'])
        if n['kind'] == 'DeclRefExpr': return self.p.enums[n['referencedDecl']['name']]
        raise Misfit('case label')

    # ---------------------------------------------------------- loops
    def spec_names(self):
        """C names visible to loop annotations, current values; inner frames shadow"""
        names = {}
        for fr in self.frames:
            for nm, (key, ty) in fr.names.items(): names[nm] = (key, ty, fr)
        return names
    def resolve_names(self, st):
        out = {}
        for nm, (key, ty, fr) in self.spec_names().items():
            if key in fr.mem: out[nm] = ('memlocal', fr.mem[key], ty)
            elif key in st.env: out[nm] = st.env[key]
        for nm, v in self.entry_params.items(): out.setdefault(nm, v)
        return out
    def loop(self, n, st, init, c, body, inc, isdo):
        root = self.root
        lid = (self.frames[-1].chain, n.get('id'))
        if lid not in root.loopids:
            root.loopids[lid] = len(root.loopids)
        ordn = root.loopids[lid]
        L = (root.contract.loops.get(ordn) or root.contract.loops.get('*')) if root.contract else None
        entry = st.copy(); 
        # 1. which variables does an iteration write?
        self.dry += 1; self.written.append(set())
        smtmark = None
        d = st.copy()
        keys0 = set(st.env)
        try:
            nloops = dict(root.loopids)
            self.iter_once(d, c, body, inc, isdo)
        finally:
            W = self.written.pop(); self.dry -= 1
        for w in W: 
            if w[0] in 'HG' and w not in st.env: self.get(st, w); keys0.add(w)
        W = sorted(k for k in W if k in keys0)
        entry = st.copy()
        lname = 'loop%d' % ordn
        # 2. invariants hold on entry
        def invs(s, ent):
            out = []
            if L:
                nm = self.loop_names(s, L)
                for (lab, e, ln) in L['inv']:
                    for i, g in enumerate(self.split_goal(self.sbool_at(e, s, nm, ent))):
                        out.append((lab if i == 0 else lab + '.%d' % i, g))
            return out
        if L:
            for lab, g in invs(st, entry): self.oblige(st, 'loop-entry', lname + ':' + lab, g)
        # 3. arbitrary iteration
        h = st.copy(); h.checked = set()
        for k in W: self.havoc(h, k)
        if 'H:$alive' in W or 'H:$born' in W: self.alive_born(h)
        if 'H:$alive' in W or 'H:$born' in W: self.no_return(entry, h)
        for g in self.auto_frame(entry, h, W, L): h.assume(g)
        for lab, g in invs(h, entry): h.assume(g)
        head = h.copy()
        if not self.dry: root.loopheads.append((lname, h.copy()))
        v0 = None
        if L and L['variant'] is not None:
            v0 = self.named_int(self.sval(L['variant'], h, self.loop_names(h, L), self.old, None).t)
        outs = []; exits = []
        hb = h.copy()
        if L and L.get('ghost_start'): self.run_ghost(hb, L['ghost_start'], self.loop_names(hb, L), self.old)
        if c is not None and not isdo:
            cc = self.cond(c, hb)
            ex = hb.copy(); ex.assume(Not(cc))
            if cc != 'true': exits.append(ex)
            hb.assume(cc)
            if cc == 'false': hb = None
        back = []
        if hb is not None:
            for o in self.exec(body, hb):
                if o[0] in ('n', 'c'): back.append(o[1])
                elif o[0] == 'b': exits.append(o[1])
                else: outs.append(o)
            if len(back) > self.maxpaths: back = [self.merge(back)]
            nb = []
            for b in back:
                if isdo:
                    cc = self.cond(c, b)
                    ex = b.copy(); ex.assume(Not(cc)); exits.append(ex); b.assume(cc)
                if inc is not None: self.ev(inc, b)
                nb.append(b)
            for b in nb:
                if L and L['ghost']: self.run_ghost(b, L['ghost'], self.loop_names(b, L), self.old)
                if L:
                    for lab, g in invs(b, entry): self.oblige(b, 'loop-inv', lname + ':' + lab, g)
                if v0 is not None:
                    v1 = self.sval(L['variant'], b, self.loop_names(b, L), self.old, None).t
                    self.oblige(b, 'variant', lname, And(cmp_('<=', 0, v0), cmp_('<', v1, v0)))
                for g in self.auto_frame(entry, b, W, L, check=True): self.oblige(b, 'loop-frame', lname + ':' + g[0], g[1])
        if exits:
            if len(exits) > 2: exits = [self.merge(exits)]
            outs += [('n', e, None) for e in exits]
        return self.limit(outs)
    def named_int(self, t):
        if lit(t): return t
        return self.smt.define('v', 'Int', t)
    def iter_once(self, d, c, body, inc, isdo):
        if c is not None and not isdo:
            cc = self.cond(c, d); d.assume(cc)
        outs = self.exec(body, d)
        for o in outs:
            if o[0] in ('n', 'c'):
                if isdo: self.cond(c, o[1])
                if inc is not None: self.ev(inc, o[1])
    def auto_frame(self, entry, h, W, L, check=False):
        """implicit loop invariant: the function's frame condition holds so far"""
        out = []
        for k in W:
            if k[0] != 'H': continue
            g = self.frame_goal(k, self.old, h, check=check)
            if g is None: continue
            if check: out.append((k[2:], g))
            else: out.append(g)
        if L and L.get('assigns') is not None:
            # frame relative to loop entry
            locs = self.eval_assigns(L['assigns'], entry, self.loop_names(entry, L), entry)
            for k in W:
                if k[0] != 'H': continue
                if k == 'H:$alive' : continue
                g = self.frame_formula(k, locs.get(k, []), entry, h)
                if g is None or k in locs.get('heap', ()): continue
                out.append(('entry:' + k[2:], g) if check else g)
        return out
    def loop_names(self, st, L):
        return self.resolve_names(st)

    def get_sjenv(self, fr): return fr.sjenv
    def fnname(self): return self.frames[-1].func.name if self.frames else self.fn
    def on_entry(self, fr, st): self.entry_hook(fr, st)
    # ---------------------------------------------------------- frames
    def eval_assigns(self, assigns, st, names, old):
        """list of assigned locations -> {heapkey: [lambda p -> Bool term]}"""
        locs = {'heap': set()}
        for a in assigns:
            self.add_loc(a, st, names, old, locs, [], 'true')
        return locs
    def add_loc(self, a, st, names, old, locs, bound, guard):
        if a[0] == 'heap':
            locs['heap'].add('H:' + a[1]); return
        if a[0] == 'setof':
            nm = dict(names); b2 = list(bound)
            for (v, t) in a[1]:
                bv = 'fs_%s_%d' % (v, self.smt.counter()); nm[v] = V(bv, t); b2.append((bv, self.sort(t)))
            self.quant += [b[0] for b in b2]
            try:
                g = And(guard, self.sbool(a[2], st, nm, old, None)); self.add_loc(a[3], st, nm, old, locs, b2, g)
            finally: del self.quant[len(self.quant) - len(b2):]
            return
        def put(key, f):
            if bound:
                def ff(p, f=f): return '(exists (%s) %s)' % (' '.join('(%s %s)' % b for b in bound), And(guard, f(p)))
                # common case: lvalue is exactly the bound variable
                probe = f('@P@')
                m = re.match(r'^\(= @P@ (\S+)\)$', probe)
                if len(bound) == 1 and m and m.group(1) == bound[0][0]:
                    bv = bound[0][0]
                    def ff(p, bv=bv, guard=guard): return re.sub(r'(?<![\w$])%s(?![\w$])' % re.escape(bv), p, guard)
            else: ff = f if guard == 'true' else (lambda p, f=f: And(guard, f(p)))
            locs.setdefault(key, []).append(ff)
        if a[0] == 'call' and a[1] == '\\free':
            v = self.sval(a[2][0], st, names, old, None); key = self.heapref('$alive', 'Bool'); t = v.t
            put('H:$alive', lambda p: Eq(p, t)); return
        if a[0] in ('allidx', 'range'):
            b = self.sval(a[1], st, names, old, None); et = b.ty.a
            if a[0] == 'range':
                lo = self.sval(a[2], st, names, old, None).t; hi = self.sval(a[3], st, names, old, None).t
                bt = b.t
                cond = lambda p: And(Eq(app('blk', p), app('blk', bt)), cmp_('<=', add(app('idx', bt), lo), app('idx', p)), cmp_('<', app('idx', p), add(app('idx', bt), hi)))
            else:
                bt = b.t; cond = lambda p: Eq(app('blk', p), app('blk', bt))
            for key in self.leaf_heaps(et): put(key, cond)
            return
        lv = self.slv(a, st, names, old, None)
        if lv[0] in ('mem', 'raw'):
            t = lv[2]; put(lv[1], lambda p: Eq(p, t))
        elif lv[0] == 'agg':
            self.agg_locs(lv[1], lv[2], put)
        elif lv[0] == 'gv': locs['heap'].add(lv[1])
        else: raise SpecError('assigns ' + str(a))
    def agg_locs(self, p, ty, put):
        if ty.k == 'array':
            for key in self.leaf_heaps(ty.a): put(key, lambda q: Eq(app('blk', q), p))
            return
        k = 0
        for (n, t) in self.p.structs[ty.name].fields:
            if n == '':
                raw = self.uraw(t.name); key = self.heapref('%s.u%d' % (san(ty.name), k), raw); k += 1
                put(key, lambda q: Eq(q, p)); continue
            lv = self.member_lv(p, ty.name, n)
            if lv[0] == 'agg': self.agg_locs(lv[1], lv[2], put)
            else:
                x = lv[2]; put(lv[1], lambda q, x=x: Eq(q, x))
    def leaf_heaps(self, et):
        if et.k != 'struct': return [self.cellheap(et)]
        out = []; k = 0
        for (n, t) in self.p.structs[et.name].fields:
            if n == '': out.append(self.heapref('%s.u%d' % (san(et.name), k), self.uraw(t.name))); k += 1
            elif t.k not in ('struct', 'array'): 
                if (et.name, n) in self.p.addr_fields: raise Misfit('assigns: addressed field %s' % n)
                out.append(self.heapref('%s.%s' % (san(et.name), n), t))
            elif t.k == 'struct':
                raise Misfit('assigns: nested struct in element %s' % et.name) if len(self.p.structs[t.name].fields) != 1 else None
        return out
    def frame_formula(self, key, conds, old, new, p=None):
        a = self.get(old, key); b = self.get(new, key)
        if a == b: return None
        if key in ('H:$alive', 'H:$born'):
            q = p or 'q'
            ex = Or(*[c(q) for c in conds])
            body = Imp(And(sel(a, q), Not(ex)), sel(b, q))
        else:
            al = self.get(old, self.heapref('$born', 'Bool'))
            q = p or 'q'
            ex = Or(*[c(q) for c in conds])
            body = Imp(And(sel(al, app('root', q)), Not(ex)), Eq(sel(b, q), sel(a, q)))
        if p: return body
        if key == 'H:cell:i8' and self.root and self.root.contract and 'charframe' in self.root.contract.opts:
            w = app('shift', 'q', '(chdiff %s %s q)' % (b, a))
            body = And(body, Or(Not(sel(al, app('root', 'q'))), Or(*[c(w) for c in conds]), '(= (chars %s q) (chars %s q))' % (b, a)))
            return '(forall ((q Ptr)) (! %s :pattern ((select %s q)) :pattern ((chars %s q))))' % (body, b, b)
        return '(forall ((q Ptr)) (! %s :pattern ((select %s q))))' % (body, b)
    def frame_goal(self, key, old, new, check=False):
        """frame of the function under verification: root.locs"""
        if self.root.locs is None: return None
        if key in self.root.locs['heap']: return None
        p = None
        if check: p = self.fresh('fp', 'Ptr')
        return self.frame_formula(key, self.root.locs.get(key, []), old, new, p)

    # ---------------------------------------------------------- spec evaluation
    quant = []
    def sbool_at(self, e, st, names, entry):
        sv = self.atloop; self.atloop = entry
        try: return self.sbool(e, st, names, self.old, None)
        finally: self.atloop = sv
    atloop = None
    def sbool(self, e, st, names, old=None, result=None):
        from speceval import SE
        return SE(self, st, names, old, result).boolean(e)
    def sval(self, e, st, names, old=None, result=None):
        from speceval import SE
        return SE(self, st, names, old, result).val(e)
    def slv(self, e, st, names, old=None, result=None):
        from speceval import SE
        return SE(self, st, names, old, result).lval(e)
    def split_goal(self, g):
        """split top-level conjunctions so that each becomes its own obligation"""
        out = []
        def go(x):
            if x.startswith('(and '):
                for y in split_args(x)[1:]: go(y)
            else: out.append(x)
        go(g); return out

class Dead(Exception): pass

def split_args(x):
    out = []; d = 0; cur = ''
    for ch in x[1:-1]:
        if ch == '(': d += 1
        elif ch == ')': d -= 1
        if ch == ' ' and d == 0:
            if cur: out.append(cur)
            cur = ''
        else: cur += ch
    if cur: out.append(cur)
    return out
def balanced(x):
    d = 0
    for ch in x:
        if ch == '(': d += 1
        elif ch == ')':
            d -= 1
            if d < 0: return False
    return d == 0
def hash_str(s):
    h = 5381
    for c in s: h = (h * 33 + ord(c)) & 0xffffffff
    return h
