import copy
from engine import *
from cfront import *

NORETURN = {'__assert_fail', 'abort', 'exit'}

def strip_casts(n):
    while n['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'): n = n['inner'][0]
    return n

def callee_of(E, n):
    c = n['inner'][0]
    d = c
    while d['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') or (d['kind'] == 'UnaryOperator' and d['opcode'] == '*'): d = d['inner'][0]
    if d['kind'] == 'DeclRefExpr' and d['referencedDecl']['kind'] == 'FunctionDecl': return ('fn', d['referencedDecl']['name'])
    if d['kind'] == 'MemberExpr':
        b = d['inner'][0]; bt = E.p.ty(b)
        if bt.k == 'ptr': bt = bt.a
        nm = bt.name
        if nm.startswith('@'): 
            bb = b
            nm = bb.get('name', nm) if bb['kind'] == 'MemberExpr' else nm
        return ('ptr', nm + '.' + d['name'], d)
    if d['kind'] == 'ArraySubscriptExpr':
        b = strip_casts(d['inner'][0])
        return ('ptr', b.get('referencedDecl', b).get('name', '?'), d)
    if d['kind'] == 'DeclRefExpr': return ('ptr', 'var.' + d['referencedDecl']['name'], d)
    raise Misfit('callee')

def do_call(E, n, st):
    line = line_of(n) or E.curline
    cal = callee_of(E, n)
    args_n = n['inner'][1:]
    rty = E.p.ty(n)
    if cal[0] == 'fn':
        name = cal[1]
        if name in ('_setjmp', 'setjmp', '__sigsetjmp'):
            b = E.ev(args_n[0], st); E.frames[-1].sjbuf = b.t
            return V(0, I32)
        if name == 'longjmp':
            t = args_n[0]
            while t['kind'] in ('ImplicitCastExpr', 'ParenExpr'): t = t['inner'][0]
            if t['kind'] == 'UnaryOperator' and t['opcode'] == '*': b = E.ev(t['inner'][0], st)
            else: b = E.ev(args_n[0], st)
            E.oblige(st, 'recovery', 'recovery point set before failing', Not(Eq(b.t, 'null')), line)
            do_throw(E, st, b.t); raise Dead()
        if name in NORETURN:
            if name == '__assert_fail':
                E.oblige(st, 'assert', 'assert() at %s' % E.fnname(), 'false', line)
            raise Dead()
        if name == '__builtin_expect': return E.ev(args_n[0], st)
        if name == 'memset' or (name == 'nkiMemset' and name not in E.sp.contracts): return do_memset(E, args_n, st)
        if name == 'memcpy' or (name == 'nkiMemcpy' and name not in E.sp.contracts): return do_memcpy(E, args_n, st)
        if name in ('__builtin_va_start', '__builtin_va_end'): return V(0, VOID)
    else: name = cal[1]
    c = E.sp.contracts.get(name)
    if c is None and cal[0] == 'ptr': c = E.sp.contracts.get('type.' + cal[2].get('type', {}).get('qualType', '?'))
    f = E.p.funcs.get(name) if cal[0] == 'fn' else None
    if cal[0] == 'fn' and c is None and E.sp.defaults: c = default_contract(E, name, f)
    if cal[0] == 'fn' and (c is None or (name in E.force_inline)):
        if f is None or f.body is None: raise Misfit('no contract and no body for %s' % name)
        args = [E.ev(a, st) for a in args_n]
        E.curline = line
        return inline(E, f, args, n, st)
    if c is None: raise Misfit('no contract for call through %s' % name)
    if cal[0] == 'ptr':
        fp = E.ev(n['inner'][0], st)
        E.oblige(st, 'mem', 'call through null %s' % name, Not(Eq(fp.t, 'null')), line)
    args = [E.ev(a, st) for a in args_n]
    E.curline = line
    return apply_contract(E, c, f, args, st, rty, fp if cal[0] == 'ptr' else None, args_n)

def default_contract(E, name, f):
    if f is not None and f.body is not None and f.file == E.p.funcs[E.fn].file: return None
    for (pre, d) in E.sp.defaults:
        if name.startswith(pre):
            c = copy.copy(d); c.name = name; return c
    return None

def vm_of(E, args, st):
    """the machine a call is about: an argument, or what an argument belongs to"""
    VM = PTR(STRUCT('NKVM'))
    for a in args:
        if a.ty == VM: return a
    for a in args:
        if a.ty.k == 'ptr' and a.ty.a.k == 'struct':
            try: v = E.load(st, E.member_lv(a.t, a.ty.a.name, 'vm'))
            except Exception: continue
            if v.ty == VM: return v
    return None

def do_throw(E, st, target):
    s = st.copy()
    E.frames[-1].throws.append((s, target))

def has_named_args(E, c, f):
    if c.params is not None: return [(n, t) for n, t in c.params]
    return [(p.get('name', 'arg%d' % i), E.p.ty(p)) for i, p in enumerate(f.params)]

def apply_contract(E, c, f, args, st, rty, fp=None, nodes=None):
    E.called.add(c.name)
    ps = has_named_args(E, c, f)
    names = {}
    for (pn, pt), a in zip(ps, args):
        t = a
        if a.agg is None and not lit(a.t) and len(a.t) > 40: t = V(E.smt.define('arg_' + pn, E.sort(a.ty), a.t), a.ty)
        names[pn] = V(t.t, pt if pt.k != 'void' else t.ty, t.agg)
    names['$varargs'] = V(len(args) - len(ps), I32)
    if 'vm' not in names:
        m = vm_of(E, args, st)
        if m is not None: names['vm'] = m
    if fp is not None: names['\\callee'] = fp
    # requires
    for (lab, e, ln) in c.requires:
        for i, g in enumerate(E.split_goal(E.sbool(e, st, names, st, None))):
            E.oblige(st, 'pre', '%s:%s%s' % (c.name, lab, '' if i == 0 else '.%d' % i), g)
    if E.root and c.name == E.fn and 'variant' in c.opts: pass
    W, throws = write_set(E, c)
    old = st.copy()
    locs = E.eval_assigns(c.assigns, old, names, old)
    thr = None
    if throws:
        s2 = st.copy()
        if 'throw_pure' not in c.opts:
            havoc_set(E, s2, W); s2.checked = set()
            if 'H:$alive' in W or 'H:$born' in W: E.alive_born(s2)
            frames(E, c, W, locs, old, s2)
        for (lab, e, ln) in c.exsures: s2.assume(E.sbool(e, s2, names, old, None))
        tgt = 'null'
        if 'vm' in names and names['vm'].ty == PTR(STRUCT('NKVM')):
            tgt = sel(E.get(s2, E.heapref('NKVM.catastrophicFailureJmpBuf', PTR(VOID))), names['vm'].t)
        E.frames[-1].throws.append((s2, tgt))
    if c.noreturn: raise Dead()
    if W: 
        havoc_set(E, st, W)
        if 'H:$alive' in W or any(k[0] == 'H' for k in W):
            if 'H:$alive' in W: st.checked = set()
            if 'H:$alive' in W or 'H:$born' in W: E.alive_born(st)
    frames(E, c, W, locs, old, st)
    res = V(0, VOID)
    if rty.k != 'void':
        res = fresh_result(E, st, rty, c.name)
    for (lab, e, ln) in c.ensures: st.assume(E.sbool(e, st, names, old, res))
    if 'typed_copy' in c.opts and nodes is not None: typed_copy(E, st, old, names, nodes, res, ps)
    if not E.dry and E.root and E.root.contract:
        for (fn, lab, e, ln) in E.root.contract.after:
            if fn != c.name: continue
            g0 = E.sbool(e, st, dict(E.resolve_names(st), **E.entry_params), E.old, None)
            for i, g in enumerate(E.split_goal(g0)): E.oblige(st, 'step', lab + ('' if i == 0 else '.%d' % i), g)
            st.assume(g0)
    return res

def typed_copy(E, st, old, names, nodes, res, ps):
    """realloc keeps the common prefix; element type taken from the call site"""
    di = [i for i, (n, t) in enumerate(ps) if n == 'data'][0]
    n, t = target_type(E, nodes[di])
    et = t.a
    if et.k == 'void': raise Misfit('realloc of void*')
    es = E.p.sizeof(et)
    size = names['size'].t; cnt = names['count'].t if 'count' in names else 1
    tot = mul(size, cnt)
    cond = '(< k %s)' % S(cnt) if size == es else '(<= (* (+ k 1) %d) %s)' % (es, S(tot))
    d = names['data'].t; r = res.t
    for key in E.leaf_heaps(et):
        h = E.get(st, key); h0 = E.get(old, key)
        st.assume('(forall ((k Int)) (! (=> (and (<= 0 k) %s (<= (* (+ k 1) %d) (bsize %s))) (= (select %s (shift %s k)) (select %s (shift %s k)))) :pattern ((select %s (shift %s k))) :pattern ((select %s (shift %s k)))))'
                  % (cond, es, d, h, r, h0, d, h, r, h0, d))

def fresh_result(E, st, rty, nm):
    if rty.k == 'struct':
        return V(None, rty, E.uninit(st, rty, 'r_' + nm).agg)
    t = E.fresh('r_' + san(nm), E.sort(rty))
    if rty.k in ('int', 'bool'): st.assume(in_range(rty, t))
    return V(t, rty)

def havoc_set(E, st, W):
    for k in W:
        for w in E.written: w.add(k)
        E.get(st, k)
        E.havoc(st, k)

def frames(E, c, W, locs, old, st):
    if 'H:$alive' in W or 'H:$born' in W: E.no_return(old, st)
    if c.noframe: return
    for k in W:
        if k[0] != 'H' or k in locs['heap']: continue
        g = E.frame_formula(k, locs.get(k, []), old, st)
        if g: st.assume(g)

def write_set(E, c):
    if c.name in E.memoW: return E.memoW[c.name]
    if c.extern or c.writes is not None:
        W = set()
        for w in (c.writes or []):
            if w == '*':
                W |= set('H:' + h for h in E.smt.heaps)
            elif w in E.sp.ghostv: W.add('G:' + w)
            elif w[0] == '-':
                W.discard('H:' + w[1:])
            else:
                if w in ('cell:i8', 'cell:u8'): E.cellheap(I8 if w[-2] == 'i' else U8)
                if w == '$alive': E.heapref('$alive', 'Bool')
                if w == '$born': E.heapref('$born', 'Bool')
                if w not in E.smt.heaps: raise SpecError('unknown heap %s in writes of %s' % (w, c.name))
                W.add('H:' + w)
        r = (sorted(W), bool(c.throws)); E.memoW[c.name] = r; return r
    if c.name in E.inprog: 
        return E.inprog[c.name]
    f = E.p.funcs.get(c.name)
    if f is None or f.body is None: raise Misfit('function %s not found' % c.name)
    E.inprog[c.name] = ([], False)
    for it in range(4):
        sv = (E.dry, E.written, E.frames, E.root, E.fn, getattr(E, 'old', None), getattr(E, 'entry_params', None), E.init, E.curline)
        E.dry = 1; E.written = [set()]; E.frames = []; E.root = Root(None); E.init = dict(E.init)
        keepW = dict(E.memoW)
        try:
            st = State({}, Facts(None, None), set())
            E.old = st.copy(); E.entry_params = {}
            fr = None
            outs, fr = run_function(E, f, None, st)
            throws = bool(fr.throws)
            W = sorted(w for w in E.written[0] if w[0] in 'HG')
        finally:
            (E.dry, E.written, E.frames, E.root, E.fn, E.old, E.entry_params, E.init, E.curline) = sv
        if (W, throws) == E.inprog[c.name]: break
        E.inprog[c.name] = (W, throws)
        if it < 3: E.memoW = keepW
    del E.inprog[c.name]
    # ghost effects declared by the contract
    for w in ghost_writes(E, c):
        if w not in W: W = sorted(W + [w])
    if c.throws is not None: throws = c.throws
    E.memoW[c.name] = (W, throws)
    return E.memoW[c.name]

def ghost_writes(E, c):
    out = set()
    def go(b):
        for g in b:
            if g[0] == 'if': go(g[2]); go(g[3])
            elif g[0] == 'set':
                l = g[1]
                while l[0] == 'idx' : l = l[1]
                if l[0] == 'id': out.add('G:' + l[1])
                elif l[0] in ('arrow', 'dot'):
                    for (s, fn) in E.sp.ghostf:
                        if fn == l[2]: out.add(E.heapref('G.%s.%s' % (san(s), fn), E.sp.ghostf[(s, fn)]))
            elif g[0] == 'map':
                l = g[3]
                for (s, fn) in E.sp.ghostf:
                    if fn == l[2]: out.add(E.heapref('G.%s.%s' % (san(s), fn), E.sp.ghostf[(s, fn)]))
    go(c.ghost_exit); go(c.ghost_entry)
    return out

class Root:
    def __init__(s, contract): s.contract = contract; s.loopids = {}; s.locs = None; s.loopheads = []

def addr_taken(E, f):
    if hasattr(f, 'addr'): return f.addr
    out = set(); stack = [f.body]
    while stack:
        x = stack.pop()
        if not x: continue
        if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&':
            y = x['inner'][0]
            while y.get('kind') in ('ParenExpr', 'MemberExpr', 'ArraySubscriptExpr', 'ImplicitCastExpr'):
                if y['kind'] == 'MemberExpr' and y.get('isArrow'): y = None; break
                if y['kind'] == 'ImplicitCastExpr' and y.get('castKind') != 'ArrayToPointerDecay': y = None; break
                y = y['inner'][0]
            if y and y['kind'] == 'DeclRefExpr': out.add(y['referencedDecl']['id'])
        if x.get('kind') == 'ImplicitCastExpr' and x.get('castKind') == 'ArrayToPointerDecay':
            y = x['inner'][0]
            while y.get('kind') in ('ParenExpr', 'MemberExpr'):
                if y['kind'] == 'MemberExpr' and y.get('isArrow'): y = None; break
                y = y['inner'][0]
            if y and y['kind'] == 'DeclRefExpr': out.add(y['referencedDecl']['id'])
        stack += x.get('inner', [])
    f.addr = out
    return out

def new_frame(E, f, chain):
    fr = Frame(f); E.nframe += 1; fr.id = E.nframe; fr.mem = {}; fr.order = []; fr.locals = []; fr.chain = chain; fr.sjbuf = None
    fr.addr = addr_taken(E, f)
    return fr

def run_function(E, f, args, st, chain=''):
    """execute f's body; args None = fresh symbolic parameters. Returns outcomes, frame"""
    fr = new_frame(E, f, chain)
    E.frames.append(fr)
    fr.params = []
    try:
        for i, p in enumerate(f.params):
            ty = E.p.ty(p)
            if ty.k == 'array': ty = PTR(ty.a)
            if args is None: v = E.uninit(st, ty, p.get('name', 'arg%d' % i))
            else: v = args[i]; v = V(E.named(v), ty, v.agg)
            fr.params.append((p.get('name', 'arg%d' % i), v))
            E.declare_local(dict(p, inner=[]), st, v)
        if args is None and chain == '' and not E.dry and E.root and E.root.contract: E.on_entry(fr, st)
        outs = E.exec(f.body, st)
        outs = [('r', o[1], None) if o[0] == 'n' else o for o in outs]
        if fr.setjmp is not None: outs += handle_throws(E, fr)
    finally: E.frames.pop()
    return outs, fr

def handle_throws(E, fr):
    ts = [(s, t) for s, t in fr.throws[fr.sjmark:]]
    fr.throws = fr.throws[:fr.sjmark]
    if not ts: return []
    n, buf = fr.setjmp
    sts = []
    for s, t in ts:
        E.oblige(s, 'recovery', 'longjmp target', Eq(t, buf))
        sts.append(s)
    m = E.merge(sts)
    # non-volatile locals changed since setjmp are indeterminate
    for k in list(m.env):
        if k[0] == 'v' and k in E.get_sjenv(fr) and not same(m.env[k], E.get_sjenv(fr)[k]): E.havoc(m, k)
    m.checked = set()
    return [o if o[0] != 'n' else ('r', o[1], None) for o in E.exec(n['inner'][1], m)]

def same(a, b):
    if a.agg is not None: return b.agg is not None and all(same(a.agg[k], b.agg[k]) for k in a.agg)
    return a.t == b.t

def inline(E, f, args, n, st):
    if any(fr.func is f for fr in E.frames): raise Misfit('recursive call to %s without a contract' % f.name)
    if len(E.frames) > 12: raise Misfit('inlining too deep')
    E.inlined.add(f.name)
    chain = E.frames[-1].chain + '/%s@%s' % (f.name, n.get('id'))
    outs, fr = run_function(E, f, args, st.copy(), chain)
    E.frames[-1].throws += fr.throws
    outs = [o for o in outs if o[0] == 'r']
    if not outs: raise Dead()
    for o in outs:
        if f.ret.k != 'void':
            o[1].env['c:ret'] = o[2] if o[2] is not None else E.uninit(o[1], f.ret, 'noret')
    m = E.merge([o[1] for o in outs])
    r = m.env.pop('c:ret', None)
    # drop callee locals
    for k in [k for k in m.env if k.endswith('@%d' % fr.id)]: del m.env[k]
    st.env, st.facts, st.checked = m.env, m.facts, m.checked
    return r if r is not None else V(0, VOID)

# ---------------------------------------------------------------- memset / memcpy by static type
def target_type(E, n):
    n0 = n
    while n['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('BitCast', 'NoOp', None): n = n['inner'][0]
    t = E.p.ty(n)
    if t.k == 'array': t = PTR(t.a)
    return n, t

def all_leaves(E, et):
    """heap keys + zero value of every scalar of one element of type et (address = element pointer)"""
    return E.leaf_heaps(et)

def do_memset(E, a, st):
    tn, t = target_type(E, a[0])
    p = E.ev(tn, st); val = E.ev(a[1], st); size = E.ev(a[2], st)
    et = t.a
    if et.k == 'void': raise Misfit('memset of void*')
    if et.k == 'array': et = et.a
    es = E.p.sizeof(et)
    if val.t != 0 and not (et.k == 'int' and et.a == 8): raise Misfit('memset nonzero')
    if lit(size.t) and size.t == es and et.k == 'struct':
        E.check_valid(st, p.t, et, 'memset')
        zero_agg(E, st, p.t, et); return p
    # array fill: elements [p, p + size/es)
    E.oblige(st, 'mem', 'memset bounds', And(E.valid(st, p.t, 0), cmp_('<=', add(mul(app('idx', p.t), es), size.t), app('bsize', app('blk', p.t)))))
    for key in E.leaf_heaps(et):
        h0 = E.get(st, key); h1 = E.new_heap(key[2:])
        z = {'Int': val.t if val.t == 0 else E.conv_int(val.t, val.ty, et) if et.k == 'int' else 0, 'Ptr': 'null', 'F': 'f_zero'}[E.smt.heaps[key[2:]]]
        rel = '(- (idx q) (idx %s))' % p.t
        full = And('(= (blk q) (blk %s))' % p.t, '(<= 0 %s)' % rel, '(<= (* (+ %s 1) %d) %s)' % (rel, es, S(size.t)))
        part = And('(= (blk q) (blk %s))' % p.t, '(<= 0 %s)' % rel, '(< (* %s %d) %s)' % (rel, es, S(size.t)))
        st.assume('(forall ((q Ptr)) (! (and (=> %s (= (select %s q) %s)) (=> (not %s) (= (select %s q) (select %s q)))) :pattern ((select %s q))))' % (full, h1, S(z), part, h1, h0, h1))
        E.write(st, key, h1)
    return p

def zero_agg(E, st, p, ty):
    k = 0
    for (n, t) in E.p.structs[ty.name].fields:
        if n == '':
            raw = E.uraw(t.name)
            E.hstore(st, E.heapref('%s.u%d' % (san(ty.name), k), raw), p, 'null' if raw.k == 'ptr' else 0); k += 1
        elif t.k == 'struct': zero_agg(E, st, E.fieldaddr(ty.name, n, p), t)
        elif t.k == 'array':
            b = E.fieldaddr(ty.name, n, p)
            for key in E.leaf_heaps(t.a):
                h0 = E.get(st, key); h1 = E.new_heap(key[2:])
                z = {'Int': 0, 'Ptr': 'null', 'F': 'f_zero'}[E.smt.heaps[key[2:]]]
                st.assume('(forall ((q Ptr)) (! (= (select %s q) (ite (and (= (blk q) %s) (<= 0 (idx q)) (< (idx q) %d)) %s (select %s q))) :pattern ((select %s q))))' % (h1, b, t.b, S(z), h0, h1))
                E.write(st, key, h1)
        else: 
            lv = E.member_lv(p, ty.name, n)
            E.store(st, lv, E.zero(t))

def do_memcpy(E, a, st):
    dn, dt = target_type(E, a[0]); sn, stt = target_type(E, a[1])
    d = E.ev(dn, st); s = E.ev(sn, st); size = E.ev(a[2], st)
    et = dt.a if dt.a.k != 'void' else stt.a
    if et.k == 'array': et = et.a
    if et.k == 'void': raise Misfit('memcpy of void*')
    if stt.a != dt.a and stt.a.k not in ('void',) and dt.a.k != 'void' and stt.a.k != 'array' and dt.a.k != 'array': 
        if not (E.p.sizeof(stt.a) == 1 and E.p.sizeof(dt.a) == 1): raise Misfit('memcpy between different types')
    es = E.p.sizeof(et)
    if lit(size.t) and size.t == es:
        E.check_valid(st, d.t, et, 'memcpy dst'); E.check_valid(st, s.t, et, 'memcpy src')
        E.store(st, E.deref_lv(d.t, et), E.load(st, E.deref_lv(s.t, et))); return d
    E.oblige(st, 'mem', 'memcpy dst bounds', Or(Eq(size.t, 0), And(E.valid(st, d.t, 0), cmp_('<=', add(mul(app('idx', d.t), es), size.t), app('bsize', app('blk', d.t))))))
    E.oblige(st, 'mem', 'memcpy src bounds', Or(Eq(size.t, 0), And(E.valid(st, s.t, 0), cmp_('<=', add(mul(app('idx', s.t), es), size.t), app('bsize', app('blk', s.t))))))
    for key in E.leaf_heaps(et):
        h0 = E.get(st, key); h1 = E.new_heap(key[2:])
        rel = '(- (idx q) (idx %s))' % d.t
        full = And('(= (blk q) (blk %s))' % d.t, '(<= 0 %s)' % rel, '(<= (* (+ %s 1) %d) %s)' % (rel, es, S(size.t)))
        part = And('(= (blk q) (blk %s))' % d.t, '(<= 0 %s)' % rel, '(< (* %s %d) %s)' % (rel, es, S(size.t)))
        st.assume('(forall ((q Ptr)) (! (and (=> %s (= (select %s q) (select %s (shift %s %s)))) (=> (not %s) (= (select %s q) (select %s q)))) :pattern ((select %s q))))' % (full, h1, h0, S(s.t), rel, part, h1, h0, h1))
        E.write(st, key, h1)
    return d
