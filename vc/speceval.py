from engine import *
from cfront import *
from spec import SpecError
MATH = Ty('int', 0, True, 'math')
BT = Ty('boolterm')
def rngable(t): return t.k == 'int' and t.a

class SE:
    """evaluates specification expressions in a symbolic state"""
    def __init__(s, E, st, names, old, result): s.E, s.st, s.names, s.old, s.result = E, st, names, old, result
    def boolean(s, e):
        v = s.val(e)
        return s.tobool(v)
    def tobool(s, v):
        if v.ty.k == 'boolterm': return v.t
        sv = s.E.spec_mode
        return s.E.truth(v)
    def with_(s, st): return SE(s.E, st, s.names, s.old, s.result)
    def num(s, v):
        if v.ty.k == 'boolterm': return Ite(v.t, 1, 0)
        return v.t
    def val(s, e):
        sv = s.E.spec_mode; s.E.spec_mode = True
        try: return s.val_(e)
        finally: s.E.spec_mode = sv
    def val_(s, e):
        E = s.E; k = e[0]
        if k == 'num': return V(e[1], MATH)
        if k == 'id': return s.ident(e[1])
        if k == 'bin': return s.bin(e)
        if k == 'un':
            op = e[1]
            if op == '!': return V(Not(s.boolean(e[2])), BT)
            if op == '-': return V(sub(0, s.num(s.val(e[2]))), MATH)
            if op == '~':
                v = s.val(e[2]); return V(sub(4294967295, v.t), U32)
            if op == '*' or op == '&':
                l = s.lval(e) if op == '*' else None
                if op == '*': return E.load(s.st, l)
                l = s.lval(e[2])
                if l[0] == 'agg': return V(l[1], PTR(l[2]))
                if l[0] == 'mem': return V(l[2], PTR(l[3]))
                if l[0] == 'raw': raise SpecError('& of union member')
        if k in ('arrow', 'dot', 'idx'):
            l = s.lval(e)
            if l[0] == 'agg':
                if l[2].k == 'array': return V(l[1], PTR(l[2].a))
                return V(l[1], PTR(l[2]))       # struct lvalue denotes its address in specs
            if l[0] == 'rv': return l[1]
            return E.load(s.st, l)
        if k == '?:':
            c = s.boolean(e[1]); a = s.val(e[2]); b = s.val(e[3])
            if a.ty.k == 'boolterm' or b.ty.k == 'boolterm': return V(And(Imp(c, s.tobool(a)), Imp(Not(c), s.tobool(b))), BT)
            return V(Ite(c, a.t, b.t), a.ty)
        if k == 'let':
            v = s.val(e[2]); n2 = dict(s.names); n2[e[1]] = v
            return SE(E, s.st, n2, s.old, s.result).val(e[3])
        if k in ('forall', 'exists'):
            n2 = dict(s.names); bs = []; guards = []
            for (n, t) in e[1]:
                bv = 'q_%s_%d' % (n, E.smt.counter()); so = E.sort(t)
                if t.k == 'int' and t.name != 'math' and t.a: guards.append(in_range(t, bv))
                n2[n] = V(bv, t); bs.append((bv, so))
            E.quant = E.quant + [b[0] for b in bs]
            try:
                ev = SE(E, s.st, n2, s.old, s.result)
                body = ev.boolean(e[3])
                trigs = []
                for tr in e[2]:
                    trigs.append(' :pattern (' + ' '.join(S(ev.val(x).t) for x in tr) + ')')
            finally: E.quant = E.quant[:-len(bs)]
            if guards: body = Imp(And(*guards), body) if k == 'forall' else And(*guards, body)
            if body in ('true', 'false'): return V(body, BT)
            if trigs: body = '(! ' + body + ''.join(trigs) + ')'
            return V('(%s (%s) %s)' % (k, ' '.join('(%s %s)' % b for b in bs), body), BT)
        if k == 'cast':
            v = s.val(e[2]); t = e[1]
            if t.k == 'int' and v.ty.k in ('int',) : return V(v.t, t)
            if v.ty.k == 'boolterm': return V(Ite(v.t, 1, 0), t)
            if v.ty.k == 'float' and t.k == 'double': return V(app('f_float_to_double', v.t), t)
            return V(v.t, t)
        if k == 'sizeof': return V(E.p.sizeof(e[1]), MATH)
        if k == 'call': return s.call(e)
        raise SpecError('spec expression ' + str(e))
    def ident(s, n):
        E = s.E
        if n == '\\result':
            if s.result is None: raise SpecError('\\result')
            return s.result
        if n in s.names:
            v = s.names[n]
            if isinstance(v, tuple):
                ty = v[2]
                if ty.k in ('struct',): return V(v[1], PTR(ty))
                if ty.k == 'array': return V(v[1], PTR(ty.a))
                return E.load(s.st, E.deref_lv(v[1], ty))
            return v
        if n == 'NULL': return V('null', PTR(VOID))
        if n == 'true' or n == 'false': return V(n, BT)
        if n == '\\true' or n == '\\false': return V(n[1:], BT)
        if n in E.sp.ghostv: return V(E.get(s.st, 'G:' + n), E.sp.ghostv[n])
        if n in E.sp.consts: return s.val(E.sp.consts[n])
        if n in E.p.enums: return V(E.p.enums[n], I32)
        if n in E.sp.logics:
            E.smt.use_logic(n, E); return V(n, E.sp.logics[n][0])
        if n in E.p.funcs: return V(E.smt.const_ptr('fn_' + n), PTR(VOID))
        if n in E.p.globals:
            g = E.p.globals[n]; ty = E.p.ty(g); p = E.global_addr(n, ty)
            if ty.k == 'array': return V(p, PTR(ty.a))
            if ty.k == 'struct': return V(p, PTR(ty))
            return E.load(s.st, E.deref_lv(p, ty))
        raise NameMissing(n)
    def lval(s, e):
        E = s.E; k = e[0]
        if k == 'arrow':
            b = s.val(e[1])
            if b.ty.k not in ('ptr',) or b.ty.a.k != 'struct': raise SpecError('-> on %r in %s' % (b.ty, e))
            return E.member_lv(b.t, b.ty.a.name, e[2])
        if k == 'dot':
            if e[1][0] in ('arrow', 'dot', 'idx') or (e[1][0] == 'un' and e[1][1] == '*'):
                l = s.lval(e[1])
                if l[0] == 'agg': return E.member_lv(l[1], l[2].name, e[2])
                if l[0] == 'raw': return ('raw', l[1], l[2], s.E.p.structs[l[3].name].fields[0][1], l[4])
                if l[0] == 'rv': v = l[1]
                else: raise SpecError('. on ' + str(e))
            else: v = s.val(e[1])
            if v.agg is not None:
                if e[2] in v.agg: return ('rv', v.agg[e[2]])
                L = E.leaf(v.ty.name, e[2])
                if L[0] == 'u':
                    r = v.agg['u%d' % L[2]]; return ('rv', E.from_raw(r.t, r.ty, L[4]))
            if v.ty.k == 'ptr' and v.ty.a.k == 'struct': return E.member_lv(v.t, v.ty.a.name, e[2])
            raise SpecError('. on %r in %s' % (v, e))
        if k == 'idx':
            b = s.val(e[1]); i = s.val(e[2])
            if b.ty.k == 'maparr': return ('rv', V(sel(b.t, i.t), s.mapelem(b.ty)))
            if b.ty.k != 'ptr': raise SpecError('[] on %r' % b.ty)
            return E.deref_lv(E.shift(b.t, s.num(i)), b.ty.a)
        if k == 'un' and e[1] == '*':
            b = s.val(e[2]); return E.deref_lv(b.t, b.ty.a)
        if k == 'id' and e[1] in E.sp.ghostv: return ('gv', 'G:' + e[1])
        if k == 'id':
            v = s.names.get(e[1])
            if isinstance(v, tuple): return E.deref_lv(v[1], v[2])
        raise SpecError('not an lvalue: %s' % (e,))
    def mapelem(s, ty):
        return ty.b
    def bin(s, e):
        op = e[1]
        if op == '&&': return V(And(s.boolean(e[2]), s.boolean(e[3])), BT)
        if op == '||': return V(Or(s.boolean(e[2]), s.boolean(e[3])), BT)
        if op == '==>': return V(Imp(s.boolean(e[2]), s.boolean(e[3])), BT)
        if op == '<==>': return V(Eq(s.boolean(e[2]), s.boolean(e[3])), BT)
        a = s.val(e[2]); b = s.val(e[3])
        if op in ('==', '!='):
            if a.ty.k == 'boolterm' or b.ty.k == 'boolterm': r = Eq(s.tobool(a), s.tobool(b))
            elif a.agg is not None or b.agg is not None: r = And(*[Eq(a.agg[k].t, b.agg[k].t) for k in a.agg])
            else:
                x, y = a.t, b.t
                if x == 0 and b.ty.k == 'ptr': x = 'null'
                if y == 0 and a.ty.k == 'ptr': y = 'null'
                r = Eq(x, y)
            return V(r if op == '==' else Not(r), BT)
        if op in ('<', '>', '<=', '>='):
            if a.ty.k == 'ptr': return V(cmp_(op, app('idx', a.t), app('idx', b.t)), BT)
            return V(cmp_(op, s.num(a), s.num(b)), BT)
        if a.ty.k == 'ptr' and op in '+-' and b.ty.k != 'ptr':
            return V(s.E.shift(a.t, s.num(b) if op == '+' else sub(0, s.num(b))), a.ty)
        if a.ty.k == 'ptr' and b.ty.k == 'ptr' and op == '-': return V(app('-', app('idx', a.t), app('idx', b.t)), MATH)
        x, y = s.num(a), s.num(b)
        if op == '+': return V(add(x, y), MATH)
        if op == '-': return V(sub(x, y), MATH)
        if op == '*': return V(mul(x, y), MATH)
        if op == '/': return V(app('div', x, y) if not (lit(x) and lit(y)) else x // y, MATH)
        if op == '%': return V(app('mod', x, y) if not (lit(x) and lit(y)) else x % y, MATH)
        if op == '<<' and lit(y): return V(mul(x, 2 ** y), MATH)
        if op == '>>' and lit(y): return V(app('div', x, 2 ** y), MATH)
        if op == '&':
            for u, w in ((x, y), (y, x)):
                if lit(w) and w & (w + 1) == 0: return V(app('mod', u, w + 1) if w else 0, MATH)
        if op in ('&', '|', '^'): return V(app({'&': 'band', '|': 'bor', '^': 'bxor'}[op], x, y), MATH)
        raise SpecError('op ' + op)
    def typed(s, v):
        t = v.ty.a
        if t.k == 'void': return 'true'
        return Eq(app('btype', v.t), s.E.tid(t))
    def call(s, e):
        E = s.E; f = e[1]; A = e[2]
        if f == '\\old':
            return SE(E, s.old, s.names, s.old, s.result).val(A[0])
        if f == '\\pre':      # value of a parameter when the function was entered
            return E.entry_params[A[0][1]]
        if f == '\\entry':
            if E.atloop is None: raise SpecError('\\entry outside loop')
            return SE(E, E.atloop, s.names, s.old, s.result).val(A[0])
        if f == '\\valid':
            v = s.val(A[0]); n = s.num(s.val(A[1])) if len(A) > 1 else 1
            t = v.ty.a; sz = E.p.sizeof(t) if t.k != 'func' else 1
            al = E.get(s.st, E.heapref('$alive', 'Bool'))
            if n == 1: return V(E.valid(s.st, v.t, sz), BT)
            return V('(validn %s %s %s %s)' % (al, v.t, S(sz), S(n)), BT)
        if f == '\\alive':
            v = s.val(A[0]); return V(sel(E.get(s.st, E.heapref('$alive', 'Bool')), app('root', v.t)), BT)
        if f == '\\block':   # a whole heap block of size bytes starting at p
            v = s.val(A[0]); n = s.num(s.val(A[1])); al = E.get(s.st, E.heapref('$alive', 'Bool'))
            return V(And(Not(Eq(v.t, 'null')), sel(al, v.t), Eq(app('root', v.t), v.t), Eq(app('blk', v.t), v.t), Eq(app('idx', v.t), 0), Eq(app('bsize', v.t), n), Eq(app('tag', v.t), 0), s.typed(v)), BT)
        if f == '\\isblock':
            v = s.val(A[0]); al = E.get(s.st, E.heapref('$alive', 'Bool'))
            return V(And(Not(Eq(v.t, 'null')), sel(al, v.t), Eq(app('root', v.t), v.t), Eq(app('blk', v.t), v.t), Eq(app('idx', v.t), 0), Eq(app('tag', v.t), 0), s.typed(v)), BT)
        if f == '\\rtype':   # \rtype(p, struct T): the allocation p lies in was made for T
            v = s.val(A[0]); return V(Eq(app('btype', app('root', v.t)), s.E.tid(A[1][1])), BT)
        if f == '\\fresh':
            v = s.val(A[0]); b0 = E.get(s.old, E.heapref('$born', 'Bool')); b1 = E.get(s.st, E.heapref('$born', 'Bool'))
            return V(And(Not(sel(b0, app('root', v.t))), sel(b1, app('root', v.t))), BT)
        if f == '\\born':
            v = s.val(A[0]); return V(sel(E.get(s.st, E.heapref('$born', 'Bool')), app('root', v.t)), BT)
        if f in ('\\root', '\\blk'):
            v = s.val(A[0]); return V(app(f[1:], v.t), v.ty)
        if f == '\\shift':
            v = s.val(A[0]); i = s.val(A[1]); return V(app('shift', v.t, s.num(i)), v.ty)
        if f in ('\\idx', '\\bsize', '\\tag'):
            v = s.val(A[0]); return V(app(f[1:], v.t), MATH)
        if f == '\\heap':
            raise SpecError('\\heap')
        if f == '\\as':       # \as(struct S *, p)
            v = s.val(A[1]); return V(v.t, A[0][1])
        if f == '\\val':      # contents of a whole structure
            v = s.val(A[0]); return E.load(s.st, E.deref_lv(v.t, v.ty.a))
        if f == '\\raw':      # raw 32 bits of a value's payload
            v = s.val(A[0]); return V(sel(E.get(s.st, E.heapref('NKValue.u1', U32)), v.t), U32)
        if f == '\\chars':    # the characters at p, p+1, ... as a map
            v = s.val(A[0]); return V(app('chars', E.get(s.st, E.cellheap(v.ty.a)), v.t), Ty('maparr', 'Int', MATH, '(Array Int Int)'))
        if f == '\\owner':    # \owner(S, f, p): inverse of the address of field f
            S_, fl = A[0][1], A[1][1]
            v = s.val(A[2]); fn = E.fieldfn(S_, fl); return V('(Own_%s %s)' % (fn[4:], v.t), PTR(STRUCT(S_)))
        if f == '\\isfield':
            S_, fl = A[0][1], A[1][1]
            v = s.val(A[2]); fn = E.fieldfn(S_, fl); return V(Eq(app('tag', app('blk', v.t)), E.smt.fields[fn]), BT)
        if f == '\\u32': 
            x = s.num(s.val(A[0])); return V(app('mod', x, 2 ** 32) if not lit(x) else x % 2 ** 32, U32)
        if f == '\\s32':
            x = s.num(s.val(A[0])); return V(E.conv_int(app('mod', x, 2 ** 32), U32, I32), I32)
        if f == '\\store':   # functional map update
            m = s.val(A[0]); k = s.val(A[1]); v = s.val(A[2])
            return V(app('store', m.t, k.t if k.ty.k != 'int' else s.num(k), s.num(v) if v.ty.k == 'int' else v.t), m.ty)
        if f == '\\f_lit': return V(E.float_const(s.num(s.val(A[0])), FLOAT), FLOAT)
        if f == '\\let' : pass
        if f in E.sp.preds:
            ps, body = E.sp.preds[f]
            if len(ps) != len(A): raise SpecError('arity of ' + f)
            n2 = {}
            for (n, t), a in zip(ps, A):
                v = s.val(a)
                if v.ty.k == 'boolterm' : n2[n] = V(v.t if t.k == 'bool' else Ite(v.t, 1, 0), BT if t.k == 'bool' else t)
                else:
                    tt = t
                    if t.k == 'ptr' and t.a.k == 'void': tt = v.ty if v.ty.k == 'ptr' else t
                    n2[n] = V('null' if (v.t == 0 and t.k == 'ptr') else v.t, tt, v.agg)
            for n in ('\\callee',):
                if n in s.names: n2[n] = s.names[n]
            return SE(E, s.st, n2, s.old, s.result).val(body)
        if f in E.sp.logics:
            t, ps = E.sp.logics[f]; E.smt.use_logic(f, E)
            args = []
            for (n, pt), a in zip(ps, A):
                v = s.val(a)
                if pt.k == 'bool' : args.append(s.tobool(v))
                elif pt.k == 'ptr': args.append('null' if v.t == 0 else v.t)
                else: args.append(s.num(v))
            r = app(f, *args) if args else f
            if t.k == 'bool': return V(r, BT)
            return V(r, t)
        if f.startswith('\\') :
            g = f[1:]
            if g in E.smt.builtin:
                args = [s.val(a) for a in A]
                r = app(g, *[s.num(a) if a.ty.k != 'boolterm' else a.t for a in args]) if args else g
                k = E.smt.builtin[g]
                return V(r, {'Int': MATH, 'Bool': BT, 'F': FLOAT, 'Ptr': PTR(VOID)}[k])
        raise SpecError('unknown function %s' % f)

class NameMissing(Misfit):
    def __init__(s, n): Misfit.__init__(s, 'annotation refers to unknown name ' + n); s.n = n
