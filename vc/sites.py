"""Whole-program conditions over the same AST: which functions may assign a field or call a function."""
import os
from cfront import load

def member_of(prog, x):
    while x.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and x.get('inner'): x = x['inner'][0]
    if x.get('kind') == 'MemberExpr':
        t = prog.ty(x['inner'][0])
        if t.k == 'ptr': t = t.a
        return (t.name, x.get('name'))
    return None

def scan(repo):
    """{('w', struct, field): {function: line}}, {('c', callee): {function: line}}"""
    files = sorted(f for f in os.listdir(repo + '/src') if f.startswith('nk') and f.endswith('.c'))
    prog = load(repo, files); out = {}
    for f in prog.funcs.values():
        if f.body is None: continue
        st = [(f.body, f.line)]
        while st:
            n, ln = st.pop()
            r = n.get('range', {}).get('begin', {}); r = r.get('expansionLoc') or r; ln = r.get('line', ln)
            k = n.get('kind')
            if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='):
                m = member_of(prog, n['inner'][0])
                if m: out.setdefault(('w',) + m, {}).setdefault(f.name, ln)
            elif k == 'UnaryOperator' and n['opcode'] in ('++', '--', '&'):
                m = member_of(prog, n['inner'][0])
                if m: out.setdefault(('w',) + m, {}).setdefault(f.name, ln)
            elif k == 'DeclRefExpr' and n['referencedDecl']['kind'] == 'FunctionDecl':
                out.setdefault(('c', n['referencedDecl']['name']), {}).setdefault(f.name, ln)
            st += [(c, ln) for c in n.get('inner', []) if c]
    return out

def reached_only_from(found, f, ok, seen=()):
    """f is allowed, or a helper mentioned only by functions that are"""
    if ok(f): return True
    callers = [g for g in found.get(('c', f), {}) if g != f]
    return bool(callers) and f not in seen and all(reached_only_from(found, g, ok, seen + (f,)) for g in callers)
