"""Specification language: lexer, parser and AST for the contracts in /verif/specs/*.spec.

ACSL-like.  Expressions are C expressions over mathematical integers plus
forall/exists, ==>, <==>, \\old(e), \\result, \\valid(p), \\alive(p), \\fresh(p), \\len(p,T)...
"""
import re
TOK = re.compile(r'''
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)|
  (?P<num>0x[0-9a-fA-F]+|\d+)|
  (?P<id>\\?[A-Za-z_$][\w$]*)|
  (?P<str>"[^"]*")|
  (?P<op><==>|==>|->|\.\.|&&|\|\||==|!=|<=|>=|<<|>>|:=|[-+*/%<>!~?:;,.(){}\[\]=&|^@])
''', re.X | re.S)

class SpecError(Exception): pass

def lex(text, fname):
    out = []; i = 0; line = 1
    while i < len(text):
        m = TOK.match(text, i)
        if not m: raise SpecError('%s:%d: bad char %r' % (fname, line, text[i]))
        if m.lastgroup != 'ws': out.append((m.lastgroup, m.group(), line))
        line += m.group().count('\n'); i = m.end()
    out.append(('eof', '', line)); return out

BINP = {'<==>': 1, '==>': 2, '||': 4, '&&': 5, '|': 6, '^': 6, '&': 7, '==': 8, '!=': 8, '<': 9, '<=': 9, '>': 9, '>=': 9,
        '<<': 10, '>>': 10, '+': 11, '-': 11, '*': 12, '/': 12, '%': 12}

class Contract:
    def __init__(s, name):
        s.name = name; s.requires = []; s.ensures = []; s.exsures = []; s.assigns = []; s.loops = {}
        s.writes = None; s.throws = None; s.extern = False; s.ghost_exit = []; s.ghost_entry = []; s.nothrow = False
        s.params = None; s.file = None; s.line = 0; s.inline = []; s.noframe = False; s.hints = []; s.paths = None; s.pure = False
        s.exit_hints = []; s.after = []; s.ret = None; s.opts = set(); s.noreturn = False; s.lemma_calls = []

class Specs:
    def __init__(s):
        s.consts = {}; s.preds = {}; s.logics = {}; s.axioms = []; s.lemmas = []; s.ghostf = {}; s.ghostv = {}
        s.contracts = {}; s.onwrite = {}; s.structs = set(); s.defaults = []

class Parser:
    def __init__(s, text, fname, specs, tparse):
        s.t = lex(text, fname); s.i = 0; s.f = fname; s.sp = specs; s.tparse = tparse
    def peek(s, k=0): return s.t[min(s.i + k, len(s.t) - 1)][1]
    def kind(s, k=0): return s.t[min(s.i + k, len(s.t) - 1)][0]
    def line(s): return s.t[s.i][2]
    def err(s, m): raise SpecError('%s:%d: %s near %r' % (s.f, s.line(), m, s.peek()))
    def next(s): x = s.t[s.i][1]; s.i += 1; return x
    def accept(s, x):
        if s.peek() == x and s.kind() != 'eof': s.i += 1; return True
        return False
    def expect(s, x):
        if not s.accept(x): s.err('expected %r' % x)
    # ---- types
    TYPEWORDS = {'struct', 'unsigned', 'int', 'char', 'void', 'float', 'double', 'ptr', 'bool', 'integer', 'heap', 'const', 'signed', 'set', 'enum', 'long', 'pmap', 'imap', 'iptr', 'nkbool', 'nkuint32_t', 'nkint32_t', 'NKVMExternalDataTypeID', 'NKVMInternalFunctionID', 'NKVMExternalFunctionID'}
    def is_type(s): return s.peek() in s.TYPEWORDS
    def type(s):
        w = []
        while s.peek() in s.TYPEWORDS or (w and w[-1] in ('struct', 'enum')): w.append(s.next())
        q = ' '.join(x for x in w if x != 'const')
        if s.peek() == '<' and q == 'heap':
            s.next(); a = s.next()
            while s.peek() != '>': a += s.next()
            s.next(); q = 'heap<%s>' % a
        while s.accept('*'): q += ' *'
        return s.tparse(q)
    # ---- expressions
    def expr(s, p=0):
        if s.peek() in ('forall', 'exists'):
            q = s.next(); vs = []
            while True:
                t = s.type(); base = t
                while base.k == 'ptr' and base.a.k != 'void': base = base.a
                first = True
                while True:
                    tt = t if first else base
                    first = False
                    while s.accept('*'): tt = s.tparse_ptr(tt)
                    vs.append((s.next(), tt))
                    if s.peek() == ',' and not (s.t[s.i + 1][1] in s.TYPEWORDS): s.next(); continue
                    break
                if s.accept(','): continue
                break
            s.expect(';')
            trig = []
            while s.peek() == '{':
                s.next(); tr = [s.expr()]
                while s.accept(','): tr.append(s.expr())
                s.expect('}'); trig.append(tr)
            return (q, vs, trig, s.expr(0))
        if s.peek() == 'let':
            s.next(); n = s.next(); s.expect('='); e = s.expr(); s.expect(';'); return ('let', n, e, s.expr(0))
        l = s.unary()
        while True:
            op = s.peek()
            if s.kind() != 'op': break
            if op == '?' and p <= 3:
                s.next(); a = s.expr(); s.expect(':'); b = s.expr(3); l = ('?:', l, a, b); continue
            q = BINP.get(op)
            if q is None or q < p: break
            s.next()
            r = s.expr(q if op == '==>' else q + 1)
            l = ('bin', op, l, r)
        return l
    def tparse_ptr(s, t):
        from cfront import PTR
        return PTR(t)
    def unary(s):
        x = s.peek()
        if x in ('!', '-', '~', '*', '&') and s.kind() == 'op':
            s.next(); return ('un', x, s.unary())
        return s.postfix(s.primary())
    def primary(s):
        k = s.kind(); x = s.peek()
        if k == 'num': s.next(); return ('num', int(x, 0))
        if x == '(':
            if s.t[s.i + 1][1] in s.TYPEWORDS:
                s.next(); t = s.type(); s.expect(')'); return ('cast', t, s.unary())
            s.next(); e = s.expr(); s.expect(')'); return e
        if x in ('forall', 'exists', 'let'): return s.expr()
        if x == '\\sizeof':
            s.next(); s.expect('('); t = s.type(); s.expect(')'); return ('sizeof', t)
        if x == '\\valid' or x == '\\validn' or x == '\\heap' or x=='\\Fld':
            pass
        if k == 'id':
            s.next()
            if s.peek() == '(':
                s.next(); args = []
                if s.peek() != ')':
                    args.append(s.arg())
                    while s.accept(','): args.append(s.arg())
                s.expect(')'); return ('call', x, args)
            return ('id', x)
        s.err('expression')
    def arg(s):
        if s.is_type() : 
            t = s.type(); return ('type', t)
        return s.expr()
    def postfix(s, e):
        while True:
            if s.accept('->'): e = ('arrow', e, s.next())
            elif s.peek() == '.' : s.next(); e = ('dot', e, s.next())
            elif s.accept('['):
                if s.accept('*'): s.expect(']'); e = ('allidx', e); continue
                i = s.expr()
                if s.accept('..'):
                    j = s.expr(); s.expect(']'); e = ('range', e, i, j)
                else: s.expect(']'); e = ('idx', e, i)
            else: return e
    # ---- items
    def params(s):
        s.expect('('); ps = []
        if not s.accept(')'):
            while True:
                t = s.type(); n = s.next(); ps.append((n, t))
                if s.accept(')'): break
                s.expect(',')
        return ps
    def label(s):
        if s.accept('['):
            l = ''
            while s.peek() != ']': l += (' ' if l and l[-1].isalnum() and s.peek()[0].isalnum() else '') + s.next()
            s.next(); return l
        return None
    def parse(s):
        sp = s.sp
        while s.kind() != 'eof':
            ln = s.line(); x = s.next()
            if x == 'const':
                n = s.next(); s.expect('='); sp.consts[n] = s.expr(); s.expect(';')
            elif x == 'ghost':
                if s.accept('field'):
                    t = s.type() if s.peek() == 'struct' else s.type(); 
                    n = s.next(); s.expect(':'); ty = s.type(); s.expect(';')
                    sp.ghostf[(t.name, n)] = ty
                else:
                    t = s.type(); n = s.next(); s.expect(';'); sp.ghostv[n] = t
            elif x == 'logic':
                t = s.type(); n = s.next(); ps = s.params(); s.expect(';'); sp.logics[n] = (t, ps)
            elif x in ('axiom', 'lemma'):
                n = s.next(); s.expect(':'); e = s.expr()
                ind = None; uses = []
                while s.peek() != ';':
                    if s.accept('induction'): ind = s.next()
                    elif s.accept('using'):
                        uses.append(s.next())
                        while s.accept(','): uses.append(s.next())
                    else: s.err('axiom')
                s.expect(';')
                (sp.axioms if x == 'axiom' else sp.lemmas).append((n, e, ind, ln, s.f, uses))
            elif x in ('pred', 'fun'):
                t = s.type() if x == 'fun' else None
                n = s.next(); ps = s.params(); s.expect('='); e = s.expr(); s.expect(';')
                sp.preds[n] = (ps, e)
            elif x == 'onwrite':
                sn = s.next(); s.expect('.'); fn = s.next(); s.expect('(')
                a = s.next(); s.expect(','); b = s.next(); s.expect(','); c = s.next(); s.expect(')')
                sp.onwrite[(sn, fn)] = ((a, b, c), s.gblock())
            elif x == 'default':     # what is assumed of every function with this prefix that has no contract of its own and lives in another file
                s.expect('contract'); n = s.next(); c = Contract(n); c.extern = True; c.file = s.f; c.line = ln; sp.defaults.append((n, c)); s.contract_body(c)
            elif x in ('contract', 'extern', 'fnptr'):
                if x == 'extern': s.accept('contract')
                n = s.next()
                while s.accept('.'): n += '.' + s.next()
                c = Contract(n); c.extern = x != 'contract'; c.file = s.f; c.line = ln
                if n in sp.contracts and not sp.contracts[n].extern: s.err('duplicate contract ' + n)
                if s.peek() == '(': c.params = s.params()
                if s.accept(':'): c.ret = s.type()
                sp.contracts[n] = c; s.contract_body(c)
            else: s.i -= 1; s.err('item')
    def gblock(s):
        out = []; s.expect('{')
        while not s.accept('}'):
            if s.accept('if'):
                s.expect('('); e = s.expr(); s.expect(')'); a = s.gblock(); b = []
                if s.accept('else'): b = s.gblock()
                out.append(('if', e, a, b)); continue
            if s.accept('assert'):
                e = s.expr(); s.expect(';'); out.append(('assert', e)); continue
            if s.accept('choose'):   # choose g such that e  (ghost nondeterminism; existence is an obligation)
                l = s.expr(); s.expect(':'); e = s.expr(); s.expect(';'); out.append(('choose', l, e)); continue
            if s.accept('map'):   # map heap-lvalue over all objects: map (struct S *x) x->g := e
                s.expect('('); t = s.type(); n = s.next(); s.expect(')'); l = s.unary(); s.expect(':='); e = s.expr(); s.expect(';')
                out.append(('map', t, n, l, e)); continue
            l = s.unary(); s.expect(':='); r = s.expr(); s.expect(';'); out.append(('set', l, r))
        return out
    def contract_body(s, c):
        s.expect('{')
        while not s.accept('}'):
            ln = s.line(); x = s.next()
            if x in ('requires', 'ensures', 'exsures'):
                l = s.label(); e = s.expr(); s.expect(';')
                lst = getattr(c, x); lst.append((l or '%s%d' % (x[:3], len(lst) + 1), e, ln))
            elif x == 'assigns':
                while True:
                    if s.accept('\\nothing'): pass
                    else: c.assigns.append(s.setexpr())
                    if s.accept(';'): break
                    s.expect(',')
            elif x == 'writes':
                c.writes = c.writes or []
                while True:
                    a = s.next()
                    while s.peek() not in (',', ';'): a += s.next()
                    if a != '\\nothing': c.writes.append(a)
                    if s.accept(';'): break
                    s.expect(',')
            elif x == 'throws': c.throws = True; s.expect(';')
            elif x == 'nothrow': c.throws = False; s.expect(';')
            elif x == 'noreturn': c.noreturn = True; s.expect(';')
            elif x == 'opt': c.opts.add(s.next()); s.expect(';')
            elif x == 'paths': c.paths = int(s.next()); s.expect(';')
            elif x == 'loop':
                n = s.next(); n = n if n == '*' else int(n); L = {'inv': [], 'variant': None, 'hints': [], 'assigns': None, 'ghost': []}; c.loops[n] = L
                s.expect('{')
                while not s.accept('}'):
                    ln = s.line(); y = s.next()
                    if y == 'invariant':
                        l = s.label(); e = s.expr(); s.expect(';'); L['inv'].append((l or 'inv%d' % (len(L['inv']) + 1), e, ln))
                    elif y == 'variant': L['variant'] = s.expr(); s.expect(';')
                    elif y == 'assigns':
                        L['assigns'] = L['assigns'] or []
                        while True:
                            if s.accept('\\nothing'): pass
                            else: L['assigns'].append(s.setexpr())
                            if s.accept(';'): break
                            s.expect(',')
                    elif y == 'hint': L['hints'].append(s.expr()); s.expect(';')
                    elif y == 'ghost_end': L['ghost'] = s.gblock()
                    elif y == 'ghost_start': L['ghost_start'] = s.gblock()
                    else: s.i -= 1; s.err('loop clause')
            elif x == 'after':   # a step of the argument: proved right after each call of CALLEE, then available
                fn = s.next()
                while s.peek() == '.': s.next(); fn += '.' + s.next()
                l = s.label(); e = s.expr(); s.expect(';'); c.after.append((fn, l or 'after%d' % (len(c.after) + 1), e, ln))
            elif x == 'noframe': c.noframe = True; s.expect(';')
            elif x == 'ghost_exit': c.ghost_exit = s.gblock()
            elif x == 'ghost_entry': c.ghost_entry = s.gblock()
            elif x == 'hint': c.hints.append(s.expr()); s.expect(';')
            else: s.i -= 1; s.err('contract clause')
    def setexpr(s):
        # { struct S *x | cond } lvalue   or   lvalue   or   heap NAME
        if s.accept('heap'):
            a = s.next()
            while s.peek() not in (',', ';'): a += s.next()
            return ('heap', a)
        if s.accept('{'):
            vs = []
            while True:
                t = s.type(); n = s.next(); vs.append((n, t))
                if not s.accept(','): break
            s.expect('|') ; e = s.expr(); s.expect('}')
            return ('setof', vs, e, s.unary())
        return s.unary()
