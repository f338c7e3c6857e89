"""C front end: clang's JSON AST of the real /repo sources -> tables used by the VC generator.

Nothing is rewritten here: the statements and expressions that engine.py executes
symbolically are exactly the nodes clang produced for /repo's current files.
"""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

sys.setrecursionlimit(100000)

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', 'name')
    def __init__(s, k, a=None, b=None, name=None):
        s.k, s.a, s.b, s.name = k, a, b, name
    def __eq__(s, o): return isinstance(o, Ty) and (s.k, s.a, s.b, s.name) == (o.k, o.a, o.b, o.name)
    def __hash__(s): return hash((s.k, str(s.a), str(s.b), s.name))
    def __repr__(s):
        if s.k == 'int': return ('i' if s.b else 'u') + str(s.a)
        if s.k == 'ptr': return repr(s.a) + '*'
        if s.k == 'struct': return 'struct ' + s.name
        if s.k == 'array': return '%r[%s]' % (s.a, s.b)
        if s.k == 'func': return 'func'
        return s.k
INT = lambda bits, signed: Ty('int', bits, signed)
I32, U32, U8, I8 = INT(32, True), INT(32, False), INT(8, False), INT(8, True)
U64, I64, I16, U16 = INT(64, False), INT(64, True), INT(16, True), INT(16, False)
VOID, FLOAT, DOUBLE, BOOL = Ty('void'), Ty('float'), Ty('double'), Ty('bool')
PTR = lambda t: Ty('ptr', t)
STRUCT = lambda n: Ty('struct', name=n)

BASE = {
 'int': I32, 'signed int': I32, 'unsigned int': U32, 'unsigned': U32, 'char': I8, 'signed char': I8,
 'unsigned char': U8, 'short': I16, 'unsigned short': U16, 'long': I64, 'unsigned long': U64,
 'long long': I64, 'unsigned long long': U64, 'float': FLOAT, 'double': DOUBLE, 'void': VOID,
 'long double': DOUBLE, '_Bool': BOOL, 'size_t': U64, '__int128': INT(128, True), 'unsigned __int128': INT(128, False),
}
QUALS = {'const', 'volatile', 'restrict', '__restrict', 'register', 'static', 'extern'}

class TypeParser:
    def __init__(s, typedefs): s.td = typedefs; s.cache = {}
    def parse(s, q):
        if q in s.cache: return s.cache[q]
        t = s._parse(q); s.cache[q] = t; return t
    def _parse(s, q):
        q0 = q
        m = re.match(r'^((?:struct|union) )?(.*?)\((?:unnamed|anonymous)[^)]*at ([^)]*)\)(.*)$', q)
        if m and '::' in q or (m and m.group(1)):
            return s.suffix(STRUCT('@' + m.group(3)), m.group(4))
        toks = re.findall(r'\.\.\.|[A-Za-z_]\w*|\d+|[()\[\]*,^]', q)
        i = 0; words = []
        while i < len(toks) and re.match(r'[A-Za-z_]', toks[i]):
            if toks[i] not in QUALS: words.append(toks[i])
            i += 1
        if not words: raise ValueError('type? ' + q0)
        if words[0] in ('struct', 'union'): base = STRUCT(words[1])
        elif words[0] == 'enum': base = U32
        else:
            nm = ' '.join(words)
            if nm in BASE: base = BASE[nm]
            elif nm in s.td: base = s.parse(s.td[nm])
            else: base = STRUCT('?' + nm)
        return s.suffix_t(base, toks[i:])
    def suffix(s, base, rest):
        return s.suffix_t(base, re.findall(r'\.\.\.|[A-Za-z_]\w*|\d+|[()\[\]*,^]', rest))
    def suffix_t(s, base, toks):
        i = 0; t = base
        while i < len(toks):
            x = toks[i]
            if x == '*': t = PTR(t)
            elif x in QUALS: pass
            elif x == '[':
                # collect all dims
                dims = []
                while i < len(toks) and toks[i] == '[':
                    if toks[i + 1] == ']': dims.append(0); i += 2
                    else: dims.append(int(toks[i + 1])); i += 3
                for d in reversed(dims): t = Ty('array', t, d)
                continue
            elif x == '(':
                # function or pointer-to-function / pointer-to-array
                if i + 1 < len(toks) and toks[i + 1] == '*':
                    # find matching
                    d = 1; j = i + 1
                    while d:
                        if toks[j] == '(': d += 1
                        elif toks[j] == ')': d -= 1
                        j += 1
                    inner = toks[i + 1:j - 1]; rest = toks[j:]
                    core = s.suffix_t(t, rest)
                    return s.suffix_t(core, [z for z in inner if z not in QUALS])
                return Ty('func', t, None)
            i += 1
        return t

# ---------------------------------------------------------------- program
class Struct:
    def __init__(s, name): s.name = name; s.fields = []; s.union = False; s.line = None
class Func:
    def __init__(s, name, node, file): s.name, s.node, s.file = name, node, file; s.params = []; s.ret = None; s.body = None; s.static = False; s.line = 0

class Program:
    def __init__(s):
        s.structs = {}; s.funcs = {}; s.typedefs = {}; s.enums = {}; s.globals = {}
        s.tp = TypeParser(s.typedefs)
        s.addr_fields = set()
    # -------- types of nodes
    def ty(s, node):
        t = node.get('type') or {}
        q = t.get('desugaredQualType') or t.get('qualType')
        return s.tp.parse(q)
    def struct_of(s, ty): 
        return s.structs[ty.name]
    # -------- layout
    def align(s, t):
        if t.k == 'int': return min(t.a // 8, 16)
        if t.k == 'ptr' or t.k == 'func': return 8
        if t.k == 'float': return 4
        if t.k == 'double': return 8
        if t.k == 'bool': return 1
        if t.k == 'array': return s.align(t.a)
        if t.k == 'struct' and t.name in ('?__sigset_t', '__va_list_tag'): return 8
        if t.k == 'struct': return max([s.align(f[1]) for f in s.structs[t.name].fields] or [1])
        return 1
    def sizeof(s, t):
        if t.k == 'int': return t.a // 8
        if t.k in ('ptr',): return 8
        if t.k == 'float': return 4
        if t.k == 'double': return 8
        if t.k in ('bool', 'void', 'func'): return 1
        if t.k == 'array': return t.b * s.sizeof(t.a)
        if t.name == '__va_list_tag': return 24
        if t.name == '?__sigset_t': return 128      # libc's, in jmp_buf; never looked into
        st = s.structs[t.name]
        off = 0; al = 1
        for f in st.fields:
            a = s.align(f[1]); al = max(al, a); z = s.sizeof(f[1])
            if st.union: off = max(off, z)
            else: off = (off + a - 1) // a * a + z
        return (off + al - 1) // al * al
    def offsetof(s, sname, fname):
        st = s.structs[sname]; off = 0
        for f in st.fields:
            a = s.align(f[1]); off = (off + a - 1) // a * a
            if f[0] == fname: return off
            off += s.sizeof(f[1])
    def field(s, sname, f):
        for g in s.structs[sname].fields:
            if g[0] == f: return g
        return None

def fixlines(n, st):
    # clang omits "line"/"file" when unchanged from the previously printed location
    if isinstance(n, dict):
        if 'offset' in n and 'col' in n:
            if 'file' in n: st[1] = n['file']
            if 'line' in n: st[0] = n['line']
            n['line'] = st[0]; n['file'] = st[1]
        for v in n.values():
            if isinstance(v, (dict, list)): fixlines(v, st)
    elif isinstance(n, list):
        for v in n: fixlines(v, st)

def line_of(n):
    r = n.get('range', {}).get('begin', {})
    if 'expansionLoc' in r: r = r['expansionLoc']
    return r.get('line', 0)

def file_of(n):
    r = n.get('loc', {})
    if 'expansionLoc' in r: r = r['expansionLoc']
    return r.get('file') or ''

def record(prog, n, file, parentname=None):
    name = n.get('name')
    r = n['loc']
    if 'expansionLoc' in r: r = r['expansionLoc']
    at = '%s:%s:%s' % (r.get('file'), r.get('line'), r.get('col'))
    rb = n.get('range', {}).get('begin', {})
    if 'expansionLoc' in rb: rb = rb['expansionLoc']
    at2 = '%s:%s:%s' % (rb.get('file'), rb.get('line'), rb.get('col'))
    key = name or '@' + at2
    if not n.get('completeDefinition'): return key
    st = Struct(key); st.union = n.get('tagUsed') == 'union'
    prog.structs[key] = st
    if not name:
        prog.structs['@' + at] = st; prog.structs['@' + at2] = st
    for c in n.get('inner', []):
        if c['kind'] == 'RecordDecl': record(prog, c, file)
    for c in n.get('inner', []):
        if c['kind'] == 'FieldDecl':
            st.fields.append((c.get('name') or '', prog.ty(c)))
    return key

def run_clang(path, flags):
    p = subprocess.run(['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + flags + [path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise RuntimeError('clang failed on %s: %s' % (path, p.stderr.decode()[:2000]))
    return p.stdout

def scan_addr(prog, n):
    """fields whose address is taken: their storage lives in the per-type cell heap"""
    stack = [n]
    while stack:
        x = stack.pop()
        if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&':
            y = x['inner'][0]
            while y.get('kind') == 'ParenExpr': y = y['inner'][0]
            if y.get('kind') == 'MemberExpr':
                t = prog.ty(y)
                if t.k not in ('struct', 'array'):
                    bt = prog.ty(y['inner'][0])
                    if bt.k == 'ptr': bt = bt.a
                    prog.addr_fields.add((bt.name, y.get('name')))
        for c in x.get('inner', []):
            if c: stack.append(c)

def load_one(a):
    path, flags = a
    tu = json.loads(run_clang(path, flags))
    fixlines(tu, [0, ''])
    return path, tu

def load(repo, files, extra=(), flags=()):
    prog = Program()
    paths = [os.path.join(repo, 'src', f) for f in files] + list(extra)
    fl = ['-I' + os.path.join(repo, 'src'), '-DNK_VERIF=1'] + list(flags)
    from multiprocessing import Pool
    if len(paths) > 2:
        with Pool(min(8, len(paths))) as pool: res = pool.map(load_one, [(p, fl) for p in paths], 1)
    else: res = [load_one((p, fl)) for p in paths]
    for path, tu in res:
        for n in tu['inner']:
            if n['kind'] == 'TypedefDecl':
                t = n['type']; q = t.get('desugaredQualType') or t['qualType']
                if n['name'] not in prog.typedefs and q != n['name']: prog.typedefs[n['name']] = q
    prog.tp.cache.clear()
    for path, tu in res:
        for n in tu['inner']:
            if n['kind'] == 'RecordDecl': record(prog, n, path)
            elif n['kind'] == 'EnumDecl':
                v = 0
                for c in n.get('inner', []):
                    if c['kind'] != 'EnumConstantDecl': continue
                    for ch in c.get('inner', []):
                        if 'value' in ch: v = int(ch['value'])
                    prog.enums[c['name']] = v; v += 1
    for path, tu in res:
        for n in tu['inner']:
            if n['kind'] == 'FunctionDecl':
                body = [c for c in n.get('inner', []) if c['kind'] == 'CompoundStmt']
                f = Func(n['name'], n, path)
                f.params = [c for c in n.get('inner', []) if c['kind'] == 'ParmVarDecl']
                qt = n['type'].get('desugaredQualType') or n['type']['qualType']
                f.rtq = n['type']['qualType']
                f.static = n.get('storageClass') == 'static'
                f.line = (n.get('loc', {}).get('expansionLoc') or n.get('loc', {})).get('line', 0)
                f.body = body[0] if body else None
                f.ret = ret_type(prog, n)
                old = prog.funcs.get(f.name)
                if old is None or (f.body is not None and old.body is None): prog.funcs[f.name] = f
                elif f.body is not None and old.body is not None and f.static:
                    prog.funcs.setdefault(f.name + '@' + os.path.basename(path), f)
            elif n['kind'] == 'VarDecl':
                old = prog.globals.get(n['name'])
                if old is None or 'inner' in n: prog.globals[n['name']] = n
            if path.startswith(repo): pass
        for n in tu['inner']:
            if n['kind'] == 'FunctionDecl' and any(c['kind'] == 'CompoundStmt' for c in n.get('inner', [])):
                scan_addr(prog, n)
    return prog

def ret_type(prog, n):
    q = n['type'].get('desugaredQualType') or n['type']['qualType']
    # "RET (ARGS)": the return type is everything before the first '(' that opens the parameter list
    d = 0
    # handle "void *(*f(...))(...)" is not used in this code base
    i = q.find('(')
    return prog.tp.parse(q[:i].strip())

if __name__ == '__main__':
    import time; t = time.time()
    p = load('/repo', sorted(f for f in os.listdir('/repo/src') if f.endswith('.c')))
    print(len(p.funcs), len(p.structs), time.time() - t)
    for s in ('NKVM', 'NKValue', 'NKInstruction', 'NKVMTable', 'NKVMObject'):
        print(s, p.sizeof(STRUCT(s)), p.structs[s].fields)
    print(p.addr_fields)
