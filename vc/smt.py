"""SMT-LIB back end: background theory, symbol table with dependency slicing, solver portfolio."""
import re, subprocess, os, time, tempfile, hashlib
TOKRE = re.compile(r'\|[^|]*\||[A-Za-z_$.@%~!][\w$.@%~!-]*')

PRELUDE = [
 # (symbols that trigger inclusion, text)
 ('', '(declare-sort Ptr 0)'), ('', '(declare-sort F 0)'), ('', '(declare-fun null () Ptr)'),
 ('', '(declare-fun root (Ptr) Ptr)'), ('', '(declare-fun blk (Ptr) Ptr)'), ('', '(declare-fun idx (Ptr) Int)'),
 ('', '(declare-fun bsize (Ptr) Int)'), ('btype', '(declare-fun btype (Ptr) Int)'), ('', '(declare-fun tag (Ptr) Int)'), ('', '(declare-fun shift (Ptr Int) Ptr)'),
 ('', '(assert (and (= (root null) null) (= (blk null) null) (= (idx null) 0) (= (tag null) 0)))'),
 ('blk', '(assert (forall ((p Ptr)) (! (and (= (blk (blk p)) (blk p)) (= (idx (blk p)) 0)) :pattern ((blk p)))))'),
 ('root', '(assert (forall ((p Ptr)) (! (= (root (root p)) (root p)) :pattern ((root p)))))'),
 ('shift', '(assert (forall ((p Ptr) (i Int)) (! (and (= (blk (shift p i)) (blk p)) (= (root (shift p i)) (root p)) (= (idx (shift p i)) (+ (idx p) i))) :pattern ((shift p i)))))'),
 ('shift', '(assert (forall ((p Ptr) (i Int)) (! (=> (= i 0) (= (shift p i) p)) :pattern ((shift p i)))))'),
 ('shift', '(assert (forall ((p Ptr) (i Int) (j Int)) (! (= (shift (shift p i) j) (shift p (+ i j))) :pattern ((shift (shift p i) j)))))'),
 ('idx&shift', '(assert (forall ((p Ptr)) (! (= p (shift (blk p) (idx p))) :pattern ((idx p)))))'),
 ('validp', '(define-fun validp ((a (Array Ptr Bool)) (p Ptr) (s Int)) Bool (and (not (= p null)) (select a (root p)) (<= 0 (idx p)) (<= (* (+ (idx p) 1) s) (bsize (blk p)))))'),
 ('validn', '(define-fun validn ((a (Array Ptr Bool)) (p Ptr) (s Int) (n Int)) Bool (and (not (= p null)) (select a (root p)) (<= 0 (idx p)) (<= (* (+ (idx p) n) s) (bsize (blk p)))))'),
 ('tdiv', '(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (ite (> b 0) (div a b) (- (div a (- b)))) (ite (> b 0) (- (div (- a) b)) (div (- a) (- b)))))'),
 ('tmod', '(define-fun tmod ((a Int) (b Int)) Int (ite (>= a 0) (mod a (ite (> b 0) b (- b))) (- (mod (- a) (ite (> b 0) b (- b))))))'),
 # unsigned division by a variable: Euclidean facts only (non-linear part stays abstract)
 ('udiv', '(declare-fun udiv (Int Int) Int)'),
 ('udiv', '(assert (forall ((a Int) (b Int)) (! (=> (and (>= a 0) (> b 0)) (and (<= 0 (udiv a b)) (<= (udiv a b) a) (<= (* (udiv a b) b) a) (< a (* (+ (udiv a b) 1) b)))) :pattern ((udiv a b)))))'),
 ('umod', '(declare-fun umod (Int Int) Int)'),
 ('umod', '(assert (forall ((a Int) (b Int)) (! (=> (and (>= a 0) (> b 0)) (and (<= 0 (umod a b)) (< (umod a b) b) (<= (umod a b) a) (=> (< a b) (= (umod a b) a)))) :pattern ((umod a b)))))'),
 ('chars', '(declare-fun chars ((Array Ptr Int) Ptr) (Array Int Int))'),
 ('chars', '(assert (forall ((h (Array Ptr Int)) (p Ptr) (i Int)) (! (= (select (chars h p) i) (select h (shift p i))) :pattern ((select (chars h p) i)) :pattern ((chars h p) (select h (shift p i))))))'),
 # where two cell heaps differ at some offset from p, if they do
 ('chdiff', '(declare-fun chdiff ((Array Ptr Int) (Array Ptr Int) Ptr) Int)'),
 ('chdiff', '(assert (forall ((h (Array Ptr Int)) (p Ptr) (v Int) (q Ptr)) (! (=> (not (= (blk p) (blk q))) (= (chars (store h p v) q) (chars h q))) :pattern ((chars (store h p v) q)))))'),
 # bit operations on unsigned values
 ('band', '(declare-fun band (Int Int) Int)'),
 ('band', '(assert (forall ((a Int) (b Int)) (! (=> (and (>= a 0) (>= b 0)) (and (<= 0 (band a b)) (<= (band a b) a) (<= (band a b) b))) :pattern ((band a b)))))'),
 ('pow2', '(declare-fun pow2 (Int) Bool)'),
 ('band&pow2', '(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (pow2 (+ b 1))) (= (band a b) a)) :pattern ((band a b)))))'),
 ('band&pow2', '(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= b 4294967295) (>= b 0) (pow2 (+ b 1)) (> a b) (<= a (+ b b 1))) (= (band a b) (- a (+ b 1)))) :pattern ((band a b)))))'),
 ('pow2', '(assert (and (pow2 1) (pow2 2) (pow2 4) (pow2 8) (pow2 16) (pow2 32) (pow2 64) (pow2 128) (pow2 256) (pow2 512) (pow2 1024) (pow2 65536) (pow2 2147483648) (pow2 4294967296)))'),
 ('pow2', '(assert (forall ((a Int)) (! (=> (pow2 a) (> a 0)) :pattern ((pow2 a)))))'),
 ('pow2', '(assert (forall ((a Int)) (! (=> (and (pow2 a) (< a 4294967296)) (<= a 2147483648)) :pattern ((pow2 a)))))'),
 ('pow2', '(assert (forall ((a Int) (b Int)) (! (=> (and (pow2 a) (pow2 b) (< a b)) (<= (* 2 a) b)) :pattern ((pow2 a) (pow2 b)))))'),
 ('pow2', '(assert (forall ((a Int)) (! (=> (pow2 a) (pow2 (* 2 a))) :pattern ((pow2 (* 2 a))))))'),
 ('pow2', '(assert (forall ((a Int)) (! (=> (and (pow2 a) (> a 1)) (and (= (mod a 2) 0) (pow2 (div a 2)))) :pattern ((pow2 a) (div a 2)))))'),
 ('bor', '(declare-fun bor (Int Int) Int)'), ('bxor', '(declare-fun bxor (Int Int) Int)'),
 ('bor', '(assert (forall ((a Int) (b Int)) (! (=> (and (>= a 0) (>= b 0)) (and (>= (bor a b) a) (>= (bor a b) b))) :pattern ((bor a b)))))'),
 ('bor', '(assert (forall ((a Int)) (! (=> (>= a 0) (= (bor a 1) (- (+ a 1) (mod a 2)))) :pattern ((bor a 1)))))'),
 ('sband', '(declare-fun sband (Int Int) Int)'), ('sbor', '(declare-fun sbor (Int Int) Int)'), ('sbxor', '(declare-fun sbxor (Int Int) Int)'),
 ('shl', '(declare-fun shl (Int Int) Int)'), ('shr', '(declare-fun shr (Int Int) Int)'),
 ('f32_of_bits', '(declare-fun f32_of_bits (Int) F)'), ('bits_of_f32', '(declare-fun bits_of_f32 (F) Int)'),
 ('bits_of_f32', '(assert (forall ((f F)) (! (and (<= 0 (bits_of_f32 f)) (<= (bits_of_f32 f) 4294967295)) :pattern ((bits_of_f32 f)))))'),
 ('bits_of_f32&f32_of_bits', '(assert (forall ((f F)) (! (= (f32_of_bits (bits_of_f32 f)) f) :pattern ((bits_of_f32 f)))))'),
 ('f_of_int_float', '(declare-fun f_of_int_float (Int) F)'), ('f_of_int_double', '(declare-fun f_of_int_double (Int) F)'),
 ('f_to_int', '(declare-fun f_to_int (F) Int)'), ('f_fits_i32', '(declare-fun f_fits_i32 (F) Bool)'), ('f_fits_u32', '(declare-fun f_fits_u32 (F) Bool)'),
 ('f_float_to_double', '(declare-fun f_float_to_double (F) F)'), ('f_double_to_float', '(declare-fun f_double_to_float (F) F)'),
 ('f_zero', '(declare-fun f_zero () F)'), ('f_nonzero', '(declare-fun f_nonzero (F) Bool)'),
 ('f_lt', '(declare-fun f_lt (F F) Bool)'), ('f_le', '(declare-fun f_le (F F) Bool)'), ('f_eq', '(declare-fun f_eq (F F) Bool)'),
 ('ptr_of_int', '(declare-fun ptr_of_int (Int) Ptr)'), ('int_of_ptr', '(declare-fun int_of_ptr (Ptr) Int)'),
 ('int_of_ptr', '(assert (forall ((p Ptr)) (! (<= 0 (int_of_ptr p)) :pattern ((int_of_ptr p)))))'),
]
for _t in ('float', 'double'):
    for _o in ('add', 'sub', 'mul', 'div'): PRELUDE.append(('f_%s_%s' % (_o, _t), '(declare-fun f_%s_%s (F F) F)' % (_o, _t)))
    PRELUDE.append(('f_neg_%s' % _t, '(declare-fun f_neg_%s (F) F)' % _t))
BUILTIN = {'chdiff': 'Int', 'band': 'Int', 'bor': 'Int', 'bxor': 'Int', 'pow2': 'Bool', 'shl': 'Int', 'shr': 'Int', 'udiv': 'Int', 'umod': 'Int', 'tdiv': 'Int', 'tmod': 'Int',
           'f_zero': 'F', 'f_lt': 'Bool', 'f_le': 'Bool', 'f_eq': 'Bool', 'f_nonzero': 'Bool', 'f32_of_bits': 'F', 'bits_of_f32': 'Int', 'f_of_int_float': 'F', 'f_to_int': 'Int', 'f_fits_i32': 'Bool',
           'f_add_float': 'F', 'f_sub_float': 'F', 'f_mul_float': 'F', 'f_div_float': 'F', 'f_neg_float': 'F', 'f_of_int_double': 'F', 'f_double_to_float': 'F', 'f_float_to_double': 'F', 'int_of_ptr': 'Int', 'sband': 'Int'}

class Smt:
    def __init__(self):
        self.n = 0; self.heaps = {}; self.heapty = {}; self.decl = {}; self.defs = {}; self.ax = {}; self.fields = {}; self.cptr = []; self.order = {}
        self.builtin = BUILTIN; self.tids = {}; self.logic_used = set(); self.logic_decl = {}; self.axioms = []  # (name, formula, syms)
        self.cf = set()
    def counter(self): self.n += 1; return self.n
    def declare(self, base, sort):
        self.n += 1; s = '%s_%d' % (re.sub(r'[^A-Za-z0-9_$]', '_', base), self.n)
        self.decl[s] = sort; self.order[s] = self.n; return s
    def define(self, base, sort, term):
        self.n += 1; s = '%s_%d' % (re.sub(r'[^A-Za-z0-9_$]', '_', base), self.n)
        self.defs[s] = (sort, term); self.order[s] = self.n; return s
    def axiom_for(self, sym, f): self.ax.setdefault(sym, []).append(f)
    def fieldfn(self, sname, f, size, flex=None):
        nm = 'Fld_%s_%s' % (sname, f)
        if nm not in self.fields:
            k = len(self.fields) + 1; self.fields[nm] = k
            self.decl[nm] = ('fun', ['Ptr'], 'Ptr'); self.decl['Own' + nm[3:]] = ('fun', ['Ptr'], 'Ptr')
            self.order[nm] = self.order['Own' + nm[3:]] = 0
            self.ax[nm] = ['(forall ((p Ptr)) (! (and (= (%s (%s p)) p) (= (tag (%s p)) %d) (= (root (%s p)) (root p)) (= (blk (%s p)) (%s p)) (= (idx (%s p)) 0) (= (bsize (%s p)) %d) (not (= (%s p) null))) :pattern ((%s p))))'
                           % ('Own' + nm[3:], nm, nm, k, nm, nm, nm, nm, nm, size, nm, nm)]
            # trailing array of length 1: extends to the end of the block that holds the record
            if flex is not None: self.ax[nm][0] = self.ax[nm][0].replace('(= (bsize (%s p)) %d)' % (nm, size), '(=> (= p (root p)) (= (bsize (%s p)) (- (bsize p) %d)))' % (nm, flex))
        return nm
    def const_ptr(self, nm):
        nm = re.sub(r'[^A-Za-z0-9_$]', '_', nm)
        if nm not in self.decl:
            self.decl[nm] = 'Ptr'; self.order[nm] = 0; self.cptr.append(nm)
            self.ax[nm] = ['(and (not (= %s null)) (= (root %s) %s) (= (blk %s) %s) (= (idx %s) 0) (= (tag %s) (- %d)))' % (nm, nm, nm, nm, nm, nm, nm, len(self.cptr))]
        return nm
    def const_f(self, nm):
        if nm not in self.decl: self.decl[nm] = 'F'; self.order[nm] = 0
        return nm
    def use_logic(self, n, E):
        if n in self.logic_decl: return
        t, ps = E.sp.logics[n]
        so = lambda ty: 'Bool' if ty.k == 'bool' else E.sort(ty)
        self.logic_decl[n] = '(declare-fun %s (%s) %s)' % (n, ' '.join(so(p[1]) for p in ps), so(t))
        self.order[n] = 0; self.decl[n] = ('fun', [so(p[1]) for p in ps], so(t))

    def query(self, facts, goal, extra_ax=(), use_axioms=True):
        body = list(facts)
        need = set(); work = []
        def scan(text):
            for m in TOKRE.findall(text):
                if m not in need: need.add(m); work.append(m)
        for f in body: scan(f)
        if goal is not None: scan(goal)
        defs = []; axs = []; gax = list(self.axioms) if use_axioms else []
        for f in extra_ax: scan(f)
        while True:
            while work:
                s = work.pop()
                if s in self.defs: scan(self.defs[s][1])
                for a in self.ax.get(s, ()): axs.append(a); scan(a)
            rest = []; hit = False
            for (nm, f, syms) in gax:
                if any(all(x in need for x in alt) for alt in syms): body_ax = f; axs.append(f); scan(f); hit = True
                else: rest.append((nm, f, syms))
            gax = rest
            if not hit and not work: break
        out = ['(set-logic ALL)']
        inc = set()
        pre = []
        for sy, t in PRELUDE:
            if sy == '' : pre.append(t); continue
        syms = need | set()
        # prelude closure: symbols mentioned by included prelude axioms
        changed = True; chosen = [False] * len(PRELUDE)
        base = {'null', 'root', 'blk', 'idx', 'bsize', 'tag'}
        while changed:
            changed = False
            for i, (sy, t) in enumerate(PRELUDE):
                if chosen[i]: continue
                if sy == '' or all(x in syms for x in sy.split('&')):
                    chosen[i] = True; changed = True
                    if sy: 
                        for m in TOKRE.findall(t): syms.add(m)
        # declarations first, then axioms
        for i, (sy, t) in enumerate(PRELUDE):
            if chosen[i] and not t.startswith('(assert'): out.append(t)
        for i, (sy, t) in enumerate(PRELUDE):
            if chosen[i] and t.startswith('(assert'): out.append(t)
        dd = sorted((s for s in need if s in self.decl), key=lambda s: (self.order.get(s, 0), s))
        allsy = sorted((s for s in need if s in self.decl or s in self.defs), key=lambda s: (self.order.get(s, 0), s))
        for s in allsy:
            if s in self.decl:
                d = self.decl[s]
                if isinstance(d, tuple): out.append('(declare-fun %s (%s) %s)' % (s, ' '.join(d[1]), d[2]))
                else: out.append('(declare-fun %s () %s)' % (s, d))
            else:
                so, t = self.defs[s]
                out.append('(declare-fun %s () %s)' % (s, so)); out.append('(assert (= %s %s))' % (s, t if not isinstance(t, int) else t))
        for a in axs: out.append('(assert %s)' % a)
        for a in extra_ax: out.append('(assert %s)' % a)
        for f in body: out.append('(assert %s)' % f)
        if goal is not None: out.append('(assert (not %s))' % goal)
        out.append('(check-sat)')
        return '\n'.join(out)

SOLVERS = {
 'z3': ['z3-new', '-smt2', '-in'],
 'z3mbqi0': ['z3-new', '-smt2', '-in', 'smt.mbqi=false', 'auto_config=false'],
 'z3cs3': ['z3-new', '-smt2', '-in', 'smt.mbqi=false', 'auto_config=false', 'smt.case_split=3'],
 'z3plain': ['z3', '-smt2', '-in'],
 'z3old': ['z3', '-smt2', '-in', 'smt.mbqi=false', 'auto_config=false'],
 'cvc5': ['cvc5', '--lang=smt2', '-'],
}
def run_solver(name, text, timeout):
    cmd = list(SOLVERS[name])
    if name.startswith('z3'): cmd.insert(1, '-T:%d' % max(1, int(timeout)))
    else: cmd.insert(1, '--tlimit=%d' % int(timeout * 1000))
    t = time.time()
    try:
        p = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout + 5)
        o = p.stdout.decode().strip().split('\n')[0] if p.stdout else 'error:' + p.stderr.decode()[:200]
    except subprocess.TimeoutExpired: o = 'timeout'
    return o, time.time() - t
