"""setup: nothing to build; check that the tools the checks need are present and answer"""
import shutil, sys
from smt import run_solver
miss = [t for t in ('clang', 'z3-new', 'cvc5', 'z3') if not shutil.which(t)]
if miss: print('missing', miss); sys.exit(1)
for s in ('z3', 'z3old', 'cvc5'):
    r, _ = run_solver(s, '(set-logic ALL)\n(declare-fun a () Int)\n(assert (and (> a 1) (< a 2)))\n(check-sat)', 5)
    print(s, r)
    if r != 'unsat': sys.exit(1)
