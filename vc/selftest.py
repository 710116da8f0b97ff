#!/opt/veriftools/pyvenv/bin/python3
"""setup: the tools are there and the solvers answer"""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import discharge
assert discharge.z3run('(declare-const x Int)(assert (and (> x 3) (< x 4)))(check-sat)', 2000)[0] == 'unsat'
assert discharge.cvc5run('(declare-const x Int)(assert (and (> x 3) (< x 4)))(check-sat)', 5000) == 'unsat'
assert subprocess.run(['clang++-18', '--version'], capture_output=True).returncode == 0
print('ok')
