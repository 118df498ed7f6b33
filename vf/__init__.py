"""Symbolic execution of the real /repo code, decided by z3."""
import sys
Z3_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if Z3_SITE not in sys.path:
    sys.path.append(Z3_SITE)   # appended: the repository's own dependencies win
sys.set_int_max_str_digits(0)     # a solver model may be a rational of thousands of digits
sys.dont_write_bytecode = True
