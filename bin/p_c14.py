from vlib import corrupt_first
from sweeps import run, T, ASSUME
def body(c):
    exe, ts = run(c, 13, random=("vmps", "vmps", "vmps", "dmrg", "noise", "single", "bound", "snoise"))
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("e":"upd".*?"gauge":false.*?"en":)-?\d+', r'\g<1>-999999999'))
    c.assumptions += ASSUME
