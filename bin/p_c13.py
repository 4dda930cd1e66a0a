from vlib import corrupt_first
from sweeps import run, T, ASSUME
def body(c):
    exe, ts = run(c, 1, replay=("vmps", "bound"), random=("vmps", "vmps", "noise", "bound"))
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("e":"read","b":"[lr]\d","ok":)true', r'\g<1>false'))
    c.assumptions += ASSUME
