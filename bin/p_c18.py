from vlib import corrupt_first
from sweeps import run, T, ASSUME
def body(c):
    c.design("sweep/MCNoise", "sweep/MCNoise" if c.quick else "sweep/MCNoiseDeep", workers=4, cover=["MSweep", "MKeep", "MLower", "MRaise"])
    exe, ts = run(c, 5, replay=("single",), random=("single", "snoise", "noise", "snoise", "noise"))
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("e":"read","b":"[lr]\d","ok":)true', r'\g<1>false'))
    c.assumptions += ASSUME
