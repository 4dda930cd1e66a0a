from vlib import corrupt_first
from sweeps import run, T, ASSUME
def body(c):
    exe, ts = run(c, 13, replay=("vmps", "bound", "dmrg", "single"), split=("vmps", "bound", "dmrg", "single"), shift=("dmrg", "dmrg", "dmrg", "bound", "bound", "vmps"), quick_stride=3)
    c.binding_selftest(T, T, [t for t in ts if "split" in t][-1], corrupt_first(r'("e":"same","clear":true,"en":\[-?\d)', r'\g<1>7'))
    c.assumptions += ASSUME
