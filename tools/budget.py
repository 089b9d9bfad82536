"""Per property: runs and wall-clock cap per tier, level, and what is real."""
LIB = "vara feature/configuration/solver libraries (all of lib/ except SamplingMethods.cpp), compiled from /repo"
HEAP = "C++ allocator (operator new/delete): placement and reuse order chosen by the simulator"
def P(quick, thorough, level="exploration", real=(), stub=(), **kw):
    d = {"quick": quick, "thorough": thorough, "level": level,
         "real": [LIB, "libxml2", "Z3", "LLVM support"] + list(real), "stub": [HEAP] + list(stub)}
    d.update(kw)
    return d
BUDGET = {
    "C%02d" % i: P((20000, 25), (2000000, 600)) for i in [*range(1, 22), 32]
}
for p, wall in (("C01", 45), ("C02", 45), ("C03", 45), ("C04", 45), ("C08", 45), ("C12", 60), ("C13", 60), ("C14", 75), ("C15", 90), ("C16", 60), ("C17", 30), ("C18", 40), ("C19", 45), ("C20", 45)):
    BUDGET[p]["quick"] = (20000, wall)
DISK = "kernel side of files below /simfs: in-memory disk with faults and crash semantics; file code of LLVM, libxml2 and the C library above it is real"
SOLVER = "choice among Z3's satisfying assignments and whether it gives up; satisfiability is decided by the real Z3"
THREADS = "choice of the running thread (real pthreads passing a baton)"
CLOCK = "time(), rand(), rand_r()"
for _p, _l in BUDGET.items():
    if _p in ("C01", "C02", "C03", "C04", "C15", "C16", "C18", "C19", "C20"):
        _l["stub"].append(DISK)
    if _p in ("C12", "C13", "C14", "C15", "C16", "C19", "C20"):
        _l["stub"].append(SOLVER)
    if _p in ("C15",):
        _l["stub"].append(THREADS)
    if _p in ("C15", "C16"):
        _l["stub"].append(CLOCK)
BUDGET["C18"]["real"].append("tools/fm-viewer")
BUDGET["C20"]["real"].append("tools/config-generator")
BUDGET["C20"]["stub"].append("CSV library (sim/stub/csv.hpp)")
