# property -> which harnesses decide it, and which violation classes belong to it
COMMON = ["crash-*", "hang", "deadlock", "liveness", "use-after-free", "heap-overflow", "double-free", "bad-free"]
SYM = "dreal/symbolic and the bundled drake symbolic library (real code, instrumented)"
STUB_RT = "operator new/delete, pthread/futex primitives, clocks, sigaction (simulated)"
def c(harnesses, classes, real, stubs=(STUB_RT,), **k):
    d = dict(bin="core", harnesses=harnesses, classes=classes, real=list(real), stubs=list(stubs)); d.update(k); return d
SOLVER = "Context, SatSolver, TheorySolver, ICP (sequential and parallel), contractors, evaluators, Box, CNF and abstraction (real code, instrumented); picosat (the real library, not instrumented)"
SHIM = ("IBEX (shim/ibex*: intervals, forward-backward contraction, own code)", "libcds (shim/cds: locked containers that check thread attachment)")
READER = "Smt2Driver or DrDriver, scanner and parser (flex and Bison output of the repository's grammar), get-model and get-value printing (real code, instrumented)"
def f(harnesses, classes, **k):
    return c(harnesses, classes, [READER, SYM, SOLVER], (STUB_RT, "read of the script file (simulated failures)") + SHIM, bin="full", **k)
def r(harnesses, classes, **k):
    return c(harnesses, classes, [SYM, SOLVER], (STUB_RT,) + SHIM, bin="full", **k)
CHECKS = {
  "S01": c([("vars", 1)], ["variable-id", "data-race"], [SYM]),
  "S02": c([("alias", 1)], ["expr-*", "formula-*", "bystander-changed", "order", "unexpected-exception"], [SYM], histories_only=True),
  "S03": c([("share", 1)], ["data-race", "shared-result", "bystander-changed", "leak"], [SYM], time=32),
  "S04": c([("aliasmem", 3), ("share", 1)], ["bystander-changed", "leak", "unexpected-exception", "expr-*", "formula-*"], [SYM]),
  "S05": c([("prefix", 3), ("alias", 1)], ["prefix", "printed", "leak"], [SYM], stubs=("operator new/delete, output streams that fail part of the way (simulated)",), time=20),
  "S06": c([("sets", 1)], ["sets", "environment"], [SYM], time=16, histories_only=True),
  "S07": c([("parts", 1)], ["parts", "leak", "data-race"], [SYM], time=24),
  "D01": c([("scoped", 1)], ["scoped-*", "leak"], ["dreal/util scoped containers"], histories_only=True),
  "D02": c([("scopedmem", 1)], ["scoped-*", "leak"], ["dreal/util scoped containers"]),
  "T01": c([("pool", 1)], ["task-count", "future-*", "enqueue-failed", "data-race"], ["ThreadPool (real code, instrumented)"]),
  "T02": c([("poolstop", 2), ("pool", 1)], ["task-count", "future-lost", "thread-leak", "thread-count", "data-race"], ["ThreadPool (real code, instrumented)"]),
  "T03": c([("pool_ids", 1)], ["worker-id", "data-race"], ["ThreadPool (real code, instrumented)"]),
  "T04": c([("poolfail", 1)], ["pool-construct", "thread-leak", "thread-count", "task-count", "future-*", "enqueue-failed"], ["ThreadPool (real code, instrumented)"]),
  "G01": c([("siguard", 1)], ["signal-handler"], ["SignalHandlerGuard, interrupt flag"], time=16),
  "G02": c([("fpguard", 1)], ["precision", "rounding-mode"], ["PrecisionGuard, RoundingModeGuard"], time=16),
  "K01": c([("timer", 1)], ["timer"], ["Timer, TimerGuard, Profiler"], time=16),
  "N01": c([("stat", 1)], ["counter", "data-race"], ["Stat, IcpStat"], time=16),
  "O01": c([("option", 1)], ["option"], ["OptionValue"], time=12),
  "U01": c([("conv", 1)], ["convert", "filesystem"], ["dreal/util math, filesystem"], stubs=("stat (simulated file system)", "operator new (simulated failures)"), time=10),
  "L01": c([("logger", 1)], ["logger", "data-race"], ["logging (real code), spdlog headers"], time=12),
  "B01": c([("abs", 1)], ["abstraction", "fresh-variable", "data-race"], [SYM, "PredicateAbstractor"], time=24),
  "B02": c([("cnf", 1)], ["cnf", "fresh-variable", "data-race"], [SYM, "TseitinCnfizer, NaiveCnfizer, Nnfizer"], time=24),
  "B03": c([("ite", 1)], ["ite", "fresh-variable", "data-race"], [SYM, "IfThenElseEliminator, Nnfizer"], time=24),
  "B04": c([("delta", 1)], ["delta"], [SYM], time=20, histories_only=True),
  "C01": c([("terms", 1)], ["term", "command", "data-race"], [SYM, "dreal/smt2 sorts, logics, terms, commands (real code)"], time=20),
  "R01": r([("ctx", 3), ("ctxint", 1)], ["unsound-unsat", "unexpected-exception"]),
  "R02": r([("ctx", 3), ("ctxint", 1)], ["unsound-sat", "model", "unexpected-exception"]),
  "R03": r([("ctxint", 1)], ["interrupt", "unexpected-exception", "thread-leak", "unsound-*"]),
  "R04": r([("ctxmem", 1)], ["unsound-*", "model", "refused", "unexpected-exception", "thread-leak", "cds-attach"]),
  "R05": r([("ctxpar", 1)], ["unsound-*", "model", "unexpected-exception", "thread-leak", "cds-attach", "data-race"]),
  "R06": r([("ctxmulti", 1)], ["unsound-*", "model", "unexpected-exception", "cds-attach", "data-race"]),
  "R07": r([("minimize", 1)], ["minimum", "unexpected-exception", "thread-leak", "data-race", "cds-attach"]),
  "R08": r([("box", 1)], ["box", "leak", "data-race"], time=20),
  "P01": f([("front", 1)], ["script"]),
  "P02": f([("frontmulti", 1)], ["script", "data-race", "cds-attach"]),
  "P04": f([("dr", 3), ("drmulti", 1)], ["script", "data-race", "thread-leak", "cds-attach"]),
  "P03": f([("frontall", 1)], ["script", "data-race", "thread-leak", "cds-attach"]),
}
