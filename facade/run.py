"""Runs one harness of the facade.

  run.py sym <harness> <seconds> <package>    symbolically with CrossHair, on the model of the extension
  run.py call <package> <cases.json>          concretely, with whatever extension the package has
"""
import json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True


def symbolic(name, limit, package):
    sys.path[:0] = [HERE, package]
    import native
    native.install()
    import harness
    import crosshair.core_and_libs as cl
    from crosshair.core import analyze_function, run_checkables
    from crosshair.options import AnalysisOptionSet
    import collections, dataclasses, z3
    h = harness.HARNESSES[name]
    count = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, max_query_s=0.0)
    real = z3.Solver.check
    clock = lambda: time.clock_gettime(time.CLOCK_PROCESS_CPUTIME_ID) # CrossHair makes the other clocks symbolic

    def counted(self, *a):
        t = clock()
        r = real(self, *a)
        t = clock() - t
        count["queries"] += 1
        count[str(r)] += 1
        count["solver_s"] += t
        count["max_query_s"] = max(count["max_query_s"], t)
        return r
    z3.Solver.check = counted
    # Error messages are not checked: the numbers in them are not enumerated.
    from crosshair.libimpl import builtinslib as bl
    from crosshair import opcode_intercept as oi
    from crosshair.tracers import frame_stack_read, frame_stack_write
    from crosshair.core import CrossHairValue, _PATCH_REGISTRATIONS
    fmt = oi.FormatStashingValue.__format__

    def formatted(self, spec):
        with cl.NoTracing():
            symbolic = isinstance(self.value, bl.SymbolicInt)
        if not symbolic:
            return fmt(self, spec)
        self.formatted = "#"
        for k in (8, 16, 32, 64, 128): # what could make up the name of a native class
            if self.value == k:
                self.formatted = str(k)
                break
        return ""
    oi.FormatStashingValue.__format__ = formatted
    def is_callable(x):
        with cl.NoTracing():
            return callable(x) if not isinstance(x, (bl.AnySymbolicStr, bl.SymbolicNumberAble)) else False
    _PATCH_REGISTRATIONS[callable] = is_callable
    # 'x in {...}' with constants is a look-up in a frozenset; compare instead of hashing a symbolic x.
    trace_op = oi.ContainmentInterceptor.trace_op

    def contains(self, frame, codeobj, codenum):
        c = frame_stack_read(frame, -1)
        if type(c) in (set, frozenset) and isinstance(frame_stack_read(frame, -2), CrossHairValue):
            frame_stack_write(frame, -1, list(c))
            return
        return trace_op(self, frame, codeobj, codenum)
    oi.ContainmentInterceptor.trace_op = contains

    def run(post, seconds):
        stats = collections.Counter()
        opts = AnalysisOptionSet(per_condition_timeout=seconds, per_path_timeout=seconds, report_all=True, stats=stats)
        todo = analyze_function(h["fn"], opts)
        if post is not None:
            for c in todo:
                c.conditions = dataclasses.replace(c.conditions, post=[dataclasses.replace(p, evaluate=post) for p in c.conditions.post])
        return run_checkables(todo), stats
    t0 = time.time()
    msgs, stats = run(None, limit)
    out = dict(name=name, stats=dict(stats), messages=[dict(state=m.state.name, message=m.message, trace=m.traceback[-1500:]) for m in msgs], witnesses={})
    if all(m.state.name == "CONFIRMED" for m in msgs):
        for c in h["cases"]:
            w, _ = run(lambda names, c=c: names["_"] != c, max(10.0, limit / 4))
            out["witnesses"][c] = [m.message for m in w if m.state.name == "POST_FAIL"][:1]
    out.update(count, wall_s=time.time() - t0)
    print("RESULT " + json.dumps(out))


def concrete(package, cases, fake):
    sys.path[:0] = [HERE, package]
    if fake:
        import native
        native.install()
    import harness
    for call in json.load(open(cases)):
        name = call.split("(")[0]
        try:
            r = eval(call, {name: harness.HARNESSES[name]["fn"], "float": float, "nan": float("nan"), "inf": float("inf")})
            print("RESULT " + json.dumps(["OK", r]))
        except BaseException as e: # pyo3 panics are BaseExceptions
            print("RESULT " + json.dumps(["FAIL", "%s: %s" % (type(e).__name__, e)]))


if __name__ == "__main__":
    if sys.argv[1] == "sym":
        symbolic(sys.argv[2], float(sys.argv[3]), sys.argv[4])
    else:
        concrete(sys.argv[2], sys.argv[3], len(sys.argv) > 4)
