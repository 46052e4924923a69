def run(ctx):
    ctx.rule = "distinct (scenario, verdict of the event-log checker) classes"
    ctx.level = "fault_enumeration"
    ctx.assumptions = ["a stand-in compiler that removes and rewrites its output piecewise represents the real linker",
                       "callers that do not return within 60 s are blocked (a build takes 0.3 s)"]
    ctx.py_driver("s03", timeout=700, parts=4)
