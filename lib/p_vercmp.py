"""C23 (comparison is rpm's algorithm) and C24 (it is a total order)."""
import json
from vlib import build

# 0 1 a b A ~ ^ . and a byte of a non-ASCII letter
ALPHA = "{48, 49, 97, 98, 126, 94, 46}"
ALPHA_BIG = "{48, 49, 57, 97, 98, 65, 126, 94, 46, 195}"


def strings(run, alphabet, n):
    out = run.design("GenVercmp", "", consts=dict(Alphabet=alphabet, MaxLen=n), invariants=["Emit"], heap="4g")
    run.scope.pop()
    return sorted(run.emitted(out), key=lambda s: (len(s), s))


def check(run):
    exe = build(True)
    c23 = run.pid == "C23"
    a, n = (ALPHA, 3) if run.quick else (ALPHA_BIG, 3)
    run.design("MCVercmp", "comparison machine: terminates, agrees with a sort key (total preorder), all pairs of "
               "strings of length <= %d over bytes %s" % (n if run.quick else 3, a),
               consts=dict(Alphabet=a, MaxLen=n),
               invariants=["TypeOK", "AgreesWithKey", "EqualIsReflexive"], properties=["Progress"], heap="12g")
    ss = strings(run, ALPHA_BIG, 2 if run.quick else 3) if c23 else strings(run, ALPHA, 2)
    if c23 and run.quick:
        ss = ss + [s for s in strings(run, ALPHA, 3) if len(s) == 3]
    sp, tp = run.path("strings"), run.path("trace")
    with open(sp, "w") as f:
        for s in ss:
            f.write(json.dumps(s) + "\n")
    if c23:
        run.harness(exe, ["vercmp-rows", sp, tp])
        run.validate("TraceVercmp", tp, "all pairs of %d strings" % len(ss), heap="12g")
        run.harness(exe, ["vercmp-random", run.seed, run.q(30000, 400000), tp])
        run.validate("TraceVercmp", tp, "random pairs of long, nearly equal, binary and non-ASCII strings", heap="12g")
    else:
        run.harness(exe, ["order-matrix", sp, tp])
        run.validate("TraceOrder", tp, "order laws on all triples of %d strings" % len(ss))
        run.harness(exe, ["order-random", run.seed, run.q(600, 6000), tp])
        run.validate("TraceOrder", tp, "order laws, sorting and package order on random versions", heap="12g")
    run.notes += ["the specification is a transcription of rpm's rpmvercmp.c (with ~ and ^); rpm itself is not installed "
                  "here to compare with",
                  "strings beyond the enumerated length are sampled, not enumerated"]
