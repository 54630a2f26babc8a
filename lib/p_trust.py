"""C15 (header digests), C16 (payload digests), C17 (signatures), C18 (signing), C19 (reports)."""
import json
from vlib import build

JUDGE = dict(C15="header", C16="payload", C17="sigs", C19="report")


def gen(run, what):
    st, out = run.tlc("GenTrust", consts=dict(What='"%s"' % what), invariants=["Emit"])
    g = run.path("gen")
    with open(g, "w") as f:
        for l in sorted(set(json.dumps(x, sort_keys=True) for x in run.emitted(out))):
            f.write(l + "\n")
    return g


def check(run):
    exe = build(True)
    tp = run.path("trace")
    tags = '{"rsa", "pgp"}' if run.pid in ("C17", "C18") else '{"pgp"}'
    if not run.quick:
        tags = '{"rsa", "gpg"}'
    run.design("MCTrust", "all alterations of a signed package by an attacker without the owner's key, with and without signing again",
               consts=dict(Tags=tags), invariants=["Authentic", "Refuses", "AfterSigning", "SignsWhole"])
    if run.pid == "C18":
        run.harness(exe, ["resign", run.seed, run.q(8000, 60000), tp])
        run.validate("TraceResign", tp, "packages with any digests and signatures signed one to three times")
        return
    judge = dict(Judge='"%s"' % JUDGE[run.pid])
    if run.pid in ("C15", "C16"):
        run.harness(exe, ["trust-gen", gen(run, "digests"), tp, run.seed, run.q(30, 300)])
        run.validate("TraceTrust", tp, "every combination of stored digests, with altered headers and payloads", consts=judge)
    else:
        run.harness(exe, ["trust-gen", gen(run, "sigs"), tp, run.seed, run.q(4, 40)])
        run.validate("TraceTrust", tp, "every signature in every tag and combinations of them, against eight key lists", consts=judge)
    run.harness(exe, ["trust-random", run.seed, run.q(8000, 80000), tp])
    run.validate("TraceTrust", tp, "random combinations of digests, signatures and damage", consts=judge)
    if run.pid == "C16":
        run.harness(exe, ["trust-huge", run.seed, tp])
        run.validate("TraceTrust", tp, "payloads of more than 4 GiB, whole, altered at the end, cut and extended", consts=judge)
