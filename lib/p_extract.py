"""C01 (containment), C02 (faithful extraction), C03 (damaged archives)."""
import json, os, shutil
from vlib import build, SPEC

ALL = '{"missing", "empty", "links", "inner", "hard", "full"}'
POOLS = (("PoolAll", '{"missing", "links", "inner", "hard"}', 2), ("PoolLinks", '{"empty", "links", "inner"}', 3), ("PoolHard", '{"empty", "hard"}', 3))


def executable(run):
    """The workers run as nobody, from a place that nobody can get to."""
    exe = run.path("vh")
    shutil.copy(build(True), exe)
    os.chmod(exe, 0o755)
    return exe


def gen(run, pool, inits, n):
    st, out = run.tlc("GenExtract", consts=dict(Inits=inits, MaxEntries=n), definitions=dict(Pool=pool), invariants=["Emit"],
                      heap="8g")
    p = run.path("gen")
    with open(p, "w") as f:
        n = 0
        for l in sorted(json.dumps(g, sort_keys=True) for g in run.emitted(out)):
            f.write(l + "\n")
            n += 1
    return p


def damaged(run, exe, tp):
    run.design("MCDamage", "every damage at every place of archives of up to two entries",
               consts=dict(NLens="{2, 3, 4, 5}", Sizes="{0, 1, 4}", MaxEntries=2),
               invariants=["NeverComplete", "Verdict", "Decides"])
    run.harness(exe, ["damage", run.q(120, 900), tp, run.seed, "-"])
    run.validate("TraceDamage", tp, "archives of up to five entries of all types, cut at every byte, with every byte of every "
                 "magic number and header number damaged, unsupported types, read errors, random bytes", heap="12g")


def check(run):
    exe = executable(run)
    tp = run.path("trace")
    if run.pid == "C03":
        return damaged(run, exe, tp)
    judge = "outside" if run.pid == "C01" else "inside"

    def val(what):
        run.validate("TraceExtract", tp, what, consts=dict(Judge='"%s"' % judge), heap="12g")
    pools = POOLS if run.quick else POOLS + (("PoolAll", ALL, 2), ("PoolLinks", '{"empty", "links", "inner", "full"}', 4),
                                             ("PoolHard", '{"empty", "hard"}', 4))
    for pool, inits, n in pools:
        what = "all archives of up to %d entries from %s, destinations %s" % (n, pool, inits)
        run.design("MCExtract", what, consts=dict(Inits=inits, MaxEntries=n), definitions=dict(Pool=pool),
                   invariants=["NothingOutside", "OutsideData", "LastThere", "Groups", "AllThere"], heap="8g")
        g = gen(run, pool, inits, n)
        run.harness(exe, ["extract-gen", g, tp, run.seed, judge])
        val(what + ", executed")
    run.harness(exe, ["extract-random", run.q(3000, 40000), tp, run.seed, judge])
    val("random archives and destinations, re-extraction, spellings of the destination, chunkings, package payloads")
