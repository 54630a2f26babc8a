"""C26: several users at the same time."""
import glob, json, os, re
from vlib import build


def race(run, exe, n, tp):
    """Lets users run at the same time under the race detector; a race of accesses made by the
    library is an event that no action allows."""
    d = run.path("races")
    os.mkdir(d)
    os.chmod(d, 0o777)
    run.harness(build(race=True), ["interleave", "-", tp, n, run.seed + 7],
                env={"GORACE": "halt_on_error=0 exitcode=0 log_path=%s/r" % d, "VH_ALONE": exe})
    for p in glob.glob(d + "/*"):
        for rep in open(p, errors="replace").read().split("=================="):
            for acc in re.findall(r"(?:[Ww]rite|[Rr]ead) at 0x.*\n((?:  .*\n)+)", rep):
                # the innermost function that is not of the standard library
                own = [f for f in re.findall(r"^  (\S+)\(.*\n", acc, re.M) if "." in f.split("/")[0] or f.startswith("main.")]
                if own and own[0].startswith("github.com/sassoftware/go-rpmutils"):
                    run.violation("data race", dict(scenario=dict(race=rep[:6000]), event=None))


def check(run):
    for users, calls, pieces in [(2, 3, 2), (3, 2, 2)] + ([] if run.quick else [(3, 2, 3), (4, 2, 1)]):
        run.design("MCInterleave", "all schedules of %d users making %d calls of %d reads" % (users, calls, pieces), spec="Spec",
                   consts=dict(Users=users, Calls=calls, Pieces=pieces, Where='"own"'), properties=["AsAlone"], heap="8g")
    if not run.quick:
        for where in ("buffer", "memo"):
            run.mutant("MCInterleave", "a library whose calls share a " + where, spec="Spec",
                       consts=dict(Users=2, Calls=3, Pieces=2, Where='"%s"' % where), properties=["AsAlone"])
    gp = run.path("gen")
    n = 0
    with open(gp, "w") as f:
        for users, turns in [(2, run.q(5, 6)), (3, run.q(2, 3)), (4, 1), (4, run.q(1, 2))]:
            out = run.design("GenInterleave", "schedules of %d users with %d turns" % (users, turns),
                             consts=dict(Users=users, Turns=turns), invariants=["Emit"], deadlock=False)
            for s in run.emitted(out):
                f.write(json.dumps(s) + "\n")
                n += 1
    exe = build(True)
    tp = run.path("trace")
    for k in range(run.q(2, 8)):
        run.harness(exe, ["interleave", gp, tp, 0, run.seed + 1000 * k])
        run.validate("TraceInterleave", tp, "users taking turns (%d schedules)" % n, heap="8g")
    run.harness(exe, ["interleave", "-", tp, run.q(600, 6000), run.seed])
    run.validate("TraceInterleave", tp, "users at the same time", heap="8g")
    race(run, exe, run.q(60, 600), tp)
    run.validate("TraceInterleave", tp, "users at the same time, under the race detector", heap="8g")
