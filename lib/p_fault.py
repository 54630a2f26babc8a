"""C25: streams that fail."""
from vlib import build


def check(run):
    run.design("MCRetry", "all archives of up to %d entries, failing anywhere and any number of times" % run.q(3, 4), spec="MSpec",
               consts=dict(MaxEntries=run.q(3, 4), MaxSize=3, H=3, P=2, Guard="TRUE"),
               invariants=["NeverWrong", "Exact", "EndIsEnd", "NotLost"], properties=["Contract"], deadlock=False, heap="8g")
    run.design("MCFault", "all operations on up to %d bytes read in pieces, every failure" % run.q(6, 8), spec="Spec",
               consts=dict(N=run.q(6, 8), Careless="FALSE"), invariants=["Allowed"], properties=["Ends"], deadlock=False, heap="8g")
    if not run.quick:
        run.mutant("MCRetry", "a reader that does not notice that it stopped inside a piece", spec="MSpec",
                   consts=dict(MaxEntries=2, MaxSize=3, H=3, P=2, Guard="FALSE"),
                   invariants=["NeverWrong", "Exact", "EndIsEnd", "NotLost"], properties=["Contract"], deadlock=False)
        run.mutant("MCFault", "a piece that stops short for a failure counts as read", spec="Spec",
                   consts=dict(N=6, Careless="TRUE"), invariants=["Allowed"], properties=["Ends"], deadlock=False)
    exe = build(True)
    tp = run.path("trace")
    for k in range(run.q(1, 4)):
        seed = run.seed + 1000 * k
        run.harness(exe, ["retry", seed, run.q(1500, 3000), tp])
        run.validate("TraceRetry", tp, "archives and payloads on failing streams, read on after errors", heap="8g")
        run.harness(exe, ["fault-read", seed, run.q(1500, 5000), tp])
        run.validate("TraceFault", tp, "headers, verification and signing on failing streams", heap="8g")
        run.harness(exe, ["fault-extract", run.q(300, 800), tp, seed])
        run.validate("TraceFault", tp, "extraction from failing streams", heap="8g")
