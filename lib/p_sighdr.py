"""C14 (written signature headers), C22 (signing changes nothing else)."""
from vlib import build


def check(run):
    exe = build(True)
    tp = run.path("trace")
    run.design("MCSigHeader", "every set of tags of 11, original sizes around the fit, written, signed and read again in every order",
               consts=dict(Depth=run.q(1, 3), Slack=3), invariants=["Good", "Sizes", "Smallest"])
    if run.pid == "C14":
        run.harness(exe, ["sighdr", run.seed, run.q(6000, 60000), tp])
        run.validate("TraceSigHeader", tp, "random signature headers written with either option, signed and read again in any order", heap="12g")
    else:
        run.harness(exe, ["signbytes", run.seed, run.q(2500, 20000), tp])
        run.validate("TraceSigHeader", tp, "packages signed in every way, several times, with RSA, ECDSA and EdDSA keys", heap="12g")
