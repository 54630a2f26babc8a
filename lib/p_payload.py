"""C07 (pairing of payload entries and file records), C08 (compression)."""
import json, os, shutil
from vlib import build


def check(run):
    exe = build(True)
    tp = run.path("trace")
    if run.pid == "C07":
        n = run.q(2, 3)
        run.design("MCPayload", "all lists of up to %d files with link groups, all payload orders, unknown entries" % n,
                   consts=dict(MaxFiles=n), invariants=["Total", "WF", "OneHolder", "Complete"], heap="8g")
        st, out = run.tlc("GenPayload", init="GInit", next_="GNext", consts=dict(MaxFiles=3), invariants=["Emit"], heap="8g")
        g = run.path("gen")
        with open(g, "w") as f:
            for l in sorted(set(json.dumps(x, sort_keys=True) for x in run.emitted(out))):
                f.write(l + "\n")
        run.harness(exe, ["payload-gen", g, tp, run.seed])
        run.validate("TracePayload", tp, "all lists of up to three files over devices, inodes and sizes, in every payload order")
        run.harness(exe, ["payload-random", run.seed, run.q(2500, 30000), tp])
        run.validate("TracePayload", tp, "random packages of up to 90 files, link groups, ghosts, unknown entries, sizes beyond 4 GiB")
        run.harness(exe, ["payload-huge", run.seed, run.q(3, 12), tp])
        run.validate("TracePayload", tp, "packages of more than 65535 files", heap="12g")
    else:
        run.design("MCCompress", "every payload format, compressor name, encoding, reader and ending", spec="Spec",
                   invariants=["Quiet", "AllDelivered", "NeverRefused"], properties=["Ends"])
        st, out = run.tlc("MCCompress", init="GInit", next_="GNext", invariants=["Emit"])
        g = run.path("gen")
        with open(g, "w") as f:
            for l in sorted(set(json.dumps(x, sort_keys=True) for x in run.emitted(out))):
                f.write(l + "\n")
        for cgo in (True, False):
            e = run.path("vh")
            shutil.copy(build(cgo), e)
            os.chmod(e, 0o755)
            how = "with" if cgo else "without"
            run.harness(e, ["compress", g, tp, run.seed, run.q(3, 24), "-"])
            run.validate("TraceCompress", tp, "packages of every configuration, built %s cgo" % how)
            run.harness(e, ["compress", g, tp, run.seed, 1, "zstd-frames"])
            run.validate("TraceCompress", tp, "zstd payloads of two frames, built %s cgo" % how,
                         known=("zstd-frames-cgo", frames) if cgo else None)


def frames(data):
    """The reading was rejected because it reported an error, which is what is known."""
    e = data["scenario"]["runs"][int(data["vars"]["r"]) - 1]["ev"][data["event"] - 1]
    return e["res"] == "err"
