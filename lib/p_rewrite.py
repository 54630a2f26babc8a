"""C20 (failures while signing to files), C21 (signing to files)."""
import json, os, shutil
from vlib import build


def check(run):
    exe = run.path("vh")  # runs as nobody, from a place that nobody can get to
    shutil.copy(build(True), exe)
    os.chmod(exe, 0o755)
    tp = run.path("trace")
    run.design("MCRewrite", "every small file system, every step failing, the process killed after every step", spec="Spec",
               invariants=["Safe", "Contained", "Right", "Refused"], properties=["Ends"])
    st, out = run.tlc("GenRewrite", invariants=["Emit"])
    g = run.path("gen")
    with open(g, "w") as f:
        for l in sorted(set(json.dumps(x, sort_keys=True) for x in run.emitted(out))):
            f.write(l + "\n")
    os.chmod(g, 0o644)
    if run.pid == "C21":
        for k in range(run.q(12, 150)):
            run.harness(exe, ["rewrite", tp, "names", g, run.seed * 100 + k, 1])
            run.validate("TraceRewrite", tp, "every small file system with every name of the output, headers that fit and that do not, directories, "
                         "odd names, links of links, removed inputs, streams", consts=dict(Judge='"names"'))
        return
    run.design("MCSigners", "two processes signing to the same path or to different ones, in any interleaving, failing or killed at any step",
               consts=dict(SharedName="FALSE"), spec="Spec", invariants=["Whole", "Stays", "Mine", "Success", "Tidy", "Good"], properties=["Ends"])
    if not run.quick:
        run.mutant("MCSigners", "temporary files of the same name", consts=dict(SharedName="TRUE"), spec="Spec",
                   invariants=["Whole", "Stays", "Mine", "Success", "Tidy", "Good"], properties=["Ends"])
    for k in range(run.q(3, 20)):
        run.harness(exe, ["rewrite", tp, "faults", g, run.seed * 100 + k, 1])
        run.validate("TraceRewrite", tp, "every system call failing and the process killed before every system call, and limits on file sizes, for new "
                     "and existing outputs of all kinds", consts=dict(Judge='"faults"'))
