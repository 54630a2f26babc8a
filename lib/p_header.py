"""C09 (hostile headers), C10 (accessors), C11 (file records), C12 (identity and sizes), C13 (positions)."""
import json
from vlib import build


def entries(run, n):
    run.design("MCHeader", "every index entry over data areas of up to %d bytes of three values" % n, init="EInit", next_="ENext",
               consts=dict(MaxLen=n, Vals="{0, 1, 255}", MaxN=1, MaxL=1), invariants=["Within", "Filled", "Needed", "Agree"], heap="8g")


def gen(run, n):
    st, out = run.tlc("GenHeader", consts=dict(MaxLen=n), invariants=["Emit"], heap="8g")
    g = run.path("gen")
    with open(g, "w") as f:
        for l in sorted(set(json.dumps(x, sort_keys=True) for x in run.emitted(out))):
            f.write(l + "\n")
    return g


def check(run):
    exe = build(True)
    tp = run.path("trace")
    if run.pid in ("C09", "C10"):
        judge = dict(Judge='"safe"' if run.pid == "C09" else '"exact"')
        entries(run, run.q(3, 4))
        g = gen(run, run.q(8, 10))
        run.harness(exe, ["header-gen", g, tp, run.seed])
        run.validate("TraceHeader", tp, "every index entry over patterned data areas, in both headers", consts=judge)
        if run.pid == "C10":
            run.harness(exe, ["header-random", run.seed, run.q(3000, 40000), tp])
            run.validate("TraceHeader", tp, "random well-formed headers with tags of every type in both areas", consts=judge)
            run.harness(build(arch="386"), ["header-random", run.seed + 1000, run.q(1000, 10000), tp])
            run.validate("TraceHeader", tp, "such headers, read by a 32-bit program", consts=judge)
            run.harness(exe, ["header-huge", run.seed, run.q(16, 64), tp])
            run.validate("TraceHeader", tp, "headers with tags of up to 75000 values", consts=judge, heap="12g")
        else:
            run.harness(exe, ["header-hostile", run.seed, run.q(20000, 120000), tp])
            run.validate("TraceHeader", tp, "mutated headers of packages, read in three ways", consts=judge, heap="12g")
            run.harness(exe, ["header-endless-all", tp])
            run.validate("TraceHeader", tp, "headers that claim every size, on streams that never end", consts=judge)
            e = build(arch="386")
            run.harness(e, ["header-hostile", run.seed + 1000, run.q(6000, 40000), tp])
            run.validate("TraceHeader", tp, "mutated headers, read by a 32-bit program", consts=judge, heap="12g")
            run.harness(e, ["header-endless-all", tp])
            run.validate("TraceHeader", tp, "headers that claim every size, read by a 32-bit program", consts=judge)
    elif run.pid in ("C11", "C12"):
        judge = dict(Judge='"files"' if run.pid == "C11" else '"identity"')
        run.design("MCRecords", "packages of up to %d files, whole and with a value missing in any of the tags" % run.q(2, 3), init="RInit",
                   next_="RNext", consts=dict(N=run.q(2, 3)), invariants=["AllInArea", "RoundTrip"])
        run.harness(exe, ["records", run.seed, run.q(12000, 150000), tp])
        run.validate("TraceRecords", tp, "packages of up to 30 files with every tag missing, shortened, lengthened or of another type",
                     consts=judge, heap="12g")
        if run.pid == "C12":
            run.harness(build(arch="386"), ["records", run.seed + 1000, run.q(3000, 30000), tp])
            run.validate("TraceRecords", tp, "such packages, read by a 32-bit program", consts=judge, heap="12g")
    else:
        run.design("MCHeader", "all header sizes up to 2 entries and 9 bytes, cut at every place", init="RInit", next_="RNext",
                   consts=dict(MaxLen=0, Vals="{0}", MaxN=2, MaxL=9), invariants=["AtPayload", "Verdict"])
        run.harness(exe, ["offsets", run.seed, run.q(7000, 40000), tp])
        run.validate("TraceOffsets", tp, "all header sizes modulo eight, random sizes up to 65535 entries and 1 MiB, chunked and cut")
        run.harness(build(arch="386"), ["offsets", run.seed + 1000, run.q(5000, 20000), tp])
        run.validate("TraceOffsets", tp, "such headers, read by a 32-bit program")
