"""C04 (reader exactness), (cut-off archives), C06 (stripped archives)."""
import json
from vlib import build

ALLPAT = '{"skip", "all", "one", "bytes", "over", "zero"}'


def gen(run, nlens, sizes, strips, n, pats, cuts):
    st, out = run.tlc("GenCpio", init="GInit", next_="GNext", invariants=["Emit"],
                      consts=dict(NLens=nlens, Sizes=sizes, StripSizes=strips, MaxEntries=n, Patterns=pats,
                                  WithCuts="TRUE" if cuts else "FALSE"), heap="6g")
    p = run.path("gen")
    seen = set()
    with open(p, "w") as f:
        for g in sorted(run.emitted(out), key=lambda g: json.dumps(g, sort_keys=True)):
            l = json.dumps(g)
            if l not in seen:
                seen.add(l)
                f.write(l + "\n")
    return p, len(seen)


def design(run):
    run.design("MCCpio", "reader state machine: positions, contents, cuts, ends; all archives of <=2 entries from the pool, "
               "all cuts near a boundary, all consumers",
               consts=dict(NLens="{2, 3, 5}", Sizes="{0, 1, 5}", StripSizes="{0, 3}", MaxEntries=2) if run.quick else
               dict(NLens="{2, 3, 4, 5}", Sizes="{0, 1, 4, 5}", StripSizes="{0, 1, 3}", MaxEntries=2),
               invariants=["InFile", "OnEntry", "NotInvented", "EndIsEnd", "NextDefined", "CutNeverComplete",
                           "NoFalseError"], properties=["InOrder"], heap="8g")


def check(run):
    exe = build(True)
    design(run)
    tp = run.path("trace")

    def val(what):
        run.validate("TraceCpio", tp, what, heap="12g")
    if run.pid == "C04":
        g, n = gen(run, "{1, 2, 3, 4, 5}", run.q("{0, 1, 3, 4}", "{0, 1, 2, 3, 4, 5}"), "{}", 2, run.q(
            '{"skip", "all", "one", "over"}', ALLPAT), False)
        run.harness(exe, ["cpio-gen", g, tp, run.seed, "whole"])
        val("archives of up to two entries with every consumer pattern per entry")
        run.harness(exe, ["cpio-random", run.seed, run.q(3000, 20000), tp, "newc"])
        val("random archives (up to 40 entries, 4 GiB) with random consumers and chunkings")
    elif run.pid == "C06":
        g, n = gen(run, "{2}", "{0, 5}", run.q("{0, 1, 3, 4}", "{0, 1, 2, 3, 4, 5}"), 2, run.q(
            '{"skip", "all", "one", "over"}', ALLPAT), False)
        run.harness(exe, ["cpio-gen", g, tp, run.seed, "whole"])
        val("stripped and mixed archives of up to two entries with every consumer pattern per entry")
        run.harness(exe, ["cpio-random", run.seed, run.q(1500, 20000), tp, "strip"])
        val("random stripped archives (sizes beyond 4 GiB, missing sizes) with random consumers")
        run.harness(exe, ["cpio-nosizes", run.seed, tp])
        val("stripped archives read without sizes")
    else:
        g, n = gen(run, "{2, 3, 5}", "{0, 1, 4}", "{}", 2, '{"skip", "all", "bytes"}', True)
        run.harness(exe, ["cpio-gen", g, tp, run.seed, "cuts"])
        val("archives of up to two entries, cuts around every boundary, every consumer pattern")
        g, n = gen(run, run.q("{3}", "{2, 3, 4, 5}"), run.q("{0, 3}", "{0, 3}"), run.q("{}", "{3}"), run.q(2, 2),
                   '{"skip", "all"}', False)
        run.harness(exe, ["cpio-gen", g, tp, run.seed, "allcuts"])
        val("archives of up to two entries cut at every byte")
        run.harness(exe, ["cpio-random", run.seed, run.q(700, 8000), tp, "cut"])
        val("random archives cut at random positions, random consumers and chunkings")
        run.harness(exe, ["payload-cuts", run.seed, run.q(600, 6000), tp])
        val("packages whose decompressed payload is cut, both payload readers, all compressors")
    run.notes += ["the position arithmetic is checked for contents of up to 4 GiB + 8 KiB that are generated on the fly",
                  "the harness compares contents longer than 48 bytes with their generator itself"]


