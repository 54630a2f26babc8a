"""C27 (extraction whose file operations fail)."""
from p_extract import executable

INV = ["Done", "Between", "Outside1", "Outside2"]


def check(run):
    exe = executable(run)
    tp = run.path("trace")
    pools = [("PoolAll", '{"missing", "inner", "hard", "links"}', 2), ("PoolHard", '{"empty", "hard"}', 3)]
    if not run.quick:
        pools += [("PoolLinks", '{"empty", "links", "inner", "full"}', 3)]
    for pool, inits, n in pools:
        run.design("MCExtractFault", "every call failing, and every moment of being killed, in archives of up to %d entries from %s, "
                   "destinations %s" % (n, pool, inits), consts=dict(Inits=inits, MaxEntries=n, Ignore="FALSE"),
                   definitions=dict(Pool=pool), invariants=INV, spec="Spec", heap="8g")
    if not run.quick:
        run.mutant("MCExtractFault", "failures to write and to close that are not noticed", spec="Spec",
                   consts=dict(Inits='{"empty"}', MaxEntries=2, Ignore="TRUE"), definitions=dict(Pool="PoolHard"), invariants=INV)
    run.harness(exe, ["xfault", run.q(160, 1200), tp, run.seed, run.q(4, 2)])
    run.validate("TraceExtractFault", tp, "archives extracted with each file operation failing, at each being killed, with limited "
                 "file sizes, without permissions", consts=dict(Judge='"inside"'), init="FInit", next_="FNext", heap="12g")
