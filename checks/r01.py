"""R01: no path leaks or doubly frees what an operation acquired."""
from vlib import own

TECHNIQUE = "static analysis: ownership typestate over LLVM IR with inferred acquire/release summaries"
LEVEL = "other"
EXPLANATION = (
    "Every C library function that allocates, frees, initialises or releases anything is interpreted over "
    "all paths (each fallible step both succeeding and failing, static helpers followed into). Blocks, "
    "arrays, schemas, buffers, bitmaps and nested readers/writers carry an owned/released typestate; which "
    "parameter a callee fills or releases is inferred bottom-up from its body. Obligations at every exit and "
    "free: no local left owned, no block unreachable or (on failure) unfreed, no output left holding "
    "resources by a failing call, no owned member inside a freed block, no double release, no use after "
    "free, no initialiser run over a possibly live object.")


def run(ctx):
    reports, counts = own.run_all()
    for k, (w, m) in reports.get("R01", {}).items():
        ctx.violation(k, w, m)
    for k in ("acquire_sites", "release_sites", "frees"):
        ctx.note(k, len(counts[k]))
    ctx.note("exits_checked", counts["exits"])
    ctx.note("functions", counts["functions"])
    ctx.note("followed_helpers", counts["inlined"])
    ctx.note("owned_types", counts["owned_types"])
    ctx.require(len(counts["acquire_sites"]) >= 20 and len(counts["release_sites"]) >= 20, "anchors vanished")
