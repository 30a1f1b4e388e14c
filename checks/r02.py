"""R02: released and reset objects are marked as released."""
from vlib import own

TECHNIQUE = "static analysis: ownership typestate over LLVM IR, marker-cleared obligation at every exit"
LEVEL = "other"
EXPLANATION = (
    "Every Reset function of a struct that has a private_data or data marker, and every function the library "
    "installs in a release slot, is interpreted over all paths (helpers followed into, loops to a fixpoint). "
    "At each exit the marker cell of the object passed in must be provably NULL; and in every C library function no marker cell "
    "reachable from the arguments may still hold a block that the function freed.")


def run(ctx):
    reports, counts = own.run_all()
    for k, (w, m) in reports.get("R02", {}).items():
        ctx.violation(k, w, m)
    ctx.note("release_entry_points", len(counts.get("release_entry_points", ())))
    for x in sorted(counts.get("release_entry_points", ())):
        ctx.sample(x)
    ctx.note("marker_exits", counts.get("marker_exits", 0))
    ctx.note("frees", len(counts["frees"]))
    ctx.note("functions", counts["functions"])
    ctx.require(len(counts.get("release_entry_points", ())) >= 10, "anchors vanished")
