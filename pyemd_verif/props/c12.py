"""C12 - EMD against the reference implementation."""
from hypothesis import strategies as st

from .. import gen, ref
from ..common import build, decompose, describe, emd_cases, gap, make, safe_limit, same
from ..core import Prop, Sub, require


def check(case, rec):
    S, T = build(case)
    cfg = case["cfg"]
    lim = safe_limit(S, cfg, case["max_imf"], cap=5)
    if cfg.get("extrema_detection") == "parabol" and (lim <= 0 or lim > 3):
        lim = 3
    try:
        want = ref.stable_emd(S, T, lim, cfg)
    except ref.Degenerate as e:
        rec.skip(str(e))
    rec.bounded()
    rows, imfs, residue = decompose(make(cfg), S, T, lim)
    describe(rec, case, imfs)
    rec.label("detection:" + cfg.get("extrema_detection", "simple"))
    rec.mark(len(want["imfs"]) >= 1)
    require(len(imfs) == len(want["imfs"]), "{} IMFs instead of {}", len(imfs), len(want["imfs"]))
    for k, (a, b) in enumerate(zip(imfs, want["imfs"])):
        require(same(a, b, want["tol"]), "IMF {} differs from the reference by {} (tolerance {:.3g})", k + 1, gap(a, b), want["tol"])
    require(same(residue, want["residue"], want["tol"] * (1 + len(imfs))), "residue differs from the reference by {}", gap(residue, want["residue"]))


PROP = Prop(
    "C12",
    "well-conditioned and with at least one IMF",
    [
        Sub("simple", emd_cases(4, 150, amps=[1.0, 1.0, 1.0, 20.0, 0.05], timeline=True), check, quick=3000),
        Sub("parabol", emd_cases(8, 80, detection=("parabol",), osc=True, amps=[1.0, 1.0, 20.0, 0.05]), check, quick=700),
        Sub("long", emd_cases(sig=gen.long_signals(400, 3000), modes=("fixe", "fixe", "default", "fixe_h"), maxit=False, amps=[1.0, 20.0], limits=st.sampled_from([1, 1, 2])), check, quick=240),
        Sub("short", st.builds(lambda s, c, k: {"S": s, "cfg": c, "max_imf": k}, gen.raw_signals(5, 20), gen.configs(), gen.max_imfs), check, quick=2500),
    ],
)
