"""P13: scenario probabilities are valid and follow their weighting scheme."""
import math

import numpy as np
import pandas as pd
import pyvallocation.probabilities as pr

from .. import gen
from ..core import scenario

SCN = []
ASSUMPTIONS = ["vectors whose sum is within 1e-5 of one are accepted as normalised, as the library documents by its tolerance"]


def valid(cx, p, T, what):
    p = np.asarray(p)
    cx.check(p.shape == (T,), f"{what} has one probability per scenario", shape=p.shape, T=T)
    cx.check(np.isfinite(p).all() and (p >= 0).all(), f"{what} is non-negative and finite", p=p)
    cx.close(p.sum(), 1.0, f"{what} sums to one", rtol=0, atol=1e-12)
    return p


@scenario(SCN, 7500, need=["extreme half life", "far target"])
def generators(cx):
    rng = cx.rng
    T = int(rng.choice([1, 2, 5, 60, 500, 1500]))
    p = valid(cx, pr.generate_uniform_probabilities(T), T, "uniform")
    cx.close(p, np.full(T, 1 / T), "uniform weights are equal", rtol=1e-14)
    hl = float(rng.choice([1, 3, 10.5, T / 2 + .1, T, 10 * T, 1e-3, 0.2, 1e6]))
    if hl == 1e-3:
        cx.event("extreme half life")
    p = valid(cx, pr.generate_exp_decay_probabilities(T, hl if rng.random() < .5 or hl != int(hl) else int(hl)), T, "decay")
    cx.note(T=T, half_life=hl)
    cx.state(T, hl)
    cx.check((np.diff(p) >= 0).all(), "decay favours the latest observation")
    for i in rng.integers(0, T, 5):
        j = int(rng.integers(0, T))
        if p[i] > 1e-250 and p[j] > 1e-250:
            cx.close(math.log2(p[j] / p[i]), (j - i) / hl, "decay halves every half-life towards the past", rtol=1e-8, atol=1e-8)
    # kernel
    if T < 2:
        return
    x = rng.normal(0, float(rng.choice([0.01, 1, 30])), T) + float(rng.choice([0, 15]))
    if rng.random() < 0.3:
        x = np.round(x, 1)
    if x.std() == 0:
        cx.stop("degenerate")
    h = None if rng.random() < 0.5 else float(x.std(ddof=1) * rng.choice([0.05, 0.3, 2, 50]))
    t = None if rng.random() < 0.3 else float(rng.choice(x)) if rng.random() < .5 else float(x.mean() + x.std() * rng.normal(0, 3))
    v = None if rng.random() < 0.7 else x.mean() + x.std() * rng.normal(0, 1.5, int(rng.integers(1, 40)))
    kw = {k: a for k, a in (("v", v), ("h", h), ("x_T", t)) if a is not None}
    bw = h if h is not None else 1.06 * math.sqrt(((x - x.mean()) ** 2).sum() / (T - 1)) * T ** (-0.2)
    if h is None:
        cx.close(pr.silverman_bandwidth(x), bw, "bandwidth follows the rule of thumb", rtol=1e-10)
    z = (x if v is None else v)
    t0 = x[-1] if t is None else t
    e = -((z - t0) ** 2) / (2 * bw * bw)
    cx.note(x=x, **kw)
    cx.state("kernel", h is None, t is None, v is None)
    if e.max() < -700:
        cx.event("far target")
        if e.max() < -750:
            cx.raises(lambda: pr.generate_gaussian_kernel_probabilities(x, **kw), "kernel without any weight raises", types=(ValueError,))
        return
    xs = pd.Series(x, index=pd.RangeIndex(T)) if rng.random() < 0.2 else x
    q = valid(cx, pr.generate_gaussian_kernel_probabilities(xs, **kw), len(z), "kernel")
    w = np.exp(e - e.max())
    if e.max() > -600:
        cx.close(q, w / w.sum(), "kernel weights are gaussian in the distance to the target", rtol=1e-8, atol=1e-11)
    o = rng.permutation(len(z))
    q2 = pr.generate_gaussian_kernel_probabilities(x, v=z[o], h=bw, x_T=t0)
    cx.close(q2, q[o], "kernel weight follows its scenario", rtol=1e-9, atol=1e-11)
    q3 = pr.generate_gaussian_kernel_probabilities(x, v=2 * t0 - z, h=bw, x_T=t0)
    cx.close(q3, q, "kernel depends on the distance only", rtol=1e-6, atol=1e-11)


@scenario(SCN, 50)
def far_targets(cx):
    rng = cx.rng
    x = rng.normal(size=20)
    cx.state("far")
    cx.event("far target")
    cx.raises(lambda: pr.generate_gaussian_kernel_probabilities(x, x_T=1e4), "kernel without any weight raises", types=(ValueError,))
    cx.raises(lambda: pr.generate_gaussian_kernel_probabilities(np.full(9, 3.0)), "kernel on constant data raises", types=(ValueError,))
    y = x.copy()
    y[int(rng.integers(20))] = np.nan
    cx.raises(lambda: pr.generate_gaussian_kernel_probabilities(y), "kernel on missing data raises", types=(ValueError,))
    for h in (0.0, -1.0, np.nan):
        cx.raises(lambda: pr.generate_gaussian_kernel_probabilities(x, h=h), "invalid bandwidth raises", types=(ValueError,))
    for n in (0, -3):
        cx.raises(lambda: pr.generate_uniform_probabilities(n), "no observations raises", types=(ValueError,))
    for hl in (0, -1, -0.5, np.nan):
        cx.raises(lambda: pr.generate_exp_decay_probabilities(10, hl), "invalid half-life raises", types=(ValueError,))


@scenario(SCN, 7500, need=["concentrated"])
def effective_number(cx):
    rng = cx.rng
    T = int(rng.choice([1, 2, 3, 10, 100, 1000]))
    p = gen.probs(rng, T)
    if rng.random() < 0.15:
        p = np.zeros(T)
        p[int(rng.integers(T))] = 1.0
        cx.event("concentrated")
    cx.note(p=p)
    pg = p[:, None] if rng.random() < 0.2 else p if rng.random() < .7 else pd.Series(p)
    e = pr.compute_effective_number_scenarios(pg)
    hh = pr.compute_effective_number_scenarios_hhi(pg)
    cx.state(T, round(e / T, 1))
    want = math.exp(-sum(q * math.log(q) for q in p.tolist() if q > 0))
    cx.close(e, want, "effective number is the exponential entropy", rtol=1e-9)
    cx.close(hh, 1 / sum(q * q for q in p.tolist()), "concentration index is the inverse sum of squares", rtol=1e-9)
    for x, nm in ((e, "entropy"), (hh, "index")):
        cx.leq(1 - 1e-9, x, f"{nm} effective number is at least one", tol=0)
        cx.leq(x, T * (1 + 1e-9), f"{nm} effective number is at most the number of scenarios", tol=0)
        if np.abs(p - 1 / T).max() > 1e-3 / T:
            cx.check(x < T * (1 - 1e-10), f"{nm} effective number equals T only for uniform weights", x=x, T=T)
    cx.leq(hh, e * (1 + 1e-9), "index never exceeds the entropy number", tol=0)
    o = rng.permutation(T)
    cx.close(pr.compute_effective_number_scenarios(p[o]), e, "effective number ignores the order", rtol=1e-9)
    cx.close(pr.compute_effective_number_scenarios(np.append(p, [0.0, 0.0])), e, "impossible scenarios do not count", rtol=1e-12)
    cx.close(pr.compute_effective_number_scenarios(np.repeat(p / 2, 2)), 2 * e, "splitting every scenario doubles the number", rtol=1e-9)


@scenario(SCN, 7500, need=["rejected"])
def validation(cx):
    rng = cx.rng
    T = int(rng.choice([1, 2, 5, 40]))
    p = gen.probs(rng, T) * (gen.mass(rng) if rng.random() < .5 else float(rng.choice([1.0, 1e-3, 1e6])))
    form = int(rng.integers(4))
    g = [p, p.tolist(), pd.Series(p, index=range(T)), p[:, None]][form]
    cx.note(p=p)
    q = np.asarray(pr.normalize_probability_vector(g))
    cx.check((q >= 0).all(), "normalised vector is non-negative")
    cx.close(q.sum(), 1.0, "normalised vector sums to one", rtol=0, atol=2e-5)
    cx.close(q, p / p.sum(), "normalisation keeps the proportions", rtol=2e-5, atol=0)
    q2 = np.asarray(pr.resolve_probabilities(g, T))
    cx.close(q2, q, "resolved vector is the normalised one", rtol=0, atol=0)
    cx.close(pr.resolve_probabilities(None, T), np.full(T, 1 / T), "no vector means equal weights", rtol=1e-14)
    for k in (T + 1, max(T - 1, 0)):
        cx.raises(lambda: pr.resolve_probabilities(g, k), "length mismatch raises", types=(ValueError,))
    kind = str(rng.choice(["nan", "inf", "neg", "zero", "empty", "-inf"]))
    cx.state(T, form, kind)
    bad = p.copy()
    i = int(rng.integers(T))
    bad[i] = {"nan": np.nan, "inf": np.inf, "neg": -float(rng.choice([1e-12, 1e-3, 0.5])), "-inf": -np.inf}.get(kind, bad[i])
    if kind == "zero":
        bad[:] = 0
    if kind == "empty":
        bad = bad[:0]
    for fn in (pr.normalize_probability_vector, lambda v: pr.resolve_probabilities(v, len(v))):
        cx.raises(lambda: fn(bad), "invalid vectors are rejected", types=(ValueError,), bad=bad)
    cx.event("rejected")
    z = p.copy()
    z[i] = 0.0
    cx.raises(lambda: pr.normalize_probability_vector(z, strictly_positive=True), "zero rejected when strictly positive", types=(ValueError,))
