"""P25: averaged ensembles."""
import numpy as np
import pandas as pd
from pyvallocation import PortfolioFrontier, PortfolioWrapper, average_frontiers, risk_percentile_selections
from pyvallocation.ensembles import average_exposures

from .. import gen
from ..core import scenario

SCN = []
ASSUMPTIONS = ["ensemble weights are non-negative with a positive sum", "sample columns and assets carry unique labels"]


def samples(rng, n=None, m=None):
    n, m = n or int(rng.integers(1, 8)), m or int(rng.integers(1, 12))
    W = rng.dirichlet(np.full(n, 1.0), m).T if rng.random() < .6 else rng.normal(0, 1, (n, m))
    return n, m, W


def ens_weights(rng, m):
    r = rng.random()
    a = rng.random(m) if r < .5 else rng.integers(0, 5, m).astype(float)
    if a.sum() == 0:
        a[0] = 2.0
    return a * float(rng.choice([1, 1, 10, .01]))


def make_frontier(rng, n, names, k=None):
    k = k or int(rng.integers(1, 8))
    W = rng.dirichlet(np.ones(n), k).T
    risks = rng.uniform(.01, .3, k)
    return PortfolioFrontier(weights=W, returns=np.sort(rng.normal(.05, .1, k)), risks=risks, risk_measure="Volatility",
                             asset_names=names, alternate_risks={"other": rng.uniform(.01, .3, k)} if rng.random() < .5 else {})


@scenario(SCN, 12000, need=["labelled weights", "unlabelled", "frame", "series sample"])
def exposures(cx):
    rng = cx.rng
    n, m, W = samples(rng)
    names = gen.labels(rng, n) if rng.random() < .7 else None
    ix = pd.Index(names, tupleize_cols=False) if names else None
    cols = [f"s{i}" for i in rng.permutation(m)]
    data = W if names is None else pd.DataFrame(W, index=ix, columns=cols)
    a = ens_weights(rng, m)
    wt, used = None, np.full(m, 1 / m)
    if m == 1 and names is not None and rng.random() < .5:
        data = pd.Series(W[:, 0], index=ix, name="only")
        cx.event("series sample")
    elif rng.random() < .75:
        used = a / a.sum()
        r = rng.random()
        if r < .4 and names is not None:
            o = rng.permutation(m)
            wt = pd.Series(a[o], index=[cols[i] for i in o])
            if rng.random() < .3:
                wt["elsewhere"] = 7.0
            cx.event("labelled weights")
        else:
            wt = a if r < .8 else a.tolist()
    cx.note(samples=data, weights=wt)
    cx.state(n, m, names is None, type(wt).__name__)
    got = average_exposures(data, wt) if wt is not None else average_exposures(data)
    want = np.zeros(n)
    for j in range(m):
        want += used[j] * W[:, j]
    g = np.asarray(got, float)
    cx.close(g, want, "an average is the weighted mean of its samples", rtol=1e-10, atol=1e-12)
    if names is not None:
        cx.check(isinstance(got, pd.Series) and list(got.index) == names, "an average keeps the asset labels")
        cx.event("frame")
    else:
        cx.check(isinstance(got, np.ndarray), "an average of arrays is an array")
        cx.event("unlabelled")
    lo, hi = W[:, used > 0].min(1), W[:, used > 0].max(1)
    cx.leq(lo, g, "an average stays within its samples", tol=1e-12)
    cx.leq(g, hi, "an average stays within its samples", tol=1e-12)
    c = rng.normal(size=n)
    v = c @ W
    cx.leq(c @ g, v[used > 0].max(), "an average keeps every shared linear limit", tol=1e-11)
    o = rng.permutation(m)
    if isinstance(data, pd.DataFrame):
        p = data.iloc[:, o]
        again = average_exposures(p, wt if isinstance(wt, pd.Series) or wt is None else a[o])
    elif isinstance(data, np.ndarray):
        again = average_exposures(W[:, o], None if wt is None else a[o])
    else:
        again = got
    cx.close(np.asarray(again), g, "sample order does not matter", rtol=1e-10, atol=1e-12)
    if wt is not None:
        k = float(rng.choice([3.0, .2]))
        cx.close(np.asarray(average_exposures(data, wt * k if not isinstance(wt, list) else [x * k for x in wt])), g, "ensemble weights are normalised", rtol=1e-10, atol=1e-12)
    one = np.zeros(m)
    j = int(rng.integers(m))
    one[j] = 5.0
    cx.close(np.asarray(average_exposures(data, one)), W[:, j], "all weight on one sample returns it", rtol=1e-13, atol=0)


@scenario(SCN, 5000, need=["selected column", "default column", "mixed entries"])
def frontiers(cx):
    rng = cx.rng
    n, f = int(rng.integers(2, 7)), int(rng.integers(1, 6))
    names = [str(x) for x in gen.strlabels(rng, n)] if rng.random() < .7 else None
    frs, sel, cols = [], [], []
    for _ in range(f):
        if rng.random() < .25:
            v = rng.dirichlet(np.ones(n))
            frs.append(pd.Series(v, index=names) if names and rng.random() < .7 else v)
            sel.append(None)
            cols.append(v)
            cx.event("mixed entries")
            continue
        fr = make_frontier(rng, n, names)
        frs.append(fr)
        if rng.random() < .6:
            j = int(rng.integers(fr.weights.shape[1]))
            s = [j] if rng.random() < .6 else ((j,) if rng.random() < .5 else np.array([j]))
            cx.event("selected column")
        else:
            j, s = int(np.argmin(fr.risks)), None
            cx.event("default column")
        sel.append(s)
        cols.append(fr.weights[:, j])
    W = np.column_stack(cols)
    a = ens_weights(rng, f) if rng.random() < .6 else None
    u = np.full(f, 1 / f) if a is None else a / a.sum()
    kw = {} if a is None else {"ensemble_weights": a}
    if any(s is not None for s in sel) or rng.random() < .5:
        kw["selections"] = sel
    cx.note(W=W, weights=a)
    cx.state(n, f, names is None, a is None)
    got = average_frontiers(frs, **kw)
    cx.close(np.asarray(got, float), W @ u, "averaging frontier points uses exactly the selected points", rtol=1e-10, atol=1e-12)
    cx.check(isinstance(got, pd.Series), "an averaged frontier is a series")
    if names and not all(isinstance(x, np.ndarray) for x in frs):
        cx.check(list(got.index) == names, "an averaged frontier keeps the labels")
    only = [x for x in frs if isinstance(x, PortfolioFrontier)]
    if only:
        pct = float(rng.choice([0, .25, .5, .8, 1.0, 30, 100]))
        lab = "other" if all("other" in x.alternate_risks for x in only) and rng.random() < .5 else None
        picks = risk_percentile_selections(only, pct, risk_label=lab)
        q = pct / 100 if pct > 1 else pct
        for x, p in zip(only, picks):
            r = x.risks if lab is None else x.alternate_risks[lab]
            k = len(r)
            rank = np.array([(r < r[i]).sum() for i in range(k)]) / max(k - 1, 1)
            cx.check(len(p) == 1 and abs(rank[p[0]] - q) <= np.abs(rank - q).min() + 1e-9, "a risk percentile selects the point of nearest rank", rank=rank, pick=p, q=q)
        cx.close(np.asarray(average_frontiers(only, picks)), np.mean([x.weights[:, p[0]] for x, p in zip(only, picks)], 0), "percentile selections average the selected points", rtol=1e-10, atol=1e-12)


@scenario(SCN, 250, thorough=2500, need=["constraints kept"])
def feasible(cx):
    """Averages of optimised portfolios keep the constraints those portfolios share."""
    rng = cx.rng
    n = int(rng.integers(2, 6))
    spec, anchor, kind = gen.spec(rng, n)
    rows = gen.rows_of(spec, n)
    frs = []
    for _ in range(3):
        _, mu, S = gen.moments(rng, n)
        try:
            frs.append(PortfolioWrapper.from_moments(mu, S, constraints=spec).variance_frontier(4))
        except RuntimeError:
            cx.stop("solver")
    cx.note(spec=spec)
    cx.state(n, kind)
    sel = [[int(rng.integers(f.weights.shape[1]))] for f in frs]
    w = np.asarray(average_frontiers(frs, sel, ensemble_weights=rng.random(3) + .01))
    from ..use import feasible as ok
    ok(cx, rows, w, "an averaged ensemble", tol=1e-5)
    cx.event("constraints kept")


@scenario(SCN, 800, need=["raised:ValueError"])
def malformed(cx):
    rng = cx.rng
    n, m, W = samples(rng, int(rng.integers(2, 6)), int(rng.integers(2, 6)))
    V = (ValueError,)
    df = pd.DataFrame(W, columns=[f"s{i}" for i in range(m)])
    cx.state(n, m)
    cx.raises(lambda: average_exposures(W, np.ones(m + 1)), "weights of the wrong length are rejected", types=V)
    cx.raises(lambda: average_exposures(W, np.zeros(m)), "weights without a positive sum are rejected", types=V)
    cx.raises(lambda: average_exposures(W, -np.ones(m)), "weights without a positive sum are rejected", types=V)
    bad = np.ones(m)
    bad[int(rng.integers(m))] = float(rng.choice([np.nan, np.inf]))
    cx.raises(lambda: average_exposures(W, bad), "non-finite weights are rejected", types=V)
    cx.raises(lambda: average_exposures(df, pd.Series(np.ones(m), index=["x"] + list(df.columns[1:]))), "unknown sample labels are rejected", types=V)
    Z = W.copy()
    Z[int(rng.integers(n)), int(rng.integers(m))] = float(rng.choice([np.nan, np.inf]))
    cx.raises(lambda: average_exposures(Z), "non-finite samples are rejected", types=V)
    cx.raises(lambda: average_exposures(np.zeros((n, 0))), "no samples is rejected", types=V)
    names = [str(x) for x in gen.strlabels(rng, n)]
    a, b = make_frontier(rng, n, names), make_frontier(rng, n, names[::-1])
    cx.raises(lambda: average_frontiers([a, b]), "portfolios in different asset orders are not mixed", types=V)
    cx.raises(lambda: average_frontiers([]), "no portfolios is rejected", types=V)
    cx.raises(lambda: average_frontiers([a], [[0], [0]]), "selections must match the portfolios", types=V)
    if a.weights.shape[1] > 1:
        cx.raises(lambda: average_frontiers([a], [[0, 1]]), "one point per frontier", types=V)
    cx.raises(lambda: average_frontiers([a], [[a.weights.shape[1] + 2]]), "an unknown point is rejected", types=(IndexError, ValueError))
