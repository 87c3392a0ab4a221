"""P26: exposure stacking solves its cross-validation problem."""
import numpy as np
import pandas as pd
from pyvallocation import PortfolioFrontier, PortfolioWrapper, exposure_stack_frontiers, stack_portfolios
from pyvallocation.ensembles import exposure_stacking
from scipy.optimize import nnls

from .. import gen
from ..core import scenario
from ..use import solve
from .p25 import make_frontier, samples

SCN = []
ASSUMPTIONS = ["folds are contiguous blocks of M // L samples in the given order, the last block takes the remainder",
               "the loss of a fold is the squared distance between the combination of the samples outside the fold "
               "(their weights as they stand, not rescaled) and the plain mean of the samples in the fold",
               "the stacked exposures are unique for L >= 2 because the fold combinations sum to (L-1) times them; "
               "they are compared within the accuracy CVXOPT's stopping rule guarantees"]


def folds(m, L):
    k = m // L
    return [range(i * k, (i + 1) * k) for i in range(L - 1)] + [range((L - 1) * k, m)]


def system(W, L):
    """Stacked least squares: |A w - y|^2 is the cross-validation loss."""
    n, m = W.shape
    A, y = [], []
    for f in folds(m, L):
        B = W.copy()
        B[:, list(f)] = 0.0
        A.append(B)
        y.append(W[:, list(f)].mean(1))
    return np.vstack(A), np.concatenate(y)


def optimum(cx, W, L):
    A, y = system(W, L)
    m = W.shape[1]
    sc = max(1.0, np.abs(A).max())
    K = 1e4 * sc
    best, gap = None, np.inf
    w = np.full(m, 1 / m)
    for K in (1e4 * sc, 1e3 * sc, 1e5 * sc):
        try:
            v, _ = nnls(np.vstack([A, np.full((1, m), K)]), np.append(y, K), maxiter=50 * m + 200)
        except RuntimeError:
            continue
        if v.sum() <= 0:
            continue
        w = v / v.sum()
        # polish on the active set
        S = w > 1e-9
        k = S.sum()
        AS = A[:, S]
        kkt = np.block([[AS.T @ AS, np.ones((k, 1))], [np.ones((1, k)), np.zeros((1, 1))]])
        try:
            z = np.linalg.lstsq(kkt, np.append(AS.T @ y, 1.0), rcond=1e-13)[0][:k]
            if z.min() > -1e-12:
                w2 = np.zeros(m)
                w2[S] = np.maximum(z, 0)
                w2 /= w2.sum()
            else:
                w2 = w
        except np.linalg.LinAlgError:
            w2 = w
        for c in (w, w2):
            g = 2 * A.T @ (A @ c - y)
            q = g @ c - g.min()
            if q < gap:
                best, gap = c, q
    return best, gap, A, y


def judge(cx, W, L, got, opts=None, label="stack"):
    """The returned exposures against the certified optimum."""
    n, m = W.shape
    w, gap, A, y = optimum(cx, W, L)
    if w is None:
        cx.stop("oracle")
    f = np.sum((A @ w - y) ** 2)
    pcost = abs(f - y @ y)
    o = opts or {}
    sc = max(1.0, np.abs(W).max()) ** 2
    tol = max(o.get("abstol", 1e-7), o.get("reltol", 1e-6) * (pcost + 1e-12)) * 3 + 3 * o.get("feastol", 1e-7) * sc * L + gap
    rad = np.sqrt(L * tol) / (L - 1) + np.sqrt(L * max(gap, 0)) / (L - 1)
    d = np.linalg.norm(np.asarray(got, float).ravel() - W @ w)
    cx.note(W=W, L=L, oracle=W @ w, gap=gap, tol=rad)
    if gap > 1e-6 * sc * L:
        cx.stop("oracle gap")
    cx.event("oracle certified")
    cx.check(d <= rad, "stacked exposures solve the cross-validation problem", dist=d, tol=rad, got=got, want=W @ w)
    cx.maxdev["stacked exposures"] = max(cx.maxdev["stacked exposures"], d / rad)
    # how discriminating the case was: distance to the plain average and to other fold counts
    if np.linalg.norm(W.mean(1) - W @ w) > 5 * rad:
        cx.event("differs from the average")
    if 0 < np.sum(w < 1e-9) < m:
        cx.event("binding weights")
    return w, rad


def opts(rng):
    if rng.random() < .6:
        return {"abstol": 1e-12, "reltol": 1e-11, "feastol": 1e-10, "maxiters": 200}
    return None


@scenario(SCN, 2500, need=["oracle certified", "differs from the average", "remainder fold", "binding weights", "frame"])
def stack(cx):
    rng = cx.rng
    m = int(rng.integers(2, 13))
    n, m, W = samples(rng, None, m)
    L = int(rng.integers(2, m + 1))
    if m % L:
        cx.event("remainder fold")
    names = gen.labels(rng, n) if rng.random() < .6 else None
    data = W if names is None else pd.DataFrame(W, index=pd.Index(names, tupleize_cols=False))
    o = opts(rng)
    cx.state(n, m, L, names is None, o is None)
    cx.note(W=W, L=L)
    got = solve(cx, lambda: exposure_stacking(data, L, **({} if o is None else {"solver_options": dict(o)})))
    if names is None:
        cx.check(isinstance(got, np.ndarray) and got.shape == (n,), "stacking arrays returns an array")
    else:
        cx.check(isinstance(got, pd.Series) and list(got.index) == names, "stacking keeps the asset labels")
        cx.event("frame")
    g = np.asarray(got, float)
    w, rad = judge(cx, W, L, g, o)
    # hull
    sc = max(1.0, np.abs(W).max())
    cx.leq(W.min(1), g, "stacked exposures stay within the samples", tol=1e-6 * sc)
    cx.leq(g, W.max(1), "stacked exposures stay within the samples", tol=1e-6 * sc)
    c = rng.normal(size=n)
    cx.leq(c @ g, (c @ W).max(), "stacked exposures keep every shared linear limit", tol=1e-5 * sc)
    # inside a fold the order is immaterial
    fs = folds(m, L)
    perm = np.concatenate([rng.permutation(list(f)) for f in fs])
    again = np.asarray(solve(cx, lambda: exposure_stacking(W[:, perm], L, solver_options=o)), float)
    cx.check(np.linalg.norm(again - g) <= 2 * rad, "sample order inside a fold does not matter", a=again, b=g)
    q = rng.permutation(n)
    again = np.asarray(solve(cx, lambda: exposure_stacking(W[q], L, solver_options=o)), float)
    cx.check(np.linalg.norm(again - g[q]) <= 2 * rad, "asset order does not matter", a=again, b=g[q])


@scenario(SCN, 400, need=["identical", "leave one out"])
def special(cx):
    rng = cx.rng
    n, m = int(rng.integers(1, 7)), int(rng.integers(2, 9))
    v = rng.dirichlet(np.ones(n)) if rng.random() < .5 else rng.normal(size=n)
    L = int(rng.integers(2, m + 1))
    cx.state(n, m, L)
    got = solve(cx, lambda: exposure_stacking(np.tile(v[:, None], (1, m)), L))
    cx.close(np.asarray(got), v, "stacking identical samples returns the sample", rtol=1e-6, atol=1e-6 * max(1, np.abs(v).max()))
    cx.event("identical")
    _, _, W = samples(rng, n, m)
    got = solve(cx, lambda: exposure_stacking(pd.DataFrame(W), m))
    judge(cx, W, m, got, label="loo")
    cx.event("leave one out")


@scenario(SCN, 900, need=["selected column", "default column", "mixed entries", "through stack_portfolios", "through exposure_stack_frontiers"])
def frontiers(cx):
    """The portfolio-level entry points stack exactly the chosen points, in the given order."""
    rng = cx.rng
    n, f = int(rng.integers(2, 6)), int(rng.integers(2, 8))
    names = [str(x) for x in gen.strlabels(rng, n)] if rng.random() < .7 else None
    frs, sel, cols = [], [], []
    for _ in range(f):
        if rng.random() < .2:
            v = rng.dirichlet(np.ones(n))
            frs.append(pd.Series(v, index=names) if names else v)
            sel.append(None)
            cols.append(v)
            cx.event("mixed entries")
            continue
        fr = make_frontier(rng, n, names)
        frs.append(fr)
        if rng.random() < .6:
            j = int(rng.integers(fr.weights.shape[1]))
            sel.append([j])
            cx.event("selected column")
        else:
            j = int(np.argmin(fr.risks))
            sel.append(None)
            cx.event("default column")
        cols.append(fr.weights[:, j])
    W = np.column_stack(cols)
    o = opts(rng)
    use_sel = sel if any(s is not None for s in sel) or rng.random() < .5 else None
    cx.state(n, f, names is None, use_sel is None)
    if rng.random() < .5:
        kw = {} if rng.random() < .3 and f >= 3 else {"L": int(rng.integers(2, f + 1))}
        got = solve(cx, lambda: stack_portfolios(frs, selections=use_sel, solver_options=o, **kw))
        L = kw.get("L", 3)
        cx.event("through stack_portfolios")
    else:
        L = int(rng.integers(2, f + 1))
        got = solve(cx, lambda: exposure_stack_frontiers(frs, L, use_sel, solver_options=o))
        cx.event("through exposure_stack_frontiers")
    judge(cx, W, L, got, o)
    if isinstance(got, pd.Series) and names:
        cx.check(list(got.index) == names, "stacked frontier points keep the labels")


@scenario(SCN, 200, thorough=2000, need=["constraints kept"])
def feasible(cx):
    rng = cx.rng
    n = int(rng.integers(2, 6))
    spec, anchor, kind = gen.spec(rng, n)
    rows = gen.rows_of(spec, n)
    frs = []
    for _ in range(int(rng.integers(2, 5))):
        _, mu, S = gen.moments(rng, n)
        frs.append(solve(cx, lambda: PortfolioWrapper.from_moments(mu, S, constraints=spec).variance_frontier(4)))
    cx.note(spec=spec)
    cx.state(n, kind)
    sel = [[int(rng.integers(f.weights.shape[1]))] for f in frs]
    w = np.asarray(solve(cx, lambda: exposure_stack_frontiers(frs, 2, sel)))
    from ..use import feasible as ok
    ok(cx, rows, w, "a stacked ensemble", tol=1e-5)
    cx.event("constraints kept")


@scenario(SCN, 300, need=["raised:ValueError"])
def malformed(cx):
    rng = cx.rng
    n, m, W = samples(rng, int(rng.integers(2, 6)), int(rng.integers(2, 6)))
    V = (ValueError,)
    cx.state(n, m)
    cx.raises(lambda: exposure_stacking(W, int(rng.integers(-2, 2))), "fewer than two folds is rejected", types=V)
    cx.raises(lambda: exposure_stacking(W, m + int(rng.integers(1, 4))), "more folds than samples is rejected", types=V)
    Z = W.copy()
    Z[int(rng.integers(n)), int(rng.integers(m))] = float(rng.choice([np.nan, np.inf, -np.inf]))
    cx.raises(lambda: exposure_stacking(Z, 2), "non-finite samples are rejected", types=V)
    cx.raises(lambda: stack_portfolios([Z[:, i] for i in range(m)], L=2), "non-finite samples are rejected", types=V)
    names = [str(x) for x in gen.strlabels(rng, n)]
    a, b = make_frontier(rng, n, names), make_frontier(rng, n, names[::-1])
    cx.raises(lambda: stack_portfolios([a, b], L=2), "portfolios in different asset orders are not mixed", types=V)
    cx.raises(lambda: exposure_stack_frontiers([a, a], 2, [[0]]), "selections must match the portfolios", types=V)
