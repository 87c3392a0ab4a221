"""P12: risk measures equal their definitions for every probability vector."""
import numpy as np
import pandas as pd
from pyvallocation.utils.functions import portfolio_cvar, portfolio_variance, portfolio_volatility, portfolio_var

from .. import gen, oracle
from ..core import scenario

SCN = []
ASSUMPTIONS = ["value-at-risk is compared as the admissible quantile interval: a confidence level within 1e-9 of a cumulative "
               "probability may resolve to either neighbour in floating point"]
CONF = [0.95, 0.99, 0.9, 0.5, 0.05, 0.999, 0.75, 0.8]


def workload(rng):
    n, T = int(rng.integers(1, 7)), int(rng.choice([1, 2, 3, 10, 30, 100]))
    R = gen.panel(rng, T, n, scale=float(rng.choice([0.01, 0.05, 1e-4]))) if T > 1 else rng.normal(0, .02, (1, n))
    k = rng.random()
    if k < 0.2:
        R = R[rng.integers(0, T, T)]
    elif k < 0.3:
        R = np.abs(R) + 1e-3
    elif k < 0.35:
        R = np.zeros((T, n)) + rng.normal(0, .02, n)
    p = gen.probs(rng, T)
    kind = str(rng.choice(["vector", "matrix", "column"]))
    M = int(rng.integers(1, 5))
    W = rng.normal(0.3, 0.5, (n, M)) if rng.random() < .5 else rng.dirichlet(np.ones(n), M).T
    if kind != "matrix":
        W = W[:, :1]
    return n, T, R, p, W, kind


def as_given(rng, kind, W, n):
    if kind == "vector":
        w = W[:, 0]
        return pd.Series(w, index=gen.strlabels(rng, n)) if rng.random() < 0.4 else w
    return pd.DataFrame(W, index=gen.strlabels(rng, n)) if rng.random() < 0.3 else W


def many(x, M):
    return np.asarray(x, float).reshape(-1) if M > 1 else np.array([float(x)])


@scenario(SCN, 12000, need=["zero prob rows", "tail gain", "demeaned"])
def definitions(cx):
    rng = cx.rng
    n, T, R, p, W, kind = workload(rng)
    M = W.shape[1]
    conf = float(rng.choice(CONF)) if rng.random() < .7 else float(rng.uniform(0.01, 0.999))
    uni = bool(rng.random() < 0.2)
    if uni:
        p = np.full(T, 1.0 / T)
    demean = [None, False, True][int(rng.integers(3))]
    cx.note(R=R, p=p, W=W, conf=conf, demean=demean, kind=kind)
    cx.state(kind, M, T, conf if conf in CONF else "x", uni, demean)
    w = as_given(rng, kind, W, n)
    Rg = pd.DataFrame(R) if rng.random() < 0.4 else R
    pg = None if uni and rng.random() < .6 else (pd.Series(p) if rng.random() < 0.3 else p if rng.random() < .6 else p[:, None])
    kw = {} if demean is None else {"demean": demean}
    if conf != 0.95 or rng.random() < 0.5:
        kw["confidence"] = conf
    got = portfolio_cvar(w, Rg, pg, **kw)
    gv = portfolio_var(w, Rg, pg, **kw)
    cx.check((np.ndim(got) == 0 and isinstance(got, float)) if M == 1 else np.shape(got) == (M,), "one number per portfolio", shape=np.shape(got))
    X = R - p @ R if demean else R
    if demean:
        cx.event("demeaned")
    if (p == 0).any():
        cx.event("zero prob rows")
    s = max(np.abs(R).max() * np.abs(W).sum(0).max(), 1e-12)
    got, gv = many(got, M), many(gv, M)
    for j in range(M):
        L = -(X @ W[:, j])
        want = oracle.cvar(L, p, 1 - conf)
        cx.close(got[j], want, "CVaR is the probability-weighted mean of the worst tail", rtol=1e-9, atol=1e-9 * s / (1 - conf))
        lo, hi = oracle.var_interval(L, p, conf)
        cx.check(lo - 1e-9 * s <= gv[j] <= hi + 1e-9 * s, "VaR is the loss quantile at the confidence level", got=gv[j], lo=lo, hi=hi, column=j)
        cx.leq(gv[j], got[j], "CVaR is at least VaR", tol=1e-9 * s / (1 - conf))
        if want < 0:
            cx.event("tail gain")
    for bad in (0.0, 1.0, -0.1, 1.7, np.nan):
        cx.raises(lambda: portfolio_cvar(w, Rg, pg, confidence=bad), "confidence outside (0,1) raises", types=(ValueError,))
        cx.raises(lambda: portfolio_var(w, Rg, pg, confidence=bad), "confidence outside (0,1) raises", types=(ValueError,))


@scenario(SCN, 6000)
def axioms(cx):
    """Coherence and scenario-bookkeeping identities observed on the real functions only."""
    rng = cx.rng
    n, T, R, p, W, kind = workload(rng)
    conf = float(rng.uniform(0.3, 0.99))
    cx.note(R=R, p=p, W=W, conf=conf)
    cx.state(kind, T)
    a, b = W[:, 0], rng.normal(0.2, 0.5, n)
    s = np.abs(R).max() * (np.abs(a).sum() + np.abs(b).sum()) + 1e-12
    tol = dict(rtol=1e-9, atol=1e-9 * s / (1 - conf))
    c = lambda w, X=R, q=p, **k: portfolio_cvar(w, X, q, confidence=conf, **k)
    k = float(rng.exponential(3))
    cx.close(c(k * a), k * c(a), "positively homogeneous", rtol=1e-9, atol=1e-9 * s * (1 + k) / (1 - conf))
    cx.leq(c(a + b), c(a) + c(b), "subadditive", tol=1e-8 * s / (1 - conf))
    shift = float(rng.normal(0, .05))
    cx.close(c(np.append(a, 1.0), np.column_stack([R, np.full(T, shift)])), c(a) - shift, "translation equivariant", rtol=1e-9, atol=1e-9 * (s + abs(shift)) / (1 - conf))
    o = rng.permutation(T)
    cx.close(c(a, R[o], p[o]), c(a), "scenario order does not matter", **tol)
    i = int(rng.integers(T))
    q = np.append(p, p[i] * 0.4)
    q[i] *= 0.6
    cx.close(c(a, np.vstack([R, R[i]]), q), c(a), "splitting a scenario changes nothing", **tol)
    cx.close(c(a, np.vstack([R, R[i] * 50 - 9]), np.append(p, 0.0)), c(a), "an impossible scenario changes nothing", **tol)
    cx.close(c(a, demean=True), c(a) + float(p @ R @ a), "demeaning shifts CVaR by the mean", **tol)
    better = R + rng.random(R.shape) * 0.01 * (a > 0) - rng.random(R.shape) * 0.01 * (a < 0)
    cx.leq(c(a, better), c(a), "more P&L in every scenario is never riskier", tol=1e-8 * s / (1 - conf))
    lo = portfolio_cvar(a, R, p, confidence=conf * 0.8)
    cx.leq(lo, c(a), "deeper tails are not less risky", tol=1e-8 * s / (1 - conf))
    cx.leq(-float(p @ R @ a), c(a), "CVaR is at least the expected loss", tol=1e-8 * s / (1 - conf))
    cx.leq(c(a), float(-(R[p > 0] @ a).min()), "CVaR is at most the worst loss", tol=1e-8 * s / (1 - conf))


@scenario(SCN, 4000)
def quadratic(cx):
    rng = cx.rng
    n = int(rng.integers(1, 8))
    S = gen.cov(rng, n) if n > 1 else np.array([[float(rng.random())]])
    M = int(rng.integers(1, 5))
    W = rng.normal(0.3, 0.6, (n, M))
    one = M == 1 and rng.random() < 0.7
    cx.note(S=S, W=W)
    cx.state(n, M, one)
    lab = gen.strlabels(rng, n)
    w = W[:, 0] if one else W
    if one and rng.random() < 0.5:
        w = pd.Series(w, index=lab)
    elif rng.random() < 0.3:
        w = pd.DataFrame(W, index=lab)
    Sg = pd.DataFrame(S, index=lab, columns=lab) if rng.random() < 0.5 else S
    want = np.array([sum(W[i, j] * S[i, k] * W[k, j] for i in range(n) for k in range(n)) for j in range(M)])
    v, d = portfolio_variance(w, Sg), portfolio_volatility(w, Sg)
    cx.close(many(v, M), want, "variance is w'Sw", rtol=1e-10, atol=1e-14)
    cx.close(many(d, M), np.sqrt(want), "volatility is the root of the variance", rtol=1e-10, atol=1e-12)
    cx.check((np.ndim(v) == 0) == (M == 1), "one number per portfolio")


@scenario(SCN, 1500, need=["variance below zero by rounding"])
def hedged(cx):
    """A fully hedged book has no volatility: zero, not a missing value."""
    rng = cx.rng
    M = int(rng.integers(1, 4))
    R, W = gen.hedged(rng, int(rng.integers(5, 80)), M)
    S = np.cov(R.T, bias=True)
    w = W[:, 0] if M == 1 and rng.random() < .6 else W
    s = np.abs(W).sum(0).max() * np.abs(R).max()
    cx.note(S=S, W=W)
    cx.state(M, R.shape)
    cx.event("variance below zero by rounding", int((np.sum(W * (S @ W), 0) < 0).any()))
    d = many(portfolio_volatility(w, S), M)
    cx.close(d, np.std(R @ W, axis=0), "volatility of hedged books", rtol=1e-6, atol=1e-7 * s)
