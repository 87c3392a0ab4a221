"""P19: mean estimators."""
import itertools

import numpy as np
import pandas as pd
from scipy.optimize import brentq
from pyvallocation import moments as M

from .. import gen
from ..core import scenario

SCN = []
QUICK_FACTOR = 2  # relative cost of this check
ASSUMPTIONS = ["Huber iterates to an absolute step of 1e-6 (as documented by its tolerance), so it is compared to its estimating equation at that accuracy",
               "Jorion's estimate includes the library's 1e-8 diagonal jitter; the comparison widens with the conditioning accordingly",
               "corruption covers fewer than half of the observations (Huber) or of the blocks (median of means)"]


def moments(rng, lo=1):
    n, mu, S = gen.moments(rng, lo=lo, hi=8, scale=float(rng.choice([0.2, 0.02, 1.0])))
    T = int(rng.choice([5, 30, 120, 1000, 10 ** 6]))
    names = gen.labels(rng, n) if rng.random() < .6 else None
    ix = pd.Index(names, tupleize_cols=False) if names else None
    m = pd.Series(mu, index=ix) if names and rng.random() < .8 else mu
    C = pd.DataFrame(S, index=ix, columns=ix) if names else S
    return n, mu, S, T, names, m, C


def labelled(cx, x, names, what):
    if names is not None:
        cx.check(isinstance(x, pd.Series) and list(x.index) == names, f"{what} keeps the labels")
    return np.asarray(x, float)


def between(cx, x, a, b, what):
    """x lies on the segment a--b, at one common fraction."""
    s = np.abs(b - a).max()
    if s < 1e-14:
        cx.leq(np.abs(x - a), 1e-12 + 1e-9 * np.abs(a), f"{what} lies on the segment", tol=0)
        return 1.0
    i = int(np.argmax(np.abs(b - a)))
    t = (x[i] - a[i]) / (b[i] - a[i])
    cx.leq(-t, 1e-9, f"{what} lies on the segment", tol=0)
    cx.leq(t, 1 + 1e-9, f"{what} lies on the segment", tol=0)
    cx.leq(np.abs(a + t * (b - a) - x), 1e-9 * (s + np.abs(a).max()), f"{what} lies on the segment", tol=0)
    return t


@scenario(SCN, 6000, need=["interior shrinkage", "full shrinkage", "custom target", "shuffled target"])
def james_stein(cx):
    rng = cx.rng
    n, mu, S, T, names, m, C = moments(rng)
    if rng.random() < 0.3:  # means close together: shrinkage binds
        mu = mu.mean() + 0.05 * np.sqrt(np.diag(S) / T) * rng.normal(size=n)
        m = pd.Series(mu, index=m.index) if isinstance(m, pd.Series) else mu
    if rng.random() < .4:
        tgt = mu.mean() + np.sqrt(np.diag(S)) * rng.normal(0, .2, n)
        kw = {"target": tgt if names is None or rng.random() < .5 else pd.Series(tgt, index=pd.Index(names, tupleize_cols=False))}
        if names is not None and rng.random() < .4:
            kw = {"target": pd.Series(tgt, index=pd.Index(names, tupleize_cols=False)).sample(frac=1, random_state=int(rng.integers(1 << 30)))}
            cx.event("shuffled target")
        cx.event("custom target")
    else:
        tgt, kw = np.full(n, mu.mean()), {}
    cx.note(mu=m, S=C, T=T, **kw)
    cx.state(n, T, bool(kw), names is None)
    got = labelled(cx, M.shrink_mean_james_stein(m, C, T, **kw), names, "James-Stein")
    t = between(cx, got, tgt, mu, "James-Stein mean")
    d = mu - tgt
    q = float(T * d @ np.linalg.solve(S, d))
    if np.linalg.eigvalsh(S).min() > 1e-7 and q > 1e-12:
        want = tgt + min(max(0.0, 1 - (n - 2) / q), 1.0) * d
        cx.leq(np.abs(got - want), 1e-6 * (np.abs(d).max() + 1e-6), "James-Stein mean equals the positive-part formula", tol=0)
        cx.event("interior shrinkage" if 0 < 1 - (n - 2) / q < 1 else "full shrinkage" if (n - 2) >= q else "no shrinkage")
    far = labelled(cx, M.shrink_mean_james_stein(m, C, 10 ** 12, **kw), names, "James-Stein")
    cx.leq(np.abs(far - mu), 1e-3 * np.abs(d) + 1e-9, "James-Stein mean tends to the sample mean", tol=0) if q / T * 10 ** 12 > 1e6 else None
    o = rng.permutation(n)
    kw2 = {"target": tgt[o]} if kw else {}
    g2 = M.shrink_mean_james_stein(mu[o], S[np.ix_(o, o)], T, **kw2)
    cx.leq(np.abs(g2 - got[o]), 1e-7 * (np.abs(d).max() + 1e-9), "asset order does not matter", tol=0)


@scenario(SCN, 500, need=["mean outside the spread", "full shrinkage", "interior shrinkage"])
def wide(cx):
    """Many assets with clustered or skewed means: the target may lie far from most of them."""
    rng = cx.rng
    n = int(rng.choice([12, 25, 40, 80]))
    sd = rng.uniform(.05, .3, n) * float(rng.choice([1.0, .1]))
    mu = rng.normal(.05, .02, n) * np.sqrt(sd.mean())
    k = int(rng.integers(0, 4))
    mu[rng.permutation(n)[:k]] += float(rng.choice([-5, 3, 30])) * sd.mean()
    c = float(rng.choice([0.0, .3]))
    S = (np.full((n, n), c) + (1 - c) * np.eye(n)) * np.outer(sd, sd)
    T = int(rng.choice([5, 30, 120, 1000]))
    tgt = np.full(n, mu.mean())
    cx.state(n, T, k, c)
    cx.note(mu=mu, S_diag=sd ** 2, T=T)
    if not np.quantile(mu, .25) <= mu.mean() <= np.quantile(mu, .75):
        cx.event("mean outside the spread")
    d = mu - tgt
    q = float(T * d @ np.linalg.solve(S, d))
    f = min(max(0.0, 1 - (n - 2) / q), 1.0)
    got = np.asarray(M.shrink_mean_james_stein(mu, S, T), float)
    cx.leq(np.abs(got - (tgt + f * d)), 1e-6 * np.abs(d).max(), "James-Stein mean equals the positive-part formula", tol=0)
    cx.event("interior shrinkage" if f > 0 else "full shrinkage")
    got = np.asarray(M.shrink_mean_jorion(mu, S, T), float)
    iS = np.linalg.inv(S)
    g = iS.sum(0) @ mu / iS.sum()
    dev = mu - g
    lam = (n + 2) / (dev @ iS @ dev)
    v = lam / (T + lam)
    cx.leq(np.abs(got - (g * v + (1 - v) * mu)), (1e-4 + 3e-7 / sd.min() ** 2) * np.abs(dev).max(), "Bayes-Stein mean equals its formula", tol=0)


@scenario(SCN, 5000, need=["shrunk"])
def jorion(cx):
    rng = cx.rng
    n, mu, S, T, names, m, C = moments(rng, lo=3)
    if rng.random() < 0.3:
        mu = mu.mean() + 0.5 * np.sqrt(np.diag(S) / T) * rng.normal(size=n)
        m = pd.Series(mu, index=m.index) if isinstance(m, pd.Series) else mu
    cx.note(mu=m, S=C, T=T)
    cx.state(n, T, names is None)
    got = labelled(cx, M.shrink_mean_jorion(m, C, T), names, "Jorion")
    lam = np.linalg.eigvalsh(S).min()
    rel = 20 * 1e-8 / lam + 1e-8
    if rel > 0.02:
        cx.stop("jitter dominates")
    inv = np.linalg.inv(S)
    g = inv.sum(0) @ mu / inv.sum()
    d = mu - g
    v = (n + 2) / (n + 2 + T * d @ inv @ d)
    want = mu - v * d
    cx.leq(np.abs(got - want), rel * (np.abs(d).max() + np.abs(mu).max()) , "Jorion mean equals the Bayes-Stein formula", tol=0)
    inv = np.linalg.inv(S + 1e-8 * np.eye(n))
    between(cx, got, np.full(n, inv.sum(0) @ mu / inv.sum()), mu, "Jorion mean")
    cx.event("shrunk" if v > 0.02 else "little shrinkage")
    far = np.asarray(M.shrink_mean_jorion(m, C, 10 ** 12))
    cx.leq(np.abs(far - mu), 1e-4 * np.abs(d).max() + (n + 2) / max(1e12 * d @ inv @ d, 1e-300) * np.abs(d).max() * 1.1 + 1e-12, "Jorion mean tends to the sample mean", tol=0)
    v1, v2 = (np.abs(np.asarray(M.shrink_mean_jorion(m, C, k)) - mu).max() for k in (T, 4 * T))
    cx.leq(v2, v1 * (1 + 1e-9), "Jorion shrinks less with more data", tol=1e-15)
    o = rng.permutation(n)
    cx.leq(np.abs(M.shrink_mean_jorion(mu[o], S[np.ix_(o, o)], T) - got[o]), 1e-7 * (np.abs(mu).max() + 1e-9), "asset order does not matter", tol=0)


def panel(rng):
    n, T = int(rng.integers(1, 6)), int(rng.choice([3, 5, 12, 40, 151, 600]))
    sc = float(rng.choice([1.0, 0.2, 0.02]))
    R = gen.panel(rng, T, n, scale=1.0) * sc + rng.normal(0, sc, n) * float(rng.choice([0, 1, 5]))
    names = gen.labels(rng, n) if rng.random() < .6 else None
    X = pd.DataFrame(R, columns=pd.Index(names, tupleize_cols=False)) if names else R
    return n, T, sc, R, X, names


def huber_tau(x):
    T = len(x)
    return (1.4826 * np.median(np.abs(x - np.median(x))) + 1e-12) * np.sqrt(T / max(np.log(max(T, 3)), 2.0))


@scenario(SCN, 2500, need=["corrupted"])
def huber(cx):
    rng = cx.rng
    n, T, sc, R, X, names = panel(rng)
    cx.note(R=X)
    cx.state(n, T, sc, names is None)
    Y, k = R.copy(), 0
    if rng.random() < .6:
        k = int(rng.integers(1, max(2, (T - 1) // 3 + 1)))
        rows = rng.permutation(T)[:k]
        Y[rows] = float(rng.choice([1e3, -1e4, 1e6])) * sc * rng.uniform(.5, 1, (k, n))
        cx.event("corrupted")
    Z = pd.DataFrame(Y, columns=X.columns) if names else Y
    got = labelled(cx, M.robust_mean_huber(Z), names, "Huber")
    good = np.delete(Y, rows, 0) if k else Y
    for j in range(n):
        y = Y[:, j]
        tau = huber_tau(y)
        f = lambda m: np.clip(y - m, -tau, tau).sum()
        if tau > 1e-9:
            want = brentq(f, y.min() - 1, y.max() + 1, xtol=1e-14, maxiter=500)
            slope = max((np.abs(y - want) < tau).mean(), 0.02)
            cx.leq(abs(got[j] - want), (1e-6 * (abs(want) + 1) * 2 / slope + 1e-9) * (1 if k == 0 else 3), "Huber mean solves its estimating equation", tol=0, k=k)
        cx.leq(y.min() - 1e-9, got[j], "Huber mean lies within the data", tol=1e-6)
        cx.leq(got[j], y.max() + 1e-9, "Huber mean lies within the data", tol=1e-6)
        if k and k < T / 2:
            g = good[:, j]
            cx.leq(got[j], g.max() + tau, "a few corrupted observations move the Huber mean by a bounded amount", tol=1e-5 * (1 + abs(g.max())))
            cx.leq(g.min() - tau, got[j], "a few corrupted observations move the Huber mean by a bounded amount", tol=1e-5 * (1 + abs(g.min())))
    if not k:
        mn = R.mean(0)
        for j in range(n):
            if np.abs(R[:, j] - np.median(R[:, j])).max() < 0.4 * huber_tau(R[:, j]):
                cx.leq(abs(got[j] - mn[j]), 4e-6 * (1 + abs(mn[j])), "without outliers the Huber mean is the sample mean", tol=0)
                cx.event("clean")
    o, t = rng.permutation(n), rng.permutation(T)
    tol = 8e-6 * (1 + np.abs(got))
    cx.leq(np.abs(np.asarray(M.robust_mean_huber(Y[t][:, o])) - got[o]), tol[o], "order does not matter", tol=0)
    mu, _ = M.estimate_moments(Z, mean_estimator=str(rng.choice(["huber", "robust_huber", "Huber"])))
    cx.close(mu, got, "dispatch equals the estimator", rtol=1e-12, atol=0)


@scenario(SCN, 3000, need=["corrupted", "block means"])
def median_of_means(cx):
    rng = cx.rng
    n, T, sc, R, X, names = panel(rng)
    B = "auto" if rng.random() < .3 else int(rng.integers(1, T + 3))
    nb = min(int(np.ceil(np.sqrt(T))) if B == "auto" else B, T)
    seed = gen.seed(rng)
    cx.note(R=X, n_blocks=B, seed=seed)
    cx.state(n, T, B, names is None)
    est = lambda Y, b=B: np.asarray(M.robust_mean_median_of_means(Y, n_blocks=b, random_state=seed))
    got = labelled(cx, M.robust_mean_median_of_means(X, n_blocks=B, random_state=seed), names, "median of means")
    cx.close(est(R), got, "same seed gives the same estimate", rtol=0, atol=0)
    cx.close(np.asarray(M.robust_mean_median_of_means(R, n_blocks=B, random_state=np.random.default_rng(seed))), got, "a generator equals its seed", rtol=0, atol=0)
    cx.leq(R.min(0), got, "estimate lies within the data", tol=1e-12)
    cx.leq(got, R.max(0), "estimate lies within the data", tol=1e-12)
    cx.close(est(R, 1), R.mean(0), "one block gives the mean", rtol=1e-9, atol=1e-12)
    cx.close(est(R, T), np.median(R, 0), "one block per observation gives the median", rtol=1e-12, atol=1e-14)
    a, b = rng.normal(size=n), float(rng.choice([2.0, -3.0, 0.1]))
    cx.close(est(a + b * R), a + b * got, "estimate is affine equivariant", rtol=1e-8, atol=1e-10)
    o = rng.permutation(n)
    cx.close(est(R[:, o]), got[o], "asset order does not matter", rtol=1e-12, atol=0)
    if 3 <= T <= 60:  # reveal the blocks: two blocks, one-hot observations
        e = est(np.eye(T), 2)
        cx.close(e.sum(), 1.0, "every observation is used in exactly one block", rtol=1e-9)
        z = np.sort(np.round(0.5 / e).astype(int))
        cx.check(set(z) <= {T // 2, T - T // 2} and (z == T // 2).sum() in (T // 2, T), "blocks have nearly equal sizes", sizes=z)
        # membership from pairwise products: three blocks
        cx.event("block means")
    k = (nb - 1) // 2
    if k:
        Y = R.copy()
        rows = rng.permutation(T)[:k]
        Y[rows] = float(rng.choice([1e5, -1e7])) * sc
        g = np.delete(R, rows, 0)
        e = est(Y)
        cx.leq(g.min(0), e, "corrupting fewer than half of the blocks keeps the estimate within the data", tol=1e-9)
        cx.leq(e, g.max(0), "corrupting fewer than half of the blocks keeps the estimate within the data", tol=1e-9)
        cx.event("corrupted")
    mu, _ = M.estimate_moments(X, mean_estimator=str(rng.choice(["mom", "median_of_means"])), mean_kwargs=dict(n_blocks=B, random_state=seed))
    cx.close(mu, got, "dispatch equals the estimator", rtol=1e-12, atol=0)


def balanced(items, B):
    """Every partition of `items` into B blocks whose sizes differ by at most one."""
    lo, extra = divmod(len(items), B)

    def rec(rest, big, small):
        if not rest:
            yield []
            return
        for size, b, s in ((lo + 1, big - 1, small), (lo, big, small - 1)):
            if size and min(b, s) >= 0:
                for c in itertools.combinations(rest[1:], size - 1):
                    blk = (rest[0],) + c
                    for tail in rec(tuple(i for i in rest if i not in blk), b, s):
                        yield [blk] + tail
    yield from rec(tuple(items), extra, B - extra)


@scenario(SCN, 500, need=["uneven blocks", "explained"])
def blocks(cx):
    """On few observations: some partition into blocks of nearly equal size explains the estimate of every column."""
    rng = cx.rng
    T = int(rng.integers(3, 10))
    B = int(rng.integers(2, min(T, 5) + 1)) if rng.random() < .8 else "auto"
    b = B if B != "auto" else int(np.ceil(np.sqrt(T)))
    R = rng.standard_cauchy((T, 12))
    seed = gen.seed(rng)
    cx.note(R=R, n_blocks=B, seed=seed)
    cx.state(T, B)
    got = np.asarray(M.robust_mean_median_of_means(R, n_blocks=B, random_state=seed))
    tol = 1e-9 * np.abs(R).max(0)
    ok = any((np.abs(np.median([R[list(k)].mean(0) for k in part], axis=0) - got) <= tol).all() for part in balanced(range(T), b))
    cx.check(ok, "a partition into blocks of nearly equal size explains the estimate", T=T, B=b)
    cx.event("explained")
    if T % b > 1:
        cx.event("uneven blocks")


@scenario(SCN, 2000, need=["dispatched"])
def dispatch(cx):
    """estimate_moments combines the chosen estimators on the right sample statistics."""
    rng = cx.rng
    n, T, sc, R, X, names = panel(rng)
    p = gen.probs(rng, T) if rng.random() < .5 else None
    q = np.full(T, 1 / T) if p is None else p
    m = q @ R
    S = (R - m).T @ ((R - m) * q[:, None])
    cx.note(R=X, p=p)
    cx.state(n, T, sc, p is None)
    mu, C = M.estimate_moments(X, p, mean_estimator=str(rng.choice(["sample", "simple"])))
    cx.close(labelled(cx, mu, names, "sample mean"), m, "sample mean equals its definition", rtol=1e-9, atol=1e-12 * np.abs(R).max())
    if n > 2 and np.linalg.eigvalsh(S).min() > 1e-6 * sc * sc:
        mj, _ = M.estimate_moments(X, p, mean_estimator=str(rng.choice(["jorion", "bayes_stein"])))
        cx.close(labelled(cx, mj, names, "Jorion"), M.shrink_mean_jorion(m, S, T), "dispatch equals the estimator", rtol=1e-7, atol=1e-10)
        cx.event("dispatched")
    mj, _ = M.estimate_moments(X, p, mean_estimator=str(rng.choice(["james_stein", "james-stein", "js"])))
    mj = labelled(cx, mj, names, "James-Stein")
    if np.linalg.eigvalsh(S).min() > 1e-5 * sc * sc:
        cx.close(mj, M.shrink_mean_james_stein(m, S, T), "dispatch equals the estimator", rtol=1e-5, atol=1e-8)


@scenario(SCN, 600, need=["raised:ValueError"])
def malformed(cx):
    rng = cx.rng
    n, mu, S, T, names, m, C = moments(rng, lo=3)
    V = (ValueError,)
    cx.state(n)
    cx.raises(lambda: M.shrink_mean_jorion(mu, S, int(rng.choice([0, -3]))), "no observations is rejected", types=V)
    cx.raises(lambda: M.shrink_mean_jorion(mu[:2], S[:2, :2], T), "Bayes-Stein needs three assets", types=V)
    cx.raises(lambda: M.shrink_mean_jorion(mu, S[:2, :2], T), "mismatched shapes are rejected", types=V)
    cx.raises(lambda: M.shrink_mean_james_stein(mu, S, int(rng.choice([0, -3]))), "no observations is rejected", types=V)
    cx.raises(lambda: M.shrink_mean_james_stein(mu, S[:2, :2], T), "mismatched shapes are rejected", types=V)
    cx.raises(lambda: M.shrink_mean_james_stein(mu, S, T, target=np.zeros(n + 1)), "mismatched shapes are rejected", types=V)
    cx.raises(lambda: M.shrink_mean_james_stein(mu, S, T, target="median"), "unknown targets are rejected", types=V)
    R = rng.normal(size=(20, n))
    cx.raises(lambda: M.robust_mean_median_of_means(R, n_blocks=int(rng.choice([0, -2]))), "invalid block counts are rejected", types=V)
    R[int(rng.integers(20)), int(rng.integers(n))] = np.nan
    for e in ("sample", "jorion", "james_stein", "huber", "mom"):
        cx.raises(lambda: M.estimate_moments(R, mean_estimator=e), "missing returns are rejected", types=V)
    if names is not None:
        o = np.roll(np.arange(n), 1)
        cx.raises(lambda: M.shrink_mean_james_stein(pd.Series(mu, index=C.index), C.iloc[o, o], T), "conflicting label orders are rejected", types=V)
        cx.raises(lambda: M.shrink_mean_jorion(pd.Series(mu, index=C.index), C.iloc[o, o], T), "conflicting label orders are rejected", types=V)
