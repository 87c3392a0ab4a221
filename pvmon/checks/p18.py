"""P18: covariance estimators."""
import numpy as np
import pandas as pd
from pyvallocation import moments as M
from pyvallocation.utils.validation import ensure_psd_matrix, is_psd

from .. import gen
from ..core import scenario

SCN = []
QUICK_FACTOR = 2  # relative cost of this check
ASSUMPTIONS = ["the PSD repair works with an absolute tolerance of 1e-8, so 'PSD' means eigenvalues above -1.1e-8",
               "nonlinear shrinkage needs a package that is not installed here and is not exercised",
               "the graphical lasso does not penalise the diagonal (as implemented); Tyler's shape is scaled to the sample's total variance",
               "Ledoit-Wolf, OAS, glasso: the 1/T moments they are defined for"]


def data(rng, heavy=True, tall=False):
    n = int(rng.integers(1, 8))
    T = int(rng.choice([n + 3, 25, 80, 300])) if tall or rng.random() < .7 else int(rng.integers(2, max(3, n + 1)))
    sc = float(rng.choice([1.0, 0.2, 0.02, 0.003]))
    R = gen.panel(rng, T, n, scale=1.0, kind=None if heavy else "normal") * sc
    names = gen.labels(rng, n) if rng.random() < .6 else None
    X = pd.DataFrame(R, columns=pd.Index(names, tupleize_cols=False) if names else None,
                     index=pd.date_range("2021", periods=T)) if names else R
    return n, T, sc, R, X, names


def basic(cx, C, n, names, what, S=None):
    if names is not None:
        cx.check(isinstance(C, pd.DataFrame) and list(C.index) == names and list(C.columns) == names, f"{what} keeps the labels")
    C = np.asarray(C)
    cx.check(C.shape == (n, n) and np.isfinite(C).all(), f"{what} is a finite square matrix", shape=C.shape)
    cx.close(C, C.T, f"{what} is symmetric", rtol=1e-12, atol=1e-18)
    cx.leq(-np.linalg.eigvalsh(C).min(), 1.1e-8, f"{what} is positive semi-definite", tol=1e-10 * np.abs(C).max())
    return C


def mle(R):
    X = R - R.mean(0)
    return X.T @ X / len(R)


def lw_identity(R):
    X, S = R - R.mean(0), mle(R)
    n, T = S.shape[0], len(R)
    m = np.trace(S) / n
    d2 = ((S - m * np.eye(n)) ** 2).sum()
    b2 = sum(((np.outer(r, r) - S) ** 2).sum() for r in X) / T ** 2
    return m * np.eye(n), (min(b2 / d2, 1.0) if d2 > 0 else 0.0), S


def lw_corr(R):
    """Ledoit and Wolf (2004) covCor, written from the published code."""
    T, n = R.shape
    x = R - R.mean(0)
    s = mle(R)
    v = np.diag(s)
    sd = np.sqrt(v)
    rb = ((s / np.outer(sd, sd)).sum() - n) / (n * (n - 1))
    F = rb * np.outer(sd, sd)
    np.fill_diagonal(F, v)
    phiM = (x ** 2).T @ x ** 2 / T - s ** 2
    th = (x ** 3).T @ x / T - v[:, None] * s
    np.fill_diagonal(th, 0)
    rho = np.trace(phiM) + rb * (np.outer(1 / sd, sd) * th).sum()
    g = ((s - F) ** 2).sum()
    return F, float(np.clip((phiM.sum() - rho) / g / T, 0, 1)), s


def soft(A, t):
    B = np.sign(A) * np.maximum(np.abs(A) - t, 0)
    np.fill_diagonal(B, np.diag(A))
    return B


@scenario(SCN, 2500, need=["weighted", "identity", "constant_correlation"])
def linear(cx):
    """Sample, weighted, Ledoit-Wolf, OAS and exponentially weighted estimates."""
    rng = cx.rng
    n, T, sc, R, X, names = data(rng)
    cx.note(R=X)
    cx.state(n, T, sc, names is None)
    S = mle(R)
    big = np.abs(R).max() ** 2
    mu, C = M.estimate_moments(X)
    cx.close(basic(cx, C, n, names, "sample"), S, "sample covariance equals its definition", rtol=1e-9, atol=1e-12 * big)
    p = gen.probs(rng, T)
    mu, C = M.estimate_sample_moments(X, p if rng.random() < .6 else pd.Series(p))
    m = p @ R
    W = (R - m).T @ ((R - m) * p[:, None])
    cx.close(basic(cx, C, n, names, "weighted"), W, "weighted covariance equals its definition", rtol=1e-9, atol=1e-12 * big)
    cx.close(mu, m, "weighted mean equals its definition", rtol=1e-9, atol=1e-12 * np.abs(R).max())
    cx.event("weighted")
    mu2, C2 = M.estimate_moments(X, p)
    cx.close(C2, C, "dispatch equals the estimator", rtol=1e-12, atol=0)
    # shrinkage
    tgt = "identity" if n == 1 or T < 3 or rng.random() < .5 else "constant_correlation"
    if tgt == "identity" or np.diag(S).min() > 1e-12 * big:
        C = M.shrink_covariance_ledoit_wolf(X, pd.DataFrame(S, index=X.columns, columns=X.columns) if names else S, tgt)
        C = basic(cx, C, n, names, "Ledoit-Wolf")
        F, d, s = (lw_identity if tgt == "identity" else lw_corr)(R)
        psd_ok = np.linalg.eigvalsh(d * F + (1 - d) * s).min() > -1e-8
        if psd_ok:
            cx.close(C, d * F + (1 - d) * s, "Ledoit-Wolf equals the published estimate", rtol=1e-7, atol=1e-9 * big)
        cx.event(tgt)
        cx.event("shrunk" if d > 1e-9 else "not shrunk")
        _, C2 = M.estimate_moments(X, cov_estimator=str(rng.choice(["ledoit_wolf", "lw", "LW"])), cov_kwargs={"target": tgt})
        cx.close(C2, C, "dispatch equals the estimator (Ledoit-Wolf)", rtol=1e-8, atol=1e-10 * big)
    ac = bool(rng.random() < .5)
    E = R.T @ R / T if ac else S
    C = basic(cx, M.shrink_covariance_oas(X, assume_centered=ac), n, names, "OAS")
    if n == 1:
        want = E
    else:
        t2, tr = (E * E).sum(), np.trace(E)
        den = (T + 1 - 2 / n) * (t2 - tr * tr / n)
        r = 1.0 if den <= 1e-300 else min(((1 - 2 / n) * t2 + tr * tr) / den, 1.0)
        want = (1 - r) * E + r * tr / n * np.eye(n)
    cx.close(C, want, "oracle-approximating shrinkage equals its formula", rtol=1e-8, atol=1e-10 * big)
    _, C2 = M.estimate_moments(X, cov_estimator="oas", cov_kwargs={"assume_centered": ac})
    cx.close(C2, C, "dispatch equals the estimator (OAS)", rtol=1e-12, atol=0)
    span = int(rng.choice([1, 2, 10, 60, 252]))
    C = basic(cx, M.covariance_ewma(X, span=span), n, names, "EWMA")
    lam = 1 - 2 / (span + 1)
    w = (1 - lam) * lam ** np.arange(T - 1, -1, -1.0)
    w[0] = lam ** (T - 1)
    cx.close(w.sum(), 1.0, "reference weights sum to one", rtol=1e-9)
    cx.close(C, (R * w[:, None]).T @ R, "exponentially weighted covariance equals its recursion", rtol=1e-8, atol=1e-11 * big)
    _, C2 = M.estimate_moments(X, cov_estimator="ewma", cov_kwargs={"span": span})
    cx.close(C2, C, "dispatch equals the estimator (EWMA)", rtol=1e-12, atol=0)


@scenario(SCN, 2000, need=["explicit factors", "automatic factors"])
def factor(cx):
    rng = cx.rng
    n, T, sc, R, X, names = data(rng, tall=True)
    if rng.random() < .4 and n > 3:  # strong factor structure
        f = rng.normal(size=(T, 2)) * sc
        R = f @ rng.normal(size=(2, n)) + 0.2 * R
        X = pd.DataFrame(R, columns=X.columns, index=X.index) if names else R
    std = bool(rng.random() < .6)
    k = "auto" if rng.random() < .4 else int(rng.integers(1, n + 2))
    th = "auto" if rng.random() < .5 else float(rng.choice([0.0, 0.1, 5.0])) * (1.0 if std else sc * sc)
    cx.note(R=X, k=k, thresh=th, standardize=std)
    cx.state(n, T, sc, k, th == "auto", std)
    out = M.factor_covariance_poet(X, k=k, thresh=th, standardize=std, return_decomp=True)
    C, B, F = out
    C = basic(cx, C, n, names, "POET")
    D = (R - R.mean(0)).std(0, ddof=1) if std else np.ones(n)
    D = np.where(D <= 1e-12, 1.0, D)
    Z = (R - R.mean(0)) / D
    S = Z.T @ Z / (T - 1)
    ev, V = np.linalg.eigh(S)
    ev, V = ev[::-1], V[:, ::-1]
    Bn, Fn = np.asarray(B), np.asarray(F)
    K = Bn.shape[1]
    if k == "auto":
        cx.event("automatic factors")
        if n > 2:
            dd = ev[:-1] - ev[1:]
            acc = dd[:-1] - dd[1:]
            cx.leq(acc.max(), acc[K - 1] + 1e-9 * ev[0] if K - 1 < len(acc) else -1, "automatic factor count cuts at the largest eigenvalue elbow", tol=0)
        else:
            cx.check(K == 1, "automatic factor count of a tiny universe is one", K=K)
    else:
        cx.event("explicit factors")
        cx.check(K == min(k, n), "requested number of factors is used", K=K, k=k)
    if K < n and ev[K - 1] - ev[K] < 1e-6 * ev[0]:
        cx.stop("tied eigenvalues")
    P = (V[:, :K] * np.maximum(ev[:K], 0)) @ V[:, :K].T
    res = S - P
    off = np.abs(res[~np.eye(n, dtype=bool)])
    tau = (np.median(off) * np.sqrt(np.log(max(n, 2)) / T) if off.size else 0.0) if th == "auto" else th
    want = np.outer(D, D) * (P + soft(res, tau))
    if np.linalg.eigvalsh(want).min() > -1e-8:
        cx.close(C, want, "factor covariance equals factors plus thresholded residual", rtol=1e-6, atol=1e-9 * np.abs(want).max())
        cx.leq(np.abs(np.diag(C) - np.diag(S) * D * D), 1e-8 * np.abs(want).max(), "factor covariance keeps the variances", tol=0)
    cx.close(Bn @ Bn.T, np.outer(D, D) * P, "loadings reproduce the common part", rtol=1e-6, atol=1e-9 * np.abs(want).max())
    cx.close(Fn.T @ Fn / (T - 1), np.diag(ev[:K]), "factor scores are the principal components", rtol=1e-6, atol=1e-8 * ev[0])
    if names is not None:
        cx.check(list(B.index) == names and F.index.equals(X.index) and list(B.columns) == list(F.columns), "decomposition keeps the labels")
    _, C2 = M.estimate_moments(X, cov_estimator="poet", cov_kwargs=dict(k=k, thresh=th, standardize=std))
    cx.close(C2, C, "dispatch equals the estimator (POET)", rtol=1e-9, atol=0)


@scenario(SCN, 900, need=["fixed point", "shrunk shape", "shuffled target"])
def heavy_tail(cx):
    rng = cx.rng
    n, T, sc, R, X, names = data(rng, tall=True)
    sh = float(rng.choice([0.0, 0.0, 0.1, 0.5, 1.0]))
    if (np.ptp(R, axis=0) == 0).any():
        cx.stop("constant returns")
    tgt = "identity" if rng.random() < .5 else gen.cov(rng, n, scale=float(rng.choice([1.0, 0.01])))
    if isinstance(tgt, np.ndarray) and np.linalg.eigvalsh(tgt).min() < 1e-6:
        tgt = "identity"
    cx.note(R=X, shrinkage=sh, target=tgt)
    cx.state(n, T, sc, sh, isinstance(tgt, str))
    tg = tgt
    if isinstance(tgt, np.ndarray) and names and rng.random() < .7:
        tg = pd.DataFrame(tgt, index=X.columns, columns=X.columns)
        if rng.random() < .6:
            o = rng.permutation(n)
            tg = tg.iloc[o, o]
            cx.event("shuffled target")
    C = basic(cx, M.robust_covariance_tyler(X, shrinkage=sh, target=tg, max_iter=2000, tol=1e-9), n, names, "Tyler")
    tr = np.trace(np.cov(R.T, ddof=1).reshape(n, n))
    cx.close(np.trace(C), tr, "heavy-tail covariance keeps the total variance", rtol=1e-3, atol=3e-7)
    Z = R - R.mean(0)
    if T < n + 8 or np.linalg.cond(C) > 1e6 or sc < 0.01:
        cx.stop("nearly degenerate")
    d = np.einsum("ti,ij,tj->t", Z, np.linalg.inv(C), Z)
    if d.min() < 1e-3:
        cx.stop("observation at the centre")
    U = (Z / d[:, None]).T @ Z
    U *= n / np.trace(U)
    Tm = np.eye(n) if isinstance(tgt, str) else tgt * n / np.trace(tgt)
    V = (1 - sh) * U + sh * Tm
    cx.leq(np.abs(C * n / np.trace(C) - V), 1e-3 * np.abs(V).max(), "heavy-tail shape solves Tyler's equation", tol=0)
    cx.event("fixed point" if sh == 0 else "shrunk shape")
    _, C2 = M.estimate_moments(X, cov_estimator="tyler", cov_kwargs=dict(shrinkage=sh, target=tg, max_iter=2000, tol=1e-9))
    cx.close(C2, C, "dispatch equals the estimator (Tyler)", rtol=1e-9, atol=0)


def cross_validated(cx, X, Z, C, mo, ac):
    """The automatic penalty is the candidate with the best held-out likelihood (five interleaved folds)."""
    grid = mo * np.geomspace(1.0, 0.01, 5)
    fits = [np.asarray(M.sparse_precision_glasso(X, alpha=float(a), assume_centered=ac), float) for a in grid]
    d = [np.abs(F - C).max() for F in fits]
    T, score = len(Z), np.zeros(5)
    K = min(5, T)
    for f in range(K):
        hold = np.arange(T) % K == f
        V = Z[hold].T @ Z[hold] / hold.sum()
        for j, a in enumerate(grid):
            P = np.asarray(M.sparse_precision_glasso(Z[~hold], alpha=float(a), return_precision=True)[1], float)
            score[j] += (np.linalg.slogdet(P)[1] - np.trace(V @ P)) / K
    ok = score >= score.max() - 1e-3 * (1 + abs(score.max()))
    scale = np.abs(C).max()
    cx.check(min(x for x, o in zip(d, ok) if o) <= 1e-5 * scale, "automatic penalty has the best held-out likelihood", dist=d, scores=score)
    cx.event("cross-validated")


@scenario(SCN, 700, need=["penalty active", "automatic penalty", "cross-validated"])
def sparse(cx):
    rng = cx.rng
    n, T, sc, R, X, names = data(rng, tall=True)
    ac = bool(rng.random() < .5)
    S = R.T @ R / T if ac else mle(R)
    mo = np.abs(S - np.diag(np.diag(S))).max() if n > 1 else np.abs(S).max()
    auto = rng.random() < .2
    a = "auto" if auto else float(mo * rng.choice([0.01, 0.1, 0.5, 0.9, 1.5]))
    if not auto and a <= 0:
        cx.stop("no correlation")
    cx.note(R=X, alpha=a, assume_centered=ac)
    cx.state(n, T, sc, auto, ac)
    C, P = M.sparse_precision_glasso(X, alpha=a, assume_centered=ac, return_precision=True)
    C, P = basic(cx, C, n, names, "glasso"), basic(cx, P, n, names, "glasso precision")
    sd = np.sqrt(np.diag(S))
    cx.leq(np.abs((C @ P - np.eye(n)) * np.outer(1 / sd, sd)), 1e-2 if sc < .01 else 1e-4, "precision inverts the covariance", tol=0)
    D = C - S
    dev = 2e-3 * np.outer(sd, sd) + 1e-4 * np.trace(S) / n + 2.2e-8
    cx.leq(np.abs(np.diag(D)), np.diag(dev), "graphical lasso keeps the variances", tol=0)
    if auto:
        cx.event("automatic penalty")
        cx.leq(np.abs(D), mo * 1.01 + dev, "automatic penalty is at most the largest covariance", tol=0)
        if n > 1 and mo > 2e-6 and T >= 5:
            cross_validated(cx, X, R if ac else R - R.mean(0), C, mo, ac)
            c = float(rng.choice([3.0, 10.0]))
            Cc = M.sparse_precision_glasso(R * c, alpha="auto", assume_centered=ac)
            cx.leq(np.abs(np.asarray(Cc) / c ** 2 - C), 2 * dev, "automatic penalty follows the unit of the returns", tol=0)
    else:
        cx.leq(np.abs(D), a + dev, "graphical lasso moves covariances by at most the penalty", tol=0)
        # complementarity: where the precision is clearly nonzero the move is the full penalty, towards its sign
        q = P / np.sqrt(np.outer(np.diag(P), np.diag(P)))
        act = (np.abs(q) > 0.05) & ~np.eye(n, dtype=bool)
        if act.any():
            cx.event("penalty active")
            cx.leq(np.abs(D - a * np.sign(q))[act], (dev + 1e-2 * a)[act], "graphical lasso satisfies its optimality conditions", tol=0)
        if a > mo * 1.01:
            cx.leq(np.abs(q[~np.eye(n, dtype=bool)]), 2e-3, "a large penalty removes every partial correlation", tol=0)
    C2 = M.sparse_precision_glasso(X, alpha=a, assume_centered=ac)
    cx.close(C2, C, "same estimate with or without the precision", rtol=1e-12, atol=0)


ESTS = {"sample": {}, "ledoit_wolf": {}, "lwcc": {"target": "constant_correlation"}, "oas": {}, "poet": {"k": 2, "thresh": 0.05},
        "tyler": {"shrinkage": 0.1}, "ewma": {"span": 30}, "glasso": {"alpha": None}}


@scenario(SCN, 1200, need=["scaled"])
def equivariance(cx):
    """Reordering assets reorders the matrix; rescaling returns rescales it."""
    rng = cx.rng
    n, T, sc, R, X, names = data(rng, tall=True)
    e = list(ESTS)[cx.index % len(ESTS)]
    kw = dict(ESTS[e])
    name = "ledoit_wolf" if e == "lwcc" else e
    if e == "lwcc" and n == 1:
        cx.stop("one asset")
    S = R.T @ R / T
    if e == "glasso":
        if n == 1:
            cx.stop("one asset")
        kw["alpha"] = 0.3 * np.abs(S - np.diag(np.diag(S))).max()
        if kw["alpha"] <= 0:
            cx.stop("no correlation")
    run = lambda Y, **k: np.asarray(M.estimate_moments(Y, cov_estimator=name, cov_kwargs={**kw, **k})[1])
    cx.note(R=X, estimator=e)
    cx.state(e, n, T, sc)
    C = run(R)
    if e == "poet" and n > 2:
        ev = np.sort(np.linalg.eigvalsh(np.corrcoef(R.T)))[::-1]
        if ev[1] - ev[2] < 1e-6:
            cx.stop("tied eigenvalues")
    big = np.abs(C).max()
    tol = 3e-3 if e in ("glasso", "tyler") else 1e-7
    o = rng.permutation(n)
    cx.leq(np.abs(run(R[:, o]) - C[np.ix_(o, o)]), tol * big, "asset order does not matter", tol=0, estimator=e)
    cx.close(run(X), C, "frames and arrays agree", rtol=1e-9, atol=1e-15, estimator=e)
    if e not in ("ewma",):
        t = rng.permutation(T)
        cx.leq(np.abs(run(R[t]) - C), tol * big, "observation order does not matter", tol=0, estimator=e)
    k = float(rng.choice([0.25, 3.0, 10.0]))
    extra = {"alpha": kw["alpha"] * k * k} if e == "glasso" else {}
    K = run(k * R, **extra)
    floor = 3e-8 * (1 + k * k)  # absolute PSD repair
    cx.leq(np.abs(K - k * k * C), max(tol, 1e-7) * big * k * k + (floor if min(np.linalg.eigvalsh(C).min(), np.linalg.eigvalsh(K).min()) < 5e-8 else 0),
           "covariance scales with the square of the returns", tol=0, estimator=e)
    cx.event("scaled")
    if e in ("sample", "ledoit_wolf", "lwcc", "poet", "tyler"):
        s = rng.normal(size=n) * sc
        cx.leq(np.abs(run(R + s) - C), tol * big + 1e-9 * sc * sc, "constant shifts of the returns do not matter", tol=0, estimator=e)


@scenario(SCN, 1500, need=["repaired"])
def psd_repair(cx):
    rng = cx.rng
    n = int(rng.integers(1, 8))
    A = rng.normal(size=(n, n)) * float(rng.choice([1e-2, 1.0, 1e-4, 30]))
    A = A @ A.T if rng.random() < .4 else A + A.T
    if rng.random() < .3:
        A = A + 1e-6 * rng.normal(size=(n, n)) * np.abs(A).max()
    cx.note(A=A)
    m = np.linalg.eigvalsh(0.5 * (A + A.T)).min()
    cx.state(n, m < 0)
    B = basic(cx, ensure_psd_matrix(A.copy()), n, None, "repaired matrix")
    S = 0.5 * (A + A.T)
    if m >= -1e-8:
        cx.close(B, S, "a PSD matrix is returned unchanged", rtol=1e-12, atol=0)
    else:
        cx.event("repaired")
        d = B - S
        cx.close(d - np.diag(np.diag(d)), np.zeros((n, n)), "repair changes the diagonal only", rtol=0, atol=1e-12 * np.abs(S).max())
        cx.leq(np.diag(d), -m + 1.1e-6, "repair is the smallest diagonal shift", tol=1e-9 * np.abs(S).max())
    cx.check(is_psd(B), "repaired matrix passes the test")
    if m < -1e-6:
        cx.check(not is_psd(S), "indefinite matrices fail the test", m=m)
    cx.raises(lambda: ensure_psd_matrix(np.ones((n, n + 1))), "rectangular matrices are rejected", types=(ValueError,))


@scenario(SCN, 700, need=["raised:ValueError"])
def malformed(cx):
    rng = cx.rng
    n, T, sc, R, X, names = data(rng, tall=True)
    bad = R.copy()
    bad[int(rng.integers(T)), int(rng.integers(n))] = float(rng.choice([np.nan, np.inf, -np.inf]))
    Y = pd.DataFrame(bad, columns=X.columns) if names else bad
    e = str(rng.choice(["sample", "ledoit_wolf", "oas", "poet", "tyler", "ewma", "glasso"]))
    cx.state(e)
    cx.note(R=Y, estimator=e)
    V = (ValueError,)
    cx.raises(lambda: M.estimate_moments(Y, cov_estimator=e), "missing or infinite returns are rejected", types=V, estimator=e)
    for f in (M.shrink_covariance_oas, M.robust_covariance_tyler, M.sparse_precision_glasso):
        cx.raises(lambda: f(Y), "missing or infinite returns are rejected", types=V, f=f.__name__)
    p = gen.probs(rng, T)
    for q in (p[1:], -p, p * 2, np.full(T, np.nan), p * 0):
        cx.raises(lambda: M.estimate_sample_moments(X, q), "invalid probabilities are rejected", types=V)
    for bad in ("nope", "shrunk"):
        cx.raises(lambda: M.estimate_moments(X, cov_estimator=bad), "unknown estimators are rejected", types=V)
        cx.raises(lambda: M.estimate_moments(X, mean_estimator=bad), "unknown estimators are rejected", types=V)
    cx.raises(lambda: M.shrink_covariance_ledoit_wolf(R, np.eye(n), "nope"), "unknown targets are rejected", types=V)
    cx.raises(lambda: M.shrink_covariance_ledoit_wolf(R, np.eye(n + 1)), "mismatched shapes are rejected", types=V)
    cx.raises(lambda: M.robust_covariance_tyler(R, shrinkage=float(rng.choice([-.1, 1.1, np.nan]))), "invalid intensities are rejected", types=V)
    cx.raises(lambda: M.robust_covariance_tyler(R, target=np.eye(n + 1)), "mismatched shapes are rejected", types=V)
    cx.raises(lambda: M.factor_covariance_poet(R, k=int(rng.choice([0, -1]))), "invalid factor counts are rejected", types=V)
    cx.raises(lambda: M.factor_covariance_poet(R, thresh=-0.1), "invalid thresholds are rejected", types=V)
    cx.raises(lambda: M.sparse_precision_glasso(R, alpha=float(rng.choice([0, -1]))), "invalid penalties are rejected", types=V)
    cx.raises(lambda: M.covariance_ewma(R, min_periods=T + 1), "too few observations are rejected", types=V)
    for f in (M.shrink_covariance_oas, M.factor_covariance_poet, M.robust_covariance_tyler, M.covariance_ewma, M.sparse_precision_glasso):
        cx.raises(lambda: f(R[:, 0]), "vectors are rejected", types=V)
