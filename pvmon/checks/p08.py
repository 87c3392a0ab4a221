"""P08: frontiers are efficient and monotone."""
import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import AssetsDistribution, Constraints, PortfolioWrapper

from .. import gen, oracle, use
from ..core import scenario
from . import p05

SCN = []
ASSUMPTIONS = ["distributions of simple returns without trading costs (reported and optimised spaces coincide)",
               "a reversal or domination up to solver accuracy (5e-6 absolute, 1e-4 relative to the frontier's range) is accepted"]


def acc(risk, unit):
    """Risk error of a variance that is accurate to 2e-7 of the largest asset variance (unit = largest volatility)."""
    return 0.0 if unit == 0 else 2e-7 * unit**2 / np.maximum(risk, 4.5e-4 * unit)


def monotone(cx, ret, risk, what, unit=0.0, **data):
    """Sorted by return, risk never falls; no point dominates another by more than solver accuracy."""
    ret, risk = np.asarray(ret, float), np.asarray(risk, float)
    cx.check(np.isfinite(ret).all() and np.isfinite(risk).all(), f"{what}: finite points", ret=ret, risk=risk)
    tr = 5e-6 + 1e-4 * np.ptp(ret)
    tk = 5e-6 + 1e-4 * np.ptp(risk)
    M = len(ret)
    for i in range(M):
        for j in range(M):
            if ret[j] > ret[i] + tr and risk[j] < risk[i] - tk - acc(risk[j], unit):
                cx.violate(f"{what}: no point is dominated", i=i, j=j, ret=ret, risk=risk)
                return
    cx.check(True, f"{what}: no point is dominated")
    cx.leq(ret[:-1], ret[1:], f"{what}: returns in frontier order never fall", tol=tr, ret=ret, risk=risk, **data)
    cx.leq(risk[:-1], risk[1:] + acc(risk[1:], unit), f"{what}: risks in frontier order never fall", tol=tk, ret=ret, risk=risk, **data)
    cx.event("points", M)


def convex(cx, ret, risk, what, unit=0.0):
    """risk as a function of return is convex along the frontier."""
    ret, risk = np.asarray(ret, float), np.asarray(risk, float)
    tk = 1e-5 + 1e-3 * np.ptp(risk)
    for i in range(1, len(ret) - 1):
        d = ret[i + 1] - ret[i - 1]
        if d > 1e-4 * max(np.ptp(ret), 1e-12):
            t = (ret[i] - ret[i - 1]) / d
            cx.leq(risk[i], (1 - t) * risk[i - 1] + t * risk[i + 1] + acc(min(risk[i - 1:i + 2]), unit), f"{what}: risk is convex in return", tol=tk, i=i)


def feasible_cloud(rng, rows, mu, S, w0, k=25):
    """Random feasible portfolios: vertices of the constraint set, the anchor and mixtures."""
    n = len(w0)
    pts = [w0]
    for _ in range(6):
        st, x, v = oracle.lp(rng.normal(size=n), rows)
        if x is not None and st == 0:
            pts.append(x)
    pts = np.array(pts)
    mix = rng.dirichlet(np.full(len(pts), 0.5), size=k)
    return np.vstack([pts, mix @ pts])


def not_dominated(cx, W, ret, risk, cloud, cret, crisk, what, unit=0.0):
    tr = 1e-5 + 1e-3 * np.ptp(ret)
    tk = 1e-5 + 1e-3 * np.ptp(risk)
    for j in range(len(ret)):
        bad = (cret > ret[j] + tr) & (crisk < risk[j] - tk - acc(crisk, unit))
        cx.check(not bad.any(), f"{what}: no feasible portfolio dominates a frontier point", column=j, point=(ret[j], risk[j]),
                 dominator=cloud[np.argmax(bad)] if bad.any() else None)
    cx.leq(risk[0], crisk + tk + acc(crisk, unit), f"{what}: first point has the least risk", tol=0.0)
    cx.leq(cret, ret[-1] + tr, f"{what}: last point has the highest return", tol=0.0)
    cx.event("cloud", len(cloud))


@scenario(SCN, 900, need=["points", "cloud"])
def mean_variance(cx):
    rng = cx.rng
    n, mu, S = gen.moments(rng, scale=float(rng.choice([1.0, 0.2, 0.05, 0.01])))
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    num = int(rng.choice([1, 2, 5, 12]))
    scen = rng.random() < 0.4
    cx.note(spec=s, mu=mu, S=S, num=num)
    cx.state(k, num, scen, s["long_only"])
    if scen:
        T = int(rng.integers(20, 80))
        R = gen.panel(rng, T, n)
        p = gen.probs(rng, T)
        mu = R.T @ p
        S = (R - mu).T @ ((R - mu) * p[:, None])
        wr = use.scenario_wrapper(rng, None, R, p, con=use.to_con(rng, s))
    else:
        wr = use.moment_wrapper(rng, gen.labels(rng, n), mu, S, con=use.to_con(rng, s))
    top = oracle.max_return(mu, rows)[0]
    if top is None:
        cx.stop("unbounded")
    f = use.solve(cx, lambda: wr.variance_frontier(num))
    unit = float(np.sqrt(np.diag(S).max()))
    monotone(cx, f.returns, f.risks, "mean-variance", unit)
    convex(cx, f.returns, f.risks, "mean-variance", unit)
    if f.weights.shape[1] > 1:
        cx.close(f.returns[-1], top, "mean-variance: last point reaches the highest attainable return", rtol=1e-5, atol=3e-6)
        C = feasible_cloud(rng, rows, mu, S, w0)
        not_dominated(cx, f.weights, f.returns, f.risks, C, C @ mu, np.sqrt(np.sum((C @ S) * C, axis=1)), "mean-variance", unit)
    w, r, v = f.min_risk()
    cx.close(v, f.risks[0], "mean-variance: first point is the least risky", rtol=1e-4, atol=5e-6 + float(acc(v, unit)))
    # two grids of the same problem lie on one curve
    if num >= 5:
        g = use.solve(cx, lambda: wr.variance_frontier(3))
        mid = np.interp(g.returns, f.returns, f.risks)
        if g.weights.shape[1] == 3 and np.all(np.diff(f.returns) > 1e-9):
            cx.leq(g.risks, mid + acc(mid, unit) + 1e-5 + 2e-3 * np.ptp(f.risks), "mean-variance: coarser grid lies on the same frontier", tol=0.0)


@scenario(SCN, 600, need=["points", "cloud"])
def mean_cvar(cx):
    rng = cx.rng
    n = int(rng.integers(2, 7))
    T = int(rng.choice([15, 30, 70]))
    R = gen.panel(rng, T, n, scale=float(rng.choice([0.02, 0.1])))
    if rng.random() < 0.2:
        R = R + rng.uniform(0.02, 0.2)  # tail gains: negative CVaR
    p = gen.probs(rng, T)
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    alpha = float(rng.choice([0.01, 0.05, 0.2, 0.5]))
    num = int(rng.choice([1, 2, 5, 9]))
    conv = bool(rng.random() < 0.6)
    mu = R.T @ p
    top = oracle.max_return(mu, rows)[0]
    if top is None:
        cx.stop("unbounded")
    cx.note(spec=s, R=R, p=p, alpha=alpha)
    cx.state(k, alpha, num, conv)
    wr = use.scenario_wrapper(rng, None, R, p, con=use.to_con(rng, s))
    f = use.solve(cx, lambda: wr.cvar_frontier(num, alpha=alpha, enforce_convexity=conv))
    monotone(cx, f.returns, f.risks, "mean-CVaR")
    convex(cx, f.returns, f.risks, "mean-CVaR")
    if f.weights.shape[1] > 1:
        cx.close(f.returns[-1], top, "mean-CVaR: last point reaches the highest attainable return", rtol=1e-6, atol=2e-6)
        C = feasible_cloud(rng, rows, mu, None, w0)
        cv = np.array([oracle.cvar(-(R @ c), p, alpha) for c in C])
        not_dominated(cx, f.weights, f.returns, f.risks, C, C @ mu, cv, "mean-CVaR")


@scenario(SCN, 600, need=["points", "cloud"])
def robust(cx):
    rng = cx.rng
    n, mu, S, U = p05.market(rng)
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    if oracle.max_return(mu, rows)[0] is None:
        cx.stop("unbounded")
    kw = {}
    if rng.random() < 0.5:
        kw["lambdas"] = rng.permutation([0.0, 0.02, 0.3, 1.0, 3.0, 8.0])[: int(rng.integers(1, 6))].tolist()
        grid = np.array(kw["lambdas"])
    else:
        num, mx = int(rng.integers(1, 7)), float(rng.choice([0.0, 0.5, 2.0, 5.0]))
        kw.update(num_portfolios=num, max_lambda=mx)
        grid = np.array([mx]) if num == 1 or mx == 0 else np.linspace(0, mx, num)
    wr = PortfolioWrapper(AssetsDistribution(mu=mu, cov=U), constraints=use.to_con(rng, s))
    cx.note(spec=s, mu=mu, U=U, kw=kw)
    cx.state(k, len(grid), "lambdas" in kw)
    f = use.solve(cx, lambda: wr.robust_lambda_frontier(**kw))
    monotone(cx, f.returns, f.risks, "robust")
    lam = np.array([m["lambda"] for m in f.metadata])
    cx.close(np.sort(lam), np.sort(grid), "robust: every penalty appears once", rtol=1e-12)
    C = feasible_cloud(rng, rows, mu, U, w0)
    crad = np.sqrt(np.sum((C @ U) * C, axis=1))
    for j in range(len(lam)):
        v = f.returns[j] - lam[j] * f.risks[j]
        cv = C @ mu - lam[j] * crad
        cx.leq(cv, v + 1e-5 + 1e-4 * abs(v), "robust: each point is the best for the penalty it carries", tol=0.0, column=j, lam=lam[j])
        # and the frontier's own points never beat each other under that penalty
        others = f.returns - lam[j] * f.risks
        cx.leq(others, v + 1e-5 + 1e-4 * abs(v), "robust: no other frontier point is better under its penalty", tol=0.0, column=j)
    cx.leq(f.risks[:-1], f.risks[1:], "robust: ordered by radius", tol=0.0)
    cx.leq(lam[1:], lam[:-1] + 1e-12, "robust: larger radius carries a smaller penalty",
           tol=0.0 if np.min(np.diff(f.risks), initial=1.0) > 1e-5 else np.inf)
    cx.event("cloud", len(C))


@scenario(SCN, 500, need=["points", "cloud", "small returns"])
def high_frequency(cx):
    """Daily and intraday returns: every comparison is relative to the market's own scale."""
    rng = cx.rng
    sc = float(rng.choice([1e-2, 3e-3, 1e-3, 3e-4]))
    n = int(rng.integers(2, 7))
    S = gen.cov(rng, n, scale=sc, kind=str(rng.choice(["wishart", "factor", "diag"])))
    vol = np.sqrt(np.diag(S))
    mu = vol * rng.uniform(0.005, 0.15, n) * (1 if rng.random() < .7 else rng.choice([-1, 1], n))
    s, w0, k = gen.spec(rng, n, budget=1.0)
    rows = gen.rows_of(s, n)
    top = oracle.max_return(mu, rows)[0]
    if top is None:
        cx.stop("unbounded")
    num = int(rng.choice([3, 6, 12]))
    cx.note(spec=s, mu=mu, S=S, num=num)
    cx.state(k, num, sc, s["long_only"])
    wr = use.moment_wrapper(rng, gen.labels(rng, n), mu, S, con=use.to_con(rng, s))
    f = use.solve(cx, lambda: wr.variance_frontier(num))
    W, ret, risk = np.asarray(f.weights, float), np.asarray(f.returns, float), np.asarray(f.risks, float)
    lev = np.abs(W).sum(0).max()
    mr, unit = np.abs(mu).max() * max(1.0, lev), vol.max()
    cx.event("points", len(ret))
    cx.event("small returns", np.ptp(ret) < 1e-4)
    C = feasible_cloud(rng, rows, mu, S, w0)
    cr, ck = C @ mu, np.sqrt(np.maximum(np.sum((C @ S) * C, axis=1), 0))
    slack = top - ret[0]
    if W.shape[1] == 1:
        cx.leq(slack, 2e-5 * abs(top) + 2e-8 + 1e-6 * mr, "high frequency: a single point means nothing more can be earned", tol=0)
        return
    cx.check(W.shape[1] == num, "high frequency: as many points as asked for", got=W.shape[1])
    tr, tk = 5e-4 * mr + 1e-3 * np.ptp(ret), 1e-5 * unit + 1e-3 * np.ptp(risk)
    cx.close(ret[-1], top, "high frequency: last point reaches the highest attainable return", rtol=0, atol=2e-5 * mr)
    cx.leq(np.abs(ret - np.linspace(ret[0], top, num)), 1e-3 * mr + 2e-2 * np.ptp(ret), "high frequency: points are evenly spaced in return", tol=0)
    cx.leq(ret[:-1], ret[1:] + tr, "high frequency: returns in frontier order never fall", tol=0)
    cx.leq(risk[:-1], risk[1:] + tk + acc(risk[1:], unit), "high frequency: risks in frontier order never fall", tol=0)
    cx.leq(cr, ret[-1] + tr, "high frequency: last point has the highest return", tol=0)
    cx.leq(risk[0], ck + tk + acc(ck, unit), "high frequency: first point has the least risk", tol=0)
    for j in range(num):
        bad = (cr > ret[j] + tr) & (ck < risk[j] - tk - acc(ck, unit))
        cx.check(not bad.any(), "high frequency: no feasible portfolio dominates a frontier point", column=j, point=(ret[j], risk[j]))
    cx.event("cloud", len(C))


@scenario(SCN, 600, need=["envelope moved points", "two-point envelope", "raw kept"])
def inexact_frontier(cx):
    """Fault injection: a CVaR solver returning scattered portfolios; the reported curve is still their monotone convex envelope."""
    rng = cx.rng
    n, T, k = int(rng.integers(2, 6)), int(rng.integers(5, 40)), int(rng.integers(2, 7))
    R = gen.panel(rng, T, n)
    p = gen.probs(rng, T)
    W = rng.dirichlet(np.full(n, .6), k).T
    if rng.random() < .4 and k > 2:  # a bulge above the chord of the end points
        a, b = np.eye(n)[:, 0], np.eye(n)[:, 1]
        t = np.linspace(0, 1, k)
        W = np.outer(a, 1 - t) + np.outer(b, t)
        W[:, 1:-1] = .6 * W[:, 1:-1] + .4 * np.eye(n)[:, [int(np.argmax(R.std(0)))]]
    alpha = float(rng.choice([.05, .1, .3]))
    m = p @ R
    raw = np.array([oracle.cvar(-R @ W[:, j], p, alpha) for j in range(k)])
    o = np.argsort(m @ W, kind="stable")
    x, y = (m @ W)[o], np.maximum.accumulate(raw[o])
    if np.min(np.diff(x), initial=1.0) < 1e-7:
        cx.stop("tied returns")
    cx.note(R=R, p=p, W=W, alpha=alpha)
    import pyvallocation.portfolioapi as pa
    wr = PortfolioWrapper(AssetsDistribution(scenarios=R, probabilities=p))
    keep = pa.MeanCVaR.efficient_frontier
    convexity = bool(rng.random() < .85)
    pa.MeanCVaR.efficient_frontier = lambda self, num: W.copy()
    try:
        f = wr.cvar_frontier(k, alpha=alpha, enforce_convexity=convexity)
    finally:
        pa.MeanCVaR.efficient_frontier = keep
    if f.weights.shape != W.shape or not np.allclose(np.sort(f.weights, axis=1), np.sort(W, axis=1)):
        cx.stop("solver not replaced")
    cx.close(f.weights, W[:, o], "scattered frontier is ordered by return", rtol=0, atol=1e-12)
    cx.close(f.returns, x, "scattered frontier reports its returns", rtol=1e-9, atol=1e-12)
    rawlab = [q for q in f.available_risk_measures() if "raw" in q.lower()]
    cx.check(len(rawlab) == 1, "the uncorrected tail risk is reported as well", got=f.available_risk_measures())
    cx.close(f.alternate_risks[rawlab[0]], raw[o], "the uncorrected tail risk is that of the weights", rtol=1e-8, atol=1e-10)
    if not convexity:
        cx.close(f.risks, raw[o], "without correction the risks are those of the weights", rtol=1e-8, atol=1e-10)
        cx.event("raw kept")
        return
    want = np.array([min([y[i]] + [y[a] + (y[b] - y[a]) * (x[i] - x[a]) / (x[b] - x[a]) for a in range(i) for b in range(i + 1, k)]) for i in range(k)])
    cx.close(f.risks, want, "the corrected risks are the monotone convex envelope", rtol=1e-7, atol=1e-9)
    cx.state(n, k, int((want < y - 1e-9).sum()))
    if (want < y - 1e-9).any():
        cx.event("envelope moved points")
        if (want[1:-1] < y[1:-1] - 1e-9).all() and k > 2:
            cx.event("two-point envelope")
