"""P03: mean-variance portfolios have the least variance attainable."""
import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import AssetsDistribution, Constraints, MeanVariance, PortfolioWrapper, TransactionCosts

from .. import gen, oracle, use, watch
from ..core import scenario

SCN = []
ASSUMPTIONS = ["optimality is certified by the Frank-Wolfe gap at the returned point (HiGHS LP): zero gap = global optimum",
               "solver accuracy: a gap up to 3e-4 of the attained objective (plus 1e-6 of the largest variance) is accepted"]


def gap_ok(cx, w, S, rows, what, imp=None, hold=None, scale=None, **data):
    """Certify w as a minimiser of w'Sw + (w-hold)'diag(imp)(w-hold) over rows."""
    w = np.asarray(w, float)
    g = 2 * S @ w
    f = w @ S @ w
    if imp is not None:
        g = g + 2 * imp * (w - hold)
        f = f + imp @ (w - hold) ** 2
    gap = oracle.fw_gap(g, w, rows, box=max(1.0, np.abs(w).max()))
    if gap is None:  # the returned point is off the set by solver tolerance: relax the rows slightly
        G, h, A, b = rows
        v = oracle.viol(rows, w) * 1.5 + 1e-9
        if v < 1e-4:
            Gr = np.vstack([G, A, -A])
            hr = np.concatenate([h, b, -b]) + v
            gap = oracle.fw_gap(g, w, (Gr, hr, np.zeros((0, len(w))), np.zeros(0)), box=max(1.0, np.abs(w).max()))
    if gap is None:
        cx.event("no certificate")
        return False
    scale = float(np.abs(2 * S).max() if imp is None else np.abs(2 * S + 2 * np.diag(imp)).max())
    wn = max(1.0, float(np.abs(w).max()) ** 2)
    tol = 3e-4 * abs(f) + 2e-6 * scale * wn
    cx.check(gap <= tol, f"{what} attains the minimum", gap=gap, objective=f, tol=tol, w=w, **data)
    cx.maxdev["gap/tol"] = max(cx.maxdev["gap/tol"], gap / tol)
    cx.event("certified")
    if len(rows[1]):
        cx.event("certified_with_active_rows", int(np.any(rows[0] @ w > rows[1] - 1e-6)))
    return True


def market(rng):
    sc = float(rng.choice([1.0, 0.2, 0.05, 0.012, 0.003]))
    n = int(rng.integers(2, 9))
    if rng.random() < 0.2:  # semi-definite
        k = int(rng.integers(1, n)) if n > 1 else 1
        B = rng.normal(size=(n, k)) * sc
        S = B @ B.T
        psd = True
    else:
        S = gen.cov(rng, n, scale=sc)
        psd = False
    mu = gen.mean(rng, n, S + 1e-12 * np.eye(n))
    return n, mu, S, psd, sc


@scenario(SCN, 2000, need=["certified", "certified_with_active_rows", "break-even target"])
def single_portfolios(cx):
    """Class-level minimum variance, with and without a target, with and without impact costs."""
    rng = cx.rng
    n, mu, S, psd, sc = market(rng)
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    G, h, A, b = Constraints(**s).to_matrices(n)
    imp = hold = None
    if rng.random() < 0.4:
        hold = gen.holdings(rng, w0, 0.1)
        imp = np.diag(S).mean() * rng.exponential(1.0, n) * rng.choice([0.1, 1, 10]) * (rng.random(n) < 0.8)
    top, st = oracle.max_return(mu, rows)
    if top is None:
        cx.stop("unbounded")
    o = MeanVariance(mu, S, G, h, A, b, initial_weights=hold, market_impact_costs=imp)
    cx.note(spec=s, mu=mu, S=S, imp=imp, hold=hold)
    w = use.solve(cx, lambda: o.efficient_portfolio(None))
    gap_ok(cx, w, S, rows, "minimum variance", imp, hold)
    lo = float(mu @ w)
    frac = float(rng.choice([0.05, 0.3, 0.6, 0.9, 0.99]))
    t = lo + frac * (top - lo)
    if lo < -1e-3 * np.abs(mu).max() and top > 1e-3 * np.abs(mu).max() and rng.random() < 0.6:
        t, frac = 0.0, "break-even"
        cx.event("break-even target")
    cx.state(k, psd, sc, imp is not None, frac, s["long_only"])
    w = use.solve(cx, lambda: o.efficient_portfolio(t))
    tol = 1e-6 * max(1.0, np.abs(mu).max()) if sc > 0.02 else 1e-6
    cx.leq(t, mu @ w, "target reached", tol=tol)
    rt = oracle.add_row(rows, -mu, -min(t, float(mu @ w)))
    gap_ok(cx, w, S, rt, "minimum variance at a target", imp, hold, target=t)
    # a target below the unconditional minimum's return does not bind
    w2 = use.solve(cx, lambda: o.efficient_portfolio(lo - 0.5 * abs(top - lo) - 1e-3))
    gap_ok(cx, w2, S, rows, "slack target keeps the minimum", imp, hold)


@scenario(SCN, 1200, need=["certified", "certified_with_active_rows"])
def frontiers(cx):
    rng = cx.rng
    n, mu, S, psd, sc = market(rng)
    src = str(rng.choice(["class", "dist", "moments", "scenarios"]))
    names = gen.labels(rng, n) if rng.random() < 0.6 else None
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    imp = hold = None
    costs = None
    if rng.random() < 0.35:
        hold = gen.holdings(rng, w0, 0.1)
        imp = np.diag(S).mean() * rng.exponential(1.0, n) * rng.choice([0.1, 1, 10]) * (rng.random(n) < 0.8)
        costs = TransactionCosts(initial_weights=hold, market_impact_costs=imp)
    num = int(rng.choice([1, 2, 3, 5, 9]))
    cx.state(src, k, psd, sc, imp is not None, num)
    cx.note(spec=s, mu=mu, S=S, num=num, imp=imp, hold=hold, src=src)
    if src == "class":
        G, h, A, b = Constraints(**s).to_matrices(n)
        o = MeanVariance(mu, S, G, h, A, b, initial_weights=hold, market_impact_costs=imp)
        W = use.solve(cx, lambda: o.efficient_frontier(num))
    else:
        if src == "scenarios":
            T = int(rng.choice([n // 2 + 2, 2 * n + 5, 80]))
            R = gen.panel(rng, T, n, scale=0.02 if sc > 0.02 else 0.004)
            p = gen.probs(rng, T) if rng.random() < 0.7 else None
            wr_kw = dict(probabilities=p)
            pp = np.full(T, 1.0 / T) if p is None else p
            mu = R.T @ pp
            S = (R - mu).T @ ((R - mu) * pp[:, None])
            if imp is not None:
                imp = imp / imp.max() * np.diag(S).mean() if imp.max() > 0 else imp
                costs = TransactionCosts(initial_weights=hold, market_impact_costs=imp)
            scen = pd.DataFrame(R, columns=names) if names else R
            mk = lambda **kw: PortfolioWrapper.from_scenarios(scen, **wr_kw, **kw)
        elif src == "dist":
            m_, C_ = gen.arr_or_frame(rng, names, mu, S)
            mk = lambda **kw: PortfolioWrapper(AssetsDistribution(mu=m_, cov=C_), **kw)
        else:
            m_, C_ = gen.arr_or_frame(rng, names, mu, S)
            mk = lambda **kw: PortfolioWrapper.from_moments(m_, C_, **kw)
        con = use.to_con(rng, s)
        if rng.random() < 0.5:
            wr = mk(constraints=con, costs=costs)
            fr = use.solve(cx, lambda: wr.variance_frontier(num))
        else:
            wr = mk()
            fr = use.solve(cx, lambda: wr.variance_frontier(num, constraints=con, costs=costs))
        W = fr.weights
    top, st = oracle.max_return(mu, rows)
    if top is None:
        cx.stop("unbounded")
    rets = mu @ W
    gap_ok(cx, W[:, 0], S, rows, "frontier starts at the minimum", imp, hold)
    scale = max(np.abs(mu).max(), 1e-12) * max(1.0, np.abs(W).max())
    if W.shape[1] == 1:
        cx.check(num == 1 or abs(rets[0] - top) <= 2e-5 * max(abs(top), abs(rets[0])) + 3e-6, "frontier has the requested number of points",
                 num=num, got=1, top=top, ret=rets[0])
        cx.event("collapsed")
        return
    cx.check(W.shape[1] == num, "frontier has the requested number of points", num=num, got=W.shape[1])
    grid = np.linspace(rets[0], top, num)
    acc = 3e-6 * max(1.0, scale)
    cx.leq(grid, rets, "every point reaches its grid return", tol=acc)
    cx.close(rets[-1], top, "last point reaches the highest attainable return", rtol=1e-5, atol=acc)
    if not psd and src != "scenarios" and top - rets[0] > 1e-2 * scale:  # below that, the first point's own accuracy decides the spacing
        cx.close(rets, grid, "grid of returns is evenly spaced", rtol=0, atol=5 * acc + 2e-3 * abs(top - rets[0]))
    for j in range(1, num):
        t = min(grid[j], rets[j])
        gap_ok(cx, W[:, j], S, oracle.add_row(rows, -mu, -t), "frontier point is optimal for its return", imp, hold, column=j)
    cx.event("frontier_points", num)


@scenario(SCN, 600)
def wrapper_targets(cx):
    rng = cx.rng
    n, mu, S, psd, sc = market(rng)
    names = gen.labels(rng, n) if rng.random() < 0.6 else None
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    top, st = oracle.max_return(mu, rows)
    if top is None:
        cx.stop("unbounded")
    lo = -oracle.max_return(-mu, rows)[0]
    t = lo + (top - lo) * float(rng.uniform(0, 0.97))
    m_, C_ = gen.arr_or_frame(rng, names, mu, S)
    cx.note(spec=s, mu=mu, S=S, target=t)
    cx.state(k, psd, sc, names is not None)
    wr = PortfolioWrapper.from_moments(m_, C_) if rng.random() < .5 else PortfolioWrapper(AssetsDistribution(mu=m_, cov=C_))
    imp = hold = costs = None
    if rng.random() < 0.3:
        hold = gen.holdings(rng, w0, 0.1)
        imp = np.diag(S).mean() * rng.exponential(1.0, n)
        costs = TransactionCosts(initial_weights=hold, market_impact_costs=imp)
    w, r, v = use.solve(cx, lambda: wr.min_variance_at_return(t, constraints=use.to_con(rng, s), costs=costs))
    w = np.asarray(w, float)
    cx.leq(t, mu @ w, "target reached", tol=2e-6 * max(1.0, np.abs(mu).max()))
    gap_ok(cx, w, S, oracle.add_row(rows, -mu, -min(t, float(mu @ w))), "minimum variance at a target", imp, hold, target=t)


@scenario(SCN, 600)
def closed_form(cx):
    """Budget-only problems have a textbook solution."""
    rng = cx.rng
    n, mu, S = gen.moments(rng, scale=float(rng.choice([1.0, 0.2, 0.02])))
    B = float(rng.choice([1.0, 1.0, 0.5, 2.0]))
    extra = rng.random() < 0.3 and n >= 3
    A = np.ones((1, n))
    b = np.array([B])
    if extra:
        A = np.vstack([A, np.round(rng.normal(size=n), 2)])
        b = np.append(b, rng.normal())
    if rng.random() < 0.5 or extra:
        o = MeanVariance(mu, S, A=A, b=b)
    else:
        G, h, A_, b_ = Constraints(long_only=False, total_weight=B).to_matrices(n)
        o = MeanVariance(mu, S, G, h, A_, b_)
    imp = hold = None
    P, q = S.copy(), np.zeros(n)
    if rng.random() < 0.4:
        hold = rng.dirichlet(np.ones(n)) * B
        imp = np.diag(S).mean() * rng.exponential(1.0, n)
        P, q = S + np.diag(imp), imp * hold
        o = MeanVariance(mu, S, A=A, b=b, initial_weights=hold, market_impact_costs=imp)

    def kkt(A, b):
        m = len(b)
        K = np.block([[P, A.T], [A, np.zeros((m, m))]])
        return np.linalg.solve(K, np.concatenate([q, b]))[:n]

    cx.note(mu=mu, S=S, A=A, b=b, imp=imp, hold=hold)
    cx.state(n, extra, imp is not None, B)
    w = use.solve(cx, lambda: o.efficient_portfolio(None))
    ref = kkt(A, b)
    cx.close(w, ref, "closed-form minimum variance", rtol=1e-4, atol=1e-4 * np.abs(ref).max())
    t = float(mu @ ref + abs(rng.normal()) * np.abs(mu).mean())
    wt = use.solve(cx, lambda: o.efficient_portfolio(t))
    ref = kkt(np.vstack([A, mu]), np.append(b, t))
    cx.close(wt, ref, "closed-form minimum variance at a target", rtol=1e-3, atol=2e-3 * np.abs(ref).max(), target=t)


@scenario(SCN, 200, need=["retried", "certified"])
def retries_after_stalls(cx):
    """Injected stalls: whatever attempt finally succeeds, the portfolio is still the optimum of the original problem."""
    rng = cx.rng
    n, mu, S = gen.moments(rng, scale=float(rng.choice([1.0, 0.2, 0.05])))
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    top = oracle.max_return(mu, rows)[0]
    if top is None:
        cx.stop("unbounded")
    imp = hold = None
    if rng.random() < 0.4:
        hold = gen.holdings(rng, w0, 0.1)
        imp = np.diag(S).mean() * rng.exponential(1.0, n)
    o = MeanVariance(mu, S, *Constraints(**s).to_matrices(n), initial_weights=hold, market_impact_costs=imp)
    t = None
    if rng.random() < 0.6:
        lo = float(mu @ use.solve(cx, lambda: o.efficient_portfolio(None)))
        t = lo + float(rng.choice([0.3, 0.8])) * (top - lo)
    K = int(rng.integers(1, 6))
    cx.note(spec=s, mu=mu, S=S, stalls=K, target=t, imp=imp, hold=hold)
    cx.state(k, K, t is not None, imp is not None)
    with watch.solver_trace(fail=lambda i, st: "unknown" if i <= K else st) as tr:
        try:
            w = np.asarray(o.efficient_portfolio(t), float)
        except RuntimeError:
            cx.event("gave up")
            return
    if len(tr) > 1:
        cx.event("retried")
    use.feasible(cx, rows, w, "portfolio after stalls")
    if t is not None:
        cx.leq(t, mu @ w, "target reached after stalls", tol=1e-6 * max(1.0, np.abs(mu).max()))
        rows = oracle.add_row(rows, -mu, -min(t, float(mu @ w)))
    gap_ok(cx, w, S, rows, "minimum variance after stalls", imp, hold)
