"""P05: robust portfolios optimise the worst-case mean and report its radius."""
import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import AssetsDistribution, Constraints, PortfolioWrapper, RobustOptimizer, TransactionCosts

from .. import gen, oracle, use
from ..core import scenario

SCN = []
ASSUMPTIONS = ["the reference optimum is bracketed by Kelley cutting planes (HiGHS): every LP value bounds the optimum from above",
               "objective differences up to 2e-6 absolute plus 2e-5 relative are solver accuracy"]


def worst_case(w, mu, U, lam, cost=None, hold=None):
    v = float(mu @ w - lam * np.sqrt(max(w @ U @ w, 0.0)))
    return v - (float(cost @ np.abs(w - hold)) if cost is not None else 0.0)


def optimal(cx, w, mu, U, lam, rows, what, cost=None, hold=None, cap=None, **data):
    ub, lb, wb, st = oracle.norm_program(mu, U, lam, rows, cost=cost, w0=hold, cap=cap)
    if st != "ok":
        cx.event("reference_" + st)
        return
    got = worst_case(w, mu, U, lam, cost, hold)
    if ub - lb > 1e-5 * max(1.0, abs(ub)):
        cx.event("loose bracket")
        if not np.isfinite(lb):
            return
    tol = 2e-6 + 2e-5 * max(abs(ub), abs(mu @ w), lam * np.sqrt(w @ U @ w))
    # lb is attained by a feasible portfolio: the returned one must do at least as well
    cx.leq(lb, got + tol, f"{what} attains the best worst case", tol=0.0, lam=lam, cap=cap, w=w, wref=wb, **data)
    cx.leq(got, ub + tol, f"{what} does not beat the bound (feasibility)", tol=1e-5, lam=lam)
    cx.event("certified")
    cx.maxdev["objective/tol"] = max(cx.maxdev["objective/tol"], (lb - got) / tol)


def radius(w, U):
    return float(np.sqrt(max(w @ U @ w, 0.0)))


def market(rng):
    n = int(rng.integers(2, 8))
    S = gen.cov(rng, n, scale=float(rng.choice([1.0, 0.2, 0.05, 0.01, 0.002])))
    mu = gen.mean(rng, n, S)
    U = S * float(rng.choice([0.01, 0.1, 1.0])) if rng.random() < 0.5 else gen.cov(rng, n, scale=float(np.sqrt(np.diag(S).mean())) * 0.4)
    return n, mu, S, U


def costs_of(rng, w0, n, p=0.4):
    if rng.random() > p:
        return None, None
    return rng.choice([1e-4, 1e-3, 0.01, 0.05]) * rng.exponential(1.0, n) * (rng.random(n) < 0.8), gen.holdings(rng, w0)


@scenario(SCN, 700, need=["certified"])
def lambda_variant(cx):
    rng = cx.rng
    n, mu, S, U = market(rng)
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    if oracle.max_return(mu, rows)[0] is None:
        cx.stop("unbounded")
    cost, hold = costs_of(rng, w0, n)
    G, h, A, b = Constraints(**s).to_matrices(n)
    o = RobustOptimizer(mu, U, G, h, A, b, initial_weights=hold, proportional_costs=cost)
    lam = float(rng.choice([0.0, 0.01, 0.3, 1.0, 2.0, 10.0]) * rng.choice([1.0, rng.uniform(0.5, 1.5)]))
    cx.note(spec=s, mu=mu, U=U, lam=lam, cost=cost, hold=hold)
    cx.state(k, lam if lam in (0, 0.01, 0.3, 1, 2, 10) else "x", cost is not None, s["long_only"])
    r = use.solve(cx, lambda: o.solve_lambda_variant(lam))
    w = np.asarray(r.weights, float)
    optimal(cx, w, mu, U, lam, rows, "robust portfolio", cost, hold)
    cx.close(r.risk, radius(w, U), "risk is the radius of the weights", rtol=1e-5, atol=2e-6)
    cx.close(r.nominal_return, mu @ w, "return is that of the weights", rtol=1e-9, atol=1e-12)
    rets, risks, W = use.solve(cx, lambda: o.efficient_frontier([lam, lam * 2 + 0.1]))
    cx.close(risks, [radius(W[:, j], U) for j in range(2)], "risk is the radius of the weights", rtol=1e-5, atol=2e-6)
    cx.close(rets, mu @ W, "return is that of the weights", rtol=1e-9, atol=1e-12)
    optimal(cx, W[:, 1], mu, U, lam * 2 + 0.1, rows, "robust frontier point", cost, hold)


@scenario(SCN, 450, need=["certified", "cap_binds", "limit below the least radius"])
def gamma_variant(cx):
    rng = cx.rng
    n, mu, S, U = market(rng)
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    if oracle.max_return(mu, rows)[0] is None:
        cx.stop("unbounded")
    cost, hold = costs_of(rng, w0, n)
    names = gen.labels(rng, n) if rng.random() < 0.5 else None
    cap = radius(w0, U) * float(rng.choice([1.02, 1.3, 3.0]))
    g = float(rng.choice([0.0, 0.2, 1.0, 3.0]))
    cx.note(spec=s, mu=mu, U=U, gamma=g, cap=cap, cost=cost, hold=hold)
    cx.state(k, g, cost is not None)
    if rng.random() < 0.5:
        G, h, A, b = Constraints(**s).to_matrices(n)
        o = RobustOptimizer(mu, U, G, h, A, b, initial_weights=hold, proportional_costs=cost)
        r = use.solve(cx, lambda: o.solve_gamma_variant(g, cap**2))
        w, ret, risk = np.asarray(r.weights, float), r.nominal_return, r.risk
    else:
        m_, U_ = gen.arr_or_frame(rng, names, mu, U)
        wr = PortfolioWrapper(AssetsDistribution(mu=m_, cov=U_), constraints=use.to_con(rng, s),
                              costs=TransactionCosts(initial_weights=hold, proportional_costs=cost) if cost is not None else None)
        out = use.solve(cx, lambda: wr.solve_robust_gamma_portfolio(g, cap**2))
        w, ret, risk = np.asarray(out[0], float), out[1], np.sqrt(out[2])
        cx.leq(out[2], cap**2, "reported squared radius within the limit", tol=1e-12)
    if s["total_weight"] and rng.random() < 0.3:  # no invested portfolio is free of estimation risk
        G, h, A, b = Constraints(**s).to_matrices(n)
        o = RobustOptimizer(mu, U, G, h, A, b, initial_weights=hold, proportional_costs=cost)
        floor = abs(s["total_weight"]) / np.sqrt(np.linalg.inv(U).sum())  # least radius at this budget
        for c2 in (0.0, (floor * 0.9) ** 2):
            cx.raises(lambda: o.solve_gamma_variant(g, c2), "a limit below the least estimation risk is infeasible", types=(RuntimeError,))
        cx.event("limit below the least radius")
    rw = radius(w, U)
    cx.leq(rw, cap, "radius within the declared limit", tol=2e-6 + 1e-5 * cap)
    cx.close(risk, rw, "risk is the radius of the weights", rtol=2e-5, atol=5e-6)
    cx.close(ret, mu @ w, "return is that of the weights", rtol=1e-9, atol=1e-12)
    if rw > cap * (1 - 1e-4):
        cx.event("cap_binds")
    optimal(cx, w, mu, U, g, rows, "gamma portfolio", cost, hold, cap=cap)


@scenario(SCN, 300, need=["certified"])
def wrapper_frontiers(cx):
    rng = cx.rng
    n, mu, S, U = market(rng)
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    if oracle.max_return(mu, rows)[0] is None:
        cx.stop("unbounded")
    names = gen.labels(rng, n) if rng.random() < 0.6 else None
    cost, hold = costs_of(rng, w0, n, 0.3)
    costs = TransactionCosts(initial_weights=hold, proportional_costs=cost) if cost is not None else None
    m_, U_ = gen.arr_or_frame(rng, names, mu, U)
    con = use.to_con(rng, s)
    kw = {}
    if rng.random() < 0.5:
        lams = rng.permutation([0.0, 0.05, 0.5, 1.0, 4.0])[: int(rng.integers(1, 5))]
        kw["lambdas"] = lams.tolist()
        grid = lams
    else:
        num, mx = int(rng.integers(1, 6)), float(rng.choice([0.5, 2.0, 5.0]))
        kw.update(num_portfolios=num, max_lambda=mx)
        grid = np.array([mx]) if num == 1 else np.linspace(0, mx, num)
    if rng.random() < 0.5:
        wr = PortfolioWrapper(AssetsDistribution(mu=m_, cov=U_), constraints=con, costs=costs)
        f = use.solve(cx, lambda: wr.robust_lambda_frontier(**kw))
    else:
        wr = PortfolioWrapper(AssetsDistribution(mu=m_, cov=U_))
        f = use.solve(cx, lambda: wr.robust_lambda_frontier(constraints=con, costs=costs, **kw))
    cx.note(spec=s, mu=mu, U=U, grid=grid, cost=cost, hold=hold)
    cx.state(k, len(grid), cost is not None, "lambdas" in kw)
    lam = np.array([m["lambda"] for m in f.metadata])
    cx.close(np.sort(lam), np.sort(grid), "every requested penalty appears once", rtol=1e-12)
    W = f.weights
    cx.close(f.risks, [radius(W[:, j], U) for j in range(W.shape[1])], "risk is the radius of the weights", rtol=1e-5, atol=2e-6)
    cx.leq(f.risks[:-1], f.risks[1:], "frontier ordered by radius", tol=0.0)
    for j in range(W.shape[1]):
        optimal(cx, W[:, j], mu, U, float(lam[j]), rows, "robust frontier point", cost, hold, column=j)


@scenario(SCN, 250, need=["certified"])
def from_posterior(cx):
    """Robust posterior: uncertainty scatter drives the optimisation, not the return covariance."""
    rng = cx.rng
    n, mu, S = gen.moments(rng, scale=float(rng.choice([0.2, 0.05])))
    names = gen.strlabels(rng, n)
    T0, nu0 = int(rng.integers(5, 200)), int(rng.integers(n + 3, 200))
    smu = pd.Series(mu * rng.uniform(0.5, 1.5), index=names)
    sS = pd.DataFrame(gen.cov(rng, n, scale=0.1), index=names, columns=names)
    post = pv.RobustBayesPosterior.from_niw(prior_mu=pd.Series(mu, index=names), prior_sigma=pd.DataFrame(S, index=names, columns=names),
                                            t0=T0, nu0=nu0, sample_mu=smu, sample_sigma=sS, n_obs=int(rng.integers(20, 300)))
    hzn = float(rng.choice([1.0, 4.0, 12.0, .25, .5]))
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    wr = PortfolioWrapper.from_robust_posterior(post, constraints=use.to_con(rng, s), annualization_factor=hzn)
    m = np.asarray(post.mu, float) * hzn
    U = np.asarray(post.s_mu, float) * hzn**2
    if oracle.max_return(m, rows)[0] is None:
        cx.stop("unbounded")
    lam = float(rng.choice([0.2, 1.0, 3.0]))
    cx.note(spec=s, m=m, U=U, lam=lam)
    cx.state(k, hzn, lam)
    f = use.solve(cx, lambda: wr.robust_lambda_frontier(lambdas=[lam]))
    w = f.weights[:, 0]
    optimal(cx, w, m, U, lam, rows, "posterior robust portfolio")
    cx.close(f.risks[0], radius(w, U), "risk is the radius of the weights", rtol=1e-5, atol=2e-6)
    cap = radius(w0, U) * 1.1
    w, r, v = use.solve(cx, lambda: wr.solve_robust_gamma_portfolio(lam, cap**2))
    w = np.asarray(w, float)
    optimal(cx, w, m, U, lam, rows, "posterior gamma portfolio", cap=cap)
    cx.close(np.sqrt(v), radius(w, U), "risk is the radius of the weights", rtol=2e-5, atol=5e-6)
    C = np.asarray(post.sigma, float) * hzn
    mean_simple = np.exp(m + 0.5 * np.diag(C)) - 1
    cx.close(r, mean_simple @ w, "return reported in simple space", rtol=1e-9, atol=1e-12)
