"""P04: CVaR portfolios have the least tail loss attainable."""
import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import AssetsDistribution, Constraints, MeanCVaR, PortfolioWrapper, TransactionCosts
from scipy.stats import norm

from .. import gen, oracle, use
from ..core import scenario

SCN = []
ASSUMPTIONS = ["the reference optimum is an independent Rockafellar-Uryasev LP solved by HiGHS",
               "objective differences up to 2e-6 absolute (plus 1e-5 relative) are solver accuracy"]
ALPHAS = [0.01, 0.05, 0.1, 0.25, 0.5, 0.9, 1.0]


def objective(w, R, p, alpha, cost=None, hold=None):
    v = oracle.cvar(-(R @ w), p, alpha)
    return v + (cost @ np.abs(w - hold) if cost is not None else 0.0)


def optimal(cx, w, R, p, alpha, rows, what, mu=None, target=None, cost=None, hold=None, **data):
    st, wref, ref = oracle.cvar_program(R, p, alpha, rows, mu=mu, target=target, cost=cost, w0=hold)
    if st != 0:
        cx.event("reference_status_%s" % st)
        return None
    got = objective(w, R, p, alpha, cost, hold)
    tol = 2e-6 + 1e-5 * abs(ref)
    cx.leq(got, ref + tol, f"{what} attains the least tail loss", tol=0.0, alpha=alpha, target=target, w=w, wref=wref, **data)
    if target is not None and got < ref - tol - 1e-5:  # the LP accepts a return short of its target by 1e-7
        ref = oracle.cvar_program(R, p, alpha, rows, mu=mu, target=target - 2e-7, cost=cost, w0=hold)[2]
    cx.leq(ref - tol, got, f"{what} does not beat the reference (feasibility)", tol=1e-5, alpha=alpha)
    cx.event("certified")
    cx.maxdev["objective/tol"] = max(cx.maxdev["objective/tol"], (got - ref) / tol)
    return ref


def market(rng):
    n = int(rng.integers(2, 7))
    T = int(rng.choice([n, 12, 25, 50, 80, 150, 320], p=[.15, .15, .2, .2, .15, .1, .05]))
    R = gen.panel(rng, T, n, scale=float(rng.choice([0.02, 0.05, 0.005, 5e-4])))
    if rng.random() < 0.15:
        R = np.abs(R) + 0.01  # every scenario is a gain: negative CVaR
    if rng.random() < 0.15:
        R = R[rng.integers(0, T, T)]  # duplicated scenarios
    p = gen.probs(rng, T)
    return n, T, R, p


@scenario(SCN, 700, need=["certified"])
def single_portfolios(cx):
    rng = cx.rng
    n, T, R, p = market(rng)
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    alpha = float(rng.choice(ALPHAS))
    G, h, A, b = Constraints(**s).to_matrices(n)
    cost = hold = None
    if rng.random() < 0.4:
        hold = gen.holdings(rng, w0, 0.1)
        cost = rng.choice([1e-4, 1e-3, 0.01]) * rng.exponential(1.0, n) * (rng.random(n) < 0.8)
    mu = R.T @ p
    mean = None
    if rng.random() < 0.3:
        mean = mu = mu + rng.normal(0, 0.3, n) * R.std()
    cx.note(spec=s, R=R, p=p, alpha=alpha, cost=cost, hold=hold, mean=mean)
    cx.state(k, alpha, T, cost is not None, mean is not None, s["long_only"])
    o = MeanCVaR(R=R, p=p, alpha=alpha, G=G, h=h, A=A, b=b, initial_weights=hold, proportional_costs=cost, mean=mean)
    w = use.solve(cx, lambda: o.efficient_portfolio(None))
    optimal(cx, w, R, p, alpha, rows, "minimum CVaR", cost=cost, hold=hold)
    top, st = oracle.max_return(mu, rows)
    if top is None:
        cx.stop("unbounded")
    lo = float(mu @ w)
    t = lo + (top - lo) * float(rng.choice([0.1, 0.5, 0.9]))
    if lo < -1e-6 and top > 1e-6 and rng.random() < 0.5:
        t = 0.0
    w = use.solve(cx, lambda: o.efficient_portfolio(t))
    cx.leq(t, mu @ w, "target reached", tol=2e-7)
    optimal(cx, w, R, p, alpha, rows, "minimum CVaR at a target", mu=mu, target=t, cost=cost, hold=hold)


@scenario(SCN, 300, need=["certified"])
def frontiers(cx):
    rng = cx.rng
    n, T, R, p = market(rng)
    names = gen.labels(rng, n) if rng.random() < 0.6 else None
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    alpha = float(rng.choice(ALPHAS[:-1]))
    cost = hold = costs = None
    if rng.random() < 0.35:
        hold = gen.holdings(rng, w0, 0.1)
        cost = rng.choice([1e-4, 1e-3, 0.01]) * rng.exponential(1.0, n)
        costs = TransactionCosts(initial_weights=hold, proportional_costs=cost)
    num = int(rng.choice([1, 2, 4, 7]))
    pu = p if rng.random() < 0.7 else None
    pp = np.full(T, 1.0 / T) if pu is None else p
    mu = R.T @ pp
    scen = pd.DataFrame(R, columns=names) if names else R
    given = rng.random() < 0.25
    if given:
        mu = mu + rng.normal(0, 0.3, n) * R.std()
        S = np.cov(R.T, aweights=pp, bias=True).reshape(n, n) + 1e-8 * np.eye(n)
        m_, C_ = gen.arr_or_frame(rng, names, mu, S)
        d = AssetsDistribution(mu=m_, cov=C_, scenarios=scen, probabilities=pu)
        mk = lambda **kw: PortfolioWrapper(d, **kw)
    else:
        mk = lambda **kw: PortfolioWrapper.from_scenarios(scen, probabilities=pu, **kw)
    con = use.to_con(rng, s)
    convex = bool(rng.random() < 0.7)
    cx.note(spec=s, R=R, p=pu, alpha=alpha, num=num, cost=cost, hold=hold, mu=mu)
    cx.state(k, alpha, T, cost is not None, num, given, convex)
    if rng.random() < 0.5:
        wr = mk(constraints=con, costs=costs)
        call = lambda: wr.cvar_frontier(num, alpha=alpha, enforce_convexity=convex)
    else:
        wr = mk()
        call = lambda: wr.cvar_frontier(num, alpha=alpha, constraints=con, costs=costs, enforce_convexity=convex)
    f = use.solve(cx, call)
    W = f.weights
    top, st = oracle.max_return(mu, rows)
    if top is None:
        cx.stop("unbounded")
    cv = np.array([oracle.cvar(-(R @ W[:, j]), pp, alpha) for j in range(W.shape[1])])
    cx.close(f.returns, mu @ W, "frontier returns are those of the weights", rtol=1e-9, atol=1e-12)
    raw = f.alternate_risks[f"CVaR (raw, alpha={alpha:.2f})"]
    cx.close(raw, cv, "raw CVaR is that of the weights", rtol=1e-7, atol=1e-10)
    if not convex:
        cx.close(f.risks, cv, "frontier risk is the CVaR of the weights", rtol=1e-7, atol=1e-10)
    elif cost is None:
        cx.close(f.risks, cv, "frontier risk is the CVaR of the weights", rtol=1e-4, atol=3e-6)
    ref = optimal(cx, W[:, 0], R, pp, alpha, rows, "frontier starts at the minimum", cost=cost, hold=hold)
    if W.shape[1] == 1:
        cx.check(num == 1 or abs(mu @ W[:, 0] - top) <= 2e-5 * abs(top) + 1e-6, "frontier has the requested number of points", num=num)
        return
    cx.check(W.shape[1] == num, "frontier has the requested number of points", num=num, got=W.shape[1])
    r0 = float(mu @ W[:, 0])
    grid = np.linspace(r0, top, num)
    cx.leq(grid, mu @ W, "every point reaches its grid return", tol=2e-6)
    cx.close(mu @ W[:, -1], top, "last point reaches the highest attainable return", rtol=1e-6, atol=2e-6)
    for j in range(1, num):
        optimal(cx, W[:, j], R, pp, alpha, rows, "frontier point", mu=mu, target=min(grid[j], float(mu @ W[:, j])),
                cost=cost, hold=hold, column=j)


@scenario(SCN, 250, need=["certified"])
def wrapper_targets(cx):
    rng = cx.rng
    n, T, R, p = market(rng)
    names = gen.labels(rng, n) if rng.random() < 0.6 else None
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    alpha = float(rng.choice(ALPHAS[:-1]))
    mu = R.T @ p
    top, st = oracle.max_return(mu, rows)
    if top is None:
        cx.stop("unbounded")
    lo = -oracle.max_return(-mu, rows)[0]
    t = lo + (top - lo) * float(rng.uniform(0, 0.97))
    if lo < -1e-6 and top > 1e-6 and rng.random() < 0.3:
        t = 0.0
    cost = hold = costs = None
    if rng.random() < 0.35:
        hold = gen.holdings(rng, w0, 0.1)
        cost = rng.choice([1e-4, 1e-3, 0.01]) * rng.exponential(1.0, n)
        costs = TransactionCosts(initial_weights=hold, proportional_costs=cost)
    cx.note(spec=s, R=R, p=p, alpha=alpha, target=t, cost=cost, hold=hold)
    cx.state(k, alpha, T, cost is not None)
    wr = use.scenario_wrapper(rng, names, R, p)
    w, r, v = use.solve(cx, lambda: wr.min_cvar_at_return(t, alpha=alpha, constraints=use.to_con(rng, s), costs=costs))
    w = np.asarray(w, float)
    cx.leq(t, mu @ w, "target reached", tol=2e-7)
    cx.close(r, mu @ w, "return is that of the weights", rtol=1e-9, atol=1e-12)
    cx.close(v, oracle.cvar(-(R @ w), p, alpha), "risk is the CVaR of the weights", rtol=1e-7, atol=1e-10)
    optimal(cx, w, R, p, alpha, rows, "minimum CVaR at a target", mu=mu, target=t, cost=cost, hold=hold)


@scenario(SCN, 200)
def metamorphic(cx):
    """Relations between optima: alpha = 1, scaling, shifts, scenario splitting, zero-probability rows."""
    rng = cx.rng
    n, T, R, p = market(rng)
    s, w0, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    G, h, A, b = Constraints(**s).to_matrices(n)
    alpha = float(rng.choice(ALPHAS[1:5]))
    cx.note(spec=s, R=R, p=p, alpha=alpha)
    cx.state(k, alpha, T)

    def best(R, p, alpha):
        o = MeanCVaR(R=R, p=p, alpha=alpha, G=G, h=h, A=A, b=b)
        w = use.solve(cx, lambda: o.efficient_portfolio())
        return oracle.cvar(-(R @ w), p, alpha), w

    base, w = best(R, p, alpha)
    tol = dict(rtol=1e-6, atol=1.5e-6)
    c = float(rng.choice([0.5, 3.0]))
    cx.close(best(c * R, p, alpha)[0], c * base, "scaled returns scale the optimum", **tol)
    if s["total_weight"] is not None:
        a = 0.03
        cx.close(best(R + a, p, alpha)[0], base - a * s["total_weight"], "shifted returns shift the optimum", **tol)
    i = int(rng.integers(T))
    q = float(rng.random())
    p2 = np.append(p, p[i] * (1 - q))
    p2[i] *= q
    cx.close(best(np.vstack([R, R[i]]), p2, alpha)[0], base, "splitting a scenario keeps the optimum", **tol)
    junk = rng.normal(size=(1, n)) * 10
    cx.close(best(np.vstack([junk, R]), np.append(0.0, p), alpha)[0], base, "a zero-probability scenario changes nothing", **tol)
    mean_opt, st = oracle.max_return(R.T @ p, rows)
    if mean_opt is not None:
        cx.close(best(R, p, 1.0)[0], -mean_opt, "tail level one minimises the expected loss", **tol)
    a2 = min(1.0, alpha * 1.7)
    cx.leq(best(R, p, a2)[0], base, "a wider tail never raises the optimum", tol=1e-7)


@scenario(SCN, 2, 24)
def simulated_scenarios(cx):
    """Moments only: the simulated panel gives Gaussian tail losses and follows its seed."""
    rng = cx.rng
    n, mu, S = gen.moments(rng, 3, scale=0.2)
    wr = use.moment_wrapper(rng, None, mu, S)
    t = float(mu.mean())
    alpha = float(rng.choice([0.05, 0.1]))
    w, r, v = use.solve(cx, lambda: wr.min_cvar_at_return(t, alpha=alpha, seed=gen.seed(rng)))
    w = np.asarray(w)
    sd = np.sqrt(w @ S @ w)
    ref = -mu @ w + sd * norm.pdf(norm.ppf(alpha)) / alpha
    cx.close(v, ref, "simulated CVaR near its Gaussian value", rtol=0, atol=0.12 * sd)
    cx.close(r, mu @ w, "return is that of the weights", rtol=1e-9)
    cx.state(alpha)


@scenario(SCN, 8, thorough=60, need=["log posterior"])
def simulated_posterior(cx):
    """A log-return posterior is simulated in log returns and judged in simple ones."""
    rng = cx.rng
    n, mu, S = gen.moments(rng, 3, scale=float(rng.choice([.1, .3])))
    mu = np.clip(mu, -.3, .3)
    h = float(rng.choice([1.0, 2.0]))
    names = gen.labels(rng, n) if rng.random() < .5 else None
    m, C = gen.arr_or_frame(rng, names, mu, S)
    wr = PortfolioWrapper.from_robust_posterior(pv.RobustBayesPosterior(mu=m, sigma=C, s_mu=S / 50), annualization_factor=h)
    alpha = float(rng.choice([0.05, 0.1]))
    cx.note(mu=mu, cov=S, horizon=h)
    cx.state(n, h, alpha)
    simple_mu = np.expm1(h * mu + h * np.diag(S) / 2)
    X = np.expm1(np.random.default_rng(7).multivariate_normal(h * mu, h * S, 60000))
    u = np.full(len(X), 1 / len(X))
    fr = use.solve(cx, lambda: wr.cvar_frontier(3, alpha=alpha, seed=gen.seed(rng)))
    for k in range(fr.weights.shape[1]):
        w = np.asarray(fr.weights[:, k])
        L = -(X @ w)
        sd = L.std()
        cx.close(fr.returns[k], simple_mu @ w, "return is the simple return of the weights", rtol=1e-8, atol=1e-12)
        cx.close(fr.risks[k], oracle.cvar(L, u, alpha), "simulated CVaR near its log-normal value", rtol=0, atol=.2 * sd)
    cx.event("log posterior")
