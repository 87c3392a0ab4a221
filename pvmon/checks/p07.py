"""P07: maximum-Sharpe portfolios beat every feasible portfolio."""
import numpy as np
import pyvallocation as pv
from pyvallocation import Constraints, InfeasibleOptimizationError, MeanVariance

from .. import gen, oracle, use
from ..core import scenario

SCN = []
ASSUMPTIONS = ["w maximises (mu'w - rf)/vol iff mu'v - rf - SR(w) vol(v) <= 0 for every feasible v, bracketed by cutting planes (HiGHS)",
               "a Sharpe ratio within 2e-4 relative of the best one found is accepted as solver accuracy"]


def sharpe(w, mu, S, rf):
    return float((mu @ w - rf) / np.sqrt(w @ S @ w))


def best(cx, w, mu, S, rf, rows, what, **data):
    sr = sharpe(w, mu, S, rf)
    ub, lb, wb, st = oracle.norm_program(mu, S, sr, rows)
    if st != "ok" or wb is None:
        cx.event("reference_" + st)
        return
    cx.event("certified")
    s2 = sharpe(wb, mu, S, rf) if wb @ S @ wb > 0 else -np.inf
    cx.leq(s2, sr + 2e-4 * abs(sr) + 1e-6, f"{what}: no feasible portfolio has a higher Sharpe ratio", tol=0.0, w=w, better=wb, **data)
    cx.maxdev["excess ratio"] = max(cx.maxdev["excess ratio"], (s2 - sr) / (2e-4 * abs(sr) + 1e-6))


@scenario(SCN, 900, need=["certified", "active rows"])
def constrained(cx):
    rng = cx.rng
    sc = float(rng.choice([1.0, 0.2, 0.05, 0.01, 0.001]))
    n, mu, S = gen.moments(rng, lo=1, scale=sc)
    s, w0, k = gen.spec(rng, n, budget=float(rng.choice([1.0, 1.0, 1.0, 0.5, 2.0])))
    rows = gen.rows_of(s, n)
    v0 = float(np.sqrt(w0 @ S @ w0))
    rf = float(rng.choice([0.0, mu @ w0 - 0.3 * v0, mu @ w0 - 1.5 * v0, mu @ w0 - 0.03 * v0]))
    top, st = oracle.max_return(mu, rows)
    if top is None:
        cx.stop("unbounded")
    sl = oracle.slack(rows, n)
    if sl is None or sl < 1e-3:
        cx.stop("no interior")
    if rng.random() < 0.12:
        rf = float(top + v0 * rng.choice([0.01, 0.3, 3.0]))
    cx.note(spec=s, mu=mu, S=S, rf=rf)
    cx.state(k, sc, rf == 0, s["long_only"])
    G, h, A, b = Constraints(**s).to_matrices(n)
    o = MeanVariance(mu, S, G, h, A, b)
    margin = (top - rf) / v0
    if margin < -1e-3:
        e = cx.raises(lambda: o.max_sharpe(rf), "no positive excess return raises")
        cx.check(e is None or isinstance(e, InfeasibleOptimizationError), "no positive excess return raises InfeasibleOptimizationError")
        cx.event("no excess")
        return
    if margin < 0.02:
        cx.stop("borderline")
    try:
        r = o.max_sharpe(rf)
    except RuntimeError as e:
        cx.violate("attainable positive excess return is solved", err=str(e), top=top, rf=rf)
        return
    w = np.asarray(r.weights, float)
    use.feasible(cx, rows, w, "max-Sharpe", tol=2e-5)
    cx.close(r.nominal_return, mu @ w, "return is that of the weights", rtol=1e-9, atol=1e-12)
    cx.close(r.risk, np.sqrt(w @ S @ w), "risk is that of the weights", rtol=1e-9, atol=1e-12)
    if len(rows[1]) and np.any(rows[0] @ w > rows[1] - 1e-6):
        cx.event("active rows")
    best(cx, w, mu, S, rf, rows, "max-Sharpe")
    # beats every point of the mean-variance frontier of the same problem
    try:
        W = o.efficient_frontier(8)
    except RuntimeError:
        return
    srs = [sharpe(W[:, j], mu, S, rf) for j in range(W.shape[1])]
    cx.leq(max(srs), sharpe(w, mu, S, rf) + 2e-4 * abs(max(srs)) + 1e-6, "beats every frontier point", tol=0.0)


@scenario(SCN, 300, need=["closed form"])
def closed_form(cx):
    """Budget only: the tangency portfolio is proportional to S^-1 (mu - rf)."""
    rng = cx.rng
    n, mu, S = gen.moments(rng, lo=1, scale=float(rng.choice([1.0, 0.2, 0.02])))
    B = float(rng.choice([1.0, 1.0, 2.0, 0.5]))
    # rf is charged on the whole portfolio: excess = mu'w - rf, hence mu - rf / B per unit of budget
    rf = float(mu.mean() - abs(rng.normal()) * np.sqrt(np.diag(S).mean()))
    x = np.linalg.solve(S, mu - rf / B)
    if x.sum() < 0.05 * np.abs(x).sum():
        cx.stop("tangency at infinity")
    ref = x / x.sum() * B
    cx.note(mu=mu, S=S, rf=rf, B=B)
    cx.state(n, B)
    if B == 1.0 and rng.random() < 0.5:
        o = MeanVariance(mu, S)
    elif rng.random() < 0.5:
        o = MeanVariance(mu, S, A=np.ones((1, n)), b=np.array([B]))
    else:
        lo = float(min(ref.min() - 1, -1))
        hi = float(max(ref.max() + 1, 1))
        o = MeanVariance(mu, S, *Constraints(long_only=False, total_weight=B, bounds=(lo, hi)).to_matrices(n))
    try:
        r = o.max_sharpe(rf)
    except RuntimeError as e:
        cx.violate("tangency portfolio is found", err=str(e))
        return
    cx.close(r.weights, ref, "closed-form tangency", rtol=5e-3, atol=5e-3 * np.abs(ref).max())
    cx.event("closed form")


@scenario(SCN, 200)
def invariances(cx):
    rng = cx.rng
    n, mu, S = gen.moments(rng, scale=0.2)
    s, w0, k = gen.spec(rng, n, budget=1.0)
    G, h, A, b = Constraints(**s).to_matrices(n)
    rf = float(mu @ w0 - 0.5 * np.sqrt(w0 @ S @ w0))
    cx.note(spec=s, mu=mu, S=S, rf=rf)
    cx.state(k, n)
    try:
        base = MeanVariance(mu, S, G, h, A, b).max_sharpe(rf)
    except RuntimeError:
        cx.stop("solver")
    sr = sharpe(base.weights, mu, S, rf)

    def again(mu2, S2, rf2, what):
        try:
            w = MeanVariance(mu2, S2, G, h, A, b).max_sharpe(rf2).weights
        except RuntimeError as e:
            cx.violate(f"{what}: solved like the original", err=str(e))
            return
        cx.close(sharpe(w, mu, S, rf), sr, what, rtol=3e-4, atol=1e-6)

    c = float(rng.choice([0.1, 5.0]))
    again(mu * c, S, rf * c, "scaling excess returns keeps the optimum")
    again(mu, S * c * c, rf, "scaling the covariance keeps the optimum")
    a = float(rng.normal(0, 0.1))
    again(mu + a, S, rf + a, "shifting returns and the risk-free rate keeps the optimum")
