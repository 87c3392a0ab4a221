"""P02: infeasible or invalid requests raise; strictly feasible ones are solved."""
import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import Constraints, InfeasibleOptimizationError, MeanCVaR, MeanVariance, RelaxedRiskParity, RobustOptimizer

from .. import gen, oracle, use, watch
from ..core import scenario
from .p01 import CALLS, _setup

SCN = []
ASSUMPTIONS = ["HiGHS certificates decide which constraint systems are infeasible (by a margin) or have an interior",
               "a bounded, well-scaled, strictly feasible problem is one the shipped solvers must solve"]


def _conflict(rng, s, w, n):
    """Add one declaration that contradicts the others by a clear margin."""
    s = dict(s)
    rows = gen.rows_of(s, n)
    kind = rng.choice(["group", "Gh", "Ab", "equalities", "bounds", "relative", "budget"])
    m = float(rng.choice([0.02, 0.1, 0.5, 2.0]))
    if kind == "group":
        idx = list(range(n)) if rng.random() < 0.5 else [int(i) for i in rng.permutation(n)[: max(1, n - 1)]]
        r = np.zeros(n)
        r[idx] = 1.0
        v, st = oracle.max_return(r, rows)
        if v is None:
            return None
        g = dict(s.get("group_constraints") or {})
        g["bad"] = (idx, v + m, v + m + 1.0)
        s["group_constraints"] = g
    elif kind == "Gh":
        r = np.round(rng.normal(size=n), 2)
        v, st = oracle.max_return(r, rows)
        if v is None:
            return None
        s["additional_G_h"] = list(s.get("additional_G_h") or []) + [((-r).tolist(), -(v + m))]
    elif kind == "Ab":
        r = np.round(rng.normal(size=n), 2)
        v, st = oracle.max_return(r, rows)
        if v is None:
            return None
        s["additional_A_b"] = list(s.get("additional_A_b") or []) + [(r.tolist(), v + m)]
    elif kind == "equalities":  # two equalities that cannot hold together
        A, b = rows[2], rows[3]
        if not len(b):
            return None
        c = rng.choice([1.0, 2.0, -1.0], len(b)) * (rng.random(len(b)) < .7)
        if not c.any():
            c[0] = 1.0
        s["additional_A_b"] = list(s.get("additional_A_b") or []) + [((c @ A).tolist(), float(c @ b + m * rng.choice([-1, 1])))]
    elif kind == "relative":
        if n < 2:
            return None
        i, j = (int(x) for x in rng.permutation(n)[:2])
        r = np.zeros(n)
        r[i], r[j] = -1.0, 1.0
        v, st = oracle.max_return(r, rows)
        if v is None:
            return None
        s["relative_bounds"] = list(s.get("relative_bounds") or []) + [(i, j, -(v + m))]
    elif kind == "bounds":
        if s.get("total_weight") is None:
            return None
        hi = s["total_weight"] / n - m / n
        lo = -5.0
        if s["long_only"] and hi < 0:
            hi = 0.0
        s["bounds"] = (lo, hi) if rng.random() < 0.5 else [(lo, hi)] * n
        if s["total_weight"] - n * hi < 0.01:
            return None
    else:
        v, st = oracle.max_return(np.ones(n), gen.rows_of({**s, "total_weight": None}, n))
        if v is None:
            return None
        s["total_weight"] = v + m
    t = oracle.slack(gen.rows_of(s, n), n)
    return (s, kind) if (t is None or t < -1e-3) else None


def _call(rng, wr, which, target, con=None):
    kw = {} if con is None else {"constraints": con}
    if which == "variance_frontier":
        return wr.variance_frontier(4, **kw)
    if which == "cvar_frontier":
        return wr.cvar_frontier(3, alpha=0.1, **kw)
    if which == "robust_lambda_frontier":
        return wr.robust_lambda_frontier(3, **kw)
    if which == "min_variance_at_return":
        return wr.min_variance_at_return(target, **kw)
    if which == "min_cvar_at_return":
        return wr.min_cvar_at_return(target, alpha=0.1, **kw)
    if which == "gamma":
        return wr.solve_robust_gamma_portfolio(0.5, 100.0, **kw)
    if which == "rrp":
        return wr.relaxed_risk_parity_portfolio(lambda_reg=0.2, target_multiplier=1.2, **kw)
    return wr.relaxed_risk_parity_frontier(2, **kw)


@scenario(SCN, 800, need=["conflict:equalities", "conflict:group", "conflict:budget"])
def contradictory_constraints_raise(cx):
    rng = cx.rng
    n, names, mu, S, build, src = _setup(cx, 1.0)
    which = CALLS[cx.index % len(CALLS)]
    s, w, k = gen.spec(rng, n, long_only=True, budget=1.0) if which.startswith("rrp") else gen.spec(rng, n)
    out = _conflict(rng, s, w, n)
    if out is None:
        cx.stop("conflict not constructible")
    bad, kind = out
    cx.state(which, kind)
    cx.note(spec=bad, which=which)
    target = float(np.min(mu) - 1.0)  # an easy target: only the constraints conflict
    if rng.random() < 0.5:
        wr = build(con=use.to_con(rng, bad))
        cx.raises(lambda: _call(rng, wr, which, target), f"{which} with contradictory constraints raises", kind=kind)
    else:
        wr = build(con=use.to_con(rng, s))
        cx.raises(lambda: _call(rng, wr, which, target, use.to_con(rng, bad)),
                  f"{which} with contradictory override raises", kind=kind)
    cx.event("conflict:" + kind)


@scenario(SCN, 400, need=["unattainable", "attainable"])
def return_targets(cx):
    """Targets above the attainable maximum raise; targets below it are met."""
    rng = cx.rng
    n, names, mu, S, build, src = _setup(cx, 1.0)
    s, w, k = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    top, st = oracle.max_return(mu, rows)
    if top is None:
        cx.stop("unbounded")
    t = oracle.slack(rows, n)
    if t is None or t < 5e-3:
        cx.stop("no interior")
    wr = build(con=use.to_con(rng, s))
    spread = max(abs(top), np.abs(mu).max(), 1e-3)
    cx.note(spec=s, top=top)
    over = float(top + spread * rng.choice([0.01, 0.1, 1.0, 10.0]))
    cx.state(k, s["long_only"])
    for name, fn in (("min_variance_at_return", wr.min_variance_at_return),
                     ("min_cvar_at_return", lambda x: wr.min_cvar_at_return(x, alpha=0.1))):
        e = cx.raises(lambda: fn(over), f"{name} above the attainable maximum raises", top=top, target=over)
        if e is not None:
            cx.check(isinstance(e, InfeasibleOptimizationError), "unattainable target raises InfeasibleOptimizationError",
                     got=type(e).__name__, err=str(e))
        cx.event("unattainable")
        lo = -oracle.max_return(-mu, rows)[0]
        under = float(lo + (top - lo) * rng.choice([0.0, 0.3, 0.7, 0.95]))
        try:
            w_, r_, _ = fn(under)
        except RuntimeError as err:
            cx.violate(f"{name}: attainable target is solved", err=str(err), target=under, top=top)
            continue
        cx.leq(under, mu @ w_.to_numpy(), f"{name} meets the target", tol=1e-6)
        cx.event("attainable")


@scenario(SCN, 500, need=["solved"])
def feasible_problems_are_solved(cx):
    rng = cx.rng
    n, names, mu, S, build, src = _setup(cx, 0.7)
    which = CALLS[cx.index % len(CALLS)]
    if src == "mom" and "cvar" in which:
        which = "variance_frontier"
    s, w, k = gen.spec(rng, n, long_only=True, budget=1.0) if which.startswith("rrp") else gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    check_rows = rows
    if which.startswith("rrp"):  # that model also asks for non-negative marginal risks
        check_rows = (np.vstack([rows[0], -S / np.abs(S).max()]), np.append(rows[1], np.zeros(n)), rows[2], rows[3])
    t = oracle.slack(check_rows, n)
    if t is None or t < 5e-3:
        cx.stop("no interior")
    if oracle.max_return(mu, rows)[0] is None:
        cx.stop("unbounded")
    wr = build(con=use.to_con(rng, s))
    cx.state(which, k, src)
    cx.note(spec=s, which=which, mu=mu, S=S)
    target = float(mu @ w - 0.02 * abs(mu @ w) - 1e-4)
    try:
        _call(rng, wr, which, target)
    except RuntimeError as e:
        cx.violate(f"{which}: strictly feasible problem is solved", err=str(e), slack=t)
        return
    cx.event("solved")
    cx.n_checks += 1


@scenario(SCN, 240, need=["solved"])
def zero_limits_are_solved(cx):
    """Excluded assets and zero bounds leave a solvable problem, and it is solved."""
    rng = cx.rng
    n, names, mu, S, build, src = _setup(cx, 0.7)
    s, w, form = gen.excluded(rng, n)
    which = str(rng.choice(CALLS[:5] if src == "scen" else ["variance_frontier", "robust_lambda_frontier", "min_variance_at_return"]))
    wr = build(con=use.to_con(rng, s))
    cx.state(which, form, src)
    cx.note(spec=s, which=which, mu=mu, S=S)
    try:
        _call(rng, wr, which, float(mu @ w - 0.02 * abs(mu @ w) - 1e-4))
    except RuntimeError as e:
        cx.violate(f"{which}: problem with zero limits is solved", err=str(e))
        return
    cx.event("solved")
    cx.n_checks += 1


@scenario(SCN, 320, need=["injected"])
def solver_failures_surface(cx):
    """Injected solver outcomes other than 'optimal' must never yield a portfolio."""
    rng = cx.rng
    n, names, mu, S, build, src = _setup(cx, 1.0)
    which = (CALLS + ["sharpe"])[cx.index % (len(CALLS) + 1)]
    s, w, k = gen.spec(rng, n, long_only=True, budget=1.0)
    wr = build(con=use.to_con(rng, s))
    status = str(rng.choice(["unknown", "primal infeasible", "dual infeasible"]))
    mode = str(rng.choice(["all", "last", "raise"]))
    cx.state(which, status, mode)
    cx.note(spec=s, which=which, status=status, mode=mode)
    target = float(mu @ w - 0.02 * abs(mu @ w) - 1e-4)

    def go():
        if which == "sharpe":
            G, h, A, b = Constraints(**s).to_matrices(n)
            return MeanVariance(mu, S, G, h, A, b).max_sharpe(float(mu @ w - 0.5 * np.sqrt(w @ S @ w)))
        return _call(rng, wr, which, target)

    with watch.solver_trace() as tr:
        try:
            go()
        except RuntimeError:
            cx.stop("solver")
    total = len(tr)
    if total == 0:
        cx.stop("solver not observed")
    if mode == "raise":
        with watch.solver_trace(exc=ArithmeticError("injected")) as tr2:
            cx.raises(go, f"{which} surfaces a solver exception")
    elif mode == "all":
        with watch.solver_trace(fail=lambda i, st: status) as tr2:
            cx.raises(go, f"{which} raises when the solver reports no optimum", status=status)
    else:
        # the last solve of the clean run fails, and so does everything after it (retries included);
        # relaxed risk parity documents a fallback to the solve without target, which fails here too
        with watch.solver_trace(fail=lambda i, st: status if i >= total else st) as tr2:
            cx.raises(go, f"{which} raises when its final solve fails", status=status, total=total)
    cx.event("injected", len(tr2))
    with watch.solver_trace() as tr3:  # the failure leaves no trace
        try:
            go()
        except RuntimeError as e:
            cx.violate(f"{which}: works again after a failed solve", err=str(e))


@scenario(SCN, 240)
def invalid_parameters_raise(cx):
    rng = cx.rng
    n, names, mu, S, build, src = _setup(cx, 1.0)
    wr = build()
    R = np.asarray(wr.dist.scenarios)
    p = np.asarray(wr.dist.probabilities)
    G, h, A, b = Constraints().to_matrices(n)
    neg = -float(rng.choice([1e-6, 0.1, 3.0]))
    nan = float("nan")
    badb = np.full(n, 1.0 / n)
    badb[rng.integers(n)] = rng.choice([0.0, -0.2])
    tests = {
        "alpha<=0": lambda: wr.cvar_frontier(3, alpha=float(rng.choice([0.0, neg]))),
        "alpha>1": lambda: wr.min_cvar_at_return(-1.0, alpha=1.0 + abs(neg)),
        "alpha class 0": lambda: MeanCVaR(R=R, p=p, alpha=0.0, G=G, h=h, A=A, b=b).efficient_portfolio(),
        "alpha class neg": lambda: MeanCVaR(R=R, p=p, alpha=neg, G=G, h=h, A=A, b=b).efficient_portfolio(),
        "alpha nan": lambda: wr.cvar_frontier(3, alpha=nan),
        "negative lambda": lambda: wr.robust_lambda_frontier(lambdas=[0.5, neg]),
        "negative max_lambda": lambda: wr.robust_lambda_frontier(3, max_lambda=neg),
        "empty lambdas": lambda: wr.robust_lambda_frontier(lambdas=[]),
        "no points": lambda: wr.robust_lambda_frontier(int(rng.choice([0, -2]))),
        "negative lambda class": lambda: RobustOptimizer(mu, S, G, h, A, b).solve_lambda_variant(neg),
        "nan lambda": lambda: wr.robust_lambda_frontier(lambdas=[nan]),
        "negative gamma_mu": lambda: wr.solve_robust_gamma_portfolio(neg, 1.0),
        "negative gamma_sigma": lambda: wr.solve_robust_gamma_portfolio(1.0, neg),
        "unattainable radius": lambda: wr.solve_robust_gamma_portfolio(1.0, 1e-6 * float(np.linalg.eigvalsh(S).min()) / n),
        "nan gamma": lambda: wr.solve_robust_gamma_portfolio(nan, 1.0),
        "negative lambda_reg": lambda: wr.relaxed_risk_parity_portfolio(lambda_reg=neg),
        "nan lambda_reg": lambda: wr.relaxed_risk_parity_portfolio(lambda_reg=nan),
        "negative multiplier": lambda: wr.relaxed_risk_parity_portfolio(target_multiplier=neg),
        "lambda_reg without target": lambda: wr.relaxed_risk_parity_portfolio(lambda_reg=0.2, target_multiplier=None),
        "rrp frontier negative lambda_reg": lambda: wr.relaxed_risk_parity_frontier(2, lambda_reg=neg),
        "rrp frontier no points": lambda: wr.relaxed_risk_parity_frontier(0),
        "rrp frontier multiplier below 1": lambda: wr.relaxed_risk_parity_frontier(2, max_multiplier=0.5),
        "rrp frontier empty": lambda: wr.relaxed_risk_parity_frontier(target_multipliers=[]),
        "rrp frontier negative": lambda: wr.relaxed_risk_parity_frontier(target_multipliers=[1.0, neg]),
        "budget sign": lambda: wr.relaxed_risk_parity_portfolio(risk_budgets=badb),
        "budget length": lambda: wr.relaxed_risk_parity_portfolio(risk_budgets=np.full(n + 1, 0.1)),
        "cvar nan target": lambda: wr.min_cvar_at_return(nan),
        "mv nan target": lambda: wr.min_variance_at_return(nan),
        "rrp nan target": lambda: wr.relaxed_risk_parity_portfolio(return_target=nan),
        "sharpe infeasible": lambda: MeanVariance(mu, S, G, h, A, b).max_sharpe(float(mu.max() + 0.1)),
    }
    keys = sorted(tests)
    for k in [keys[i] for i in rng.permutation(len(keys))[:10]]:
        cx.raises(tests[k], f"invalid parameter raises [{k}]")
        cx.state(k)


@scenario(SCN, 60)
def unbounded_or_underspecified(cx):
    """No upper limit on return: the frontier has no right end and the call raises."""
    rng = cx.rng
    n, mu, S = gen.moments(rng)
    n2, R = n, gen.panel(rng, 30, n)
    d = pv.AssetsDistribution(mu=mu, cov=S)
    wr = pv.PortfolioWrapper(d, long_only=False)
    cx.raises(lambda: wr.variance_frontier(3), "mean-variance frontier without bounds raises")
    cx.raises(lambda: wr.robust_lambda_frontier(lambdas=[0.0]), "robust frontier without bounds and penalty raises")
    m = pv.PortfolioWrapper(pv.AssetsDistribution(mu=mu)) if rng.random() < .5 else None
    if m is not None:
        cx.raises(lambda: m.variance_frontier(3), "mean-variance without covariance raises")
        cx.raises(lambda: m.cvar_frontier(3), "CVaR without scenarios or covariance raises")
        cx.raises(lambda: m.robust_lambda_frontier(3), "robust without covariance raises")
    t = float(rng.normal())
    w, r, k = wr.min_variance_at_return(t)  # bounded below: solvable although unbounded above
    cx.leq(t, mu @ np.asarray(w), "unbounded set still meets a target", tol=1e-5 * max(1, abs(t)))
    cx.close(np.sum(w), 1.0, "unbounded set keeps the budget", atol=1e-5)
    cx.state(n)
