"""P34: malformed inputs are rejected, never silently used."""
import copy
import dataclasses

import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import AssetsDistribution, Constraints, PortfolioWrapper, RelaxedRiskParity, TransactionCosts
from pyvallocation import discrete_allocation as da
from pyvallocation import ensembles as en
from pyvallocation import moments as mo
from pyvallocation import probabilities as pr
from pyvallocation import stress as st
from pyvallocation import views as vw
from pyvallocation.bayesian import NIWPosterior
from pyvallocation.utils import functions as fn
from pyvallocation.utils import performance as pf
from pyvallocation.utils import projection as pj
from pyvallocation.utils.constraints import build_G_h_A_b

from .. import calls, gen, watch
from ..core import scenario

SCN = []
QUICK_FACTOR = 2  # relative cost of this check
RULE = ("a call that succeeds is repeated with exactly one input made malformed; the monitor requires an exception. A returned value, or a native crash of the "
        "interpreter (seen by the worker watchdog), is a violation")
ASSUMPTIONS = ["element-wise transforms (exp/log conversions, repricers, shock maps) propagate NaN instead of rejecting it, and charts draw what they are given; both are excluded",
               "weights may name fewer assets than the price list, extra assets with zero weight are allowed in reports, probability weights are normalised rather than rejected when they do not sum to one",
               "a price of an asset with zero weight is never read, so a bad one is not seen"]
PASS_THROUGH = {"composed", "convert_scenarios", "reprice", "reprice_fn", "returns_helper", "shock_map", "validation", "log_scenarios"}
NAMES = [n for n in sorted(calls.TABLE) if n not in PASS_THROUGH and not n.startswith("plot_")]
REJECT = (ValueError, TypeError, KeyError, RuntimeError, IndexError, ArithmeticError)


def base_call(cx, name):
    """The unmalformed call must work on this world; otherwise there is nothing to compare with."""
    s = int(cx.rng.integers(1 << 31))

    def make():
        return calls.build(np.random.default_rng(s), name)
    c = make()
    try:
        out = c()
    except REJECT as e:
        cx.event("base call unavailable")
        cx.stop(f"base call: {type(e).__name__}")
    return make(), out


def rejected(cx, fn, what, **data):
    try:
        out = fn()
    except REJECT as e:
        if isinstance(e, TypeError) and any(x in str(e) for x in ("unexpected keyword", "required positional", "positional arguments but")):
            raise AssertionError(f"harness calls {what!r} with a wrong signature: {e}") from e
        cx.event("rejected")
        cx.event("rejected with " + type(e).__name__)
        cx.check(True, what + " is rejected")
        return True
    cx.check(False, what + " is rejected", returned=repr(out)[:300], **data)


@scenario(SCN, 2600, thorough=20000, need=["rejected"])
def non_finite(cx):
    """One NaN or infinite entry, anywhere in one array, series or frame of any call."""
    name = NAMES[cx.index % len(NAMES)]
    c, out = base_call(cx, name)
    bad = calls.corrupt(cx.rng, c)
    if bad is None:
        cx.stop("no numeric argument")
    args, (k, pos, x) = bad
    cx.note(call=name, argument=k, position=pos, value=x)
    cx.state(name, k, str(x))
    if name == "mean_cvar_class" and k == "h" and x == np.inf:
        cx.stop("an infinite right-hand side is no constraint")
    if name == "frontier_discrete" and k == "px":
        try:
            got = c(args)
        except REJECT:
            cx.event("rejected")
            return
        cx.check(watch.fingerprint(got) == watch.fingerprint(out), "a price that is used is checked", got=got, without_corruption=out)
        return
    rejected(cx, lambda: c(args), f"{name}: a {'NaN' if np.isnan(x) else 'infinite'} entry of `{k}`", position=pos, value=x)


def _asset_axes(n, v):
    return [a for a, s in enumerate(np.shape(v)) if s == n] if isinstance(v, (np.ndarray, pd.Series, pd.DataFrame)) else []


@scenario(SCN, 2200, thorough=16000, need=["drop", "relabel", "negative", "short"])
def mismatched(cx):
    """One asset missing from, or renamed in, one of several arguments; probabilities negative or of another length."""
    rng = cx.rng
    name = NAMES[cx.index % len(NAMES)]
    c, out = base_call(cx, name)
    mode = ("drop", "relabel", "negative", "short")[int(rng.integers(4))]
    if mode in ("negative", "short") and "p" not in c.args:
        mode = ("drop", "relabel")[int(rng.integers(2))]
    n = {len(v) for k, v in c.args.items() if k in ("mu", "w", "S")} | {v.shape[1] for k, v in c.args.items() if k in ("R", "X") and np.ndim(v) == 2}
    if mode in ("drop", "relabel"):
        if len(n) != 1:
            cx.stop("no common asset axis")
        n = n.pop()
        ks = [(k, a) for k, v in c.args.items() for a in _asset_axes(n, v)]
        if mode == "relabel":
            ks = [(k, a) for k, a in ks if isinstance(c.args[k], (pd.Series, pd.DataFrame)) and all(isinstance(z, str) for z in c.args[k].axes[a])
                  and not isinstance(c.args[k].axes[a], pd.RangeIndex) and not str(c.args[k].axes[a][0]).startswith("o0")]
        if len({k for k, _ in ks}) < 2:
            cx.stop("no second argument to mismatch")
        k, a = ks[int(rng.integers(len(ks)))]
        v, j = c.args[k], int(rng.integers(n))
        if mode == "drop":
            if name in ("allocation_input", "greedy", "mip", "averages") and k == "w":
                cx.stop("fewer weights than prices are allowed")
            new = np.delete(v, j, a) if isinstance(v, np.ndarray) else v.drop(v.axes[a][j], axis=a)
        else:
            new, L = v.copy(), list(v.axes[a])
            L[j] = "nobody"
            new = new.set_axis(L, axis=a)
        if name == "averages":
            cx.stop("samples and weights have separate axes")
        if name == "pnl" and (k, a) == ("s", 1):
            cx.stop("an axis of portfolios")
        if name == "pnl" and mode == "drop" and k == "R" and not np.asarray(c.args["w"])[j] and not np.asarray(c.args["s"])[j].any():
            cx.stop("nothing held in the missing asset")
    else:
        if mode == "short" and name in ("effective_scenarios", "normalize_probabilities"):
            cx.stop("any length is fine")
        k, a, v = "p", 0, c.args["p"]
        j = int(rng.integers(len(v)))
        if mode == "negative":
            new = v.copy()
            if isinstance(new, pd.Series):
                new.iloc[j] = -float(rng.choice([.1, .01, .5, 1e-3, 1e-5, 1e-7]))
            else:
                new[j] = -float(rng.choice([.1, .01, .5, 1e-3, 1e-5, 1e-7]))
        else:
            new = v.iloc[:-1] if isinstance(v, pd.Series) else v[:-1]
    cx.event(mode)
    cx.note(call=name, mode=mode, argument=k, axis=a, entry=j)
    cx.state(name, mode, k, a)
    rejected(cx, lambda: c(dict(c.args, **{k: new})), f"{name}: {mode} in `{k}`", axis=a, entry=j)


# ---------------------------------------------------------------- nested inputs
def bad_constraints(rng, n):
    """(what, malformed constraint specification) with everything else satisfiable."""
    bad = float(rng.choice([np.nan, np.nan, np.inf, -np.inf]))
    nan = np.nan
    i, j = (int(x) for x in rng.permutation(n)[:2])
    base = {"long_only": True, "total_weight": 1.0}
    row = rng.normal(size=n)
    out = int(rng.choice([-1, -2, -n, n, n + 2]))
    opts = {
        "NaN lower bound": {"bounds": [(nan if a == i else 0.0, 1.0) for a in range(n)]},
        "NaN upper bound": {"bounds": [(0.0, nan if a == i else 1.0) for a in range(n)]},
        "NaN bound in a mapping": {"bounds": {i: (0.0, nan)}},
        "NaN common bound": {"bounds": (0.0, nan)},
        "crossed bounds": {"bounds": [(.9, .1) if a == i else (0.0, 1.0) for a in range(n)]},
        "bounds of another length": {"bounds": [(0.0, 1.0)] * (n + int(rng.choice([-1, 1])))},
        "bound of an asset out of range": {"bounds": {out: (0.0, .5)}},
        "NaN total weight": {"total_weight": nan},
        "infinite total weight": {"total_weight": float(rng.choice([np.inf, -np.inf]))},
        "NaN relative bound": {"relative_bounds": [(i, j, nan)]},
        "relative bound of an asset out of range": {"relative_bounds": [(i, out, .1) if rng.random() < .5 else (out, j, .1)]},
        "NaN group limit": {"group_constraints": {"g": ([i, j], 0.0, nan)}},
        "NaN group floor": {"group_constraints": {"g": ([i, j], nan, .9)}},
        "group member out of range": {"group_constraints": {"g": ([i, out] if rng.random() < .5 else [out], 0.0, .9)}},
        "crossed group limits": {"group_constraints": {"g": ([i, j], .8, .2)}},
        "NaN row": {"additional_G_h": [(np.where(np.arange(n) == i, bad, row), 10.0)]},
        "NaN right-hand side": {"additional_G_h": [(row, nan)]},
        "row of another length": {"additional_G_h": [(np.append(row, 1.0) if rng.random() < .5 else row[:-1], 10.0)]},
        "NaN equality row": {"additional_A_b": [(np.where(np.arange(n) == i, bad, row), .1)]},
        "NaN equality value": {"additional_A_b": [(row, bad)]},
        "equality row of another length": {"additional_A_b": [(row[:-1], .1)]},
        "bounds with three limits": {"bounds": [(0.0, .5, 1.0) if a == i else (0.0, 1.0) for a in range(n)]},
        "common bounds with three limits": {"bounds": (0.0, .5, 1.0)},
        "crossed common bounds": {"bounds": (.9, .1)},
        "crossed bounds in a mapping": {"bounds": {i: (.7, .2)}},
        "limit that is not a number": {"bounds": {i: (0.0, "much")}},
        "relative bound with two entries": {"relative_bounds": [(i, j)]},
        "relative bound of an asset with itself": {"relative_bounds": [(i, i, .1)]},
        "relative limit that is not a number": {"relative_bounds": [(i, j, "little")]},
        "infeasible floor": {"bounds": [(1.5, 2.0) if a == i else (0.0, 1.0) for a in range(n)]},
    }
    what = list(opts)[int(rng.integers(len(opts)))]
    return what, dict(base, **opts[what])


@scenario(SCN, 1100, thorough=8000, need=["rejected"])
def constraints(cx):
    """Malformed constraint specifications, for every optimiser and as constructor or per-call arguments."""
    rng = cx.rng
    W = calls.World(rng)
    what, c = bad_constraints(rng, W.n)
    d = AssetsDistribution(mu=W.mu, cov=W.S, scenarios=W.R, probabilities=W.p)
    per_call = bool(rng.random() < .5)
    job = str(rng.choice(["variance", "cvar", "robust", "gamma", "parity", "return", "cvar return", "matrices", "parity frontier"]))
    cx.note(what=what, job=job, per_call=per_call)
    cx.state(what, job, per_call)
    cx.event(what)
    cc = Constraints(**c) if rng.random() < .5 else c

    def go():
        if job == "matrices":
            return build_G_h_A_b(W.n, **c)
        w = PortfolioWrapper(d, **({} if per_call else {"constraints": cc}))
        k = {"constraints": cc} if per_call else {}
        return {"variance": lambda: w.variance_frontier(4, **k), "cvar": lambda: w.cvar_frontier(3, alpha=.1, **k), "robust": lambda: w.robust_lambda_frontier(num_portfolios=2, **k),
                "gamma": lambda: w.solve_robust_gamma_portfolio(1.0, 9.0, **k), "parity": lambda: w.relaxed_risk_parity_portfolio(**k),
                "return": lambda: w.min_variance_at_return(float(np.min(W.mu_)), **k), "cvar return": lambda: w.min_cvar_at_return(float(np.min(W.mu_)), alpha=.1, **k),
                "parity frontier": lambda: w.relaxed_risk_parity_frontier(lambda_reg=.1, target_multipliers=[1.0], **k)}[job]()
    if job == "matrices" and what in ("crossed group limits", "infeasible floor", "NaN row", "NaN equality row", "NaN equality value"):
        cx.stop("found by the solve")
    rejected(cx, go, what, job=job)


@scenario(SCN, 500, thorough=4000, need=["rejected"])
def costs(cx):
    """Malformed trading costs and starting weights."""
    rng = cx.rng
    W = calls.World(rng)
    n, i = W.n, int(rng.integers(W.n))
    d = AssetsDistribution(mu=W.mu, cov=W.S, scenarios=W.R, probabilities=W.p)
    job = str(rng.choice(["variance", "cvar", "robust", "return", "cvar return"]))
    field = {"variance": "market_impact_costs", "return": "market_impact_costs"}.get(job, "proportional_costs")
    base = {"initial_weights": W.vec(rng.dirichlet(np.ones(n))), field: W.vec(rng.uniform(1e-4, .01, n))}
    tgt = str(rng.choice(list(base)))
    v = base[tgt]
    mode = str(rng.choice(["nan", "inf", "length", "labels", "negative"]))
    a = np.asarray(v, float).copy()
    new = None
    if mode in ("nan", "inf"):
        a[i] = np.nan if mode == "nan" else float(rng.choice([np.inf, -np.inf]))
        new = W.vec(a)
    elif mode == "length":
        new = a[:-1] if rng.random() < .5 else np.append(a, .1)
    elif mode == "labels":
        if not W.lab:
            cx.stop("no labels")
        L = list(W.names)
        L[i] = "nobody"
        new = pd.Series(a, index=L)
    else:
        if tgt != "proportional_costs":
            cx.stop("short starting positions are legal")
        a[i] = -.01
        new = W.vec(a)
    cx.note(job=job, field=tgt, mode=mode)
    cx.state(job, tgt, mode, W.lab)
    cx.event(mode)
    per_call = bool(rng.random() < .5)

    def go(c):
        w = PortfolioWrapper(d, constraints={"long_only": True, "total_weight": 1.0}, **({} if per_call else {"costs": TransactionCosts(**c)}))
        k = {"costs": TransactionCosts(**c)} if per_call else {}
        return {"variance": lambda: w.variance_frontier(3, **k), "cvar": lambda: w.cvar_frontier(3, alpha=.1, **k), "robust": lambda: w.robust_lambda_frontier(num_portfolios=2, **k),
                "return": lambda: w.min_variance_at_return(float(np.min(W.mu_)), **k), "cvar return": lambda: w.min_cvar_at_return(float(np.min(W.mu_)), alpha=.1, **k)}[job]()
    try:
        go(base)
    except RuntimeError:
        cx.stop("base call")
    rejected(cx, lambda: go(dict(base, **{tgt: new})), f"{mode} in `{tgt}`", job=job)


@scenario(SCN, 1100, thorough=8000, need=["rejected"])
def views(cx):
    """Malformed views: non-finite targets, unknown assets, vectors of another length, unknown operators, bad confidences."""
    rng = cx.rng
    W = calls.World(rng)
    n = W.n
    key, key2 = W.key(0), W.key(1)
    m = W.p_ @ W.R_
    sd = np.sqrt(W.p_ @ W.R_ ** 2 - m ** 2)
    bad = float(rng.choice([np.nan, np.inf, -np.inf]))
    kind = str(rng.choice(["flexible", "bl", "stress"]))
    nobody = ["nobody", "", -1, -n, -n - 2, n, n + 3, "-1", str(n), str(-n), None, n + .5, np.int64(-1)][int(rng.integers(13))]
    X, p = W.R, W.p_.copy()
    cx.event(kind)

    def flex(**k):
        f = vw.FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p, **k)
        return f.get_posterior_probabilities()

    def bl(**k):
        return vw.BlackLittermanProcessor(prior_cov=W.S, pi=W.mu, **k).get_posterior()
    bk, bk2 = (key, key2) if W.lab else (0, 1)
    if kind == "flexible":
        opts = {
            "non-finite mean target": {"mean_views": {key: bad}},
            "non-finite inequality target": {"mean_views": {key: ("<=", bad)}},
            "non-finite relative target": {"mean_views": {(key, key2): bad}},
            "view on an unknown asset": {"mean_views": {nobody: 0.0}},
            "relative view on an unknown asset": {"mean_views": {(key, nobody): 0.0}},
            "unknown operator": {"mean_views": {key: ("!=", float(m[0]))}},
            "vector of another length": {"mean_views": np.append(m, 0.0) if rng.random() < .5 else m[:-1]},
            "non-finite volatility target": {"vol_views": {key: bad}},
            "negative volatility target": {"vol_views": {key: -float(sd[0])}},
            "volatility view on an unknown asset": {"vol_views": {nobody: .01}},
            "correlation beyond one": {"corr_views": {(key, key2): float(rng.choice([1.5, -1.2, 2.0]))}},
            "non-finite correlation": {"corr_views": {(key, key2): bad}},
            "non-finite skewness": {"skew_views": {key: bad}},
            "ranking of an unknown asset": {"rank_mean": [key, nobody]},
            "unreachable mean": {"mean_views": {key: float(W.R_[:, 0].max() + 1.0)}},
            "contradictory views": {"mean_views": {key: (">=", float(m[0] + .5 * sd[0])), (key, key2): ("<=", float(W.R_[:, 0].min() - W.R_[:, 1].max() - 1.0))}},
        }
        fn = flex
    elif kind == "bl":
        v = {bk: float(W.mu_[0] + .01), (bk, bk2): .01}
        opts = {
            "non-finite view": {"mean_views": {bk: bad}},
            "non-finite relative view": {"mean_views": {(bk, bk2): bad}},
            "view on an unknown asset": {"mean_views": {nobody: .1}},
            "relative view on an unknown asset": {"mean_views": {(bk, nobody): .1}},
            "vector of another length": {"mean_views": np.append(W.mu_, 0.0) if rng.random() < .5 else W.mu_[:-1]},
            "confidence above one": {"mean_views": v, "omega": "idzorek", "view_confidences": {bk: 1.4, (bk, bk2): .5}},
            "negative confidence": {"mean_views": v, "omega": "idzorek", "view_confidences": {bk: -.2, (bk, bk2): .5}},
            "non-finite confidence": {"mean_views": v, "omega": "idzorek", "view_confidences": {bk: np.nan, (bk, bk2): .5}},
            "confidences of another length": {"mean_views": v, "omega": "idzorek", "view_confidences": [.5, .5, .5]},
            "idzorek without confidences": {"mean_views": v, "omega": "idzorek"},
            "omega of another shape": {"mean_views": v, "omega": np.eye(3) * .01},
            "non-finite omega": {"mean_views": v, "omega": np.diag([.01, np.nan])},
            "non-positive tau": {"mean_views": v, "tau": float(rng.choice([0.0, -.1, np.nan, np.inf]))},
            "non-positive risk aversion": {"mean_views": v, "risk_aversion": float(rng.choice([0.0, -1.0]))},
        }
        fn = bl
    else:
        if not W.lab:
            cx.stop("labelled stress only")
        opts = {"stress view on an unknown asset": {nobody: 0.0}, "non-finite stress view": {key: bad}}
        fn = lambda **k: st.stress_invariants(X, W.w, pj.reprice_exp, n_simulations=20, horizon=1, seed=1, **k)
        opts = {k: {"stress_views": v} for k, v in opts.items()}
    what = list(opts)[int(rng.integers(len(opts)))]
    cx.note(kind=kind, what=what, nobody=repr(nobody))
    cx.state(kind, what, W.lab)
    rejected(cx, lambda: fn(**opts[what]), f"{kind}: {what}", views=opts[what])


@scenario(SCN, 1900, thorough=12000, need=["rejected"])
def parameters(cx):
    """Out-of-range scalars and malformed small inputs of every documented validation."""
    rng = cx.rng
    W = calls.World(rng)
    n, T = W.n, W.T
    nf = float(rng.choice([np.nan, np.inf, -np.inf]))
    pick = lambda *v: v[int(rng.integers(len(v)))]
    con = {"long_only": True, "total_weight": 1.0}
    d = AssetsDistribution(mu=W.mu, cov=W.S, scenarios=W.R, probabilities=W.p)
    P = lambda: PortfolioWrapper(d, constraints=con)
    f = lambda: P().variance_frontier(5)
    names = list(W.names) if W.lab else None
    B = W.rng.dirichlet(np.full(n, 5.0))
    bb = B.copy()
    bb[int(rng.integers(n))] = pick(np.nan, -.1, np.inf)
    px = pd.Series(rng.uniform(5, 50, n), index=[f"a{i}" for i in range(n)])
    wt = pd.Series(W.w_, index=px.index)
    badpx = px.copy()
    badpx.iloc[int(rng.integers(n))] = pick(np.nan, 0.0, -3.0, np.inf)
    shape = np.vstack([W.S_, W.S_[:1]]) if rng.random() < .5 else W.S_[:, :-1]
    opts = {
        "CVaR level outside (0, 1)": lambda: P().cvar_frontier(3, alpha=pick(0.0, 1.0, -.1, 1.5, np.nan)),
        "CVaR level outside (0, 1) at a target": lambda: P().min_cvar_at_return(0.0, alpha=pick(0.0, -.1, 1.5, np.nan)),
        "non-finite target return": lambda: P().min_variance_at_return(nf),
        "non-finite CVaR target return": lambda: P().min_cvar_at_return(nf),
        "negative or non-finite penalty": lambda: P().robust_lambda_frontier(lambdas=[0.0, pick(-1.0, np.nan, np.inf)]),
        "negative or non-finite uncertainty budget": lambda: P().solve_robust_gamma_portfolio(pick(-1.0, np.nan), 1.0),
        "negative or non-finite variance cap": lambda: P().solve_robust_gamma_portfolio(.5, pick(-1.0, np.nan)),
        "malformed risk budgets": lambda: RelaxedRiskParity(W.mu_, W.S_, *_mat(con, n), risk_budgets=bb).solve(),
        "risk budgets of another length": lambda: RelaxedRiskParity(W.mu_, W.S_, *_mat(con, n), risk_budgets=np.full(n + 1, 1 / (n + 1))).solve(),
        "negative frontier risk target": lambda: f().at_risk(pick(np.nan, -1.0)),
        "return target above the frontier": lambda: f().at_return(pick(np.nan, float(W.mu_.max() + 1.0))),
        "percentile outside [0, 100]": lambda: f().at_percentile(pick(-.1, 101.0, -5.0, np.nan)),
        "non-finite risk-free rate": lambda: f().tangency(nf),
        "non-finite risk-free rate at maximum Sharpe": lambda: pv.MeanVariance(W.mu_, W.S_, *_mat(con, n)).max_sharpe(nf),
        "non-finite parity target": lambda: RelaxedRiskParity(W.mu_, W.S_, *_mat(con, n)).solve(lambda_reg=.1, return_target=nf),
        "negative parity penalty": lambda: RelaxedRiskParity(W.mu_, W.S_, *_mat(con, n)).solve(lambda_reg=pick(-.1, np.nan), return_target=0.0),
        "non-finite parity multiplier": lambda: P().relaxed_risk_parity_frontier(lambda_reg=.1, target_multipliers=[1.0, nf]),
        "non-square covariance": lambda: AssetsDistribution(mu=W.mu_, cov=shape),
        "indefinite covariance": lambda: PortfolioWrapper(AssetsDistribution(mu=W.mu_, cov=W.S_ - 2 * np.eye(n) * np.linalg.eigvalsh(W.S_)[-1])).variance_frontier(3),
        "empty distribution": lambda: AssetsDistribution(),
        "no covariance to optimise": lambda: PortfolioWrapper(AssetsDistribution(mu=W.mu_)).variance_frontier(3),
        "probabilities all zero": lambda: AssetsDistribution(scenarios=W.R_, probabilities=np.zeros(T)),
        "probabilities of another length": lambda: AssetsDistribution(scenarios=W.R_, probabilities=np.full(T + 1, 1 / (T + 1))),
        "names of another length": lambda: AssetsDistribution(mu=W.mu_, cov=W.S_, asset_names=[f"a{i}" for i in range(n + 1)]),
        "non-positive price": lambda: PortfolioWrapper.from_prices(_price(W, pick(np.nan, 0.0, -1.0, np.inf), rng)),
        "single price row": lambda: PortfolioWrapper.from_prices(100 * (1 + W.R_[:1])),
        "confidence outside (0, 1)": lambda: pf.performance_report(W.w, W.R, confidence=pick(0.0, 1.0, 1.3, -.2, np.nan)),
        "stress confidence outside (0, 1)": lambda: st.stress_test(W.w, W.R, confidence=pick(0.0, 1.0, 1.3, -.2)),
        "half-life not positive": lambda: pr.generate_exp_decay_probabilities(T, pick(0, -3, np.nan)),
        "scenario count not positive": lambda: pr.generate_uniform_probabilities(pick(0, -2)),
        "kernel bandwidth not positive": lambda: pr.generate_gaussian_kernel_probabilities(W.R_[:, 0], h=pick(0.0, -.1, np.nan)),
        "probability mass zero": lambda: pr.normalize_probability_vector(np.zeros(T)),
        "non-finite mean": lambda: AssetsDistribution(mu=_poke(rng, W.mu_, nf), cov=W.S_),
        "non-finite covariance": lambda: AssetsDistribution(mu=W.mu_, cov=_poke(rng, W.S_, nf)),
        "non-finite scenario": lambda: AssetsDistribution(scenarios=_poke(rng, W.R_, nf)),
        "non-finite scenario next to stated moments": lambda: AssetsDistribution(mu=W.mu_, cov=W.S_, scenarios=_poke(rng, W.R_, nf)),
        "non-finite scenario next to a stated mean": lambda: AssetsDistribution(mu=W.mu_, scenarios=_poke(rng, W.R_, nf)),
        "non-finite mean next to scenarios": lambda: AssetsDistribution(mu=_poke(rng, W.mu_, nf), scenarios=W.R_),
        "non-finite covariance next to scenarios": lambda: AssetsDistribution(cov=_poke(rng, W.S_, nf), scenarios=W.R_),
        "column of a frontier out of range": lambda: f().as_discrete_allocation(pick(-1, -2, 5, 7), pd.Series(rng.uniform(5, 50, n), index=list(W.names) if W.lab else [f"Asset_{i}" for i in range(n)]), 1e4),
        "non-finite scenario probability": lambda: AssetsDistribution(scenarios=W.R_, probabilities=_poke(rng, np.full(T, 1.0 / T), nf)),
        "negative scenario probability": lambda: AssetsDistribution(scenarios=W.R_, probabilities=_poke(rng, np.full(T, 1.0 / T), -.1)),
        "non-finite covariance for logs": lambda: pj.simple2log(W.mu_, _poke(rng, W.S_, nf)),
        "non-finite mean for logs": lambda: pj.simple2log(_poke(rng, W.mu_, nf), W.S_),
        "non-finite log covariance": lambda: pj.log2simple(W.mu_, _poke(rng, W.S_, nf)),
        "non-finite projected mean": lambda: pj.project_mean_covariance(_poke(rng, W.mu_, nf), W.S_, 12.0),
        "non-finite projected covariance": lambda: pj.project_mean_covariance(W.mu_, _poke(rng, W.S_, nf), 12.0),
        "transform producing non-finite returns": lambda: st.stress_test(W.w, W.R, transform=lambda X: _poke(rng, X, nf)),
        "transform changing the shape": lambda: st.stress_test(W.w, W.R, transform=lambda X: X[:-1] if rng.random() < .5 else X[:, :1].repeat(n + 1, 1)),
        "one observation for a graphical lasso": lambda: mo.sparse_precision_glasso(W.R_[:1], alpha=.1),
        "no portfolio to average": lambda: en.average_exposures(np.zeros((n, 0))),
        "non-finite kernel reference": lambda: pr.generate_gaussian_kernel_probabilities(_poke(rng, W.R_[:, 0], nf), v=W.R_[:, 0], h=.1, x_T=0.0),
        "non-finite kernel values": lambda: pr.generate_gaussian_kernel_probabilities(W.R_[:, 0], v=_poke(rng, W.R_[:, 0], nf), h=.1, x_T=0.0),
        "non-finite kernel centre": lambda: pr.generate_gaussian_kernel_probabilities(W.R_[:, 0], h=.1, x_T=nf),
        "covariance with different row and column labels": lambda: mo.shrink_covariance_ledoit_wolf(W.R_, _cross(rng, W.S_)),
        "several portfolios where one is asked for": lambda: pf.performance_report(np.column_stack([W.w_, W.w_]), W.R_),
        "horizon not positive": lambda: pj.project_scenarios(W.R, pick(0, -1), n_simulations=10),
        "simulation count not positive": lambda: pj.project_scenarios(W.R, 2, n_simulations=pick(0, -5)),
        "path horizon not positive": lambda: pj.simulate_paths(W.R, pick(0, -1), 10),
        "impossible mean for logs": lambda: pj.simple2log(np.full(n, -1.0 - rng.random()), W.S_),
        "negative portfolio value": lambda: da.discretize_weights(wt, px, pick(-100.0, 0.0, np.nan, np.inf), method=pick("greedy", "mip")),
        "bad price of a held asset": lambda: da.discretize_weights(wt, badpx, 1e4, method=pick("greedy", "mip")),
        "weights naming assets without price": lambda: da.discretize_weights(wt.rename({px.index[0]: "nobody"}), px, 1e4, method=pick("greedy", "mip")),
        "lot size not positive": lambda: da.discretize_weights(wt, px, 1e4, method=pick("greedy", "mip"), lot_sizes={px.index[0]: pick(0, -2)}),
        "unknown discretisation method": lambda: da.discretize_weights(wt, px, 1e4, method="guess"),
        "ensemble weights of another length": lambda: en.average_exposures(W.samples(4), weights=[.5, .5]),
        "ensemble weights all zero": lambda: en.average_exposures(W.samples(4), weights=np.zeros(4)),
        "non-finite ensemble weight": lambda: en.average_exposures(W.samples(4), weights=[.2, .3, np.nan, .5]),
        "fold count outside 1..M": lambda: en.exposure_stacking(W.samples(4), pick(0, -1, 9)),
        "unknown selector": lambda: en.assemble_portfolio_ensemble([en.make_portfolio_spec("a", returns=pd.DataFrame(W.R_), selector="lucky", optimiser_kwargs={"num_portfolios": 3})], ensemble="average"),
        "unknown optimiser": lambda: en.assemble_portfolio_ensemble([en.make_portfolio_spec("a", returns=pd.DataFrame(W.R_), optimiser="guess")], ensemble="average"),
        "unknown estimator": lambda: mo.estimate_moments(W.R, **pick({"mean_estimator": "guess"}, {"cov_estimator": "guess"})),
        "shrinkage outside [0, 1]": lambda: mo.robust_covariance_tyler(W.R, shrinkage=pick(-.1, 1.5)),
        "negative penalty": lambda: mo.sparse_precision_glasso(W.R, alpha=pick(-.1, np.nan)),
        "prior strength not positive": lambda: NIWPosterior(W.mu, W.S, pick(0, -3), n + 5),
        "negative degrees of freedom": lambda: NIWPosterior(W.mu, W.S, 10, pick(-3, -1)),
        "observations not positive": lambda: (lambda q: q.update(W.mu, W.S, pick(0, -4)))(NIWPosterior(W.mu, W.S, 10, n + 5)),
        "credibility outside (0, 1)": lambda: (lambda q: (q.update(W.mu, W.S, 30), q.cred_radius_mu(pick(0.0, 1.0, 1.5, -.1))))(NIWPosterior(W.mu, W.S, 10, n + 5)),
        "kl of mismatched vectors": lambda: st.stress_test(W.w, W.R, stressed_probabilities=np.full(T - 1, 1 / (T - 1))),
        "focus series of another length": lambda: st.kernel_focus_stress(W.w, W.R, focus_series=W.R_[:-1, 0]),
        "lot sizes neither mapping nor series": lambda: da.discretize_weights(wt, px, 1e4, method=pick("greedy", "mip"), lot_sizes=[2] * n),
        "no assets to allocate": lambda: da.discretize_weights({}, px, 1e4, method=pick("greedy", "mip")),
        "synthetic prior without scenarios": lambda: vw.FlexibleViewsProcessor(prior_mean=W.mu, prior_cov=W.S, num_scenarios=pick(0, -3, 2.5)),
        "prior generator of another shape": lambda: vw.FlexibleViewsProcessor(prior_mean=W.mu, prior_cov=W.S, num_scenarios=20, distribution_fn=lambda m, C, k, r: np.zeros(pick((k - 1, n), (k, n + 1)))),
        "prior covariance of another size": lambda: vw.FlexibleViewsProcessor(prior_mean=W.mu, prior_cov=shape, num_scenarios=20),
        "prior with half of its moments": lambda: vw.FlexibleViewsProcessor(**pick({"prior_mean": W.mu}, {"prior_cov": W.S}, {})),
        "posterior of a differently labelled uncertainty": lambda: PortfolioWrapper.from_robust_posterior(_relabelled(rng, W)),
        "NIW prior with crossed labels": lambda: NIWPosterior(W.mu_, _cross(rng, W.S_), 10, n + 5),
        "named columns of an unlabelled panel": lambda: PortfolioWrapper.from_invariants(W.R_, reprice={"x": (pj.reprice_exp, ["a"])}),
        "one-dimensional scenarios": lambda: AssetsDistribution(scenarios=W.R_[:, 0]),
        "mean of another length than the scenarios": lambda: AssetsDistribution(mu=pick(W.mu_[:-1], np.append(W.mu_, .1)), scenarios=W.R_),
        "covariance of another size than the scenarios": lambda: AssetsDistribution(cov=np.eye(n + 1), scenarios=W.R_),
        "covariance that is not square": lambda: AssetsDistribution(mu=W.mu_, cov=shape),
        "names of another number": lambda: AssetsDistribution(mu=W.mu_, cov=W.S_, asset_names=[f"x{k}" for k in range(pick(n - 1, n + 1))]),
        "labels of another number": lambda: f().to_frame(columns=[0], column_labels=["a", "b"]),
        "risk match without a target": lambda: _select(W, "risk_match", {}),
        "percentile without a value": lambda: _select(W, "risk_percentile", {}),
        "column without an index": lambda: _select(W, "column", {}),
        "unknown ensemble": lambda: en.assemble_portfolio_ensemble([en.make_portfolio_spec("a", returns=pd.DataFrame(W.R_), optimiser_kwargs={"num_portfolios": 3})], ensemble="guess"),
        "row of another length in an optimiser": lambda: _solve(W, G=-np.eye(n + 1), h=np.zeros(n + 1)),
        "limits of another number in an optimiser": lambda: _solve(W, G=-np.eye(n), h=np.zeros(n + 1)),
        "equality of another length in an optimiser": lambda: _solve(W, A=np.ones((1, n + 1)), b=np.ones(1)),
        "equality values of another number": lambda: _solve(W, A=np.ones((1, n)), b=pick(np.ones(2), np.ones(0))),
        "fewer equality values than rows": lambda: _solve(W, A=np.vstack([np.ones(n), np.eye(n)[0]]), b=np.ones(1)),
        "weights of another length in a stress": lambda: st.stress_test(np.full(n + 1, 1 / (n + 1)), W.R_),
        "three-dimensional weights": lambda: st.stress_test(np.ones((n, 2, 2)) / n, W.R_),
        "frontiers of different sizes without labels": lambda: en.average_frontiers([_front(n), _front(n + 1)]),
        "frontier named for other assets": lambda: _shaped(n, names=n + pick(-1, 1, 2)),
        "frontier with returns of another number": lambda: _shaped(n, rets=pick(3, 5, 6)),
        "frontier with risks of another number": lambda: _shaped(n, risks=pick(3, 5, 6)),
        "frontier with alternate risks of another number": lambda: _shaped(n, alt=pick(3, 5, 6)),
        "several columns of a frontier": lambda: en.average_frontiers([_front(n), _front(n)], selections=[[0, 1], [0]]),
        "no observations": lambda: pick(mo.robust_covariance_tyler, mo.shrink_covariance_oas, mo.robust_mean_huber, mo.shrink_covariance_nls, mo.factor_covariance_poet, mo.robust_mean_median_of_means,
                                        mo.covariance_ewma, mo.estimate_moments)(np.zeros(pick((0, n), (12, 0)))),
        "one-dimensional observations": lambda: pick(mo.factor_covariance_poet, mo.robust_covariance_tyler)(np.zeros((4, 2, 2))),
        "unknown Tyler target": lambda: mo.robust_covariance_tyler(W.R_, shrinkage=.1, target="guess"),
        "demeaning neither true nor false": lambda: pick(fn.portfolio_cvar, fn.portfolio_var)(W.w_, W.R_, np.full(T, 1 / T), demean=pick("yes", 2)),
        "asset count not positive": lambda: build_G_h_A_b(pick(0, -2, 2.5), long_only=True, total_weight=1.0),
        "annualisation not positive": lambda: en.make_portfolio_spec("a", returns=pd.DataFrame(W.R_), projection={"annualization_factor": pick(-4.0, 0.0, np.nan)}).frontier_factory(),
    }
    what = list(opts)[cx.index % len(opts)]
    cx.note(what=what)
    cx.state(what, n, W.lab)
    cx.event(what)
    rejected(cx, opts[what], what)


def _poke(rng, a, x):
    a = np.array(a, float)
    a[tuple(int(rng.integers(s)) for s in a.shape)] = x
    return a


def _cross(rng, S):
    n = len(S)
    a = [f"a{i}" for i in range(n)]
    b = list(np.roll(a, 1)) if rng.random() < .5 else [f"b{i}" for i in range(n)]
    return pd.DataFrame(S, index=a, columns=b)


def _relabelled(rng, W):
    a, b = [f"a{i}" for i in range(W.n)], [f"b{i}" for i in range(W.n)]
    return pv.RobustBayesPosterior(mu=pd.Series(W.mu_, index=a), sigma=pd.DataFrame(W.S_, a, a), s_mu=pd.DataFrame(W.S_ / 20, b, b))


def _select(W, selector, kw):
    spec = en.make_portfolio_spec("a", returns=pd.DataFrame(W.R_), selector=selector, selector_kwargs=kw, optimiser_kwargs={"num_portfolios": 3})
    return en.assemble_portfolio_ensemble([spec], ensemble="average")


def _solve(W, **kw):
    n = W.n
    a = dict(G=-np.eye(n), h=np.zeros(n), A=np.ones((1, n)), b=np.ones(1))
    a.update(kw)
    r = W.rng
    j = int(r.integers(5))
    if j == 4:
        return pv.MeanVariance(W.mu_ + 1.0, W.S_, a["G"], a["h"], a["A"], a["b"]).max_sharpe()
    if j == 0:
        return pv.MeanVariance(W.mu_, W.S_, a["G"], a["h"], a["A"], a["b"]).efficient_portfolio()
    if j == 1:
        return pv.MeanCVaR(W.R_, np.full(W.T, 1 / W.T), .1, a["G"], a["h"], a["A"], a["b"]).efficient_portfolio()
    if j == 2:
        return pv.RobustOptimizer(W.mu_, W.S_, a["G"], a["h"], a["A"], a["b"]).solve_lambda_variant(.5)
    return RelaxedRiskParity(W.mu_, W.S_, a["G"], a["h"], a["A"], a["b"]).solve(lambda_reg=.1, return_target=None)


def _front(n):
    return pv.PortfolioFrontier(weights=np.full((n, 2), 1 / n), returns=np.array([.1, .2]), risks=np.array([.1, .2]), risk_measure="Volatility")


def _shaped(n, names=None, rets=4, risks=4, alt=4):
    k = n if names is None else names
    return pv.PortfolioFrontier(weights=np.full((n, 4), 1 / n), returns=np.linspace(.1, .2, rets), risks=np.linspace(.1, .3, risks), risk_measure="Volatility",
                                asset_names=[f"A{i}" for i in range(k)], alternate_risks={"CVaR": np.linspace(.2, .4, alt)})


def _mat(c, n):
    return build_G_h_A_b(n, **c)


def _price(W, x, rng):
    P = 100 * np.cumprod(1 + W.R_, 0)
    P[int(rng.integers(len(P))), int(rng.integers(W.n))] = x
    return W.panel(P) if W.lab else P


def _leaves(x, path=""):
    """Numeric leaves of a result with their labels: (path, values, labels per axis)."""
    if isinstance(x, (pd.Series, pd.DataFrame)):
        try:
            yield path, x.to_numpy(float), [list(a) for a in x.axes]
        except (TypeError, ValueError):
            return
    elif isinstance(x, np.ndarray) and x.dtype.kind in "fiu":
        yield path, x.astype(float), [None] * x.ndim
    elif isinstance(x, (float, int, np.floating, np.integer)) and not isinstance(x, bool):
        yield path, np.asarray(float(x)), []
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from _leaves(v, f"{path}/{k}")
    elif isinstance(x, (list, tuple)):
        for k, v in enumerate(x):
            yield from _leaves(v, f"{path}/{k}")
    elif (type(x).__module__ or "").startswith("pyvallocation") and hasattr(x, "__dict__"):
        for k, v in sorted(vars(x).items()):
            yield from _leaves(v, f"{path}/{k}")


def _same_by_label(a, b, n, o):
    """The results agree, asset by asset: in the old order, or listed in the new one throughout."""
    def flip(v, axes):
        for ax, s in enumerate(v.shape):
            if s == n:
                v = np.take(v, o, ax)
        return v
    A, B = (sorted(_leaves(x), key=lambda t: t[0]) for x in (a, b))
    if [x[0] for x in A] != [x[0] for x in B]:
        return False
    ok = [True, True]
    for (_, u, lu), (_, v, lv) in zip(A, B):
        if u.shape != v.shape:
            return False
        s = 5e-3 * (np.nanmax(np.abs(u)) if u.size else 0.0) + 1e-7
        for k, w in enumerate((u, flip(u, lu))):
            if k == 0:
                v2 = v
                for ax, (p, q) in enumerate(zip(lu, lv)):
                    if p is not None and p != q and len(p) == n and set(map(repr, p)) == set(map(repr, q)):
                        v2 = np.take(v2, [q.index(z) for z in p], ax)
            else:
                v2 = v
            ok[k] &= bool(np.allclose(w, v2, rtol=5e-3, atol=s, equal_nan=True))
    return any(ok)


FIRST = {("variance_frontier_log", "mu"), ("flexible_views_synthetic", "mu")}


@scenario(SCN, 3000, thorough=24000, need=["rejected", "aligned"])
def reordered(cx):
    """One of several labelled arguments lists the same assets in another order: rejected, or matched by name; never taken by position."""
    rng = cx.rng
    name = NAMES[cx.index % len(NAMES)]
    c, out = base_call(cx, name)
    lab = {}
    for k, v in c.args.items():
        if isinstance(v, (pd.Series, pd.DataFrame)):
            for ax, z in enumerate(v.axes):
                if len(z) > 1 and all(isinstance(y, str) for y in z) and z.is_unique:
                    lab.setdefault(frozenset(z), {}).setdefault(k, []).append(ax)
    lab = {q: d for q, d in lab.items() if len(d) > 1}
    if len(lab) != 1:
        cx.stop("no second labelled argument")
    (names, ks), = lab.items()
    n = len(names)
    k = list(ks)[int(rng.integers(len(ks)))]
    if name in ("mip", "greedy", "allocation_input", "frontier_discrete"):
        cx.stop("equally good share counts may differ")
    if (name, k) in FIRST:
        cx.stop("this argument sets the order that constraints by position or random draws refer to")
    o = rng.permutation(n)
    if (o == np.arange(n)).all():
        o = o[::-1]
    v = c.args[k]
    for a in ks[k]:
        v = v.take(o, axis=a)
    cx.note(call=name, argument=k, order=o)
    cx.state(name, k, n)
    try:
        got = c(dict(c.args, **{k: v}))
    except REJECT as e:
        cx.event("rejected")
        return
    cx.event("aligned")
    cx.check(_same_by_label(out, got, n, o), f"{name} `{k}`: matched by name in another order", got=repr(got)[:400], want=repr(out)[:400])
