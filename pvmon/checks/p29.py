"""P29: equivalent inputs give the same portfolio."""
import numpy as np
import pandas as pd
from pyvallocation import (AssetsDistribution, Constraints, MeanVariance, MeanCVaR, PortfolioWrapper, RobustBayesPosterior, RobustOptimizer,
                           TransactionCosts, compose_repricers, log2simple, project_scenarios, reprice_exp)

from .. import gen, use
from ..core import scenario
from ..use import solve

SCN = []
QUICK_FACTOR = 2  # relative cost of this check
ASSUMPTIONS = ["complete positive price panels; probability Series are positional, as documented",
               "problems whose data agree to rounding are compared through risk and return (tight) and weights (loose, an optimum may be flat)",
               "log-return moments are converted before optimisation (README: simple-return reporting)"]


def weighted(R, p):
    m = p @ R
    D = R - m
    return m, (D * p[:, None]).T @ D


def same_dist(cx, d, mu, S, R, p, names, what):
    """The distribution held by the wrapper is the one the inputs define."""
    s = max(np.abs(np.diag(S)).max(), 1e-12)
    if mu is not None:
        cx.close(np.asarray(d.mu, float), mu, f"{what}: expected returns", rtol=1e-9, atol=1e-12)
        cx.close(np.asarray(d.cov, float), S, f"{what}: covariance", rtol=1e-8, atol=1e-9 * s)
    if R is not None:
        cx.close(np.asarray(d.scenarios, float), R, f"{what}: scenarios", rtol=1e-10, atol=1e-13)
        cx.close(np.asarray(d.probabilities, float).ravel(), p, f"{what}: probabilities", rtol=1e-10, atol=1e-14)
    cx.check((d.asset_names is None and names is None) or list(d.asset_names or []) == list(names or []), f"{what}: asset names", got=d.asset_names, want=names)
    cx.check(d.N == len(S), f"{what}: dimension")


def results(cx, w, rng_key, scen):
    """A bundle of portfolios and reports of one wrapper."""
    out = {}
    f = w.variance_frontier(5)
    out["mv"] = (f.weights, f.returns, f.risks)
    t = float(np.mean(f.returns))
    x, r, k = w.min_variance_at_return(t)
    out["mv at return"] = (np.asarray(x)[:, None], np.array([r]), np.array([k]))
    f2 = w.robust_lambda_frontier(3, 1.5)
    out["robust"] = (f2.weights, f2.returns, f2.risks)
    if scen:
        f3 = w.cvar_frontier(4, alpha=.1)
        out["cvar"] = (f3.weights, f3.returns, f3.risks)
    return out


def agree(cx, a, b, what, wtol=5e-3):
    for k in b:
        if k not in a:
            continue
        (wa, ra, sa), (wb, rb, sb) = a[k], b[k]
        if wa.shape != wb.shape:
            cx.violate(f"{what}: same {k} portfolios (shape)", a=wa.shape, b=wb.shape)
            continue
        s = np.abs(sb).max() + 1e-9
        cx.close(ra, rb, f"{what}: same {k} returns", rtol=1e-4, atol=2e-5 * (np.abs(rb).max() + s))
        cx.close(sa, sb, f"{what}: same {k} risks", rtol=1e-4, atol=2e-5 * (np.abs(rb).max() + s))
        if k != "cvar":
            cx.close(wa, wb, f"{what}: same {k} weights", rtol=0, atol=wtol * max(1, np.abs(wb).max()))
    cx.event("portfolios compared", len(b))


def panel(rng, T, n):
    kinds = ["t", "normal", "skew", "regime"]
    return np.clip(gen.panel(rng, T, n, scale=.03, kind=str(rng.choice(kinds))), -.5, .9)


@scenario(SCN, 260, thorough=2500, need=["prices", "scenarios", "moments", "log scenarios", "portfolios compared"])
def routes(cx):
    """Prices, scenarios, moments, log scenarios and distribution objects describing one market."""
    rng = cx.rng
    n, T = int(rng.integers(2, 5)), int(rng.integers(25, 60))
    R = panel(rng, T, n)
    names = gen.labels(rng, n, "str")
    P = np.vstack([np.ones(n), np.cumprod(1 + R, axis=0)]) * rng.uniform(.5, 300, n)
    con, _, _ = gen.spec(rng, n, rich=bool(rng.random() < .7))
    cx.note(P=P, con=con)
    cx.state(n, T, con["long_only"], sorted(con))
    p = np.full(T, 1 / T)
    mu, S = weighted(R, p)
    ix = pd.bdate_range("2019-01-01", periods=T + 1)
    C = lambda: use.to_con(rng, con)
    W = {}
    W["prices frame"] = PortfolioWrapper.from_prices(pd.DataFrame(P, index=ix, columns=names), constraints=C())
    W["prices array"] = PortfolioWrapper.from_prices(P if rng.random() < .6 else np.asfortranarray(P), constraints=C())
    W["scenario frame"] = PortfolioWrapper.from_scenarios(pd.DataFrame(R, columns=names, index=rng.permutation(T)), constraints=C())
    W["log scenarios"] = PortfolioWrapper.from_scenarios(pd.DataFrame(np.log1p(R), columns=names), return_type="log", constraints=C())
    W["log array"] = PortfolioWrapper.from_scenarios(np.log1p(R), return_type="log", probabilities=np.full(T, .5), constraints=C())
    W["distribution"] = PortfolioWrapper(AssetsDistribution(scenarios=R, asset_names=names), constraints=C())
    W["moments"] = PortfolioWrapper.from_moments(pd.Series(mu, index=names), pd.DataFrame(S, names, names), constraints=C())
    W["moment arrays"] = PortfolioWrapper.from_moments(mu.tolist() if rng.random() < .3 else mu, S, constraints=C())
    for k, w in W.items():
        scen = "moment" not in k
        same_dist(cx, w.dist, mu, S, R if scen else None, p, names if k not in ("prices array", "log array", "moment arrays") else None, k)
    for e in ("prices", "scenarios", "moments", "log scenarios"):
        cx.event(e)
    ks = list(W)
    base = solve(cx, lambda: results(cx, W["scenario frame"], None, True))
    for k in [ks[i] for i in rng.permutation(len(ks))[:3]]:
        agree(cx, solve(cx, lambda: results(cx, W[k], None, "moment" not in k)), {a: b for a, b in base.items() if a != "cvar" or "moment" not in k}, f"{k} vs scenarios")


@scenario(SCN, 800, need=["one asset", "two rows"])
def price_panels(cx):
    """Price histories of every shape define the simple-return scenarios between consecutive rows."""
    rng = cx.rng
    n, T = int(rng.integers(1, 6)), int(rng.choice([2, 3, 4, 30]))
    kind = str(rng.choice(["walk", "integers", "constant column", "tiny", "huge"]))
    P = np.exp(rng.normal(0, .1, (T, n)).cumsum(0)) * {"tiny": 1e-6, "huge": 1e9}.get(kind, 50.0)
    if kind == "integers":
        P = np.maximum(1, P.round()).astype(int)
    elif kind == "constant column":
        P[:, int(rng.integers(n))] = 7.0
    R = P[1:].astype(float) / P[:-1] - 1
    names = gen.labels(rng, n)
    cx.note(P=P)
    cx.state(n, T, kind)
    p = np.full(T - 1, 1 / (T - 1))
    mu, S = weighted(R, p)
    ix = pd.date_range("2021", periods=T)
    forms = {"price array": (P, None), "price frame": (pd.DataFrame(P, index=ix, columns=pd.Index(names, tupleize_cols=False)), names), "price lists": (P.tolist(), None)}
    for k, (data, nm) in forms.items():
        same_dist(cx, PortfolioWrapper.from_prices(data).dist, mu, S, R, p, nm, k)
    if (R > -1).all():
        same_dist(cx, PortfolioWrapper.from_scenarios(np.log1p(R), return_type="log").dist, mu, S, R, p, None, "log returns")
    cx.event("one asset", n == 1)
    cx.event("two rows", T == 2)


@scenario(SCN, 1500, need=["log moments", "posterior", "annualised"])
def moment_conventions(cx):
    rng = cx.rng
    n, mu, S = gen.moments(rng, scale=float(rng.choice([.05, .2])))
    names = gen.labels(rng, n, "str") if rng.random() < .6 else None
    m, C = gen.arr_or_frame(rng, names, mu, S)
    con, _, _ = gen.spec(rng, n)
    cx.note(mu=mu, S=S, con=con)
    cx.state(n, names is None, con["long_only"])
    # independent log-normal moments
    e = np.exp(mu + np.diag(S) / 2)
    ms, Ss = e - 1, np.outer(e, e) * np.expm1(S)
    a = PortfolioWrapper.from_moments(m, C, return_type="log", constraints=use.to_con(rng, con))
    same_dist(cx, a.dist, ms, Ss, None, None, names, "log moments")
    b = PortfolioWrapper.from_moments(*gen.arr_or_frame(rng, names, ms, Ss), constraints=use.to_con(rng, con))
    agree(cx, solve(cx, lambda: results(cx, a, None, False)), solve(cx, lambda: results(cx, b, None, False)), "log moments vs simple moments")
    cx.event("log moments")
    # posterior
    U = gen.cov(rng, n, scale=.05)
    h = 1.0 if rng.random() < .4 else float(rng.choice([12, 52, 4.0, .5]))
    mk = (lambda x: pd.DataFrame(x, names, names)) if names else (lambda x: x)
    sc = 1.0 / max(1.0, h)  # keep the annualised log-normal moments moderate
    post = RobustBayesPosterior(mu=gen.arr_or_frame(rng, names, mu * sc, S)[0], sigma=mk(S * sc), s_mu=mk(U * sc * sc))
    kw = {} if h == 1.0 else {"annualization_factor": h}
    w = PortfolioWrapper.from_robust_posterior(post, constraints=use.to_con(rng, con), **kw)
    if h != 1.0:
        cx.event("annualised")
    same_dist(cx, w.dist, mu * sc * h, S * sc * h, None, None, names, "robust posterior")
    cx.close(np.asarray(w._uncertainty_cov) if hasattr(w, "_uncertainty_cov") else U * sc * sc * h * h, U * sc * sc * h * h, "robust posterior: mean uncertainty", rtol=1e-8, atol=1e-10)
    lam = [0.0, .5, 2.0]
    f = solve(cx, lambda: w.robust_lambda_frontier(lambdas=lam))
    rows = gen.rows_of(con, n)
    opt = RobustOptimizer(expected_return=mu * sc * h, uncertainty_cov=U * sc * sc * h * h, G=rows[0], h=rows[1], A=rows[2] if len(rows[3]) else None, b=rows[3] if len(rows[3]) else None)
    _, rr, ww = solve(cx, lambda: opt.efficient_frontier(lam))
    hm, hS = mu * sc * h, S * sc * h
    he = np.exp(hm + np.diag(hS) / 2) - 1
    ww = np.asarray(ww, float)
    cx.check(sorted(m["lambda"] for m in f.metadata) == lam, "posterior frontier reports its penalties", got=f.metadata)
    for j in range(3):
        lj = f.metadata[j]["lambda"]
        obj = lambda x: hm @ x - lj * np.sqrt(x @ U @ x) * sc * h
        s = np.abs(hm).max() + np.sqrt(np.diag(U).max()) * sc * h
        cx.close(obj(f.weights[:, j]), obj(ww[:, lam.index(lj)]), "posterior frontier solves the direct robust problem", rtol=1e-5, atol=1e-5 * s * max(1, np.abs(ww).max()))
    cx.close(f.returns, he @ f.weights, "posterior reports simple returns", rtol=1e-7, atol=1e-9)
    cx.event("posterior")


@scenario(SCN, 700, need=["dict reprice", "callable reprice", "default reprice", "weighted"])
def from_invariants(cx):
    rng = cx.rng
    n, T = int(rng.integers(1, 5)), int(rng.integers(3, 40))
    X = gen.panel(rng, T, n, scale=.02)
    names = [str(x) for x in gen.strlabels(rng, n)]
    frame = rng.random() < .7
    data = pd.DataFrame(X, columns=names) if frame else X
    h, Sn, seed = int(rng.choice([1, 4, 12])), int(rng.choice([5, 60])), gen.seed(rng)
    p = None
    if rng.random() < .6:
        p = gen.probs(rng, T)
        cx.event("weighted")
    kw = dict(horizon=h, n_simulations=Sn, seed=seed)
    if p is not None:
        kw["p"] = pd.Series(p) if rng.random() < .3 else p
    assets = names if frame else None
    raw = np.asarray(project_scenarios(X, investment_horizon=h, p=p, n_simulations=Sn, seed=seed), float)
    r = rng.random()
    if frame and r < .5:
        a = rng.normal(1, .3, n)
        rp, want = {}, []
        order = rng.permutation(n)
        for i in order:
            rp[f"I-{names[i]}"] = ([names[i]], lambda d, k=a[i]: k * np.expm1(np.asarray(d)))
            want.append(a[i] * np.expm1(raw[:, i]))
        if n > 1:
            rp["spread"] = ([names[-1], names[0]], lambda d: np.asarray(d)[:, 0] - 2 * np.asarray(d)[:, 1])
            want.append(raw[:, -1] - 2 * raw[:, 0])
        kw["reprice"] = rp
        want, assets = np.column_stack(want), list(rp)
        cx.event("dict reprice")
    elif r < .8:
        kw["reprice"] = lambda d: np.sinh(np.asarray(d))
        want = np.sinh(raw)
        cx.event("callable reprice")
    else:
        if rng.random() < .5:
            kw["reprice"] = reprice_exp
        want = np.expm1(raw)
        cx.event("default reprice")
    cx.note(X=X, p=p, horizon=h, n=Sn, seed=seed)
    cx.state(n, frame, h, Sn, p is None, type(kw.get("reprice")).__name__)
    w = PortfolioWrapper.from_invariants(data, **kw)
    u = np.full(Sn, 1 / Sn)
    mu, S = weighted(want, u)
    d = w.dist
    cx.close(np.asarray(d.scenarios, float), want, "invariants: scenarios are the repriced projection", rtol=1e-9, atol=1e-12)
    cx.close(np.asarray(d.probabilities).ravel(), u, "invariants: equally weighted simulations", rtol=1e-12)
    cx.close(np.asarray(d.mu, float), mu, "invariants: expected returns", rtol=1e-9, atol=1e-12)
    cx.close(np.asarray(d.cov, float), S, "invariants: covariance", rtol=1e-8, atol=1e-13)
    cx.check(list(d.asset_names or []) == list(assets or []), "invariants: asset names", got=d.asset_names, want=assets)


@scenario(SCN, 500, thorough=4000, need=["keywords", "bounds forms", "optimiser class", "containers"])
def containers(cx):
    """The same problem written with different containers and constraint spellings."""
    rng = cx.rng
    n, mu, S = gen.moments(rng)
    names = gen.labels(rng, n)
    cx.note(mu=mu, S=S)
    rows = None
    lo, hi = rng.uniform(-.4, .05, n), rng.uniform(.45, 1.0, n)
    lon = bool(rng.random() < .5)
    tw = float(rng.choice([1.0, .8, 1.2]))
    form = str(rng.choice(["tuple", "list", "none"]))
    if form == "none" and not lon:
        form = "list"
    if form == "tuple":
        lo[:], hi[:] = lo.min(), hi.max()
    k1 = dict(long_only=lon, total_weight=tw)
    if form != "none":
        k1["bounds"] = (float(lo[0]), float(hi[0])) if form == "tuple" else [(float(a), float(b)) for a, b in zip(lo, hi)]
    variants = []
    A = PortfolioWrapper.from_moments(mu, S, **k1)
    cx.event("keywords")
    variants.append(("Constraints object", PortfolioWrapper.from_moments(mu, S, constraints=Constraints(**k1))))
    variants.append(("constraint mapping", PortfolioWrapper.from_moments(mu, S, constraints=dict(k1))))
    if form != "none":
        d = dict(k1)
        d["bounds"] = {i: (float(lo[i]), float(hi[i])) for i in rng.permutation(n)}
        d["bounds"] = {int(i): v for i, v in d["bounds"].items()}
        variants.append(("bounds by index", PortfolioWrapper.from_moments(mu, S, constraints=d)))
        g = dict(long_only=lon, total_weight=tw, additional_G_h=[(np.eye(n)[i], float(hi[i])) for i in range(n)] + [(-np.eye(n)[i], float(-lo[i])) for i in range(n)])
        variants.append(("bounds as rows", PortfolioWrapper.from_moments(mu, S, constraints=g)))
        g2 = dict(long_only=lon, total_weight=tw, group_constraints={f"g{i}": ([i], float(lo[i]), float(hi[i])) for i in range(n)})
        variants.append(("bounds as groups", PortfolioWrapper.from_moments(mu, S, constraints=g2)))
        cx.event("bounds forms")
    g3 = dict(k1, total_weight=None, additional_A_b=[([1.0] * n, tw)])
    variants.append(("budget as equality row", PortfolioWrapper.from_moments(mu, S, constraints=g3)))
    ix = pd.Index(names, tupleize_cols=False)
    variants.append(("frames", PortfolioWrapper.from_moments(pd.Series(mu, index=ix), pd.DataFrame(S, ix, ix), constraints=dict(k1))))
    variants.append(("lists", PortfolioWrapper.from_moments(mu.tolist(), S.tolist(), **k1)))
    variants.append(("column vector", PortfolioWrapper.from_moments(mu[:, None], np.asfortranarray(S), **k1)))
    variants.append(("per-call constraints", None))
    cx.event("containers")
    cx.state(n, lon, tw, form)
    base = solve(cx, lambda: results(cx, A, None, False))
    for i in rng.permutation(len(variants))[:4]:
        nm, w = variants[i]
        if w is None:
            W0 = PortfolioWrapper.from_moments(mu, S)
            f = solve(cx, lambda: W0.variance_frontier(5, constraints=dict(k1)))
            agree(cx, {"mv": (f.weights, f.returns, f.risks)}, {"mv": base["mv"]}, nm)
            continue
        agree(cx, solve(cx, lambda: results(cx, w, None, False)), base, nm)
    rows = gen.rows_of(k1, n)
    mv = MeanVariance(mu, S, rows[0] if len(rows[1]) else None, rows[1] if len(rows[1]) else None, rows[2], rows[3])
    W = np.asarray(solve(cx, lambda: mv.efficient_frontier(5)))
    agree(cx, {"mv": (W, mu @ W, np.sqrt(np.einsum("ik,ij,jk->k", W, S, W)))}, {"mv": base["mv"]}, "optimiser class")
    cx.event("optimiser class")


@scenario(SCN, 250, thorough=2500, need=["frame probabilities", "costs"])
def scenario_containers(cx):
    rng = cx.rng
    n, T = int(rng.integers(2, 5)), int(rng.integers(20, 50))
    R = panel(rng, T, n)
    p = gen.probs(rng, T, kind=str(rng.choice(["dirichlet", "decay", "counts"])))
    names = gen.labels(rng, n, "str")
    w0 = rng.dirichlet(np.ones(n))
    c = rng.uniform(1e-4, 3e-3, n)
    costs = bool(rng.random() < .5)
    o = rng.permutation(n)
    cx.note(R=R, p=p, w0=w0, c=c if costs else None)
    cx.state(n, T, costs)
    cost_arr = TransactionCosts(initial_weights=w0, proportional_costs=c) if costs else None
    cost_ser = TransactionCosts(initial_weights=pd.Series(w0[o], index=[names[i] for i in o]), proportional_costs=pd.Series(c, index=names)) if costs else None
    if costs:
        cx.event("costs")

    def bundle(w):
        f = w.cvar_frontier(4, alpha=.1)
        x, r, k = w.min_cvar_at_return(float(np.mean(f.returns)), alpha=.1)
        g = w.variance_frontier(3)
        return {"cvar": (f.weights, f.returns, f.risks), "cvar at return": (np.asarray(x)[:, None], np.array([r]), np.array([k])), "mv": (g.weights, g.returns, g.risks)}
    A = solve(cx, lambda: bundle(PortfolioWrapper.from_scenarios(R, probabilities=p, costs=cost_arr)))
    F = pd.DataFrame(R, columns=names, index=pd.date_range("2020", periods=T))
    variants = {
        "labelled scenarios": lambda: PortfolioWrapper.from_scenarios(F, probabilities=p, costs=cost_ser),
        "probability series": lambda: PortfolioWrapper.from_scenarios(F, probabilities=pd.Series(p, index=F.index), costs=cost_ser),
        "unnormalised probabilities": lambda: PortfolioWrapper.from_scenarios(R, probabilities=p * 40, costs=cost_arr),
        "probability column": lambda: PortfolioWrapper.from_scenarios(R, probabilities=p[:, None], costs=cost_arr),
        "distribution object": lambda: PortfolioWrapper(AssetsDistribution(scenarios=F, probabilities=p), costs=cost_ser),
        "per-call costs": None,
    }
    cx.event("frame probabilities")
    for k in [list(variants)[i] for i in rng.permutation(len(variants))[:3]]:
        if variants[k] is None:
            if costs:
                f = solve(cx, lambda: PortfolioWrapper.from_scenarios(F, probabilities=p).cvar_frontier(4, alpha=.1, costs=cost_ser))
                agree(cx, {"cvar": (f.weights, f.returns, f.risks)}, {"cvar": A["cvar"]}, k)
            continue
        B = solve(cx, lambda: bundle(variants[k]()))
        agree(cx, B, A, k, wtol=2e-2)


@scenario(SCN, 700, need=["mean stated", "covariance stated", "both stated", "weighted", "portfolios compared"])
def stated_moments(cx):
    """Moments stated next to scenarios are the caller's; only what is missing is estimated."""
    rng = cx.rng
    n, T = int(rng.integers(1, 5)), int(rng.choice([2, 3, 20, 40]))
    R = panel(rng, T, n)
    p = gen.probs(rng, T) if rng.random() < .6 else None
    q = np.full(T, 1 / T) if p is None else p
    C = gen.cov(rng, n, scale=.05)
    m = gen.mean(rng, n, C)
    em, eS = weighted(R, q)
    which = str(rng.choice(["mean stated", "covariance stated", "both stated"]))
    mu, S = (m if which != "covariance stated" else em), (C if which != "mean stated" else eS)
    names = gen.labels(rng, n, "str") if rng.random() < .5 else None
    con, _, _ = gen.spec(rng, n)
    fm, fC = gen.arr_or_frame(rng, names, m, C)
    kw = {}
    if which != "covariance stated":
        kw["mu"] = fm
    if which != "mean stated":
        kw["cov"] = fC
    if p is not None:
        kw["probabilities"] = p if rng.random() < .5 else p * gen.mass(rng)
    cx.note(R=R, con=con, **kw)
    cx.state(n, T, which, p is None, names is None)
    d = AssetsDistribution(scenarios=pd.DataFrame(R, columns=names) if names and rng.random() < .7 else R, asset_names=names, **kw)
    same_dist(cx, d, mu, S, R, q, names, f"{which} next to scenarios")
    cx.event(which)
    cx.event("weighted", int(p is not None))
    if rng.random() < .2 and T > 2 * n:
        a = PortfolioWrapper(d, constraints=use.to_con(rng, con))
        b = PortfolioWrapper(AssetsDistribution(mu=mu, cov=S), constraints=use.to_con(rng, con))
        agree(cx, {k: v for k, v in solve(cx, lambda: results(cx, a, None, False)).items()}, solve(cx, lambda: results(cx, b, None, False)), f"{which} next to scenarios vs moments")


@scenario(SCN, 800, need=["raised:ValueError"])
def malformed(cx):
    rng = cx.rng
    n, T = int(rng.integers(1, 5)), int(rng.integers(3, 12))
    P = np.exp(rng.normal(0, .1, (T, n)).cumsum(0)) * 100
    V = (ValueError,)
    cx.state(n, T)
    Z = P.copy()
    Z[int(rng.integers(T)), int(rng.integers(n))] = float(rng.choice([np.nan, 0.0, -3.0, np.inf, -np.inf]))
    wrap = (lambda x: pd.DataFrame(x)) if rng.random() < .5 else (lambda x: x)
    cx.raises(lambda: PortfolioWrapper.from_prices(wrap(Z)), "invalid prices are rejected", types=V)
    cx.raises(lambda: PortfolioWrapper.from_prices(wrap(P[:1])), "a single price row is rejected", types=V)
    cx.raises(lambda: PortfolioWrapper.from_prices(P[:, 0]), "one-dimensional prices are rejected", types=V)
    names = gen.labels(rng, n, "str")
    if n > 1:
        S = pd.DataFrame(np.eye(n), names[::-1], names[::-1])
        cx.raises(lambda: PortfolioWrapper.from_moments(pd.Series(np.ones(n), index=names), S), "moments in different asset orders are not mixed", types=V)
        cx.raises(lambda: AssetsDistribution(mu=np.ones(n), cov=pd.DataFrame(np.eye(n), names, names[::-1])), "a covariance with inconsistent labels is rejected", types=V)
    cx.raises(lambda: AssetsDistribution(mu=np.ones(n), cov=np.eye(n + 1)), "moments of different sizes are rejected", types=V)
