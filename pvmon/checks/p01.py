"""P01: every returned portfolio satisfies every declared constraint."""
import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import AssetsDistribution, Constraints, PortfolioWrapper, TransactionCosts
from pyvallocation.utils.constraints import build_G_h_A_b

from .. import gen, oracle, use
from ..core import scenario

SCN = []
ASSUMPTIONS = ["solver accuracy: constraint violations up to 5e-6 (relative to the largest weight) are accepted"]


def _mats(con, n):
    G, h, A, b = con.to_matrices(n)
    z = np.zeros((0, n))
    return (z if G is None else np.asarray(G), np.zeros(0) if h is None else np.asarray(h, float).ravel(),
            z if A is None else np.asarray(A), np.zeros(0) if b is None else np.asarray(b, float).ravel())


@scenario(SCN, 1200, need=["half-open range"])
def declared_rows_mean_what_they_say(cx):
    """Membership of probe points in the built system equals membership in the declared one."""
    rng = cx.rng
    n = int(rng.integers(1, 8))
    s, w, kind = gen.spec(rng, n, budget=rng.choice([1.0, 0.5, 2.0, -0.5, 0.0]) if rng.random() < .9 else "free")
    cx.state("rows", n, kind, s["long_only"])
    if isinstance(s.get("bounds"), tuple) and rng.random() < .4:  # one side of a common range may be open
        k = int(rng.integers(2))
        s["bounds"] = tuple(None if i == k else v for i, v in enumerate(s["bounds"]))
        cx.event("half-open range")
    cx.note(spec=s)
    con = Constraints(**s) if rng.random() < 0.5 else Constraints.from_dict(dict(s))
    if rng.random() < 0.3:
        out = build_G_h_A_b(n, return_none_if_empty=False, **s)
        M = tuple(np.asarray(x, float) for x in out)
    else:
        M = _mats(con, n)
    want = gen.rows_of(s, n)
    G, h, A, b = want
    # exact slacks of probe points: interior anchor, each boundary from both sides, random points
    probes = [w, np.zeros(n), rng.normal(size=n)]
    for row, rhs in zip(G, h):
        d = row / (row @ row) if row @ row > 0 else row
        on = w + (rhs - row @ w) * d
        probes += [on - 1e-3 * d, on + 1e-3 * d]
    for row, rhs in zip(A, b):
        d = row / (row @ row)
        probes += [w + 1e-3 * d, w - 1e-3 * d]
    for x in probes:
        inside_want = (np.all(G @ x <= h + 1e-9), np.all(np.abs(A @ x - b) <= 1e-9))
        inside_got = (np.all(M[0] @ x <= M[1] + 1e-9), np.all(np.abs(M[2] @ x - M[3]) <= 1e-9))
        cx.check(inside_want == inside_got, "constraint system membership", x=x, want=inside_want, got=inside_got)
        # the binding limits agree as well: worst slack among inequality rows
        if len(h) and len(M[1]):
            cx.close(np.max(M[0] @ x - M[1]), np.max(G @ x - h), "constraint system worst slack", rtol=1e-9, atol=1e-9, x=x)
        if len(b):
            cx.close(np.sort(np.abs(M[2] @ x - M[3]))[::-1][:1], np.sort(np.abs(A @ x - b))[::-1][:1],
                     "constraint system equality residual", rtol=1e-9, atol=1e-9)


@scenario(SCN, 500)
def optimiser_classes(cx):
    """Low-level optimisers on matrices built from the declared constraints."""
    rng = cx.rng
    n, mu, S = gen.moments(rng)
    s, w0, kind = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    G, h, A, b = Constraints(**s).to_matrices(n)
    which = rng.choice(["mv", "mvcost", "sharpe", "cvar", "cvarcost", "robust", "robustcost", "gamma", "gammacost"])
    cx.note(spec=s, mu=mu, S=S, which=which)
    cx.state(which, kind, s["long_only"], n)
    kw = {}
    hold = gen.holdings(rng, w0, 0.05)
    c = rng.uniform(0, 0.02, n)
    if which in ("mv", "mvcost", "sharpe"):
        if which == "mvcost":
            kw = dict(initial_weights=hold, market_impact_costs=c)
        o = pv.MeanVariance(mu, S, G, h, A, b, **kw)
        if which == "sharpe":
            s1 = dict(s)
            if not any(np.allclose(r, 1) for r in rows[2]):
                cx.stop("no budget row")
            rf = float(mu @ w0 - rng.uniform(0.05, 1) * np.sqrt(w0 @ S @ w0))
            r = use.solve(cx, lambda: o.max_sharpe(rf))
            use.feasible(cx, rows, r.weights, "max-Sharpe", tol=2e-5)
            return
        W = use.solve(cx, lambda: o.efficient_frontier(int(rng.integers(2, 7))))
        use.feasible(cx, rows, W, "mean-variance frontier")
        t = float(rng.uniform(mu @ W[:, 0], mu @ W[:, -1]))
        w = use.solve(cx, lambda: o.efficient_portfolio(t))
        use.feasible(cx, rows, w, "mean-variance at return")
        cx.leq(t, mu @ w, "mean-variance target met", tol=1e-6)
    elif which.startswith("cvar"):
        T = int(rng.integers(15, 60))
        R = gen.panel(rng, T, n)
        p = gen.probs(rng, T)
        if which == "cvarcost":
            kw = dict(initial_weights=hold, proportional_costs=c)
        alpha = float(rng.choice([0.05, 0.1, 0.25, 0.5]))
        o = pv.MeanCVaR(R=R, p=p, alpha=alpha, G=G, h=h, A=A, b=b, **kw)
        W = use.solve(cx, lambda: o.efficient_frontier(int(rng.integers(2, 6))))
        use.feasible(cx, rows, W, "CVaR frontier")
        m = R.T @ p
        t = float(rng.uniform(m @ W[:, 0], m @ W[:, -1]))
        w = use.solve(cx, lambda: o.efficient_portfolio(t))
        use.feasible(cx, rows, w, "CVaR at return")
        cx.leq(t, m @ w, "CVaR target met", tol=1e-6)
    else:
        if which.endswith("cost"):
            kw = dict(initial_weights=hold, proportional_costs=c)
        U = S * rng.uniform(0.01, 0.5)
        o = pv.RobustOptimizer(expected_return=mu, uncertainty_cov=U, G=G, h=h, A=A, b=b, **kw)
        if which.startswith("gamma"):
            rad = float(np.sqrt(w0 @ U @ w0))
            cap = (rad * rng.uniform(1.0005, 2.0)) ** 2
            r = use.solve(cx, lambda: o.solve_gamma_variant(float(rng.uniform(0, 2)), cap))
            use.feasible(cx, rows, r.weights, "robust gamma")
            cx.leq(np.sqrt(r.weights @ U @ r.weights), np.sqrt(cap), "uncertainty limit respected", tol=1e-5 * max(1, np.sqrt(cap)))
        else:
            r = use.solve(cx, lambda: o.solve_lambda_variant(float(rng.uniform(0, 3))))
            use.feasible(cx, rows, r.weights, "robust lambda")
            out = use.solve(cx, lambda: o.efficient_frontier(sorted(rng.uniform(0, 3, 3).tolist())))
            use.feasible(cx, rows, out[2], "robust frontier")


def _calls(rng, wr, mu, which, w0, U, con=None):
    """One wrapper call -> weight matrix."""
    kw = {} if con is None else {"constraints": con}
    if which == "variance_frontier":
        return wr.variance_frontier(int(rng.integers(2, 7)), **kw).weights
    if which == "cvar_frontier":
        return wr.cvar_frontier(int(rng.integers(2, 5)), alpha=float(rng.choice([0.05, 0.2])), seed=3, **kw).weights
    if which == "robust_lambda_frontier":
        return wr.robust_lambda_frontier(int(rng.integers(2, 5)), max_lambda=float(rng.uniform(0.5, 3)), **kw).weights
    if which == "min_variance_at_return":
        return wr.min_variance_at_return(float(mu @ w0 - 0.01 * abs(mu @ w0)), **kw)[0]
    if which == "min_cvar_at_return":
        return wr.min_cvar_at_return(float(mu @ w0 - 0.01 * abs(mu @ w0)), alpha=0.1, seed=4, **kw)[0]
    if which == "gamma":
        return wr.solve_robust_gamma_portfolio(float(rng.uniform(0, 1)), float(1.2 * (w0 @ U @ w0)), **kw)[0]
    if which == "rrp":
        return wr.relaxed_risk_parity_portfolio(lambda_reg=float(rng.choice([0.0, 0.2, 1.0])),
                                                target_multiplier=float(rng.uniform(0.5, 2.0)), **kw)[0]
    if which == "rrp_frontier":
        return wr.relaxed_risk_parity_frontier(int(rng.integers(1, 4)), **kw).weights
    raise KeyError(which)


CALLS = ["variance_frontier", "cvar_frontier", "robust_lambda_frontier", "min_variance_at_return",
         "min_cvar_at_return", "gamma", "rrp", "rrp_frontier"]


def _setup(cx, scen_prob=0.6):
    rng = cx.rng
    n = int(rng.integers(2, 7))
    names = gen.labels(rng, n) if rng.random() < 0.7 else None
    if rng.random() < scen_prob:
        T = int(rng.integers(15, 50))
        R = gen.panel(rng, T, n, scale=0.05)
        p = gen.probs(rng, T)
        mu, S = R.T @ p, np.cov(R.T, aweights=p, bias=True).reshape(n, n)
        if np.linalg.eigvalsh(S).min() < 1e-9:
            cx.stop("singular panel")
        build = lambda **kw: use.scenario_wrapper(rng, names, R, p, **kw)
        src = "scen"
    else:
        _, mu, S = gen.moments(rng, n)
        build = lambda **kw: use.moment_wrapper(rng, names, mu, S, **kw)
        src = "mom"
    return n, names, mu, S, build, src


def _spec_for(rng, n, which):
    if which.startswith("rrp"):
        return gen.spec(rng, n, long_only=True, budget=1.0)
    return gen.spec(rng, n)


@scenario(SCN, 700)
def wrapper_calls(cx):
    rng = cx.rng
    n, names, mu, S, build, src = _setup(cx, 0.75)
    which = CALLS[cx.index % len(CALLS)]
    if src == "mom" and which in ("cvar_frontier", "min_cvar_at_return") and rng.random() < 0.8:
        which = "variance_frontier"  # simulating 5000 scenarios is slow: keep a few
    s, w0, kind = _spec_for(rng, n, which)
    rows = gen.rows_of(s, n)
    cx.state(which, src, kind, s["long_only"])
    cx.note(spec=s, which=which, mu=mu, S=S)
    if rng.random() < 0.2 and set(s) <= {"long_only", "total_weight", "bounds"}:
        wr = build()  # constructor shortcuts instead of a spec
        d = wr.dist
        wr = PortfolioWrapper(d, **s)
    else:
        wr = build(con=use.to_con(rng, s))
    W = use.solve(cx, lambda: _calls(rng, wr, mu, which, w0, S))
    use.feasible(cx, rows, W, which)


@scenario(SCN, 480, need=["keywords", "specification", "binding"] + use.ROUTES)
def constructors(cx):
    """Every way of building a problem passes on the limits declared with it, as keywords or as a specification."""
    rng = cx.rng
    kind = use.ROUTES[cx.index % len(use.ROUTES)]
    n, T = int(rng.integers(2, 6)), int(rng.integers(20, 50))
    names = gen.strlabels(rng, n) if rng.random() < .6 else None
    R = np.clip(gen.panel(rng, T, n, scale=.03), -.5, .5)
    if np.linalg.eigvalsh(np.cov(R.T, bias=True).reshape(n, n)).min() < 1e-8:
        cx.stop("singular panel")
    words = bool(rng.random() < .6)
    s, w0, k = gen.spec(rng, n, rich=not words)
    if words:
        s = {k: v for k, v in s.items() if k in ("long_only", "total_weight", "bounds")}
        for k in ("long_only", "total_weight"):  # leave out what says the default
            if k in s and s[k] == {"long_only": True, "total_weight": 1.0}[k] and rng.random() < .7:
                del s[k]
    rows = gen.rows_of(s, n)
    cx.note(spec=s, kind=kind, R=R, names=names, words=words)
    cx.state(kind, words, k, names is None)
    wr = use.route(rng, kind, names, R, **(s if words else {"constraints": use.to_con(rng, s)}))
    cx.event(kind)
    cx.event("keywords" if words else "specification")
    W = use.solve(cx, lambda: wr.variance_frontier(4)).weights
    use.feasible(cx, rows, W, "frontier of a " + kind + " problem")
    if rng.random() < .5:
        use.feasible(cx, rows, use.solve(cx, lambda: wr.robust_lambda_frontier(3)).weights, "robust frontier of a " + kind + " problem")
    free = PortfolioWrapper(wr.dist, constraints=Constraints(**s))
    cx.close(W, use.solve(cx, lambda: free.variance_frontier(4)).weights, "a problem's route does not change what its limits mean", rtol=0, atol=1e-9)
    base = use.solve(cx, lambda: PortfolioWrapper(wr.dist).variance_frontier(4)).weights
    if max(oracle.viol(rows, w) for w in base.T) > 1e-3:
        cx.event("binding")


@scenario(SCN, 420)
def per_call_override(cx):
    """constraints= on one call binds that call only; the defaults bind the calls before and after."""
    rng = cx.rng
    n, names, mu, S, build, src = _setup(cx, 1.0)
    which = CALLS[cx.index % len(CALLS)]
    s1, w1, k1 = _spec_for(rng, n, which)
    s2, w2, k2 = _spec_for(rng, n, which)
    cx.state(which, k1, k2)
    cx.note(default=s1, override=s2, which=which)
    wr = build(con=use.to_con(rng, s1))
    st = rng.bit_generator.state

    def call(w, con=None):
        rng.bit_generator.state = st
        return np.asarray(_calls(rng, wr, mu, which, w, S, con), float)

    W0 = use.solve(cx, lambda: call(w1))
    use.feasible(cx, gen.rows_of(s1, n), W0, which + " default")
    W2 = use.solve(cx, lambda: call(w2, Constraints(**s2) if cx.index % 2 else dict(s2)))
    use.feasible(cx, gen.rows_of(s2, n), W2, which + " override")
    other = CALLS[(cx.index * 5 + 3) % 6]
    try:
        _calls(rng, wr, mu, other, w2, S, dict(s2))
    except RuntimeError:
        pass
    W3 = use.solve(cx, lambda: call(w1))
    use.feasible(cx, gen.rows_of(s1, n), W3, which + " default after override")
    cx.close(W3, W0, "default result unaffected by an override", rtol=0, atol=1e-12)
    cx.event("override_cycles")


@scenario(SCN, 150)
def selections_and_ensembles(cx):
    """Selected, averaged and stacked portfolios keep the (linear) constraints of their frontier."""
    rng = cx.rng
    n, names, mu, S, build, src = _setup(cx, 1.0)
    s, w0, kind = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    wr = build(con=use.to_con(rng, s))
    cx.note(spec=s)
    f1 = use.solve(cx, lambda: wr.variance_frontier(5))
    f2 = use.solve(cx, lambda: wr.cvar_frontier(4, alpha=0.1))
    for f in (f1, f2):
        for w in (f.min_risk()[0], f.max_return()[0], f.at_percentile(float(rng.random()))[0],
                  f.closest_risk(float(np.median(f.risks)))[0], f.at_risk(float(np.max(f.risks)))[0]):
            use.feasible(cx, rows, w, "selection")
        use.feasible(cx, rows, f.to_frame().to_numpy(), "to_frame")
    W = pv.average_frontiers([f1, f2])
    use.feasible(cx, rows, W, "average")
    W = pv.exposure_stack_frontiers([f1, f2], L=2)
    use.feasible(cx, rows, W, "exposure stack")
    cx.state("sel", kind, n)


@scenario(SCN, 300, need=["dict", "dictnone", "list", "listnone", "long", "short", "zerocap", "solved"])
def excluded_assets(cx):
    """Limits of exactly zero: excluded assets, no shorts or no longs declared through the bounds alone."""
    rng = cx.rng
    n, names, mu, S, build, src = _setup(cx)
    s, w0, form = gen.excluded(rng, n)
    rows = gen.rows_of(s, n)
    wr = build(con=use.to_con(rng, s))
    cx.note(spec=s)
    cx.event(form)
    ms = ["variance_frontier", "robust_lambda_frontier", "cvar_frontier", "min_variance_at_return", "min_cvar_at_return"]
    which = str(rng.choice(ms))
    if "cvar" in which and src == "mom":
        which = "variance_frontier"
    cx.state(form, which, src)
    W = use.solve(cx, lambda: np.asarray(_calls(rng, wr, mu, which, w0, S), float))
    use.feasible(cx, rows, W, which + " with zero limits")
    cx.event("solved")


@scenario(SCN, 500, need=["bounds", "group", "relative", "inequalities", "equality", "everything", "solved"])
def pinned_holdings(cx):
    """Holdings fixed by limits whose lower and upper sides coincide, in every form limits can be declared."""
    rng = cx.rng
    n, names, mu, S, build, src = _setup(cx)
    s, w0, _ = gen.spec(rng, n, rich=bool(rng.random() < .4), eq=False)
    form = str(rng.choice(["bounds", "group", "relative", "inequalities", "equality", "everything"]))
    i, j = (int(x) for x in rng.permutation(n)[:2])
    e = np.eye(n)
    if form in ("bounds", "everything"):
        idx = range(n) if form == "everything" else [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n))]]
        b = s.get("bounds")
        old = dict(enumerate(b)) if isinstance(b, list) else dict(b) if isinstance(b, dict) else {k: b for k in range(n)} if b is not None else {}
        old.update({k: (float(w0[k]), float(w0[k])) for k in idx})
        s["bounds"] = old if len(old) < n or rng.random() < .5 else [old[k] for k in range(n)]
    elif form == "group":
        idx = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n))]]
        s["group_constraints"] = {**(s.get("group_constraints") or {}), "pin": (idx, float(w0[idx].sum()), float(w0[idx].sum()))}
    elif form == "relative":
        s["relative_bounds"] = [(i, j, float(w0[i] - w0[j])), (j, i, float(w0[j] - w0[i])), *(s.get("relative_bounds") or [])]
    elif form == "inequalities":
        r = np.round(rng.normal(size=n), 2)
        s["additional_G_h"] = [(r.tolist(), float(r @ w0)), ((-r).tolist(), float(-(r @ w0))), *(s.get("additional_G_h") or [])]
    else:
        s["additional_A_b"] = [(e[i].tolist(), float(w0[i]))]
    rows = gen.rows_of(s, n)
    cx.check(oracle.viol(rows, w0) < 1e-9, "the anchor is admissible (harness)")
    which = str(rng.choice(CALLS[:6]))
    if "cvar" in which and src == "mom":
        which = "variance_frontier"
    cx.note(spec=s, mu=mu, S=S, which=which)
    cx.state(form, which, src, s["long_only"])
    wr = build(con=use.to_con(rng, s))
    W = use.solve(cx, lambda: np.asarray(_calls(rng, wr, mu, which, w0, S), float))
    use.feasible(cx, rows, W, which + " with fixed holdings")
    cx.event(form)
    cx.event("solved")


@scenario(SCN, 40)
def hostile_sizes(cx):
    """One asset, many assets, singular covariance, duplicated and tight constraints."""
    rng = cx.rng
    n = int(rng.choice([1, 1, 20, 35]))
    _, mu, S = gen.moments(rng, n)
    if n > 1 and rng.random() < 0.5:
        S[:, 1] = S[:, 0]
        S[1, :] = S[0, :]
        S[1, 1] = S[0, 0]
    s, w0, kind = gen.spec(rng, n)
    rows = gen.rows_of(s, n)
    names = ["a%02d" % i for i in rng.permutation(n)]
    cx.state("size", n, kind)
    cx.note(spec=s)
    wr = use.moment_wrapper(rng, names, mu, S, con=use.to_con(rng, s))
    use.feasible(cx, rows, use.solve(cx, lambda: wr.variance_frontier(4)).weights, "variance frontier")
    use.feasible(cx, rows, use.solve(cx, lambda: wr.robust_lambda_frontier(3)).weights, "robust frontier")
