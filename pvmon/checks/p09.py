"""P09: reported returns and risks are those of the reported weights."""
import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import AssetsDistribution, PortfolioWrapper, TransactionCosts

from .. import gen, oracle, use
from ..core import scenario

SCN = []
ASSUMPTIONS = ["frontier values are recomputed from the returned weight columns with independent formulas",
               "the CVaR axis of a convexified CVaR frontier may move by at most solver accuracy from the raw CVaR"]


def log2simple(m, S):
    d = np.exp(m + 0.5 * np.diag(S))
    return d - 1, np.outer(d, d) * (np.exp(S) - 1)


def make(cx):
    """A wrapper with known mu, cov, scenarios, probabilities (reporting space) and names."""
    rng = cx.rng
    n = int(rng.integers(1, 7)) if rng.random() < 0.1 else int(rng.integers(2, 7))
    names = gen.labels(rng, n) if rng.random() < 0.7 else None
    src = str(rng.choice(["moments", "logmoments", "scenarios", "both", "posterior", "scenarios"]))
    R = p = None
    if src in ("scenarios", "both"):
        T = int(rng.integers(15, 60))
        R = gen.panel(rng, T, n, scale=0.04)
        p = gen.probs(rng, T)
        mu = R.T @ p
        S = (R - mu).T @ ((R - mu) * p[:, None])
        pu = p * (gen.mass(rng) if rng.random() < .3 else 1)
        if rng.random() < 0.2:
            pu, p = None, np.full(T, 1.0 / T)
            mu = R.T @ p
            S = (R - mu).T @ ((R - mu) * p[:, None])
        scen = pd.DataFrame(R, columns=names) if names else R
    opt = None
    if src == "moments":
        _, mu, S = gen.moments(rng, n)
        m_, C_ = gen.arr_or_frame(rng, names, mu, S)
        mk = lambda **kw: use.moment_wrapper(rng, names, mu, S, **kw)
    elif src == "logmoments":
        _, m, C = gen.moments(rng, n, scale=0.2)
        m_, C_ = gen.arr_or_frame(rng, names, m, C)
        mu, S = log2simple(m, C)
        mk = lambda **kw: PortfolioWrapper.from_moments(m_, C_, return_type="log", **kw)
    elif src == "scenarios":
        mk = lambda **kw: PortfolioWrapper.from_scenarios(scen, probabilities=pu, **kw)
    elif src == "both":
        mu = mu + rng.normal(0, 0.2, n) * R.std()
        S = S * rng.uniform(0.5, 2.0) + 1e-6 * np.eye(n)
        m_, C_ = gen.arr_or_frame(rng, names, mu, S)
        mk = lambda **kw: PortfolioWrapper(AssetsDistribution(mu=m_, cov=C_, scenarios=scen, probabilities=pu), **kw)
    else:
        names = gen.strlabels(rng, n)
        _, m, C = gen.moments(rng, n, scale=0.15)
        post = pv.RobustBayesPosterior.from_niw(
            prior_mu=pd.Series(m, index=names), prior_sigma=pd.DataFrame(C, index=names, columns=names), t0=20, nu0=n + 20,
            sample_mu=pd.Series(m + 0.1 * np.sqrt(np.diag(C)), index=names), sample_sigma=pd.DataFrame(C * 1.2, index=names, columns=names), n_obs=60)
        h = float(rng.choice([1.0, 4.0, .25]))
        m, C, U = np.asarray(post.mu, float) * h, np.asarray(post.sigma, float) * h, np.asarray(post.s_mu, float) * h * h
        mu, S = log2simple(m, C)
        opt = (m, C, U)
        mk = lambda **kw: PortfolioWrapper.from_robust_posterior(post, annualization_factor=h, **kw)
    cx.state(src, n, names is not None)
    cx.note(src=src, mu=mu, S=S)
    return n, names, mu, S, R, p, mk, src, opt


def vol(W, S):
    return np.sqrt(np.maximum(np.sum(W * (S @ W), axis=0), 0))


def cvars(W, R, p, alpha):
    return np.array([oracle.cvar(-(R @ W[:, j]), p, alpha) for j in range(W.shape[1])])


TOL = dict(rtol=1e-8, atol=1e-11)


def labels_agree(cx, f, names, n):
    M = f.weights.shape[1]
    if names is not None:
        cx.check(list(f.asset_names) == list(names), "frontier keeps the asset names", got=f.asset_names, want=names)
    fr = f.to_frame()
    cx.close(fr.to_numpy(), f.weights, "frame equals the weight matrix", rtol=0, atol=0)
    if names is not None:
        cx.check(list(fr.index) == list(names), "frame is labelled by asset")
    cx.check(list(fr.columns) == list(range(M)), "frame columns are positions")
    pick = [int(i) for i in cx.rng.permutation(M)[: int(cx.rng.integers(1, M + 1))]]
    sub = f.to_frame(pick)
    cx.close(sub.to_numpy(), f.weights[:, pick], "selected columns in the order asked", rtol=0, atol=0)
    cx.check(list(sub.columns) == pick, "selected columns keep their positions as labels")
    lab = [f"p{i}" for i in pick]
    cx.check(list(f.to_frame(pick, column_labels=lab).columns) == lab, "custom column labels")
    smp, nm = f.to_samples(pick, as_frame=False)
    cx.close(smp, f.weights[:, pick], "samples equal the weight columns", rtol=0, atol=0)
    cx.check((nm is None and names is None) or list(nm) == list(names), "samples carry the names")
    cx.close(f.to_samples(pick).to_numpy(), smp, "sample frame equals sample matrix", rtol=0, atol=0)
    # selections: weights, return and risk belong to one column
    lbls = f.available_risk_measures()
    for lbl in [None] + lbls:
        kv = f.risks if lbl in (None, f.risk_measure) else f.alternate_risks[lbl]
        for tup in (f.min_risk(risk_label=lbl), f.at_percentile(float(cx.rng.random()), risk_label=lbl),
                    f.closest_risk(float(cx.rng.choice(kv)), risk_label=lbl), f.at_return(float(cx.rng.choice(f.returns)), risk_label=lbl),
                    f.at_risk(float(cx.rng.choice(kv)), risk_label=lbl)):
            w, r, k = tup
            hit = [j for j in range(M) if np.array_equal(f.weights[:, j], np.asarray(w)) and f.returns[j] == r and kv[j] == k]
            cx.check(bool(hit), "selection's weights, return and risk belong to one column", label=lbl, r=r, k=k)
            if names is not None:
                cx.check(list(w.index) == list(names), "selection is labelled by asset")
            cx.event("selections")


@scenario(SCN, 900, need=["overlay:vol", "overlay:cvar", "selections"])
def frontiers(cx):
    rng = cx.rng
    n, names, mu, S, R, p, mk, src, opt = make(cx)
    s, w0, k = gen.spec(rng, n, long_only=True, budget=1.0) if rng.random() < 0.5 else gen.spec(rng, n)
    which = str(rng.choice(["variance", "cvar", "robust", "rrp"]))
    if which == "cvar" and R is None:
        which = "variance"
    if which == "rrp":
        s = {}
    costs = None
    if rng.random() < 0.2 and which != "rrp":
        costs = TransactionCosts(initial_weights=np.full(n, 1.0 / n), market_impact_costs=np.full(n, 0.01), proportional_costs=np.full(n, 1e-3))
    con = use.to_con(rng, s)
    wr = mk(constraints=con, costs=costs) if src != "moments" else mk(con=con, costs=costs)
    num = int(rng.choice([1, 2, 4, 6]))
    cx.note(spec=s, which=which, num=num)
    cx.state(which, src, num)
    m_opt = mu if opt is None else opt[0]
    if which != "rrp" and oracle.max_return(m_opt, gen.rows_of(s, n))[0] is None:
        cx.stop("unbounded")
    alpha = float(rng.choice([0.01, 0.05, 0.1, 0.3]))
    if which == "variance":
        f = use.solve(cx, lambda: wr.variance_frontier(num))
        W = f.weights
        cx.close(f.risks, vol(W, S), "volatility of the weights", **TOL)
        cx.check(f.risk_measure == "Volatility", "risk measure named")
    elif which == "cvar":
        conv = bool(rng.random() < 0.5)
        f = use.solve(cx, lambda: wr.cvar_frontier(num, alpha=alpha, enforce_convexity=conv))
        W = f.weights
        raw = cvars(W, R, p, alpha)
        cx.close(f.alternate_risks[f"CVaR (raw, alpha={alpha:.2f})"], raw, "raw CVaR of the weights", **TOL)
        if conv and costs is None:
            cx.close(f.risks, raw, "convexified CVaR of the weights", rtol=1e-4, atol=3e-6)
        elif not conv:
            cx.close(f.risks, raw, "CVaR of the weights", **TOL)
        cx.check(f"{alpha:.2f}" in f.risk_measure, "risk measure names its tail level", got=f.risk_measure)
        if n > 1:
            Sc = np.cov(R.T, aweights=p, bias=True)
            cx.close(f.alternate_risks["Volatility"], vol(W, Sc), "volatility overlay of the weights", **TOL)
            cx.event("overlay:vol")
    elif which == "robust":
        kw = {}
        rc = None
        if rng.random() < 0.5 and opt is None:
            rc = gen.cov(rng, n)
            kw["return_cov"] = pd.DataFrame(rc, index=names, columns=names) if names is not None and rng.random() < .6 else rc
            if isinstance(kw["return_cov"], pd.DataFrame) and names is not None and rng.random() < 0.5:
                o = rng.permutation(n)
                kw["return_cov"] = kw["return_cov"].iloc[o, o]
        if rng.random() < 0.5:
            kw["lambdas"] = rng.uniform(0, 3, num).tolist()
        f = use.solve(cx, lambda: wr.robust_lambda_frontier(num, **kw))
        W = f.weights
        U = S if opt is None else opt[2]
        cx.close(f.risks, vol(W, U), "uncertainty radius of the weights", rtol=1e-6, atol=1e-8)
        if opt is not None:
            rc = opt[1]
        if rc is None and R is not None and n > 1:
            rc = np.cov(R.T, aweights=p, bias=True).reshape(n, n)
        if rc is not None:
            cx.check("Volatility" in f.alternate_risks, "volatility overlay present")
            cx.close(f.alternate_risks.get("Volatility", np.zeros(0)), vol(W, rc), "volatility overlay of the weights", **TOL)
            cx.event("overlay:vol")
        # metadata penalty really produced the column
        for j, md in enumerate(f.metadata):
            g = use.solve(cx, lambda: wr.robust_lambda_frontier(lambdas=[md["lambda"]]))
            v1 = m_opt @ W[:, j] - md["lambda"] * vol(W[:, [j]], U)[0]
            v2 = m_opt @ g.weights[:, 0] - md["lambda"] * vol(g.weights, U)[0]
            if costs is None:
                cx.close(v1, v2, "metadata penalty produced the column", rtol=1e-4, atol=1e-5)
    else:
        f = use.solve(cx, lambda: wr.relaxed_risk_parity_frontier(num, include_risk_parity=bool(rng.random() < .5)))
        W = f.weights
        cx.close(f.risks, vol(W, S), "volatility of the weights", **TOL)
        cx.check(len(f.metadata) == W.shape[1], "one metadata record per column")
    cx.close(f.returns, mu @ W, "expected return of the weights", **TOL)
    if which != "cvar" and R is not None:
        cx.check("CVaR (95%)" in f.alternate_risks, "CVaR overlay present")
        cx.close(f.alternate_risks["CVaR (95%)"], cvars(W, R, p, 0.05), "CVaR overlay of the weights", **TOL)
        cx.event("overlay:cvar")
    labels_agree(cx, f, names, n)


@scenario(SCN, 450)
def single_portfolios(cx):
    rng = cx.rng
    n, names, mu, S, R, p, mk, src, opt = make(cx)
    s, w0, k = gen.spec(rng, n, long_only=True, budget=1.0)
    which = str(rng.choice(["mv", "cvar", "gamma", "rrp"]))
    if which == "cvar" and R is None:
        which = "mv"
    wr = mk(constraints=use.to_con(rng, s)) if src != "moments" else mk(con=use.to_con(rng, s))
    m_opt, U = (mu, S) if opt is None else (opt[0], opt[2])
    t = float(m_opt @ w0 - 0.05 * abs(m_opt @ w0))
    cx.note(spec=s, which=which, target=t)
    cx.state(which, src)
    if which == "mv":
        w, r, v = use.solve(cx, lambda: wr.min_variance_at_return(t))
        want = vol(np.asarray(w)[:, None], S)[0]
    elif which == "cvar":
        alpha = float(rng.choice([0.01, 0.05, 0.3]))
        w, r, v = use.solve(cx, lambda: wr.min_cvar_at_return(t, alpha=alpha))
        want = oracle.cvar(-(R @ np.asarray(w)), p, alpha)
    elif which == "gamma":
        cap = float(1.3 * w0 @ U @ w0)
        w, r, v = use.solve(cx, lambda: wr.solve_robust_gamma_portfolio(float(rng.uniform(0, 1)), cap))
        want = float(np.asarray(w) @ U @ np.asarray(w))
        if want > cap:
            want = cap
    else:
        w, r, v = use.solve(cx, lambda: wr.relaxed_risk_parity_portfolio())
        want = vol(np.asarray(w)[:, None], S)[0]
    cx.close(r, mu @ np.asarray(w), "expected return of the weights", **TOL)
    cx.close(v, want, "risk of the weights", rtol=1e-6, atol=1e-9)
    cx.check(isinstance(w, pd.Series), "weights are a Series")
    if names is not None:
        cx.check(list(w.index) == list(names), "weights are labelled by asset")


@scenario(SCN, 200)
def label_follows_asset(cx):
    """Permuting the labelled inputs permutes the labelled weights: each label keeps its own asset."""
    rng = cx.rng
    n = int(rng.integers(2, 7))
    names = gen.strlabels(rng, n)
    _, mu, S = gen.moments(rng, n, scale=0.2)
    o = rng.permutation(n)
    m1, C1 = pd.Series(mu, index=names), pd.DataFrame(S, index=names, columns=names)
    m2, C2 = m1.iloc[o], C1.iloc[o, o]
    t = float(0.5 * (mu.max() + mu.min()))
    cx.note(mu=mu, S=S, order=o)
    cx.state(n)
    a = use.solve(cx, lambda: PortfolioWrapper.from_moments(m1, C1).min_variance_at_return(t))
    b = use.solve(cx, lambda: PortfolioWrapper.from_moments(m2, C2).min_variance_at_return(t))
    cx.check(list(b[0].index) == list(m2.index), "weights are labelled by asset")
    cx.close(b[0].reindex(names), a[0], "each label keeps its weight", rtol=1e-3, atol=2e-4)
    cx.close(b[2], a[2], "risk unchanged", rtol=1e-5)
    bad = C2.iloc[:, rng.permutation(n)]
    if list(bad.columns) != list(bad.index):
        cx.raises(lambda: AssetsDistribution(mu=m2, cov=bad), "covariance with inconsistent labels is rejected")
    if list(m1.index) != list(C2.index):
        cx.raises(lambda: AssetsDistribution(mu=m1, cov=C2), "mean and covariance in different orders are rejected")


@scenario(SCN, 300, need=["least risk is none"])
def cash(cx):
    """With cash among the assets the first portfolio bears no risk: its risk is zero, not missing."""
    rng = cx.rng
    T, n = int(rng.integers(15, 50)), int(rng.integers(1, 5))
    R = np.column_stack([gen.panel(rng, T, n, scale=.03), np.full(T, float(rng.choice([0.0, 1e-4, 3e-4, .01])))])
    R = R[:, rng.permutation(n + 1)] if rng.random() < .4 else gen.hedged(rng, T)[0]
    p = np.full(T, 1 / T) if rng.random() < .5 else gen.probs(rng, T)
    mu = R.T @ p
    S = (R - mu).T @ ((R - mu) * p[:, None])
    long_only = bool(rng.random() < .7)
    con = pv.Constraints(long_only=long_only, total_weight=1.0, bounds=None if long_only else (-1.0, 2.0))
    wr = PortfolioWrapper(AssetsDistribution(mu=mu, cov=S, scenarios=R, probabilities=p), constraints=con)
    num, alpha = int(rng.choice([1, 3, 5])), float(rng.choice([.05, .3]))
    which = str(rng.choice(["variance", "cvar", "one variance", "one cvar"]))
    cx.note(R=R, p=p, which=which, num=num)
    cx.state(which, n, num, long_only)
    tol = 1e-7 * max(np.abs(R).max(), 1e-3)
    if which.startswith("one"):
        t = float(mu.min() + .2 * (mu.max() - mu.min()))
        w, r, v = use.solve(cx, lambda: wr.min_variance_at_return(t) if which == "one variance" else wr.min_cvar_at_return(t, alpha=alpha))
        w = np.asarray(w, float)
        cx.close(r, mu @ w, "expected return of the weights", **TOL)
        cx.close(v, vol(w[:, None], S)[0] if which == "one variance" else oracle.cvar(-(R @ w), p, alpha), "risk of the weights with cash", rtol=1e-6, atol=tol)
        return
    f = use.solve(cx, lambda: wr.variance_frontier(num) if which == "variance" else wr.cvar_frontier(num, alpha=alpha))
    W = f.weights
    V = f.risks if which == "variance" else f.alternate_risks["Volatility"]
    cx.close(V, vol(W, S), "volatility of frontier points with cash", rtol=1e-6, atol=tol)
    cx.close(f.returns, mu @ W, "returns of frontier points with cash", **TOL)
    cx.event("least risk is none", int(V[0] < 1e-5))
    cx.event("rounded below zero", int((np.sum(W * (np.cov(R.T, aweights=p, bias=True) @ W), 0) < 0).any()))
