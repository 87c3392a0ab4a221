"""P28: stress reports equal direct evaluation under the stressed model."""
import numpy as np
import pandas as pd
from pyvallocation import (FlexibleViewsProcessor, compose_repricers, entropy_pooling_stress, exp_decay_stress, kernel_focus_stress,
                           linear_map, project_scenarios, reprice_exp, stress_invariants, stress_test, at_least, at_most)

from .. import gen, oracle, watch
from ..core import scenario

SCN = []
ASSUMPTIONS = ["value-at-risk is compared as the admissible quantile interval (see P12)",
               "relative entropy is compared where it is finite: every scenario with stressed mass has nominal mass",
               "probability Series are read by position, as documented; labelled weights are matched by label",
               "invariant-level reports bootstrap the nominal run with the caller's seed and the stressed run with the next one"]


def evaluate(W, R, p, conf, demean):
    """Direct evaluation: mean, stdev, VaR interval, CVaR and effective number of scenarios per portfolio."""
    out = []
    for w in W.T:
        x = R @ w
        m = p @ x
        sd = np.sqrt(max(p @ (x - m) ** 2, 0.0))
        L = -(x - m) if demean else -x
        pos = p[p > 0]
        out.append((m, sd, oracle.var_interval(L, p, conf), oracle.cvar(L, p, 1 - conf), np.exp(-np.sum(pos * np.log(pos)))))
    return out


def judge(cx, rep, suffix, W, R, p, conf, demean, what):
    pct = int(round(conf * 100))
    want = evaluate(W, R, p, conf, demean)
    s = max(np.abs(R).max() * np.abs(W).sum(0).max(), 1e-12)
    for k in range(W.shape[1]):
        row = rep.iloc[k]
        m, sd, (lo, hi), cv, ens = want[k]
        cx.close(row[f"return_{suffix}"], m, f"{what} return", rtol=1e-9, atol=1e-11 * s)
        cx.close(row[f"stdev_{suffix}"], sd, f"{what} volatility", rtol=1e-7, atol=1e-7 * s)
        v = row[f"VaR{pct}_{suffix}"]
        cx.check(lo - 1e-9 * s <= v <= hi + 1e-9 * s, f"{what} value-at-risk", got=v, lo=lo, hi=hi)
        cx.close(row[f"CVaR{pct}_{suffix}"], cv, f"{what} CVaR", rtol=1e-9, atol=1e-9 * s / (1 - conf))
        cx.close(row[f"ENS_{suffix}"], ens, f"{what} effective number of scenarios", rtol=1e-9)


def kl(q, p):
    k = q > 0
    return float(np.sum(q[k] * np.log(q[k] / p[k])))


def book(rng, n, names):
    """Weights in any container: (as given, matrix in asset order, portfolio names or None)."""
    M = int(rng.integers(1, 5))
    W = rng.normal(.3, .5, (n, M)) if rng.random() < .5 else rng.dirichlet(np.ones(n), M).T
    kind = str(rng.choice(["vector", "matrix", "series", "frame", "mapping"] if names else ["vector", "matrix"]))
    o = rng.permutation(n)
    if kind in ("vector", "series", "mapping"):
        W = W[:, :1]
    if kind == "vector":
        return W[:, 0], W, None, kind
    if kind == "matrix":
        return W, W, [f"portfolio_{i}" for i in range(M)], kind
    lab = pd.Index([names[i] for i in o], tupleize_cols=False)
    if kind == "series":
        nm = "mine" if rng.random() < .5 else None
        return pd.Series(W[o, 0], index=lab, name=nm), W, [nm] if nm else None, kind
    if kind == "mapping":
        return {names[i]: float(W[i, 0]) for i in o}, W, None, kind
    cols = [f"book {i}" for i in rng.permutation(M)]
    return pd.DataFrame(W[o], index=lab, columns=cols), W, cols, kind


def prob_as(rng, p, ix=None):
    r = rng.random()
    if rng.random() < .15:
        p = p * gen.mass(rng)
    return p if r < .5 else pd.Series(p) if r < .7 else p.tolist() if r < .85 else p[:, None]


@scenario(SCN, 5000, need=["transform", "stressed probabilities", "both", "nominal only", "shuffled labels", "several portfolios", "demeaned"])
def direct(cx):
    rng = cx.rng
    n, T = int(rng.integers(1, 6)), int(rng.choice([2, 5, 20, 60]))
    R = gen.panel(rng, T, n, scale=.03)
    names = [str(x) for x in gen.strlabels(rng, n)] if rng.random() < .7 else None
    w, W, pn, kind = book(rng, n, names)
    scen = pd.DataFrame(R, columns=names, index=rng.permutation(T)) if names else R
    p = None if rng.random() < .35 else gen.probs(rng, T)
    u = np.full(T, 1 / T) if p is None else p
    conf = float(rng.choice([.95, .99, .9, .5, .975, .8, .57, .29]))
    demean = bool(rng.random() < .4)
    kw = {}
    if p is not None:
        kw["probabilities"] = prob_as(rng, p)
    if conf != .95 or rng.random() < .5:
        kw["confidence"] = conf
    if demean:
        kw["demean"] = True
        cx.event("demeaned")
    if W.shape[1] > 1:
        cx.event("several portfolios")
    if kind in ("series", "frame", "mapping"):
        cx.event("shuffled labels")
    mode = str(rng.choice(["nominal", "probs", "transform", "both", "decay", "kernel", "entropy"]))
    q, RS, fn = None, R, stress_test
    if mode in ("probs", "both", "entropy"):
        q = gen.probs(rng, T, kind=str(rng.choice(["dirichlet", "decay", "sparse", "counts"])))
        if rng.random() < .3:
            q = u.copy()
        if p is not None:
            q = np.where(u > 0, q, 0)
            if q.sum() == 0:
                q = u.copy()
            q = q / q.sum()
        if mode == "entropy":
            fn = entropy_pooling_stress
            kw["posterior_probabilities"] = prob_as(rng, q)
        else:
            kw["stressed_probabilities"] = prob_as(rng, q)
        cx.event("stressed probabilities")
    if mode in ("transform", "both"):
        r = rng.random()
        if r < .3:
            RS = R - .05
            kw["transform"] = linear_map(mean_shift=np.full(n, -.05))
        elif r < .6:
            A = np.eye(n) + rng.normal(0, .3, (n, n))
            k, sh = float(rng.uniform(.5, 2)), rng.normal(0, .02, n)
            RS = np.array([k * (A @ x) + sh for x in R])
            kw["transform"] = linear_map(matrix=A, scale=k, mean_shift=sh)
        elif r < .8:
            RS = np.where(R < 0, 1.5 * R, R)
            kw["transform"] = lambda X: np.where(X < 0, 1.5 * X, X)
        else:
            RS = R[::-1] * 2
            kw["transform"] = lambda X: (X[::-1] * 2).tolist()
        cx.event("transform")
    if mode == "both":
        cx.event("both")
    if mode == "nominal":
        cx.event("nominal only")
    if mode == "decay":
        fn = exp_decay_stress
        hl = int(rng.choice([1, 3, 10, 60]))
        if hl != 60 or rng.random() < .5:
            kw["half_life"] = hl
        q = .5 ** ((T - 1 - np.arange(T)) / hl)
        q /= q.sum()
    if mode == "kernel":
        fn = kernel_focus_stress
        v = rng.normal(0, 1, T)
        kw["focus_series"] = v if rng.random() < .5 else pd.Series(v)
        x = float(v[-1])
        if rng.random() < .6:
            x = kw["target"] = float(rng.choice(v) + .2 * v.std() * rng.normal())
        if rng.random() < .6:
            h = kw["bandwidth"] = float(rng.choice([.3, 1., 3.]))
        else:
            h = 1.06 * v.std(ddof=1) * T ** -.2
        e = -(v - x) ** 2 / (2 * h * h)
        q = np.exp(e - e.max())
        q /= q.sum()
    cx.note(R=R, p=p, q=q, W=W, conf=conf, demean=demean, mode=mode, RS=RS)
    cx.state(mode, kind, W.shape[1], n, T, conf, demean, p is None)
    with watch.unmodified(cx, "stress report", w, scen, kw.get("probabilities"), kw.get("stressed_probabilities")):
        rep = fn(w, scen, **kw)
    cx.check(isinstance(rep, pd.DataFrame) and len(rep) == W.shape[1], "one row per portfolio", rows=len(rep))
    if pn is not None:
        cx.check(list(rep.index) == pn, "rows carry the portfolio names", got=list(rep.index), want=pn)
    judge(cx, rep, "nom", W, R, u, conf, demean, "nominal")
    if mode == "nominal":
        cx.check(not any(c.endswith("_stress") or c == "KL_q_p" for c in rep.columns), "no stressed columns without a stress")
    else:
        judge(cx, rep, "stress", W, RS, u if q is None else q, conf, demean, "stressed")
    if q is not None:
        D = rep["KL_q_p"].to_numpy(float)
        if (u[q > 0] > 1e-14).all():
            cx.close(D, np.full(len(D), kl(q, u)), "divergence is the relative entropy of the stressed probabilities", rtol=1e-8, atol=1e-10)
            cx.event("divergence compared")
        cx.leq(-1e-12, D, "divergence is non-negative", tol=0)
        if np.array_equal(q, u):
            cx.close(D, np.zeros(len(D)), "divergence is zero when nothing changed", rtol=0, atol=1e-13)
    if W.shape[1] > 1:
        one = [fn(W[:, k], scen if names is None else R, **kw).iloc[0].to_numpy() for k in range(W.shape[1])]
        cx.close(rep.to_numpy(float), np.array(one), "several portfolios report like each alone", rtol=1e-7, atol=1e-9)


def drivers(rng):
    T, n = int(rng.integers(20, 60)), int(rng.integers(1, 4))
    X = gen.panel(rng, T, n, scale=.02)
    return T, n, X, [str(x) for x in gen.strlabels(rng, n)]


@scenario(SCN, 500, thorough=5000, need=["stressed run", "nominal run", "dict reprice", "callable reprice", "several portfolios", "monte carlo mean"])
def invariants(cx):
    """Driver-level stress: nominal and stressed bootstrap reports rebuilt from their parts."""
    rng = cx.rng
    T, n, X, names = drivers(rng)
    frame = rng.random() < .8
    data = pd.DataFrame(X, columns=names) if frame else X
    h, S, seed = int(rng.choice([1, 2, 6, 13])), int(rng.choice([50, 200])), gen.seed(rng)
    conf, demean = float(rng.choice([.95, .9, .8])), bool(rng.random() < .3)
    a = rng.normal(1, .5, n)
    identity = False
    if frame and rng.random() < .5:
        inst = [f"inst {i}" for i in range(n + 1)]
        rp = {}
        for i, nm in enumerate(inst[:-1]):
            rp[nm] = ([names[i]], (lambda d, k=a[i]: k * np.expm1(np.asarray(d))))
        rp[inst[-1]] = ([names[-1], names[0]], lambda d: np.asarray(d).reshape(len(d), -1).sum(1) * .5)
        cx.event("dict reprice")
        fn, _ = compose_repricers(rp, names)
        assets = inst
    else:
        r = rng.random()
        if r < .5:
            rp = fn = reprice_exp
        elif r < .9:
            identity = True
            rp = fn = lambda d: np.asarray(d) * 1.0
        else:
            rp, fn = None, reprice_exp
        assets = names if frame else None
        cx.event("callable reprice")
    N = len(assets) if assets else n
    w, W, pn, kind = book(rng, N, assets if frame else None)
    if W.shape[1] > 1:
        cx.event("several portfolios")
    views = None
    if rng.random() < .75:
        j = int(rng.integers(n))
        s = X[:, j].std()
        t = float(X[:, j].mean() + rng.uniform(-.8, .8) * s)
        key = names[j] if frame else str(j)
        v = t if rng.random() < .5 else (at_least(t) if rng.random() < .5 else at_most(t))
        views = {key: v}
    kw = dict(horizon=h, n_simulations=S, seed=seed)
    if conf != .95 or rng.random() < .5:
        kw["confidence"] = conf
    if demean:
        kw["demean"] = True
    cx.note(X=X, W=W, views=str(views), conf=conf, demean=demean, kind=kind, **{k: kw[k] for k in ("horizon", "n_simulations", "seed")})
    cx.state(n, frame, kind, W.shape[1], h, S, views is not None, isinstance(rp, dict))
    # the reference: parts of the pipeline, each decided by its own property
    if views:
        try:
            post = FlexibleViewsProcessor(prior_risk_drivers=data, mean_views=dict(views)).get_posterior_probabilities()
        except (ValueError, RuntimeError):
            cx.stop("unsatisfiable view")
        q = np.asarray(post, float).ravel()
    with watch.unmodified(cx, "invariant stress", data, w, views):
        rep = stress_invariants(data, w, rp, stress_views=views, **kw)
    cx.check(len(rep) == W.shape[1], "one row per portfolio", rows=len(rep), want=W.shape[1])
    P0 = np.asarray(project_scenarios(X, investment_horizon=h, n_simulations=S, reprice=fn, seed=seed), float)
    u = np.full(S, 1 / S)
    judge(cx, rep, "nom", W, P0, u, conf, demean, "nominal driver-level")
    if views is None:
        cx.event("nominal run")
        return
    cx.event("stressed run")
    P1 = np.asarray(project_scenarios(X, investment_horizon=h, p=q, n_simulations=S, reprice=fn, seed=seed + 1), float)
    judge(cx, rep, "stressed", W, P1, u, conf, demean, "stressed driver-level")
    if W.shape[1] > 1:
        cx.check(list(rep.index) == pn, "rows carry the portfolio names", got=list(rep.index), want=pn)
    if identity:
        # seed-free: the stressed mean is the horizon times the view-implied mean, within Monte Carlo error
        for k in range(W.shape[1]):
            x = X @ W[:, k]
            m = q @ x
            se = np.sqrt(h * (q @ (x - m) ** 2) / S)
            cx.check(abs(rep.iloc[k]["return_stressed"] - h * m) <= 6.5 * se + 1e-9, "stressed simulation follows the stressed probabilities",
                     got=rep.iloc[k]["return_stressed"], want=h * m, se=se)
            x0 = X.mean(0) @ W[:, k]
            cx.check(abs(rep.iloc[k]["return_nom"] - h * x0) <= 6.5 * np.sqrt(h * x.var() / S) + 1e-9, "nominal simulation follows the sample",
                     got=rep.iloc[k]["return_nom"], want=h * x0)
        cx.event("monte carlo mean")


@scenario(SCN, 500, need=["raised:ValueError"])
def malformed(cx):
    rng = cx.rng
    n, T = int(rng.integers(2, 5)), int(rng.integers(5, 20))
    R = gen.panel(rng, T, n)
    names = [str(x) for x in gen.strlabels(rng, n)]
    F = pd.DataFrame(R, columns=names)
    w = np.full(n, 1 / n)
    V = (ValueError,)
    cx.state(n, T)
    bad = float(rng.choice([np.nan, np.inf, -np.inf]))
    for c in (0.0, 1.0, -.2, 1.5, np.nan):
        cx.raises(lambda: stress_test(w, R, confidence=c), "confidence outside (0,1) raises", types=V)
    p = np.full(T, 1 / T)
    z = p.copy()
    z[int(rng.integers(T))] = bad if rng.random() < .5 else -.1
    for k in ("probabilities", "stressed_probabilities"):
        cx.raises(lambda: stress_test(w, R, **{k: z}), "invalid probabilities are rejected", types=V)
        cx.raises(lambda: stress_test(w, R, **{k: p[1:]}), "probabilities of the wrong length are rejected", types=V)
    cx.raises(lambda: entropy_pooling_stress(w, R, posterior_probabilities=z), "invalid probabilities are rejected", types=V)
    cx.raises(lambda: stress_test(w[1:], R), "weights of the wrong length are rejected", types=V)
    cx.raises(lambda: stress_test(pd.Series(w, index=["?"] + names[1:]), F), "unknown weight labels are rejected", types=V)
    cx.raises(lambda: stress_test(pd.Series(w[1:], index=names[1:]), F), "missing weight labels are rejected", types=V)
    cx.raises(lambda: stress_test(w, R, transform=lambda X: X[1:]), "a transform that changes the shape is rejected", types=V)

    def hole(X):
        X = X.copy()
        X[int(rng.integers(T)), 0] = bad
        return X
    cx.raises(lambda: stress_test(w, R, transform=hole), "a transform with non-finite output is rejected", types=V)
    cx.raises(lambda: stress_test(w, hole(R)), "non-finite scenarios are rejected", types=V)
    zw = w.copy()
    zw[int(rng.integers(n))] = bad
    cx.raises(lambda: stress_test(zw, R), "non-finite weights are rejected", types=V)
    cx.raises(lambda: stress_test(pd.Series(zw, index=names), F), "non-finite weights are rejected", types=V)
    cx.raises(lambda: stress_test(w, R[:, 0]), "one-dimensional scenarios are rejected", types=V)
    cx.raises(lambda: kernel_focus_stress(w, R, focus_series=np.arange(T + 1.)), "a focus series of the wrong length is rejected", types=V)
    cx.raises(lambda: exp_decay_stress(w, R, half_life=int(rng.choice([0, -3]))), "a non-positive half-life is rejected", types=V)
    cx.raises(lambda: linear_map(mean_shift=np.ones(n + 1))(R), "a shift of the wrong length is rejected", types=V)
    cx.raises(lambda: stress_invariants(R, w, {"a": (["x"], reprice_exp)}), "instrument mappings need labelled drivers", types=(TypeError,))


@scenario(SCN, 1000)
def hedged(cx):
    """Books that never move keep a complete stress report."""
    rng = cx.rng
    T, M = int(rng.integers(5, 80)), int(rng.integers(1, 4))
    R, W = gen.hedged(rng, T, M)
    p, q = gen.probs(rng, T), gen.probs(rng, T)
    cx.note(R=R, W=W, p=p, q=q)
    cx.state(T, M)
    rep = stress_test(W, R, probabilities=p, stressed_probabilities=q, confidence=.9)
    judge(cx, rep, "nom", W, R, p, .9, False, "hedged")
    judge(cx, rep, "stress", W, R, q, .9, False, "hedged stressed")
    if rng.random() < .2:
        inv = stress_invariants(R, W[:, 0], lambda y: y, stress_views=None if rng.random() < .5 else {"0": at_least(float(R[:, 0].mean()))}, n_simulations=50, seed=3)
        s = np.abs(W).sum() * np.abs(R).max()
        sd = inv[[c for c in inv.columns if c.startswith("stdev")]].to_numpy()
        cx.check(bool((sd <= 1e-7 * s).all()), "hedged invariants volatility is none", got=sd)
