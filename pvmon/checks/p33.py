"""P33: scenario P&L, performance, horizon and drawdown reports equal direct computation."""
import numpy as np
import pandas as pd
from pyvallocation import project_scenarios, simulate_paths, reprice_exp
from pyvallocation.utils import performance as pf
import pyvallocation as pv

from .. import gen, oracle
from ..core import scenario
from .p28 import evaluate, prob_as

SCN = []
ASSUMPTIONS = ["value-at-risk is compared as the admissible quantile interval (see P12); probability Series are read by position",
               "projections and paths behind the horizon and drawdown reports are those of project_scenarios / simulate_paths for the same seed (their law is P21's subject)",
               "weights given for repriced instruments carry no driver labels: labels are matched where weights and panel share their universe"]


def world(rng, tmin=1):
    n, T = int(rng.integers(1, 7)), int(rng.choice([tmin, 2, 5, 20, 60, 150]))
    scale = float(rng.choice([.001, .02, .1]))
    R = gen.panel(rng, T, n, scale=scale) if T > 1 else rng.normal(0, scale, (1, n))
    lab = bool(rng.random() < .55)
    names = gen.labels(rng, n, "str") if lab else None
    X = pd.DataFrame(R, columns=names, index=pd.RangeIndex(T) if rng.random() < .5 else pd.date_range("2021", periods=T)) if lab else (R if rng.random() < .8 else pd.DataFrame(R))
    return n, T, R, names, X


def one_book(rng, n, names, extra=True):
    """A single allocation in any container: (as given, vector in asset order, kind)."""
    w = rng.normal(.3, .6, n) if rng.random() < .5 else rng.dirichlet(np.ones(n))
    if rng.random() < .05:
        w = np.zeros(n)
    kinds = ["array", "column", "list"] + (["series", "frame", "mapping"] if names and extra else ["series", "frame"] if names else [])
    kind = str(rng.choice(kinds))
    o = rng.permutation(n)
    lab = pd.Index([names[i] for i in o], tupleize_cols=False) if names else None
    if kind == "array":
        return w, w, kind
    if kind == "column":
        return w[:, None], w, kind
    if kind == "list":
        return w.tolist(), w, kind
    if kind == "series":
        return pd.Series(w[o], index=lab, name="book"), w, kind
    if kind == "frame":
        return pd.DataFrame(w[o][:, None], index=lab, columns=["book"]), w, kind
    return {names[i]: float(w[i]) for i in o}, w, kind


@scenario(SCN, 6000, thorough=40000, need=["series", "frame", "mapping", "array", "column", "shuffled labels", "several books"])
def profit_and_loss(cx):
    rng = cx.rng
    n, T, R, names, X = world(rng)
    W, w, kind = one_book(rng, n, names)
    cx.event(kind)
    cx.note(R=R, w=w, kind=kind)
    cx.state(n, T, kind, names is not None)
    out = pf.scenario_pnl(W, X)
    want = np.array([sum(R[t, j] * w[j] for j in range(n)) for t in range(T)])
    s = max(np.abs(R).max() * np.abs(w).sum(), 1e-12)
    cx.close(np.asarray(out, float).reshape(-1), want, "scenario P&L is the weighted sum of scenario returns", rtol=1e-9, atol=1e-12 * s)
    if names:
        cx.event("shuffled labels", int(kind in ("series", "frame", "mapping") and n > 1))
    if kind in ("series", "frame", "mapping") and isinstance(X, pd.DataFrame):
        cx.check(list(out.index) == list(X.index), "scenario P&L keeps the scenario index")
        if kind == "series":
            cx.check(out.name == "book", "scenario P&L keeps the portfolio name", got=out.name)
    M = int(rng.integers(1, 5))
    B = rng.normal(.2, .5, (n, M))
    if names and rng.random() < .6:
        o = rng.permutation(n)
        given = pd.DataFrame(B[o], index=pd.Index([names[i] for i in o], tupleize_cols=False), columns=[f"b{i}" for i in range(M)])
    else:
        given = B
    many = pf.scenario_pnl(given, X)
    cx.close(np.asarray(many, float).reshape(T, M), R @ B, "each column is one portfolio's P&L", rtol=1e-9, atol=1e-12 * max(np.abs(R).max() * np.abs(B).sum(0).max(), 1e-12))
    if isinstance(given, pd.DataFrame):
        cx.check(list(many.columns) == list(given.columns), "P&L columns keep the portfolio names")
    cx.event("several books", int(M > 1))


@scenario(SCN, 5000, thorough=40000, need=["weighted", "uniform", "demeaned", "raw", "labelled", "zero probability rows"])
def report(cx):
    rng = cx.rng
    n, T, R, names, X = world(rng)
    W, w, kind = one_book(rng, n, names, extra=False)
    conf = float(rng.choice([.95, .99, .9, .5, .975, .57, .29])) if rng.random() < .7 else float(rng.uniform(.02, .995))
    demean = bool(rng.random() < .4)
    uni = bool(rng.random() < .3)
    p = np.full(T, 1 / T) if uni else gen.probs(rng, T)
    given = None if uni and rng.random() < .7 else prob_as(rng, p * (1 if rng.random() < .7 else gen.mass(rng)))
    kw = {} if not demean and rng.random() < .5 else {"demean": demean}
    if conf != .95 or rng.random() < .5:
        kw["confidence"] = conf
    cx.note(R=R, w=w, p=p, conf=conf, demean=demean, kind=kind)
    cx.state(n, T, kind, conf, demean, uni)
    try:
        rep = pf.performance_report(W, X, probabilities=given, **kw)
    except ValueError as e:
        if given is not None and abs(np.asarray(given, float).sum() - 1) > 1e-6:
            cx.event("unnormalised probabilities refused")
            cx.stop("probabilities must sum to one")
        raise
    m, sd, (lo, hi), cv, ens = evaluate(w[:, None], R, p, conf, demean)[0]
    pct = int(round(conf * 100))
    s = max(np.abs(R).max() * np.abs(w).sum(), 1e-12)
    cx.check(list(rep.index) == ["mean", "stdev", f"VaR{pct}", f"CVaR{pct}", "ENS"], "report rows are named by statistic and confidence", got=list(rep.index))
    cx.close(rep["mean"], m, "mean", rtol=1e-9, atol=1e-11 * s)
    cx.close(rep["stdev"], sd, "standard deviation", rtol=1e-7, atol=1e-7 * s)
    cx.check(lo - 1e-9 * s <= rep[f"VaR{pct}"] <= hi + 1e-9 * s, "value-at-risk", got=rep[f"VaR{pct}"], lo=lo, hi=hi)
    cx.close(rep[f"CVaR{pct}"], cv, "CVaR", rtol=1e-9, atol=1e-9 * s / (1 - conf))
    cx.close(rep["ENS"], ens, "effective number of scenarios", rtol=1e-9)
    cx.event("uniform" if uni else "weighted")
    cx.event("demeaned" if demean else "raw")
    cx.event("labelled", int(names is not None and kind in ("series", "frame")))
    cx.event("zero probability rows", int((p == 0).any()))
    # the report of the P&L series itself is the same report
    pnl = np.asarray(pf.scenario_pnl(W, X), float).reshape(T, 1)
    if T > 1:
        own = pf.performance_report(np.ones(1), pnl, probabilities=p, confidence=conf, demean=demean)
        cx.close(own["mean"], m, "report of the P&L series: mean", rtol=1e-9, atol=1e-11 * s)
        cx.close(own["stdev"], sd, "report of the P&L series: standard deviation", rtol=1e-7, atol=1e-7 * s)
        cx.close(own[f"CVaR{pct}"], cv, "report of the P&L series: CVaR", rtol=1e-9, atol=1e-9 * s / (1 - conf))


def setting(rng, tmin=2):
    n, T, R, names, X = world(rng, tmin)
    p = None if rng.random() < .35 else gen.probs(rng, T)
    given = None if p is None else prob_as(rng, p)
    seed = gen.seed(rng, 10 ** 6)
    mode = str(rng.choice(["default", "exp", "none-like", "square"]))
    A = rng.normal(0, .5, (n, n))
    re = {"default": None, "exp": reprice_exp, "none-like": lambda d: d, "square": lambda d: d + .5 * d ** 2}[mode]
    return n, T, R, names, X, p, given, seed, mode, re


@scenario(SCN, 1500, thorough=12000, need=["default", "exp", "square", "calendar labels", "week labels", "weighted draws", "shuffled labels", "unseeded"])
def horizons(cx):
    rng = cx.rng
    n, T, R, names, X, p, given, seed, mode, re = setting(rng)
    W, w, kind = one_book(rng, n, names, extra=False)
    pool = [1, 2, 3, 4, 5, 8, 13, 26, 52, 12, 7]
    hs = [int(h) for h in rng.choice(pool, int(rng.integers(1, 5)), replace=False)]
    S = int(rng.choice([1, 5, 40, 200]))
    conf = float(rng.choice([.95, .9, .99, .5, .58, .29]))
    cx.note(R=R, w=w, p=p, horizons=hs, S=S, conf=conf, mode=mode, seed=seed, kind=kind)
    cx.state(n, T, kind, tuple(hs), S, mode, p is None)
    kw = dict(horizons=hs if rng.random() < .5 else tuple(hs), n_simulations=S, p=given, confidence=conf, seed=seed)
    if mode != "default":
        kw["reprice"] = re
    rep = pf.horizon_report(W, X, **kw)
    f = reprice_exp if re is None else re
    lab = [{4: "1m", 13: "3m", 26: "6m", 52: "1y"}.get(h, f"{h}w") for h in hs]
    cx.check(list(rep.index) == lab, "one row per horizon, in order", got=list(rep.index), want=lab)
    pct = int(round(conf * 100))
    cx.check(list(rep.columns) == ["mean", "stdev", f"VaR{pct}", f"CVaR{pct}", "ENS"], "horizon columns", got=list(rep.columns))
    for i, h in enumerate(hs):
        Y = f(project_scenarios(R, h, p, S, None, seed + i))
        m, sd, (lo, hi), cv, ens = evaluate(w[:, None], Y, np.full(S, 1 / S), conf, False)[0]
        s = max(np.abs(Y).max() * np.abs(w).sum(), 1e-12)
        row = rep.iloc[i]
        cx.close(row["mean"], m, "horizon mean is that horizon's own", rtol=1e-9, atol=1e-10 * s, horizon=h)
        cx.close(row["stdev"], sd, "horizon volatility is that horizon's own", rtol=1e-7, atol=1e-7 * s, horizon=h)
        v = row[f"VaR{pct}"]
        cx.check(lo - 1e-9 * s <= v <= hi + 1e-9 * s, "horizon value-at-risk is that horizon's own", got=v, lo=lo, hi=hi, horizon=h)
        cx.close(row[f"CVaR{pct}"], cv, "horizon CVaR is that horizon's own", rtol=1e-9, atol=1e-9 * s / (1 - conf), horizon=h)
        cx.close(row["ENS"], S, "horizon scenarios are equally likely", rtol=1e-9, horizon=h)
    cx.event(mode)
    cx.event("calendar labels", sum(not x.endswith("w") for x in lab))
    cx.event("week labels", sum(x.endswith("w") for x in lab))
    cx.event("weighted draws", int(p is not None))
    cx.event("shuffled labels", int(kind in ("series", "frame") and n > 1))
    if cx.index % 8 == 0:
        rep = pf.horizon_report(W, X, n_simulations=3, seed=seed, **({} if mode == "default" else {"reprice": re}))
        cx.check(list(rep.index) == ["1m", "3m", "6m", "1y"], "the declared horizons are reported by default", got=list(rep.index))
        for i, h in enumerate((4, 13, 26, 52)):
            Y = f(project_scenarios(R, h, None, 3, None, seed + i)) @ w
            cx.close(rep["mean"].iloc[i], Y.mean(), "horizon mean is that horizon's own", rtol=1e-8, atol=1e-9 * max(np.abs(Y).max(), 1e-9), horizon=h)
        cx.event("default horizons")
    # a single observed row is drawn every time: the projection is then known without a seed
    k = int(rng.integers(T))
    e = np.eye(T)[k]
    row = pf.horizon_report(W, X, horizons=hs[:1], n_simulations=3, p=e, reprice=f).iloc[0]
    y = float(f(R[k:k + 1] * hs[0])[0] @ w)
    cx.close([row["mean"], row["stdev"], row["VaR95"], row["CVaR95"]], [y, 0.0, -y, -y], "certain draws give the certain horizon return", rtol=1e-9, atol=2e-8 * max(abs(y), 1e-6))
    cx.event("unseeded")


@scenario(SCN, 2500, thorough=16000, need=["default", "square", "under water", "from the first step", "weighted draws", "shuffled labels", "certain path"])
def drawdowns(cx):
    rng = cx.rng
    n, T, R, names, X, p, given, seed, mode, re = setting(rng)
    W, w, kind = one_book(rng, n, names, extra=False)
    while kind == "frame":
        W, w, kind = one_book(rng, n, names, extra=False)
    h = int(rng.choice([1, 2, 3, 10, 26, 52]))
    S = int(rng.choice([1, 2, 5, 50]))
    conf = float(rng.choice([.95, .5, .99, .05, .57, .29, .55]))
    cx.note(R=R, w=w, p=p, horizon=h, S=S, conf=conf, mode=mode, seed=seed, kind=kind)
    cx.state(n, T, kind, h, S, mode, p is None)
    kw = dict(confidence=conf, n_paths=S, p=given, seed=seed)
    if mode != "default":
        kw["reprice"] = re
    rep = pf.drawdown_quantile(W, X, h, **kw)
    f = reprice_exp if re is None else re
    P = simulate_paths(R, horizon=h, n_paths=S, p=p, seed=seed)
    dd, first = [], 0
    for a in range(S):
        peak = worst = 0.0
        peak = 1.0
        for t in range(h):
            v = 1.0 + float(sum(f(P[a, t])[j] * w[j] for j in range(n)))
            peak = max(peak, v)
            d = (peak - v) / peak
            first += (t == 0 and d > 0)
            worst = max(worst, d)
        dd.append(worst)
    dd = np.array(dd)
    pct = int(round(conf * 100))
    srt = np.sort(dd)
    pos = conf * (S - 1)
    lo, hi = int(np.floor(pos)), int(np.ceil(pos))
    q = srt[lo] + (pos - lo) * (srt[hi] - srt[lo])
    med = srt[S // 2] if S % 2 else (srt[S // 2 - 1] + srt[S // 2]) / 2
    s = max(1.0, np.abs(dd).max())
    cx.check(list(rep.index) == ["max_dd_mean", "max_dd_median", f"max_dd_{pct}", "max_dd_worst"], "drawdown rows", got=list(rep.index))
    cx.close(rep["max_dd_mean"], dd.mean(), "mean drawdown", rtol=1e-9, atol=1e-11 * s)
    cx.close(rep["max_dd_median"], med, "median drawdown", rtol=1e-9, atol=1e-11 * s)
    cx.close(rep[f"max_dd_{pct}"], q, "drawdown quantile", rtol=1e-9, atol=1e-11 * s)
    cx.close(rep["max_dd_worst"], dd.max(), "worst drawdown", rtol=1e-9, atol=1e-11 * s)
    cx.check(bool((rep.to_numpy() >= 0).all()) and bool((rep.to_numpy() <= rep["max_dd_worst"] + 1e-12).all()), "drawdowns lie between zero and the worst path", rep=rep.to_dict())
    r2 = pf.drawdown_quantile(W, X, h, **{**kw, "confidence": min(.999, conf + .3 * (1 - conf))})
    cx.leq(rep.iloc[2], r2.iloc[2], "drawdown quantiles are ordered", tol=1e-12)
    cx.event(mode)
    cx.event("under water", int(dd.max() > 0))
    cx.event("from the first step", first)
    cx.event("weighted draws", int(p is not None))
    cx.event("shuffled labels", int(kind == "series" and n > 1))
    k = int(rng.integers(T))
    one = pf.drawdown_quantile(W, X, h, n_paths=2, p=np.eye(T)[k], reprice=f)
    V = np.r_[1.0, [1 + float(f(R[k] * (t + 1)) @ w) for t in range(h)]]
    pk = np.maximum.accumulate(V)
    cx.close(one.to_numpy(), np.full(4, ((pk - V) / pk).max()), "a certain path gives its own drawdown", rtol=1e-8, atol=1e-11)
    cx.event("certain path")


@scenario(SCN, 600, thorough=4000, need=["own labels", "row numbers", "raised:ValueError"])
def instruments(cx):
    """A custom repricer maps few invariants to other instruments (options, bonds), named or not."""
    rng = cx.rng
    k, m, T = int(rng.integers(1, 4)), int(rng.integers(1, 6)), int(rng.integers(3, 30))
    R = rng.normal(0, .03, (T, k))
    X = pd.DataFrame(R, columns=[f"factor {j}" for j in range(k)])
    B, C = rng.normal(0, 1, (k, m)), rng.normal(0, 1, (k, m))

    def book(dy):
        return dy @ B + .5 * dy ** 2 @ C

    w = rng.dirichlet(np.ones(m))
    h, S, seed = int(rng.integers(1, 8)), int(rng.integers(1, 12)), int(rng.integers(1e6))
    cx.note(R=R, B=B, C=C, w=w, h=h, S=S, seed=seed)
    cx.state(k, m, T, h, S)
    P = simulate_paths(R, horizon=h, n_paths=S, seed=seed)
    wealth = np.ones((S, h + 1))
    for t in range(h):
        wealth[:, t + 1] = 1 + book(P[:, t, :]) @ w
    dd = (1 - wealth / np.maximum.accumulate(wealth, axis=1)).max(axis=1)
    names = [f"instrument {j}" for j in range(m)]
    for lab, W in (("own labels", pd.Series(w, index=names)), ("row numbers", pd.Series(w)), ("array", w)):
        rep = pf.drawdown_quantile(W, X, h, n_paths=S, seed=seed, reprice=book, confidence=.9)
        cx.close(rep["max_dd_mean"], dd.mean(), f"mean drawdown of repriced instruments ({lab})", rtol=1e-9, atol=1e-11)
        cx.close(rep["max_dd_worst"], dd.max(), f"worst drawdown of repriced instruments ({lab})", rtol=1e-9, atol=1e-11)
        cx.event(lab)
    if m == k:
        same = pf.drawdown_quantile(pd.Series(w), X, h, n_paths=S, seed=seed)
        want = pf.drawdown_quantile(w, X, h, n_paths=S, seed=seed)
        cx.close(same.to_numpy(), want.to_numpy(), "books without labels are positional", rtol=1e-12, atol=1e-14)
        cx.raises(lambda: pf.drawdown_quantile(pd.Series(w, index=names), X, h, n_paths=S, seed=seed), "unknown labels are rejected by the default repricing", types=(ValueError, KeyError))


@scenario(SCN, 800, thorough=5000, need=["raised:ValueError"])
def labels_and_shapes(cx):
    """Wrong labels, lengths, confidences and several books where one is meant."""
    rng = cx.rng
    n, T = int(rng.integers(2, 6)), 12
    names = gen.labels(rng, n, "str")
    R = rng.normal(0, .02, (T, n))
    X = pd.DataFrame(R, columns=names)
    w = rng.dirichlet(np.ones(n))
    V = (ValueError, KeyError)
    bad = list(names)
    bad[int(rng.integers(n))] = "someone else"
    for f in (pf.scenario_pnl, pf.performance_report):
        for W in (pd.Series(w, index=bad), pd.Series(w[1:], index=names[1:]), pd.DataFrame(w[:, None], index=bad)):
            cx.raises(lambda: f(W, X), f"{f.__name__}: unknown or missing labels are rejected", types=V)
        for W in (np.append(w, 0.0), w[:-1]):
            cx.raises(lambda: f(W, R), f"{f.__name__}: weights of the wrong length are rejected", types=V)
        cx.raises(lambda: f(w, R[:, 0]), f"{f.__name__}: panels must be two-dimensional", types=V)
    cx.raises(lambda: pf.scenario_pnl(dict(zip(bad, w)), X), "unknown or missing labels are rejected", types=V)
    cx.raises(lambda: pf.performance_report(np.column_stack([w, w]), R), "a report is for one portfolio", types=V)
    for c in (0.0, 1.0, -.1, 1.5, np.nan):
        cx.raises(lambda: pf.performance_report(w, R, confidence=c), "confidence must be inside (0, 1)", types=V)
    for q in (np.full(T - 1, 1 / (T - 1)), np.full(T, np.nan), -np.full(T, 1 / T)):
        cx.raises(lambda: pf.performance_report(w, R, probabilities=q), "invalid probabilities are rejected", types=V)
        cx.raises(lambda: pf.horizon_report(w, R, horizons=[2], p=q, n_simulations=5), "invalid probabilities are rejected", types=V)
        cx.raises(lambda: pf.drawdown_quantile(w, R, 2, p=q, n_paths=5), "invalid probabilities are rejected", types=V)
    cx.state(n, cx.index % 8)


@scenario(SCN, 1000)
def hedged(cx):
    """A book that never moves has a report like any other: no deviation, and its mean everywhere."""
    rng = cx.rng
    T = int(rng.integers(5, 80))
    R, W = gen.hedged(rng, T)
    p = gen.probs(rng, T)
    w, s = W[:, 0], np.abs(W).sum() * np.abs(R).max()
    cx.note(R=R, w=w, p=p)
    cx.state(T, R.shape)
    rep = pf.performance_report(w if rng.random() < .5 else W, R, probabilities=p, confidence=.9)
    x = float(p @ (R @ w))
    cx.close(rep["stdev"], 0.0, "standard deviation of a hedged book", atol=1e-7 * s)
    cx.close(rep["mean"], x, "mean of a hedged book", rtol=1e-9, atol=1e-11 * s)
    cx.close([rep["VaR90"], rep["CVaR90"]], [-x, -x], "tail of a hedged book", rtol=1e-9, atol=1e-9 * s)
