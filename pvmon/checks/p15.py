"""P15: the posterior honours the stated views with the least distortion."""
import numpy as np
import pandas as pd
from pyvallocation.views import (FlexibleViewsProcessor, above, at_least, at_most, below, between, entropy_pooling)

from .. import gen, oracle
from ..core import scenario
from .p14 import dual_bound, kl

SCN = []
QUICK_FACTOR = 1  # relative cost of this check
ASSUMPTIONS = ["volatility, variance, skewness and correlation views are imposed on raw moments at the documented reference means and "
               "variances (the prior's, or those after the mean views); they hold exactly in the posterior when those are pinned",
               "views are planted at a tilt of the prior, so that every system is satisfiable; tolerance 2e-5 of the largest coefficient"]


class Ref:
    """Independent translation of views to rows over the scenarios."""

    def __init__(self, R, p):
        self.R, self.p = R, p
        self.eq, self.le = [], []  # (row, rhs)

    def add(self, op, row, rhs):
        if op == "==":
            self.eq.append((row, rhs))
        elif op in ("<=", "<"):
            self.le.append((row, rhs))
        else:
            self.le.append((-row, -rhs))

    def mats(self):
        S = len(self.R)
        A = np.array([r for r, _ in self.eq] + [np.ones(S)])
        b = np.array([x for _, x in self.eq] + [1.0])
        return A, b, np.array([r for r, _ in self.le]).reshape(len(self.le), S), np.array([x for _, x in self.le])

    def solve(self, p=None):
        A, b, G, h = self.mats()
        return entropy_pooling(self.p if p is None else p, A, b, **({"G": G, "h": h} if len(h) else {})).ravel()


def make_spec(rng, value, width, pos=False, lim=None):
    """A random way to state a view that `value` satisfies: (spec, [(op, rhs)])."""
    k = str(rng.choice(["eq", "eq", "ge", "le", "bt", "gt", "lt"]))
    if abs(value) < 1e-12 * width:
        value = 0.0
    sl = float(rng.choice([0.0, 0.5, 1.0])) * width
    lo, hi = value - sl, value + sl
    if rng.random() < 0.15 and not pos:  # bounds at exactly zero
        lo, hi = (lo, 0.0) if value <= 0.0 else (0.0, hi)
    if pos:
        lo = max(lo, value * 0.5)
    if lim:
        lo, hi = max(lo, lim[0]), min(hi, lim[1])
    raw = rng.random() < 0.5
    if k == "eq":
        return (("==", value) if rng.random() < .3 else value), [("==", value)]
    if k == "ge":
        return ((">=", lo) if raw else at_least(lo)), [(">=", lo)]
    if k == "gt":
        return ((">", lo) if raw else above(lo)), [(">=", lo)]
    if k == "le":
        return (["<=", hi] if raw else at_most(hi)), [("<=", hi)]
    if k == "lt":
        return (("<", hi) if raw else below(hi)), [("<=", hi)]
    return (("between", lo, hi) if raw else between(lo, hi)), [(">=", lo), ("<=", hi)]


def market(rng, S=None, pandas=None):
    S = S or int(rng.choice([40, 150, 400]))
    n = int(rng.integers(1, 5))
    sc = float(rng.choice([0.02, 0.2, 0.002, 1.0]))
    R = gen.panel(rng, S, n, scale=sc)
    if rng.random() < 0.3:
        R = R + rng.normal(0, 2 * sc, n)
    p = np.full(S, 1 / S) if rng.random() < 0.5 else (lambda d: d / d.sum())(rng.dirichlet(np.full(S, 3.0)) + 1e-4 / S)
    q0 = p * np.exp(rng.normal(0, float(rng.choice([0.1, 0.4, 0.8])), S))
    z = (R - R.mean(0)) / np.maximum(R.std(0), 1e-300)
    if rng.random() < 0.5:
        q0 = q0 * np.exp(np.clip(0.3 * z @ rng.normal(size=n), -2, 2))
    q0 /= q0.sum()
    if rng.random() < 0.25:  # planted means and mean differences are exactly zero
        R = R - q0 @ R
    frame = rng.random() < 0.6 if pandas is None else pandas
    if frame:
        names = gen.labels(rng, n, str(rng.choice(["str", "int"])))
        X = pd.DataFrame(R, columns=names, index=pd.date_range("2020-01-01", periods=S) if rng.random() < .3 else None)
    else:
        names, X = [str(i) for i in range(n)], R
    return S, n, R, p, q0, names, X, sc


def key(rng, a):
    """An integer label may also be given as its decimal string."""
    return str(a) if isinstance(a, int) and rng.random() < 0.3 else a


def mean_block(rng, R, q0, names, ref, allow_rank=True):
    n = R.shape[1]
    views, rank, kinds = {}, None, set()
    for i in rng.permutation(n)[: int(rng.integers(1, n + 1))]:
        v = float(q0 @ R[:, i])
        if n > 1 and rng.random() < 0.3:
            j = int(rng.choice([x for x in range(n) if x != i]))
            row = R[:, i] - R[:, j]
            k = (key(rng, names[i]), key(rng, names[j]))
            kinds.add("relative")
        else:
            row, k = R[:, i], key(rng, names[i])
            kinds.add("mean")
        if k in views:
            continue
        s, ops = make_spec(rng, float(q0 @ row), 0.3 * row.std())
        views[k] = s
        for op, rhs in ops:
            ref.add(op, row, rhs)
    if n > 1 and allow_rank and rng.random() < 0.3:
        m = q0 @ R
        o = [int(i) for i in np.argsort(-m)]
        o = o[: int(rng.integers(2, n + 1))]
        rank = [names[i] for i in o]
        kinds.add("rank")
        k = (names[o[0]], names[o[1]])
        if k not in views and rng.random() < .4:  # a view on the same pair comes on top of the ranking
            row = R[:, o[0]] - R[:, o[1]]
            s, ops = make_spec(rng, float(q0 @ row), 0.3 * row.std())
            views[k] = s
            for op, rhs in ops:
                ref.add(op, row, rhs)
            kinds.add("ranked pair")
        for i, j in zip(o[:-1], o[1:]):
            ref.add(">=", R[:, i] - R[:, j], 0.0)
    return views, rank, kinds


def higher_block(rng, mtype, R, q0, names, mu, var, ref):
    n = R.shape[1]
    out = {}
    if mtype == "corr":
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
        if not pairs:
            return out
        for c in rng.permutation(len(pairs))[:1 if n < 3 else 2]:
            i, j = pairs[c]
            if (names[j], names[i]) in out:
                continue
            sd = np.sqrt(var[i] * var[j])
            row = R[:, i] * R[:, j]
            v = float((q0 @ row - mu[i] * mu[j]) / sd)
            if not -0.999 < v < 0.999:
                continue
            s, ops = make_spec(rng, v, 0.1, lim=(-1, 1))
            out[(key(rng, names[i]), key(rng, names[j]))] = s
            for op, t in ops:
                ref.add(op, row, t * sd + mu[i] * mu[j])
        return out
    for i in rng.permutation(n)[: int(rng.integers(1, n + 1))]:
        x = R[:, i]
        if mtype in ("vol", "var"):
            v = float(q0 @ x ** 2 - mu[i] ** 2)
            if v <= 0.05 * var[i]:
                continue
            v = float(np.sqrt(v)) if mtype == "vol" else v
            s, ops = make_spec(rng, v, 0.1 * v, pos=True)
            for op, t in ops:
                ref.add(op, x ** 2, (t * t if mtype == "vol" else t) + mu[i] ** 2)
        else:
            sd = np.sqrt(var[i])
            if var[i] < 1e-11:
                continue
            v = float((q0 @ x ** 3 - 3 * mu[i] * var[i] - mu[i] ** 3) / sd ** 3)
            s, ops = make_spec(rng, v, 0.1)
            for op, t in ops:
                ref.add(op, x ** 3, t * sd ** 3 + 3 * mu[i] * var[i] + mu[i] ** 3)
        out[key(rng, names[i])] = s
    return out


def mom(R, q):
    m = q @ R
    return m, q @ (R - m) ** 2


def reported(cx, f, R, names, frame):
    """The object's outputs agree with its probabilities."""
    q = f.get_posterior_probabilities()
    cx.check(q.shape == (len(R), 1), "posterior is a column with one entry per scenario")
    q = q.ravel()
    cx.check(np.isfinite(q).all() and (q >= 0).all(), "posterior is a distribution")
    cx.close(q.sum(), 1.0, "posterior is a distribution (sum)", rtol=0, atol=1e-9)
    m, C = f.get_posterior()
    if frame:
        cx.check(list(m.index) == names and list(C.index) == names and list(C.columns) == names, "posterior moments keep the labels")
        cx.check(list(f.get_scenarios().columns) == names, "scenarios keep the labels")
    wm = q @ R
    sc = np.abs(R).max()
    cx.close(m, wm, "posterior mean is that of the scenarios", rtol=1e-9, atol=1e-12 * sc)
    cx.close(C, (R - wm).T @ ((R - wm) * q[:, None]), "posterior covariance is that of the scenarios", rtol=1e-7, atol=1e-10 * sc ** 2)
    cx.close(f.get_scenarios(), R, "scenarios are those supplied", rtol=0, atol=0)
    return q


def certify(cx, q, p, ref, what, q0=None):
    A, b, G, h = ref.mats()
    cx.leq(np.abs(A @ q - b), 2e-5 * np.abs(A).max(1), f"{what} equality views hold", tol=0)
    if len(h):
        cx.leq(G @ q - h, 2e-5 * np.abs(G).max(1), f"{what} inequality views hold", tol=0)
        cx.event("inequality views")
    v = kl(q, p)
    if (p > 0).all() and p.min() > 1e-250:
        lo = dual_bound(q, p, A, b, G, h)
        cx.leq(v, lo + 1e-4 + 1e-3 * abs(v), f"{what} posterior is the least distortion", tol=0, kl=v, bound=lo)
    if q0 is not None:
        cx.leq(v, kl(q0, p) * (1 + 1e-4) + 2e-5, f"{what} no planted solution is closer to the prior", tol=0)


HIGH = ["vol", "var", "skew", "corr"]


@scenario(SCN, 700, need=["inequality views", "mean with higher", "higher only"])
def simultaneous(cx):
    rng = cx.rng
    S, n, R, p, q0, names, X, sc = market(rng)
    ref = Ref(R, p)
    kw, kinds = {}, set()
    mu, var = mom(R, p)
    use_mean = rng.random() < 0.7
    if use_mean:
        kw["mean_views"], rank, kinds = mean_block(rng, R, q0, names, ref)
        if rank:
            kw["rank_mean"] = rank
        if not kw["mean_views"]:
            del kw["mean_views"]
    pick = [m for m in HIGH if rng.random() < (0.3 if use_mean else 0.5)]
    if "vol" in pick and "var" in pick:
        pick.remove("var")
    if not use_mean and not pick:
        pick = [str(rng.choice(HIGH))]
    if use_mean and pick:
        mu, var = mom(R, ref.solve())
    for m in pick:
        d = higher_block(rng, m, R, q0, names, mu, var, ref)
        if d:
            kw[m + "_views"] = d
            kinds.add(m)
            cx.event("mean with higher" if use_mean else "higher only")
    if not kw:
        cx.stop("no view")
    cx.note(R=X, p=p, **kw)
    cx.state("+".join(sorted(kinds)), S, sc, isinstance(X, pd.DataFrame))
    f = FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=None if np.ptp(p) < 1e-15 else p, **kw)
    q = reported(cx, f, R, names, isinstance(X, pd.DataFrame))
    certify(cx, q, p, ref, "simultaneous", q0)


@scenario(SCN, 500, need=["exact volatility"])
def exact_moments(cx):
    """With the mean pinned, volatility / variance views hold exactly; correlation too when alone with means and a variance pinned at the mid value."""
    rng = cx.rng
    S, n, R, p, q0, names, X, sc = market(rng)
    mv, vv = {}, {}
    use_vol = rng.random() < 0.5
    m0, v0 = mom(R, q0)
    for i in range(n):
        mv[names[i]] = float(m0[i])
        s, ops = make_spec(rng, float(np.sqrt(v0[i]) if use_vol else v0[i]), 0.05 * float(np.sqrt(v0[i]) if use_vol else v0[i]), pos=True)
        vv[names[i]] = s
        vv_ops = ops
        mv.setdefault("_", [])
        mv["_"].append(ops)
    opslist = mv.pop("_")
    cx.note(R=X, p=p, mean_views=mv, views=vv)
    cx.state(use_vol, n, sc)
    f = FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p if rng.random() < .8 else p * gen.mass(rng), mean_views=mv, **{"vol_views" if use_vol else "var_views": vv})
    q = reported(cx, f, R, names, isinstance(X, pd.DataFrame))
    m, v = mom(R, q)
    big = np.abs(R).max(0)
    cx.leq(np.abs(m - m0), 3e-5 * big, "stated means hold", tol=0)
    for i in range(n):
        got = v[i]
        tol = 8e-5 * big[i] ** 2
        for op, t in opslist[i]:
            t = t * t if use_vol else t
            if op == "==":
                cx.leq(abs(got - t), tol, "stated volatilities hold", tol=0)
            elif op == "<=":
                cx.leq(got, t, "stated volatilities hold", tol=tol)
            else:
                cx.leq(t, got, "stated volatilities hold", tol=tol)
    cx.event("exact volatility")


@scenario(SCN, 400, need=["blocks>=2"])
def sequential(cx):
    """Blocks are chained mean, vol, var, skew, corr; each starts from the previous posterior and its moments."""
    rng = cx.rng
    S, n, R, p, q0, names, X, sc = market(rng, S=int(rng.choice([150, 400])))
    q, kw, blocks = p, {}, 0
    pick = [m for m in ["mean"] + HIGH if rng.random() < 0.5] or ["vol"]
    if pick == ["mean"]:
        pick.append(str(rng.choice(HIGH)))
    last = None
    for m in pick:
        mu, var = mom(R, q)
        ref = Ref(R, q)
        # planted tilt of the current posterior keeps each block satisfiable
        t = q * np.exp(np.clip(rng.normal(0, 0.4, S), -1, 1))
        t /= t.sum()
        if m == "mean":
            d, rank, _ = mean_block(rng, R, t, names, ref)
            if rank:
                kw["rank_mean"] = rank
        else:
            d = higher_block(rng, m, R, t, names, mu, var, ref)
        if not d and m != "mean":
            continue
        kw[m + "_views"] = d
        prev, q, last = q, ref.solve(q), ref
        blocks += 1
    if not blocks:
        cx.stop("no view")
    cx.event("blocks>=2" if blocks > 1 else "one block")
    cx.note(R=X, p=p, **kw)
    cx.state("+".join(kw), n, sc)
    order = list(rng.permutation(list(kw)))
    f = FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p if rng.random() < .8 else p * gen.mass(rng), sequential=True, **{k: kw[k] for k in order})
    got = reported(cx, f, R, names, isinstance(X, pd.DataFrame))
    certify(cx, got, prev, last, "last block")
    cx.leq(np.abs(got - q).sum(), 5e-3, "sequential blocks are chained from the previous posterior", tol=0)


@scenario(SCN, 400, need=["quantile", "after moments"])
def quantiles(cx):
    rng = cx.rng
    S, n, R, p, q0, names, X, sc = market(rng)
    ref, kw, prior = Ref(R, p), {}, p
    if rng.random() < 0.4:
        r0 = Ref(R, p)
        kw["mean_views"], rank, _ = mean_block(rng, R, q0, names, r0)
        if rank:
            kw["rank_mean"] = rank
        kw["sequential"] = bool(rng.random() < .5)
        prior = r0.solve()
        ref = Ref(R, prior)
        cx.event("after moments")
    qv = {}
    for i in rng.permutation(n)[: int(rng.integers(1, n + 1))]:
        x = R[:, i]
        lev = float(np.quantile(x, rng.uniform(0.05, 0.95))) if rng.random() < .5 else float(rng.choice(x))
        ind = (x <= lev).astype(float)
        pr = float(q0 @ ind)
        if not 0.01 < pr < 0.99:
            continue
        s, ops = make_spec(rng, pr, 0.03, lim=(0.001, 0.999))
        qv[key(rng, names[i])] = (lev, s) if rng.random() < .7 else [lev, s]
        for op, t in ops:
            ref.add(op, ind, t)
    if not qv:
        cx.stop("no view")
    cx.event("quantile")
    cx.note(R=X, p=p, quantile_views=qv, **kw)
    cx.state(n, S, len(qv), sorted(kw))
    f = FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p if rng.random() < .8 else p * gen.mass(rng), quantile_views=qv, **kw)
    q = reported(cx, f, R, names, isinstance(X, pd.DataFrame))
    certify(cx, q, prior, ref, "quantile", q0 if prior is p else None)


@scenario(SCN, 300, need=["tail mean"])
def tail_means(cx):
    rng = cx.rng
    S, n, R, p, q0, names, X, sc = market(rng, S=int(rng.choice([60, 150, 400])))
    g = float(rng.choice([0.05, 0.1, 0.25, 0.031]))
    i = int(rng.integers(n))
    x = R[:, i]
    kw = {}
    o = np.argsort(x)
    s = int(np.searchsorted(np.cumsum(p[o]), g))
    if s < 2 or np.ptp(x[o][: s + 1]) < 1e-3 * sc:
        cx.stop("tail too short")
    base = -oracle.cvar(-x, p, g)
    tgt = float(base + (x[o[0]] - base) * rng.uniform(0.02, 0.6) if rng.random() < 0.6 else base + (x[o[s]] - base) * rng.uniform(0, 0.6))
    view = (tgt, g) if g != 0.05 or rng.random() < .6 else tgt
    cx.note(R=X, p=p, asset=names[i], target=tgt, gamma=g)
    cx.state(S, g, tgt < base, sc)
    try:
        f = FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p if rng.random() < .8 else p * gen.mass(rng), cvar_views={key(rng, names[i]): view})
    except RuntimeError:
        cx.stop("tail search gave up")
    q = reported(cx, f, R, names, isinstance(X, pd.DataFrame))
    cx.close(-oracle.cvar(-x, q, g), tgt, "stated tail mean holds", rtol=0, atol=5e-5 * np.abs(x).max() / g)
    cx.event("tail mean")
    # least distortion for its own threshold: weights are exp-affine on either side of the threshold
    cum = np.cumsum(q[o])
    k = int(np.argmin(np.abs(cum - g)))
    if abs(cum[k] - g) < 1e-6 and k < S - 1 and p.min() > 1e-12:
        r = Ref(R, p)
        tail = np.zeros(S)
        tail[o[: k + 1]] = 1
        r.add("==", tail, g)
        r.add("==", tail * x, g * tgt)
        certify(cx, q, p, r, "tail")


@scenario(SCN, 300, need=["prior kept"])
def undistorted(cx):
    """No view, or views the prior already satisfies: the prior comes back."""
    rng = cx.rng
    S, n, R, p, q0, names, X, sc = market(rng)
    mu, var = mom(R, p)
    f = FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p)
    q = reported(cx, f, R, names, isinstance(X, pd.DataFrame))
    cx.close(q, p, "prior kept without views", rtol=1e-12)
    f = FlexibleViewsProcessor(prior_risk_drivers=X)
    cx.close(reported(cx, f, R, names, isinstance(X, pd.DataFrame)), np.full(S, 1 / S), "equal weights without views or probabilities", rtol=1e-12)
    ref, kw = Ref(R, p), {}
    if rng.random() < .7:
        kw["mean_views"], rank, _ = mean_block(rng, R, p, names, ref)
        if rank:
            kw["rank_mean"] = rank
    for m in HIGH:
        if rng.random() < .4:
            kw[m + "_views"] = higher_block(rng, m, R, p, names, mu, var, ref)
    if rng.random() < .3:
        lev = float(np.median(R[:, 0]))
        pr = float(p @ (R[:, 0] <= lev))
        if 0 < pr < 1:
            kw["quantile_views"] = {names[0]: (lev, pr)}
    kw["sequential"] = bool(rng.random() < .5)
    cx.note(R=X, p=p, **kw)
    cx.state(sorted(kw), S, sc)
    f = FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p if rng.random() < .8 else p * gen.mass(rng), **kw)
    q = reported(cx, f, R, names, isinstance(X, pd.DataFrame))
    cx.leq(kl(q, p), 1e-5, "prior kept when it satisfies the views", tol=0)
    cx.leq(np.abs(q - p).sum(), 5e-3, "prior kept when it satisfies the views (weights)", tol=0)
    cx.event("prior kept")


@scenario(SCN, 250, need=["vector views"])
def equivalent_forms(cx):
    """Vectors, labelled vectors, dictionaries, arrays and frames state the same views."""
    rng = cx.rng
    S, n, R, p, q0, names, X, sc = market(rng, S=120, pandas=True)
    m0, v0 = mom(R, q0)
    mu, var = mom(R, p)
    kind = str(rng.choice(["mean", "vol", "var", "skew"]))
    if kind == "mean":
        t = m0
    elif kind in ("vol", "var"):
        v = q0 @ R ** 2 - mu ** 2
        if (v <= 0.05 * var).any():
            cx.stop("reference mean too far")
        t = np.sqrt(v) if kind == "vol" else v
    else:
        if (var < 1e-11).any():
            cx.stop("near-zero variance")
        t = (q0 @ R ** 3 - 3 * mu * var - mu ** 3) / var ** 1.5
    cx.note(R=X, p=p, kind=kind, target=t)
    cx.state(kind, n, sc)
    o = rng.permutation(n)
    A = str([type(x).__name__ for x in names])
    run = lambda X, v, **kw: FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p if rng.random() < .8 else p * gen.mass(rng), **{kind + "_views": v}, **kw)
    base = reported(cx, run(X, {a: float(x) for a, x in zip(names, t)}), R, names, True)
    forms = {"array": t, "list": t.tolist(), "series": pd.Series(t, index=names), "shuffled series": pd.Series(t, index=names).iloc[o],
             "shuffled dict": {names[i]: float(t[i]) for i in o}}
    for nm, v in forms.items():
        q = run(X, v).get_posterior_probabilities().ravel()
        cx.leq(np.abs(q - base).sum(), 3e-3, "view containers are equivalent", tol=0, form=nm)
    for v in (t, {str(i): float(x) for i, x in enumerate(t)}):
        q = run(R, v).get_posterior_probabilities().ravel()
        cx.leq(np.abs(q - base).sum(), 3e-3, "plain arrays are equivalent to frames", tol=0)
    for pg in (pd.Series(p), p[:, None], p * 3):
        q = FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=pg, **{kind + "_views": t}).get_posterior_probabilities().ravel()
        cx.leq(np.abs(q - base).sum(), 3e-3, "probability containers are equivalent", tol=0)
    cx.event("vector views")
    Xs = X[[names[i] for i in o]]
    q = run(Xs, pd.Series(t, index=names)).get_posterior_probabilities().ravel()
    cx.leq(np.abs(q - base).sum(), 3e-3, "asset order does not matter", tol=0)


@scenario(SCN, 80, need=["synthetic", "arrays", "labelled", "labelled covariance", "old generator"])
def synthetic_prior(cx):
    rng = cx.rng
    n, mu, C = gen.moments(rng, lo=1, hi=4, scale=0.2)
    seed = gen.seed(rng)
    S = int(rng.choice([2000, 20000]))
    names = gen.strlabels(rng, n)
    o = rng.permutation(n)
    form = str(rng.choice(["arrays", "labelled", "labelled covariance"]))
    pm, pc = {"arrays": (mu, C), "labelled": (pd.Series(mu, index=names), pd.DataFrame(C, index=names, columns=names).iloc[o, o]),
              "labelled covariance": (mu, pd.DataFrame(C, index=names, columns=names).iloc[:, o])}[form]
    frame = form != "arrays"
    cx.event(form)
    cx.note(mu=mu, C=C, S=S, seed=seed)
    cx.state(n, S, frame)
    mk = lambda **kw: FlexibleViewsProcessor(prior_mean=pm, prior_cov=pc, num_scenarios=S, random_state=seed, **kw)
    f = mk()
    R = np.asarray(f.get_scenarios())
    cx.check(R.shape == (S, n), "one synthetic row per scenario")
    reported(cx, f, R, list(names) if frame else None, frame)
    se = np.sqrt(np.diag(C) / S) + 1e-3 / np.sqrt(S)
    cx.leq(np.abs(R.mean(0) - mu), 6 * se, "synthetic scenarios have the prior mean", tol=0)
    sd = np.sqrt(np.diag(C) + 1e-6)
    cx.leq(np.abs(np.cov(R.T, bias=True) - C), 8 * np.outer(sd, sd) / np.sqrt(S) + 1e-5, "synthetic scenarios have the prior covariance", tol=0)
    cx.close(mk().get_scenarios(), R, "same seed gives the same scenarios", rtol=0, atol=0)
    i = int(rng.integers(n))
    t = float(mu[i] + 0.3 * np.sqrt(C[i, i]))
    g = mk(mean_views={(names[i] if frame else str(i)): t})
    cx.close(g.get_scenarios(), R, "views do not change the scenarios", rtol=0, atol=0)
    cx.close(np.asarray(g.get_posterior()[0])[i], t, "stated mean holds on synthetic scenarios", atol=3e-5 * np.abs(R).max(), rtol=0)
    cx.event("synthetic")
    got = {}

    def mine(m, S_, k, r):
        got.update(m=m, S=S_, k=k)
        return r.normal(size=(k, n)) * 0.1

    h = FlexibleViewsProcessor(prior_mean=pm, prior_cov=pc, num_scenarios=50, random_state=seed, distribution_fn=mine)
    cx.close(got["m"], mu, "custom generator receives the prior mean", rtol=0, atol=0)
    cx.leq(np.abs(got["S"] - C), 1.01e-6, "custom generator receives the prior covariance", tol=0)
    cx.close(h.get_scenarios(), np.random.default_rng(seed).normal(size=(50, n)) * 0.1, "custom generator uses the seed", rtol=0, atol=0)
    fixed = rng.normal(size=(30, n))
    h = FlexibleViewsProcessor(prior_mean=pm, prior_cov=pc, num_scenarios=30, distribution_fn=lambda m, S_, k: fixed[:k])
    cx.close(h.get_scenarios(), fixed, "a generator without a seed argument supplies the scenarios", rtol=0, atol=0)
    cx.event("old generator")


@scenario(SCN, 300, need=["raised:ValueError"])
def rejected(cx):
    rng = cx.rng
    S, n, R, p, q0, names, X, sc = market(rng, S=40)
    a = names[int(rng.integers(n))]
    V = ValueError
    nan = float(rng.choice([np.nan, np.inf, -np.inf]))
    E = (ValueError, RuntimeError)
    bad = {
        "unknown label": (dict(mean_views={"nope": 0.0}), V), "unknown pair": (dict(mean_views={(a, "nope"): 0.0}), V),
        "nonfinite mean": (dict(mean_views={a: nan}), V), "nonfinite bound": (dict(mean_views={a: (">=", nan)}), V),
        "zero volatility": (dict(vol_views={a: 0.0}), V), "negative volatility": (dict(vol_views={a: at_most(-0.1)}), V),
        "negative variance": (dict(var_views={a: -1e-9}), V), "correlation": (dict(corr_views={(a, a): float(rng.choice([1.01, -1.5, 7]))}), V),
        "quantile 0": (dict(quantile_views={a: (0.0, float(rng.choice([0.0, 1.0, -.2, 1.3])))}), V),
        "quantile form": (dict(quantile_views={a: 0.05}), (ValueError, TypeError)),
        "range": (dict(mean_views={a: ("between", 0.2, 0.1)}), V), "length": (dict(mean_views=np.zeros(n + 1)), V),
        "rank of one": (dict(rank_mean=[a]), V), "rank unknown": (dict(rank_mean=[a, "nope"]), V),
        "impossible mean": (dict(mean_views={a: float(R.max() + np.ptp(R) + 1)}), E),
        "impossible volatility": (dict(vol_views={a: float(3 * np.abs(R).max() + 1)}), E),
        "nonfinite range": (dict(mean_views={a: ("between", nan, nan)}), E),
        "nonfinite tail": (dict(cvar_views={a: (nan, 0.1)}), E), "impossible tail": (dict(cvar_views={a: (float(R.min() - 1), 0.1)}), E),
        "unknown tail": (dict(cvar_views={"nope": (0.0, .1)}), V),
        "vector of labels": (dict(mean_views=["x"] * n), V),
    }
    k = list(bad)[cx.index % len(bad)]
    kw, types = bad[k]
    cx.note(R=X, **kw)
    cx.state(k)
    cx.raises(lambda: FlexibleViewsProcessor(prior_risk_drivers=X, sequential=bool(rng.random() < .5), **kw), "unusable views are rejected", types=types, kind=k)
    pb = p.copy()
    pb[int(rng.integers(S))] = float(rng.choice([0.0, -0.1, np.nan, np.inf]))
    cx.raises(lambda: FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=pb), "invalid prior is rejected", types=(V,))
    cx.raises(lambda: FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p[1:]), "mismatched prior is rejected", types=(V,))
    cx.raises(lambda: FlexibleViewsProcessor(), "missing prior is rejected", types=(V,))
    for fn in (at_least, at_most, above, below):
        cx.raises(lambda: fn(nan), "non-finite helper targets are rejected", types=(V,))
    cx.raises(lambda: between(0.2, 0.1), "reversed ranges are rejected", types=(V,))
    cx.raises(lambda: between(nan, 0.1), "non-finite helper targets are rejected (range)", types=(V,))
