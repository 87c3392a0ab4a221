"""Workload generators: universes, scenario panels, probabilities, constraint systems."""
from __future__ import annotations

import numpy as np
import pandas as pd

NAMES = ["ZED", "AAPL", "mid cap", "Gov-10Y", "β", "xau", "BND", "C3PO", "EM", "Oil", "k9", "Yen"]


def labels(rng, n, kind=None):
    """Asset labels in an order that is neither sorted nor positional."""
    kind = kind or rng.choice(["str", "str", "str", "int", "tuple"])
    if kind == "str":
        return list(rng.permutation(NAMES)[:n])
    if kind == "int":
        return [int(x) for x in rng.permutation(np.arange(3, 3 + 2 * n))[:n]]
    return [("grp%d" % (i % 2), str(x)) for i, x in enumerate(rng.permutation(NAMES)[:n])]


def strlabels(rng, n):
    return labels(rng, n, "str")


def cov(rng, n, scale=None, kind=None):
    kind = kind or rng.choice(["factor", "factor", "diag", "highcorr", "wishart"])
    if scale is None:
        scale = rng.choice([0.2, 0.2, 0.05, 1.0])
    vol = scale * np.exp(rng.normal(0, 0.5, n))
    if kind == "diag":
        C = np.eye(n)
    elif kind == "highcorr":
        rho = rng.uniform(0.8, 0.97)
        C = (1 - rho) * np.eye(n) + rho
    elif kind == "wishart":
        X = rng.normal(size=(n + 3, n))
        S = X.T @ X
        d = np.sqrt(np.diag(S))
        C = S / np.outer(d, d)
    else:
        k = int(rng.integers(1, 3))
        B = rng.normal(size=(n, k))
        S = B @ B.T + np.diag(rng.uniform(0.2, 1.5, n))
        d = np.sqrt(np.diag(S))
        C = S / np.outer(d, d)
    out = C * np.outer(vol, vol)
    return 0.5 * (out + out.T)


def mean(rng, n, S, kind=None):
    kind = kind or rng.choice(["mixed", "positive", "positive", "negative"], p=[.4, .25, .25, .1])
    v = np.sqrt(np.diag(S))
    m = rng.normal(0.25, 0.5, n) * v
    if kind == "positive":
        m = np.abs(m) + 0.02 * v
    if kind == "negative":
        m = -np.abs(m) - 0.02 * v
    return m


def moments(rng, n=None, lo=2, hi=7, **kw):
    n = n or int(rng.integers(lo, hi + 1))
    S = cov(rng, n, **{k: v for k, v in kw.items() if k in ("scale", "kind")})
    return n, mean(rng, n, S, kw.get("mean")), S


def hedged(rng, T, M=1):
    """A panel with books whose value never moves: a basket held against its parts, or cash."""
    n = int(rng.integers(2, 5))
    R = panel(rng, T, n, scale=float(rng.choice([.01, .05, .2])))
    a = rng.normal(0, 1, n) if rng.random() < .5 else np.ones(n)
    c = float(rng.choice([0.0, 1e-4, .01]))
    R = np.column_stack([R, R @ a, np.full(T, c)])
    W = np.column_stack([np.r_[a, -1, 0] * rng.uniform(-2, 2) + np.r_[np.zeros(n + 1), rng.normal()] if rng.random() < .7 else rng.normal(0, .5, n + 2) for _ in range(M)])
    W[:, 0] = np.r_[a, -1, 0] * rng.uniform(.1, 2) + np.r_[np.zeros(n + 1), rng.normal()]
    o = rng.permutation(n + 2)
    return R[:, o], W[o]


def panel(rng, T, n, scale=0.02, kind=None):
    """Return panel: fat tails, skew, dependence, jumps, discretised values."""
    kind = kind or rng.choice(["t", "normal", "skew", "jump", "regime", "grid"])
    L = np.linalg.cholesky(cov(rng, n, scale=1.0) + 1e-6 * np.eye(n))
    Z = rng.normal(size=(T, n))
    if kind == "t":
        Z = Z / np.sqrt(rng.chisquare(4, size=(T, 1)) / 4)
    elif kind == "skew":
        Z = rng.gamma(2.0, 1.0, size=(T, n)) - 2.0
        Z = -Z
    elif kind == "jump":
        Z = Z + (rng.random((T, 1)) < 0.08) * -4.0
    elif kind == "regime":
        Z = Z * np.where(rng.random((T, 1)) < 0.3, 2.5, 0.7)
    X = Z @ L.T
    X = scale * X / np.maximum(np.abs(X).std(), 1e-9) + scale * rng.normal(0.1, 0.15, n)
    if kind == "grid":
        X = np.round(X / (scale / 4)) * (scale / 4)
        X = X + 0.0
    return np.clip(X, -0.9, 3.0)


def probs(rng, T, kind=None):
    kind = kind or rng.choice(["uniform", "dirichlet", "decay", "sparse", "counts", "mild", "rare"])
    if kind == "uniform":
        p = np.full(T, 1.0 / T)
    elif kind == "mild":  # close to uniform in absolute terms, not in relative terms
        p = 1.0 + rng.choice([0.1, 0.5, 0.9]) * rng.uniform(-1, 1, T)
    elif kind == "dirichlet":
        p = rng.dirichlet(np.full(T, 1.5))
    elif kind == "decay":
        p = np.exp(-np.log(2) * np.arange(T)[::-1] / rng.uniform(T / 5, T))
    elif kind == "rare":  # many orders of magnitude apart
        p = 10.0 ** rng.uniform(-7, 0, T)
    elif kind == "sparse":
        p = rng.random(T)
        p[rng.random(T) < 0.3] = 0.0
        p[0] += 0.1
    else:
        p = rng.integers(1, 6, T).astype(float)
    return p / p.sum()


def mass(rng):
    """The total of a set of weights that is still to be normalised: far from one, near one, or one."""
    return float(rng.choice([1.0, 7.0, .01, .995, 1.004, .9999, 1.0003, 100.0])) if rng.random() < .7 else float(rng.uniform(.5, 3.0))


def seed(rng, top=1 << 30):
    """A random seed; zero and one are seeds like any other."""
    return int(rng.choice([0, 0, 1])) if rng.random() < .2 else int(rng.integers(top))


# --------------------------------------------------------------------------
# constraints
# --------------------------------------------------------------------------
def rows_of(spec, n):
    """Independent reading of a constraint spec: (G, h, A, b) with G w <= h, A w = b."""
    G, h, A, b = [], [], [], []

    def le(row, rhs):
        G.append(np.asarray(row, float))
        h.append(float(rhs))

    def unit(i, s=1.0):
        r = np.zeros(n)
        r[i] = s
        return r

    if spec.get("long_only", True):
        for i in range(n):
            le(unit(i, -1.0), 0.0)
    bd = spec.get("bounds")
    if bd is not None:
        if isinstance(bd, tuple):
            per = {i: bd for i in range(n)}
        elif isinstance(bd, dict):
            per = bd
        else:
            per = {i: x for i, x in enumerate(bd)}
        for i, (lo, hi) in per.items():
            if lo is not None:
                le(unit(i, -1.0), -lo)
            if hi is not None:
                le(unit(i), hi)
    for (i, j, k) in spec.get("relative_bounds") or ():
        r = np.zeros(n)
        r[i] += 1.0
        r[j] -= 1.0
        le(r, k)
    for _, (idx, lo, hi) in (spec.get("group_constraints") or {}).items():
        r = np.zeros(n)
        for i in idx:
            r[i] = 1.0
        le(r, hi)
        le(-r, -lo)
    for r, rhs in spec.get("additional_G_h") or ():
        le(r, rhs)
    tw = spec.get("total_weight", 1.0)
    if tw is not None:
        A.append(np.ones(n))
        b.append(float(tw))
    for r, rhs in spec.get("additional_A_b") or ():
        A.append(np.asarray(r, float))
        b.append(float(rhs))
    Gm = np.array(G) if G else np.zeros((0, n))
    Am = np.array(A) if A else np.zeros((0, n))
    return Gm, np.array(h), Am, np.array(b)


def spec(rng, n, *, long_only=None, budget=None, rich=True, bounded=True, eq=True):
    """A strictly feasible constraint spec together with its interior anchor point.

    Every limit is placed around the anchor, at a random (sometimes tight) margin.
    """
    lo = bool(rng.random() < 0.6) if long_only is None else long_only
    tw = budget if budget is not None else float(rng.choice([1.0, 1.0, 1.0, 1.0, 0.5, 2.0, 0.8]))
    if tw == "free":
        tw = None
    if not lo and budget is None and rng.random() < 0.12:
        tw = float(rng.choice([0.0, -0.3]))
    elif budget is None and bounded and rng.random() < 0.06:
        tw = None  # no budget: only the bounds limit the portfolio
    s = {"long_only": lo, "total_weight": tw}
    base = 1.0 if tw is None else tw
    if lo:
        w = rng.dirichlet(np.full(n, 2.0)) * (base if base > 0 else 1.0)
        w = 0.9 * w + 0.1 * base / n
    else:
        w = rng.normal(0, 0.5, n)
        w += (base - w.sum()) / n

    def margin():
        return float(rng.choice([0.03, 0.1, 0.3, 0.8]) * rng.uniform(0.5, 1.5))

    kinds = []
    zeros = rich and rng.random() < 0.35
    grid = float(rng.choice([0.05, 0.1, 0.25, 0.5, 1.0])) if rich and rng.random() < 0.3 else 0.0  # round limits

    def lim(v, at):
        """A limit for the anchor value ``at``; exactly zero now and then, when zero lies on the limit's side."""
        if zeros and abs(at) > 0.005 and (0.0 - at) * (v - at) > 0 and rng.random() < 0.7:
            if "zero" not in kinds:
                kinds.append("zero")
            return 0.0
        if grid and abs(v) < 40:
            r = (np.floor if v < at else np.ceil)(v / grid) * grid
            return float(round(r, 10)) + 0.0
        return float(v)

    need_bounds = (not lo or tw is None) and bounded
    if need_bounds or (rich and rng.random() < 0.5):
        form = rng.choice(["tuple", "list", "dict", "listnone"])
        if need_bounds and form in ("dict", "listnone"):
            form = "list"
        los = w - np.array([margin() for _ in range(n)])
        his = w + np.array([margin() for _ in range(n)])
        los = np.array([lim(v, x) for v, x in zip(los, w)])
        his = np.array([lim(v, x) for v, x in zip(his, w)])
        if form == "tuple":
            s["bounds"] = (float(los.min()), float(his.max()))
        elif form == "list":
            s["bounds"] = [(float(a), float(c)) for a, c in zip(los, his)]
        elif form == "listnone":
            s["bounds"] = [(None if rng.random() < 0.4 else float(a), None if rng.random() < 0.4 else float(c))
                           for a, c in zip(los, his)]
        else:
            idx = rng.permutation(n)[: max(1, n // 2)]
            s["bounds"] = {int(i): (None if rng.random() < 0.3 else float(los[i]),
                                    None if rng.random() < 0.3 else float(his[i])) for i in idx}
        kinds.append("b-" + str(form))
    if rich and n >= 2:
        if rng.random() < 0.3:
            rb = []
            for _ in range(int(rng.integers(1, 3))):
                i, j = rng.permutation(n)[:2]
                rb.append((int(i), int(j), lim(w[i] - w[j] + margin(), w[i] - w[j])))
            s["relative_bounds"] = rb
            kinds.append("rel")
        if rng.random() < 0.35:
            g = {}
            for k in range(int(rng.integers(1, 3))):
                idx = [int(i) for i in rng.permutation(n)[: int(rng.integers(1, n))]]
                t = float(w[idx].sum())
                if rng.random() < .2:  # a member listed twice counts once
                    idx = idx + [idx[int(rng.integers(len(idx)))]]
                form = rng.random()
                idx = idx if form < .7 else tuple(idx) if form < .85 else np.array(idx)
                g[f"g{k}"] = (idx, lim(t - margin(), t), lim(t + margin(), t))
            s["group_constraints"] = g
            kinds.append("grp")
        if rng.random() < 0.3:
            gh = []
            for _ in range(int(rng.integers(1, 3))):
                r = np.round(rng.normal(size=n), 2)
                gh.append((r.tolist() if rng.random() < 0.5 else r, lim(r @ w + margin(), r @ w)))
            if rng.random() < .35:  # coefficients that are there already, or a bound written as a row
                r = np.asarray(gh[-1][0], float) if rng.random() < .4 else np.eye(n)[int(rng.integers(n))] * float(rng.choice([1.0, -1.0])) if rng.random() < .7 else np.ones(n)
                gh.append((r.tolist(), lim(r @ w + .3 * margin(), r @ w)))
            s["additional_G_h"] = gh
            kinds.append("Gh")
        if eq and n >= 3 and rng.random() < 0.25:
            r = np.round(rng.normal(size=n), 2)
            if np.ptp(r) < 0.05:
                r[0] += 1.0
            if zeros and w @ w > 0:
                r = r - (r @ w) / (w @ w) * w
                r = r / max(1.0, np.abs(r).max())
            s["additional_A_b"] = [(r.tolist(), 0.0 if zeros else float(r @ w))]
            kinds.append("Ab")
    if eq and rich and rng.random() < 0.12:  # equalities implied by the others: the budget again, or two parts that add up to it
        rows = s.get("additional_A_b", [])
        extra = []
        if tw is not None and (not rows or rng.random() < .5):
            c = float(rng.choice([1.0, 1.0, 2.0, -1.0]))
            extra.append(([c] * n, c * tw))
        for r, x in rows:
            if not extra or rng.random() < .5:
                c = float(rng.choice([1.0, 3.0, -.5]))
                extra.append(((c * np.asarray(r, float)).tolist(), c * x) if tw is None or rng.random() < .5 else ((1.0 - np.asarray(r, float)).tolist(), tw - x))
        if extra:
            s["additional_A_b"] = [*rows, *extra] if rng.random() < .7 else [*extra, *rows]
            kinds.append("dep")
    # integer-typed limits are legal too
    if rich and rng.random() < 0.1 and tw == 1.0:
        s["total_weight"] = 1
        kinds.append("int")
    return s, w, "+".join(sorted(kinds)) or "plain"


def excluded(rng, n):
    """A spec that excludes some assets (their limits are both zero), or whose only sign limit is a zero bound.

    Returns the spec and a strictly admissible portfolio (on the excluded assets: zero).
    """
    k = int(rng.integers(1, n)) if n > 1 else 0
    ex = [int(i) for i in rng.permutation(n)[:k]]
    z = (0.0, 0) [int(rng.integers(2))]
    keep = [i for i in range(n) if i not in ex]
    w = np.zeros(n)
    w[keep] = 0.5 * rng.dirichlet(np.full(len(keep), 2.0)) + 0.5 / len(keep)
    form = str(rng.choice(["dict", "dictnone", "list", "listnone", "long", "short", "zerocap"]))
    if form == "dict":
        return {"long_only": True, "total_weight": 1.0, "bounds": {i: (z, z) for i in ex}}, w, form
    if form == "dictnone":
        return {"long_only": True, "total_weight": 1.0, "bounds": {i: (None, z) for i in ex}}, w, form
    if form == "list":
        return {"long_only": False, "total_weight": 1.0,
                "bounds": [(z, z) if i in ex else (z, 1.0) for i in range(n)]}, w, form
    if form == "listnone":
        return {"long_only": True, "total_weight": 1.0,
                "bounds": [(None, z) if i in ex else (None, None) for i in range(n)]}, w, form
    w = 0.5 * rng.dirichlet(np.full(n, 2.0)) + 0.5 / n
    top = float(rng.uniform(1.05, 2.0) * w.max())
    if form == "long":  # no shorts, declared through the bounds only
        b = (z, top) if rng.random() < .5 else [(z, top)] * n
        return {"long_only": False, "total_weight": 1.0, "bounds": b}, w, form
    if form == "short":  # no longs
        b = (-top, z) if rng.random() < .5 else [(-top, z)] * n
        return {"long_only": False, "total_weight": -1.0, "bounds": b}, -w, form
    w = rng.normal(0, .4, n)  # the zero cap sits on some assets of a long/short portfolio
    neg = ex or [0]
    w[neg] = -np.abs(w[neg]) - .05
    lo, hi = w - rng.uniform(.05, .5, n), w + rng.uniform(.05, .5, n)
    b = [(float(lo[i]), z if i in neg else float(hi[i])) for i in range(n)]
    return {"long_only": False, "total_weight": float(w.sum()), "bounds": b if rng.random() < .5 else dict(enumerate(b))}, w, form


def holdings(rng, w0, sd=0.1):
    """Current holdings near w0, with the special ones: cash, a single position, sparse, exactly w0."""
    n, r = len(w0), rng.random()
    if r < 0.1:
        return np.zeros(n)
    if r < 0.16:
        return np.eye(n)[int(rng.integers(n))] * float(rng.choice([1.0, 0.5, -0.3]))
    if r < 0.2:
        return np.array(w0, float)
    h = w0 + rng.normal(0, sd, n)
    if r < 0.3:
        h[rng.random(n) < 0.5] = 0.0
    return h


def as_constraints(pv, rng, s):
    """Constraints object, dict, or (when only shortcuts are used) constructor keywords."""
    if rng.random() < 0.5:
        return pv.Constraints(**s)
    return dict(s)


def arr_or_frame(rng, names, mu, S):
    """Moments as labelled pandas objects or plain arrays."""
    if names is None:
        return mu, S
    return pd.Series(mu, index=names), pd.DataFrame(S, index=names, columns=names)
