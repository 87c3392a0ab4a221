"""P14: entropy pooling returns the least-divergent probabilities satisfying the views."""
import numpy as np
import pandas as pd
from scipy.optimize import brentq, linprog, lsq_linear, minimize
from pyvallocation.views import entropy_pooling

from .. import gen
from ..core import scenario

SCN = []
QUICK_FACTOR = 1  # relative cost of this check
ASSUMPTIONS = ["minimality is certified by weak duality: multipliers fitted to the returned vector give a lower bound on the divergence "
               "of every distribution satisfying the views",
               "views hold within 2e-5 of the largest scenario coefficient; feasibility of planted systems is by construction, "
               "infeasibility is certified by HiGHS with a margin"]


def kl(q, p):
    m = q > 0
    return float(np.sum(q[m] * np.log(q[m] / p[m])))


def dual_bound(q, p, A, b, G, h):
    """Lower bound on KL(.||p) over {A q = b, G q <= h} from multipliers fitted to q."""
    act = np.zeros(0, int)
    if len(h):
        s = np.abs(G).max(1)
        act = np.where(G @ q >= h - 1e-4 * s)[0]
    M = np.vstack([A, G[act]]) if len(act) else A
    r = np.append(b, h[act]) if len(act) else b
    sc = np.maximum(np.abs(M).max(1), 1e-300)
    w = np.sqrt(q + 1e-12)
    with np.errstate(divide="ignore"):
        t = -np.log(np.maximum(q, 1e-290) / p)
    lb = np.concatenate([np.full(len(b), -np.inf), np.zeros(len(act))])
    fit = lsq_linear((M / sc[:, None] * w).T, t * w, bounds=(lb, np.inf), tol=1e-14, lsmr_tol=None) if len(act) else None
    lam = fit.x if fit is not None else np.linalg.lstsq((M / sc[:, None] * w).T, t * w, rcond=None)[0]
    lam = np.where(np.isfinite(lb), np.maximum(lam, 0.0), lam)
    M = M / sc[:, None]
    r = r / sc
    best = -_dual(lam, M, r, p)[0]
    if kl(q, p) > best + 2e-5 + 2e-4 * abs(best):  # loose multipliers: ascend the dual (any point is a valid bound)
        if len(h):
            M = np.vstack([A, G])
            r = np.append(b, h)
            sc = np.maximum(np.abs(M).max(1), 1e-300)
            M, r = M / sc[:, None], r / sc
        lam0 = np.zeros(len(r))
        o = minimize(_dual, lam0, args=(M, r, p), jac=True, bounds=[(None, None)] * len(b) + [(0, None)] * len(h),
                     method="L-BFGS-B", options={"maxiter": 20000, "ftol": 1e-15, "gtol": 1e-10})
        best = max(best, -o.fun)
    return best


def _dual(lam, M, r, p):
    e = np.log(p) - M.T @ lam
    mx = e.max()
    w = np.exp(e - mx)
    Z = w.sum()
    return mx + np.log(Z) + lam @ r, r - M @ (w / Z)


def system(rng, feasible=True):
    S = int(rng.choice([3, 8, 30, 120, 400]))
    sc = float(rng.choice([1.0, 0.05, 0.01, 0.001, 20.0]))
    n = int(rng.integers(1, 4)) if S > 3 else 1
    R = gen.panel(rng, S, n, scale=1.0) * sc if S > 3 else rng.normal(size=(S, n)) * sc
    p = rng.dirichlet(np.full(S, 2.0)) + 1e-5 if rng.random() < 0.6 else np.full(S, 1.0 / S)
    p = p / p.sum()
    q0 = p * np.exp(rng.normal(0, float(rng.choice([0.0, 0.1, 0.5, 1.0])), S))
    q0 /= q0.sum()
    A, b, G, h, kinds = [np.ones(S)], [1.0], [], [], set()
    for i in range(n):
        row = R[:, i] if rng.random() < 0.7 else (R[:, i] ** 2 if rng.random() < .5 else (R[:, i] <= np.median(R[:, i])).astype(float))
        m = float(q0 @ row)
        k = str(rng.choice(["eq", "le", "ge", "both"]))
        spread = float(np.ptp(row)) or 1.0
        if k == "eq":
            A.append(row), b.append(m)
        if k in ("le", "both"):
            G.append(row), h.append(m + (0.0 if k == "le" else 0.02 * spread))
        if k in ("ge", "both"):
            G.append(-row), h.append(-m + (0.0 if k == "ge" else 0.02 * spread))
        kinds.add(k)
    if rng.random() < 0.2:  # redundant rows
        if len(A) > 1:
            A.append(2.0 * A[1]), b.append(2.0 * b[1])
        elif G:
            G.append(G[0] * 3), h.append(h[0] * 3 + abs(h[0]))
        kinds.add("redundant")
    return S, R, p, q0, np.array(A), np.array(b), np.array(G).reshape(len(h), S), np.array(h), "+".join(sorted(kinds)), sc


@scenario(SCN, 3000, need=["certified minimal", "binding inequality"])
def minimal(cx):
    rng = cx.rng
    S, R, p, q0, A, b, G, h, kinds, sc = system(rng)
    meth = [None, "TNC", "L-BFGS-B"][int(rng.integers(3))]
    cx.note(p=p, A=A, b=b, G=G, h=h, method=meth)
    cx.state(S, kinds, sc, meth)
    kw = {} if not len(h) else {"G": G, "h": h if rng.random() < .5 else h[:, None]}
    if meth:
        kw["method"] = meth
    pg = [p, p[:, None], p * gen.mass(rng), pd.Series(p)][int(rng.integers(4))]
    q = entropy_pooling(pg, A, b if rng.random() < 0.5 else b[:, None], **kw)
    cx.check(q.shape == (S, 1), "posterior is a column with one entry per scenario", shape=q.shape)
    q = q.ravel()
    cx.check((q >= 0).all() and np.isfinite(q).all(), "posterior is a valid distribution")
    cx.close(q.sum(), 1.0, "posterior is a valid distribution", atol=1e-10)
    cx.leq(np.abs(A @ q - b), 2e-5 * np.abs(A).max(1), "equality views hold", tol=0.0)
    if len(h):
        cx.leq(G @ q - h, 2e-5 * np.abs(G).max(1), "inequality views hold", tol=0.0)
        if (G @ q > h - 1e-6 * np.abs(G).max(1)).any():
            cx.event("binding inequality")
    v = kl(q, p)
    cx.leq(v, kl(q0, p) * (1 + 1e-4) + 2e-5, "no planted solution is closer to the prior", tol=0.0)
    lo = dual_bound(q, p, A, b, G, h)
    cx.leq(v, lo + 1e-4 + 1e-3 * abs(v), "posterior has the least divergence", tol=0.0, bound=lo, kl=v)
    cx.event("certified minimal")
    # mixing towards any other feasible distribution never helps
    for t in (0.3, 0.05):
        mix = (1 - t) * q + t * q0
        cx.leq(v, kl(mix, p) + 3e-5, "no feasible mixture is closer to the prior", tol=0.0)


@scenario(SCN, 900, need=["tiny scenario carries mass", "tiny scenario stays tiny"])
def tiny_priors(cx):
    """Scenarios that are almost impossible a priori keep their own prior weight (one mean view: exact exponential tilt)."""
    rng = cx.rng
    S = int(rng.choice([5, 30, 120]))
    sc = float(rng.choice([1.0, .02, .001]))
    x = rng.normal(size=S) * sc
    p = rng.dirichlet(np.full(S, 2.0)) + 1e-4
    k = rng.permutation(S)[: int(rng.integers(1, 3))]
    p[k] = 10 ** rng.uniform(-14, -8, len(k))
    p /= p.sum()
    big = np.delete(np.arange(S), k)

    def tilt(t):
        e = np.log(p) + t * x / sc
        w = np.exp(e - e.max())
        return w / w.sum()
    if rng.random() < .5:  # only the nearly impossible scenario reaches the view
        x[k[0]] = x[big].max() + sc * rng.uniform(.3, 2)
        m = float(x[big].max() + rng.uniform(.1, .6) * (x[k[0]] - x[big].max()))
    else:
        m = float(tilt(float(rng.normal())) @ x)
    want = tilt(brentq(lambda t: tilt(t) @ x - m, -400, 400, xtol=1e-13))
    cx.note(p=p, x=x, mean=m)
    kind = str(rng.choice(["eq", "ge"]))
    row, one = x, np.ones(S)
    if kind == "eq" or m <= p @ x:
        q = entropy_pooling(p, np.vstack([one, row]), np.array([1.0, m]))
    else:
        q = entropy_pooling(p, np.atleast_2d(one), np.array([1.0]), G=np.atleast_2d(-row), h=np.array([-m]))
    q = q.ravel()
    cx.state(S, sc, kind)
    vis = want > 1e-16
    cx.close(q[vis] / want[vis], np.ones(vis.sum()), "every scenario is tilted from its own prior probability", rtol=2e-3, atol=0, q=q[k], tilted=want[k])
    cx.event("tiny scenario carries mass" if want[k].max() > 1e-3 else "tiny scenario stays tiny")


@scenario(SCN, 1200, need=["kept"])
def already_true(cx):
    """Views the prior already satisfies leave it unchanged."""
    rng = cx.rng
    S, R, p, q0, A, b, G, h, kinds, sc = system(rng)
    b = A @ p
    slack = float(rng.choice([0.0, 0.01, 1.0])) * (np.abs(G).max(1) if len(h) else np.zeros(0))
    h = G @ p + slack
    cx.note(p=p, A=A, b=b, G=G, h=h)
    cx.state(S, kinds)
    q = entropy_pooling(p, A, b, **({"G": G, "h": h} if len(h) else {})).ravel()
    cx.leq(np.abs(q - p).sum(), 2e-3, "prior kept when the views already hold", tol=0.0)
    cx.leq(kl(q, p), 1e-6, "prior kept when the views already hold (divergence)", tol=0.0)
    cx.event("kept")
    q = entropy_pooling(p, np.ones((1, S)), np.array([1.0])).ravel()
    cx.close(q, p, "prior kept when there is no view", rtol=1e-4, atol=1e-9)


@scenario(SCN, 500, need=["raised:RuntimeError"])
def infeasible(cx):
    """Certified unsatisfiable view systems raise; they never return a vector."""
    rng = cx.rng
    S, R, p, q0, A, b, G, h, kinds, sc = system(rng)
    row = R[:, 0]
    gap = float(np.ptp(row)) * float(rng.choice([0.02, 0.2, 2.0]))
    k = int(rng.integers(4))
    if k == 0:
        A, b = np.vstack([A, row]), np.append(b, row.max() + gap)
    elif k == 1:
        G, h = np.vstack([G, row]), np.append(h, row.min() - gap)
    elif k == 2:  # contradiction between two views
        A, b = np.vstack([A, row]), np.append(b, q0 @ row)
        G, h = np.vstack([G, row]), np.append(h, q0 @ row - gap)
    else:
        A, b = np.vstack([A, row, row]), np.append(b, [q0 @ row, q0 @ row + gap])
    s = np.maximum(np.abs(A).max(1), 1e-12)
    r = linprog(np.zeros(S), G / np.abs(G).max(1)[:, None] if len(h) else None, h / np.abs(G).max(1) + 1e-3 if len(h) else None,
                np.vstack([A[:1]]), b[:1], bounds=(0, 1), method="highs")
    # relaxed system: equalities as two inequalities with a margin
    Ai = np.vstack([A / s[:, None], -A / s[:, None]])
    bi = np.append(b / s, -b / s) + 1e-3
    Gi = np.vstack([Ai, G / np.abs(G).max(1)[:, None]]) if len(h) else Ai
    hi = np.append(bi, h / np.abs(G).max(1) + 1e-3) if len(h) else bi
    r = linprog(np.zeros(S), Gi, hi, bounds=(0, 1), method="highs")
    if r.status != 2:
        cx.stop("not certified infeasible")
    meth = [None, "TNC", "L-BFGS-B"][int(rng.integers(3))]
    cx.note(p=p, A=A, b=b, G=G, h=h, method=meth)
    cx.state(S, k, meth, sc)
    kw = {} if not len(h) else {"G": G, "h": h}
    if meth:
        kw["method"] = meth
    cx.raises(lambda: entropy_pooling(p, A, b, **kw), "views that cannot be satisfied raise", kind=k)


@scenario(SCN, 300)
def malformed(cx):
    rng = cx.rng
    S, R, p, q0, A, b, G, h, kinds, sc = system(rng)
    kw = {} if not len(h) else {"G": G, "h": h}
    bad = p.copy()
    k = str(rng.choice(["zero", "neg", "nan", "inf"]))
    bad[int(rng.integers(S))] = {"zero": 0.0, "neg": -0.1, "nan": np.nan, "inf": np.inf}[k]
    cx.state(k)
    cx.raises(lambda: entropy_pooling(bad, A, b, **kw), "invalid prior is rejected", types=(ValueError,), kind=k)
    for m in ("SLSQP", "bfgs", "tnc"):
        cx.raises(lambda: entropy_pooling(p, A, b, method=m, **kw), "unsupported method is rejected", types=(ValueError,))
    # relabelling scenarios relabels the posterior
    o = rng.permutation(S)
    a1 = entropy_pooling(p, A, b, **kw).ravel()
    a2 = entropy_pooling(p[o], A[:, o], b, **({} if not len(h) else {"G": G[:, o], "h": h})).ravel()
    cx.leq(np.abs(a2 - a1[o]).sum(), 2e-3, "scenario order does not matter", tol=0.0)
