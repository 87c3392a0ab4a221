"""P23: discrete allocation conserves cash and honours lots."""
import numpy as np
import pandas as pd
from pyvallocation import DiscreteAllocationInput, PortfolioFrontier, PortfolioWrapper, discretize_weights
from pyvallocation.discrete_allocation import allocate_greedy, allocate_mip

from .. import gen
from ..core import scenario

SCN = []
QUICK_FACTOR = 1  # relative cost of this check
ASSUMPTIONS = ["asset labels are unique; lot sizes are positive integers (absent ones mean one share)",
               "the integer solver occasionally gives up numerically (HiGHS status 4); such calls raise and are counted, not judged"]


def market(rng, n, shorts=False, cheap=True):
    """Prices in cents, weights possibly unnormalised or with zeros, lots, value."""
    P = np.exp(rng.normal(float(rng.choice([1, 3, 5])), 1, n))
    if rng.random() < .6:
        P = np.maximum(np.round(P, 2), .01)
    w = rng.dirichlet(np.full(n, float(rng.choice([.4, 2]))))
    if rng.random() < .25:
        w = np.maximum(np.round(w, 1), 0) if rng.random() < .5 else np.full(n, 1.0)
    if n > 1 and rng.random() < .3:
        w[rng.permutation(n)[: int(rng.integers(1, n))]] = 0.0
    if w.sum() <= 1e-4:  # an all but empty portfolio is rejected
        w[0] = 1.0
    if shorts and n > 1:
        k = rng.permutation(n)[: int(rng.integers(1, n))]
        w[k] = -.4 * w[k] / max(w.sum(), 1)
        if w.sum() <= .2 or not (w < 0).any():
            w = np.abs(w) + .2
            w[k[0]] = -.1
    if rng.random() < .3:
        w = w * float(rng.choice([.5, 100.0]))
    V = float(rng.choice([50, 1000, 12345.67, 1e5, 1e6, 3e9])) * float(rng.uniform(.5, 2))
    if rng.random() < .5:
        V = round(V, 2)
    lots = np.where(rng.random(n) < .5, 1, rng.choice([1, 5, 10, 100], n)).astype(int)
    return P, w, V, lots


def box(rng, names, v, keep=True):
    """A mapping or series in some order, optionally with extra labels."""
    s = {k: float(x) for k, x in zip(names, v)}
    if not keep:
        s["unused"] = 3.5
    ks = [list(s)[i] for i in rng.permutation(len(s))]
    s = {k: s[k] for k in ks}
    return s if rng.random() < .5 else pd.Series(s)


def audit(cx, res, names, P, w, V, lots, what, cash_cap=None):
    """Accounts of one allocation, recomputed from the caller's own numbers."""
    price, weight, lot = dict(zip(names, P)), dict(zip(names, w / w.sum())), dict(zip(names, lots))
    shares = res.shares
    cx.check(set(shares) <= set(names), f"{what} holds only declared assets", shares=shares)
    for k, c in shares.items():
        cx.check(isinstance(c, (int, np.integer)) and c != 0 and c % lot[k] == 0, f"{what} buys whole lots", asset=k, count=c, lot=lot[k])
        cx.check(weight[k] != 0 and np.sign(c) == np.sign(weight[k]), f"{what} never holds an asset without weight or on the wrong side", asset=k, count=c, weight=weight[k])
        cx.event("short lots" if c < 0 else "lots")
    inv = sum(c * price[k] for k, c in shares.items())
    tol = 1e-8 + 1e-12 * V + 1e-12 * sum(abs(c) * price[k] for k, c in shares.items())
    cx.check(np.isfinite(res.leftover_cash) and res.leftover_cash >= 0, f"{what} never spends more than the portfolio value", leftover=res.leftover_cash)
    cx.leq(inv, V, f"{what} never spends more than the portfolio value", tol=tol)
    cx.leq(abs(V - inv - res.leftover_cash), tol, f"{what} conserves cash", tol=0, invested=inv, leftover=res.leftover_cash, value=V)
    if cash_cap is not None:
        cx.leq(res.leftover_cash, cash_cap, f"{what} respects the cash limit", tol=1e-6 * max(1, V))
    a = res.achieved_weights
    cx.check(isinstance(a, pd.Series) and set(a.index) == {k for k in names if abs(weight[k] * w.sum()) > 1e-8}, f"{what} reports every weighted asset")
    for k in a.index:
        cx.leq(abs(a[k] - shares.get(k, 0) * price[k] / V), 1e-10 + 1e-15 * abs(shares.get(k, 0)), f"{what} reports the weights it achieved", tol=0, asset=k)
    te = sum(abs(weight[k] - shares.get(k, 0) * price[k] / V) for k in a.index)
    cx.leq(abs(te - res.tracking_error), 1e-9 + 3e-8 * len(names) / w.sum(), f"{what} reports its tracking error", tol=0)
    s = res.as_series()
    cx.check({k: int(v) for k, v in s.items()} == shares, f"{what} series equals its shares")
    cx.event("cash left", int(res.leftover_cash > 0))


@scenario(SCN, 4000, need=["lots", "cash left", "round lots", "exact targets", "partly stated lots"])
def greedy(cx):
    rng = cx.rng
    n = int(rng.integers(1, 9))
    names = gen.labels(rng, n, "str" if rng.random() < .7 else "int")
    P, w, V, lots = market(rng, n)
    names = [str(x) if isinstance(x, str) else int(x) for x in names]
    if rng.random() < .1:  # targets are exact lots of a large portfolio
        K = rng.integers(1, 10 ** int(rng.integers(1, 9)), n)
        V = float(P @ K)
        w, lots = P * K / V, np.ones(n, int)
        cx.event("exact targets")
    use_lots = rng.random() < .6 and V != float(P @ np.round(w * V / P))
    if not use_lots:
        lots = np.ones(n, int)
    else:
        cx.event("round lots")
    L = None
    if use_lots:
        L = {k: int(v) for k, v in zip(names, lots) if v != 1 or rng.random() < .5}
        L = pd.Series(L, dtype=int) if L and rng.random() < .4 else (L or None)
    wt, pr = box(rng, names, w), box(rng, names, P, keep=rng.random() < .7)
    kw = {}
    if rng.random() < .3:
        kw["fallback_mode"] = str(rng.choice(["none", "auto", "milp"]))
    if rng.random() < .2:
        kw["max_iterations"] = int(rng.integers(0, 4))
    cx.note(weights=wt, prices=pr, value=V, lots=L, **kw)
    cx.state(n, use_lots, sorted(kw.items()), round(float(np.log10(V))))
    try:
        res = discretize_weights(wt, pr, V, method=str(rng.choice(["greedy", "rounddown", "GREEDY"])), lot_sizes=L, **kw)
    except RuntimeError as e:
        if "MILP solver failed" in str(e) and kw.get("fallback_mode") == "milp":
            cx.stop("milp gave up")
        raise
    audit(cx, res, names, P, w, V, lots, "greedy allocation")
    r2 = allocate_greedy(DiscreteAllocationInput(wt, pr, V, L), **kw)
    cx.check(r2.shares == res.shares and r2.leftover_cash == res.leftover_cash, "entry points agree")
    r3 = allocate_greedy(DiscreteAllocationInput(wt, pr, V, {k: int(v) for k, v in zip(names, lots)}), **kw)
    cx.check(r3.shares == res.shares and r3.leftover_cash == res.leftover_cash, "an asset without a stated lot size trades in single units", got=res.shares, explicit=r3.shares, lots=L)
    cx.event("partly stated lots", int(L is not None and 0 < len(L) < n))


@scenario(SCN, 1500, need=["lots", "short lots", "cash limit"])
def integer(cx):
    rng = cx.rng
    n = int(rng.integers(1, 6))
    names = gen.labels(rng, n, "str")
    short = n > 1 and rng.random() < .5
    P, w, V, lots = market(rng, n, shorts=short)
    V = min(V, 2e6)
    kw = {}
    if rng.random() < .4:
        kw["cash_penalty"] = float(rng.choice([0.0, .5, 1.0, 3.0]))
    if rng.random() < .3:
        kw["max_cash"] = float(V * rng.choice([0.02, .2, 1.0]))
        cx.event("cash limit")
    if rng.random() < .4:
        kw["solver_options"] = {"mip_rel_gap": 0.0}
    lots = np.minimum(lots, 10)
    L = {k: int(v) for k, v in zip(names, lots)} if rng.random() < .6 else None
    if L is None:
        lots = np.ones(n, int)
    wt, pr = box(rng, names, w), box(rng, names, P)
    cx.note(weights=wt, prices=pr, value=V, lots=L, **kw)
    cx.state(n, short, sorted(kw), round(float(np.log10(V))))
    m = str(rng.choice(["milp", "mip", "integer", "lp"]))
    try:
        if short and rng.random() < .4:
            res = discretize_weights(wt, pr, V, method="greedy", lot_sizes=L, fallback_kwargs=kw)
        else:
            res = discretize_weights(wt, pr, V, method=m, lot_sizes=L, **kw)
    except RuntimeError as e:
        if "MILP solver failed" in str(e):
            cx.event("milp gave up or infeasible")
            cx.stop("milp gave up or infeasible")
        raise
    audit(cx, res, names, P, w, V, lots, "integer allocation", kw.get("max_cash"))


@scenario(SCN, 500, need=["frontier"])
def frontier(cx):
    """Allocating a frontier point allocates exactly that point's weights."""
    rng = cx.rng
    n, mu, S = gen.moments(rng, lo=2, hi=5)
    names = gen.strlabels(rng, n) if rng.random() < .7 else None
    m, C = gen.arr_or_frame(rng, names, mu, S)
    try:
        fr = PortfolioWrapper.from_moments(m, C).variance_frontier(4)
    except RuntimeError:
        cx.stop("solver")
    j = int(rng.integers(fr.weights.shape[1]))
    lab = names or [f"Asset_{i}" for i in range(n)]
    w = fr.weights[:, j]
    P, _, V, lots = market(rng, n)
    pr = box(rng, lab, P)
    L = {k: int(v) for k, v in zip(lab, lots)} if rng.random() < .5 else None
    cx.note(weights=w, prices=pr, value=V, lots=L, column=j)
    cx.state(n, names is None, j)
    res = fr.as_discrete_allocation(j, pr, V, lot_sizes=L)
    ref = discretize_weights(dict(zip(lab, w)), pr, V, lot_sizes=L)
    cx.check(res.shares == ref.shares and abs(res.leftover_cash - ref.leftover_cash) <= 1e-9 * V, "a frontier point allocates its own weights", got=res.shares, want=ref.shares)
    big = [k for k in range(n) if w[k] > 1e-6]
    keep = {lab[k] for k in range(n) if abs(w[k]) > 1e-8}
    cx.check(set(res.shares) <= keep, "a frontier point allocates its own weights")
    cx.event("frontier")
    for bad in (-1, fr.weights.shape[1], fr.weights.shape[1] + 3):
        cx.raises(lambda: fr.as_discrete_allocation(bad, pr, V), "an unknown frontier point is rejected", types=(IndexError,))


@scenario(SCN, 1500, need=["raised:ValueError"])
def malformed(cx):
    rng = cx.rng
    n = int(rng.integers(2, 6))
    names = gen.strlabels(rng, n)
    P, w, V, lots = market(rng, n)
    w = np.abs(w) + .1
    V0 = (ValueError,)
    i = int(rng.integers(n))
    meth = str(rng.choice(["greedy", "milp"]))
    call = lambda w=w, P=P, V=V, L=None: discretize_weights(box(rng, names, w), box(rng, names, P), V, method=meth, lot_sizes=L)

    def at(v, x):
        v = np.array(v, float)
        v[i] = x
        return v
    cx.state(n, meth)
    for x in (np.nan, np.inf, -np.inf):
        cx.raises(lambda: call(w=at(w, x)), "non-finite weights are rejected", types=V0)
        cx.raises(lambda: call(P=at(P, x)), "non-finite prices are rejected", types=V0)
        cx.raises(lambda: call(V=x), "an invalid portfolio value is rejected", types=V0)
    for x in (0.0, -3.0):
        cx.raises(lambda: call(P=at(P, x)), "non-positive prices are rejected", types=V0)
        cx.raises(lambda: call(V=x), "an invalid portfolio value is rejected", types=V0)
        cx.raises(lambda: call(L={names[i]: int(x)}), "non-positive lots are rejected", types=V0)
    cx.raises(lambda: call(w=np.zeros(n)), "empty weights are rejected", types=V0)
    cx.raises(lambda: call(w=-w), "weights without a positive sum are rejected", types=V0)
    pr = {k: p for k, p in zip(names, P) if k != names[i]}
    cx.raises(lambda: discretize_weights(box(rng, names, w), pr, V, method=meth), "missing prices are rejected", types=V0)
    cx.raises(lambda: discretize_weights({}, pr, V), "empty weights are rejected", types=V0)
    cx.raises(lambda: discretize_weights(list(w), pr, V), "unlabelled weights are rejected", types=(TypeError,))
    cx.raises(lambda: discretize_weights(box(rng, names, w), box(rng, names, P), V, method="other"), "unknown methods are rejected", types=V0)
    cx.raises(lambda: discretize_weights(box(rng, names, w), box(rng, names, P), V, fallback_mode="other"), "unknown methods are rejected", types=V0)
