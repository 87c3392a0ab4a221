"""P24: how closely discrete allocations track their targets."""
import itertools

import numpy as np
import pandas as pd
from pyvallocation import DiscreteAllocationInput, discretize_weights
from pyvallocation.discrete_allocation import allocate_greedy, allocate_mip

from .. import gen
from ..core import scenario
from .p23 import box, market

SCN = []
QUICK_FACTOR = 1  # relative cost of this check
RULE = "the integer optimum is compared with exhaustive enumeration of all lot vectors (longs >= 0, shorts <= 0, 0 <= cash <= limit)"
ASSUMPTIONS = ["lot spaces of at most 200 000 vectors; default solver gap 1e-4 relative, or none when mip_rel_gap=0 is passed",
               "the integer solver occasionally gives up numerically (HiGHS status 4); such calls raise and are counted, not judged",
               "greedy guarantees are judged on runs without integer fallback and without an exhausted iteration cap"]


def problem(rng, short):
    while True:
        n = int(rng.integers(2 if short else 1, 5))
        P = np.round(np.exp(rng.normal(3, .8, n)), 2) + .01
        lots = np.where(rng.random(n) < .7, 1, rng.choice([1, 2, 5, 10], n)).astype(int)
        w = rng.dirichlet(np.full(n, 1.5))
        if short:
            k = rng.permutation(n)[: int(rng.integers(1, n))]
            w[k] = -rng.uniform(.1, .6) * w[k] / w[k].sum()
            rest = [i for i in range(n) if i not in k]
            w[rest] = w[rest] / w[rest].sum() * (1 - w[k].sum())
        L = P * lots
        V = float(np.round(L.mean() * np.exp(rng.uniform(-.5, 2.5)), 2))
        t = w * V
        gross = max(V, np.abs(t).sum())
        slo = np.where(w < 0, np.floor(gross / L + 1e-9) + 1, 0)
        proceeds = (slo * L).sum()
        hi = np.where(w >= 0, np.floor((V + proceeds) / L + 1e-9), 0)
        size = np.prod(hi + slo + 1)
        if 1 < size <= 2e5:
            return n, P, lots, w, V, [np.arange(-a, b + 1) for a, b in zip(slo, hi)]


def enumerate_best(P, lots, w, V, ranges, pen, cap):
    """Least objective over all admissible lot vectors, and its arguments."""
    L, t = P * lots, w / w.sum() * V
    X = np.array(np.meshgrid(*ranges, indexing="ij")).reshape(len(P), -1).T
    val = X * L
    cash = V - val.sum(1)
    ok = (cash >= -1e-9) & (cash <= (np.inf if cap is None else cap) + 1e-9)
    if not ok.any():
        return None, X, None
    obj = np.abs(val[ok] - t).sum(1) + pen * np.maximum(cash[ok], 0)
    return float(obj.min()), X[ok], obj


@scenario(SCN, 2200, thorough=12000, need=["optimal", "short optimal", "no cash at all", "penalty changes the optimum", "cash limit binds", "infeasible limit"])
def integer(cx):
    rng = cx.rng
    short = rng.random() < .45
    n, P, lots, w, V, ranges = problem(rng, short)
    names = gen.strlabels(rng, n)
    pen = float(rng.choice([1.0, 1.0, 0.0, .3, 2.0, 10.0]))
    kw = {} if pen == 1.0 and rng.random() < .5 else {"cash_penalty": pen}
    cap = None
    if rng.random() < .4:
        cap = float(V * rng.choice([.001, .01, .05, .2, .5]))
        if rng.random() < .25:  # no cash at all: attainable when the value is an exact sum of lots
            cap = 0.0
            if not short and rng.random() < .7:
                x = np.array([float(rng.integers(r.min(), r.max() + 1)) for r in ranges])
                V2 = float(np.round((x * lots * P).sum(), 2))
                if V2 > 0 and np.prod(np.floor(V2 / (P * lots) + 1e-9) + 1) <= 2e5:
                    V = V2
                    ranges = [np.arange(0, b + 1) for b in np.floor(V / (P * lots) + 1e-9)]
        kw["max_cash"] = cap
    exact = rng.random() < .5
    if exact:
        kw["solver_options"] = {"mip_rel_gap": 0.0}
    L = {k: int(v) for k, v in zip(names, lots)}
    wt, pr = box(rng, names, w * float(rng.choice([1, 1, 2.5]))), box(rng, names, P)
    cx.note(weights=wt, prices=pr, value=V, lots=L, **kw)
    best, X, obj = enumerate_best(P, lots, w, V, ranges, pen, cap)
    cx.event("lot vectors enumerated", int(np.prod([len(r) for r in ranges])))
    cx.state(n, short, pen, cap is not None, exact)
    try:
        if short and rng.random() < .3:
            res = allocate_greedy(DiscreteAllocationInput(wt, pr, V, L), fallback_kwargs=kw)
        else:
            res = discretize_weights(wt, pr, V, method="milp", lot_sizes=L, **kw)
    except RuntimeError as e:
        if "status 4" in str(e) or "Status 4" in str(e):
            cx.event("solver gave up")
            cx.stop("solver gave up")
        cx.check(best is None, "an allocation exists, so one is returned", error=str(e), best=best)
        cx.event("infeasible limit")
        return
    if not cx.check(best is not None, "no allocation respects the cash limit, so none is returned", got=res.shares):
        return
    x = np.array([res.shares.get(k, 0) for k in names], float)
    val = x * P
    cash = V - val.sum()
    cx.check(all(lo.min() <= a <= lo.max() for a, lo in zip(np.round(x / lots), ranges)), "integer allocation stays on the side of its targets", shares=x)
    cx.leq(-cash, 0, "integer allocation keeps cash non-negative", tol=1e-7)
    if cap is not None:
        cx.leq(cash, cap, "integer allocation respects the cash limit", tol=1e-5)
        cx.event("no cash at all", int(cap == 0.0))
    got = np.abs(val - w / w.sum() * V).sum() + pen * max(cash, 0)
    gap = 1e-5 * V if exact else 1.1e-4 * abs(best) + 1e-5 * V
    cx.leq(got, best, "integer allocation attains the least total deviation plus cash penalty", tol=gap, got=got, best=best, shares=x)
    cx.leq(best, got, "enumeration covers the returned allocation", tol=1e-5 * V)
    cx.event("short optimal" if short else "optimal")
    if cap is not None:
        free, _, _ = enumerate_best(P, lots, w, V, ranges, pen, None)
        cx.event("cash limit binds", int(free < best - 1e-6))
    if pen != 1.0:
        b1, X1, o1 = enumerate_best(P, lots, w, V, ranges, 1.0, cap)
        alt = X1[int(np.argmin(o1))]
        v = alt * lots * P
        cx.event("penalty changes the optimum", int(np.abs(v - w / w.sum() * V).sum() + pen * max(V - v.sum(), 0) > best + 1e-6 * V))


@scenario(SCN, 4000, need=["topped up", "unaffordable", "floor only"])
def greedy(cx):
    rng = cx.rng
    n = int(rng.integers(1, 9))
    names = gen.strlabels(rng, n)
    P, w, V, lots = market(rng, n)
    if rng.random() < .4:
        lots = np.ones(n, int)
    V = min(V, 1e7)
    wt, pr = box(rng, names, w), box(rng, names, P)
    L = {k: int(v) for k, v in zip(names, lots)}
    cx.note(weights=wt, prices=pr, value=V, lots=L)
    cx.state(n, round(float(np.log10(V))), bool((lots > 1).any()))
    res = allocate_greedy(DiscreteAllocationInput(wt, pr, V, L), max_iterations=100000, fallback_mode="none")
    keep = ~np.isclose(w, 0.0)
    w = np.where(keep, w, 0)
    t = w / w.sum() * V
    c = P * lots
    val = np.array([res.shares.get(k, 0) for k in names]) * P
    eps = 1e-9 * V + 1e-8
    for i in np.flatnonzero(keep):
        cx.leq(val[i], t[i] + c[i], "greedy allocation exceeds no target by more than one lot", tol=eps, asset=names[i])
        short = t[i] - val[i] > 2e-12 * V + 1e-9
        if short:
            cx.check(c[i] > res.leftover_cash - eps, "greedy allocation leaves no affordable lot an under-allocated asset needs",
                     asset=names[i], lot=c[i], cash=res.leftover_cash, missing=t[i] - val[i])
            cx.event("unaffordable")
    over = val > t + eps
    cx.event("topped up", int(over.any()))
    cx.event("floor only", int(not over.any()))
    # nothing beyond what was missing is bought: the last lot of an over-allocated asset was needed
    cx.leq((val - c)[over], t[over], "greedy allocation buys a lot only for an under-allocated asset", tol=eps)
    best = None
    if np.prod(np.floor(V / c[keep]) + 1) < 3000:
        k = np.flatnonzero(keep)
        best, _, _ = enumerate_best(P[k], lots[k], w[k], V, [np.arange(0, np.floor(V / c[i] + 1e-9) + 1) for i in k], 1.0, None)
        g = np.abs(val - t).sum() + res.leftover_cash
        cx.leq(best, g, "greedy allocation is an admissible lot allocation", tol=eps)
        cx.event("greedy against enumeration")


@scenario(SCN, 700, need=["fallback taken", "no fallback"])
def fallback(cx):
    """With an exhausted iteration cap the automatic fallback is at least as good as stopping early."""
    rng = cx.rng
    short = False
    n, P, lots, w, V, ranges = problem(rng, short)
    names = gen.strlabels(rng, n)
    wt, pr = box(rng, names, w), box(rng, names, P)
    L = {k: int(v) for k, v in zip(names, lots)}
    cx.note(weights=wt, prices=pr, value=V, lots=L)
    inp = lambda: DiscreteAllocationInput(wt, pr, V, L)
    it = int(rng.integers(0, 3))
    cx.state(n, it)
    none = allocate_greedy(inp(), max_iterations=it, fallback_mode="none")
    try:
        milp = allocate_mip(inp())
        auto = allocate_greedy(inp(), max_iterations=it, fallback_mode=str(rng.choice(["auto", "milp"])))
    except RuntimeError as e:
        cx.event("solver gave up")
        cx.stop("solver gave up")
    if auto.shares == none.shares and auto.shares != milp.shares:
        cx.event("no fallback")
    elif auto.shares == milp.shares:
        cx.event("fallback taken")
    cx.check(auto.shares in (none.shares, milp.shares), "a fallback returns the greedy or the integer allocation", auto=auto.shares, none=none.shares, milp=milp.shares)
    full = allocate_greedy(inp(), max_iterations=100000, fallback_mode="none")
    if auto.shares == none.shares and none.shares != full.shares and auto.shares != milp.shares:
        t = w / w.sum()
        cx.check(False, "an unfinished greedy run falls back to the integer allocation", auto=auto.shares, full=full.shares)
