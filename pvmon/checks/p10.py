"""P10: frontier selectors pick the best qualifying point."""
import numpy as np
import pandas as pd
from pyvallocation import AssetsDistribution, InfeasibleOptimizationError, PortfolioWrapper
from pyvallocation.portfolioapi import PortfolioFrontier

from .. import gen, use
from ..core import scenario

SCN = []
ASSUMPTIONS = ["tangency is judged only when every risk on the frontier is positive (a ratio to a negative tail loss has no meaning)"]


def fake(rng):
    """An arbitrary container: unsorted, tied, negative-risk, single-point, multi-measure frontiers."""
    M = int(rng.choice([1, 2, 3, 5, 9, 17]))
    n = int(rng.integers(1, 6))
    grid = bool(rng.random() < 0.4)

    def vec(pos):
        v = rng.normal(0.1, 0.2, M)
        if grid:
            v = np.round(v, 1) + 0.0
        if pos:
            v = np.abs(v) + 0.01
        k = rng.random()
        if k < 0.3:
            v = np.sort(v)
        elif k < 0.4:
            v = np.sort(v)[::-1].copy()
        return v
    pos = bool(rng.random() < 0.6)
    names = gen.labels(rng, n) if rng.random() < 0.7 else None
    alt = {f"R{k}": vec(pos) for k in range(int(rng.integers(0, 3)))}
    f = PortfolioFrontier(weights=rng.normal(size=(n, M)), returns=vec(False), risks=vec(pos), risk_measure="Volatility",
                          asset_names=names, alternate_risks=alt)
    return f, f"fake M={M} {'tied' if grid else 'generic'} {'pos' if pos else 'signed'} alt={len(alt)}"


def real(rng):
    n = int(rng.integers(2, 6))
    names = gen.strlabels(rng, n)
    R = gen.panel(rng, 40, n, scale=0.04)
    wr = PortfolioWrapper.from_scenarios(pd.DataFrame(R, columns=names))
    M = int(rng.choice([1, 3, 8]))
    k = rng.integers(0, 3)
    f = wr.variance_frontier(M) if k == 0 else wr.cvar_frontier(M) if k == 1 else wr.robust_lambda_frontier(M)
    return f, f"real kind={k} M={f.weights.shape[1]}"


def column(cx, f, tup, risk):
    """The single column the selection came from; also that w, return and risk belong together."""
    w, r, k = tup
    hit = [j for j in range(f.weights.shape[1]) if np.array_equal(f.weights[:, j], np.asarray(w, float)) and f.returns[j] == r and risk[j] == k]
    cx.check(bool(hit), "selected weights, return and risk are one frontier column", w=w, r=r, k=k)
    cx.check(isinstance(w, pd.Series) and (f.asset_names is None or list(w.index) == list(f.asset_names)), "selection is labelled by asset")
    return hit[0] if hit else None


@scenario(SCN, 3000, need=["infeasible_threshold", "tied", "alt_label", "tangency beside riskless points"])
def selectors(cx):
    rng = cx.rng
    f, kind = fake(rng) if cx.index % 5 else use.solve(cx, lambda: real(rng))
    M = f.weights.shape[1]
    cx.state(kind)
    cx.note(returns=f.returns, risks=f.risks, alt=f.alternate_risks)
    ret = f.returns
    j = column(cx, f, f.max_return(), f.risks)
    if j is not None:
        cx.check(ret[j] == max(ret), "max_return has the highest return", got=ret[j], want=max(ret))
    labels = [None, f.risk_measure] + list(f.alternate_risks)
    if len(set(np.round(ret, 12))) < M:
        cx.event("tied")
    for lbl in labels:
        k = f.risks if lbl in (None, f.risk_measure) else f.alternate_risks[lbl]
        if lbl in f.alternate_risks:
            cx.event("alt_label")
        kw = {} if lbl is None else {"risk_label": lbl}
        j = column(cx, f, f.min_risk(**kw), k)
        if j is not None:
            cx.check(k[j] == min(k), "min_risk has the least risk", label=lbl, got=k[j], want=min(k))
        # thresholds: on a point, just around it, between, outside
        base = float(rng.choice(k))
        for t in (base, np.nextafter(base, -np.inf), np.nextafter(base, np.inf), float(rng.uniform(min(k) - .1, max(k) + .1)),
                  float(min(k) - 1e-9), float(max(k)), np.inf):
            ok = [i for i in range(M) if k[i] <= t]
            if not ok:
                cx.raises(lambda: f.at_risk(t, **kw), "at_risk without a qualifying point raises", types=(InfeasibleOptimizationError,))
                cx.event("infeasible_threshold")
                continue
            j = column(cx, f, f.at_risk(t, **kw), k)
            if j is not None:
                cx.check(k[j] <= t, "at_risk stays within the risk limit", limit=t, got=k[j], label=lbl)
                cx.check(ret[j] == max(ret[i] for i in ok), "at_risk has the highest qualifying return", limit=t, label=lbl,
                         got=ret[j], want=max(ret[i] for i in ok))
        base = float(rng.choice(ret))
        for t in (base, np.nextafter(base, -np.inf), np.nextafter(base, np.inf), float(rng.uniform(min(ret) - .1, max(ret) + .1)),
                  float(max(ret) + 1e-9), float(min(ret)), -np.inf):
            ok = [i for i in range(M) if ret[i] >= t]
            if not ok:
                cx.raises(lambda: f.at_return(t, **kw), "at_return without a qualifying point raises", types=(InfeasibleOptimizationError,))
                cx.event("infeasible_threshold")
                continue
            j = column(cx, f, f.at_return(t, **kw), k)
            if j is not None:
                cx.check(ret[j] >= t, "at_return reaches the return floor", floor=t, got=ret[j])
                cx.check(k[j] == min(k[i] for i in ok), "at_return has the least qualifying risk", floor=t, label=lbl,
                         got=k[j], want=min(k[i] for i in ok))
        for t in (float(rng.choice(k)), float(rng.uniform(min(k) - .2, max(k) + .2)), 0.0):
            j = column(cx, f, f.closest_risk(t, **kw), k)
            if j is not None:
                cx.check(abs(k[j] - t) <= min(abs(x - t) for x in k), "closest_risk is the nearest point", target=t, label=lbl, got=k[j])
        # percentiles
        pct = f.risk_percentiles(**kw)
        if M == 1:
            cx.close(pct, [0.0], "risk percentile of one point", atol=0)
        else:
            cx.close(np.sort(pct), np.arange(M) / (M - 1), "risk percentiles spread over [0,1]", rtol=0, atol=1e-12)
            for a in range(M):
                for b in range(M):
                    if k[a] < k[b]:
                        cx.check(pct[a] < pct[b], "risk percentiles follow the risk order", a=k[a], b=k[b])
        srt = np.sort(k)
        for q in (0.0, 1.0, float(rng.random()), float(rng.random()) * 99 + 1, 100.0, 50.0):
            u = q / 100 if q > 1 else q
            i = f.index_at_risk_percentile(q, **kw)
            cx.check(0 <= i < M and abs(pct[i] - u) <= min(abs(pct - u)) + 1e-15, "percentile index is the nearest percentile", q=q)
            j = column(cx, f, f.at_percentile(q, **kw), k)
            if j is not None:
                # nearest rank on an evenly spaced rank grid
                pos = u * (M - 1)
                near = [r for r in range(M) if abs(r - pos) <= min(abs(np.arange(M) - pos)) + 1e-9]
                cx.check(any(k[j] == srt[r] for r in near), "at_percentile picks the risk of that rank", q=q, label=lbl, got=k[j], want=[srt[r] for r in near])
        for bad in (-0.01, 100.5, 1e6, -5.0):
            cx.raises(lambda: f.at_percentile(bad, **kw), "percentile outside [0,100] raises", types=(ValueError,))
    cx.raises(lambda: f.min_risk(risk_label="no such risk"), "unknown risk label raises", types=(KeyError,))
    cx.raises(lambda: f.at_risk(1e9, risk_label="no such risk"), "unknown risk label raises", types=(KeyError,))
    cx.check(f.available_risk_measures() == [f.risk_measure] + list(f.alternate_risks), "available risk measures listed")
    # tangency: points without risk have no ratio and are passed over
    if min(f.risks) > 1e-6 and M > 1 and rng.random() < .3:
        z = rng.permutation(M)[: int(rng.integers(1, M))]
        k0 = f.risks.copy()
        k0[z] = 0.0
        g = PortfolioFrontier(weights=f.weights, returns=f.returns, risks=k0, risk_measure=f.risk_measure, asset_names=f.asset_names)
        rf = float(rng.normal(0.05, 0.1))
        j = column(cx, g, g.tangency(rf), k0)
        if j is not None:
            pos = [i for i in range(M) if k0[i] > 0]
            cx.check(k0[j] > 0, "tangency has a finite Sharpe ratio", risks=k0, got=j)
            if k0[j] > 0:
                cx.close((ret[j] - rf) / k0[j], max((ret[i] - rf) / k0[i] for i in pos), "tangency has the highest Sharpe ratio", rtol=1e-12, atol=1e-12, rf=rf)
            cx.event("tangency beside riskless points")
        g = PortfolioFrontier(weights=f.weights, returns=f.returns, risks=np.zeros(M), risk_measure=f.risk_measure)
        cx.raises(lambda: g.tangency(rf), "tangency without any risky point raises", types=(ValueError, RuntimeError))
    # tangency
    if min(f.risks) > 1e-6:
        for rf in (0.0, float(rng.normal(0.05, 0.1)), float(rng.choice(ret)), float(max(ret)) + 0.1):
            j = column(cx, f, f.tangency(rf), f.risks)
            if j is not None:
                best = max((ret[i] - rf) / f.risks[i] for i in range(M))
                cx.close((ret[j] - rf) / f.risks[j], best, "tangency has the highest Sharpe ratio", rtol=1e-12, atol=1e-12, rf=rf)
                cx.event("tangency")


@scenario(SCN, 500)
def to_lots(cx):
    """Discretising a column uses that column's weights and that universe's labels."""
    rng = cx.rng
    n, M = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    names = gen.strlabels(rng, n) if rng.random() < 0.7 else None
    W = rng.dirichlet(np.full(n, 1.0), size=M).T
    f = PortfolioFrontier(weights=W, returns=rng.normal(size=M), risks=rng.random(M), risk_measure="Volatility", asset_names=names)
    lab = names or [f"Asset_{i}" for i in range(n)]
    prices = pd.Series(rng.uniform(5, 80, n), index=lab)
    prices = prices.iloc[rng.permutation(n)]
    if rng.random() < 0.3:
        prices = prices.to_dict()
    V = float(rng.uniform(1e3, 1e5))
    c = int(rng.integers(0, M))
    cx.note(W=W, prices=prices, V=V, column=c)
    cx.state(n, M, names is None)
    from pyvallocation.discrete_allocation import discretize_weights
    a = f.as_discrete_allocation(c, prices, V)
    b = discretize_weights(weights=pd.Series(W[:, c], index=lab), latest_prices=prices, total_value=V)
    cx.check(dict(a.shares) == dict(b.shares), "column is discretised with its own weights", got=a.shares, want=b.shares)
    px = pd.Series(prices)
    got = sum(px[k] * v for k, v in dict(a.shares).items())
    cx.close(got + a.leftover_cash, V, "cash conserved", rtol=1e-9)
    for k, v in zip(lab, W[:, c]):
        s = dict(a.shares).get(k, 0)
        cx.leq(abs(s * px[k] - v * V), px[k] * 1.0 + 1e-6, "each asset within one share of its own target", asset=k)
    for bad in (-1, M, M + 3):
        cx.raises(lambda: f.as_discrete_allocation(bad, prices, V), "column out of range raises", types=(IndexError,))
    # container refuses inconsistent pieces
    for kw in (dict(weights=W, returns=np.zeros(M + 1), risks=np.zeros(M + 1)), dict(weights=W, returns=np.zeros(M), risks=np.zeros(M + 1)),
               dict(weights=W, returns=np.zeros(M), risks=np.zeros(M), asset_names=["a"] * (n + 1)),
               dict(weights=W, returns=np.zeros(M), risks=np.zeros(M), alternate_risks={"x": np.zeros(M + 1)})):
        cx.raises(lambda: PortfolioFrontier(risk_measure="v", **kw), "inconsistent frontier pieces are rejected", types=(ValueError,))
