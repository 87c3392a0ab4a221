"""P11: trading costs are charged on the distance from the current holdings, asset by asset."""
import numpy as np
import pandas as pd
from pyvallocation import AssetsDistribution, Constraints, PortfolioWrapper, TransactionCosts

from .. import gen, oracle, use
from ..core import scenario
from .p03 import gap_ok
from .p04 import optimal as cvar_optimal
from .p05 import optimal as robust_optimal

SCN = []
ASSUMPTIONS = ["quadratic rates belong to the mean-variance programs, proportional ones to the CVaR and robust programs, as documented",
               "minima are certified by independent HiGHS programs (see P03-P05) at solver accuracy"]


class Problem:
    """One market, one cost schedule, one of the three cost-aware optimisers."""

    def __init__(self, cx, kind=None, distinct=True):
        rng = cx.rng
        self.kind = kind or str(rng.choice(["mv", "cvar", "robust", "gamma"]))
        self.n = n = int(rng.integers(2, 6))
        self.names = gen.labels(rng, n)
        self.R = self.p = None
        if self.kind == "cvar":
            T = int(rng.integers(12, 40))
            self.R, self.p = gen.panel(rng, T, n, scale=0.04), gen.probs(rng, T)
            self.mu = self.R.T @ self.p
            self.S = np.cov(self.R.T, aweights=self.p, bias=True).reshape(n, n)
        else:
            _, self.mu, self.S = gen.moments(rng, n, scale=0.2)
        self.spec, self.w0, self.k = gen.spec(rng, n, rich=bool(rng.random() < 0.5))
        self.rows = gen.rows_of(self.spec, n)
        if oracle.max_return(self.mu, self.rows)[0] is None:
            cx.stop("unbounded")
        self.hold = gen.holdings(rng, self.w0, 0.15)
        unit = np.diag(self.S).mean() if self.kind == "mv" else 0.01 if self.kind == "cvar" else np.abs(self.mu).mean() * 0.3
        self.rate = unit * rng.choice([0.1, 1.0, 3.0]) * rng.exponential(1.0, n) * (rng.random(n) < 0.8)
        if rng.random() < 0.15:
            self.hold = np.zeros(n)  # from cash
        self.other = rng.exponential(1.0, n) * rng.choice([1e-3, 0.1, 10.0]) if rng.random() < 0.4 else None
        self.lam = float(rng.choice([0.2, 1.0, 2.0]))
        self.cap = float(self.w0 @ self.S @ self.w0) * 1.2
        self.alpha = float(rng.choice([0.05, 0.2]))

    def dist(self, labelled=True):
        nm = self.names if labelled else None
        if self.R is not None:
            return AssetsDistribution(scenarios=pd.DataFrame(self.R, columns=nm) if nm else self.R, probabilities=self.p)
        m, C = gen.arr_or_frame(None, nm, self.mu, self.S)
        return AssetsDistribution(mu=m, cov=C)

    def costs(self, hold, rate, extra=False):
        kw = {"market_impact_costs" if self.kind == "mv" else "proportional_costs": rate}
        if self.other is not None:  # the schedule of the other cost model may be there too: it is not this programme's
            kw["proportional_costs" if self.kind == "mv" else "market_impact_costs"] = self.other
        return TransactionCosts(initial_weights=hold, **kw)

    def solve(self, cx, wr, target=None, **kw):
        if self.kind == "mv":
            f = use.solve(cx, lambda: wr.variance_frontier(1, **kw)) if target is None else None
            return np.asarray(f.weights[:, 0] if f is not None else use.solve(cx, lambda: wr.min_variance_at_return(target, **kw))[0], float)
        if self.kind == "cvar":
            f = use.solve(cx, lambda: wr.cvar_frontier(1, alpha=self.alpha, **kw)) if target is None else None
            return np.asarray(f.weights[:, 0] if f is not None else use.solve(cx, lambda: wr.min_cvar_at_return(target, alpha=self.alpha, **kw))[0], float)
        if self.kind == "robust":
            return use.solve(cx, lambda: wr.robust_lambda_frontier(lambdas=[self.lam], **kw)).weights[:, 0]
        return np.asarray(use.solve(cx, lambda: wr.solve_robust_gamma_portfolio(self.lam, self.cap, **kw))[0], float)

    def certify(self, cx, w, what, hold, rate):
        if self.kind == "mv":
            gap_ok(cx, w, self.S, self.rows, what, rate, hold)
        elif self.kind == "cvar":
            cvar_optimal(cx, w, self.R, self.p, self.alpha, self.rows, what, cost=rate, hold=hold)
        elif self.kind == "robust":
            robust_optimal(cx, w, self.mu, self.S, self.lam, self.rows, what, rate, hold)
        else:
            robust_optimal(cx, w, self.mu, self.S, self.lam, self.rows, what, rate, hold, cap=np.sqrt(self.cap))

    def base(self, w, hold, rate):
        return float(rate @ ((w - hold) ** 2 if self.kind == "mv" else np.abs(w - hold)))

    def risk(self, w):
        if self.kind == "mv":
            return float(w @ self.S @ w)
        if self.kind == "cvar":
            return float(oracle.cvar(-(self.R @ w), self.p, self.alpha))
        return float(-self.mu @ w + self.lam * np.sqrt(max(w @ self.S @ w, 0.0)))

    def scale(self):
        return {"mv": float(np.abs(self.S).max()), "cvar": 0.05}.get(self.kind, float(np.abs(self.mu).max() + self.lam * np.sqrt(np.diag(self.S).max())))


def shuffled(rng, names, v):
    s = pd.Series(v, index=pd.Index(names, tupleize_cols=False))
    return s.iloc[rng.permutation(len(names))]


@scenario(SCN, 900, need=["certified", "shuffled labels", "constraints for the call"])
def labelled_schedules(cx):
    """Rates and holdings given as labelled series in any order are each asset's own; the optimum is certified."""
    rng = cx.rng
    P = Problem(cx)
    cx.note(spec=P.spec, kind=P.kind, mu=P.mu, S=P.S, R=P.R, p=P.p, hold=P.hold, rate=P.rate, names=P.names, lam=P.lam, cap=P.cap)
    form = str(rng.choice(["array", "series", "series", "mixed"]))
    strn = all(isinstance(x, str) for x in P.names)
    if form != "array" and not strn:
        P.names = gen.strlabels(rng, P.n)
    hold = P.hold if form in ("array",) else shuffled(rng, P.names, P.hold)
    rate = P.rate if form in ("array", "mixed") else shuffled(rng, P.names, P.rate)
    if form != "array":
        cx.event("shuffled labels")
    per_call = bool(rng.random() < 0.5)
    con = use.to_con(rng, P.spec)
    cx.state(P.kind, form, per_call, P.k)
    c = P.costs(hold, rate)
    if per_call:
        # constructor holds a different schedule which the call replaces completely
        other = P.costs(P.hold[::-1].copy(), P.rate[::-1].copy() * 5 + 0.01) if rng.random() < 0.5 else None
        wr = PortfolioWrapper(P.dist(), constraints=con, costs=other)
        w = P.solve(cx, wr, costs=c)
    else:
        wr = PortfolioWrapper(P.dist(), constraints=con, costs=c)
        w = P.solve(cx, wr)
    P.certify(cx, w, "risk plus trading cost", P.hold, P.rate)
    if not per_call and rng.random() < .5:  # constraints of one call leave the schedule alone
        wr2 = PortfolioWrapper(P.dist(), constraints={"bounds": (0.0, .9)} if rng.random() < .5 else None, costs=c)
        P.certify(cx, P.solve(cx, wr2, constraints=con), "risk plus trading cost under constraints for the call", P.hold, P.rate)
        cx.event("constraints for the call")
    if not per_call:  # a call with a free schedule overrides it
        w = P.solve(cx, wr, costs=TransactionCosts(initial_weights=P.hold))
        P.certify(cx, w, "call without rates is cost free", P.hold, np.zeros(P.n))
        w = P.solve(cx, wr)
        P.certify(cx, w, "defaults are kept for later calls", P.hold, P.rate)


@scenario(SCN, 300, need=["holdings matter"] + use.ROUTES)
def constructors(cx):
    """Every way of building a problem charges the cost schedule given to it."""
    rng = cx.rng
    kind = use.ROUTES[cx.index % len(use.ROUTES)]
    n, T = int(rng.integers(2, 6)), int(rng.integers(20, 50))
    names = gen.strlabels(rng, n) if rng.random() < .6 else None
    R = np.clip(gen.panel(rng, T, n, scale=.03), -.5, .5)
    S = np.cov(R.T, bias=True).reshape(n, n)
    if np.linalg.eigvalsh(S).min() < 1e-8:
        cx.stop("singular panel")
    hold = rng.dirichlet(np.ones(n))
    mic, pc = np.diag(S).mean() * rng.uniform(.5, 5, n), .02 * rng.uniform(.5, 2, n)
    lab = (lambda v: shuffled(rng, names, v)) if names is not None and rng.random() < .5 else (lambda v: v)
    cx.note(kind=kind, R=R, hold=hold, mic=mic, pc=pc)
    cx.state(kind, n, names is None)
    wr = use.route(rng, kind, names, R, costs=TransactionCosts(lab(hold), market_impact_costs=lab(mic), proportional_costs=lab(pc)))
    cx.event(kind)
    d = wr.dist
    w = use.solve(cx, lambda: wr.variance_frontier(1)).weights[:, 0]
    rows = gen.rows_of({}, n)
    gap_ok(cx, w, np.asarray(d.cov), rows, "variance plus impact costs of a " + kind + " problem", mic, hold)
    plain = PortfolioWrapper(d)
    if np.abs(w - use.solve(cx, lambda: plain.variance_frontier(1)).weights[:, 0]).max() > 1e-2:
        cx.event("holdings matter")
    if d.scenarios is not None:
        w = use.solve(cx, lambda: wr.cvar_frontier(1, alpha=.2)).weights[:, 0]
        cvar_optimal(cx, w, np.asarray(d.scenarios), np.asarray(d.probabilities), .2, rows, "CVaR plus costs of a " + kind + " problem", cost=pc, hold=hold)


@scenario(SCN, 500, need=["base_shrank"])
def rates(cx):
    """Zero rates change nothing; dearer trading never increases the traded cost base; huge rates freeze feasible holdings."""
    rng = cx.rng
    P = Problem(cx)
    cx.note(spec=P.spec, kind=P.kind, mu=P.mu, S=P.S, R=P.R, p=P.p, hold=P.hold, rate=P.rate, lam=P.lam, cap=P.cap)
    cx.state(P.kind, P.k)
    wr = PortfolioWrapper(P.dist(bool(rng.random() < .5)), constraints=use.to_con(rng, P.spec))
    free = P.solve(cx, wr)
    zero = P.solve(cx, wr, costs=P.costs(P.hold, np.zeros(P.n)))
    tol = 1e-5 * P.scale() + 2e-6
    cx.close(P.risk(zero), P.risk(free), "zero rates change nothing", rtol=3e-4, atol=tol)
    prev = None
    for m in (0.3, 1.0, 4.0, 20.0):
        w = P.solve(cx, wr, costs=P.costs(P.hold, P.rate * m))
        b = P.base(w, P.hold, P.rate)
        if prev is not None:
            # both optimal: (m2-m1)(b1-b2) >= 0 up to the solver's objective accuracy
            slackb = 2 * (tol + 3e-4 * abs(P.risk(w)) + 3e-4 * m * b) / (m - prev[0])
            cx.leq(b, prev[1] + slackb, "dearer trading never trades more", tol=0.0, m=m)
            if b < prev[1] - slackb:
                cx.event("base_shrank")
        prev = (m, b)
    # feasible holdings: prohibitive rates keep them; holdings already optimal are kept at any rate
    big = P.rate * 2 + P.scale() * (1e3 if P.kind == "mv" else 4.0) * P.n
    if P.kind != "gamma":
        w = P.solve(cx, wr, costs=P.costs(P.w0, big))
        cx.leq(np.abs(w - P.w0).max(), 0.02 if P.kind == "mv" else 1e-3, "prohibitive rates keep the holdings", hold=P.w0, got=w)
    w = P.solve(cx, wr, costs=P.costs(free, P.rate * 2 + 0.05 * P.scale()))
    val = P.risk(w) + P.base(w, free, P.rate * 2 + 0.05 * P.scale())
    cx.leq(P.risk(free), val + tol + 3e-4 * abs(val), "optimal holdings cannot be improved", tol=0.0)
    cx.leq(P.base(w, free, P.rate * 2 + 0.05 * P.scale()), 3 * (tol + 3e-4 * abs(P.risk(free))), "optimal holdings are kept", tol=0.0, free=free, got=w)


@scenario(SCN, 400, need=["certified"])
def targets(cx):
    """Cost-aware portfolios at a return target are the cheapest that reach it."""
    rng = cx.rng
    P = Problem(cx, kind=str(rng.choice(["mv", "cvar"])))
    cx.note(spec=P.spec, kind=P.kind, mu=P.mu, S=P.S, R=P.R, p=P.p, hold=P.hold, rate=P.rate)
    c = P.costs(shuffled(rng, P.names, P.hold) if all(isinstance(x, str) for x in P.names) else P.hold, P.rate)
    wr = PortfolioWrapper(P.dist(), constraints=use.to_con(rng, P.spec), costs=c)
    free = P.solve(cx, wr)
    top = oracle.max_return(P.mu, P.rows)[0]
    t = float(P.mu @ free + (top - P.mu @ free) * rng.choice([0.2, 0.6, 0.95]))
    cx.state(P.kind, P.k)
    w = P.solve(cx, wr, target=t)
    cx.leq(t, P.mu @ w, "target reached", tol=2e-6)
    if P.kind == "mv":
        gap_ok(cx, w, P.S, oracle.add_row(P.rows, -P.mu, -min(t, float(P.mu @ w))), "risk plus cost at a target", P.rate, P.hold)
    else:
        cvar_optimal(cx, w, P.R, P.p, P.alpha, P.rows, "risk plus cost at a target", mu=P.mu, target=t, cost=P.rate, hold=P.hold)


@scenario(SCN, 200)
def malformed(cx):
    rng = cx.rng
    P = Problem(cx)
    P.names = gen.strlabels(rng, P.n)
    wr = PortfolioWrapper(P.dist(), constraints=use.to_con(rng, P.spec))
    bad = P.rate.copy() + 0.01
    bad[int(rng.integers(P.n))] = rng.choice([np.nan, np.inf])
    nan = P.hold.copy()
    nan[int(rng.integers(P.n))] = np.nan
    unknown = pd.Series(P.rate, index=P.names[:-1] + ["nobody"])
    field = "market_impact_costs" if P.kind == "mv" else "proportional_costs"
    which = int(rng.integers(5))
    cx.state(P.kind, which)
    cases = [("non-finite rates", dict(initial_weights=P.hold, **{field: bad})),
             ("wrong length", dict(initial_weights=np.append(P.hold, 0.0), **{field: P.rate})),
             ("unknown label", dict(initial_weights=P.hold, **{field: unknown})),
             ("missing label", dict(initial_weights=pd.Series(P.hold, index=P.names).iloc[:-1], **{field: P.rate})),
             ("non-finite holdings", dict(initial_weights=nan, **{field: P.rate + 0.01}))]
    what, kw = cases[which]
    cx.note(what=what, kw=kw, kind=P.kind)
    cx.raises(lambda: P.solve(cx, wr, costs=TransactionCosts(**kw)), f"{what} are rejected")
