"""P30: results do not depend on the order of the assets or scenarios, nor on units."""
import numpy as np
import pandas as pd
from pyvallocation import (AssetsDistribution, MeanVariance, PortfolioWrapper, RobustOptimizer, TransactionCosts)
from pyvallocation.stress import stress_test
from pyvallocation.utils.functions import portfolio_cvar
from pyvallocation.ensembles import average_exposures, exposure_stacking, stack_portfolios
from pyvallocation.moments import (estimate_sample_moments, covariance_ewma, factor_covariance_poet, robust_covariance_tyler, robust_mean_huber, shrink_covariance_ledoit_wolf,
                                   shrink_covariance_nls, shrink_covariance_oas, shrink_mean_james_stein, shrink_mean_jorion)
from pyvallocation.probabilities import (compute_effective_number_scenarios, generate_gaussian_kernel_probabilities, generate_uniform_probabilities)
from pyvallocation.utils.performance import drawdown_quantile, performance_report, scenario_pnl
from pyvallocation.views import BlackLittermanProcessor as BL
from pyvallocation.views import FlexibleViewsProcessor, entropy_pooling

from .. import gen, oracle, use
from ..core import scenario
from ..use import solve
from .p15 import HIGH, Ref, higher_block, market, mean_block, mom

SCN = []
ASSUMPTIONS = ["two runs of an interior-point solver agree to its tolerance: objective values are compared tightly, weights loosely "
               "(the optimum may be flat), CVaR weights not at all (a linear programme may have several optima)",
               "estimators that depend on time order (EWMA, time decay, median of means without a seed) are not permuted in time"]


# ------------------------------------------------------------------ permuting a declared problem
def permute(rng, s, o):
    """The same constraint set with assets listed in the order o (new j = old o[j])."""
    n = len(o)
    inv = np.argsort(o)
    out = dict(s)
    b = s.get("bounds")
    if isinstance(b, list):
        out["bounds"] = [b[i] for i in o]
    elif isinstance(b, dict):
        items = [(int(inv[i]), v) for i, v in b.items()]
        out["bounds"] = {k: v for k, v in (items[x] for x in rng.permutation(len(items)))}
    if s.get("relative_bounds"):
        out["relative_bounds"] = [(int(inv[i]), int(inv[j]), k) for i, j, k in s["relative_bounds"]][::-1]
    if s.get("group_constraints"):
        out["group_constraints"] = {g: ([int(inv[i]) for i in idx][::-1], lo, hi) for g, (idx, lo, hi) in list(s["group_constraints"].items())[::-1]}
    for key in ("additional_G_h", "additional_A_b"):
        if s.get(key):
            out[key] = [(np.asarray(r, float)[o], x) for r, x in s[key]][::-1]
    assert n == len(inv)
    return out


def same(cx, what, W, r, k, W2, r2, k2, o, weights=True, rt=1e-4, wtol=6e-3, sc=None):
    """(W2, r2, k2) on the permuted problem equals (W, r, k)."""
    W, W2 = np.atleast_2d(np.asarray(W, float).T).T, np.atleast_2d(np.asarray(W2, float).T).T
    if not weights and r is not None and W.shape[1] > 1:
        # several portfolios may share the least risk; the grid then starts at either one's return
        cx.close(k2[0], k[0], f"{what}: least risk unchanged", rtol=rt, atol=3e-5 * (sc or 1))
        cx.close(r2[-1], r[-1], f"{what}: highest return unchanged", rtol=rt, atol=3e-5 * (sc or 1))
        if abs(r2[0] - r[0]) > 1e-6 * (np.ptp(r) + np.abs(r).max()):
            cx.event("tied least-risk portfolios")
            return
    if W.shape != W2.shape:
        cx.violate(f"{what}: same number of portfolios", a=W.shape, b=W2.shape)
        return
    s = sc or (np.abs(np.asarray(k)).max() + np.abs(np.asarray(r)).max() + 1e-12)
    if r is not None:
        cx.close(r2, r, f"{what}: returns unchanged", rtol=rt, atol=3e-5 * s)
        cx.close(k2, k, f"{what}: risks unchanged", rtol=rt, atol=3e-5 * s)
    if weights:
        cx.close(W2, W[o], f"{what}: weights follow their assets", rtol=0, atol=wtol * max(1, np.abs(W).max()))
    cx.event("portfolios compared", W.shape[1])


@scenario(SCN, 700, need=["portfolios compared", "labelled", "min variance", "target", "sharpe", "robust", "gamma", "costs"])
def asset_order_moments(cx):
    rng = cx.rng
    n, mu, S = gen.moments(rng, lo=2, hi=7)
    U = gen.cov(rng, n, scale=float(rng.choice([.05, .2])))
    names = gen.labels(rng, n) if rng.random() < .6 else None
    con, _, kind = gen.spec(rng, n)
    o = rng.permutation(n)
    nm2 = [names[i] for i in o] if names else None
    cp = permute(rng, con, o)
    ck = cq = None
    if rng.random() < .3:
        w0 = rng.dirichlet(np.ones(n))
        mi = rng.uniform(0, .3, n)
        pc = rng.uniform(0, .01, n)
        if names and rng.random() < .5:
            ix = pd.Index(names, tupleize_cols=False)
            ck = cq = TransactionCosts(initial_weights=pd.Series(w0, index=ix), market_impact_costs=pd.Series(mi, index=ix), proportional_costs=pd.Series(pc, index=ix))
        else:
            ck = TransactionCosts(initial_weights=w0, market_impact_costs=mi, proportional_costs=pc)
            cq = TransactionCosts(initial_weights=w0[o], market_impact_costs=mi[o], proportional_costs=pc[o])
        cx.event("costs")
    cx.note(mu=mu, S=S, con=con, o=o)
    cx.state(n, names is None, kind, ck is None)

    def mk(a, b, names, c, k):
        if names:
            ix = pd.Index(names, tupleize_cols=False)
            a, b = pd.Series(a, index=ix), pd.DataFrame(b, ix, ix)
        return PortfolioWrapper(AssetsDistribution(mu=a, cov=b), constraints=use.to_con(rng, c), costs=k)
    A, B = mk(mu, S, names, con, ck), mk(mu[o], S[np.ix_(o, o)], nm2, cp, cq)
    if names:
        cx.event("labelled")
    job = str(rng.choice(["mv", "mv", "target", "sharpe", "robust", "gamma"]))
    s = np.sqrt(np.diag(S).max()) + np.abs(mu).max()
    if job == "mv":
        f, g = solve(cx, lambda: A.variance_frontier(5)), solve(cx, lambda: B.variance_frontier(5))
        same(cx, "frontier", f.weights, f.returns, f.risks, g.weights, g.returns, g.risks, o, sc=s)
        cx.check(list(g.asset_names or []) == list(nm2 or []), "frontier labels follow the assets")
        cx.event("min variance")
    elif job == "target":
        f = solve(cx, lambda: A.variance_frontier(3))
        t = float(np.mean(f.returns))
        w, r, k = solve(cx, lambda: A.min_variance_at_return(t))
        w2, r2, k2 = solve(cx, lambda: B.min_variance_at_return(t))
        same(cx, "minimum variance at a return", np.asarray(w), [r], [k], np.asarray(w2), [r2], [k2], o, sc=s)
        if names:
            cx.check(list(w2.index) == nm2, "weights carry the permuted labels")
        cx.event("target")
    elif job == "sharpe":
        rf = float(rng.choice([0.0, .01, -.02]))
        a, b = gen.rows_of(con, n), gen.rows_of(cp, n)
        # the rows themselves are permuted here, so the row order changes too
        mm = lambda r, x, y: MeanVariance(x, y, *(z if len(z) else None for z in (r[0], r[1], r[2], r[3])))
        try:
            x = mm(a, mu, S).max_sharpe(rf)
        except RuntimeError:
            cx.stop("no positive excess return")
        y = solve(cx, lambda: mm(b, mu[o], S[np.ix_(o, o)]).max_sharpe(rf))
        wx, wy = np.asarray(x.weights, float), np.asarray(y.weights, float)
        sh = lambda w, m, C: (m @ w - rf) / np.sqrt(w @ C @ w)
        cx.close(sh(wy[np.argsort(o)], mu, S), sh(wx, mu, S), "maximum Sharpe ratio unchanged", rtol=2e-4, atol=1e-6)
        cx.event("sharpe")
        cx.event("portfolios compared")
    elif job == "robust":
        lam = [0.0, .3, 1.5]
        f = solve(cx, lambda: A.robust_lambda_frontier(lambdas=lam, return_cov=U))
        g = solve(cx, lambda: B.robust_lambda_frontier(lambdas=lam, return_cov=U[np.ix_(o, o)]))
        fl, gl = [m["lambda"] for m in f.metadata], [m["lambda"] for m in g.metadata]
        wt = ck.proportional_costs if ck is not None else None
        for L in lam:
            i, j = fl.index(L), gl.index(L)
            obj = []
            for ww in (f.weights[:, i], g.weights[np.argsort(o), j]):
                v = mu @ ww - L * np.sqrt(ww @ S @ ww)
                if wt is not None:
                    v -= np.asarray(wt) @ np.abs(ww - w0)
                obj.append(v)
            cx.close(obj[1], obj[0], "robust objective unchanged", rtol=1e-5, atol=3e-6 * s * max(1, np.abs(f.weights).max()))
            if L > 0 and wt is None:
                cx.close(g.weights[:, j], f.weights[o, i], "robust weights follow their assets", rtol=0, atol=1e-2 * max(1, np.abs(f.weights).max()))
        cx.event("robust")
        cx.event("portfolios compared", 3)
    else:
        g1, g2 = float(rng.uniform(.1, 1)), float(rng.uniform(.8, 1.4)) * float(np.diag(S).max())
        w, r, k = solve(cx, lambda: A.solve_robust_gamma_portfolio(g1, g2))
        w2, r2, k2 = solve(cx, lambda: B.solve_robust_gamma_portfolio(g1, g2))
        if ck is None:
            cx.close(r2 - g1 * k2, r - g1 * k, "robust gamma objective unchanged", rtol=1e-4, atol=1e-5 * s)
            cx.close(np.asarray(w2), np.asarray(w)[o], "robust gamma weights follow their assets", rtol=0, atol=1e-2 * max(1, np.abs(np.asarray(w)).max()))
        cx.event("gamma")
        cx.event("portfolios compared")


@scenario(SCN, 300, need=["parity", "regularised", "rrp frontier"])
def asset_order_parity(cx):
    rng = cx.rng
    n = int(rng.integers(2, 7))
    S = gen.cov(rng, n, scale=float(rng.choice([.2, 1.0])))
    mu = gen.mean(rng, n, S)
    names = gen.labels(rng, n) if rng.random() < .5 else None
    o = rng.permutation(n)
    bud = rng.dirichlet(np.full(n, 4.0)) + .02 if rng.random() < .5 else None
    lam = float(rng.choice([0.0, 0.0, .2, 1.0]))
    con = {"long_only": True, "total_weight": 1.0}
    if rng.random() < .4:
        con["bounds"] = [(0.0, float(x)) for x in rng.uniform(1.5 / n, 1, n)]
    tgt = None if rng.random() < .5 and lam == 0 else float(rng.uniform(1, 1.4))
    cx.note(mu=mu, S=S, con=con, o=o, budgets=bud, lam=lam, mult=tgt)
    cx.state(n, lam, tgt is None, bud is None, len(con))
    mk = lambda a, b, nm, c: PortfolioWrapper(AssetsDistribution(mu=gen.arr_or_frame(rng, nm, a, b)[0], cov=gen.arr_or_frame(rng, nm, a, b)[1]) if not nm or not isinstance(nm[0], tuple)
                                              else AssetsDistribution(mu=a, cov=b, asset_names=list(nm)), constraints=use.to_con(rng, c))
    A = mk(mu, S, names, con)
    B = mk(mu[o], S[np.ix_(o, o)], [names[i] for i in o] if names else None, permute(rng, con, o))
    b1, b2 = bud, None if bud is None else bud[o]
    if rng.random() < .7:
        kw = dict(lambda_reg=lam, target_multiplier=tgt)
        w, r, k, d = solve(cx, lambda: A.relaxed_risk_parity_portfolio_with_diagnostics(risk_budgets=b1, **kw))
        w2, r2, k2, d2 = solve(cx, lambda: B.relaxed_risk_parity_portfolio_with_diagnostics(risk_budgets=b2, **kw))
        s = np.sqrt(np.diag(S).max())
        same(cx, "risk parity", np.asarray(w), [r], [k], np.asarray(w2), [r2], [k2], o, rt=5e-3, wtol=1.5e-2, sc=100 * s, weights=True)
        cx.close(d2["risk_contributions_pct"], np.asarray(d["risk_contributions_pct"])[o], "risk shares follow their assets", rtol=5e-2, atol=1.5)
        cx.event("parity" if lam == 0 else "regularised")
    else:
        f = solve(cx, lambda: A.relaxed_risk_parity_frontier(4, 1.5, lambda_reg=lam, risk_budgets=b1))
        g = solve(cx, lambda: B.relaxed_risk_parity_frontier(4, 1.5, lambda_reg=lam, risk_budgets=b2))
        s = np.sqrt(np.diag(S).max())
        same(cx, "risk parity frontier", f.weights, f.returns, f.risks, g.weights, g.returns, g.risks, o, rt=1e-2, wtol=2e-2, sc=200 * s)
        cx.event("rrp frontier")


@scenario(SCN, 320, thorough=3000, need=["assets", "rows", "split", "rare split", "zero rows", "target"])
def cvar_order(cx):
    rng = cx.rng
    n, T = int(rng.integers(2, 5)), int(rng.integers(15, 50))
    R = gen.panel(rng, T, n, scale=.03)
    p = gen.probs(rng, T)
    names = gen.labels(rng, n, "str") if rng.random() < .6 else None
    con, _, kind = gen.spec(rng, n)
    al = float(rng.choice([.05, .1, .3]))
    o, t = rng.permutation(n), rng.permutation(T)
    how = str(rng.choice(["assets", "rows", "split", "rare split", "zero rows"]))
    if how == "rare split":  # an unlikely disaster, with a tail that is not much likelier
        al = float(rng.choice([2e-5, 2e-4, 2e-3]))
        d = int(rng.integers(T))
        R[d] = -rng.uniform(.2, .9, n)
        p[d] = 0
        p *= (1 - al * .9) / p.sum()
        p[d] = al * .9
    cx.note(R=R, p=p, con=con, how=how, alpha=al)
    cx.state(n, T, kind, how, al)
    R2, p2, con2, nm2 = R, p, con, names
    if how == "assets":
        R2, con2, nm2 = R[:, o], permute(rng, con, o), [names[i] for i in o] if names else None
    elif how == "rows":
        R2, p2 = R[t], p[t]
    elif how == "split":
        k = int(rng.integers(1, T))
        f = rng.uniform(.1, .9, k)
        R2 = np.vstack([R, R[t[:k]]])
        p2 = np.concatenate([p, p[t[:k]] * f])
        p2[t[:k]] *= 1 - f
        x = rng.permutation(len(p2))
        R2, p2 = R2[x], p2[x]
    elif how == "rare split":
        k = int(rng.integers(2, 41))
        R2 = np.vstack([R[:d], R[d + 1:], np.repeat(R[d:d + 1], k, axis=0)])
        p2 = np.concatenate([np.delete(p, d), p[d] * rng.dirichlet(np.full(k, 3.0))])
        x = rng.permutation(len(p2))
        R2, p2 = R2[x], p2[x]
    else:
        k = int(rng.integers(1, 6))
        R2, p2 = np.vstack([R, rng.uniform(-.9, .9, (k, n))]), np.concatenate([p, np.zeros(k)])
    cx.event(how)
    mk = lambda R, p, nm, c: PortfolioWrapper.from_scenarios(pd.DataFrame(R, columns=nm) if nm else R, probabilities=p, constraints=use.to_con(rng, c))
    A, B = mk(R, p, names, con), mk(R2, p2, nm2, con2)
    inv = np.argsort(o) if how == "assets" else np.arange(n)
    cx.close(np.asarray(B.dist.mu, float)[inv], np.asarray(A.dist.mu, float), "expected returns unchanged", rtol=1e-9, atol=1e-12)
    cx.close(np.asarray(B.dist.cov, float)[np.ix_(inv, inv)], np.asarray(A.dist.cov, float), "covariance unchanged", rtol=1e-7, atol=1e-13)
    s = np.abs(R).max()
    if rng.random() < .5:
        f, g = solve(cx, lambda: A.cvar_frontier(4, alpha=al)), solve(cx, lambda: B.cvar_frontier(4, alpha=al))
        same(cx, "CVaR frontier", f.weights, f.returns, f.risks, g.weights, g.returns, g.risks, o, weights=False, rt=1e-5, sc=.2 * s)
    else:
        m = np.asarray(A.dist.mu, float)
        f = solve(cx, lambda: A.cvar_frontier(2, alpha=al))
        tr = float(np.mean(f.returns))
        w, r, k = solve(cx, lambda: A.min_cvar_at_return(tr, alpha=al))
        w2, r2, k2 = solve(cx, lambda: B.min_cvar_at_return(tr, alpha=al))
        cx.close(k2, k, "CVaR at a return unchanged", rtol=1e-5, atol=1e-6 * s)
        x = np.asarray(w2, float)[inv]
        cx.close(portfolio_cvar(x, R, p, confidence=1 - al, demean=False), portfolio_cvar(np.asarray(w, float), R, p, confidence=1 - al, demean=False),
                 "CVaR of the portfolio unchanged", rtol=1e-4, atol=1e-5 * s)
        cx.check(m @ x >= tr - 1e-6 * max(1, s), "the portfolio reaches the same return")
        cx.event("target")
        cx.event("portfolios compared")


@scenario(SCN, 900, need=["entropy", "views", "stress", "report", "moments", "kernel"])
def scenario_order(cx):
    """Statistics of the scenario set: order and splitting."""
    rng = cx.rng
    n, T = int(rng.integers(1, 5)), int(rng.integers(8, 60))
    R = gen.panel(rng, T, n, scale=float(rng.choice([.02, .2])))
    p = gen.probs(rng, T, kind=str(rng.choice(["uniform", "dirichlet", "counts"])))
    t = rng.permutation(T)
    names = gen.strlabels(rng, n)
    job = str(rng.choice(["entropy", "views", "stress", "report", "moments", "kernel"]))
    cx.event(job)
    cx.note(R=R, p=p, t=t, job=job)
    cx.state(n, T, job)
    W = rng.dirichlet(np.ones(n))
    conf = float(rng.choice([.9037, .9519, .5177]))  # off the exact cumulative probabilities
    if job == "entropy":
        q0 = p * np.exp(rng.normal(0, .5, T))
        q0 /= q0.sum()
        A = np.vstack([R.T, np.ones(T)])
        b = np.append(R.T @ q0, 1.0)
        G = rng.normal(size=(2, T))
        h = G @ q0 + rng.uniform(0, .3, 2)
        q = entropy_pooling(p, A, b, G, h).ravel()
        q2 = entropy_pooling(p[t], A[:, t], b, G[:, t], h).ravel()
        cx.close(q2, q[t], "pooled probabilities follow their scenarios", rtol=2e-3, atol=2e-5)
        v = rng.permutation(len(b))
        q3 = entropy_pooling(p, A[v], b[v], G[::-1], h[::-1]).ravel()
        cx.close(q3, q, "pooled probabilities do not depend on the order of the views", rtol=2e-3, atol=2e-5)
        # a scenario split in two
        k = int(rng.integers(T))
        f = float(rng.uniform(.2, .8))
        ps = np.append(p, p[k] * f)
        ps[k] *= 1 - f
        q4 = entropy_pooling(ps, np.c_[A, A[:, k]], b, np.c_[G, G[:, k]], h).ravel()
        m = q4[:T].copy()
        m[k] += q4[T]
        cx.close(m, q, "splitting a scenario leaves the pooled probabilities", rtol=2e-3, atol=2e-5)
        if p[k] > 1e-9:
            cx.close(q4[T], q[k] * f, "the parts of a split scenario keep their proportion", rtol=2e-3, atol=2e-5)
    elif job == "views":
        v = {names[0]: float(p @ R[:, 0]) + .3 * R[:, 0].std()}
        kw = dict(mean_views=v)
        if n > 1:
            kw["vol_views"] = {names[1]: 1.1 * float(np.sqrt(p @ (R[:, 1] - p @ R[:, 1]) ** 2))}
        try:
            q = FlexibleViewsProcessor(prior_risk_drivers=pd.DataFrame(R, columns=names), prior_probabilities=p, **kw).get_posterior_probabilities().ravel()
        except (ValueError, RuntimeError):
            cx.stop("views not attainable")
        q2 = FlexibleViewsProcessor(prior_risk_drivers=pd.DataFrame(R[t], columns=names), prior_probabilities=p[t], **kw).get_posterior_probabilities().ravel()
        cx.close(q2, q[t], "posterior probabilities follow their scenarios", rtol=5e-3, atol=3e-5)
    elif job == "stress":
        q = gen.probs(rng, T, kind="dirichlet")
        sh = lambda x: 1.5 * np.asarray(x) - .01
        w = pd.Series(W, index=names)
        a = stress_test(w, pd.DataFrame(R, columns=names), probabilities=p, stressed_probabilities=q, transform=sh, confidence=conf)
        b = stress_test(w, pd.DataFrame(R[t], columns=names), probabilities=p[t], stressed_probabilities=q[t], transform=sh, confidence=conf)
        cx.close(b.to_numpy(float), a.to_numpy(float), "stress report does not depend on the order of the scenarios", rtol=1e-9, atol=1e-12)
        o = rng.permutation(n)
        c = stress_test(w, pd.DataFrame(R[:, o], columns=[names[i] for i in o]), probabilities=p, stressed_probabilities=q, transform=sh, confidence=conf)
        cx.close(c.to_numpy(float), a.to_numpy(float), "stress report does not depend on the order of the assets", rtol=1e-9, atol=1e-12)
    elif job == "report":
        a = performance_report(W, R, probabilities=p, confidence=conf)
        b = performance_report(W, R[t], probabilities=p[t], confidence=conf)
        o = rng.permutation(n)
        c = performance_report(pd.Series(W, index=names), pd.DataFrame(R[:, o], columns=[names[i] for i in o]), probabilities=p, confidence=conf)
        for x, what in ((b, "scenarios"), (c, "assets")):
            cx.check(list(x.index) == list(a.index), "report keeps its rows")
            cx.close(np.asarray(x, float), np.asarray(a, float), f"performance report does not depend on the order of the {what}", rtol=1e-8, atol=1e-11)
        # splitting
        k, f = int(rng.integers(T)), float(rng.uniform(.2, .8))
        ps = np.append(p, p[k] * f)
        ps[k] *= 1 - f
        d = performance_report(W, np.vstack([R, R[k]]), probabilities=ps, confidence=conf)
        for key in a.index:
            if key != "ENS" and not key.startswith("VaR"):
                cx.close(float(d[key]), float(a[key]), "splitting a scenario leaves the report", rtol=1e-8, atol=1e-11)
    elif job == "moments":
        m, C = estimate_sample_moments(R, p)
        m2, C2 = estimate_sample_moments(R[t], p[t])
        cx.close(m2, m, "sample mean does not depend on the order of the scenarios", rtol=1e-9, atol=1e-13)
        cx.close(C2, C, "sample covariance does not depend on the order of the scenarios", rtol=1e-8, atol=1e-14)
        if T > n + 12:
            for fn in (shrink_covariance_oas, robust_covariance_tyler, shrink_covariance_nls, factor_covariance_poet, robust_mean_huber):
                x = np.asarray(fn(R), float)
                cx.close(fn(R[t]), x, "estimates do not depend on the order of the observations", rtol=1e-4, atol=(2e-3 if "nls" in fn.__name__ else 1e-6) * np.abs(x).max())
    else:
        x = R[:, 0]
        a = generate_gaussian_kernel_probabilities(x, x_T=float(x[0]))
        b = generate_gaussian_kernel_probabilities(x[t], x_T=float(x[0]))
        cx.close(np.ravel(b), np.ravel(a)[t], "kernel weights follow their observations", rtol=1e-9, atol=1e-15)
        cx.close(compute_effective_number_scenarios(np.ravel(b)), compute_effective_number_scenarios(np.ravel(a)), "effective number does not depend on the order", rtol=1e-10)


@scenario(SCN, 700, need=["BL", "flexible", "NIW-free estimators"])
def asset_order_estimates(cx):
    rng = cx.rng
    job = str(rng.choice(["BL", "flexible", "NIW-free estimators"]))
    cx.event(job)
    if job == "BL":
        n, mu, S = gen.moments(rng, lo=2, hi=6)
        names = gen.strlabels(rng, n)
        o = rng.permutation(n)
        k = int(rng.integers(1, n + 1))
        mv, keys = {}, []
        for i in rng.permutation(n)[:k]:
            j = int(rng.integers(n))
            key = names[i] if j == i or rng.random() < .5 else (names[i], names[j])
            v = float(rng.normal(0, .05)) + (mu[i] if not isinstance(key, tuple) else mu[i] - mu[j])
            mv[key] = v
            keys.append(key)
        kw = dict(tau=float(rng.choice([.05, .3, 1.0])))
        if rng.random() < .5:
            kw.update(omega="idzorek", view_confidences={q: float(rng.uniform(.1, .9)) for q in keys})
        cx.note(mu=mu, S=S, views=mv, o=o, **kw)
        cx.state(job, n, len(mv), "omega" in kw)
        ix = [names[i] for i in o]
        a = BL(prior_cov=pd.DataFrame(S, names, names), pi=pd.Series(mu, index=names), mean_views=mv, **kw).get_posterior()
        perm = {q: mv[q] for q in [keys[i] for i in rng.permutation(len(keys))]}
        b = BL(prior_cov=pd.DataFrame(S[np.ix_(o, o)], ix, ix), pi=pd.Series(mu[o], index=ix), mean_views=perm, **kw).get_posterior()
        cx.check(list(b[0].index) == ix and list(b[1].columns) == ix, "posterior labels follow the assets")
        s = np.abs(mu).max() + np.sqrt(np.diag(S).max())
        cx.close(np.asarray(b[0]), np.asarray(a[0])[o], "Black-Litterman mean follows the assets", rtol=1e-7, atol=1e-9 * s)
        cx.close(np.asarray(b[1]), np.asarray(a[1])[np.ix_(o, o)], "Black-Litterman covariance follows the assets", rtol=1e-7, atol=1e-9 * s * s)
    elif job == "flexible":
        S, n, R, p, q0, names, X, sc = market(rng, S=int(rng.choice([40, 120])), pandas=True)
        ref = Ref(R, p)
        mv, rank, _ = mean_block(rng, R, q0, names, ref)
        kw = {"mean_views": mv}
        if rank:
            kw["rank_mean"] = rank
        mu, var = mom(R, ref.solve())
        for m in HIGH:
            if rng.random() < .25 and not (m == "var" and "vol_views" in kw):
                d = higher_block(rng, m, R, q0, names, mu, var, ref)
                if d:
                    kw[m + "_views"] = d
        o = rng.permutation(n)
        cx.note(R=X, p=p, o=o, **kw)
        cx.state(job, n, "+".join(sorted(kw)))
        q = FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p, **kw)
        shuf = {k: ({x: v[x] for x in list(v)[::-1]} if isinstance(v, dict) else v) for k, v in kw.items()}
        q2 = FlexibleViewsProcessor(prior_risk_drivers=X.iloc[:, o], prior_probabilities=p, **shuf)
        a, b = q.get_posterior_probabilities().ravel(), q2.get_posterior_probabilities().ravel()
        cx.leq(np.abs(a - b).sum(), 5e-3, "posterior probabilities do not depend on the order of the assets or views", tol=0)
        m1, m2 = q.get_posterior()[0], q2.get_posterior()[0]
        cx.check(list(m2.index) == [names[i] for i in o], "posterior labels follow the assets")
        cx.close(np.asarray(m2), np.asarray(m1)[o], "posterior means follow the assets", rtol=1e-3, atol=1e-3 * sc)
    else:
        n, T = int(rng.integers(2, 7)), int(rng.integers(20, 60))
        R = gen.panel(rng, T, n, scale=.02)
        names = gen.strlabels(rng, n)
        o = rng.permutation(n)
        ix = [names[i] for i in o]
        X, Y = pd.DataFrame(R, columns=names), pd.DataFrame(R[:, o], columns=ix)
        u = np.full(T, 1 / T)
        m, C = estimate_sample_moments(X, u)
        cx.note(R=R, o=o)
        cx.state(job, n, T)
        fns = {"sample": lambda Z: estimate_sample_moments(Z, u)[1], "ewma": lambda Z: covariance_ewma(Z, span=20), "oas": shrink_covariance_oas, "tyler": robust_covariance_tyler,
               "nls": shrink_covariance_nls, "poet": lambda Z: factor_covariance_poet(Z, k=1),
               "lw": lambda Z: shrink_covariance_ledoit_wolf(Z, C if Z is X else C.loc[ix, ix], target="constant_correlation"),
               "huber": robust_mean_huber, "jorion": lambda Z: shrink_mean_jorion(Z.mean(), C.loc[Z.columns, Z.columns], T),
               "james-stein": lambda Z: shrink_mean_james_stein(Z.mean(), C.loc[Z.columns, Z.columns], T)}
        if n <= 2:
            del fns["jorion"]  # defined for three or more assets
        for k in [list(fns)[i] for i in rng.permutation(len(fns))[:4]]:
            a, b = fns[k](X), fns[k](Y)
            cx.check(list(b.index) == ix, f"{k} labels follow the assets")
            A = a.to_numpy()
            cx.close(b.to_numpy(), A[o] if A.ndim == 1 else A[np.ix_(o, o)], f"{k} estimate follows the assets", rtol=1e-5, atol=(2e-3 if k == "nls" else 1e-6) * np.abs(A).max())
            cx.event("estimates compared")


@scenario(SCN, 700, need=["variance", "sharpe", "parity", "cvar", "robust", "frontier"])
def units(cx):
    """Rescaling returns (and, consistently, covariances) changes no scale-free portfolio."""
    rng = cx.rng
    n, mu, S = gen.moments(rng, lo=2, hi=6, scale=.2)
    k = float(rng.choice([.05, .3, 3.0, 12.0]))
    con, _, kind = gen.spec(rng, n)
    job = str(rng.choice(["variance", "sharpe", "parity", "cvar", "robust", "frontier"]))
    cx.event(job)
    cx.note(mu=mu, S=S, con=con, k=k, job=job)
    cx.state(n, kind, k, job)
    P = lambda m, C, c=con: PortfolioWrapper.from_moments(m, C, constraints=use.to_con(rng, c))
    sd = lambda w: np.sqrt(w @ S @ w)
    sc = np.sqrt(np.diag(S).max())
    if job == "variance":
        t = -1e3
        a = np.asarray(solve(cx, lambda: P(mu, S).variance_frontier(2)).weights[:, 0])
        b = np.asarray(solve(cx, lambda: P(mu * rng.uniform(.5, 2), S * k).variance_frontier(2)).weights[:, 0])
        cx.close(sd(b), sd(a), "minimum-variance portfolio does not depend on the scale of the covariance", rtol=1e-4, atol=1e-6 * sc)
        cx.close(b, a, "minimum-variance weights do not depend on the scale of the covariance", rtol=0, atol=5e-3 * max(1, np.abs(a).max()))
    elif job == "sharpe":
        rows = gen.rows_of(con, n)
        mm = lambda x, y: MeanVariance(x, y, *(z if len(z) else None for z in rows))
        try:
            a = np.asarray(mm(mu, S).max_sharpe(0.0).weights)
        except RuntimeError:
            cx.stop("no positive excess return")
        b = np.asarray(solve(cx, lambda: mm(mu * k, S * k * k).max_sharpe(0.0)).weights)
        cx.close(mu @ b / sd(b), mu @ a / sd(a), "maximum Sharpe portfolio does not depend on the unit of returns", rtol=5e-4, atol=1e-6)
    elif job == "parity":
        kw = dict(lambda_reg=0.0, target_multiplier=None)
        a = np.asarray(P(mu, S, {}).relaxed_risk_parity_portfolio(**kw)[0])
        b = np.asarray(P(mu * k, S * k * k, {}).relaxed_risk_parity_portfolio(**kw)[0])
        cx.close(b, a, "risk parity does not depend on the unit of returns", rtol=1e-2, atol=5e-3)
    elif job == "cvar":
        T = int(rng.integers(20, 50))
        R = gen.panel(rng, T, n, scale=.03)
        R = np.clip(R, -.5, .5)
        p = gen.probs(rng, T)
        kk = min(k, 1.9)
        f = solve(cx, lambda: PortfolioWrapper.from_scenarios(R, probabilities=p, constraints=use.to_con(rng, con)).cvar_frontier(3, alpha=.1))
        g = solve(cx, lambda: PortfolioWrapper.from_scenarios(R * kk, probabilities=p, constraints=use.to_con(rng, con)).cvar_frontier(3, alpha=.1))
        cx.close(g.risks[0] / kk, f.risks[0], "least CVaR scales with the returns", rtol=1e-5, atol=1e-6)
        if abs(g.returns[0] / kk - f.returns[0]) > 1e-7:
            cx.event("tied least-risk portfolios")
        elif np.ptp(f.returns) * kk < 2e-5:
            cx.event("frontier narrower than the LP's feasibility tolerance")
        elif f.weights.shape == g.weights.shape:
            d = 3e-7 * max(1.0, 1.0 / kk)  # the LP accepts a return short by 1e-7 in its own unit
            cx.close(g.returns / kk, f.returns, "CVaR frontier returns scale with the returns", rtol=1e-5, atol=1e-6 + d)
            m = R.T @ p
            for j in range(len(f.risks)):
                a = oracle.cvar_program(R, p, .1, gen.rows_of(con, n), mu=m, target=f.returns[j] - d)[2]
                b = oracle.cvar_program(R, p, .1, gen.rows_of(con, n), mu=m, target=f.returns[j] + d)[2]
                if a is None:
                    continue
                tol = 2e-6 + 2e-5 * abs(f.risks[j])
                b = np.inf if b is None else b
                lim = max(f.risks[j], b if np.isfinite(b) else f.risks[j])
                cx.leq(a - tol, g.risks[j] / kk, "CVaR frontier scales with the returns", tol=0.0, column=j, f=f.risks, g=g.risks / kk)
                cx.leq(g.risks[j] / kk, lim + tol, "CVaR frontier scales with the returns", tol=0.0, column=j, f=f.risks, g=g.risks / kk)
        else:
            cx.violate("CVaR frontier keeps its size", a=f.weights.shape, b=g.weights.shape)
    elif job == "robust":
        lam = [.3, 1.0]
        rows = gen.rows_of(con, n)
        oo = lambda m, U: RobustOptimizer(expected_return=m, uncertainty_cov=U, G=rows[0] if len(rows[1]) else None, h=rows[1] if len(rows[1]) else None,
                                          A=rows[2] if len(rows[3]) else None, b=rows[3] if len(rows[3]) else None)
        _, _, a = solve(cx, lambda: oo(mu, S).efficient_frontier(lam))
        _, _, b = solve(cx, lambda: oo(mu * k, S * k * k).efficient_frontier(lam))
        for j, L in enumerate(lam):
            u = lambda w: mu @ w - L * sd(w)
            cx.close(u(np.asarray(b)[:, j]), u(np.asarray(a)[:, j]), "robust portfolio does not depend on the unit of returns", rtol=1e-4, atol=1e-5 * sc * max(1, np.abs(np.asarray(a)).max()))
    else:
        f, g = solve(cx, lambda: P(mu, S).variance_frontier(5)), solve(cx, lambda: P(mu * k, S * k * k).variance_frontier(5))
        if f.weights.shape == g.weights.shape:
            cx.close(g.risks / k, f.risks, "mean-variance frontier scales with the returns", rtol=1e-4, atol=2e-5 * sc)
            cx.close(g.returns / k, f.returns, "mean-variance frontier returns scale with the returns", rtol=1e-4, atol=2e-5 * sc)
        elif min(1.0, k) * max(np.ptp(f.returns), np.ptp(g.returns) / k) < 2e-5 * max(np.abs(mu).max(), 0.1):
            cx.event("frontier narrower than solver accuracy")
        else:
            cx.violate("mean-variance frontier keeps its size", a=f.weights.shape, b=g.weights.shape)


@scenario(SCN, 700, need=["average", "stack", "pnl"])
def asset_order_combinations(cx):
    rng = cx.rng
    n, M = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    W = rng.dirichlet(np.ones(n), M).T
    if rng.random() < .3:
        W = W - rng.normal(0, .2, W.shape)
    names = gen.strlabels(rng, n)
    o, m = rng.permutation(n), rng.permutation(M)
    ix = [names[i] for i in o]
    job = str(rng.choice(["average", "stack", "pnl"]))
    cx.event(job)
    cx.note(W=W, o=o, m=m)
    cx.state(n, M, job)
    F, G = pd.DataFrame(W, index=names), pd.DataFrame(W[o], index=ix)
    if job == "average":
        v = rng.dirichlet(np.ones(M))
        a = average_exposures(F, weights=v)
        b = average_exposures(G.iloc[:, m], weights=v[m])
        cx.check(list(b.index) == ix, "average labels follow the assets")
        cx.close(b.to_numpy(), a.to_numpy()[o], "average does not depend on the order of assets and samples", rtol=1e-10, atol=1e-13)
    elif job == "stack":
        L = int(rng.integers(2, M + 1))
        a, b = exposure_stacking(F, L=L), exposure_stacking(G, L=L)
        cx.check(list(b.index) == ix, "stacked labels follow the assets")
        cx.close(b.to_numpy(), a.to_numpy()[o], "stacking does not depend on the order of the assets", rtol=0, atol=2e-3 * max(1, np.abs(W).max()))
        s = float(rng.choice([.1, 10.0]))
        c = exposure_stacking(F * s, L=L)
        cx.close(c.to_numpy() / s, a.to_numpy(), "stacking scales with the exposures", rtol=0, atol=2e-3 * max(1, np.abs(W).max()))
    else:
        T = 20
        R = gen.panel(rng, T, n)
        X = pd.DataFrame(R, columns=names)
        a = scenario_pnl(F, X)
        b = scenario_pnl(G.iloc[:, m], X.iloc[:, o])
        cx.close(np.asarray(b), np.asarray(a)[:, m] if np.ndim(a) == 2 else a, "P&L does not depend on the order of the assets", rtol=1e-10, atol=1e-13)
        d = drawdown_quantile(pd.Series(W[:, 0], index=names), pd.DataFrame(R[:, o], columns=ix), horizon=3, n_paths=8, seed=3)
        e = drawdown_quantile(pd.Series(W[:, 0], index=names), X, horizon=3, n_paths=8, seed=3)
        cx.close(np.array([float(d[k]) for k in d.keys()]), np.array([float(e[k]) for k in e.keys()]), "drawdowns do not depend on the order of the assets", rtol=1e-9, atol=1e-12)
