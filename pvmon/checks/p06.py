"""P06: relaxed risk parity meets its risk budgets and its return target."""
import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import AssetsDistribution, Constraints, PortfolioWrapper, RelaxedRiskParity

from .. import gen, oracle, use
from ..core import scenario

SCN = []
ASSUMPTIONS = ["the relaxed objective is psi - gamma with psi^2 = w'Sw/n + lambda w'diag(S)w and gamma^2 = min_i w_i (Sw)_i / (n b_i)",
               "the model itself restricts to non-negative weights and non-negative marginal risks",
               "the reference optimum is bracketed by cutting planes (HiGHS)"]


def model_rows(rows, n):
    G, h, A, b = rows
    G = np.vstack([G, -np.eye(n)])
    h = np.concatenate([h, np.zeros(n)])
    if not any(np.allclose(r, 1.0) for r in A):
        A = np.vstack([A, np.ones((1, n))])
        b = np.append(b, 1.0)
    return G, h, A, b


def budgets_of(rng, n, p=0.5):
    if rng.random() > p:
        return None, np.full(n, 1.0 / n)
    b = rng.dirichlet(np.full(n, 2.0)) + 0.02
    b = b / b.sum()
    return (b * gen.mass(rng)), b


def optimal(cx, w, S, lam, bud, rows, what, **data):
    br = oracle.rrp_program(S, lam, bud, rows, np.maximum(w, 1e-6))
    if br is None:
        cx.event("no reference")
        return
    lb, best, wb = br
    f = oracle.rrp_value(w, S, lam, bud)[0]
    scale = np.sqrt(np.mean(np.diag(S)))
    tol = 3e-6 + 2e-3 * max(0.0, best) + 2e-4 * scale
    cx.leq(f, best + tol, f"{what}: no feasible portfolio improves the relaxed objective", tol=0.0, lam=lam, w=w, wref=wb, **data)
    cx.maxdev["objective/tol"] = max(cx.maxdev["objective/tol"], (f - best) / tol)
    cx.event("certified")
    if best - lb > tol:
        cx.event("loose bracket")


@scenario(SCN, 600, need=["parity"])
def budgets_met(cx):
    """lambda = 0, no target: risk shares equal the budgets."""
    rng = cx.rng
    n = int(rng.integers(1, 9))
    S = gen.cov(rng, n, scale=float(rng.choice([1.0, 0.2, 0.05, 0.01, 0.002])))
    mu = gen.mean(rng, n, S)
    given, bud = budgets_of(rng, n)
    names = gen.labels(rng, n) if rng.random() < 0.6 else None
    B = 1.0 if rng.random() < 0.8 else float(rng.choice([0.5, 2.0]))
    cx.note(mu=mu, S=S, budgets=given, B=B)
    cx.state(n, given is None, B, names is not None)
    ref = oracle.erc(S, bud) * B
    con = Constraints(total_weight=B)
    extra = None
    if rng.random() < 0.3 and B == 1.0:  # slack constraints do not move the solution
        con = Constraints(bounds=(0.0, float(ref.max() + 0.1)), group_constraints={"g": ([0], float(ref[0] - 0.05), float(ref[0] + 0.05))})
        extra = "slack"
    which = rng.choice(["class", "wrapper", "diag"])
    if which == "class":
        G, h, A, b = con.to_matrices(n)
        r = use.solve(cx, lambda: RelaxedRiskParity(mu, S, G, h, A, b, risk_budgets=given).solve())
        w = np.asarray(r.weights, float)
        cx.close(r.marginal_risk, S @ w, "marginal risk is Sw", rtol=1e-4, atol=1e-6 * np.abs(S).max() + 1e-9)
    else:
        m_, C_ = gen.arr_or_frame(rng, names, mu, S)
        wr = PortfolioWrapper(AssetsDistribution(mu=m_, cov=C_), constraints=con)
        kw = dict(lambda_reg=0.0, target_multiplier=None, risk_budgets=given)
        if which == "wrapper":
            w, ret, risk = use.solve(cx, lambda: wr.relaxed_risk_parity_portfolio(**kw))
        else:
            w, ret, risk, d = use.solve(cx, lambda: wr.relaxed_risk_parity_portfolio_with_diagnostics(**kw))
            cx.check(d["target_return"] is None and d["solver_warning"] is None, "pure parity reports no target")
            cx.close(d["risk_contributions_pct"], 100 * bud, "reported risk shares are the budgets", rtol=2e-2, atol=0.05)
            cx.close(d["risk_parity_weights"], np.asarray(w), "parity weights are the solution", rtol=0, atol=1e-10)
        if names:
            cx.check(list(w.index) == list(names), "weights carry the asset labels")
        w = np.asarray(w, float)
        cx.close(ret, mu @ w, "return is that of the weights", rtol=1e-9, atol=1e-12)
        cx.close(risk, np.sqrt(w @ S @ w), "risk is that of the weights", rtol=1e-9, atol=1e-12)
    rc = w * (S @ w)
    cx.close(rc / rc.sum(), bud, "risk shares equal the budgets", rtol=1e-2, atol=5e-3)
    cx.close(w, ref, "parity weights equal the independent solution", rtol=1e-2, atol=5e-3 * B)
    cx.event("parity")


@scenario(SCN, 400, need=["certified", "target binds", "clipped"])
def diagnostics_and_optimality(cx):
    rng = cx.rng
    n = int(rng.integers(2, 7))
    S = gen.cov(rng, n, scale=float(rng.choice([0.5, 0.2, 0.05])))
    mu = gen.mean(rng, n, S)
    given, bud = budgets_of(rng, n, 0.35)
    s, w0, k = gen.spec(rng, n, long_only=True, budget=1.0)
    if rng.random() < 0.3:
        s, k = {}, "none"
    rows = gen.rows_of(s, n)
    mrows = model_rows(rows, n)
    top, st = oracle.max_return(mu, mrows)
    lam = float(rng.choice([0.0, 0.05, 0.2, 1.0]))
    names = gen.labels(rng, n) if rng.random() < 0.5 else None
    m_, C_ = gen.arr_or_frame(rng, names, mu, S)
    wr = PortfolioWrapper(AssetsDistribution(mu=m_, cov=C_), constraints=use.to_con(rng, s))
    mode = str(rng.choice(["multiplier", "target", "over"]))
    kw = dict(lambda_reg=lam, risk_budgets=given)
    if mode == "multiplier":
        kw["target_multiplier"] = float(rng.choice([0.0, 0.8, 1.0, 1.2, 3.0]))
    elif mode == "target":
        kw["return_target"] = float(rng.uniform(mu.min(), top))
    else:
        kw["return_target"] = float(top + abs(top) * rng.uniform(0.001, 3) + 1e-6)
    cx.note(spec=s, mu=mu, S=S, kw=kw)
    cx.state(mode, k, lam, given is None)
    w, ret, risk, d = use.solve(cx, lambda: wr.relaxed_risk_parity_portfolio_with_diagnostics(**kw))
    w = np.asarray(w, float)
    z = S @ w
    scale = np.sqrt(np.mean(np.diag(S)))
    f, psi, gam = oracle.rrp_value(w, S, lam, bud)
    # reported quantities
    cx.close(ret, mu @ w, "return is that of the weights", rtol=1e-9, atol=1e-12)
    cx.close(d["achieved_return"], mu @ w, "return is that of the weights", rtol=1e-9, atol=1e-12)
    cx.close(risk**2, w @ z, "risk is that of the weights", rtol=1e-8, atol=1e-14)
    cx.close(d["portfolio_variance"], w @ z, "risk is that of the weights", rtol=1e-8, atol=1e-14)
    cx.close(d["marginal_risk"], z, "marginal risk is Sw", rtol=1e-4, atol=1e-5 * np.abs(S).max())
    cx.close(d["risk_contributions"], w * z, "risk contributions are w_i (Sw)_i", rtol=1e-4, atol=1e-5 * np.abs(S).max())
    cx.close(d["risk_contributions_pct"], 100 * w * z / (w @ z), "risk contribution percentages", rtol=1e-3, atol=1e-2)
    cx.close(d["psi"], psi, "reported psi", rtol=2e-3, atol=3e-4 * scale)
    cx.close(d["gamma"], gam, "reported gamma", rtol=2e-3, atol=2e-3 * scale)
    cx.close(d["objective"], d["psi"] - d["gamma"], "reported objective is psi - gamma", rtol=1e-9, atol=1e-12)
    cx.close(d["lambda_reg"], lam, "reported lambda")
    # targets
    want_req = kw.get("return_target")
    rp_w = np.asarray(d["risk_parity_weights"], float)
    cx.close(d["risk_parity_return"], mu @ rp_w, "parity return is that of the parity weights", rtol=1e-9, atol=1e-12)
    optimal(cx, rp_w, S, 0.0, bud, mrows, "parity baseline")
    if want_req is None:
        want_req = kw["target_multiplier"] * max(mu @ rp_w, 0.0)
    cx.close(d["requested_target"], want_req, "requested target", rtol=1e-9, atol=1e-12)
    if d["max_feasible_return"] is not None:
        cx.close(d["max_feasible_return"], top, "maximum feasible return", rtol=1e-6, atol=1e-8)
    t = d["target_return"]
    lower = max(float(mu @ rp_w), 0.0)
    if d["solver_warning"] is None:
        cx.leq(t, mu @ w, "effective return target is met", tol=2e-6 * max(1, np.abs(mu).max()))
        eff = max(min(want_req, top - max(1e-8, 1e-3 * abs(top))), lower)
        zrows = (np.vstack([mrows[0], -S / np.abs(S).max()]), np.append(mrows[1], np.zeros(n)), mrows[2], mrows[3])
        t_att = oracle.max_return(mu, zrows)[0]
        if t_att is not None and eff < t_att - 1e-3 * abs(t_att) - 1e-6:
            cx.close(t, eff, "attainable target is not lowered", rtol=1e-6, atol=1e-9)
        else:
            cx.leq(t, max(eff, lower) + 1e-9, "effective target never above the requested one and the floor")
        cx.check(d["target_clipped"] == (not np.isclose(t, want_req, rtol=1e-8, atol=1e-10)), "target_clipped flag", t=t, req=want_req)
        if mu @ w < t + 1e-5 * max(abs(t), 1e-3):
            cx.event("target binds")
        if d["target_clipped"]:
            cx.event("clipped")
        tr = oracle.add_row(mrows, -mu, -min(t, float(mu @ w)))
        optimal(cx, w, S, lam, bud, tr, "targeted portfolio")
    else:
        cx.event("fallback")
        cx.check(t is None, "fallback reports no effective target")
        last = min(lower + (want_req - lower) * 2.0**-7, top - max(1e-8, 1e-3 * abs(top)))  # end of the documented line search
        last = max(last, lower)
        zrows = (np.vstack([mrows[0], -S / np.abs(S).max(), -mu / np.linalg.norm(mu)]),
                 np.append(mrows[1], np.append(np.zeros(n), -last / np.linalg.norm(mu))), mrows[2], mrows[3])
        sl = oracle.slack(zrows, n)
        cx.check(sl is None or sl < 1e-3, "fallback only when the target is out of reach", slack=sl)
        optimal(cx, w, S, lam, bud, mrows, "fallback portfolio")
    use.feasible(cx, rows, w, "relaxed risk parity", tol=2e-5)


@scenario(SCN, 150, need=["certified"])
def frontier(cx):
    rng = cx.rng
    n = int(rng.integers(2, 6))
    S = gen.cov(rng, n, scale=float(rng.choice([0.5, 0.2, 0.05])))
    mu = gen.mean(rng, n, S, "positive")
    given, bud = budgets_of(rng, n, 0.35)
    s, w0, k = gen.spec(rng, n, long_only=True, budget=1.0)
    rows = gen.rows_of(s, n)
    mrows = model_rows(rows, n)
    lam = float(rng.choice([0.05, 0.2, 1.0]))
    inc = bool(rng.random() < 0.6)
    kw = dict(lambda_reg=lam, include_risk_parity=inc, risk_budgets=given)
    if rng.random() < 0.5:
        mult = rng.uniform(0.2, 2.0, int(rng.integers(1, 4)))  # any order, repeats included
        if rng.random() < .4:
            mult = rng.choice(np.append(mult, [0.0, 1.0]), len(mult) + 1)
        kw["target_multipliers"] = mult.tolist()
    else:
        num = int(rng.integers(1, 5))
        mx = float(rng.choice([1.0, 1.3, 1.6]))
        kw.update(num_portfolios=num, max_multiplier=mx)
        mult = np.array([mx]) if num == 1 else np.linspace(1, mx, num)
    wr = PortfolioWrapper(AssetsDistribution(mu=mu, cov=S), constraints=use.to_con(rng, s))
    cx.note(spec=s, mu=mu, S=S, kw=kw)
    cx.state(k, lam, inc, len(mult))
    f = use.solve(cx, lambda: wr.relaxed_risk_parity_frontier(**kw))
    W = f.weights
    cx.check(W.shape[1] == len(mult) + inc, "one column per multiplier plus the anchor", got=W.shape[1], want=len(mult) + inc)
    cx.close(f.returns, mu @ W, "returns are those of the weights", rtol=1e-9, atol=1e-12)
    cx.close(f.risks, np.sqrt(np.sum(W * (S @ W), axis=0)), "risks are those of the weights", rtol=1e-8, atol=1e-12)
    if inc:
        cx.check(f.metadata[0]["target_multiplier"] is None and f.metadata[0]["lambda_reg"] == 0.0, "anchor metadata")
        optimal(cx, W[:, 0], S, 0.0, bud, mrows, "anchor")
        rp = float(mu @ W[:, 0])
    for j, m in enumerate(mult):
        md, w = f.metadata[j + inc], W[:, j + inc]
        cx.close(md["target_multiplier"], m, "metadata multiplier", rtol=1e-12)
        cx.close(md["lambda_reg"], lam, "metadata lambda")
        if inc:
            cx.close(md["requested_target"], m * max(rp, 0), "requested target", rtol=1e-9, atol=1e-12)
        fv, psi, gam = oracle.rrp_value(w, S, lam, bud)
        scale = np.sqrt(np.mean(np.diag(S)))
        cx.close(md["objective"], md["psi"] - md["gamma"], "reported objective is psi - gamma", rtol=1e-9, atol=1e-12)
        cx.close(md["objective"], fv, "reported objective is that of the weights", rtol=5e-3, atol=2e-3 * scale)
        tr = mrows
        if md["solver_warning"] is None:
            cx.leq(md["effective_target"], mu @ w, "effective return target is met", tol=2e-6 * max(1, np.abs(mu).max()))
            tr = oracle.add_row(mrows, -mu, -min(md["effective_target"], float(mu @ w)))
        optimal(cx, w, S, lam, bud, tr, "frontier point", column=j)


@scenario(SCN, 260, need=["certified", "equality limits the return"])
def class_equalities(cx):
    """Equality rows beside the implied unit budget bind the parity portfolio and its return limit alike."""
    rng = cx.rng
    n = int(rng.integers(3, 7))
    S = gen.cov(rng, n, scale=float(rng.choice([0.5, 0.2, 0.05])))
    mu = gen.mean(rng, n, S)
    base = np.asarray(use.solve(cx, lambda: RelaxedRiskParity(mu, S).solve()).weights, float)
    w0 = .8 * base + .2 * rng.dirichlet(np.full(n, 3.0))
    r = np.round(rng.normal(size=n), 2)
    if np.ptp(r) < .2 or (S @ w0).min() <= 1e-3 * (S @ w0).max():
        cx.stop("degenerate")
    A, b = r[None, :], np.array([r @ w0])
    if rng.random() < .3:
        A, b = np.vstack([np.ones(n), A]), np.append(1.0, b)
    G = h = None
    rows = model_rows(gen.rows_of({"total_weight": None, "long_only": False, "additional_A_b": [(r, float(r @ w0))]}, n), n)
    if rng.random() < .4:
        G, h = np.eye(n), w0 + rng.uniform(.05, .5, n)
        rows = (np.vstack([rows[0], G]), np.append(rows[1], h), rows[2], rows[3])
    lam = float(rng.choice([0.0, 0.1, 1.0]))
    top = oracle.max_return(mu, rows)[0]
    free = oracle.max_return(mu, (rows[0], rows[1], np.ones((1, n)), np.ones(1)))[0]
    cx.note(mu=mu, S=S, lam=lam, A=A, b=b, G=G, h=h)
    cx.state(n, lam, len(b), G is not None)
    o = RelaxedRiskParity(mu, S, G, h, A, b)
    w = np.asarray(use.solve(cx, lambda: o.solve(lambda_reg=lam)).weights, float)
    use.feasible(cx, rows, w, "parity under equalities", tol=2e-5)
    full = np.full(n, 1.0 / n)
    optimal(cx, w, S, lam, full, rows, "parity under equalities")
    t = float(mu @ w + rng.uniform(.02, 1.2) * (top - mu @ w))
    r_ = use.solve(cx, lambda: o.solve(lambda_reg=lam, return_target=t))
    cx.close(r_.max_return, top, "maximum return", rtol=1e-6, atol=1e-8)
    if free > top + 1e-3 * abs(top):
        cx.event("equality limits the return")
    wt = np.asarray(r_.weights, float)
    use.feasible(cx, rows, wt, "parity under equalities", tol=2e-5)
    cx.leq(r_.target_return, mu @ wt, "effective return target is met", tol=2e-6 * max(1, np.abs(mu).max()))
    optimal(cx, wt, S, lam, full, oracle.add_row(rows, -mu, -min(r_.target_return, float(mu @ wt))), "targeted parity under equalities")


@scenario(SCN, 200)
def class_solver(cx):
    """Low-level solver: regulariser and explicit targets, with and without a minimum target."""
    rng = cx.rng
    n = int(rng.integers(2, 7))
    S = gen.cov(rng, n, scale=float(rng.choice([0.5, 0.2, 0.05])))
    mu = gen.mean(rng, n, S)
    given, bud = budgets_of(rng, n, 0.35)
    lam = float(rng.choice([0.0, 0.1, 1.0, 5.0]))
    o = RelaxedRiskParity(mu, S, risk_budgets=given) if rng.random() < .5 else \
        RelaxedRiskParity(mu, S, *Constraints().to_matrices(n), risk_budgets=given)
    rows = model_rows(gen.rows_of({"total_weight": None, "long_only": False}, n), n)
    cx.note(mu=mu, S=S, lam=lam, budgets=given)
    cx.state(n, lam, given is None)
    r = use.solve(cx, lambda: o.solve(lambda_reg=lam))
    w = np.asarray(r.weights, float)
    optimal(cx, w, S, lam, bud, rows, "class solve")
    cx.close(w.sum(), 1.0, "unit budget implied", atol=1e-5)
    cx.check(r.target_return is None, "no target reported")
    cx.close(r.objective, oracle.rrp_value(w, S, lam, bud)[0], "objective is that of the weights", rtol=5e-3, atol=2e-3 * np.sqrt(np.diag(S).mean()))
    t = float(rng.uniform(mu @ w, mu.max()))
    try:
        r = o.solve(lambda_reg=lam, return_target=t)
    except RuntimeError:
        cx.stop("solver")
    w = np.asarray(r.weights, float)
    cx.close(r.max_return, mu.max(), "maximum return", rtol=1e-7, atol=1e-9)
    cx.leq(r.target_return, mu @ w, "effective return target is met", tol=2e-6 * max(1, np.abs(mu).max()))
    cx.leq(r.target_return, t, "effective target never above the requested one", tol=1e-12)
    if t < mu.max() - 2e-3 * abs(mu.max()) - 1e-7:
        cx.close(r.target_return, t, "attainable target is not lowered", rtol=1e-9)
    optimal(cx, w, S, lam, bud, oracle.add_row(rows, -mu, -min(r.target_return, float(mu @ w))), "class target")
