"""Reference models and optimality certificates (independent of /repo code)."""
from __future__ import annotations

import numpy as np
from scipy.optimize import linprog


def viol(rows, w):
    """Largest constraint violation of w."""
    G, h, A, b = rows
    v = 0.0
    if len(h):
        v = max(v, float(np.max(G @ w - h)))
    if len(b):
        v = max(v, float(np.max(np.abs(A @ w - b))))
    return v


def add_row(rows, row, rhs):
    G, h, A, b = rows
    return np.vstack([G, row]) if len(h) else np.atleast_2d(row), np.append(h, rhs), A, b


def _unit(M, r):
    """Rows scaled to unit norm (HiGHS tolerances are absolute)."""
    if len(r) == 0:
        return M, r
    s = np.linalg.norm(M, axis=1)
    s = np.where(s > 0, s, 1.0)
    return M / s[:, None], np.asarray(r) / s


def lp(c, rows, box=None, center=None):
    """min c'x over rows; optional local box |x-center|<=box. -> (status, x, value)."""
    G, h, A, b = rows
    G, h = _unit(G, h)
    A, b = _unit(A, b)
    n = len(c)
    s = float(np.abs(c).max()) or 1.0
    if s != 1.0:
        st, x, v = lp(np.asarray(c) / s, (G, h, A, b), box, center)
        return st, x, (None if v is None else v * s)
    bounds = [(None, None)] * n
    if box is not None:
        bounds = [(center[i] - box, center[i] + box) for i in range(n)]
    r = linprog(c, G if len(h) else None, h if len(h) else None, A if len(b) else None, b if len(b) else None,
                bounds=bounds, method="highs")
    return r.status, r.x, r.fun


def slack(rows, n, fix_eq=True):
    """Largest uniform slack t (<=1) of the inequalities over the equality set; None if infeasible."""
    G, h, A, b = rows
    if len(h) == 0:
        st, x, _ = lp(np.zeros(n), rows)
        return 1.0 if st == 0 else None
    nrm = np.maximum(np.linalg.norm(G, axis=1), 1e-12)
    Gx = np.hstack([G, nrm[:, None]])
    r = linprog(np.append(np.zeros(n), -1.0), Gx, h,
                np.hstack([A, np.zeros((len(b), 1))]) if len(b) else None, b if len(b) else None,
                bounds=[(None, None)] * n + [(None, 1.0)], method="highs")
    if r.status != 0:
        return None
    return float(r.x[-1])


def max_return(mu, rows):
    st, x, v = lp(-np.asarray(mu), rows)
    return (None if st != 0 else -v), st


def fw_gap(grad, w, rows, box=1.0, cost=None, w0=None):
    """max over feasible v in |v-w|<=box of grad'(w-v) + c|w-w0| - c|v-w0|.

    An upper bound on the suboptimality of w for a convex objective with that
    gradient (plus the separable linear cost), within the local box; zero local
    gap means w is a global optimum.
    """
    n = len(w)
    G, h, A, b = rows
    if cost is None:
        st, x, v = lp(grad, rows, box, w)
        if st != 0:
            return None
        return float(grad @ w - v)
    # variables v, u with u >= |v - w0|
    G, h = _unit(G, h)
    A, b = _unit(A, b)
    sc = float(max(np.abs(grad).max(), np.abs(cost).max())) or 1.0
    grad, cost = grad / sc, cost / sc
    I = np.eye(n)
    Gx = np.vstack([np.hstack([G, np.zeros((len(h), n))]), np.hstack([I, -I]), np.hstack([-I, -I])])
    hx = np.concatenate([h, w0, -w0])
    r = linprog(np.concatenate([grad, cost]), Gx, hx,
                np.hstack([A, np.zeros((len(b), n))]) if len(b) else None, b if len(b) else None,
                bounds=[(w[i] - box, w[i] + box) for i in range(n)] + [(None, None)] * n, method="highs")
    if r.status != 0:
        return None
    return sc * float(grad @ w + cost @ np.abs(w - w0) - r.fun)


def norm_program(mu, S, lam, rows, cost=None, w0=None, cap=None, box=10.0, iters=60, tol=1e-7):
    """Upper bound of max mu'w - lam*sqrt(w'Sw) - c'|w-w0| s.t. rows, sqrt(w'Sw)<=cap.

    Kelley cutting planes with HiGHS: each LP value is a valid upper bound.
    Returns (upper, lower, w_best, status).
    """
    n = len(mu)
    G, h, A, b = rows
    cost = np.zeros(n) if cost is None else cost
    w0 = np.zeros(n) if w0 is None else w0
    I = np.eye(n)
    m = len(h)
    # variables: w (n), u (n), t
    base = np.vstack([np.hstack([G, np.zeros((m, n + 1))]),
                      np.hstack([I, -I, np.zeros((n, 1))]),
                      np.hstack([-I, -I, np.zeros((n, 1))])])
    hb = np.concatenate([h, w0, -w0])
    Aeq = np.hstack([A, np.zeros((len(b), n + 1))]) if len(b) else None
    c = np.concatenate([-mu, cost, [lam]])
    cuts = []
    best, wb, ub = -np.inf, None, np.inf
    bounds = [(-box, box)] * n + [(0, None)] * n + [(0, cap)]
    for _ in range(iters):
        M = np.vstack([base] + cuts) if cuts else base
        r = linprog(c, M, np.concatenate([hb, np.zeros(len(cuts))]), Aeq, b if len(b) else None, bounds=bounds, method="highs")
        if r.status == 2:
            return None, best, wb, "infeasible"
        if r.status != 0:
            return None, best, wb, f"lp{r.status}"
        w = r.x[:n]
        ub = -r.fun
        s = float(np.sqrt(max(w @ S @ w, 0.0)))
        val = mu @ w - lam * s - cost @ np.abs(w - w0)
        if (cap is None or s <= cap + 1e-9) and val > best:
            best, wb = val, w
        if s - r.x[-1] <= tol * max(1.0, s) or ub - best <= tol:
            break
        if s <= 0:
            break
        g = S @ w / s
        cuts.append(np.concatenate([g, np.zeros(n), [-1.0]]))
    return ub, best, wb, "ok"


def cvar(losses, p, alpha):
    """Textbook CVaR of a discrete loss: mean of the worst alpha probability mass (atoms split)."""
    losses = np.asarray(losses, float)
    order = np.argsort(-losses, kind="stable")
    l, q = losses[order], np.asarray(p, float)[order]
    left, acc = alpha, 0.0
    for li, qi in zip(l, q):
        take = min(qi, left)
        acc += take * li
        left -= take
        if left <= 0:
            break
    if left > 1e-15 and left < alpha:  # rounding of the total mass
        acc += left * l[-1]
    return acc / alpha


def var_interval(losses, p, conf, eps=1e-9):
    """[lo, hi] of admissible VaR values: the conf-quantile of losses, blurred by eps in probability."""
    order = np.argsort(losses, kind="stable")
    l, q = np.asarray(losses, float)[order], np.asarray(p, float)[order]
    cum = np.cumsum(q)
    i = int(np.searchsorted(cum, conf - eps, side="left"))
    j = int(np.searchsorted(cum, conf + eps, side="left"))
    return l[min(i, len(l) - 1)], l[min(j, len(l) - 1)]


def cvar_program(R, p, alpha, rows, mu=None, target=None, cost=None, w0=None):
    """Reference Rockafellar-Uryasev LP with HiGHS -> (status, w, value)."""
    T, n = R.shape
    G, h, A, b = rows
    K = 20.0 / max(float(np.abs(R).max()), 1e-9)  # HiGHS' tolerances are absolute: small returns are solved in larger units
    R = R * K
    mu = None if mu is None else np.asarray(mu, float) * K
    target = None if target is None else target * K
    cost = None if cost is None else np.asarray(cost, float) * K
    keep = p > 0
    R, p = R[keep], p[keep]
    T = len(p)
    use_cost = cost is not None
    nu = n if use_cost else 0
    c = np.concatenate([np.zeros(n), [1.0], p / alpha, cost if use_cost else np.zeros(0)])
    rowsG = [np.hstack([G, np.zeros((len(h), 1 + T + nu))])] if len(h) else []
    hh = [h] if len(h) else []
    # -R w - v - z <= 0
    rowsG.append(np.hstack([-R, -np.ones((T, 1)), -np.eye(T), np.zeros((T, nu))]))
    hh.append(np.zeros(T))
    if target is not None:
        rowsG.append(np.hstack([-np.asarray(mu)[None, :], np.zeros((1, 1 + T + nu))]))
        hh.append(np.array([-target]))
    if use_cost:
        I = np.eye(n)
        Z = np.zeros((n, 1 + T))
        rowsG += [np.hstack([I, Z, -I]), np.hstack([-I, Z, -I])]
        hh += [w0, -w0]
    r = linprog(c, np.vstack(rowsG), np.concatenate(hh),
                np.hstack([A, np.zeros((len(b), 1 + T + nu))]) if len(b) else None, b if len(b) else None,
                bounds=[(None, None)] * (n + 1) + [(0, None)] * T + [(None, None)] * nu, method="highs")
    if r.status != 0:
        return r.status, None, None
    return 0, r.x[:n], float(r.fun) / K


def erc(S, budgets, iters=500):
    """Risk-budget portfolio by damped Newton on the log-barrier formulation."""
    n = len(budgets)
    x = budgets / np.sqrt(np.diag(S))
    x = x / np.sqrt(x @ S @ x)
    for _ in range(iters):
        g = S @ x - budgets / x
        if np.max(np.abs(g * x)) < 1e-14:
            break
        H = S + np.diag(budgets / x**2)
        d = np.linalg.solve(H, -g)
        t = 1.0
        while np.any(x + t * d <= 0):
            t *= 0.5
        f0 = 0.5 * x @ S @ x - budgets @ np.log(x)
        while t > 1e-12:
            y = x + t * d
            if 0.5 * y @ S @ y - budgets @ np.log(y) <= f0 + 1e-4 * t * (g @ d):
                break
            t *= 0.5
        x = x + t * d
    return x / x.sum()


def rrp_value(w, S, lam, budgets):
    """Closed-form relaxed risk-parity objective: (psi - gamma, psi, gamma)."""
    n = len(w)
    z = S @ w
    psi = np.sqrt(max(w @ z, 0.0) / n + lam * (np.diag(S) @ w**2))
    gam = np.sqrt(max(0.0, float(np.min(np.maximum(w, 0) * np.maximum(z, 0) / (n * budgets)))))
    return psi - gam, psi, gam


def rrp_program(S, lam, budgets, rows, start, iters=60, tol=1e-6):
    """Bracket of min psi(w) - gamma(w) over rows, w >= 0, Sw >= 0 by cutting planes.

    psi is convex and every sqrt(w_i (Sw)_i) is concave, so linearisations give
    valid lower bounds. Returns (lower, best, w_best) or None.
    """
    n = len(start)
    s = float(np.mean(np.diag(S)))
    S = S / s
    sc = np.sqrt(s)
    G, h, A, b = rows
    G, h = _unit(G, h)
    A, b = _unit(A, b)
    Z2 = np.zeros((len(h), 2))
    base = [np.hstack([G, Z2])] if len(h) else []
    hb = [h] if len(h) else []
    base.append(np.hstack([-S, np.zeros((n, 2))]))
    hb.append(np.zeros(n))
    Aeq = np.hstack([A, np.zeros((len(b), 2))]) if len(b) else None
    c = np.append(np.zeros(n), [1.0, -1.0])
    cuts, rhs = [], []
    best, wb, lb = np.inf, None, -np.inf
    D = np.diag(S)

    def add(w):
        w = np.maximum(w, 1e-9)
        z = np.maximum(S @ w, 1e-9)
        psi = np.sqrt(w @ S @ w / n + lam * (D @ w**2))
        g = (S @ w / n + lam * D * w) / max(psi, 1e-12)
        cuts.append(np.append(g, [-1.0, 0.0]))  # g'v <= t (positively homogeneous)
        rhs.append(0.0)
        q = np.sqrt(w * z / (n * budgets))
        for i in range(n):
            row = S[i] * (w[i] / (2 * q[i] * n * budgets[i]))
            row[i] += z[i] / (2 * q[i] * n * budgets[i])
            # gamma <= row'v (homogeneous); valid only where z is exact
            cuts.append(np.append(-row, [0.0, 1.0]))
            rhs.append(0.0)

    add(start)
    for _ in range(iters):
        r = linprog(c, np.vstack(base + cuts), np.concatenate(hb + [np.array(rhs)]), Aeq, b if len(b) else None,
                    bounds=[(0, None)] * n + [(0, None), (0, None)], method="highs")
        if r.status != 0:
            return None
        w = r.x[:n]
        lb = max(lb, r.fun)
        f = rrp_value(w, S, lam, budgets)[0]
        if f < best:
            best, wb = f, w
        if best - lb <= tol:
            break
        # damped query point stabilises the cuts
        add(w)
        if wb is not None:
            m = 0.5 * (w + wb)
            f = rrp_value(m, S, lam, budgets)[0]
            if f < best:
                best, wb = f, m
            add(m)
    return lb * sc, best * sc, wb
