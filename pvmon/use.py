"""Drives the real pyvallocation API: problem builders and portfolio producers."""
from __future__ import annotations

import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import (AssetsDistribution, Constraints, InfeasibleOptimizationError, PortfolioWrapper,
                           TransactionCosts)

from . import gen, oracle

FEAS = 5e-6  # solver feasibility tolerance (CVXOPT feastol 1e-7, relative)


def to_con(rng, s):
    return Constraints(**s) if rng.random() < 0.5 else dict(s)


def solve(cx, fn, why="solver"):
    """Run a solve; numerical solver failures end the case (their frequency is P02's subject)."""
    try:
        return fn()
    except RuntimeError as e:
        cx.event("solver_error:" + str(e)[:40])
        cx.stop(why)


def wvec(w, names):
    """Weights as a plain vector in the order of `names`, checking the labels."""
    if isinstance(w, pd.Series):
        v = w.to_numpy(float)
    else:
        v = np.asarray(w, float)
    return v.ravel()


def moment_wrapper(rng, names, mu, S, con=None, costs=None, **kw):
    m, C = gen.arr_or_frame(rng, names, mu, S)
    if rng.random() < 0.5 and "return_type" not in kw:
        return PortfolioWrapper(AssetsDistribution(mu=m, cov=C), constraints=con, costs=costs)
    return PortfolioWrapper.from_moments(m, C, constraints=con, costs=costs, **kw)


def scenario_wrapper(rng, names, R, p=None, con=None, costs=None, **kw):
    scen = pd.DataFrame(R, columns=names) if names is not None else R
    pp = p
    if p is not None and rng.random() < 0.3:
        pp = p * gen.mass(rng)  # unnormalised weights are accepted and normalised
    return PortfolioWrapper.from_scenarios(scen, probabilities=pp, constraints=con, costs=costs, **kw)


def feasible(cx, rows, W, what, tol=FEAS, **data):
    """Monitor: every column of W satisfies the independently read constraint rows."""
    W = np.asarray(W, float)
    W = W[:, None] if W.ndim == 1 else W
    cx.check(np.isfinite(W).all(), f"{what} weights finite", W=W, **data)
    for k in range(W.shape[1]):
        w = W[:, k]
        v = oracle.viol(rows, w)
        cx.check(v <= tol * max(1.0, np.abs(w).max()), f"{what} satisfies all declared constraints", violation=v,
                 w=w, column=k, **data)
        if len(rows[1]):
            act = int(np.sum(rows[0] @ w > rows[1] - 1e-5))
            cx.event("active_rows", act)
            if act:
                cx.event("points_with_active_rows")
    cx.event("points", W.shape[1])


ROUTES = ["plain", "moments", "log moments", "scenarios", "log scenarios", "prices", "invariants", "posterior"]


def route(rng, kind, names, R, **kw):
    """A wrapper on the market of the panel R, built through one of the public constructors."""
    T, n = R.shape
    mu, S = R.mean(0), np.cov(R.T, bias=True).reshape(n, n)
    fr = (lambda X: pd.DataFrame(X, columns=names)) if names is not None else (lambda X: X)
    if kind == "plain":
        return PortfolioWrapper(AssetsDistribution(scenarios=fr(R)), **kw)
    if kind in ("moments", "log moments"):
        m, C = gen.arr_or_frame(rng, names, mu, S)
        return PortfolioWrapper.from_moments(m, C, **({"return_type": "log"} if kind[0] == "l" else {}), **kw)
    if kind == "scenarios":
        return PortfolioWrapper.from_scenarios(fr(R), **kw)
    if kind == "log scenarios":
        return PortfolioWrapper.from_scenarios(fr(R), return_type="log", **kw)
    if kind == "prices":
        return PortfolioWrapper.from_prices(fr(100.0 * np.vstack([np.ones(n), np.cumprod(1 + R, axis=0)])), **kw)
    if kind == "invariants":
        return PortfolioWrapper.from_invariants(fr(R), n_simulations=60, seed=int(rng.integers(1000)), **kw)
    m, C = gen.arr_or_frame(rng, names, mu, S)
    U = gen.arr_or_frame(rng, names, mu, S / T)[1]
    post = pv.RobustBayesPosterior(mu=m, sigma=C, s_mu=U)
    return PortfolioWrapper.from_robust_posterior(post, **({"annualization_factor": 3.0} if rng.random() < .5 else {}), **kw)
