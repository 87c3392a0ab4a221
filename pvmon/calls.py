"""A table of realistic calls covering the whole public API.

Every entry builds caller-owned arguments (plain data in random containers) and a
function that executes the real library on them.  P31, P32 and P34 drive it:
snapshots of the arguments, repetition after arbitrary histories, corruption.
"""
from __future__ import annotations

import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import (AssetsDistribution, Constraints, MeanCVaR, MeanVariance, PortfolioWrapper, RelaxedRiskParity, RobustBayesPosterior,
                           RobustOptimizer, TransactionCosts)
from pyvallocation.bayesian import NIWPosterior, chi2_quantile
from pyvallocation import discrete_allocation as da
from pyvallocation import ensembles as en
from pyvallocation import moments as mo
from pyvallocation import plotting as pl
from pyvallocation import probabilities as pr
from pyvallocation import stress as st
from pyvallocation import views as vw
from pyvallocation.utils import constraints as uc
from pyvallocation.utils import data_helpers as dh
from pyvallocation.utils import functions as fu
from pyvallocation.utils import performance as pf
from pyvallocation.utils import projection as pj
from pyvallocation.utils import validation as va
from pyvallocation.utils import weights as we

from . import gen

TABLE = {}


class Call:
    def __init__(self, name, args, fn, owned=(), skip=()):
        self.name, self.args, self.fn, self.skip = name, args, fn, set(skip)

    def __call__(self, args=None):
        return self.fn(**(self.args if args is None else args))


def entry(fn):
    TABLE[fn.__name__] = fn
    return fn


def build(rng, name=None, shape=None):
    name = name or str(rng.choice(sorted(TABLE)))
    args, fn, *skip = TABLE[name](World(rng, shape))
    return Call(name, args, fn, skip=skip[0] if skip else ())


class World:
    """One random market in random containers."""

    def __init__(self, rng, shape=None):
        self.rng = rng
        self.n = n = int(rng.integers(3, 6)) if shape is None else shape[0]
        self.T = T = int(rng.integers(24, 50)) if shape is None else shape[1]
        self.lab = bool(rng.random() < .6) if shape is None else shape[2] is not None
        self.names = (gen.labels(rng, n, "str") if shape is None else list(shape[2])) if self.lab else None
        self.ix = [f"o{i}" for i in range(T)]
        self.R_ = gen.panel(rng, T, n, scale=.03, kind=str(rng.choice(["t", "normal", "skew", "regime"])))
        self.mu_, self.S_ = None, None
        S = gen.cov(rng, n, scale=.2)
        self.S_, self.mu_ = S, gen.mean(rng, n, S, kind="positive")
        self.U_ = gen.cov(rng, n, scale=.05)
        self.p_ = gen.probs(rng, T, kind=str(rng.choice(["dirichlet", "decay", "counts"])))
        self.w_ = rng.dirichlet(np.full(n, 2.0))
        self.con_ = gen.spec(rng, n, budget=1.0, long_only=bool(rng.random() < .7), eq=False)[0]

    # containers ---------------------------------------------------------
    def vec(self, v):
        v = np.array(v, float)
        return pd.Series(v, index=list(self.names)) if self.lab else v

    def mat(self, M):
        M = np.array(M, float)
        return pd.DataFrame(M, index=list(self.names), columns=list(self.names)) if self.lab else M

    def panel(self, R=None):
        R = np.array(self.R_ if R is None else R, float)
        return pd.DataFrame(R, columns=list(self.names), index=list(self.ix)[: len(R)]) if self.lab else R

    def prob(self):
        return self.p_.copy() if self.rng.random() < .6 else pd.Series(self.p_.copy())

    mu = property(lambda s: s.vec(s.mu_))
    S = property(lambda s: s.mat(s.S_))
    U = property(lambda s: s.mat(s.U_))
    R = property(lambda s: s.panel())
    p = property(lambda s: s.prob())
    w = property(lambda s: s.vec(s.w_))

    def con(self):
        import copy
        c = copy.deepcopy(self.con_)
        return Constraints(**c) if self.rng.random() < .5 else c

    def costs(self):
        c = lambda lo, hi: self.vec(self.rng.uniform(lo, hi, self.n))
        return {"initial_weights": self.vec(self.rng.dirichlet(np.ones(self.n))), "market_impact_costs": c(0, .2), "proportional_costs": c(0, .01)}

    def seed(self):
        return int(self.rng.integers(1 << 30))

    def frontier(self, num=5):
        return PortfolioWrapper(AssetsDistribution(mu=self.mu, cov=self.S)).variance_frontier(num)

    def samples(self, M=None):
        M = M or int(self.rng.integers(3, 7))
        W = self.rng.dirichlet(np.ones(self.n), M).T
        return pd.DataFrame(W, index=list(self.names), columns=[f"s{i}" for i in range(M)]) if self.lab else W

    def key(self, i):
        return self.names[i] if self.lab else str(i)


# ------------------------------------------------------------------ optimisers
def _rows(c, n):
    c = c if isinstance(c, Constraints) else Constraints(**c)
    return c.to_matrices(n)


@entry
def mean_variance_class(W):
    G, h, A, b = _rows(W.con(), W.n)
    num = int(W.rng.integers(2, 6))

    def fn(mu, S, G, h, A, b, w0, imp):
        o = MeanVariance(mu, S, G, h, A, b, initial_weights=w0, market_impact_costs=imp)
        return o.efficient_frontier(num), o.efficient_portfolio()
    return dict(mu=W.mu_.copy(), S=W.S_.copy(), G=G, h=h, A=A, b=b, w0=W.w_.copy(), imp=W.rng.uniform(0, .2, W.n)), fn


@entry
def max_sharpe_class(W):
    G, h, A, b = _rows({"long_only": True, "total_weight": 1.0, "bounds": (0.0, .8)}, W.n)
    return dict(mu=W.mu_.copy(), S=W.S_.copy(), G=G, h=h, A=A, b=b), lambda mu, S, G, h, A, b: MeanVariance(mu, S, G, h, A, b).max_sharpe(0.0)


@entry
def mean_cvar_class(W):
    G, h, A, b = _rows(W.con(), W.n)

    def fn(R, p, G, h, A, b, w0, c):
        o = MeanCVaR(R, p, alpha=.1, G=G, h=h, A=A, b=b, initial_weights=w0, proportional_costs=c)
        return o.efficient_frontier(3), o.efficient_portfolio()
    return dict(R=W.R_.copy(), p=W.p_.copy(), G=G, h=h, A=A, b=b, w0=W.w_.copy(), c=W.rng.uniform(0, .01, W.n)), fn


@entry
def robust_class(W):
    G, h, A, b = _rows(W.con(), W.n)

    def fn(mu, U, G, h, A, b, lambdas):
        o = RobustOptimizer(expected_return=mu, uncertainty_cov=U, G=G, h=h, A=A, b=b)
        return o.efficient_frontier(lambdas), o.solve_lambda_variant(.5)
    return dict(mu=W.mu_.copy(), U=W.U_.copy(), G=G, h=h, A=A, b=b, lambdas=[0.0, .5, 1.0]), fn


@entry
def risk_parity_class(W):
    G, h, A, b = _rows({"long_only": True, "total_weight": 1.0}, W.n)
    return (dict(mu=W.mu_.copy(), S=W.S_.copy(), G=G, h=h, A=A, b=b, budgets=W.rng.dirichlet(np.full(W.n, 5.0))),
            lambda mu, S, G, h, A, b, budgets: RelaxedRiskParity(mu, S, G, h, A, b, risk_budgets=budgets).solve())


# ------------------------------------------------------------------ wrapper
def _mom(W):
    return dict(mu=W.mu, S=W.S, con=W.con())


def _pw(mu, S, con, costs=None):
    return PortfolioWrapper.from_moments(mu, S, constraints=con, costs=TransactionCosts(**costs) if isinstance(costs, dict) else costs)


@entry
def variance_frontier(W):
    num = int(W.rng.integers(2, 7))
    return _mom(W), lambda mu, S, con: _pw(mu, S, con).variance_frontier(num)


@entry
def variance_frontier_costs(W):
    return dict(_mom(W), costs=W.costs()), lambda mu, S, con, costs: _pw(mu, S, con, costs).variance_frontier(4)


@entry
def variance_frontier_call_overrides(W):
    return (dict(mu=W.mu, S=W.S, con=W.con(), costs=W.costs()),
            lambda mu, S, con, costs: PortfolioWrapper.from_moments(mu, S).variance_frontier(4, constraints=con, costs=TransactionCosts(**costs)))


@entry
def variance_frontier_log(W):
    return dict(mu=W.mu, S=W.S, con=W.con()), lambda mu, S, con: PortfolioWrapper.from_moments(mu, S, return_type="log", constraints=con).variance_frontier(4)


@entry
def min_variance_at_return(W):
    return _mom(W), lambda mu, S, con: (lambda w: w.min_variance_at_return(float(w.variance_frontier(3).returns[1])))(_pw(mu, S, con))


@entry
def robust_frontier(W):
    return dict(_mom(W), U=W.U, lambdas=[0.0, .4, 1.2]), lambda mu, S, con, U, lambdas: _pw(mu, S, con).robust_lambda_frontier(lambdas=lambdas, return_cov=U)


@entry
def robust_frontier_costs(W):
    return dict(_mom(W), costs=W.costs()), lambda mu, S, con, costs: _pw(mu, S, con, costs).robust_lambda_frontier(3, 1.0)


@entry
def robust_gamma(W):
    return _mom(W), lambda mu, S, con: _pw(mu, S, con).solve_robust_gamma_portfolio(.4, 4.0)


@entry
def parity(W):
    return dict(mu=W.mu, S=W.S, budgets=W.rng.dirichlet(np.full(W.n, 5.0))), \
        lambda mu, S, budgets: PortfolioWrapper.from_moments(mu, S).relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=.2, target_multiplier=1.1, risk_budgets=budgets)


@entry
def parity_frontier(W):
    return dict(mu=W.mu, S=W.S, mult=[1.0, 1.2]), lambda mu, S, mult: PortfolioWrapper.from_moments(mu, S).relaxed_risk_parity_frontier(lambda_reg=.1, target_multipliers=mult)


@entry
def scenario_frontiers(W):
    def fn(R, p, con, costs):
        w = PortfolioWrapper.from_scenarios(R, probabilities=p, constraints=con, costs=TransactionCosts(**costs))
        return w.cvar_frontier(3, alpha=.1), w.variance_frontier(3)
    return dict(R=W.R, p=W.p, con=W.con(), costs=W.costs()), fn


@entry
def log_scenarios(W):
    return dict(R=W.R, p=W.p), lambda R, p: PortfolioWrapper.from_scenarios(R, probabilities=p, return_type="log").cvar_frontier(3, alpha=.2)


@entry
def min_cvar(W):
    return dict(R=W.R, p=W.p, con=W.con()), lambda R, p, con: (lambda w: w.min_cvar_at_return(float(w.cvar_frontier(3).returns[-1]) - 1e-4))(PortfolioWrapper.from_scenarios(R, probabilities=p, constraints=con))


@entry
def prices(W):
    P = 100 * np.vstack([np.ones(W.n), np.cumprod(1 + W.R_, 0)])
    P = pd.DataFrame(P, columns=list(W.names), index=pd.bdate_range("2020-01-01", periods=len(P))) if W.lab else P
    return dict(P=P, con=W.con()), lambda P, con: PortfolioWrapper.from_prices(P, constraints=con).variance_frontier(3)


@entry
def from_invariants(W):
    seed = W.seed()
    rp = {}
    if W.lab:
        rp = {"x": ([W.names[0], W.names[1]], lambda d: np.asarray(d).sum(1)), "y": ([W.names[2]], np.expm1)}
    return (dict(X=W.R, p=W.p, reprice=rp),
            lambda X, p, reprice: PortfolioWrapper.from_invariants(X, horizon=3, n_simulations=40, p=p, seed=seed, **({"reprice": reprice} if reprice else {})).variance_frontier(3))


@entry
def from_posterior(W):
    return (dict(mu=W.mu, S=W.S, U=W.U, con=W.con()),
            lambda mu, S, U, con: PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(mu=mu, sigma=S, s_mu=U), constraints=con, annualization_factor=1.5).robust_lambda_frontier(3))


@entry
def distribution(W):
    def fn(mu, S, R, p):
        d = AssetsDistribution(mu=mu, cov=S, scenarios=R, probabilities=p)
        w = PortfolioWrapper(d)
        return w.variance_frontier(3), w.cvar_frontier(3, alpha=.1), d.N
    return dict(mu=W.mu, S=W.S, R=W.R, p=W.p), fn


@entry
def selectors(W):
    f = W.frontier(6)

    def fn(f):
        t = float(np.median(f.risks))
        return (f.min_risk(), f.max_return(), f.tangency(0.0), f.at_risk(t), f.at_return(float(f.returns[2])), f.closest_risk(t), f.risk_percentiles(),
                f.at_percentile(.5), f.to_frame(), f.to_samples(), f.available_risk_measures())
    return dict(f=f), fn


@entry
def frontier_discrete(W):
    f = W.frontier(4)
    px = pd.Series(W.rng.uniform(5, 50, W.n), index=list(W.names) if W.lab else [f"Asset_{i}" for i in range(W.n)])
    return dict(f=f, px=px), lambda f, px: f.as_discrete_allocation(1, px, 1e4)


# ------------------------------------------------------------------ ensembles
@entry
def averages(W):
    s = W.samples()
    M = np.asarray(s).shape[1]
    v = W.rng.dirichlet(np.ones(M))
    return dict(s=s, v=pd.Series(v, index=list(s.columns)) if W.lab else v), lambda s, v: (en.average_exposures(s, weights=v), en.average_exposures(s))


@entry
def stacking(W):
    return dict(s=W.samples(), opts={"maxiters": 80}), lambda s, opts: en.exposure_stacking(s, L=3, solver_options=opts)


@entry
def frontier_combinations(W):
    a, b = W.frontier(4), W.frontier(5)
    return (dict(fs=[a, b], sel=[[2], [1]], ew=[.4, .6]),
            lambda fs, sel, ew: (en.average_frontiers(fs, sel, ensemble_weights=ew), en.exposure_stack_frontiers(fs, 2, sel), en.risk_percentile_selections(fs, .3),
                                 en.stack_portfolios(fs, selections=sel, L=2)))


@entry
def assembled(W):
    R = pd.DataFrame(W.R_, columns=gen.labels(W.rng, W.n, "str"))
    sel = str(W.rng.choice(["tangency", "min_risk", "max_return", "risk_percentile", "index", "max_return_subject_to_risk", "risk_match"]))
    sk = {"tangency": {"risk_free_rate": 0.0}, "min_risk": {"risk_label": None}, "risk_percentile": {"percentile": .4, "risk_label": None}, "index": {"index": 1},
          "max_return_subject_to_risk": {"max_risk": 5.0, "risk_label": None}, "risk_match": {"target_risk": .02}}.get(sel, {})
    mk, ck, meta = {"target": "grand_mean"}, {"assume_centered": True}, {"note": ["a", 1]}
    ok = {"num_portfolios": 4, "constraints": {"long_only": True, "total_weight": 1.0, "bounds": [(0.0, .95)] * W.n}}
    proj = {"annualization_factor": 12.0, "log_to_simple": True}

    def fn(R, p, mk, ck, ok, sk, meta, proj):
        specs = [en.make_portfolio_spec("mv", returns=R, mean_estimator="james_stein", cov_estimator="oas", mean_kwargs=mk, cov_kwargs=ck, optimiser_kwargs=ok, selector=sel, selector_kwargs=sk, metadata=meta),
                 en.make_portfolio_spec("cv", returns=R, probabilities=p, use_scenarios=True, optimiser="cvar", optimiser_kwargs=ok, selector="min_risk"),
                 en.make_portfolio_spec("lw", returns=R, cov_estimator="oas", projection=proj, optimiser_kwargs=ok, selector="max_return")]
        r = en.assemble_portfolio_ensemble(specs, ensemble=("average", "stack"), stack_folds=2)
        return r.selections, r.average, r.stacked, r.frontiers
    return dict(R=R, p=W.p_.copy(), mk=mk, ck=ck, ok=ok, sk=sk, meta=meta, proj=proj), fn


@entry
def wrapper_ensemble(W):
    ok, sk = {"num_portfolios": 4}, {}

    def fn(mu, S, ok, sk):
        w = PortfolioWrapper.from_moments(mu, S)
        specs = [w.make_ensemble_spec("a", optimiser_kwargs=ok, selector="min_risk", selector_kwargs=sk), w.make_ensemble_spec("b", optimiser="rrp", optimiser_kwargs={"num_portfolios": 3}, selector="max_return")]
        r = w.assemble_ensembles(specs, ensemble="average")
        return r.selections, r.average
    return dict(mu=W.mu, S=W.S, ok=ok, sk=sk), fn


# ------------------------------------------------------------------ estimators
def _est(name, make):
    def e(W):
        return make(W)
    e.__name__ = name
    entry(e)


_est("sample_moments", lambda W: (dict(R=W.R, p=W.p_.copy()), lambda R, p: mo.estimate_sample_moments(R, p)))
_est("jorion", lambda W: (dict(mu=W.mu, S=W.S), lambda mu, S: mo.shrink_mean_jorion(mu, S, 60)))
_est("james_stein", lambda W: (dict(mu=W.mu, S=W.S, target=W.vec(np.zeros(W.n))), lambda mu, S, target: mo.shrink_mean_james_stein(mu, S, 60, target=target)))
_est("ledoit_wolf", lambda W: (dict(R=W.R, S=W.S), lambda R, S: mo.shrink_covariance_ledoit_wolf(R, S, target="constant_correlation")))
_est("oas", lambda W: (dict(R=W.R), lambda R: mo.shrink_covariance_oas(R)))
_est("nls", lambda W: (dict(R=W.R), lambda R: mo.shrink_covariance_nls(R)))
_est("poet", lambda W: (dict(R=W.R), lambda R: mo.factor_covariance_poet(R, return_decomp=True)))
_est("tyler", lambda W: (dict(R=W.R, t=W.S), lambda R, t: mo.robust_covariance_tyler(R, shrinkage=.2, target=t)))
_est("ewma", lambda W: (dict(R=W.R), lambda R: mo.covariance_ewma(R, span=10)))
_est("glasso", lambda W: (dict(R=W.R), lambda R: mo.sparse_precision_glasso(R, return_precision=True)))
_est("huber", lambda W: (dict(R=W.R), lambda R: mo.robust_mean_huber(R)))
_est("median_of_means", lambda W: (lambda s: (dict(R=W.R), lambda R: mo.robust_mean_median_of_means(R, n_blocks=5, random_state=s)))(W.seed()))
@entry
def estimate_moments(W):
    m = str(W.rng.choice(["sample", "jorion", "james_stein", "huber", "median_of_means"]))
    c = str(W.rng.choice(["sample", "ledoit_wolf", "oas", "nls", "poet", "tyler", "glasso", "ewma"]))
    mk = {"james_stein": {"target": W.vec(np.zeros(W.n))}, "huber": {"tol": 1e-7}, "median_of_means": {"n_blocks": 4, "random_state": 3}}.get(m, {})
    ck = {"ledoit_wolf": {"target": "constant_correlation"}, "oas": {"assume_centered": False}, "poet": {"k": 1, "return_decomp": True}, "tyler": {"shrinkage": .3, "target": W.S},
          "glasso": {"return_precision": True}, "ewma": {"span": 9}}.get(c, {})
    return dict(R=W.R, p=W.p_.copy(), mk=mk, ck=ck), lambda R, p, mk, ck: mo.estimate_moments(R, p, mean_estimator=m, cov_estimator=c, mean_kwargs=mk, cov_kwargs=ck)


_est("posterior_bl", lambda W: (dict(S=W.S, mu=W.mu, v={W.key(0) if W.lab else 0: .05}, c=[.4]),
                                lambda S, mu, v, c: mo.posterior_moments_black_litterman(prior_cov=S, prior_mean=mu, mean_views=v, view_confidences=c)))
_est("posterior_niw", lambda W: (dict(m0=W.mu, S0=W.S, m1=W.vec(W.mu_ * 1.1), S1=W.mat(W.S_ * .9)),
                                 lambda m0, S0, m1, S1: mo.posterior_moments_niw_with_uncertainty(prior_mu=m0, prior_sigma=S0, t0=20, nu0=30, sample_mu=m1, sample_sigma=S1, n_obs=50)))


@entry
def niw(W):
    def fn(m0, S0, m1, S1):
        q = NIWPosterior(m0, S0, 20, 30)
        q.update(m1, S1, 50)
        return q.get_mu_ce(), q.get_sigma_ce(), q.get_S_mu(), q.cred_radius_mu(.9), q.cred_radius_sigma_factor(.9)
    return dict(m0=W.mu, S0=W.S, m1=W.vec(W.mu_ * 1.1), S1=W.mat(W.S_ * .9)), fn


@entry
def robust_posterior(W):
    def fn(m0, S0, m1, S1):
        q = RobustBayesPosterior.from_niw(prior_mu=m0, prior_sigma=S0, t0=20, nu0=30, sample_mu=m1, sample_sigma=S1, n_obs=50)
        return q.mu, q.sigma, q.s_mu, q.sigma1, q.cred_radius_mu(), q.mean_uncertainty_cov_simple(annualization_factor=2.0, exact=True), q.mean_uncertainty_cov_log(annualization_factor=2.0)
    return dict(m0=W.mu, S0=W.S, m1=W.vec(W.mu_ * 1.1), S1=W.mat(W.S_ * .9)), fn


_est("chi2_quantiles", lambda W: (lambda p, k: (dict(), lambda: [chi2_quantile(p, k), chi2_quantile(p, k, sqrt=True)]))(float(W.rng.choice([.1, .5, .9])), int(W.rng.integers(1, 9))))


# ------------------------------------------------------------------ views
@entry
def entropy_pooling(W):
    q = W.p_ * np.exp(W.rng.normal(0, .3, W.T))
    q /= q.sum()
    A = np.vstack([W.R_.T, np.ones(W.T)])
    G = W.R_[:, :1].T ** 2
    return dict(p=W.p_.copy(), A=A, b=np.append(W.R_.T @ q, 1.0), G=G, h=G @ q + .001), lambda p, A, b, G, h: vw.entropy_pooling(p, A, b, G, h)


@entry
def flexible_views(W):
    q = W.p_ * np.exp(W.rng.normal(0, .3, W.T))
    q /= q.sum()
    m = q @ W.R_
    v = q @ W.R_ ** 2 - (W.p_ @ W.R_) ** 2
    mv = {W.key(0): float(m[0]), (W.key(1), W.key(2)): ("<=", float(m[1] - m[2]) + .001)}
    vv = {W.key(1): float(np.sqrt(max(v[1], 1e-8)))}
    seq = bool(W.rng.random() < .5)

    def fn(X, p, mv, vv, rank):
        f = vw.FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p, mean_views=mv, vol_views=vv if seq else None, rank_mean=rank, sequential=seq)
        return f.get_posterior_probabilities(), f.get_posterior(), f.get_scenarios()
    o = np.argsort(-m)
    return dict(X=W.R, p=W.p_.copy(), mv=mv, vv=vv, rank=[W.key(int(o[0])), W.key(int(o[-1]))]), fn


@entry
def flexible_views_synthetic(W):
    seed = W.seed()
    mv = {W.key(0): float(W.mu_[0] + .02)}
    return (dict(mu=W.mu, S=W.S, mv=mv), lambda mu, S, mv: (lambda f: (f.get_posterior_probabilities(), f.get_posterior(), f.get_scenarios()))(
        vw.FlexibleViewsProcessor(prior_mean=mu, prior_cov=S, num_scenarios=300, random_state=seed, mean_views=mv)))


@entry
def flexible_views_tail(W):
    x = W.R_[:, 0]
    k = np.sort(x)[max(1, len(x) // 8)]
    return (dict(X=W.R, p=W.p_.copy(), qv={W.key(0): (float(k), .2)}),
            lambda X, p, qv: vw.FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p, mean_views={W.key(1): (">=", float(np.min(W.R_[:, 1])))}).get_posterior_probabilities())


@entry
def black_litterman(W):
    kw = dict(omega="idzorek") if W.rng.random() < .5 else {}
    v = {W.key(0) if W.lab else 0: .06, (W.key(1), W.key(2)) if W.lab else (1, 2): .01}
    c = {k: .5 for k in v}
    return (dict(S=W.S, w=W.w, v=v, c=c),
            lambda S, w, v, c: vw.BlackLittermanProcessor(prior_cov=S, market_weights=w, risk_aversion=2.0, mean_views=v, view_confidences=c if kw else None, **kw).get_posterior())


# ------------------------------------------------------------------ probabilities, risk measures, performance
_est("normalize_probabilities", lambda W: (dict(p=W.p_ * 1.7), lambda p: pr.normalize_probability_vector(p)))
_est("resolve_probabilities", lambda W: (dict(p=W.p_ * .7), lambda p: pr.resolve_probabilities(p, W.T)))
_est("kernel_probabilities", lambda W: (dict(x=W.R_[:, 0].copy(), v=W.R_[:, 1].copy()), lambda x, v: (pr.generate_gaussian_kernel_probabilities(x), pr.generate_gaussian_kernel_probabilities(x, v, h=.05), pr.silverman_bandwidth(x))))
_est("decay_probabilities", lambda W: (dict(), lambda: (pr.generate_exp_decay_probabilities(W.T, 7), pr.generate_uniform_probabilities(W.T))))
_est("effective_scenarios", lambda W: (dict(p=W.p_.copy()), lambda p: (pr.compute_effective_number_scenarios(p), pr.compute_effective_number_scenarios_hhi(p))))
_est("risk_measures", lambda W: (dict(w=W.w, S=W.S, R=W.R, p=W.p_.copy()), lambda w, S, R, p: (
    fu.portfolio_variance(w, S), fu.portfolio_volatility(w, S), fu.portfolio_cvar(np.asarray(w) if not W.lab else w, R, p, confidence=.9, demean=False),
    fu.portfolio_var(np.asarray(w) if not W.lab else w, R, p, confidence=.9, demean=True))))
_est("pnl", lambda W: (dict(w=W.w, s=W.samples(), R=W.R), lambda w, s, R: (pf.scenario_pnl(w, R), pf.scenario_pnl(s, R))))
_est("report", lambda W: (dict(w=W.w, R=W.R, p=W.p), lambda w, R, p: pf.performance_report(w, R, probabilities=p, confidence=.9)))
_est("horizons", lambda W: (lambda s: (dict(w=W.w, R=W.R, p=W.p_.copy(), hs=[4, 2]), lambda w, R, p, hs: pf.horizon_report(w, R, horizons=hs, n_simulations=30, p=p, seed=s)))(W.seed()))
_est("drawdowns", lambda W: (lambda s: (dict(w=W.w, R=W.R, p=W.p_.copy()), lambda w, R, p: pf.drawdown_quantile(w, R, 5, n_paths=20, p=p, seed=s)))(W.seed()))

# ------------------------------------------------------------------ projection, repricing
_est("project_moments", lambda W: (dict(mu=W.mu, S=W.S), lambda mu, S: (pj.project_mean_covariance(mu, S, 12.0), pj.log2simple(mu, S), pj.simple2log(mu, S))))
_est("convert_scenarios", lambda W: (dict(R=W.R), lambda R: (pj.convert_scenarios_compound_to_simple(R), pj.convert_scenarios_simple_to_compound(R))))
_est("project_scenarios", lambda W: (lambda s: (dict(R=W.R, p=W.p_.copy()), lambda R, p: (pj.project_scenarios(R, 3, p=p, n_simulations=25, seed=s), pj.simulate_paths(R, 3, 20, p=p, seed=s))))(W.seed()))
_est("reprice", lambda W: (dict(d=W.R_.copy()), lambda d: (pj.reprice_exp(d), pj.reprice_taylor(d, theta=.01, delta=.5, gamma=.3, tau=.1))))
_est("reprice_fn", lambda W: (dict(y=W.w_.copy(), d=W.R_.copy()), lambda y, d: pj.make_repricing_fn(lambda z: np.exp(np.asarray(z)).sum(axis=-1), y)(d)))


@entry
def composed(W):
    if not W.lab:
        W.names, W.lab = gen.labels(W.rng, W.n, "str"), True
    ins = {"a": ([W.names[1]], np.expm1), "b": ([W.names[2], W.names[0]], lambda d: np.asarray(d) @ np.array([1.0, -2.0]))}
    return dict(ins=ins, cols=list(W.names), d=W.R_.copy()), lambda ins, cols, d: (lambda r: (r[0](d), r[1]))(pj.compose_repricers(ins, cols))


# ------------------------------------------------------------------ stress
_est("stress_test", lambda W: (dict(w=W.w, R=W.R, p=W.p, q=W.prob()), lambda w, R, p, q: st.stress_test(w, R, probabilities=p, stressed_probabilities=q, transform=lambda x: 1.2 * x, confidence=.9)))
_est("decay_stress", lambda W: (dict(w=W.w, R=W.R, p=W.p), lambda w, R, p: st.exp_decay_stress(w, R, probabilities=p, half_life=6)))
_est("kernel_stress", lambda W: (dict(w=W.w, R=W.R, fs=W.R_[:, 0].copy(), p=W.p), lambda w, R, fs, p: st.kernel_focus_stress(w, R, focus_series=fs, probabilities=p, target=float(np.median(fs)) if np.isfinite(fs).all() else 0.0)))
_est("ep_stress", lambda W: (dict(w=W.w, R=W.R, q=W.p), lambda w, R, q: st.entropy_pooling_stress(w, R, posterior_probabilities=q)))
_est("shock_map", lambda W: (dict(R=W.R, m=W.rng.normal(0, .01, W.n), A=np.eye(W.n) + .1), lambda R, m, A: st.linear_map(mean_shift=m, scale=1.3, matrix=A)(np.asarray(R))))


@entry
def stress_invariants(W):
    if not W.lab:
        W.names, W.lab = gen.labels(W.rng, W.n, "str"), True
    seed = W.seed()
    return (dict(X=W.R, w=W.w, v={W.names[0]: (">=", float(W.R_[:, 0].mean()))}),
            lambda X, w, v: st.stress_invariants(X, w, pj.reprice_exp, stress_views=v, horizon=2, n_simulations=40, seed=seed))


# ------------------------------------------------------------------ discrete allocation
def _book(W):
    names = gen.labels(W.rng, W.n, "str")
    return dict(w=pd.Series(W.w_, index=names), px=pd.Series(W.rng.uniform(5, 60, W.n), index=names[::-1]), lots={k: int(W.rng.integers(1, 4)) for k in names})


_est("greedy", lambda W: (_book(W), lambda w, px, lots: da.discretize_weights(w, px, 5e3, method="greedy", lot_sizes=lots)))
_est("mip", lambda W: (_book(W), lambda w, px, lots: da.discretize_weights(w, px, 2e3, method="mip", lot_sizes=lots)))
_est("allocation_input", lambda W: (_book(W), lambda w, px, lots: (lambda i: (da.allocate_greedy(i), da.allocate_mip(i, cash_penalty=.5, max_cash=500.0, solver_options={"mip_rel_gap": 1e-4})))(
    da.DiscreteAllocationInput(w, px, 3e3, lots))))

# ------------------------------------------------------------------ small utilities
_est("validation", lambda W: (dict(S=W.S_.copy(), B=W.S_ - .5 * np.eye(W.n), w=W.w_.copy()), lambda S, B, w: (
    va.is_psd(S), va.ensure_psd_matrix(B), va.ensure_psd_matrix(S), va.check_weights_sum_to_one(w), va.check_non_negativity(w)), ("S", "B", "w")))
_est("constraint_matrices", lambda W: (dict(c=dict(W.con_)), lambda c: (uc.build_G_h_A_b(W.n, **c), Constraints(**c).to_matrices(W.n), Constraints.from_dict(c).to_matrices(W.n))))
_est("weights_helpers", lambda W: (dict(s=W.samples(4), v=[.1, .2, .3, .4]), lambda s, v: (we.ensure_samples_matrix(s), we.normalize_weights(v, 4), we.wrap_exposure_vector(v, list("abcd"), label="x"))))
_est("returns_helper", lambda W: (dict(P=pd.DataFrame(100 * np.cumprod(1 + W.R_, 0), columns=gen.labels(W.rng, W.n, "str"))), lambda P: dh.pandas_to_numpy_returns(P, return_calculation_method="simple")))


# ------------------------------------------------------------------ plotting
def _plot(name, make):
    def e(W):
        args, fn = make(W)

        def run(**a):
            import matplotlib.pyplot as plt
            before = set(plt.get_fignums())
            try:
                fn(**a)
            finally:
                for k in set(plt.get_fignums()) - before:
                    plt.close(k)
        return args, run
    e.__name__ = name
    entry(e)


_plot("plot_frontiers", lambda W: (dict(fs={"a": W.frontier(4), "b": W.frontier(3)}, kw={"lw": 2.0}, mk={"min_risk": {"marker": "x"}}, sc={"s": 30}),
                                   lambda fs, kw, mk, sc: pl.plot_frontiers(fs, highlight=["min_risk", "tangency"], risk_free_rate=0.0, line_kwargs=kw, marker_kwargs=mk, scatter_kwargs=sc, percent_axes=True)))
_plot("plot_grid", lambda W: (dict(fs=[W.frontier(4), W.frontier(3)], labels=["x", "y"]), lambda fs, labels: pl.plot_frontiers_grid(fs, labels=labels)))
_plot("plot_weights", lambda W: (dict(s=pd.Series(W.w_, index=gen.labels(W.rng, W.n, "str")), F=pd.DataFrame(np.c_[W.w_, W.w_])), lambda s, F: (pl.plot_weights(s, top_n=2), pl.plot_weights(F, kind="bar", stacked=True))))
_plot("plot_robust", lambda W: (dict(f=PortfolioWrapper.from_moments(W.mu, W.S).robust_lambda_frontier(3)), lambda f: (pl.plot_robust_path(f), pl.plot_param_impact(f), pl.plot_robust_surface(f))))
_plot("plot_assumptions", lambda W: (dict(mu=W.mu_.copy(), S=W.S_.copy(), R=W.R_.copy(), U=W.U_.copy()), lambda mu, S, R, U: pl.plot_assumptions_3d(mu, S, scenarios=R, uncertainty_cov=U)))
_plot("plot_report", lambda W: (dict(f=W.frontier(4), kw={"max_risk": 9.0}), lambda f, kw: pl.plot_frontier_report(f, selection="risk_target", selection_kwargs=kw)))


# ------------------------------------------------------------------ corruption
def _numeric(v):
    if isinstance(v, (pd.Series, pd.DataFrame)):
        return v.size > 0 and all(np.issubdtype(t, np.number) for t in ([v.dtype] if isinstance(v, pd.Series) else v.dtypes))
    return isinstance(v, np.ndarray) and v.size > 0 and np.issubdtype(v.dtype, np.floating)


def corruptible(c):
    return [k for k, v in c.args.items() if _numeric(v) and k not in c.skip]


def corrupt(rng, c, value=None):
    """(arguments with one non-finite entry in one numeric argument, description) or None."""
    import copy
    ks = corruptible(c)
    if not ks:
        return None
    k = ks[int(rng.integers(len(ks)))]
    v = c.args[k]
    x = float(rng.choice([np.nan, np.nan, np.inf, -np.inf])) if value is None else value
    a = np.array(v, float)
    pos = tuple(int(rng.integers(s)) for s in a.shape)
    a[pos] = x
    if isinstance(v, pd.Series):
        new = pd.Series(a, index=v.index, name=v.name)
    elif isinstance(v, pd.DataFrame):
        new = pd.DataFrame(a, index=v.index, columns=v.columns)
    else:
        new = a
    out = {kk: (new if kk == k else vv) for kk, vv in c.args.items()}
    return out, (k, pos, x)
