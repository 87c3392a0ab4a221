"""P31: calls never modify the caller's data, nor results handed out earlier."""
import copy

import numpy as np
import pandas as pd
from pyvallocation import (AssetsDistribution, Constraints, PortfolioWrapper, RobustBayesPosterior, TransactionCosts)
from pyvallocation import ensembles as en
from pyvallocation.bayesian import NIWPosterior
from pyvallocation.views import BlackLittermanProcessor, FlexibleViewsProcessor

from .. import calls, gen, watch
from ..core import scenario

SCN = []
ASSUMPTIONS = ["content snapshots: values, dtypes, labels, label order, names and writeability, of every argument and of containers nested in them",
               "writing into a returned object is the caller's business; only what later calls do to it is watched"]
NAMES = sorted(calls.TABLE)


def execute(cx, c, args=None):
    """Run the call; rejections are fine here (their correctness is P34's subject)."""
    try:
        return c(args), None
    except (ValueError, TypeError, KeyError, RuntimeError, IndexError, ArithmeticError, AttributeError) as e:
        return None, e


@scenario(SCN, 1300, thorough=12000, need=["completed calls"])
def every_call(cx):
    """Each public call on caller-owned arguments, twice on the same objects."""
    c = calls.build(cx.rng, NAMES[cx.index % len(NAMES)])
    cx.state(c.name, tuple(sorted((k, type(v).__name__) for k, v in c.args.items())))
    cx.note(call=c.name)
    before = {k: watch.fingerprint(v) for k, v in c.args.items()}
    for rep in range(2):
        out, err = execute(cx, c)
        for k, v in c.args.items():
            cx.check(watch.fingerprint(v) == before[k], f"{c.name} leaves `{k}` unmodified", repetition=rep, now=v)
        if err is None:
            cx.event("completed calls")
            cx.event("completed:" + c.name)
        else:
            cx.event("rejected:" + c.name + ":" + type(err).__name__)


@scenario(SCN, 900, thorough=8000, need=["failed calls", "solver faults"])
def failing_calls(cx):
    """Arguments survive calls that fail: corrupted values, solver exceptions, non-optimal solver answers."""
    rng = cx.rng
    c = calls.build(rng, NAMES[cx.index % len(NAMES)])
    args = c.args
    mode = str(rng.choice(["corrupt", "solver raises", "solver fails"]))
    what = None
    if mode == "corrupt":
        bad = calls.corrupt(rng, c)
        if bad is None:
            mode = "solver raises"
        else:
            args, what = bad
    cx.note(call=c.name, mode=mode, what=what)
    cx.state(c.name, mode)
    before = {k: watch.fingerprint(v) for k, v in args.items()}
    if mode == "corrupt":
        out, err = execute(cx, c, args)
    elif mode == "solver raises":
        with watch.solver_trace(exc=ArithmeticError("injected")) as tr:
            out, err = execute(cx, c, args)
        if tr:
            cx.event("solver faults")
    else:
        k = int(rng.integers(1, 4))
        with watch.solver_trace(fail=lambda i, s: "unknown" if i >= k else s) as tr:
            out, err = execute(cx, c, args)
        if tr:
            cx.event("solver faults")
    if err is not None:
        cx.event("failed calls")
    for k, v in args.items():
        cx.check(watch.fingerprint(v) == before[k], f"{c.name} leaves `{k}` unmodified when it fails", mode=mode, what=what, now=v)


@scenario(SCN, 260, thorough=2500, need=["results watched"])
def earlier_results(cx):
    """Results handed out earlier stay as they were while other calls run, on other and on the same arguments."""
    rng = cx.rng
    cs = [calls.build(rng) for _ in range(int(rng.integers(3, 6)))]
    cx.note(calls=[c.name for c in cs])
    cx.state(tuple(c.name for c in cs))
    held = []
    seq = [cs[i] for i in np.r_[np.arange(len(cs)), rng.integers(0, len(cs), 3)]]
    for c in seq:
        out, err = execute(cx, c)
        for nm, o, f in held:
            cx.check(watch.fingerprint(o) == f, f"a result of {nm} unchanged by a later call", later=c.name)
        if err is None:
            held.append((c.name, out, watch.fingerprint(out)))
            cx.event("results watched")


@scenario(SCN, 500, thorough=4000, need=["wrapper", "frontier", "niw", "views", "specs", "own optimiser", "preprocessed", "objects watched"])
def shared_objects(cx):
    """Objects used by many calls: wrappers, frontiers, posteriors, view processors, specifications."""
    rng = cx.rng
    W = calls.World(rng)
    job = str(rng.choice(["wrapper", "frontier", "niw", "views", "specs"]))
    cx.event(job)
    cx.state(job, W.n, W.lab)
    held, given = [], []

    def own(x):
        given.append((x, watch.fingerprint(x)))
        return x

    def keep(name, out):
        held.append((name, out, watch.fingerprint(out)))
        cx.event("objects watched")

    def audit(after):
        for name, o, f in held:
            cx.check(watch.fingerprint(o) == f, f"{job}: {name} unchanged by a later call", later=after)
        for x, f in given:
            cx.check(watch.fingerprint(x) == f, f"{job}: caller data unmodified", later=after, type=type(x).__name__)

    def run(steps, k=6):
        names = list(steps)
        for nm in [names[i] for i in rng.integers(0, len(names), k)]:
            try:
                out = steps[nm]()
            except (ValueError, RuntimeError, KeyError, TypeError, IndexError):
                cx.event("rejected step:" + nm)
                out = None
            audit(nm)
            if out is not None:
                keep(nm, out)

    if job == "wrapper":
        mu, S, U, R, p = own(W.mu), own(W.S), own(W.U), own(W.R), own(W.p_.copy())
        con = own(W.con())
        con2 = own({"long_only": True, "total_weight": 1.0, "bounds": [(0.0, .9)] * W.n, "group_constraints": {"g": ([0, 1], 0.0, .95)}})
        d = AssetsDistribution(mu=mu, cov=S, scenarios=R, probabilities=p)
        own(d)
        c1 = own(TransactionCosts(**W.costs()))
        w = PortfolioWrapper(d, constraints=con, costs=c1 if rng.random() < .5 else None)
        lam, mult = own([0.0, 1.0]), own([1.0, 1.1])
        run({"variance_frontier": lambda: w.variance_frontier(4), "cvar_frontier": lambda: w.cvar_frontier(3, alpha=.1), "override": lambda: w.variance_frontier(3, constraints=con2),
             "override costs": lambda: w.cvar_frontier(3, alpha=.2, costs=c1), "robust": lambda: w.robust_lambda_frontier(lambdas=lam, return_cov=U),
             "parity": lambda: w.relaxed_risk_parity_frontier(lambda_reg=.1, target_multipliers=mult, constraints=con2), "gamma": lambda: w.solve_robust_gamma_portfolio(.3, 9.0),
             "target": lambda: w.min_variance_at_return(float(np.asarray(W.mu_) @ W.w_)), "cvar target": lambda: w.min_cvar_at_return(0.0),
             "infeasible": lambda: w.min_variance_at_return(1e3), "bad constraints": lambda: w.variance_frontier(3, constraints={"bounds": (2.0, 3.0)})}, k=7)
    elif job == "frontier":
        f = own(W.frontier(6))
        g = own(PortfolioWrapper(AssetsDistribution(mu=W.mu, cov=W.S)).robust_lambda_frontier(3))
        px = own(pd.Series(rng.uniform(5, 50, W.n), index=list(W.names) if W.lab else [f"Asset_{i}" for i in range(W.n)]))
        t = float(np.median(f.risks))
        run({"min": f.min_risk, "max": f.max_return, "tangency": lambda: f.tangency(0.0), "at_risk": lambda: f.at_risk(t), "at_return": lambda: f.at_return(float(f.returns[1])),
             "closest": lambda: f.closest_risk(t), "percentiles": f.risk_percentiles, "percentile": lambda: f.at_percentile(.4), "frame": f.to_frame, "samples": f.to_samples,
             "some frame": lambda: f.to_frame(columns=[0, 2]) , "discrete": lambda: f.as_discrete_allocation(1, px, 1e4),
             "average": lambda: en.average_frontiers([f, g], [[1], [2]]), "stack": lambda: en.stack_portfolios([f, g], L=2),
             "selections": lambda: en.risk_percentile_selections([f, g], .5)}, k=9)
    elif job == "niw":
        m0, S0 = own(W.mu), own(W.S)
        t0, nu0 = int(rng.integers(5, 40)), int(rng.integers(W.n + 3, 50))
        up = [(own(W.vec(W.mu_ * rng.uniform(.5, 2))), own(W.mat(W.S_ * rng.uniform(.5, 2)))) for _ in range(3)]
        for a, b in up:
            post = NIWPosterior(m0, S0, t0, nu0)
            keep("update", post.update(a, b, int(rng.integers(10, 80))))
            for nm in ("get_mu_ce", "get_sigma_ce", "get_S_mu"):
                keep(nm, getattr(post, nm)())
            keep("radius", post.cred_radius_mu(.8))
            try:
                post.update(a, b, 5)
            except RuntimeError:
                cx.event("second update refused")
            audit("update")
        rb = RobustBayesPosterior(mu=own(W.mu), sigma=own(W.S), s_mu=own(W.U))
        run({"log": lambda: rb.mean_uncertainty_cov_log(annualization_factor=12), "simple": lambda: rb.mean_uncertainty_cov_simple(annualization_factor=2, exact=True),
             "wrapper": lambda: PortfolioWrapper.from_robust_posterior(rb, annualization_factor=2.0).robust_lambda_frontier(2)}, k=4)
    elif job == "views":
        X, p = own(W.R), own(W.p_.copy())
        v = own({W.key(0): (">=", float(W.p_ @ W.R_[:, 0]))})
        rank = own([W.key(1), W.key(2)])
        c = own({(W.names[0] if W.lab else 0): .4})
        bv = own({(W.names[0] if W.lab else 0): .05})
        cov, pi = own(W.S), own(W.mu)

        def flex():
            f = FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=p, mean_views=v, rank_mean=rank)
            keep("probabilities", f.get_posterior_probabilities())
            keep("scenarios", f.get_scenarios())
            return f.get_posterior()

        def bl():
            b = BlackLittermanProcessor(prior_cov=cov, pi=pi, mean_views=bv, omega="idzorek", view_confidences=c)
            keep("first posterior", b.get_posterior())
            return b.get_posterior()
        run({"flexible": flex, "black-litterman": bl}, k=4)
    else:
        R = own(pd.DataFrame(W.R_, columns=gen.labels(rng, W.n, "str")))
        ok, sk, meta, mk, ck = own({"num_portfolios": 4}), own({"risk_free_rate": 0.0}), own({"tags": ["x"]}), own({}), own({})
        pj = own({"annualization_factor": 4.0})
        specs = [en.make_portfolio_spec("a", returns=R, optimiser_kwargs=ok, selector="tangency", selector_kwargs=sk, metadata=meta, mean_kwargs=mk, cov_kwargs=ck),
                 en.make_portfolio_spec("b", returns=R, projection=pj, optimiser_kwargs=ok, selector="min_risk", cov_estimator="oas"),
                 en.make_portfolio_spec("c", returns=R, use_scenarios=True, optimiser="cvar", optimiser_kwargs={"num_portfolios": 3}, selector="max_return", frontier_selection=[0, 1])]
        if rng.random() < .5:
            def clip(data):  # works on the frame it is given
                top = data.to_numpy().mean()
                data[data > top] = top
                return data
            specs[1] = en.make_portfolio_spec("b", returns=R, preprocess=clip, projection=pj, optimiser_kwargs=ok, selector="min_risk", cov_estimator="oas")
            cx.event("preprocessed")
        base = own(PortfolioWrapper(AssetsDistribution(mu=W.mu, cov=W.S), constraints=W.con() if rng.random() < .5 else None))

        def mine(w):  # an optimiser of the caller's own, which edits the wrapper it is given
            for x in (w.dist.mu, w.dist.cov):
                x *= 1.5
            return w.variance_frontier(3)
        own_spec = base.make_ensemble_spec("m", optimiser=mine)
        cx.event("own optimiser")
        ew = own([.2, .3, .5])
        own(specs)

        def go(**k):
            return lambda: (lambda r: (r.selections, r.frontiers, r.ensembles, r.metadata))(en.assemble_portfolio_ensemble(specs, **k))
        run({"average": go(ensemble="average"), "weighted": go(ensemble="average", ensemble_weights=ew), "stack": go(ensemble="stack", stack_folds=2), "none": go(ensemble=None),
             "frontiers": lambda: [s.frontier_factory() for s in specs], "own optimiser": own_spec.frontier_factory}, k=5)
