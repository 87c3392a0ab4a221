"""P27: ensemble assembly reproduces the individual pipelines."""
import functools
import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import moments as M
from pyvallocation import AssetsDistribution, Constraints, PortfolioFrontier, PortfolioWrapper, TransactionCosts, assemble_portfolio_ensemble, make_portfolio_spec
from pyvallocation.ensembles import EnsembleSpec

from .. import gen, use, watch
from ..core import scenario
from ..use import solve
from .p26 import judge

SCN = []
QUICK_FACTOR = 2  # relative cost of this check
ASSUMPTIONS = ["moment specifications add the documented 1e-10 ridge to the covariance",
               "robust frontiers resolve unlabelled risk selectors to the volatility overlay (documented); explicit labels are used here",
               "all specifications of one ensemble share the same assets in the same order"]


RISK_RULES = {"risk_target", "max_return_subject_to_risk", "risk_match", "risk_nearest", "risk_percentile", "risk_pct", "percentile"}


def pick(f, kind, kw):
    """Independent selection rule on a frontier; returns the admissible columns."""
    ret = f.returns
    lab = kw.get("risk_label")
    k = f.risks if lab in (None, f.risk_measure) else f.alternate_risks[lab]
    M = len(ret)
    idx = np.arange(M)
    if kind in ("tangency", "max_sharpe", "sharpe", "Tangency"):
        s = (ret - kw.get("risk_free_rate", 0.0)) / f.risks
        return idx[s >= s.max() - 1e-12 * max(1, abs(s.max()))]
    if kind in ("min_risk", "minimum_risk"):
        return idx[k == k.min()]
    if kind in ("max_return", "maximum_return"):
        return idx[ret == ret.max()]
    if kind in ("risk_target", "max_return_subject_to_risk"):
        ok = idx[k <= kw["max_risk"]]
        return ok[ret[ok] == ret[ok].max()]
    if kind in ("risk_match", "risk_nearest"):
        d = np.abs(k - kw["target_risk"])
        return idx[d == d.min()]
    if kind in ("risk_percentile", "risk_pct", "percentile"):
        q = kw["percentile"] / 100 if kw["percentile"] > 1 else kw["percentile"]
        rank = np.argsort(np.argsort(k, kind="stable"), kind="stable") / max(M - 1, 1)
        d = np.abs(rank - q)
        near = np.isin(k, k[d <= d.min() + 1e-9])  # equal risks share their ranks
        return idx[near]
    return [kw["index"] % M]


def selector(rng, f):
    """A selector specification that applies to the frontier f."""
    r = int(rng.integers(0, 8))
    k = f.risks
    lab = None
    if f.alternate_risks and rng.random() < .4:
        lab = str(rng.choice(sorted(f.alternate_risks)))
        k = f.alternate_risks[lab]
    elif f.alternate_risks or rng.random() < .3:
        lab = f.risk_measure
    L = {} if lab is None else {"risk_label": lab}
    if r == 0 and f.risks.min() > 1e-6:
        return str(rng.choice(["tangency", "max_sharpe", "sharpe", "Tangency"])), ({} if rng.random() < .4 else {"risk_free_rate": float(rng.normal(0, .01))})
    if r <= 1:
        return str(rng.choice(["min_risk", "minimum_risk"])), L
    if r == 2:
        return str(rng.choice(["max_return", "maximum_return"])), {}
    if r == 3:
        return str(rng.choice(["risk_target", "max_return_subject_to_risk"])), {**L, "max_risk": float(rng.uniform(k.min(), k.max())) + 1e-9}
    if r == 4:
        return str(rng.choice(["risk_match", "risk_nearest"])), {**L, "target_risk": float(rng.uniform(k.min() * .9, k.max() * 1.1))}
    if r in (5, 6):
        return str(rng.choice(["risk_percentile", "risk_pct", "percentile"])), {**L, "percentile": float(rng.choice([0, .3, .5, 1, 25., 70., 100.]))}
    return str(rng.choice(["column", "index"])), {"index": int(rng.integers(len(k)))}


def market(rng):
    n, T = int(rng.integers(2, 6)), int(rng.integers(30, 90))
    names = [str(x) for x in gen.strlabels(rng, n)]
    R = pd.DataFrame(gen.panel(rng, T, n, scale=.03), columns=names, index=pd.bdate_range("2021-01-04", periods=T))
    return n, T, names, R


def pipeline(cx, rng, R, optimiser=None):
    """Random pipeline: (spec keywords, function running it by hand)."""
    n, names = R.shape[1], list(R.columns)
    kw, data = {}, R
    p = None
    route = str(rng.choice(["moments", "moments", "scenarios", "distribution", "factory"]))
    opt = optimiser or str(rng.choice(["mean_variance", "mv", "mean-cvar", "cvar", "rrp", "relaxed_risk_parity", "robust", "MV"]))
    if opt in ("mean-cvar", "cvar") and route == "moments":
        route = "scenarios"  # sampling 5000 parametric scenarios is exercised by P04
    if route in ("moments", "scenarios"):
        kw["returns"] = R
        pre = rng.random()
        if pre < .25:
            kw["preprocess"] = lambda d: d.iloc[5:] * 1.0
            data = R.iloc[5:]
        elif pre < .4:
            def loud(d):
                d.iloc[:, 0] *= 2.0  # preprocessing may work in place on its own copy
                return d
            kw["preprocess"] = loud
            data = R.copy()
            data.iloc[:, 0] *= 2.0
        if rng.random() < .6:
            p = gen.probs(rng, len(data), kind=str(rng.choice(["decay", "dirichlet", "counts"])))
            r = rng.random()
            if r < .5:
                o = rng.permutation(len(data))
                kw["probabilities"] = pd.Series(p[o] * (1.0 if rng.random() < .5 else 1.0), index=data.index[o])
                cx.event("shuffled labelled probabilities")
            else:
                kw["probabilities"] = p if r < .8 else p.tolist()
    u = np.full(len(data), 1 / len(data)) if p is None else p
    if route == "moments":
        X = data.to_numpy()
        mu = u @ X
        S = (X - mu).T @ ((X - mu) * u[:, None])
        if rng.random() < .5:
            mu0, S0 = pd.Series(mu, names), pd.DataFrame(S, names, names)  # the sample moments feed the shrinkage estimators
            if rng.random() < .6:
                key, args, fn = [("jorion", {}, lambda a: M.shrink_mean_jorion(mu0, S0, T=len(X))), ("js", {"target": pd.Series(mu * .5, names)}, lambda a: M.shrink_mean_james_stein(mu0, S0, len(X), **a)),
                                 ("Huber", {"tol": 1e-9}, lambda a: M.robust_mean_huber(data, **a)), ("mom", {"n_blocks": 4, "random_state": gen.seed(rng)}, lambda a: M.robust_mean_median_of_means(data, **a)),
                                 ("james_stein", {}, lambda a: M.shrink_mean_james_stein(mu0, S0, len(X)))][int(rng.integers(0 if n > 2 else 1, 5))]
                kw["mean_estimator"] = key
                if args:
                    kw["mean_kwargs"] = args
                mu = np.asarray(fn(args), float)
                cx.event("mean estimator")
            if rng.random() < .6:
                key, args, fn = [("lw", {"target": "constant_correlation"}, lambda a: M.shrink_covariance_ledoit_wolf(data, S0, **a)), ("ledoit_wolf", {}, lambda a: M.shrink_covariance_ledoit_wolf(data, S0)),
                                 ("OAS", {"assume_centered": False}, lambda a: M.shrink_covariance_oas(data, **a)), ("poet", {"k": 1}, lambda a: M.factor_covariance_poet(data, **a)),
                                 ("tyler", {"shrinkage": .3}, lambda a: M.robust_covariance_tyler(data, **a)), ("ewma", {"span": int(rng.integers(5, 60))}, lambda a: M.covariance_ewma(data, **a)),
                                 ("oas", {}, lambda a: M.shrink_covariance_oas(data))][int(rng.integers(7))]
                kw["cov_estimator"] = key
                if args:
                    kw["cov_kwargs"] = args
                S = np.asarray(fn(args), float)
                cx.event("covariance estimator")
        if rng.random() < .5:
            proj = {}
            if rng.random() < .7:
                k = float(rng.choice([4, 12, 2.5]))
                proj["annualization_factor"] = k
                mu, S = mu * k, S * k
            if rng.random() < .5:
                proj[str(rng.choice(["log_to_simple", "to_simple"]))] = True
                e = np.exp(mu + np.diag(S) / 2)
                mu, S = e - 1, np.outer(e, e) * (np.exp(S) - 1)
            if rng.random() < .3:
                proj["transform"] = lambda m, c: (m + .01, c * 2.0)
                mu, S = mu + .01, S * 2
            if proj:
                kw["projection"] = proj
                cx.event("projection")
        S = S + 1e-10 * np.eye(n)
        make = lambda: AssetsDistribution(mu=pd.Series(mu, index=names), cov=pd.DataFrame(S, names, names))
    elif route == "scenarios":
        kw["use_scenarios"] = True
        make = lambda: AssetsDistribution(scenarios=data, probabilities=None if p is None else p)
    else:
        if opt in ("mean-cvar", "cvar"):
            make = lambda: AssetsDistribution(scenarios=R)
        else:
            _, m0, S0 = gen.moments(rng, n)
            make = lambda: AssetsDistribution(mu=pd.Series(m0, index=names), cov=pd.DataFrame(S0, names, names))
        if route == "distribution":
            kw["distribution"] = make()
        else:
            kw["distribution_factory"] = make
    okw, con = {}, None
    if rng.random() < .5:
        con, _, _ = gen.spec(rng, n, budget=1.0, rich=opt not in ("rrp", "relaxed_risk_parity"))
        if opt in ("rrp", "relaxed_risk_parity"):
            con = {"long_only": True, "total_weight": 1.0, "bounds": (0.01, .95)}
        okw["constraints"] = Constraints(**con) if rng.random() < .5 else dict(con)
        cx.event("constraints")
    key = opt.lower()
    num = int(rng.integers(2, 6))
    if key in ("rrp", "relaxed_risk_parity"):
        okw["num_portfolios"] = num
        hand = lambda w: w.relaxed_risk_parity_frontier(num_portfolios=num)
    elif key == "robust":
        if rng.random() < .6:
            okw["num_portfolios"] = num
        hand = lambda w: w.robust_lambda_frontier(**({"num_portfolios": num} if "num_portfolios" in okw else {}))
    elif key in ("mv", "mean_variance"):
        okw["num_portfolios"] = num
        hand = lambda w: w.variance_frontier(num)
    else:
        okw["num_portfolios"] = num
        a = float(rng.choice([.05, .1, .25]))
        okw["alpha"] = a
        hand = lambda w: w.cvar_frontier(num_portfolios=num, alpha=a)
    kw["optimiser"] = opt
    kw["optimiser_kwargs"] = okw
    cx.event("route:" + route)
    cx.event("optimiser:" + key)

    def run():
        d = make()
        w = PortfolioWrapper(d) if con is None else PortfolioWrapper(d, constraints=con)
        return hand(w)
    return kw, run, f"{route}/{key}/{con is not None}"


def same_frontier(cx, got, want, msg, atol=2e-3):
    if got.weights.shape != want.weights.shape:
        cx.violate(msg + " (shape)", got=got.weights.shape, want=want.weights.shape)
        return
    sc = max(1e-3, np.abs(want.risks).max())
    cx.close(got.returns, want.returns, msg, rtol=1e-4, atol=1e-5 * max(1, np.abs(want.returns).max()))
    cx.close(got.risks, want.risks, msg, rtol=1e-3, atol=1e-4 * sc)
    cx.close(got.weights, want.weights, msg, rtol=0, atol=atol * max(1, np.abs(want.weights).max()), near=want.risks)
    cx.check(list(got.asset_names or []) == list(want.asset_names or []), msg + ": labels")


def combined(cx, res, mode, names, sel_cols, u, folds, o, total):
    """The ensembles of `res` against the chosen columns (n x f)."""
    if "average" in res.ensembles:
        a = res.ensembles["average"]
        cx.close(np.asarray(a, float), sel_cols @ u, "the average ensemble combines exactly the chosen portfolios", rtol=1e-9, atol=1e-11)
        cx.check(list(a.index) == names, "ensembles keep the labels")
        cx.check(res.average is a and res.get("average") is a, "ensemble accessors")
    if "stack" in res.ensembles:
        s = res.ensembles["stack"]
        judge(cx, sel_cols, folds, s, o)
        cx.check(list(s.index) == names, "ensembles keep the labels")
        cx.check(res.stacked is s, "ensemble accessors")


@scenario(SCN, 420, thorough=4000, need=["combine:selected", "combine:frontier", "projection", "mean estimator", "covariance estimator", "constraints", "shuffled labelled probabilities",
                                          "route:moments", "route:scenarios", "route:distribution", "route:factory",
                                          "optimiser:mv", "optimiser:cvar", "optimiser:rrp", "optimiser:robust", "reassembled"])
def pipelines(cx):
    rng = cx.rng
    n, T, names, R = market(rng)
    f = int(rng.integers(2, 4))
    specs, hands, kinds = [], [], []
    for i in range(f):
        kw, run, kind = pipeline(cx, rng, R)
        cx.note(**{f"spec{i}": {k: v for k, v in kw.items() if k != "returns"}}, R=R)
        fr = solve(cx, run)
        sk, skw = selector(rng, fr)
        if rng.random() < .4:
            fs = [int(rng.integers(fr.weights.shape[1]))]
        else:
            fs = None
        before = watch.fingerprint([kw["returns"] if "returns" in kw else None, kw["optimiser_kwargs"], skw])
        spec = make_portfolio_spec(f"s{i}", selector=sk, selector_kwargs=skw, frontier_selection=fs, metadata={"id": i}, **kw)
        specs.append(spec)
        hands.append((fr, sk, skw, fs, kw, before))
        kinds.append(kind)
    mode = "selected" if rng.random() < .5 else "frontier"
    ens = [["average", "stack"], ["stack"], ["average"], "average", "stack", None, " Stack "][int(rng.integers(7))]
    wts = rng.random(f) + .05 if rng.random() < .5 else None
    u = np.full(f, 1 / f) if wts is None else wts / wts.sum()
    ew = wts
    if wts is not None and rng.random() < .4:
        o_ = rng.permutation(f)
        ew = pd.Series(wts[o_], index=[f"s{j}" for j in o_])
        cx.event("labelled ensemble weights")
    sf = None if rng.random() < .5 else int(rng.integers(2, f + 3))
    o = {"abstol": 1e-11, "reltol": 1e-10, "feastol": 1e-9} if rng.random() < .5 else None
    args = dict(ensemble=ens, combine=mode if rng.random() < .7 else mode.upper(), stack_folds=sf, ensemble_weights=ew, stack_kwargs=o)
    folds = min(3, f) if sf is None else max(1, min(sf, f))
    cx.state(*kinds, mode, str(ens))
    cx.event("combine:" + mode)
    res = solve(cx, lambda: assemble_portfolio_ensemble(specs, **args))
    cx.check(list(res.frontiers) == [s.name for s in specs], "one frontier per specification", got=list(res.frontiers))
    cx.check(list(res.selections.columns) == [s.name for s in specs] and list(res.selections.index) == names, "one selection per specification")
    chosen, fcols = [], []
    for i, (fr, sk, skw, fs, kw, before) in enumerate(hands):
        got = res.frontiers[f"s{i}"]
        same_frontier(cx, got, fr, "an assembled frontier is the frontier of its own pipeline")
        js = pick(got, sk, skw)
        col = res.selections[f"s{i}"].to_numpy()
        cx.check(any(np.array_equal(col, got.weights[:, j]) for j in js), "the selected portfolio is the selector's frontier point", selector=sk, kw=skw, col=col,
                 want=got.weights[:, js])
        chosen.append(col)
        fcols.append(got.weights[:, fs[0] if fs is not None else int(np.argmin(got.risks))])
        cx.check(res.metadata[f"s{i}"]["id"] == i, "metadata stays with its specification", got=res.metadata)
        cx.check(watch.fingerprint([kw["returns"] if "returns" in kw else None, kw["optimiser_kwargs"], hands[i][2]]) == before, "specification inputs unmodified")
    cols = np.column_stack(chosen if mode == "selected" else fcols)
    want = set() if ens is None else {e.strip().lower() for e in ([ens] if isinstance(ens, str) else ens)}
    cx.check(set(res.ensembles) == want, "the requested ensembles are returned", got=list(res.ensembles))
    combined(cx, res, mode, names, cols, u, folds, o, f)
    # reusable: another order, again, subset
    order = [int(i) for i in rng.permutation(f)]
    a2 = dict(args)
    if wts is not None and not isinstance(ew, pd.Series):
        a2["ensemble_weights"] = wts[order]
    again = solve(cx, lambda: assemble_portfolio_ensemble([specs[i] for i in order], **a2))
    none = (None, "none", "NONE", "", (), [])[int(rng.integers(6))]
    one = solve(cx, lambda: assemble_portfolio_ensemble([specs[order[0]]], ensemble=none))
    for i in range(f):
        nm = f"s{i}"
        cx.check(np.array_equal(again.selections[nm], res.selections[nm]) and np.array_equal(again.frontiers[nm].weights, res.frontiers[nm].weights),
                 "assembling again gives the same portfolios", spec=nm, first=res.selections[nm], second=again.selections[nm])
    nm = f"s{order[0]}"
    cx.check(np.array_equal(one.selections[nm], res.selections[nm]), "assembling alone gives the same portfolio", spec=nm)
    cx.check(one.ensembles == {}, "no ensemble requested, none returned")
    if "average" in res.ensembles:
        cx.close(np.asarray(again.ensembles["average"]), np.asarray(res.ensembles["average"]), "the average does not depend on the spec order", rtol=1e-9, atol=1e-12)
    if "stack" in again.ensembles:
        judge(cx, cols[:, order], folds, again.ensembles["stack"], o)
    cx.event("reassembled")


@scenario(SCN, 900, need=["callable selector", "callable optimiser", "same names", "direct spec", "fold clamp"])
def custom(cx):
    """Callables, hand-built specs, name clashes, fold clamping: no solver, exact comparison."""
    rng = cx.rng
    n, f = int(rng.integers(1, 6)), int(rng.integers(2, 7))
    names = [str(x) for x in gen.strlabels(rng, n)]
    dist = AssetsDistribution(mu=pd.Series(np.full(n, .05), index=names), cov=pd.DataFrame(np.eye(n), names, names))
    from .p25 import make_frontier
    frs = [make_frontier(rng, n, names) for _ in range(f)]
    calls = [0] * f
    same = bool(rng.random() < .3)
    specs, cols, fcols = [], [], []
    for i, fr in enumerate(frs):
        nm = "same" if same else f"p{i}"
        j = int(rng.integers(fr.weights.shape[1]))
        r = int(rng.integers(4))

        def sel(g, scale=None, j=j, r=r, fr=fr):
            cx.check(g is fr, "the selector sees its own frontier")
            w = g.weights[:, j]
            if r == 0:
                return pd.Series(w, index=names)
            if r == 1:
                return pd.Series(w, index=names), 1.0, 2.0
            if r == 2:
                return w
            return w.tolist()

        fs = None if rng.random() < .5 else [int(rng.integers(fr.weights.shape[1]))]
        if rng.random() < .5:
            def fac(i=i, fr=fr):
                calls[i] += 1
                return fr
            specs.append(EnsembleSpec(name=nm, frontier_factory=fac, selector=sel, metadata={"k": i}, frontier_selection=fs))
            cx.event("direct spec")
        else:
            mark = float(rng.random())

            def opt(w, mark=None, i=i, fr=fr):
                calls[i] += 1
                cx.check(isinstance(w, PortfolioWrapper) and w.dist is dist, "the optimiser sees its own distribution")
                return fr
            o = functools.partial(opt, mark=mark) if rng.random() < .3 else opt
            skw = {}
            if rng.random() < .4:
                skw = {"scale": 2.0}
            specs.append(make_portfolio_spec(nm, distribution=dist, optimiser=o, optimiser_kwargs={"mark": mark} if o is opt else {}, selector=sel,
                                             selector_kwargs=skw, frontier_selection=fs, metadata={"k": i}))
            cx.event("callable optimiser")
        cx.event("callable selector")
        cols.append(fr.weights[:, j])
        fcols.append(fr.weights[:, fs[0] if fs else int(np.argmin(fr.risks))])
    mode = "selected" if rng.random() < .5 else "frontier"
    wts = rng.random(f) + .05 if rng.random() < .5 else None
    u = np.full(f, 1 / f) if wts is None else wts / wts.sum()
    sf = None if rng.random() < .4 else int(rng.integers(2, 2 * f + 2))
    folds = min(3, f) if sf is None else min(sf, f)
    if sf is not None and sf > f:
        cx.event("fold clamp")
    if same:
        cx.event("same names")
    cx.state(n, f, mode, same, sf)
    W = np.column_stack(cols if mode == "selected" else fcols)
    cx.note(W=W, folds=folds, mode=mode)
    res = solve(cx, lambda: assemble_portfolio_ensemble(specs, ensemble=("average", "stack"), combine=mode, stack_folds=sf, ensemble_weights=wts))
    cx.check(all(c == 1 for c in calls), "each pipeline runs exactly once per assembly", calls=calls)
    cx.close(res.selections.to_numpy(float), np.column_stack(cols), "selections are the selectors' answers", rtol=0, atol=0)
    cx.check(list(res.selections.index) == names, "selections keep the labels")
    combined(cx, res, mode, names, W, u, folds, None, f)
    if not same:
        cx.check([res.metadata[f"p{i}"]["k"] for i in range(f)] == list(range(f)), "metadata stays with its specification")
        cx.check(all(res.frontiers[f"p{i}"] is fr for i, fr in enumerate(frs)), "frontiers stay with their specification")


@scenario(SCN, 160, thorough=1500, need=["wrapper spec", "late change", "wrapper assembly"])
def from_wrapper(cx):
    """Specs made from a wrapper equal the wrapper's own pipeline on its distribution, and are unaffected by what happens to it later."""
    rng = cx.rng
    n, T, names, R = market(rng)
    opt = str(rng.choice(["mean_variance", "cvar", "rrp", "robust"]))
    if opt == "cvar" or rng.random() < .4:
        p = gen.probs(rng, T, kind=str(rng.choice(["decay", "dirichlet"])))
        make = lambda: AssetsDistribution(scenarios=R, probabilities=p)
    else:
        _, m0, S0 = gen.moments(rng, n)
        make = lambda: AssetsDistribution(mu=pd.Series(m0, index=names), cov=pd.DataFrame(S0, names, names))
    con = {"bounds": (0.01, .9), "total_weight": 1.0} if rng.random() < .6 else None
    num = int(rng.integers(2, 5))
    method = {"mean_variance": "variance_frontier", "cvar": "cvar_frontier", "rrp": "relaxed_risk_parity_frontier", "robust": "robust_lambda_frontier"}[opt]
    want = solve(cx, lambda: getattr(PortfolioWrapper(make()) if con is None else PortfolioWrapper(make(), constraints=con), method)(num_portfolios=num))
    cx.note(R=R, opt=opt, con=con, num=num)
    cx.state(opt, con is not None, n)
    sk, skw = selector(rng, want)
    w = PortfolioWrapper(make())
    okw = {"num_portfolios": num, **({} if con is None else {"constraints": con})}
    fs = [int(rng.integers(num))] if rng.random() < .5 else None
    spec = w.make_ensemble_spec("a", optimiser=opt, optimiser_kwargs=okw, selector=sk, selector_kwargs=skw, frontier_selection=fs, metadata={"id": 7})
    other = w.make_ensemble_spec("b", optimiser="mean_variance", optimiser_kwargs={"num_portfolios": 2}, selector="min_risk")
    cx.event("wrapper spec")
    own = solve(cx, lambda: getattr(w, method)(num_portfolios=num))  # the wrapper is usable meanwhile, and unconstrained
    fr = solve(cx, spec.frontier_factory)
    same_frontier(cx, fr, want, "a wrapper's spec reproduces the wrapper's pipeline")
    if con is None:
        same_frontier(cx, own, want, "making a spec leaves the wrapper as it was")
    else:
        again = solve(cx, lambda: getattr(w, method)(num_portfolios=num))
        cx.check(np.array_equal(own.weights, again.weights), "building a spec's frontier leaves the wrapper's constraints as they were")
        cx.event("late change")
    res = solve(cx, lambda: w.assemble_ensembles([spec, other], ensemble=("average",)))
    cx.event("wrapper assembly")
    cx.check(list(res.frontiers) == ["a", "b"] and res.metadata["a"]["id"] == 7, "wrapper assembly keeps names and metadata")
    js = pick(res.frontiers["a"], sk, skw)
    cx.check(any(np.array_equal(res.selections["a"].to_numpy(), res.frontiers["a"].weights[:, j]) for j in js), "a wrapper's spec uses its selector", selector=sk)
    combined(cx, res, "selected", names, res.selections.to_numpy(float), np.full(2, .5), 2, None, 2)


@scenario(SCN, 400, thorough=3000, need=["own limits", "overridden limits", "own costs", "posterior", "log"])
def wrapper_settings(cx):
    """A wrapper's specification runs under the limits, costs, return convention and uncertainty of that wrapper."""
    rng = cx.rng
    n, T = int(rng.integers(2, 6)), int(rng.integers(20, 40))
    names = gen.strlabels(rng, n)
    R = np.clip(gen.panel(rng, T, n, scale=.03), -.5, .5)
    if np.linalg.eigvalsh(np.cov(R.T, bias=True).reshape(n, n)).min() < 1e-8:
        cx.stop("singular panel")
    kind = use.ROUTES[cx.index % len(use.ROUTES)]
    opt = str(rng.choice(["mean_variance", "robust", "rrp"] if kind in ("moments", "log moments", "posterior") else ["mean_variance", "cvar", "rrp", "robust"]))
    lim = dict(long_only=True, budget=1.0) if opt == "rrp" else {}
    s, w0, _ = gen.spec(rng, n, **lim)
    costs = None
    if rng.random() < .5 and opt != "rrp":
        costs = TransactionCosts(rng.dirichlet(np.ones(n)), market_impact_costs=rng.uniform(.1, 2, n) * 1e-3, proportional_costs=rng.uniform(.1, 2, n) * 1e-2)
        cx.event("own costs")
    w = use.route(rng, kind, names, R, constraints=use.to_con(rng, s), costs=costs)
    kw = {"num_portfolios": int(rng.integers(2, 5))}
    rows = gen.rows_of(s, n)
    if rng.random() < .3:
        s2, _, _ = gen.spec(rng, n, **lim)
        kw["constraints"] = use.to_con(rng, s2)
        rows = gen.rows_of(s2, n)
        cx.event("overridden limits")
    else:
        cx.event("own limits")
    if kind == "posterior":
        cx.event("posterior")
    if kind.startswith("log") or kind == "posterior":
        cx.event("log")
    cx.note(R=R, kind=kind, opt=opt, spec=s, costs=costs, kw=kw)
    cx.state(kind, opt, costs is not None, len(kw))
    method = {"mean_variance": "variance_frontier", "cvar": "cvar_frontier", "rrp": "relaxed_risk_parity_frontier", "robust": "robust_lambda_frontier"}[opt]
    spec = w.make_ensemble_spec("a", optimiser=opt if rng.random() < .7 else (lambda x, **k: getattr(x, method)(**k)), optimiser_kwargs=kw, selector="max_return")
    want = solve(cx, lambda: getattr(w, method)(**kw))
    fr = solve(cx, spec.frontier_factory)
    same_frontier(cx, fr, want, "a wrapper's spec runs under the wrapper's settings")
    use.feasible(cx, rows, fr.weights, "frontier of a wrapper's spec")
    res = solve(cx, lambda: w.assemble_ensembles([spec], ensemble=("average", "stack")))
    for k in ("average", "stack"):
        cx.close(res.ensembles[k].to_numpy(), res.selections["a"].to_numpy(), "one specification's ensembles are its portfolio", rtol=1e-12, atol=1e-12)
        cx.check(list(res.ensembles[k].index) == names, "one specification's ensembles keep the labels")
    same_frontier(cx, solve(cx, lambda: getattr(w, method)(**kw)), want, "running a spec leaves its wrapper as it was")


@scenario(SCN, 200, thorough=1600, need=["single"])
def single_specification(cx):
    """One specification, any combination mode: every ensemble is the selected portfolio itself."""
    rng = cx.rng
    n, T, names, R = market(rng)
    sel = str(rng.choice(["min_risk", "max_return", "tangency"]))
    kw = dict(returns=R, use_scenarios=True, optimiser=str(rng.choice(["mean_variance", "cvar"])), optimiser_kwargs={"num_portfolios": 4}, selector=sel)
    M = solve(cx, make_portfolio_spec("probe", **kw).frontier_factory).weights.shape[1]
    sp = make_portfolio_spec("only", **kw, frontier_selection=[int(rng.integers(M))] if rng.random() < .6 else None)
    mode = str(rng.choice(["selected", "frontier"]))
    cx.note(R=R, sel=sel, mode=mode)
    cx.state(sel, mode, n)
    res = solve(cx, lambda: assemble_portfolio_ensemble([sp], ensemble=["average", "stack"][: int(rng.integers(1, 3))] if rng.random() < .5 else "stack", combine=mode))
    fr = res.frontiers["only"]
    if mode == "selected":
        want = res.selections["only"].to_numpy()
    else:
        j = int(np.argmin(fr.risks)) if sp.frontier_selection is None else sp.frontier_selection[0]
        want = fr.weights[:, j]
    for k, v in res.ensembles.items():
        cx.close(np.asarray(v), want, f"the {k} of one portfolio is that portfolio", rtol=1e-12, atol=1e-12)
        cx.check(list(v.index) == list(names), "labels kept")
    cx.event("single")


@scenario(SCN, 3000, need=["volatility overlay", "own measure", "explicit label"])
def selectors(cx):
    """Every named selector on arbitrary frontiers (tied, unsorted, one column, robust with overlays): exact comparison."""
    rng = cx.rng
    n, M = int(rng.integers(1, 6)), int(rng.choice([1, 2, 3, 5, 9]))
    names = [str(x) for x in gen.strlabels(rng, n)]

    def vec():
        v = rng.uniform(.05, .5, M)
        return np.round(v, 1) + .05 if rng.random() < .4 else np.sort(v) if rng.random() < .4 else v
    measure = str(rng.choice(["Estimation Risk (||\\Sigma'^1/^2w||_2)", "Estimation Risk", "Volatility", "CVaR (alpha=0.05)", "Variance"]))
    alt = {}
    if rng.random() < .7 and measure != "Volatility":
        alt["Volatility"] = vec()
    if rng.random() < .4:
        alt["CVaR"] = vec()
    ret = rng.normal(.05, .1, M)
    fr = PortfolioFrontier(weights=rng.normal(size=(n, M)), returns=np.round(ret, 1) if rng.random() < .3 else ret, risks=vec(),
                           risk_measure=measure, asset_names=names, alternate_risks=alt)
    kind, kw = selector(rng, fr)
    if rng.random() < .4:
        kw.pop("risk_label", None)
    want = dict(kw)
    if kind in RISK_RULES and "risk_label" not in kw and "Estimation Risk" in measure and "Volatility" in alt:
        want["risk_label"] = "Volatility"  # robust frontiers: unlabelled limits are read against the volatility overlay
        cx.event("volatility overlay")
    elif "risk_label" in kw:
        cx.event("explicit label")
    else:
        cx.event("own measure")
    if "max_risk" in kw:
        k = fr.risks if want.get("risk_label") in (None, measure) else alt[want["risk_label"]]
        kw["max_risk"] = want["max_risk"] = float(rng.uniform(k.min(), k.max() * 1.1)) + 1e-9
    cx.state(kind, measure, M, sorted(alt))
    cx.note(returns=fr.returns, risks=fr.risks, alt=alt, measure=measure, kind=kind, kw=str(kw))
    snap = dict(kw)
    dist = AssetsDistribution(mu=pd.Series(np.full(n, .05), index=names), cov=pd.DataFrame(np.eye(n), names, names))
    spec = make_portfolio_spec("s", distribution=dist, optimiser=lambda w: fr, selector=kind, selector_kwargs=kw)
    ok = pick(fr, kind, want)
    for _ in range(2):
        w = spec.selector(fr)
        w = w[0] if isinstance(w, tuple) else w
        cx.check(any(np.array_equal(np.asarray(w, float), fr.weights[:, j]) for j in ok), "a named selector picks a best portfolio",
                 got=np.asarray(w, float), admissible=ok)
        cx.check(list(w.index) == names, "selected weights keep the labels")
    cx.check(kw == snap, "selector arguments unmodified")


@scenario(SCN, 300, need=["raised:ValueError"])
def malformed(cx):
    rng = cx.rng
    n, T, names, R = market(rng)
    V = (ValueError,)
    cx.state(n)
    fr = PortfolioFrontier(np.full((n, 2), 1 / n), np.zeros(2), np.ones(2), "Volatility", names)
    ok = EnsembleSpec("a", lambda: fr, lambda g: g.weights[:, 0])
    ok2 = EnsembleSpec("b", lambda: fr, lambda g: g.weights[:, 1], frontier_selection=[0, 1])
    A = assemble_portfolio_ensemble
    cx.raises(lambda: A([]), "no specification is rejected", types=V)
    cx.raises(lambda: A([ok, ok], ensemble="median"), "an unknown ensemble is rejected", types=V)
    cx.raises(lambda: A([ok, ok], combine="both"), "an unknown combination mode is rejected", types=V)
    cx.raises(lambda: A([ok, ok2], combine="frontier", ensemble="average"), "mixed risk levels are rejected", types=V)
    cx.raises(lambda: A([ok, ok], ensemble="average", ensemble_weights=[1.0]), "ensemble weights of the wrong length are rejected", types=V)
    M = make_portfolio_spec
    run = lambda **k: A([M("x", **k)], ensemble=None)
    cx.raises(lambda: run(), "a pipeline without data is rejected", types=V)
    cx.raises(lambda: run(returns=R, optimiser="magic"), "an unknown optimiser is rejected", types=V)
    cx.raises(lambda: run(returns=R, selector="magic"), "an unknown selector is rejected", types=V)
    cx.raises(lambda: run(returns=R, selector="risk_target"), "a selector without its argument is rejected", types=V)
    cx.raises(lambda: run(returns=R, projection={"horizon": 3}), "unknown projection options are rejected", types=V)
    cx.raises(lambda: run(returns=R, probabilities=pd.Series(1 / (T - 1), index=R.index[1:])), "missing scenario probabilities are rejected", types=V)
    cx.raises(lambda: run(returns=R, probabilities=np.full(T, -1.0)), "negative scenario probabilities are rejected", types=V)
    Z = R.copy()
    Z.iloc[int(rng.integers(T)), int(rng.integers(n))] = np.nan
    cx.raises(lambda: run(returns=Z, use_scenarios=bool(rng.random() < .5)), "missing returns are rejected", types=V)
