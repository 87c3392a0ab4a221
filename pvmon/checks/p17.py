"""P17: normal-inverse-Wishart updates equal the conjugate posterior."""
import math

import numpy as np
import pandas as pd
from scipy.stats import chi2
from pyvallocation.bayesian import NIWPosterior, RobustBayesPosterior, chi2_quantile

from pyvallocation.moments import posterior_moments_niw, posterior_moments_niw_with_uncertainty

from .. import gen
from ..core import scenario

SCN = []
ASSUMPTIONS = ["pseudo-counts are integers, as declared; sample covariances are the 1/T (maximum-likelihood) ones the update is defined for"]


def stats(X):
    m = X.mean(0)
    return m, (X - m).T @ (X - m) / len(X)


def world(rng):
    n, mu, S = gen.moments(rng, lo=1, hi=6, scale=float(rng.choice([0.2, 0.02, 0.005])))
    t0, nu0 = int(rng.choice([1, 3, 40, 500])), int(rng.choice([0, 3, n + 3, 60, 800]))
    T = int(rng.choice([n + 4, 30, 200]))
    X = gen.panel(rng, T, n, scale=float(np.sqrt(np.diag(S)).mean()))
    frame = rng.random() < 0.6
    names = gen.labels(rng, n, "str") if frame else None
    return n, mu, S, t0, nu0, T, X, frame, names


def lab(rng, names, v, M):
    if names is None:
        return v, M
    return pd.Series(v, index=names), pd.DataFrame(M, index=names, columns=names)


def direct(mu0, S0, t0, nu0, X, T):
    """Posterior from the raw sample (of weight T) by its sufficient statistics: precision-weighted mean, pooled second moments."""
    T1, nu1 = t0 + T, nu0 + T
    m1 = (t0 * mu0 + T * X.mean(0)) / T1
    # scatter identity: nu1 S1 = nu0 S0 + sum xx' + t0 mu0 mu0' - T1 m1 m1'
    c = m1  # centred at the posterior mean for accuracy
    D = X - c
    S1 = (nu0 * S0 + T / len(X) * D.T @ D + t0 * np.outer(mu0 - c, mu0 - c)) / nu1
    return T1, nu1, m1, S1


@scenario(SCN, 6000, need=["labelled", "half labelled prior", "shuffled sample", "few observations", "undefined uncertainty"])
def update(cx):
    rng = cx.rng
    n, mu0, S0, t0, nu0, T, X, frame, names = world(rng)
    if rng.random() < .4:  # a few observations, hardly any prior weight
        T, t0, nu0 = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(0, 5))
        cx.event("few observations")
    sm, ss = stats(X)
    pm, pS = lab(rng, names, mu0, S0)
    if frame and rng.random() < .3:  # labels stated once are enough
        pm, pS = (mu0, pS) if rng.random() < .5 else (pm, S0)
        cx.event("half labelled prior")
    am, aS = lab(rng, names if rng.random() < .8 else None, sm, ss)
    if isinstance(am, pd.Series) and rng.random() < .5:
        o = rng.permutation(n)
        am, aS = am.iloc[o], aS.iloc[o, o]
        cx.event("shuffled sample")
    if frame:
        cx.event("labelled")
    cx.note(prior_mu=pm, prior_sigma=pS, t0=t0, nu0=nu0, sample_mu=am, sample_sigma=aS, T=T)
    cx.state(n, t0, nu0, T, frame)
    niw = NIWPosterior(pm, pS, t0, nu0)
    cx.raises(niw.get_mu_ce, "estimates before the update raise", types=(RuntimeError,))
    post = niw.update(am, aS, T)
    T1, nu1, m1, S1 = direct(mu0, S0, t0, nu0, X, T)
    sd = np.sqrt(np.diag(S1))
    cx.check(post.T1 == T1 and post.nu1 == nu1, "pseudo-counts add up", got=(post.T1, post.nu1), want=(T1, nu1))
    cx.leq(np.abs(np.asarray(post.mu1) - m1), 1e-9 * (np.abs(m1) + sd), "posterior location is the conjugate one", tol=0)
    cx.leq(np.abs(np.asarray(post.sigma1) - S1), 1e-8 * np.outer(sd, sd), "posterior dispersion is the conjugate one", tol=0)
    mu = niw.get_mu_ce()
    cx.leq(np.abs(np.asarray(mu) - m1), 1e-9 * (np.abs(m1) + sd), "classical-equivalent mean", tol=0)
    Sce = niw.get_sigma_ce()
    cx.leq(np.abs(np.asarray(Sce) - nu1 / (nu1 + n + 1) * S1), 1e-8 * np.outer(sd, sd), "classical-equivalent covariance", tol=0)
    p = float(rng.uniform(0.01, 0.99))
    k = n * (n + 1) // 2
    cf = nu1 / (nu1 + n + 1) + math.sqrt(2 * nu1 ** 2 * chi2.ppf(p, k) / (nu1 + n + 1) ** 3)
    cx.close(niw.cred_radius_sigma_factor(p), cf, "dispersion credibility factor", rtol=1e-9)
    if nu1 <= 2:
        cx.raises(niw.get_S_mu, "mean uncertainty without enough degrees of freedom raises", types=(ValueError,))
        cx.raises(lambda: niw.cred_radius_mu(p), "credibility without enough degrees of freedom raises", types=(ValueError,))
        cx.event("undefined uncertainty")
        return
    Sm = niw.get_S_mu()
    cx.leq(np.abs(np.asarray(Sm) - nu1 / (T1 * (nu1 - 2)) * S1), 1e-8 * np.outer(sd, sd), "mean uncertainty", tol=0)
    if frame:
        for M in (Sce, Sm, post.sigma1):
            cx.check(list(M.index) == names and list(M.columns) == names, "posterior keeps the prior's labels")
        cx.check(list(mu.index) == names and list(post.mu1.index) == names, "posterior keeps the prior's labels")
    cx.close(niw.cred_radius_mu(p), math.sqrt(chi2.ppf(p, n) / T1 * nu1 / (nu1 - 2)), "mean credibility radius", rtol=1e-9)
    cx.raises(lambda: niw.update(am, aS, T), "a second update on the same object raises", types=(RuntimeError,))
    rb = RobustBayesPosterior.from_niw(prior_mu=pm, prior_sigma=pS, t0=t0, nu0=nu0, sample_mu=am, sample_sigma=aS, n_obs=T)
    for a, b in ((rb.mu, mu), (rb.sigma, Sce), (rb.s_mu, Sm), (rb.sigma1, post.sigma1)):
        cx.close(a, b, "posterior bundle equals the update", rtol=1e-9, atol=1e-14)
        if frame:
            cx.check(a.index.equals(b.index), "posterior bundle keeps the labels")
    cx.close(rb.cred_radius_mu(p), niw.cred_radius_mu(p), "bundle radii equal the update's", rtol=1e-9)
    cx.close(rb.cred_radius_sigma_factor(p), cf, "bundle radii equal the update's", rtol=1e-9)
    fn = dict(prior_mu=pm, prior_sigma=pS, t0=t0, nu0=nu0, sample_mu=am, sample_sigma=aS, n_obs=T)
    for got in (posterior_moments_niw(**fn), posterior_moments_niw_with_uncertainty(**fn)):
        for a, b in zip(got, (mu, Sce, Sm)):
            cx.close(a, b, "functional form equals the update", rtol=1e-12, atol=1e-15)
            if frame:
                cx.check(a.index.equals(b.index), "functional form keeps the labels")
    # horizon scaling
    h = float(rng.choice([1.0, 12.0, 52.0, 0.5]))
    cx.close(rb.mean_uncertainty_cov_log(annualization_factor=h), h * h * np.asarray(Sm), "mean uncertainty scales with the square of the horizon", rtol=1e-10)
    m, G = np.asarray(mu), np.asarray(Sm)
    for exact in (False, True):
        sc = np.exp(h * m + (0.5 * h * np.diag(np.asarray(Sce)) if exact else 0))
        want = np.outer(sc, sc) * h * h * G
        opt = {} if not exact and rng.random() < .5 else {"exact": exact}
        if h != 1.0 or rng.random() < .5:
            opt["annualization_factor"] = h
        got = rb.mean_uncertainty_cov_simple(**opt)
        cx.close(got, want, "simple-return uncertainty is the delta-method image", rtol=1e-9, atol=0)
        if frame:
            cx.check(list(got.index) == names, "simple-return uncertainty keeps the labels")


@scenario(SCN, 3000, need=["split"])
def batches(cx):
    """Updating with two samples in turn equals updating with their union, in either order."""
    rng = cx.rng
    n, mu0, S0, t0, nu0, T, X, frame, names = world(rng)
    k = int(rng.integers(1, T))
    pm, pS = lab(rng, names, mu0, S0)

    def up(m, S, t, nu, Y):
        a, B = stats(Y)
        if len(Y) <= n:
            B = B  # singular batches are legal (jittered check only)
        post = NIWPosterior(m, S, t, nu).update(*lab(rng, names, a, B), len(Y))
        return post.mu1, post.sigma1, post.T1, post.nu1

    cx.note(prior_mu=pm, prior_sigma=pS, t0=t0, nu0=nu0, X=X, k=k)
    cx.state(n, t0, nu0, T, frame, k < n)
    try:
        whole = up(pm, pS, t0, nu0, X)
        ab = up(*up(pm, pS, t0, nu0, X[:k]), X[k:])
        ba = up(*up(pm, pS, t0, nu0, X[k:]), X[:k])
    except RuntimeError:
        cx.stop("degenerate batch")
    sd = np.sqrt(np.diag(np.asarray(whole[1])))
    for other in (ab, ba):
        cx.check(other[2:] == whole[2:], "pseudo-counts of consecutive updates add up")
        cx.leq(np.abs(np.asarray(other[0]) - np.asarray(whole[0])), 1e-9 * (sd + np.abs(np.asarray(whole[0]))), "consecutive updates equal one update (location)", tol=0)
        cx.leq(np.abs(np.asarray(other[1]) - np.asarray(whole[1])), 1e-8 * np.outer(sd, sd), "consecutive updates equal one update (dispersion)", tol=0)
    cx.event("split")


@scenario(SCN, 2500, need=["shrinks"])
def limits(cx):
    rng = cx.rng
    n, mu0, S0, t0, nu0, T, X, frame, names = world(rng)
    sm, ss = stats(X)
    cx.note(mu0=mu0, S0=S0, t0=t0, nu0=nu0, sample_mu=sm, sample_sigma=ss)
    cx.state(n, t0, nu0, T)
    prev = None
    p = float(rng.uniform(0.05, 0.95))
    for N in (T, 3 * T, 20 * T, 10 ** 7):
        niw = NIWPosterior(mu0, S0, t0, nu0)
        niw.update(sm, ss, N)
        r, rho = niw.cred_radius_mu(p), np.trace(niw.get_S_mu())
        w = niw.get_mu_ce()
        cx.leq(np.minimum(mu0, sm) - 1e-12, w, "posterior mean lies between prior and sample", tol=1e-12)
        cx.leq(w, np.maximum(mu0, sm) + 1e-12, "posterior mean lies between prior and sample", tol=1e-12)
        if prev:
            cx.leq(r, prev[0] * (1 - 1e-9), "credibility radius shrinks with data", tol=0)
        prev = (r, rho)
    cx.leq(np.abs(w - sm), 1e-3 * (np.abs(mu0 - sm) + 1e-6), "much data outweighs the prior mean", tol=0)
    cx.leq(np.abs(niw.get_sigma_ce() - ss), 1e-2 * (np.abs(S0 - ss) + np.outer(mu0 - sm, mu0 - sm).__abs__() + np.abs(ss)) + 1e-12, "much data outweighs the prior covariance", tol=0)
    cx.event("shrinks")
    niw = NIWPosterior(mu0, S0, 10 ** 8, 10 ** 8)
    niw.update(sm, ss, T)
    cx.leq(np.abs(niw.get_mu_ce() - mu0), 1e-4 * np.abs(mu0 - sm) + 1e-12, "a certain prior keeps its mean", tol=0)
    q1, q2 = sorted(rng.uniform(0.01, 0.99, 2))
    if q2 - q1 > 1e-6:
        cx.check(niw.cred_radius_mu(q1) < niw.cred_radius_mu(q2), "credibility radius grows with confidence")
        cx.check(niw.cred_radius_sigma_factor(q1) < niw.cred_radius_sigma_factor(q2), "credibility factor grows with confidence")
    d = int(rng.integers(1, 40))
    x = chi2_quantile(float(q1), d)
    cx.close(chi2.cdf(x, d), q1, "chi-square quantile inverts the distribution", rtol=1e-8)
    cx.close(chi2_quantile(float(q1), d, sqrt=True), math.sqrt(x), "chi-square root quantile", rtol=1e-12)
    # reordering the assets
    o = rng.permutation(n)
    a = NIWPosterior(mu0, S0, t0, nu0).update(sm, ss, T)
    b = NIWPosterior(mu0[o], S0[np.ix_(o, o)], t0, nu0).update(sm[o], ss[np.ix_(o, o)], T)
    cx.close(b.mu1, a.mu1[o], "asset order does not matter", rtol=1e-10, atol=1e-14)
    cx.close(b.sigma1, a.sigma1[np.ix_(o, o)], "asset order does not matter", rtol=1e-9, atol=1e-16)


@scenario(SCN, 1200, need=["raised:ValueError"])
def malformed(cx):
    rng = cx.rng
    n, mu0, S0, t0, nu0, T, X, frame, names = world(rng)
    sm, ss = stats(X)
    x = float(rng.choice([np.nan, np.inf, -np.inf]))
    i = int(rng.integers(n))

    def b(a):
        a = a.copy()
        a[(i,) * a.ndim] = x
        return a

    pm, pS = lab(rng, names, mu0, S0)
    V = ValueError
    ok = lambda: NIWPosterior(pm, pS, t0, nu0)
    cases = {
        "prior mean": lambda: NIWPosterior(b(mu0), S0, t0, nu0), "prior covariance": lambda: NIWPosterior(mu0, b(S0), t0, nu0),
        "sample mean": lambda: ok().update(b(sm), ss, T), "sample covariance": lambda: ok().update(sm, b(ss), T),
        "t0": lambda: NIWPosterior(pm, pS, int(rng.choice([0, -1])), nu0), "nu0": lambda: NIWPosterior(pm, pS, t0, -1),
        "observations": lambda: ok().update(sm, ss, int(rng.choice([0, -4]))),
        "length": lambda: ok().update(np.zeros(n + 1), ss, T), "shape": lambda: ok().update(sm, np.eye(n + 1), T),
        "prior shape": lambda: NIWPosterior(mu0, np.eye(n + 1), t0, nu0), "empty": lambda: NIWPosterior(np.zeros(0), np.zeros((0, 0)), t0, nu0),
        "2-D mean": lambda: NIWPosterior(mu0[:, None], S0, t0, nu0),
        "confidence": lambda: chi2_quantile(float(rng.choice([0, 1, -1, 1.2, np.nan])), n),
    }
    if frame:
        cases["labels"] = lambda: NIWPosterior(pm, pS.rename(index={names[0]: "x"}, columns={names[0]: "x"}), t0, nu0)
        cases["sample labels"] = lambda: ok().update(pd.Series(sm, index=names).rename({names[0]: "x"}), ss, T)
        cases["sample matrix labels"] = lambda: ok().update(sm, pd.DataFrame(ss, index=names, columns=names).rename(index={names[0]: "x"}, columns={names[0]: "x"}), T)
    k = list(cases)[cx.index % len(cases)]
    cx.note(n=n, x=x, i=i)
    cx.state(k, frame)
    cx.raises(cases[k], "unusable statistics are rejected", types=(V,), kind=k)
    bad = NIWPosterior(mu0, S0 if n > 1 else S0, t0, 0)
    bad.update(sm, ss if n > 1 else ss, 2)
    cx.raises(bad.get_S_mu, "mean uncertainty without enough degrees of freedom raises", types=(V,))
    cx.raises(lambda: bad.cred_radius_mu(.5), "credibility without enough degrees of freedom raises", types=(V,))
    for p in (0.0, 1.0, -0.2, 1.3, np.nan):
        cx.raises(lambda: bad.cred_radius_sigma_factor(p), "confidence outside (0, 1) raises", types=(V,))
