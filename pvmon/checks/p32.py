"""P32: results depend only on the arguments; no call leaves process-wide state changed."""
import functools
import inspect
import json
import os
import subprocess
import sys
import threading
import time

import numpy as np
import pandas as pd
from cvxopt import solvers
from pyvallocation import AssetsDistribution, PortfolioWrapper, TransactionCosts

from .. import calls, gen, watch, zygote
from ..core import scenario

SCN = []
QUICK_FACTOR = 1  # relative cost of this check
ASSUMPTIONS = ["one process uses one BLAS with a fixed thread count, so repeating a computation is bit-identical",
               "importing the library may configure CVXOPT once; the watched state is that after import",
               "matplotlib and the warnings module are not thread-safe themselves: concurrent runs exclude plotting and the warning filters"]
NAMES = sorted(calls.TABLE)
PLOTS = {n for n in NAMES if n.startswith("plot_")}
REJECT = (ValueError, TypeError, KeyError, RuntimeError, IndexError, ArithmeticError, AttributeError, AssertionError)


PRISTINE = True  # workers keep a process that has imported the library and executed none of it


def once(seed, name, shape=None):
    return execute(calls.build(np.random.default_rng(seed), name, shape))


def fresh(seed, name, shape=None):
    """The call's result in a process with no history."""
    return zygote.fresh(__name__, "once", seed, name, shape)


def execute(c, args=None):
    try:
        return watch.fingerprint(c(args))
    except REJECT as e:
        return ("raised", type(e).__name__, str(e)[:120])


def state(cx, what, before):
    now = watch.process_state()
    for k in before:
        if before[k] is None and k == "matplotlib rcParams":
            continue  # first import of matplotlib
        cx.check(now[k] == before[k], f"{what}: {k} as before", before=str(before[k])[:300], now=str(now[k])[:300])
    cx.event("state snapshots")


def disturb(cx, rng, A, seeds):
    """One arbitrary call in between: other arguments, same entry, corrupted, or with a failing solver."""
    mode = str(rng.choice(["other", "other", "sibling", "corrupt", "solver raises", "solver fails"]))
    seed = int(rng.integers(1 << 60))
    seeds.append((mode, seed))
    r = np.random.default_rng(seed)
    B = calls.build(r, A.name if mode == "sibling" else None, getattr(A, "shape", None))
    cx.event("between:" + mode)
    if mode == "corrupt":
        bad = calls.corrupt(r, B)
        execute(B, bad[0] if bad else None)
    elif mode == "solver raises":
        with watch.solver_trace(exc=ArithmeticError("injected")):
            execute(B)
    elif mode == "solver fails":
        with watch.solver_trace(fail=lambda i, s: "unknown"):
            execute(B)
    else:
        execute(B)
    return mode


@scenario(SCN, 700, thorough=7000, need=["repeated calls", "state snapshots", "between:sibling", "between:corrupt", "between:solver raises", "between:solver fails"])
def repeated(cx):
    """A call, an arbitrary history, the same call again: identical results, unchanged process state."""
    rng = cx.rng
    name, seed = NAMES[cx.index % len(NAMES)], int(rng.integers(1 << 60))
    shape = (int(rng.integers(3, 6)), int(rng.integers(24, 50)), gen.strlabels(rng, 5) if rng.random() < .6 else None)
    shape = (shape[0], shape[1], shape[2][: shape[0]] if shape[2] else None)
    mk = lambda: calls.build(np.random.default_rng(seed), name, shape)
    np.random.seed(int(rng.integers(1 << 31)))
    A = mk()
    A.shape = shape
    st = watch.process_state()
    first = execute(A)
    state(cx, name, st)
    hist = []
    for _ in range(int(rng.integers(1, 4))):
        np.random.seed(int(rng.integers(1 << 31)))
        st = watch.process_state()
        mode = disturb(cx, rng, A, hist)
        state(cx, f"a call ({mode})", st)
    cx.note(call=name, history=hist, seed=seed, shape=shape)
    cx.state(name, tuple(m for m, _ in hist), first[0] == "raised")
    again = execute(A)
    cx.check(again == first, f"{name}: same arguments, same result after other calls", first=str(first)[:400], again=str(again)[:400])
    anew = execute(mk())
    cx.check(anew == first, f"{name}: equal arguments, same result after other calls", first=str(first)[:400], again=str(anew)[:400])
    if name not in PLOTS:
        want = fresh(seed, name, shape)
        cx.check(want == first, f"{name}: same result as in a process without history", got=str(first)[:400], want=str(want)[:400])
        cx.event("compared with a pristine process")
    cx.event("repeated calls" if first[0] != "raised" else "rejected:" + name)


@scenario(SCN, 500, thorough=4000, need=["overwritten in place"])
def overwritten(cx):
    """The caller reuses its buffers: a call sees the values they hold now, not the ones seen by an earlier call."""
    rng = cx.rng
    name = [n for n in NAMES if n not in PLOTS][cx.index % (len(NAMES) - len(PLOTS))]
    n = int(rng.integers(3, 6))
    shape = (n, int(rng.integers(24, 50)), gen.strlabels(rng, n) if rng.random() < .6 else None)
    s1, s2 = int(rng.integers(1 << 60)), int(rng.integers(1 << 60))
    A, B, C = (calls.build(np.random.default_rng(s), name, shape) for s in (s1, s2, s2))
    args = dict(B.args)
    swapped = []
    for k, v in B.args.items():
        a = A.args.get(k)
        if type(a) is not type(v) or np.shape(a) != np.shape(v):
            continue
        if isinstance(v, np.ndarray) and a.dtype == v.dtype and a.flags.writeable:
            swapped.append((k, a, v))
        elif isinstance(v, pd.Series) and list(a.index) == list(v.index) and a.dtype == v.dtype:
            swapped.append((k, a, v))
        elif isinstance(v, pd.DataFrame) and list(a.index) == list(v.index) and list(a.columns) == list(v.columns):
            swapped.append((k, a, v))
    if not swapped:
        cx.stop("nothing to overwrite")
    execute(A)
    for k, a, v in swapped:
        if isinstance(a, np.ndarray):
            a[...] = v
        else:
            a.iloc[...] = v.to_numpy()
        args[k] = a
    cx.note(call=name, seeds=(s1, s2), args=[k for k, _, _ in swapped])
    cx.state(name, len(swapped), shape[2] is None)
    got, want = execute(B, args), execute(C)
    cx.check(got == want, f"{name}: a reused buffer is read afresh", got=str(got)[:400], want=str(want)[:400])
    cx.event("overwritten in place")


def altered(rng, sig, args, kw):
    """The same call with one option changed (None if it cannot be changed)."""
    try:
        b = sig.bind(*args, **kw)
    except TypeError:
        return None
    b.apply_defaults()
    names = [k for k, p in sig.parameters.items() if k not in ("self", "cls") and p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD)]
    if any(isinstance(v, (np.random.Generator, np.random.RandomState)) for v in b.arguments.values()):
        return None
    for k in rng.permutation(names).tolist():
        v = b.arguments.get(k)
        if isinstance(v, (bool, np.bool_)):
            w = not v
        elif isinstance(v, (int, np.integer)):
            w = int(v) + 1
        elif isinstance(v, (float, np.floating)):
            w = float(v) * .9 if v else .01
        elif isinstance(v, (np.ndarray, pd.Series, pd.DataFrame)) and np.asarray(v).dtype.kind == "f" and np.asarray(v).size:
            if rng.random() < .5:
                w = v * 1.02
            else:  # same values in another order: equal shape, sum and extremes
                a = np.asarray(v)[::-1].copy()
                w = a if isinstance(v, np.ndarray) else pd.Series(a, index=v.index) if isinstance(v, pd.Series) else pd.DataFrame(a, index=v.index, columns=v.columns)
        elif v is None and sig.parameters[k].default is None:
            continue
        else:
            continue
        b.arguments[k] = w
        return b.args, b.kwargs, k
    return None


SKIP = {"update", "__repr__", "__str__"}


class Interference:
    """While active, every public function, method and constructor of the library first runs with one option altered."""

    def __init__(self, rng, rate, budget=40):
        self.rng, self.rate, self.budget, self.busy, self.seen, self.undo = rng, rate, budget, False, [], []

    def wrap(self, f, label, ctor=None):
        sig = inspect.signature(f)

        @functools.wraps(f)
        def g(*a, **k):
            if not self.busy and self.budget > 0 and self.rng.random() < self.rate:
                alt = altered(self.rng, sig, a, k)
                if alt is not None:
                    self.busy, self.budget = True, self.budget - 1
                    args, kw, what = alt
                    if ctor is not None:
                        args = (object.__new__(type(a[0])),) + tuple(args[1:])
                    try:
                        r = f(*args, **kw)
                        if inspect.isgenerator(r):
                            r.close()
                    except REJECT:
                        pass
                    finally:
                        self.busy = False
                    self.seen.append((label, what))
            return f(*a, **k)
        return g

    def put(self, owner, name, value):
        self.undo.append((owner, name, owner.__dict__[name]))
        setattr(owner, name, value)

    def __enter__(self):
        mods = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "pyvallocation" and m is not None and "plotting" not in n]
        done, classes = {}, set()
        for m in mods:
            for n, o in list(vars(m).items()):
                if inspect.isfunction(o) and (o.__module__ or "").startswith("pyvallocation") and "plotting" not in o.__module__ and not o.__name__.startswith("_"):
                    if o not in done:
                        done[o] = self.wrap(o, o.__name__)
                    self.put(m, n, done[o])
                elif inspect.isclass(o) and o.__module__.startswith("pyvallocation") and not issubclass(o, Exception) and o not in classes:
                    classes.add(o)
                    for k, v in list(vars(o).items()):
                        if k in SKIP or (k.startswith("_") and k != "__init__"):
                            continue
                        if isinstance(v, classmethod):
                            self.put(o, k, classmethod(self.wrap(v.__func__, f"{o.__name__}.{k}")))
                        elif inspect.isfunction(v):
                            self.put(o, k, self.wrap(v, f"{o.__name__}.{k}", ctor=o if k == "__init__" else None))
        return self

    def __exit__(self, *exc):
        for owner, name, value in reversed(self.undo):
            setattr(owner, name, value)


@scenario(SCN, 1200, thorough=10000, need=["altered calls", "functions altered", "compared with a pristine process"])
def interference(cx):
    """Inside a call, each public function first runs with one option altered: the call's result does not notice."""
    rng = cx.rng
    pool = [n for n in NAMES if n not in PLOTS]
    name, seed = pool[cx.index % len(pool)], int(rng.integers(1 << 60))
    mk = lambda: calls.build(np.random.default_rng(seed), name)
    want = fresh(seed, name)
    B = mk()
    with Interference(np.random.default_rng(int(rng.integers(1 << 60))), float(rng.choice([1.0, .5, .2]))) as it:
        got = execute(B)
    cx.note(call=name, seed=seed, altered=it.seen[:40])
    cx.state(name, want[0] == "raised", tuple(sorted({s for s in it.seen}))[:6])
    cx.check(got == want, f"{name}: same result when the same functions just ran with other options", got=str(got)[:400], want=str(want)[:400], altered=it.seen[-12:])
    cx.event("compared with a pristine process")
    cx.event("altered calls", len(it.seen))
    for s, _ in set(it.seen):
        cx.event("altered:" + s)
    cx.event("functions altered", len({s for s, _ in it.seen}))


def make_wrapper(seed):
    W = calls.World(np.random.default_rng(seed))
    d = AssetsDistribution(mu=W.mu, cov=W.S, scenarios=W.R, probabilities=W.p_.copy())
    c = TransactionCosts(**W.costs()) if seed % 2 else None
    return W, PortfolioWrapper(d, constraints=W.con(), costs=c)


def wrapper_steps(W):
    U = W.U
    con2 = {"long_only": True, "total_weight": 1.0, "bounds": [(0.0, .9)] * W.n}
    con3 = {"long_only": False, "total_weight": 1.0, "bounds": (-.3, 1.0)}
    k2 = TransactionCosts(**W.costs())
    tgt = float(W.mu_ @ W.w_) * .9
    return {
        "variance_frontier": lambda w: w.variance_frontier(4), "larger frontier": lambda w: w.variance_frontier(7), "cvar_frontier": lambda w: w.cvar_frontier(3, alpha=.1),
        "cvar at another level": lambda w: w.cvar_frontier(3, alpha=.3), "override": lambda w: w.variance_frontier(3, constraints=con2), "short override": lambda w: w.variance_frontier(3, constraints=con3),
        "costs override": lambda w: w.variance_frontier(3, costs=k2), "cvar override": lambda w: w.cvar_frontier(2, constraints=con2, costs=k2),
        "robust": lambda w: w.robust_lambda_frontier(3, 1.0), "robust with own uncertainty": lambda w: w.robust_lambda_frontier(lambdas=[0.0, .5], return_cov=U),
        "gamma": lambda w: w.solve_robust_gamma_portfolio(.3, 9.0), "parity": lambda w: w.relaxed_risk_parity_portfolio(lambda_reg=.1, constraints=con2),
        "parity frontier": lambda w: w.relaxed_risk_parity_frontier(3, 1.2, constraints=con2), "target": lambda w: w.min_variance_at_return(tgt), "cvar target": lambda w: w.min_cvar_at_return(0.0),
        "infeasible target": lambda w: w.min_variance_at_return(1e3), "infeasible": lambda w: w.variance_frontier(3, constraints={"bounds": (2.0, 3.0)}), "spec": lambda w: w.make_ensemble_spec("s", selector="min_risk", optimiser_kwargs={"num_portfolios": 3}).frontier_factory(),
    }


def attempt(f, x):
    try:
        return watch.fingerprint(f(x))
    except REJECT as e:
        return ("raised", type(e).__name__, str(e)[:120])


def wrapper_step(seed, name):
    W, w = make_wrapper(seed)
    return attempt(wrapper_steps(W)[name], w)


@scenario(SCN, 260, thorough=2500, need=["wrapper steps", "failed steps", "overrides"])
def one_wrapper(cx):
    """A wrapper used for many portfolios answers each request as a fresh wrapper in a fresh process would."""
    rng = cx.rng
    seed = int(rng.integers(1 << 60))
    W, w = make_wrapper(seed)
    steps = wrapper_steps(W)
    order = [list(steps)[i] for i in rng.integers(0, len(steps), 7)]
    cx.note(order=order, seed=seed)
    cx.state(tuple(order[:3]))
    st = watch.process_state()
    for i, nm in enumerate(order):
        if rng.random() < .15:
            with watch.solver_trace(exc=ArithmeticError("injected")):
                attempt(steps[nm], w)
            cx.event("failed steps")
        got = attempt(steps[nm], w)
        want = zygote.fresh(__name__, "wrapper_step", seed, nm)
        cx.check(got == want, f"{nm}: a used wrapper answers like a fresh one", position=i, order=order, got=str(got)[:300], want=str(want)[:300])
        cx.event("wrapper steps")
        cx.event("failed steps", got[0] == "raised")
        cx.event("overrides", "override" in nm)
    state(cx, "wrapper calls", st)


@scenario(SCN, 24, thorough=120, need=["overlapping calls", "solver pauses"])
def overlapping(cx):
    """Calls running at the same time in several threads, with forced switches inside their solves, give their serial results."""
    rng = cx.rng
    # the warnings machinery and pyplot are not thread-safe in themselves; random state is per call
    pool = [n for n in NAMES if n not in PLOTS and n not in ("nls", "estimate_moments")]
    seeds = [(str(rng.choice(pool if rng.random() < .6 else ["stacking", "variance_frontier", "scenario_frontiers", "robust_frontier", "frontier_combinations", "parity", "risk_parity_class"])),
              int(rng.integers(1 << 60))) for _ in range(8)]
    mk = lambda s: calls.build(np.random.default_rng(s[1]), s[0])
    want = [execute(mk(s)) for s in seeds]
    cs = [mk(s) for s in seeds]
    st = watch.process_state()
    got = [None] * len(cs)
    pauses = [0]
    gate = np.random.default_rng(int(rng.integers(1 << 60)))
    delays = list(gate.choice([0, 0, .0005, .003], 400))

    def pause():
        pauses[0] += 1
        time.sleep(float(delays[pauses[0] % 400]))

    def run(i):
        got[i] = execute(cs[i])
    cx.note(calls=seeds)
    cx.state(tuple(sorted(s[0] for s in seeds)))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with watch.solver_trace(pause=pause) as tr:
            ts = [threading.Thread(target=run, args=(i,)) for i in range(len(cs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
    finally:
        sys.setswitchinterval(old)
    cx.check(all(g is not None for g in got), "overlapping calls all end", calls=seeds)
    for s, g, w in zip(seeds, got, want):
        cx.check(g == w, f"{s[0]}: same result while other calls run", seed=s[1], got=str(g)[:300], want=str(w)[:300])
    before = {k: v for k, v in st.items() if k != "warning filters"}
    state(cx, "overlapping calls", before)
    cx.event("overlapping calls", len(cs))
    cx.event("solver pauses", pauses[0])
    cx.event("solver calls", len(tr))


@scenario(SCN, 60, thorough=400, need=["overlap forced"])
def forced_overlap(cx):
    """A call is held inside its solve while another call starts and ends (and the other way round)."""
    rng = cx.rng
    pool = ["stacking", "variance_frontier", "scenario_frontiers", "robust_frontier", "frontier_combinations", "parity_frontier", "mean_cvar_class", "max_sharpe_class", "robust_gamma", "assembled"]
    a, b = (str(rng.choice(pool)) for _ in range(2))
    if rng.random() < .5:
        a = "stacking" if rng.random() < .6 else "frontier_combinations"
    sa, sb = int(rng.integers(1 << 60)), int(rng.integers(1 << 60))
    mk = lambda n, s: calls.build(np.random.default_rng(s), n)
    A, B = mk(a, sa), mk(b, sb)
    wa, wb = execute(mk(a, sa)), execute(mk(b, sb))
    st = watch.process_state()
    hold, inside, res = threading.Event(), threading.Event(), {}
    nested = bool(rng.random() < .5)  # B entirely inside A's solve, or A ends inside B's solve
    inB = threading.Event()

    def pause():
        me = threading.current_thread().name
        if me == "A" and not inside.is_set():
            inside.set()
            hold.wait(10)
        elif me == "B" and not nested and not inB.is_set():
            inB.set()
            hold.set()
            ta.join(10)

    def run(name, c):
        res[name] = execute(c)
    with watch.solver_trace(pause=pause):
        ta = threading.Thread(target=run, args=("A", A), name="A")
        ta.start()
        while ta.is_alive() and not inside.wait(.01):
            pass
        if not inside.is_set():
            cx.event("no solve inside")
        tb = threading.Thread(target=run, args=("B", B), name="B")
        tb.start()
        if nested:
            tb.join(60)
            hold.set()
        ta.join(60)
        hold.set()
        tb.join(60)
    cx.note(A=(a, sa), B=(b, sb), nested=nested)
    cx.state(a, b, nested)
    cx.check(res.get("A") == wa, f"{a}: same result when overlapped by another call", other=b, got=str(res.get("A"))[:300], want=str(wa)[:300])
    cx.check(res.get("B") == wb, f"{b}: same result when overlapping another call", other=a, got=str(res.get("B"))[:300], want=str(wb)[:300])
    state(cx, "overlapping calls", {k: v for k, v in st.items() if k != "warning filters"})
    cx.event("overlap forced")


CHILD = """
import sys, json, logging, warnings, hashlib
warnings.simplefilter("ignore"); logging.disable(50)
import numpy as np
from pvmon import calls
from pvmon.checks.p32 import execute
out = []
for name, seed in json.loads(sys.stdin.read()):
    out.append(hashlib.sha1(repr(execute(calls.build(np.random.default_rng(seed), name))).encode()).hexdigest())
print("RESULT" + json.dumps(out))
"""


@scenario(SCN, 6, thorough=24, need=["compared with a fresh process"])
def fresh_process(cx):
    """The same calls in a new process, in another order and with another hash seed."""
    import hashlib
    rng = cx.rng
    todo = [(n, int(rng.integers(1 << 60))) for n in rng.permutation([n for n in NAMES if n not in PLOTS])[:25].tolist()]
    for _ in range(3):
        execute(calls.build(rng))
    mine = {t: hashlib.sha1(repr(execute(calls.build(np.random.default_rng(t[1]), t[0]))).encode()).hexdigest() for t in todo}
    other = [todo[i] for i in rng.permutation(len(todo))]
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 10000))), PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
    r = subprocess.run([sys.executable, "-c", CHILD], input=json.dumps(other), capture_output=True, text=True, env=env, timeout=300)
    line = [x for x in r.stdout.splitlines() if x.startswith("RESULT")]
    if r.returncode or not line:
        cx.violate("the same calls run in a fresh process", stderr=r.stderr[-2000:])
        return
    for t, h in zip(other, json.loads(line[0][6:])):
        cx.check(h == mine[t], f"{t[0]}: same result as in a fresh process", seed=t[1])
        cx.event("compared with a fresh process")
    cx.state(cx.index)


@scenario(SCN, 8, thorough=40, need=["simulated panels", "seed zero"])
def simulated(cx):
    """Moments-only wrappers draw the panel of the given seed on every call, whatever ran before."""
    rng = cx.rng
    seed = int(rng.integers(1 << 60))
    s = 0 if cx.index % 2 == 0 else gen.seed(rng)
    mu, w = moment_wrapper(seed)
    want = zygote.fresh(__name__, "simulated_step", seed, s)
    cx.state(s == 0)
    cx.event("seed zero", s == 0)
    if rng.random() < .5:
        attempt(lambda x: x.min_cvar_at_return(float(mu.mean()), alpha=.1, seed=s + 1), w)
        w.variance_frontier(3)
    for _ in range(2):
        got = simulated_call(w, mu, s)
        cx.check(got == want, "a seeded simulation gives the same portfolio on every call", seed=s, got=str(got)[:300], want=str(want)[:300])
        cx.event("simulated panels")


def moment_wrapper(seed):
    r = np.random.default_rng(seed)
    mu = r.normal(.05, .02, 2)
    return mu, PortfolioWrapper(AssetsDistribution(mu=mu, cov=gen.cov(r, 2, scale=.2)))


def simulated_call(w, mu, s):
    return attempt(lambda x: x.min_cvar_at_return(float(mu.mean()), alpha=.1, seed=s), w)


def simulated_step(seed, s):
    mu, w = moment_wrapper(seed)
    return simulated_call(w, mu, s)
