"""Per-property technique and level notes for MANIFEST.json (the text is the design in one line)."""
TECH = {
 "P01": "membership monitor over returned weights, against an independent reading of the declared constraints, across all optimisers and wrapper calls",
 "P02": "outcome monitor with certified feasible / infeasible requests and fault-injected solver statuses",
 "P03": "optimality-certificate monitor (projected first-order gap by LP, plus feasible challengers) on returned mean-variance portfolios and frontiers, with injected stalls",
 "P04": "reference-optimum monitor (independent HiGHS linear programme and direct CVaR) on returned tail-loss portfolios",
 "P05": "optimality-certificate monitor (supergradient gap by LP) for worst-case objectives, and radius recomputation",
 "P06": "risk-contribution monitor plus optimality certificates over captured solves, with clipped and binding targets",
 "P07": "challenger and first-order-certificate monitor of the Sharpe ratio",
 "P08": "trace monitor over the point sequence of frontiers (order, dominance, end points), incl. a fault-injected solver for the envelope",
 "P09": "recomputation monitor of every number and label attached to a portfolio",
 "P10": "exhaustive selection oracle over the points of generated frontiers",
 "P11": "cost-base monitor and certificates with labelled, shuffled holdings and rates",
 "P12": "definition oracle and coherence-axiom monitors on risk functions",
 "P13": "definition oracle over probability generators with extreme parameters",
 "P14": "Lagrangian-dual certificate monitor of the pooled probabilities; LP-certified unsatisfiable systems",
 "P15": "view-satisfaction and minimal-divergence monitor with an independent entropy-pooling oracle, chained block by block",
 "P16": "conjugate-update oracle (information form) and limit monitors",
 "P17": "conjugate-update oracle and history monitor (split samples, either order)",
 "P18": "published-definition oracles, fixed-point residual monitors and metamorphic (permutation, scale) monitors",
 "P19": "published-definition oracles, corruption-bound and partition-existence monitors",
 "P20": "closed-form oracles and round-trip monitors",
 "P21": "decoding monitor (each simulated row is explained as a sum of admissible rows), exact-law frequency test with bounded false-alarm probability, path/terminal differential",
 "P22": "per-row definition oracle and call recorder for column routing",
 "P23": "conservation monitor over allocations (cash, lots, tracking error)",
 "P24": "exhaustive lot-space enumeration oracle and greedy terminal-state monitor, with forced fallback",
 "P25": "convex-combination oracle and constraint-inheritance monitor",
 "P26": "independent quadratic-programme oracle of the cross-validation error",
 "P27": "differential monitor between assembled ensembles and hand-run pipelines over repeated histories, with call recorders",
 "P28": "differential monitor between stress reports and direct evaluation of their parts",
 "P29": "differential monitor across constructors, containers and spellings of one market",
 "P30": "metamorphic monitor (asset order, scenario order and splitting, units)",
 "P31": "deep-snapshot mutation monitor around every public call, failing and fault-injected calls included, and over results handed out earlier",
 "P32": "history monitor (repeat-after-history, buffer overwrite, altered-option interference, forced thread overlap, pristine-process comparison) and process-state snapshots",
 "P33": "definition oracle for reports, horizons and drawdowns over the recorded draws",
 "P35": "artist-data monitor: what each drawn chart holds is read back and compared with the objects it was given",
 "P34": "corruption monitor: valid calls damaged at one position must raise",
}
NOTES = {
 "P02": "Explores seeded random requests; feasibility and infeasibility are certified by an independent LP. Linearly dependent equality rows are outside the property (CVXOPT refuses them).",
 "P08": "Seeded random markets; markets whose returns differ by less than the solver's absolute accuracy are judged at that accuracy.",
 "P15": "Seeded random panels and views; non-mean moment views are judged at their documented linearisation.",
 "P21": "Frequencies are judged at six standard errors; the generator is seeded from VERIF_SEED, so a given seed always gives the same verdict.",
 "P24": "Exhaustive within lot spaces that can be enumerated (up to a few 10^5 allocations), sampled outside.",
 "P32": "Thread interleavings are forced at solver entry and by short switch intervals, not enumerated.",
}
