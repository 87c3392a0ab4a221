"""Runtime monitors for Py-vAllocation: workloads, oracles, verdicts."""
