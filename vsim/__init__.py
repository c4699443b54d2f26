"""vsim: deterministic simulation with fault injection for Thetis."""
