"""Static value-flow analyser for SunPower/pvfactors (stdlib only)."""
