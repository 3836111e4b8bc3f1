"""Checks decided by comparison with a reference file (sa/specs)."""
import refs


def make(spec):
    def rule(prog, rep, tier):
        refs.run(prog, rep, spec)
    return rule
