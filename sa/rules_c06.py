"""C06: the raise condition of every function with a reference definition."""
import os
import refs


def rule(prog, rep, tier):
    names = sorted(x for x in os.listdir(os.path.join(refs.HERE, 'specs')) if x.endswith('.py'))
    for fname in names:
        refs.run(prog, rep, fname, focus='raises')
