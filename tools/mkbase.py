"""Refresh sa/base: the repository text that the checks have accepted (docstrings and comments
removed). Run by hand after a change of /repo that every check accepts; never by a check."""
import ast
import os
import shutil
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'sa', 'base')


def main():
    shutil.rmtree(OUT, ignore_errors=True)
    files = subprocess.run(['git', '-C', '/repo', 'ls-files', 'qiskit/ignis'], check=True,
                           capture_output=True, text=True).stdout.split()
    for f in files:
        if not f.endswith('.py'):
            continue
        src = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], check=True,
                             capture_output=True, text=True).stdout
        tree = ast.parse(src)
        for n in ast.walk(tree):
            b = getattr(n, 'body', None)
            if isinstance(b, list):
                k = [s for s in b if not (isinstance(s, ast.Expr) and
                                          isinstance(s.value, ast.Constant))]
                n.body = k or ([ast.Pass()] if b else [])
        p = os.path.join(OUT, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding='utf-8') as fh:
            fh.write(ast.unparse(ast.fix_missing_locations(tree)) + '\n')


if __name__ == '__main__':
    main()
