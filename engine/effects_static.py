"""static import closure of package modules (shared by effects.py and decide.py)"""
import ast
import os


def deps_of(repo, mod, _memo={}):
    """package modules imported by the source text of `mod` (static over-approximation)"""
    if (repo, mod) not in _memo:
        out = []
        with open(os.path.join(repo, 'pyasn1_modules', mod + '.py')) as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom):
                if n.module == 'pyasn1_modules' or (n.level and not n.module):
                    out += [a.name for a in n.names]
                elif n.module and n.module.startswith('pyasn1_modules.'):
                    out.append(n.module.split('.')[1])
                elif n.level and n.module:
                    out.append(n.module.split('.')[0])
            elif isinstance(n, ast.Import):
                out += [a.name.split('.')[1] for a in n.names if a.name.startswith('pyasn1_modules.')]
        _memo[repo, mod] = [x for x in dict.fromkeys(out)
                            if os.path.exists(os.path.join(repo, 'pyasn1_modules', x + '.py'))]
    return _memo[repo, mod]


def closure(repo, mod, memo):
    """modules `mod` can cause to be loaded (static over-approximation, itself included)"""
    if mod not in memo:
        memo[mod] = {mod}
        todo = [mod]
        while todo:
            for d in deps_of(repo, todo.pop()):
                if d not in memo[mod]:
                    memo[mod].add(d)
                    todo.append(d)
    return memo[mod]
