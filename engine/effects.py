"""Effect summaries of module bodies over an arbitrary prior registry state.

For one module m: every module m imports is loaded first, then each public registry
(module-level dict) of every loaded module is replaced by a SymbolicRegistry, whose prior
content is unknown: writes are recorded, any read of the content is recorded as a
dependency on the prior state.  Then the real body of m runs.  When no read was recorded
the resulting write list is m's effect for *every* prior content (no branch of the body
could have depended on it).  A question whether one key is present is answered from a script
of answers, so the caller can run the body once per combination of answers (one run per path);
any other read leaves a dependency.  A snapshot of everything else the loaded modules expose is
compared before/after (the frame).

usage: effects.py REPO MODULE [extra modules to load first ...]
Runs under the library's interpreter; prints JSON.
"""
import gc
import hashlib
import importlib
import importlib.util
import json
import os
import sys
import types

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
from effects_static import closure
from pyasn1.type import base

MISSING = object()


class SymbolicRegistry(dict):
    """dict of unknown prior content.  Concrete content is kept so that objects built on it
    work, but the recorded effect does not depend on it unless `reads` is non-empty."""

    def __init__(self, name, real, log):
        dict.__init__(self, real)
        self._name, self._log = name, log
        self._said = {}         # key -> presence assumed on this path or made true by a write
        self._mine = {}         # key -> value written on this path

    def _own(self):
        return self._log['armed']

    def _w(self, op, *a):
        if self._log['armed']:
            self._log['writes'].append((self._name, op) + a)

    def _did(self, k, v):
        if self._log['armed']:
            self._said[k] = True
            self._mine[k] = v

    def _ask(self, k):
        """is k there?  -> bool, one answer per key on one path"""
        if k not in self._said:
            n = len(self._log['asked'])
            a = self._log['script'][n] if n < len(self._log['script']) else False
            self._log['asked'].append((self._name, k, a))
            self._said[k] = a
        return self._said[k]

    def __contains__(self, k):
        return self._ask(k) if self._log['armed'] else dict.__contains__(self, k)

    def __getitem__(self, k):
        if self._log['armed']:
            if k in self._mine:
                return self._mine[k]
            if not self._ask(k):
                raise KeyError(k)
            self._r('__getitem__')
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        if self._log['armed']:
            if k in self._mine:
                return self._mine[k]
            if not self._ask(k):
                return d
            self._r('get')
        return dict.get(self, k, d)

    def _r(self, op):
        if self._log['armed']:
            self._log['reads'].append((self._name, op))

    def __setitem__(self, k, v):
        self._w('set', k, v)
        self._did(k, v)
        dict.__setitem__(self, k, v)

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self._w('set', k, v)
            self._did(k, v)
            dict.__setitem__(self, k, v)

    def __ior__(self, other):
        self.update(other)
        return self

    def setdefault(self, k, d=None):
        if self._log['armed'] and self._said.get(k):
            return dict.setdefault(self, k, d)
        self._w('setdefault', k, d)
        if self._log['armed']:
            self._said[k] = True
        return dict.setdefault(self, k, d)

    def __delitem__(self, k):
        self._w('del', k, None)
        dict.__delitem__(self, k)

    def pop(self, k, *d):
        self._w('del', k, None)
        self._r('pop')
        return dict.pop(self, k, *d)

    def popitem(self):
        self._w('clear', None, None)
        self._r('popitem')
        return dict.popitem(self)

    def clear(self):
        self._w('clear', None, None)
        dict.clear(self)


def _reader(name):
    def f(self, *a, **kw):
        self._r(name)
        return getattr(dict, name)(self, *a, **kw)
    return f


for _n in ('__iter__', '__len__', 'keys', 'values',
           'items', 'copy', '__or__', '__eq__', '__ne__', '__reversed__'):
    setattr(SymbolicRegistry, _n, _reader(_n))
SymbolicRegistry.__hash__ = None
SymbolicRegistry.__bool__ = lambda self: (self._r('__bool__'), dict.__len__(self) > 0)[1]


def loaded():
    return {n[len('pyasn1_modules.'):]: m for n, m in list(sys.modules.items())
            if n.startswith('pyasn1_modules.') and m is not None}


def snapshot(mods, regnames):
    """everything the loaded modules expose, registries' content excepted"""
    g = extract.Graph()
    for k, v in regnames.items():
        g.maps[k] = v
    out = {}
    for n, m in sorted(mods.items()):
        for a, v in sorted(vars(m).items()):
            if a.startswith('__'):
                continue
            key = n + '.' + a
            if isinstance(v, type) and issubclass(v, base.Asn1Item):
                try:
                    out[key] = ['class', id(v), g.node(v())]
                except Exception as exc:
                    out[key] = ['class', id(v), 'error ' + type(exc).__name__]
            elif isinstance(v, base.Asn1Item):
                out[key] = ['object', id(v), g.node(v)]
            elif isinstance(v, dict):
                out[key] = ['dict', id(v)]
            elif isinstance(v, (int, float, str, bytes)):
                out[key] = ['const', repr(v)]
            else:
                out[key] = ['ref', id(v)]
    return out, g


def canon(g, idx, seen=None):
    """structural fingerprint of a node (cycle-safe)"""
    seen = seen or {}
    if idx in seen:
        return ['back', seen[idx]]
    seen = dict(seen)
    seen[idx] = len(seen)
    n = dict(g.nodes[idx])
    if 'components' in n:
        n['components'] = [dict(c, type=canon(g, c['type'], seen)) for c in n['components']]
        for c in n['components']:
            if 'open' in c and 'anon' in c['open'].get('map', {}):
                c['open'] = 'anon'
    if 'element' in n and n['element'] is not None:
        n['element'] = canon(g, n['element'], seen)
    return n


def own_state(m, near, alike=None):
    """what module m publishes: its types, constants and own registries.  Registries of the modules in
    `near` (those m can load) appear by name only, `alike` maps a stand-in to the real one."""
    g = extract.Graph()
    for n in sorted(near, reverse=True):
        x = sys.modules.get('pyasn1_modules.' + n)
        for a, v in sorted(vars(x).items(), reverse=True) if x is not None and x is not m else ():
            if isinstance(v, dict) and not a.startswith('__'):
                g.maps[id(v)] = '%s.%s' % (n, a)
    for k, r in (alike or {}).items():
        if k in g.maps:
            g.maps[id(r)] = g.maps[k]
        elif id(r) in g.maps:
            g.maps[k] = g.maps[id(r)]
    out = {}
    for a, v in sorted(vars(m).items()):
        if a.startswith('_'):
            continue
        if isinstance(v, type) and issubclass(v, base.Asn1Item):
            try:
                out[a] = ['class', g.node(v())]
            except Exception as exc:
                out[a] = ['class', type(exc).__name__]
        elif isinstance(v, base.Asn1Item):
            out[a] = ['object', g.node(v), g.value(v)]
        elif isinstance(v, dict):
            out[a] = ['registry', g.maps[id(v)]] if id(v) in g.maps else ['own registry', g.dictitems(v)]
        elif isinstance(v, (int, float, str, bytes)):
            out[a] = ['const', repr(v)]
        elif type(v).__name__ == 'module':
            out[a] = ['module', v.__name__]
        elif type(v).__name__ == 'function':
            out[a] = ['function', v.__name__, v.__code__.co_code.hex(), repr(v.__code__.co_consts).split(' at 0x')[0]]
        else:
            out[a] = ['other', type(v).__name__]
    return out, g


def digest(own):
    out, g = own
    for n in g.nodes:
        n.pop('cls', None)      # which class it is does not matter, what it says does
    return hashlib.sha256(json.dumps([out, g.nodes], sort_keys=True, default=repr).encode()).hexdigest()


def inside(v, depth=3):
    """what can be changed in an object without replacing it"""
    if isinstance(v, (str, bytes, int, float, type(None), type, types.FunctionType, types.ModuleType)) or depth == 0:
        return id(v)
    if isinstance(v, dict):
        return [id(v)] + [(repr(k)[:80], inside(x, depth - 1)) for k, x in list(v.items())]
    if isinstance(v, (list, tuple, set, frozenset)):
        return [id(v)] + [inside(x, depth - 1) for x in list(v)]
    return [id(v)] + [(k, inside(x, depth - 1)) for k, x in sorted(getattr(v, '__dict__', {}).items())
                      if type(x).__name__ not in ('WeakKeyDictionary', 'WeakValueDictionary')]


def pyasn1_state():
    """what a module body could change in the library it builds on"""
    out = {}
    for n, m in sorted(sys.modules.items()):
        if not n.startswith('pyasn1.') or m is None:
            continue
        for a, v in list(vars(m).items()):
            if a.startswith('__'):
                continue
            if isinstance(v, type) and v.__module__ == n:
                out['%s.%s' % (n, a)] = id(v)
                for b, w in list(vars(v).items()):
                    if b not in ('__dict__', '__weakref__', '__doc__'):
                        out['%s.%s.%s' % (n, a, b)] = inside(w)
            else:
                out['%s.%s' % (n, a)] = inside(v)
    return out


def package(repo):
    """what importing the package itself does to the library -> [changed names]"""
    gc.disable()
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import pyasn1.type.opentype, pyasn1.type.char, pyasn1.type.useful
    import pyasn1.codec.der.encoder, pyasn1.codec.der.decoder, pyasn1.codec.cer.encoder
    import pyasn1.codec.cer.decoder, pyasn1.codec.native.encoder, pyasn1.codec.native.decoder
    a = pyasn1_state()
    import pyasn1_modules
    b = pyasn1_state()
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def prepare(repo, mod, near=False):
    """load everything the body of mod can meet: all modules that do not need mod, or (near) only its imports"""
    gc.disable()
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import pyasn1_modules
    assert os.path.realpath(os.path.dirname(pyasn1_modules.__file__)) == \
        os.path.realpath(os.path.join(repo, 'pyasn1_modules'))
    names_ = sorted(f[:-3] for f in os.listdir(os.path.join(repo, 'pyasn1_modules'))
                    if f.endswith('.py') and f != '__init__.py')
    memo = {}
    res = {'module': mod, 'failed': []}
    before_mods = []
    for x in names_ if not near else ():
        if mod in closure(repo, x, memo):
            continue
        try:
            importlib.import_module('pyasn1_modules.' + x)
        except Exception:
            res['failed'].append(x)
    import pyasn1.codec.der.encoder, pyasn1.codec.der.decoder, pyasn1.codec.cer.encoder
    import pyasn1.codec.cer.decoder, pyasn1.codec.native.encoder, pyasn1.codec.native.decoder
    deps = closure(repo, mod, memo) - {mod}
    for x in sorted(deps):
        if mod not in closure(repo, x, memo):
            importlib.import_module('pyasn1_modules.' + x)
    mods = loaded()
    if mod in mods:
        res['error'] = '%s is imported by its own dependencies' % mod
        return res, None, None, None, None
    return res, mods, names_ if not near else [], deps, memo


def perform(repo, mod, prior, prepared):
    res, mods, names_, deps, memo = prepared
    if mods is None:
        return res
    log = {'armed': False, 'writes': [], 'reads': [], 'asked': [],
           'script': [c == '1' for c in prior.partition(':')[2]]}
    regs = {}           # id(real) -> SymbolicRegistry
    names = {}
    real = {}
    for n, m in sorted(mods.items()):
        for a, v in sorted(vars(m).items()):
            if isinstance(v, dict) and not a.startswith('__'):
                if id(v) not in regs or a[0] != '_' and names[id(v)][0].split('.')[1].startswith('_'):
                    regs[id(v)] = SymbolicRegistry('%s.%s' % (n, a), {} if prior == 'empty' else v, log)
                    real[id(v)] = v
                names.setdefault(id(v), []).append('%s.%s' % (n, a))
                if names[id(v)][0].split('.')[1].startswith('_') and a[0] != '_':
                    names[id(v)].insert(0, names[id(v)].pop())
    for n, m in mods.items():
        for a, v in list(vars(m).items()):
            if isinstance(v, dict) and not a.startswith('__') and id(v) in regs:
                setattr(m, a, regs[id(v)])
    regnames = {id(r): r._name for r in regs.values()}
    regnames.update({k: r._name for k, r in regs.items()})
    alias = {regs[k]._name: sorted(v) for k, v in names.items()}
    before, gb = snapshot(mods, regnames)
    lib = pyasn1_state()
    # modules that import this one are being imported when its body runs because of them
    begun = ['pyasn1_modules.' + x for x in names_ if x != mod and 'pyasn1_modules.' + x not in sys.modules]
    for x in begun:
        sys.modules[x] = types.ModuleType(x)
    log['armed'] = True
    try:
        m = importlib.import_module('pyasn1_modules.' + mod)
    except Exception as exc:
        res['error'] = 'import raised %s: %s' % (type(exc).__name__, str(exc)[:300])
        return res
    finally:
        log['armed'] = False
        for x in begun:
            sys.modules.pop(x, None)
    lib2 = pyasn1_state()
    state = digest(own_state(m, closure(repo, mod, memo), regs))
    after, ga = snapshot({n: x for n, x in loaded().items() if n in mods}, regnames)
    frame = []
    # same objects met in the same order with the same content: the frame holds as a whole
    same = before == after and gb.nodes == ga.nodes
    if not same:
        fb, fa = [{k: (canon(g, v[2]) if len(v) > 2 and isinstance(v[2], int) else v[2:]) for k, v in st.items()}
                  for g, st in ((gb, before), (ga, after))]
    for k in () if same else sorted(set(before) | set(after)):
        if k not in after:
            frame.append([k, 'removed'])
        elif k not in before:
            frame.append([k, 'added'])
        elif before[k][:2] != after[k][:2]:
            frame.append([k, 'rebound'])
        elif json.dumps(fb[k], sort_keys=True) != json.dumps(fa[k], sort_keys=True):
            frame.append([k, 'changed'])
    for k in sorted(set(lib) | set(lib2)):
        if lib.get(k) != lib2.get(k):
            frame.append([k, 'changed'])
    g = extract.Graph()
    g.maps.update(regnames)
    own = {}
    for a, v in sorted(vars(m).items()):
        if isinstance(v, dict) and not a.startswith('__') and id(v) not in g.maps:
            g.maps[id(v)] = '%s.%s' % (mod, a)
    for a, v in sorted(vars(m).items()):
        if isinstance(v, dict) and not a.startswith('__') and a[0] != '_':
            own[a] = {'name': g.maps[id(v)], 'items': g.dictitems(v) if g.maps[id(v)].startswith(mod + '.') else None}
    writes = []
    for (name, op, k, v) in log['writes']:
        kk = None if k is None else (g.value(k) if isinstance(k, base.Asn1Item) else extract.num(k))
        if isinstance(v, base.Asn1Item):
            vv = g.node(v)
        elif isinstance(v, type) and issubclass(v, base.Asn1Item):
            vv = {'class': g.node(v())}
        else:
            vv = {'py': repr(v)} if v is not None else None
        writes.append([name, op, kk, vv])
    asked = []
    for name, k, a in log['asked']:
        asked.append([name, g.value(k) if isinstance(k, base.Asn1Item) else extract.num(k), a])
    res.update(asked=asked, writes=writes, reads=log['reads'], frame=frame, aliases=alias, deps=sorted(deps),
               own=own, nodes=g.nodes, state=state, loaded_before=sorted(mods))
    return res


def serve(repo, mod):
    """one line of answers in, one line of JSON out; every run in its own copy of the process"""
    prepared = prepare(repo, mod)
    for line in sys.stdin:
        sys.stdout.flush()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                text = json.dumps(perform(repo, mod, line.strip(), prepared)) + '\n'
                with os.fdopen(1, 'w') as out:
                    out.write(text)
                code = 0
            except BaseException as exc:
                sys.stderr.write('%s: %s\n' % (type(exc).__name__, str(exc)[:300]))
            finally:
                os._exit(code)
        if os.waitpid(pid, 0)[1]:
            break


def main(repo, mod, prior='concrete'):
    return perform(repo, mod, prior, prepare(repo, mod))


def alone(repo, mod):
    """the same summary when nothing but what mod imports was imported before"""
    res = perform(repo, mod, 'concrete', prepare(repo, mod, near=True))
    return {k: res[k] for k in ('error', 'writes', 'state', 'nodes', 'asked') if k in res}


if __name__ == '__main__':
    if sys.argv[2:] == ['']:
        json.dump(package(sys.argv[1]), sys.stdout)
    elif sys.argv[3:] == ['serve']:
        serve(*sys.argv[1:3])
    else:
        json.dump(alone(*sys.argv[1:3]) if sys.argv[3:] == ['alone'] else main(*sys.argv[1:]), sys.stdout)
