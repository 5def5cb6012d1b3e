"""Runs one input against the real code (under the library's interpreter) and says whether
the property failed on it.  Used by every replay file and by the batch search."""
import importlib
import json
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def get(mod, name):
    return getattr(importlib.import_module('pyasn1_modules.' + mod), name)


def obj(mod, name):
    x = get(mod, name)
    return x() if isinstance(x, type) else x


def at(o, path):
    """schema object reached by a component path"""
    for p in path:
        if p == '*':
            o = o.componentType
        else:
            o = o.componentType[p].asn1Object if hasattr(o.componentType, 'getPositionByName') is False \
                else o.componentType[o.componentType.getPositionByName(p)].asn1Object
    return o


def check_shape(o, sh, path=''):
    from pyasn1.codec.der.encoder import encode
    from pyasn1.type import univ
    if 'choice' in sh:
        n, s = sh['choice']
        if not isinstance(o, univ.Choice):
            return '%s: %s instead of a choice' % (path, type(o).__name__)
        if o.getName() != n:
            return '%s: decoded as alternative %s, expected %s' % (path, o.getName(), n)
        return check_shape(o.getComponent(), s, path + '.' + n)
    if 'rec' in sh:
        have = []
        for nt in o.componentType.namedTypes:
            c = o.getComponentByName(nt.name, default=None, instantiate=False)
            if c is not None and c.isValue:
                have.append(nt.name)
        must = [n for n, x in sh['rec'].items() if 'default' not in x]
        if set(must) - set(have) or set(have) - set(sh['rec']):
            return '%s: components %s present after decoding, expected %s' % (path or 'value', sorted(have), sorted(must))
        for n, s in sh['rec'].items():
            r = check_shape(o.getComponentByName(n), s, path + '.' + n)
            if r:
                return r
        return None
    if 'list' in sh:
        if len(o) != len(sh['list']):
            return '%s: %d elements, expected %d' % (path, len(o), len(sh['list']))
        for i, s in enumerate(sh['list']):
            r = check_shape(o[i], s, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if 'any' in sh:
        if bytes(o).hex() != sh['any']:
            return '%s: %s, expected %s' % (path, bytes(o).hex(), sh['any'])
        return None
    want = sh.get('der', sh.get('default'))
    try:
        got = encode(o).hex()
    except Exception as exc:
        return '%s: cannot be encoded: %s' % (path, str(exc)[:120])
    if got != want:
        return '%s: is %s, expected %s' % (path, got, want)
    return None


def roundtrip(case):
    """decode a conforming peer's DER and re-encode it"""
    from pyasn1.codec.der.decoder import decode
    from pyasn1.codec.der.encoder import encode
    der = bytes.fromhex(case['der'])
    T = obj(case['module'], case['type'])
    try:
        o, rest = decode(der, asn1Spec=T)
    except Exception as exc:
        return 'conforming encoding %s rejected: %s' % (case['der'], str(exc)[:200])
    if rest:
        return 'trailing %r left after a complete encoding' % bytes(rest)
    if case.get('shape'):
        r = check_shape(o, case['shape'])
        if r:
            return r
        o, rest = decode(der, asn1Spec=T)       # looking at a value may complete it
    try:
        back = encode(o)
    except Exception as exc:
        return 'decoded value of %s cannot be re-encoded: %s' % (case['der'], str(exc)[:200])
    if back != der:
        return 're-encoded as %s, expected %s' % (back.hex(), case['der'])
    return None


def constant(case):
    m = importlib.import_module('pyasn1_modules.' + case['module'])
    if not hasattr(m, case['name']):
        return '%s.%s is not published' % (case['module'], case['name'])
    v = getattr(m, case['name'])
    want = case['want']
    if 'oid' in want:
        try:
            got = list(v.asTuple())
        except Exception as exc:
            return 'not an object identifier: %r' % (v,)
        if got != want['oid']:
            return 'is %s, expected %s' % ('.'.join(map(str, got)), '.'.join(map(str, want['oid'])))
        return None
    if 'int' in want:
        if int(v) != want['int']:
            return 'is %s, expected %s' % (int(v), want['int'])
        return None
    if 'text' in want:
        return None if str(v) == want['text'] else 'is %r, expected %r' % (str(v), want['text'])
    if 'der' in want:
        from pyasn1.codec.der.encoder import encode
        try:
            got = encode(v).hex()
        except Exception as exc:
            return 'cannot be encoded: %s' % str(exc)[:150]
        return None if got == want['der'] else 'encodes as %s, expected %s' % (got, want['der'])
    return None


def value(case):
    """a value must be accepted / rejected by the type at a path"""
    from pyasn1.type import error
    o = at(obj(case['module'], case['type']), case['path'])
    v = case['value']
    if 'bytes' in v:
        x = bytes.fromhex(v['bytes'])
    elif 'bits' in v:
        x = tuple(int(b) for b in v['bits'])
    elif 'oid' in v:
        x = tuple(v['oid'])
    elif 'text' in v:
        x = v['text']
    elif 'int' in v:
        x = v['int']
    else:
        x = None
    try:
        if x is not None:
            o.clone(x)
        elif 'count' in v:
            # the size test looks at the number of components only
            o.subtypeSpec({i: i for i in range(v['count'])})
        else:
            o.subtypeSpec({n: True for n in v['present']})
        ok = True
        why = None
    except error.ValueConstraintError as exc:
        ok, why = False, 'ValueConstraintError'
    except Exception as exc:
        ok, why = None, '%s: %s' % (type(exc).__name__, str(exc)[:150])
    if ok is None:
        return 'value %s fails with an unrelated error: %s' % (json.dumps(v)[:100], why)
    if ok != case['permitted']:
        return 'value %s is %s, the specification %s it' % (
            json.dumps(v)[:100], 'accepted' if ok else 'rejected', 'permits' if case['permitted'] else 'forbids')
    return None


def named(case):
    o = at(obj(case['module'], case['type']), case['path'])
    nv = dict((str(k), int(v)) for k, v in o.namedValues.items())
    got = nv.get(case['name'])
    if got != case['number']:
        return 'name %s means %s, expected %s' % (case['name'], got, case['number'])
    if case['number'] is None:
        return None
    from pyasn1.type import univ
    if isinstance(o, univ.BitString):
        bits = [i for i, b in enumerate(o.clone(case['name'])) if b]
        return None if bits == [case['number']] else 'bit %s sets %s, expected %s' % (case['name'], bits, case['number'])
    back = o.clone(case['number']).prettyPrint()
    if int(o.clone(case['name'])) != case['number'] or \
            back != case['name'] and list(nv.values()).count(case['number']) == 1:
        return 'name %s is read as %s, number %s as %s' % (case['name'], int(o.clone(case['name'])), case['number'], back)
    return None


def registry(case):
    import pkgutil
    import pyasn1_modules
    if case.get('import'):
        for m in case['import']:
            importlib.import_module('pyasn1_modules.' + m)
    else:
        for m in sorted(x.name for x in pkgutil.iter_modules(pyasn1_modules.__path__)):
            try:
                importlib.import_module('pyasn1_modules.' + m)
            except Exception:
                pass
    from pyasn1.type import univ, base
    mod, name = case['registry'].split('.')
    try:
        reg = get(mod, name)
    except AttributeError:
        return 'registry %s is not published' % case['registry']
    if case.get('alias'):
        am, an = case['alias'].split('.')
        return None if getattr(importlib.import_module('pyasn1_modules.' + am), an, None) is reg else \
            '%s is not %s itself' % (case['alias'], case['registry'])
    key = univ.ObjectIdentifier(tuple(case['key']['oid'])) if 'oid' in case['key'] else \
        univ.Integer(case['key']['int']) if 'int' in case['key'] else case['key'].get('text')
    if case.get('absent'):
        return None if key not in reg else 'entry %s is registered, the specifications assign none' % (key,)
    if key not in reg:
        return 'entry %s is missing' % (key,)
    t = reg[key]
    if not isinstance(t, base.Asn1Item):
        return 'entry %s is %r, not a type instance' % (key, t)
    for der, shape in case.get('cases', ()):
        r = roundtrip_obj(t, der, shape)
        if r:
            return 'entry %s: %s' % (key, r)
    return None


def roundtrip_obj(T, derhex, shape):
    from pyasn1.codec.der.decoder import decode
    from pyasn1.codec.der.encoder import encode
    der = bytes.fromhex(derhex)
    try:
        o, rest = decode(der, asn1Spec=T)
        if rest:
            return 'trailing bytes'
        if shape:
            r = check_shape(o, shape)
            if r:
                return r
            o, rest = decode(der, asn1Spec=T)
        if encode(o) != der:
            return 're-encoded as %s, expected %s' % (encode(o).hex(), derhex)
    except Exception as exc:
        return 'conforming encoding %s rejected: %s' % (derhex, str(exc)[:200])
    return None


def openfield(case):
    """register a new identifier, then decode a value of the type with open types on"""
    from pyasn1.codec.der.decoder import decode
    from pyasn1.type import univ
    mod, name = case['registry'].split('.')
    reg = get(mod, name)
    T = obj(case['module'], case['type'])
    k = case['key']
    key = univ.ObjectIdentifier(tuple(k['oid'])) if 'oid' in k else univ.Integer(k['int'])
    old = reg.pop(key, None) if not case['register'] else reg.get(key)
    if case['register']:
        reg[key] = univ.Integer()
    try:
        o, rest = decode(bytes.fromhex(case['der']), asn1Spec=T, decodeOpenTypes=True)
    except Exception as exc:
        return 'rejected: %s' % str(exc)[:200]
    for p in case['path']:
        o = o[0] if p == '*' else o.getComponentByName(p)
    if isinstance(o, univ.SequenceOfAndSetOfBase):
        o = o[0]
    if case['register']:
        if not (type(o) is univ.Integer and int(o) == 42):
            return 'field %s governed by the registered identifier was not decoded as its type (%s %s)' % (
                '.'.join(case['path']), type(o).__name__, o.prettyPrint())
    elif not isinstance(o, univ.Any) or type(o).__name__ == 'Integer':
        return 'field %s governed by an unregistered identifier was decoded as %s' % ('.'.join(case['path']), type(o).__name__)
    return None


def methods(case):
    """instantiate, clone, subtype"""
    from pyasn1.type import tag
    try:
        x = get(case['module'], case['type'])
    except Exception as exc:
        return 'not published: %s' % str(exc)[:100]
    try:
        i = x() if isinstance(x, type) else x
    except Exception as exc:
        return 'cannot be instantiated: %s' % str(exc)[:200]
    for what, f in (('cloned', lambda: i.clone()),
                    ('implicitly tagged', lambda: i.subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 30))),
                    ('explicitly tagged', lambda: i.subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 30)))):
        try:
            f()
        except Exception as exc:
            return 'cannot be %s: %s' % (what, str(exc)[:200])
    if isinstance(x, type):
        import extract
        try:
            a, b, c = [extract.Graph().value(o) for o in (x(), i.clone(), i.subtype())]
        except Exception as exc:
            return 'cannot be copied: %s' % str(exc)[:200]
        if not a == b == c:
            return 'an instance holds %s, a copy %s, a subtype %s' % (a, b, c)
    return None


def fresh(case):
    """value a schema object starts with"""
    import extract
    o = at(obj(case['module'], case['type']), case['path'])
    got = extract.Graph().value(o)
    if got in ({'struct': {}},):
        got = None
    return None if got == case['want'] else 'starts with value %s, expected %s' % (got, case['want'])


def _child(code, *args):
    import subprocess
    env = dict(os.environ, VERIF_REPO=REPO)
    p = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); import replay_rt as R; %s' %
                        (os.path.dirname(os.path.abspath(__file__)), code)] + list(args),
                       capture_output=True, text=True, env=env)
    return p.stdout.strip() if p.returncode == 0 else 'error: ' + (p.stderr.strip().splitlines() or ['?'])[-1][:200]


def fingerprint(o):
    """structure of a schema object, names of classes aside"""
    import extract
    g = extract.Graph()
    g.mapref = lambda ot: {}        # what an open field may hold is the registry's business
    g.node(o)
    for n in g.nodes:
        n.pop('cls', None)
        for c in n.get('components', ()):
            if 'open' in c:
                c['open'] = c['open']['governor']
    return json.dumps(g.nodes, sort_keys=True)


def show_entry(registry, key, mods):
    for m in mods:
        importlib.import_module('pyasn1_modules.' + m)
    from pyasn1.type import univ
    mod, name = registry.split('.')
    reg = get(mod, name)
    k = json.loads(key)
    k = univ.ObjectIdentifier(tuple(k['oid'])) if isinstance(k, dict) and 'oid' in k else \
        k.get('int', k.get('text', k.get('str'))) if isinstance(k, dict) else k
    print(fingerprint(reg[k]) if k in reg else 'absent')


def orders(case):
    """the entry must mean the same after every import order"""
    outs = []
    for mods in case['orders']:
        outs.append(_child('R.show_entry(%r, %r, %r)' % (case['registry'], json.dumps(case['key']), mods)))
    if len(set(outs)) > 1:
        return 'entry %s of %s differs between import orders %s' % (json.dumps(case['key']), case['registry'],
                                                                    ' / '.join(' '.join(o) for o in case['orders']))
    return None


def show_own(mod, first):
    import effects
    from effects_static import closure
    for m in first:
        try:
            importlib.import_module('pyasn1_modules.' + m)
        except Exception:
            pass
    m = importlib.import_module('pyasn1_modules.' + mod)
    out, g = effects.own_state(m, closure(REPO, mod, {}))
    print(json.dumps({a: json.dumps([e[0], fingerprint(getattr(m, a)() if e[0] == 'class' else getattr(m, a))]
                                    if e[0] in ('class', 'object') and isinstance(e[1], int) else e, default=repr)
                      for a, e in out.items() if e[0] != 'own registry'}))


def histories(case):
    """what a module publishes must be the same after every import history"""
    a = _child('R.show_own(%r, [])' % case['module'])
    for first in case['histories']:
        b = _child('R.show_own(%r, %r)' % (case['module'], first))
        if a == b:
            continue
        if a.startswith('error') or b.startswith('error'):
            return '%s after importing %s: %s' % (case['module'], ' '.join(first[:5]), b if b.startswith('error') else a)
        x, y = json.loads(a), json.loads(b)
        bad = [k for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k)]
        if bad:
            return '%s of %s differ(s) when %s was imported before' % (', '.join(bad[:5]), case['module'], ' '.join(first[:5]))
    return None


def show_frame(names, mod, first):
    import effects
    for m in first:
        try:
            importlib.import_module('pyasn1_modules.' + m)
        except Exception:
            pass
    import pyasn1.codec.der.encoder, pyasn1.codec.der.decoder

    def look():
        out = []
        for n in names:
            mm, a = n.split('.', 1) if not n.startswith('pyasn1.') else n.rsplit('.', 1)
            try:
                base_ = importlib.import_module(mm if n.startswith('pyasn1.') else 'pyasn1_modules.' + mm)
            except ImportError:
                mm, c = mm.rsplit('.', 1)
                base_ = getattr(importlib.import_module(mm), c)
            v = getattr(base_, a, 'absent')
            try:
                fp = fingerprint(v() if isinstance(v, type) else v)
            except Exception:
                fp = repr(v)
            out.append([n, id(v), effects.inside(v) if n.startswith('pyasn1.') else fp if not isinstance(v, dict) else ''])
        return out
    a = look()
    importlib.import_module('pyasn1_modules.' + mod)
    b = look()
    print(json.dumps([x[0] for x, y in zip(a, b) if x != y]))


def package(case):
    r = _child('import effects, json; print(json.dumps(effects.package(%r)))' % REPO)
    if r.startswith('error'):
        return 'import pyasn1_modules: ' + r
    bad = json.loads(r)
    return 'importing pyasn1_modules changes %s' % ', '.join(bad[:5]) if bad else None


def frame(case):
    r = _child('R.show_frame(%r, %r, %r)' % (case['names'], case['module'], case['first']))
    if r.startswith('error'):
        return 'importing %s: %s' % (case['module'], r)
    r = json.loads(r)
    return None if not r else 'importing %s changes %s' % (case['module'], ', '.join(r))


def show_prior(mod, first, plan, expect=()):
    """put marker entries in every registry, import mod, report what happened to them"""
    from pyasn1.type import univ
    import random
    for m in first:
        try:
            importlib.import_module('pyasn1_modules.' + m)
        except Exception:
            pass
    marks = {}
    seen = set()
    for n in list(sys.modules):
        if n.startswith('pyasn1_modules.'):
            for a, v in vars(sys.modules[n]).items():
                if isinstance(v, dict) and not a.startswith('_') and id(v) not in seen:
                    seen.add(id(v))
                    marks[n.split('.')[1] + '.' + a] = v
    mk = univ.ObjectIdentifier((1, 3, 9999, 1))
    mv = univ.Integer()
    before = {}
    for r, d in marks.items():
        if plan == 'empty':
            d.clear()
        d[mk] = mv
        before[r] = dict(d)
    importlib.import_module('pyasn1_modules.' + mod)
    lost = []
    for r, d in marks.items():
        for k, v in before[r].items():
            if k not in d:
                lost.append('%s loses %s' % (r, k))
            elif k is mk and d[k] is not v:
                lost.append('%s[%s] is replaced' % (r, k))
    for r, k in json.loads(expect or '[]'):
        k = univ.ObjectIdentifier(tuple(k['oid'])) if isinstance(k, dict) and 'oid' in k else \
            k.get('int', k.get('text', k.get('str'))) if isinstance(k, dict) else k
        if k not in get(*r.split('.')):
            lost.append('%s has no entry %s' % (r, k))
    added = {r: sorted(str(k) + '=' + fingerprint(d[k]) for k in d if k not in before[r]) for r, d in marks.items()}
    full = {r: sorted(str(k) + '=' + fingerprint(d[k]) for k in d) for r, d in marks.items()} if plan == 'empty' else None
    print(json.dumps([lost[:20], added, full]))


def prior(case):
    outs = []
    for plan in ('concrete', 'empty'):
        r = _child('R.show_prior(%r, %r, %r, %r)' % (case['module'], case['first'], plan, json.dumps(case.get('expect', []))))
        if r.startswith('error'):
            if plan == 'empty' and outs:
                return 'with empty registries, importing %s fails: %s' % (case['module'], r)
            return 'importing %s: %s' % (case['module'], r)
        lost, added, full = json.loads(r)
        lost = [x for x in lost if x not in case.get('allowed', ())]
        if lost:
            return 'importing %s: %s' % (case['module'], '; '.join(lost[:5]))
        outs.append(added)
    for r in outs[1]:
        new = set(outs[0].get(r, ())) - set(outs[1][r])
        if new:
            return 'with empty registries, importing %s does not add %s to %s' % (case['module'], sorted(new)[0][:60], r)
    return None


KINDS = {f.__name__: f for f in (roundtrip, constant, value, named, registry, openfield, methods, fresh, orders, frame, prior,
                                 histories, package)}


def run(case):
    try:
        return KINDS[case['kind']](case)
    except Exception as exc:
        return 'failed with %s: %s' % (type(exc).__name__, str(exc)[:300])


def main(case):
    r = run(case)
    print(case.get('title', ''))
    print('VIOLATED: ' + r if r else 'holds on this input')
    return 1 if r else 0


if __name__ == '__main__':
    # batch: JSON list on stdin -> list of results
    json.dump([run(c) for c in json.load(sys.stdin)], sys.stdout)
