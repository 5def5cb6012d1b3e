"""Schema elaboration: import the real modules of /repo and read off what they built.

Runs under the interpreter that runs the library (/opt/venv/bin/python).  The module
bodies are closed, input-free programs: importing them *is* computing their strongest
postcondition.  This file reads that post-state (every public class, constant and
registry) into a JSON graph; it drops docstrings, comments, private names and method
bodies, and nothing else.
"""
import hashlib
import importlib
import collections
import json
import os
import pkgutil
import sys
import types

from pyasn1.codec.der.encoder import encode as der_encode
from pyasn1.type import base, univ, char, useful, constraint, namedtype, opentype, tag, namedval

BUILTIN = ('pyasn1.type.univ', 'pyasn1.type.char', 'pyasn1.type.useful')


def kind_of(obj_or_cls):
    cls = obj_or_cls if isinstance(obj_or_cls, type) else type(obj_or_cls)
    for k in cls.__mro__:
        if k.__module__ in BUILTIN:
            return {'T61String': 'TeletexString', 'ISO646String': 'VisibleString'}.get(k.__name__, k.__name__)
    return cls.__name__


def num(v):
    if isinstance(v, float):
        if v == float('inf'):
            return 'MAX'
        if v == float('-inf'):
            return 'MIN'
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, base.Asn1Item):
        if isinstance(v, univ.ObjectIdentifier):
            return {'oid': list(v.asTuple())}
        if isinstance(v, univ.Integer):
            return int(v)
        if isinstance(v, univ.OctetString):
            return {'bytes': v.asOctets().hex()}
        return {'str': str(v)}
    if isinstance(v, bytes):
        return {'bytes': v.hex()}
    if isinstance(v, str):
        return {'str': v}
    return {'repr': repr(v)}


def ctree(c):
    """constraint object -> tree"""
    if not type(c).__module__.startswith('pyasn1.') and overriding(type(c)):
        return ['other', type(c).__name__, repr(c)]
    if isinstance(c, constraint.ConstraintsIntersection):
        return ['and'] + [ctree(x) for x in c]
    if isinstance(c, constraint.ConstraintsUnion):
        return ['or'] + [ctree(x) for x in c]
    if isinstance(c, constraint.ConstraintsExclusion):
        return ['not'] + [ctree(x) for x in c._values]
    if isinstance(c, constraint.ValueSizeConstraint):
        return ['size', num(c.start), num(c.stop)]
    if isinstance(c, constraint.ValueRangeConstraint):
        return ['range', num(c.start), num(c.stop)]
    if isinstance(c, constraint.PermittedAlphabetConstraint):
        return ['alphabet'] + sorted((num(x) for x in c._values), key=repr)
    if isinstance(c, constraint.SingleValueConstraint):
        return ['single'] + sorted((num(x) for x in c._values), key=repr)
    if isinstance(c, constraint.ContainedSubtypeConstraint):
        if not all(isinstance(x, constraint.AbstractConstraint) for x in c._values):
            return ['other', type(c).__name__, repr(c)]     # the library cannot evaluate it
        return ['contained'] + [ctree(x) for x in c._values]
    if isinstance(c, constraint.WithComponentsConstraint):
        return ['with'] + [[f, ctree(x)] for f, x in c._values]
    if isinstance(c, constraint.ComponentPresentConstraint):
        return ['present']
    if isinstance(c, constraint.ComponentAbsentConstraint):
        return ['absent']
    return ['other', type(c).__name__, repr(c)]


def flat(t):
    """conjuncts of a constraint tree (the library appends a sizeSpec to every copy again)"""
    return {repr(t)} if t[0] != 'and' else set().union(*map(flat, t[1:]))


DECLARATIONS = {'tagSet', 'subtypeSpec', 'sizeSpec', 'componentType', 'namedValues', 'encoding', 'defaultValue',
                'defaultHexValue', 'defaultBinValue'}
HARMLESS = {'__repr__', '__str__', '__doc__', '__module__', '__qualname__', '__dict__', '__weakref__',
            '__firstlineno__', '__static_attributes__', '__annotations__', '__slots__', '__hash__'}


def overriding(cls):
    """names through which the classes of the repository could change what a library class does:
    everything they define that the library class has too, except the declarations read off elsewhere.
    A constructor is no override: what it builds is what is read off, and `fill` compares copies with it."""
    lib = next((k for k in cls.__mro__ if k.__module__.startswith('pyasn1.')), None)
    own = set()
    for k in cls.__mro__:
        if k.__module__.startswith('pyasn1.') or k is object:
            continue
        own |= {a for a in vars(k) if lib is not None and hasattr(lib, a)}
        own |= {a for a in vars(k) if a in ('__getattr__', '__getattribute__', '__setattr__', '__new__')}
    return sorted(own - DECLARATIONS - HARMLESS - {'__init__', '__eq__'}
                  | {a for a in own if a == '__eq__'})


def misread(obj):
    """names that the type itself, asked through the library, does not take for their numbers or bits"""
    nv = obj.namedValues
    out = []
    if not isinstance(obj, (univ.BitString, univ.Integer)):
        return out
    numbers = list(nv.values())
    for k, v in nv.items():
        try:
            if isinstance(obj, univ.BitString):
                ok = [i for i, b in enumerate(obj.clone(k)) if b] == [int(v)]
            else:
                ok = int(obj.clone(k)) == int(v) and (numbers.count(v) > 1 or obj.clone(int(v)).prettyPrint() == k)
        except Exception:
            ok = False
        if not ok:
            out.append([str(k), num(v)])
    return out


def shadowed(d):
    """what makes a registry answer otherwise than by its entries"""
    out = []
    for k in type(d).__mro__:
        if k in (dict, object, collections.OrderedDict) or k.__name__ == 'SymbolicRegistry' or k.__module__ in ('typing', 'collections.abc'):
            continue
        if k is collections.defaultdict:
            if d.default_factory is not None:
                out.append('default_factory')
            continue
        out += [a for a in vars(k) if a == '__missing__' or a not in HARMLESS and a != '__init__' and hasattr(dict, a)]
    return sorted(set(out))


def outer(spec, seen=()):
    """tag sets a decoder has read when it arrives at a value of spec"""
    if len(spec.tagSet):
        return [spec.tagSet]
    if isinstance(spec, univ.Choice) and id(spec) not in seen and spec.componentType is not None:
        return [t for nt in spec.componentType.namedTypes
                for t in outer(nt.asn1Object, tuple(seen) + (id(spec),))]
    return []


def lookup(obj):
    """The questions the BER/DER decoder asks the library's tag maps at each decision point of a
    record, with the answers the real maps give: [point, candidate, tag set, what is wrong]."""
    ct = obj.componentType
    nts = ct.namedTypes
    runs = []
    if isinstance(obj, (univ.Choice, univ.Set)):
        runs.append((None, range(len(nts))))
    elif ct.hasOptionalOrDefault:
        for k, nt in enumerate(nts):
            if nt.isOptional or nt.isDefaulted:
                run = []
                for j in range(k, len(nts)):
                    run.append(j)
                    if not (nts[j].isOptional or nts[j].isDefaulted):
                        break
                runs.append((k, run))
    wrong, asked = [], 0
    for k, run in runs:
        try:
            m = ct.tagMapUnique if k is None else ct.getTagMapNearPosition(k)
        except Exception as exc:
            wrong.append([k, None, '', 'no map: %s' % type(exc).__name__])
            continue
        for j in run:
            for t in outer(nts[j].asn1Object):
                asked += 1
                name = [[x.tagClass, x.tagId] for x in t.superTags]
                try:
                    if m[t] is not nts[j].asn1Object:
                        wrong.append([k, nts[j].name, name, 'another type is chosen'])
                        continue
                    pos = ct.getPositionByType(t) if k is None else ct.getPositionNearType(t, k)
                    if pos != j:
                        wrong.append([k, nts[j].name, name, 'stored as %s' % nts[pos].name])
                    part = tag.TagSet((), *t.superTags[1:])
                    while len(part):
                        if part in m:
                            wrong.append([k, nts[j].name, name, 'an outer part of the tags is taken for another type'])
                        part = tag.TagSet((), *part.superTags[1:])
                except Exception as exc:
                    wrong.append([k, nts[j].name, name, 'not found: %s' % type(exc).__name__])
    return {'asked': asked, 'wrong': wrong}


class Graph(object):
    def __init__(self):
        self.nodes = []
        self.by_id = {}
        self.keep = []
        self.maps = {}      # id(dict) -> name
        self.anon_maps = []

    def value(self, obj):
        """a value held by a schema object (DEFAULTs, constants)"""
        try:
            return self.value_(obj)
        except Exception as exc:
            return {'unreadable': '%s: %s' % (type(exc).__name__, str(exc)[:200])}

    def value_(self, obj):
        if isinstance(obj, base.SimpleAsn1Type):
            if not obj.isValue:
                return None
            if isinstance(obj, univ.ObjectIdentifier):
                return {'oid': list(obj.asTuple())}
            if isinstance(obj, univ.BitString):
                return {'bits': ''.join(str(b) for b in obj)}
            if isinstance(obj, univ.Null):
                return {'null': True}
            if isinstance(obj, univ.Integer):
                return {'int': int(obj)}
            if isinstance(obj, univ.OctetString):
                return {'octets': obj.asOctets().hex()}
            if isinstance(obj, char.AbstractCharacterString):
                return {'text': str(obj)}
            return {'repr': obj.prettyPrint()}
        if isinstance(obj, base.ConstructedAsn1Type):
            if isinstance(obj, univ.Choice):
                try:
                    n = obj.getName()
                except Exception:
                    return None
                return {'choice': [n, self.value(obj.getComponent())]}
            if isinstance(obj, univ.SequenceAndSetBase):
                out = {}
                if not obj.isValue and not len(obj.componentType):
                    return None
                any_set = False
                for i, nt in enumerate(obj.componentType.namedTypes):
                    c = obj.getComponentByPosition(i, default=None, instantiate=False)
                    if c is None or c is univ.noValue:
                        continue
                    if not c.isValue:
                        continue
                    if c is nt.asn1Object:
                        continue
                    out[nt.name] = self.field(c, nt.asn1Object)
                return {'struct': out} if out else None
            if obj.isValue:
                return {'list': [self.value(x) for x in obj]}
            return None
        return {'repr': repr(obj)}

    def field(self, c, spec):
        if isinstance(spec, univ.Any) and not isinstance(c, univ.Any):
            return {'octets': der_encode(c).hex()}
        if isinstance(spec, univ.SequenceOfAndSetOfBase) and isinstance(spec.componentType, univ.Any):
            return {'list': [self.field(x, spec.componentType) for x in c]}
        return self.value(c)

    def node(self, obj):
        key = id(obj)
        if key in self.by_id:
            return self.by_id[key]
        self.keep.append(obj)
        n = {}
        idx = len(self.nodes)
        self.nodes.append(n)
        self.by_id[key] = idx
        try:
            self.fill(n, obj)
        except Exception as exc:
            n.setdefault('kind', kind_of(obj))
            n.setdefault('tags', [])
            n.setdefault('con', ['and'])
            n['error'] = '%s: %s' % (type(exc).__name__, str(exc)[:200])
        return idx

    def fill(self, n, obj):
        n['cls'] = '%s.%s' % (type(obj).__module__.replace('pyasn1_modules.', ''),
                              type(obj).__name__)
        n['kind'] = kind_of(obj)
        n['tags'] = [[t.tagClass, t.tagFormat, t.tagId] for t in obj.tagSet.superTags]
        n['con'] = ctree(obj.subtypeSpec) if obj.subtypeSpec else ['and']
        nv = getattr(obj, 'namedValues', None)
        if nv:
            n['named'] = sorted([str(k), int(v) if isinstance(v, (int, base.Asn1Item)) else v] for k, v in nv.items())
            n['misread'] = misread(obj)
        enc = getattr(obj, 'encoding', None)
        if enc and isinstance(obj, (univ.OctetString, char.AbstractCharacterString)):
            n['encoding'] = enc
        v = self.value(obj) if isinstance(obj, base.SimpleAsn1Type) else None
        if isinstance(obj, univ.Any) and not isinstance(obj, univ.ObjectIdentifier):
            pass
        if v is not None:
            n['value'] = v
        if isinstance(obj, (univ.SequenceAndSetBase,)):
            ct = obj.componentType
            comps = []
            for nt in (ct.namedTypes if ct is not None and len(ct) else ()):
                c = {'name': nt.name,
                     'mode': 'default' if nt.isDefaulted else
                             ('optional' if nt.isOptional else 'required'),
                     'type': self.node(nt.asn1Object)}
                if nt.isDefaulted:
                    dv = self.value(nt.asn1Object)
                    c['default'] = dv
                if nt.openType is not None:
                    c['open'] = {'governor': nt.openType.name,
                                 'map': self.mapref(nt.openType)}
                comps.append(c)
            n['components'] = comps
            if comps:
                n['lookup'] = lookup(obj)
        elif isinstance(obj, univ.SequenceOfAndSetOfBase):
            n['element'] = self.node(obj.componentType) if obj.componentType is not None else None
        # Library classes may only declare; a method or type identity that shadows the
        # codec's own is outside the denotation and is reported.
        own = overriding(type(obj))
        if not type(obj).__module__.startswith('pyasn1.'):
            own += self.copies(obj)
        own += ['instance attribute ' + a for a in sorted(vars(obj))
                if callable(vars(obj)[a]) and hasattr(type(obj), a) and a not in DECLARATIONS]
        helpers = []
        if isinstance(obj, univ.SequenceAndSetBase) and obj.componentType is not None:
            helpers += [obj.componentType] + list(obj.componentType.namedTypes)
            helpers += [nt.openType for nt in obj.componentType.namedTypes if nt.openType is not None]
        helpers += list(obj.tagSet.superTags) + [obj.tagSet]
        if getattr(obj, 'namedValues', None):
            helpers.append(obj.namedValues)
        for h in helpers:
            if not type(h).__module__.startswith('pyasn1.'):
                lib = next(k.__name__ for k in type(h).__mro__ if k.__module__.startswith('pyasn1.'))
                own += ['%s.%s' % (lib, a) for a in overriding(type(h)) + [x for x in ('__init__',) if x in vars(type(h))]]
        if own:
            n['overrides'] = own

    def copies(self, obj):
        """what a decoder works on is a clone: it must be what was read off"""
        try:
            new = obj.clone(tagSet=obj.tagSet) if isinstance(obj, base.SimpleAsn1Type) else obj.clone()
        except Exception:
            return []       # a failing clone is reported by `publish`
        out = []
        for a, f in (('tagSet', lambda o: o.tagSet),
                     ('subtypeSpec', lambda o: flat(ctree(o.subtypeSpec))),
                     ('componentType', lambda o: id(getattr(o, 'componentType', None))),
                     ('namedValues', lambda o: dict(getattr(o, 'namedValues', None) or {})),
                     ('encoding', lambda o: getattr(o, 'encoding', None)),
                     ('typeId', lambda o: o.typeId)):
            if f(new) != f(obj):
                out.append('clone().' + a)
        if any('__init__' in vars(k) for k in type(obj).__mro__ if k is not object and not k.__module__.startswith('pyasn1.')):
            try:
                t = tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 30)
                if obj.subtype(explicitTag=t).tagSet != obj.tagSet.tagExplicitly(t):
                    out.append('subtype().tagSet')
                c = constraint.ConstraintsUnion()
                sub = obj.subtype(subtypeSpec=c)
                if flat(ctree(sub.subtypeSpec)) != flat(ctree(obj.subtypeSpec)) | flat(ctree(c)):
                    out.append('subtype().subtypeSpec')
            except Exception:
                pass        # reported by `publish`
            try:
                # whatever a constructor presets, every instance and every copy of it has
                sub = obj.subtype(subtypeSpec=constraint.ConstraintsUnion())
                want = self.value(type(obj)())
                if any(self.value(o) != want for o in (new, sub, type(obj)(), obj.clone())):
                    out.append('clone() value')
            except Exception:
                pass
        if isinstance(obj, base.SimpleAsn1Type) and self.value(new) != self.value(obj):
            out.append('clone() value')
        return out

    def mapref(self, ot):
        d = ot._OpenType__typeMap
        name = self.maps.get(id(d))
        own = shadowed(d)
        if name:
            return {'name': name, 'shadows': own} if own else {'name': name}
        self.keep.append(d)
        return {'anon': self.dictitems(d)}

    def dictitems(self, d):
        items = []
        for k, v in d.items():
            kk = self.value(k) if isinstance(k, base.Asn1Item) else num(k)
            if isinstance(v, base.Asn1Item):
                items.append([kk, self.node(v)])
            elif isinstance(v, type) and issubclass(v, base.Asn1Item):
                items.append([kk, {'class': self.node(v())}])
            else:
                items.append([kk, {'py': repr(v)}])
        return items


def main(repo, mods=None):
    sys.path.insert(0, repo)
    import pyasn1_modules
    where = os.path.realpath(os.path.dirname(pyasn1_modules.__file__))
    assert where == os.path.realpath(os.path.join(repo, 'pyasn1_modules')), where
    names = sorted(m.name for m in pkgutil.iter_modules(pyasn1_modules.__path__))
    out = {'modules': {}, 'errors': {}}
    g = Graph()
    loaded = {}
    for n in names:
        try:
            loaded[n] = importlib.import_module('pyasn1_modules.' + n)
        except Exception as exc:
            out['errors'][n] = repr(exc)
    # public registries first, so open types can be named; the owner of a dict is the
    # module whose definition is found under the shortest import chain: prefer the
    # module that some other module aliases, i.e. the first with the name in its own
    # source order (aliases are recorded as aliases).
    dicts = {}
    for n, m in loaded.items():
        for a, v in vars(m).items():
            if isinstance(v, dict) and not a.startswith('_'):
                dicts.setdefault(id(v), []).append('%s.%s' % (n, a))
    for k, v in dicts.items():
        g.maps[k] = sorted(v)[0]
    out['map_aliases'] = sorted(sorted(v) for v in dicts.values())
    for n, m in loaded.items():
        entry = {}
        for a, v in vars(m).items():
            if a.startswith('_'):
                continue
            try:
                publish(g, entry, a, v)
            except Exception as exc:
                entry[a] = {'classerror': '%s: %s' % (type(exc).__name__, str(exc)[:200])}
        out['modules'][n] = entry
    out['nodes'] = g.nodes
    return out


def publish(g, entry, a, v):
    if isinstance(v, type) and issubclass(v, base.Asn1Item):
        if v.__module__ in BUILTIN or v.__module__.startswith('pyasn1.type'):
            entry[a] = {'builtin': v.__name__}
            try:
                entry[a].update({'class': g.node(v()), 'home': v.__module__ + '.' + v.__name__})
            except Exception:
                pass
            return
        try:
            inst = v()
        except Exception as exc:
            entry[a] = {'classerror': repr(exc)}
            return
        e = {'class': g.node(inst), 'home': v.__module__.replace('pyasn1_modules.', '') + '.' + v.__name__}
        for what, f in (('clone', lambda: inst.clone()),
                        ('implicit subtype', lambda: inst.subtype(
                            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 30))),
                        ('explicit subtype', lambda: inst.subtype(
                            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 30)))):
            try:
                f()
            except Exception as exc:
                e.setdefault('failing', []).append([what, '%s: %s' % (type(exc).__name__, str(exc)[:200])])
        c = g.value(inst) if isinstance(inst, base.ConstructedAsn1Type) else None
        if c is not None:
            e['preset'] = c
        entry[a] = e
    elif isinstance(v, base.Asn1Item):
        entry[a] = {'object': g.node(v), 'value': g.value(v)}
    elif isinstance(v, dict):
        entry[a] = {'map': g.dictitems(v), 'name': g.maps[id(v)], 'shadows': shadowed(v)}
    elif isinstance(v, (int, float, str, bytes)):
        entry[a] = {'const': num(v)}
    elif isinstance(v, constraint.AbstractConstraint):
        entry[a] = {'constraint': ctree(v)}
    elif isinstance(v, tag.TagSet):
        entry[a] = {'tagset': [[t.tagClass, t.tagFormat, t.tagId] for t in v.superTags]}
    elif callable(v) and getattr(v, '__module__', '').startswith('pyasn1_modules'):
        entry[a] = {'function': v.__name__}
    elif type(v).__name__ == 'module':
        pass
    else:
        entry[a] = {'other': repr(v)}


if __name__ == '__main__':
    json.dump(main(sys.argv[1]), sys.stdout)
