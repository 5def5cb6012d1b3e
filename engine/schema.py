"""Code schema graph (what the real modules built) against contract denotations.

One bisimulation from every published name.  Every pair (code node, contract type) met is
one set of obligations, named by the shortest path from a published name.
"""
import collections
import re
import con as conmod

PRIMS = conmod.STRINGS | conmod.INTS | {'BitString', 'ObjectIdentifier', 'Real'}
RECORDS = ('Sequence', 'Set', 'Choice')
LISTS = ('SequenceOf', 'SetOf')
CONSTRUCTED = {'Sequence', 'Set', 'SequenceOf', 'SetOf'}
CHARS = conmod.STRINGS - {'Null', 'Any', 'OctetString'}
FAMILIES = (CHARS, {'Integer', 'Enumerated'}, {'Sequence', 'Set'}, {'SequenceOf', 'SetOf'})
CLS = {0: 'UNIVERSAL ', 64: 'APPLICATION ', 128: '', 192: 'PRIVATE '}


# library behaviour that carries the meaning of other properties than C05: `kind` or a helper class
MEANING = {
    'C06': re.compile(r'^(subtypeSpec|sizeSpec|isInconsistent|verifySizeSpec|_?verify\w*|isSuperTypeOf|isSameTypeWith'
                      r'|clone\(\)\.subtypeSpec|subtype\(\)\.subtypeSpec|__eq__|__(lt|le|gt|ge|len|contains|hash)__'
                      r'|prettyIn|setComponent\w*|__(get|set)\w+__|instance attribute (isInconsistent|subtypeSpec))$'),
    'C07': re.compile(r'^(NamedTypes?\.|OptionalNamedType\.|DefaultedNamedType\.|Tag(Set|Map)?\.|tagMap\w*|componentTagMap'
                      r'|effectiveTagSet|minTagSet|(set|get)Component\w*|getName|clear|clone\(\)\.(tagSet|componentType))'),
    'C08': re.compile(r'^(NamedValues\.|prettyIn|prettyOut|prettyPrint|clone\(\)\.namedValues|__(str|int|index|getitem)__'
                      r'|getNamedValues|as\w+)'),
    'C09': re.compile(r'^(\w*NamedTypes?\.|__(eq|ne|lt|le|gt|ge|hash|bool|len)__|isValue|isSchema|clear|reset'
                      r'|(set|get)Component\w*|getDefaultComponent\w*|clone|clone\(\) value)'),
    'C11': re.compile(r'^(OpenType\.|\w*NamedTypes?\.|openType|isOpenType)'),
}


def tagtext(tags):
    return ' '.join('[%s%d]' % (CLS.get(c, '?%r ' % c), n) for c, n in tags) or '(none)'


class Ob(object):
    """one obligation"""
    __slots__ = ('prop', 'key', 'ok', 'code', 'spec', 'where', 'extra')

    def __init__(self, prop, key, ok, code=None, spec=None, where=None, **extra):
        self.prop, self.key, self.ok = prop, key, ok
        self.code, self.spec, self.where, self.extra = code, spec, where, extra

    def __repr__(self):
        return '%s %s %s: code %s | contract %s (%s)' % (
            'ok' if self.ok else 'FAIL', self.prop, self.key, self.code, self.spec, self.where)


class Compare(object):
    def __init__(self, code, spec):
        self.code, self.spec = code, spec
        self.nodes = code['nodes']
        self.obs = []
        self.conjobs = []       # (key, path, code idx, Den, where)
        self.queue = collections.deque()
        self.seen = set()
        self.alias = {}
        for group in code['map_aliases']:
            for n in group:
                self.alias[n] = group
        self.homefail = {}      # origin -> set of failing (aspect, code, spec)
        self.paths = {}         # code idx -> path

    def ob(self, prop, path, aspect, ok, code=None, spec=None, where=None, **extra):
        self.obs.append(Ob(prop, '%s:%s' % (path, aspect), ok, code, spec, where, **extra))

    def run(self):
        S, C = self.spec, self.code
        for mod in sorted(S.mods):
            m = S.mods[mod]
            if mod in C['errors']:
                self.ob('C05', mod, 'import', False, C['errors'][mod], 'imports', mod)
                continue
            entries = C['modules'].get(mod)
            if entries is None:
                self.ob('C05', mod, 'import', False, 'module missing', 'present', mod)
                continue
            self.ob('C05', mod, 'import', True)
            for name, (what, home, hname) in sorted(S.published(mod).items()):
                if what != 'type':
                    continue
                own = home == mod
                e = entries.get(name)
                where = '%s.asn1:%d' % (home, S.mods[home]['lines'].get(hname, 0))
                path = '%s.%s' % (mod, name)
                if e is None:
                    if own:
                        self.ob('C05', path, 'published', False, 'absent', 'published', where)
                    continue
                t = S.mods[home]['types'][hname]
                if 'classerror' in e:
                    self.ob('C05', path, 'instantiate', False, e['classerror'], 'can be instantiated', where)
                    continue
                if 'class' not in e:
                    if 'object' in e:
                        e = {'class': e['object'], 'preset': e.get('value')}
                    else:
                        self.ob('C05', path, 'published', False, str(e)[:80], 'a type', where)
                        continue
                if own:
                    self.ob('C05', path, 'instantiate', True)
                    for what2, exc in e.get('failing', ()):
                        self.ob('C05', path, what2, False, exc, 'works', where)
                    want = S.mods[home]['presets'].get(hname)
                    if want is not None:
                        want = S.resval(want, t, home)
                    n = self.nodes[e['class']]
                    have = e.get('preset') if n['kind'] in RECORDS + LISTS else n.get('value')
                    if not self.sameval(have, want, t, n['kind']):
                        self.ob('C09', path, 'fresh instance value', False, have, want, where)
                    self.queue.append((path, e['class'], t, where, True))
                else:
                    self.queue.append((path, e['class'], t, where, False))
        while self.queue:
            self.pair(*self.queue.popleft())
        return self

    def sameval(self, a, b, t, kind):
        if kind == 'Null':
            return True
        if a is None or b is None:
            return a is None and b is None
        d = self.spec.den(t)
        return self.normval(a, d) == self.normval(b, d)

    def normval(self, v, d):
        if v is None:       # a record with nothing set is the value with nothing present
            return {'struct': {}} if d is not None and d.kind in ('Sequence', 'Set') else None
        if 'bits' in v and d is not None and d.named:
            return {'bits': v['bits'].rstrip('0')}
        if 'struct' in v and d is not None and d.comps is not None:
            cs = {c['name']: c for c in d.comps}
            out = {}
            for n, x in v['struct'].items():
                c = cs.get(n)
                dd = self.spec.den(c['type']) if c else None
                x = self.normval(x, dd)
                if c and c.get('default') is not None:
                    if x == self.normval(self.spec.resval(c['default'], c['type'], c['type'].mod), dd):
                        continue
                out[n] = x
            return {'struct': out}
        if 'list' in v and d is not None and d.elem is not None:
            dd = self.spec.den(d.elem)
            return {'list': [self.normval(x, dd) for x in v['list']]}
        if 'choice' in v and d is not None and d.comps is not None:
            cs = {c['name']: c for c in d.comps}
            n, x = v['choice']
            return {'choice': [n, self.normval(x, self.spec.den(cs[n]['type']) if n in cs else None)]}
        if 'null' in v:
            return {'octets': '0500'} if d is not None and d.kind == 'Any' else {'null': True}
        return v

    def pair(self, path, idx, t, where, top):
        d = self.spec.den(t)
        k = (idx, id(d))
        if k in self.seen:
            return
        self.seen.add(k)
        n = self.nodes[idx]
        self.paths.setdefault(idx, path)
        origin = None if top else d.origin

        def ob(prop, aspect, ok, code=None, spec=None, **extra):
            if not ok:
                sig = (aspect.split(':')[0], repr(code), repr(spec))
                if top:
                    self.homefail.setdefault(path, set()).add(sig)
                elif origin and sig in self.homefail.get(origin, ()):
                    return          # reported at the type's own definition
            self.ob(prop, path, aspect, ok, code, spec, where, node=idx, den=d, **extra)
        if n.get('error'):
            ob('C05', 'usable', False, n['error'], 'a usable schema object')
            return
        if n['kind'] != d.kind:
            ob('C05', 'kind', False, n['kind'], d.kind)
            if not any(n['kind'] in f and d.kind in f for f in FAMILIES):
                return
            if d.kind in CHARS:
                ob('C06', 'character set', False, n['kind'], d.kind)
        else:
            ob('C05', 'kind', True)
        ct = [(c, i) for c, f, i in n['tags']]
        ob('C05', 'tags', ct == list(d.tags), tagtext(ct), tagtext(d.tags))
        if ct == list(d.tags):
            bad = []
            for i, (c, f, num) in enumerate(n['tags']):
                if i == 0 and d.kind not in ('Any', 'Choice'):
                    if f != 0 and d.kind not in CONSTRUCTED:
                        bad.append((i, 'constructed', 'primitive'))
                elif f != 32 and d.kind not in CONSTRUCTED and d.kind != 'Choice':
                    bad.append((i, 'primitive', 'constructed'))
            ob('C05', 'tag form', not bad, 'tag %d is %s' % bad[0][:2] if bad else None,
               bad[0][2] if bad else None)
        if n.get('overrides'):
            ob('C05', 'codec methods', False, 'shadows ' + ', '.join(n['overrides']), 'inherits the codec behaviour')
            for prop, names in sorted(MEANING.items()):
                hit = [x for x in n['overrides'] if names.search(x)]
                if hit:
                    ob(prop, 'library behaviour', False, 'shadows ' + ', '.join(hit), 'inherits the library behaviour')
        if d.kind in conmod.STRINGS and d.kind not in ('Null', 'Any', 'OctetString'):
            ob('C05', 'character encoding', (n.get('encoding') or '').lower() == (d.enc or '').lower(),
               n.get('encoding'), d.enc)
        self.conjobs.append((path, idx, d, where, origin, top))
        cn = {a: b for a, b in n.get('named', ())} if d.kind in ('Integer', 'Enumerated', 'BitString') else {}
        dn = {a: b for a, b in (d.named or ())} if d.kind in ('Integer', 'Enumerated', 'BitString') else {}
        if cn or dn:
            for nm in sorted(set(cn) | set(dn)):
                ob('C08', 'named ' + nm, cn.get(nm) == dn.get(nm), cn.get(nm, 'not named'), dn.get(nm, 'not named'))
            ob('C08', 'names mean their numbers', not n.get('misread'), n.get('misread'), 'each name is read as its number and back')
            if len(set(cn.values())) != len(n.get('named', ())) and len(set(dn.values())) == len(dn):
                ob('C08', 'named numbers distinct', False, n['named'], d.named)
        if d.kind in RECORDS:
            cc = n.get('components', [])
            have = [c['name'] for c in cc]
            want = [c['name'] for c in d.comps]
            ob('C05', 'components', have == want, have, want)
            byname = {c['name']: c for c in cc}
            for c in d.comps:
                x = byname.get(c['name'])
                if x is None:
                    continue
                cw = '%s.asn1:%d' % (c['type'].mod, c['line'])
                self.comp(path + '.' + c['name'], d, c, x, cw, ob, c['name'], have)
        elif d.kind in LISTS:
            if n.get('element') is None:
                ob('C05', 'element type', False, 'missing', 'defined')
            else:
                p2 = path + '.*'
                ev = self.nodes[n['element']].get('value')
                if ev is not None and self.nodes[n['element']]['kind'] not in ('Null',):
                    ob('C09', 'element: preset value', False, ev, None)
                self.queue.append((p2, n['element'], d.elem, where, False))

    def comp(self, path, d, c, x, where, ob, name, have):
        mode = x['mode']
        # PyASN1 keeps no presence mark on alternatives
        if d.kind != 'Choice':
            ob('C05', name + ':presence', mode == c['mode'], mode, c['mode'], comp=name)
        xn = self.nodes[x['type']]
        kind = xn['kind']
        if c['mode'] == 'default':
            want = self.spec.resval(c['default'], c['type'], c['type'].mod)
            if mode == 'default':
                ok = self.sameval(x.get('default'), want, c['type'], kind)
                ob('C09', name + ':default', ok, x.get('default'), want, comp=name)
            else:
                ob('C09', name + ':default', False, 'no default (%s)' % mode, want, comp=name)
        else:
            ob('C09', name + ':no default', mode != 'default',
               ('default', x.get('default')) if mode == 'default' else None, 'no default', comp=name)
            want = c.get('value')
            if want is not None:
                want = self.spec.resval(want, c['type'], c['type'].mod)
            have_v = xn.get('value') if mode != 'default' else None
            if mode != 'default' and kind not in ('Null',):
                ok = self.sameval(have_v, want, c['type'], kind)
                ob('C09', name + ':preset value', ok, have_v, want, comp=name)
        xo = x.get('open')
        co = c.get('open')
        if xo or co:
            if not xo:
                ob('C11', name + ':open type', False, 'not an open field', 'governed by %s in %s' % co, comp=name)
            elif not co:
                ob('C11', name + ':open type', False, 'governed by %s' % xo['governor'], 'not an open field', comp=name)
            else:
                ob('C11', name + ':governor', xo['governor'] == co[0], xo['governor'], co[0], comp=name)
                ob('C11', name + ':governor exists', xo['governor'] in have, xo['governor'],
                   'a component of the type', comp=name)
                full = co[1] if '.' in co[1] else '%s.%s' % (c['type'].mod, co[1])
                want = self.spec.registry(full)
                got = xo['map'].get('name')
                ok = got is not None and want in self.alias.get(got, ())
                ob('C11', name + ':registry', ok,
                   ' = '.join(self.alias.get(got, [got])) if got else 'a private dictionary',
                   want, comp=name, registry=want)
                ob('C11', name + ':unregistered identifiers', not xo['map'].get('shadows'),
                   'the registry redefines ' + ', '.join(xo['map'].get('shadows', ())),
                   'the registry answers by its entries only', comp=name, registry=want)
        self.queue.append((path, x['type'], c['type'], where, False))

    # -- constraints ------------------------------------------------------------
    def constraints(self, solver):
        """solver(list of jobs) -> {jobkey: (status, value, smt)}; adds the C06 obligations"""
        import json
        jobs = {}
        uses = []
        for path, idx, d, where, origin, top in self.conjobs:
            n = self.nodes[idx]
            ctree = conmod.reduce_tree(n['con'])
            stree = conmod.reduce_tree(conmod.spec_tree(d.kind, d.con))
            comps = []
            sub = {}
            if d.kind in RECORDS and (mentions(ctree) or mentions(stree)):
                # presence of a defaulted component is a free variable too
                comps = [{'name': c['name'], 'mode': 'required' if c['mode'] == 'required' else 'optional'}
                         for c in d.comps]
                for c in d.comps:
                    cd = self.spec.den(c['type'])
                    sub[c['name']] = {'kind': cd.kind, 'enc': cd.enc}
            elif d.kind in RECORDS:
                comps = [{'name': 'c%d' % i, 'mode': 'required' if c['mode'] == 'required' else 'optional'}
                         for i, c in enumerate(d.comps)] if d.kind != 'Choice' else \
                    [{'name': 'c%d' % i, 'mode': 'optional'} for i in range(min(2, len(d.comps)))]
                if ctree in (['and'],) and stree in (['and'],):
                    comps = []
            kind = d.kind
            job = (kind, json.dumps(ctree), json.dumps(stree), json.dumps(comps), d.enc or '', json.dumps(sub, sort_keys=True))
            jobs[job] = None
            uses.append((path, idx, d, where, origin, top, job))
        res = solver(sorted(jobs))
        home = {}
        for path, idx, d, where, origin, top, job in uses:
            st, v, _ = res[job]
            if top and st != 'equal':
                home.setdefault(path, set()).add(job[1:3])
        for path, idx, d, where, origin, top, job in uses:
            st, v, _ = res[job]
            if not top and st != 'equal' and origin and job[1:3] in home.get(origin, ()):
                continue
            self.obs.append(Ob('C06', path + ':constraint', st == 'equal', job[1], job[2], where,
                               node=idx, den=d, status=st, witness=v, job=job))
        return res


def mentions(t):
    if t[0] in ('and', 'or', 'not', 'contained'):
        return any(mentions(x) for x in t[1:])
    return t[0] == 'with'
