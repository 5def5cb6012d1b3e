"""Check driver: decide.py Cxx"""
import hashlib
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import asn1
import con as conmod
import consts
import gen
import registries
import schema
import unique

REPO = os.environ.get('VERIF_REPO', '/repo')
LIBPY = '/opt/venv/bin/python'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
REPLAYS = os.path.join(ROOT, 'evidence', 'replay')

TRUST = [
    'pyasn1 0.5.1 (codecs, tag maps): assumed to implement the meaning of the schema objects the modules build '
    '(engine/con.py, engine/unique.py state that meaning); its constraint evaluators, NamedValues, TagMap and OpenType are under '
    'contract themselves, discharged in every run of C06, C07, C08 and C11 (engine/libspecs.py)',
    'CPython 3.12 executing the module bodies (they take no input, so the executed state is their strongest postcondition)',
    'engine/extract.py reading that state (drops docstrings, comments, private names, method bodies; reports shadowed codec methods)',
    'contracts/asn1/*.asn1 stating what the specifications say (audited by hand, contracts/AUDIT.md)',
]


class Undecided(Exception):
    pass


def extract():
    p = subprocess.run([LIBPY, os.path.join(HERE, 'extract.py'), REPO], capture_output=True, text=True)
    if p.returncode:
        raise Undecided('extraction failed: ' + p.stderr[-2000:])
    return json.loads(p.stdout)


def known():
    out = []
    with open(os.path.join(ROOT, 'known_findings.jsonl')) as f:
        for line in f:
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get('status') == 'known':
                    out.append(e)
    return out


def text(x):
    return x if isinstance(x, str) else json.dumps(x, sort_keys=True)


# -- second back end -----------------------------------------------------------------------

def cvc5_all(smts):
    """[(smt, expected)] -> (agreeing, disagreeing, unanswered)"""
    import tempfile

    def one(x):
        smt, want = x
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(smt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=20000', f.name], capture_output=True, text=True, timeout=40)
            got = p.stdout.strip().split('\n')[-1]
        except Exception:
            got = 'timeout'
        finally:
            os.unlink(f.name)
        return got, want
    agree = dis = none = 0
    with ThreadPoolExecutor(8) as ex:
        for got, want in ex.map(one, smts):
            if got == want:
                agree += 1
            elif got in ('sat', 'unsat'):
                dis += 1
            else:
                none += 1
    return agree, dis, none


# -- replays ----------------------------------------------------------------------------------

def run_cases(cases):
    if not cases:
        return []
    env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([LIBPY, os.path.join(HERE, 'replay_rt.py')], input=json.dumps(cases),
                       capture_output=True, text=True, env=env)
    if p.returncode:
        # one bad case may kill the batch: run singly
        if len(cases) == 1:
            return [None]
        out = []
        for c in cases[:60]:
            out += run_cases([c])
        return out + [None] * (len(cases) - len(out))
    return json.loads(p.stdout)


SLOW = {'orders', 'histories', 'frame', 'prior', 'package'}     # each imports modules in processes of its own
BUDGET = [120]


def first_hit(cases):
    """the first case that shows the violation -> (case, what) or None"""
    if not any(c['kind'] in SLOW for c in cases):
        return next(((c, r) for c, r in zip(cases, run_cases(cases)) if r), None)
    for c in cases:
        if BUDGET[0] <= 0:
            return None
        t = time.time()
        r = run_cases([c])[0]
        BUDGET[0] -= time.time() - t
        if r:
            return c, r
    return None


class Replayer(object):
    def __init__(self, spec):
        self.spec = spec
        self.gen = gen.Gen(spec)

    def type_at(self, path):
        """contract type at 'mod.Type.comp.*...' -> (mod, type, [rest], T)"""
        parts = path.split('.')
        mod, name, rest = parts[0], parts[1], parts[2:]
        pub = self.spec.published(mod).get(name)
        if pub is None or pub[0] != 'type':
            return None
        t = self.spec.mods[pub[1]]['types'][pub[2]]
        for h in rest:
            d = self.spec.den(t)
            if h == '*':
                t = d.elem
            else:
                cs = [c for c in (d.comps or ()) if c['name'] == h]
                if not cs:
                    return None
                t = cs[0]['type']
        top = self.spec.mods[pub[1]]['types'][pub[2]]
        return mod, name, rest, top, t

    def roundtrips(self, path, deep=1):
        r = self.type_at(path)
        if r is None:
            return []
        mod, name, rest, top, t = r
        out = []
        vs = self.gen.variants(t, deep)
        for v in vs:
            try:
                w = self.gen.wrap(top, rest, v)
                out.append({'kind': 'roundtrip', 'module': mod, 'type': name, 'der': self.gen.der(top, w).hex(),
                            'shape': self.gen.shape(top, w),
                            'title': 'a conforming encoding of %s.%s' % (mod, name)})
            except Exception:
                continue
        return out

    def usable(self, path):
        parts = path.split('.')
        return len(parts) > 1

    def cases(self, o):
        path, _, aspect = o.key.partition(':')
        mod = path.split('.')[0]
        if o.prop == 'C04':
            want = o.extra.get('const')
            m, n = path.split('.')
            if o.extra.get('type') is not None and want is not None:
                try:
                    t = o.extra['type']
                    v = self.gen.fromval(t, self.spec.resval(want, t, t.mod))
                    want = {'der': self.gen.der(t, v).hex()}
                except Exception:
                    return []
            return [{'kind': 'constant', 'module': m, 'name': n, 'want': want,
                     'title': 'value of %s' % path}] if want is not None else []
        if o.prop in ('C05', 'C07'):
            parts = path.split('.')
            if len(parts) < 2:
                return [{'kind': 'methods', 'module': mod, 'type': sorted(self.spec.mods[mod]['types'])[0],
                         'title': 'module %s' % mod}] if mod in self.spec.mods and self.spec.mods[mod]['types'] else []
            out = [{'kind': 'methods', 'module': mod, 'type': parts[1], 'title': 'use of %s.%s' % (mod, parts[1])}]
            if aspect.endswith('presence') and '.' not in aspect:
                pass
            return out + self.roundtrips(path, 2 if len(parts) < 3 else 1)
        if o.prop == 'C06':
            v = o.extra.get('witness')
            d = o.extra['den']
            parts = path.split('.')
            tree = conmod.spec_tree(d.kind, d.con)
            vals = [v] if v is not None else []
            if o.extra.get('status') != 'differ':
                vals = self.boundary(d, tree)
            out = []
            for x in vals:
                try:
                    ok = bool(conmod.ev(tree, d.kind, x, True))
                except conmod.Unrelated:
                    continue
                e = self.value_json(d.kind, x)
                if e is not None:
                    out.append({'kind': 'value', 'module': mod, 'type': parts[1], 'path': parts[2:], 'value': e,
                                'permitted': ok, 'title': 'constraint of %s' % path})
            return out + (self.roundtrips(path) if aspect == 'library behaviour' else [])
        if o.prop == 'C08':
            parts = path.split('.')
            if aspect.startswith('named ') and aspect != 'named numbers distinct':
                n = aspect[6:]
                num = dict(o.extra['den'].named or ()).get(n)
                return [{'kind': 'named', 'module': mod, 'type': parts[1], 'path': parts[2:], 'name': n, 'number': num,
                         'title': 'named value of %s' % path}]
            if aspect in ('names mean their numbers', 'library behaviour'):
                return [{'kind': 'named', 'module': mod, 'type': parts[1], 'path': parts[2:], 'name': n, 'number': num,
                         'title': 'named value of %s' % path} for n, num in sorted((o.extra['den'].named or ()))] + (
                             self.roundtrips(path) if aspect == 'library behaviour' else [])
            return []
        if o.prop == 'C09':
            parts = path.split('.')
            out = []
            if 'preset' in aspect or 'fresh' in aspect:
                comp = o.extra.get('comp')
                rest = parts[2:] + ([comp] if comp else ['*'] if aspect.startswith('element') else [])
                out.append({'kind': 'fresh', 'module': mod, 'type': parts[1], 'path': rest, 'want': o.spec,
                            'title': 'fresh value of %s' % path})
            if aspect == 'library behaviour':
                out.append({'kind': 'methods', 'module': mod, 'type': parts[1], 'title': 'use of %s.%s' % (mod, parts[1])})
            if 'comparable' in aspect:
                out += self.nearly_default(path, o.extra['comp'])
            return out + self.roundtrips(path)
        if o.prop == 'C10':
            if 'modname' in o.extra and 'rkey' not in o.extra:
                return [{'kind': 'methods', 'module': mod, 'type': 'x', 'title': 'import of ' + mod}]
            reg = o.extra.get('registry') or path
            if o.extra.get('aliasname'):
                return [{'kind': 'registry', 'registry': reg, 'alias': o.extra['aliasname'], 'title': o.key}]
            if 'rkey' not in o.extra:
                return [{'kind': 'registry', 'registry': reg, 'key': {'oid': [1, 2]}, 'absent': True, 'title': o.key}]
            c = {'kind': 'registry', 'registry': reg, 'key': o.extra['rkey'], 'title': o.key}
            if not isinstance(c['key'], dict):
                c['key'] = {'int': c['key']}
            if o.extra.get('extraentry'):
                c['absent'] = True
            elif o.extra.get('type') is not None:
                t = o.extra['type']
                c['cases'] = []
                for v in self.gen.variants(t, 2):
                    try:
                        c['cases'].append([self.gen.der(t, v).hex(), self.gen.shape(t, v)])
                    except Exception:
                        pass
            if 'modname' in o.extra:
                c['import'] = [o.extra['modname']]
                c.pop('cases', None)
            return [c]
        if o.prop == 'C11':
            return self.open_cases(o, path)
        if o.prop == 'C12':
            return self.import_cases(o)
        return []

    def import_cases(self, o):
        x = o.extra
        if 'mods' in x:
            a, b = x['mods']
            key = x['rkey']
            return [{'kind': 'orders', 'registry': x['registry'], 'key': key, 'orders': [[a, b], [b, a]],
                     'title': o.key}]
        m = x.get('modname')
        sys.path.insert(0, HERE)
        memo = {}
        dep = {}
        names = sorted(f[:-3] for f in os.listdir(os.path.join(REPO, 'pyasn1_modules'))
                       if f.endswith('.py') and f != '__init__.py')
        first = [n for n in names if m not in static_closure(n, memo)]
        if x.get('history'):
            users = [n for n in names if n != m and m in static_closure(n, memo)]
            return [{'kind': 'histories', 'module': m, 'histories': [f], 'title': o.key} for f in [first] + [[u] for u in users]]
        if x.get('package'):
            return [{'kind': 'package', 'title': o.key}]
        if x.get('entry'):
            users = [n for n in names if n != m and m in static_closure(n, memo)]
            reg, key = x['entry']
            return [{'kind': 'orders', 'registry': reg, 'key': key, 'title': o.key, 'orders': [[m] + f, f + [m]]}
                    for f in [first] + [[u] for u in users[:4]]]
        if x.get('frame'):
            return [{'kind': 'frame', 'module': m, 'names': [f[0] for f in x['frame'][:20]], 'first': first, 'title': o.key}]
        expect = [[reg, key] for m2, reg, key, t, line in self.spec.contributions() if m2 == m]
        return [{'kind': 'prior', 'module': m, 'first': f, 'title': o.key, 'expect': expect}
                for f in (first, sorted(static_closure(m, memo) - {m}))]

    def nearly_default(self, path, comp):
        """the default value with one optional part dropped or added: not the default, so it is encoded"""
        r = self.type_at(path)
        if r is None:
            return []
        mod, name, rest, top, t = r
        c = [c for c in self.spec.den(t).comps if c['name'] == comp]
        if not c or c[0].get('default') is None:
            return []
        c = c[0]
        dv = self.gen.fromval(c['type'], c['default'])
        out = []
        for x in self.spec.den(c['type']).comps:
            if x['mode'] != 'optional':
                continue
            m = dict(dv[1])
            if x['name'] in m:
                del m[x['name']]
            else:
                m[x['name']] = self.gen.minimal(x['type'])
            v = dict(self.gen.minimal(t)[1])
            v[comp] = ('rec', m)
            w = self.gen.wrap(top, rest, ('rec', v))
            out.append({'kind': 'roundtrip', 'module': mod, 'type': name, 'der': self.gen.der(top, w).hex(),
                        'title': 'a value of %s whose %s differs from the default only in an optional part' % (path, comp)})
        return out

    def open_cases(self, o, path):
        parts = path.split('.')
        r = self.type_at(path)
        if r is None:
            return []
        mod, name, rest, top, t = r
        d = self.spec.den(t)
        comp = o.extra.get('comp')
        c = [c for c in d.comps if c['name'] == comp]
        if not c or not c[0].get('open'):
            return []
        c = c[0]
        g, reg = c['open']
        full = reg if '.' in reg else '%s.%s' % (c['type'].mod, reg)
        gc = [x for x in d.comps if x['name'] == g]
        if not gc:
            return []
        gd = self.spec.den(gc[0]['type'])
        inner = bytes.fromhex('02012a')
        cd = self.spec.den(c['type'])

        def val(dd):
            if dd.kind == 'Any':
                return ('any', inner)
            if dd.kind in ('SequenceOf', 'SetOf'):
                return ('list', [val(self.spec.den(dd.elem))])
            if dd.kind == 'OctetString':
                return ('prim', inner, inner)
            return None
        v = val(cd)
        if v is None:
            return []
        gv = self.gen.prim(gd, 90)
        if gd.kind == 'ObjectIdentifier' and not any(l[0] == 'single' for l in conmod.leaves(conmod.spec_tree(gd.kind, gd.con))):
            arcs = (1, 3, 6, 1, 4, 1, 99999, 7)
            gv = ('prim', gen.oid_bytes(arcs), arcs)
        key = {'oid': list(gv[2])} if gd.kind == 'ObjectIdentifier' else {'int': gv[2]}
        m = dict(self.gen.minimal(t)[1])
        m[g], m[comp] = gv, v
        m = self.gen.repair(d, {x['name']: m[x['name']] for x in d.comps if x['name'] in m}, 0, (g, comp))
        w = self.gen.wrap(top, rest, ('rec', m))
        der = self.gen.der(top, w).hex()
        return [{'kind': 'openfield', 'module': mod, 'type': name, 'path': rest + [comp], 'registry': self.spec.registry(full),
                 'key': key, 'register': flag, 'der': der, 'title': 'open field %s.%s' % (path, comp)}
                for flag in (True, False)]

    def boundary(self, d, tree):
        out = []
        nums = [x for l in conmod.leaves(tree) for x in l[1:] if l[0] in ('range', 'size') and isinstance(x, int)]
        if d.kind in conmod.INTS:
            out = sorted({n + k for n in nums + [0] for k in (-2, -1, 0, 1, 2)} | {2 ** 31, 2 ** 32, -2 ** 31, 10 ** 9})
        elif d.kind in ('SequenceOf', 'SetOf'):
            out = [('n', n) for n in sorted({max(0, n + k) for n in nums + [0] for k in (-1, 0, 1)})]
        elif d.kind in ('Sequence', 'Set', 'Choice'):
            import itertools
            names = [c['name'] for c in d.comps][:8]
            for n in range(len(names) + 1):
                for s in itertools.combinations(names, n):
                    if d.kind == 'Choice' and n > 1:
                        continue
                    if all(c['mode'] != 'required' or c['name'] in s for c in d.comps) or d.kind == 'Choice':
                        out.append({x: True for x in s})
            out = out[:500]
        else:
            for seed in range(8):
                out += [x for x in self.gen.candidates(d, tree, seed)[:60]]
            lens = sorted({max(0, n + k) for n in nums + [0, 1] for k in (-1, 0, 1) if n < 100000})
            if d.kind in ('OctetString', 'Any'):
                out += [b'a' * n for n in lens]
            elif d.kind in conmod.STRINGS and d.kind != 'Null':
                out += ['1' * n for n in lens] + ['z' * n for n in lens]
                out += [chr(c) * max(1, min(nums or [1])) for c in range(128)]
            elif d.kind == 'BitString':
                out += ['1' * n for n in lens]
        seen, res = set(), []
        for x in out:
            k = repr(x)
            if k not in seen:
                seen.add(k)
                res.append(x)
        return res

    @staticmethod
    def value_json(kind, v):
        if kind in conmod.INTS:
            return {'int': v}
        if kind in ('SequenceOf', 'SetOf'):
            return {'count': v[1]}
        if kind in ('Sequence', 'Set', 'Choice'):
            return {'present': sorted(v)}
        if isinstance(v, bytes):
            return {'bytes': v.hex()}
        if kind == 'BitString':
            return {'bits': v}
        if kind == 'ObjectIdentifier':
            return {'oid': list(v)} if len(v) else None
        return {'text': v}


def static_closure(mod, memo):
    import effects_static
    return effects_static.closure(REPO, mod, memo)


def write_replay(prop, o, case, result, n):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha1((prop + o.key).encode()).hexdigest()[:10]
    p = os.path.join(REPLAYS, '%s-%s.py' % (prop, h))
    with open(p, 'w') as f:
        f.write('#!%s\n' % LIBPY)
        f.write('"""%s\n\nobligation: %s %s\ncode:       %s\ncontract:   %s\nwhere:      contracts/asn1/%s\n'
                % (case.get('title', '') if case else 'failed obligation', prop, o.key,
                   text(o.code).replace('\\', '\\\\').replace('"""', "'''")[:3000],
                   text(o.spec).replace('\\', '\\\\').replace('"""', "'''")[:3000], o.where))
        if case:
            f.write('observed:   %s\n"""\n' % str(result).replace('\\', '\\\\').replace('"""', "'''"))
            f.write('import json\nimport sys\n\nsys.path.insert(0, %r)\nimport replay_rt\n\n' % HERE)
            f.write('CASE = json.loads(%r)\n\nsys.exit(replay_rt.main(CASE))\n' % json.dumps(case))
        else:
            f.write('\nNo failing input was found for this obligation.\n"""\nimport sys\n\nprint(__doc__)\nsys.exit(1)\n')
    os.chmod(p, 0o755)
    return p


# -- obligations per property ------------------------------------------------------------------

def con_solver(stats):
    def solver(jobs):
        def one(j):
            sub = json.loads(j[5])
            return conmod.solve(j[0], json.loads(j[1]), json.loads(j[2]), json.loads(j[3]), j[4], lambda f: sub.get(f))
        out = {}
        for j in jobs:
            t = time.time()
            out[j] = one(j)
            stats['solver_s'] += time.time() - t
        return out
    return solver


def obligations(prop, spec, code, stats):
    if prop in ('C06', 'C07', 'C08', 'C11'):
        import fncheck
        stats['library_functions_under_contract'] = fncheck.library_only(prop)
    if prop == 'C04':
        c = schema.Compare(code, spec)
        obs, unc = consts.check(code, spec, c)
        stats['constants_without_contract'] = len(unc)
        stats['constants_without_contract_list'] = unc
        return obs
    if prop in ('C05', 'C08', 'C09', 'C11', 'C06'):
        c = schema.Compare(code, spec).run()
        obs, _ = consts.check(code, spec, c)
        while c.queue:
            c.pair(*c.queue.popleft())
        if prop == 'C06':
            res = c.constraints(con_solver(stats))
            stats['distinct_queries'] = len(res)
            smts = [(s, {'equal': 'unsat', 'differ': 'sat'}[st]) for st, v, s in res.values() if st in ('equal', 'differ')]
            a, dis, none = cvc5_all(smts)
            stats['cvc5_agree'], stats['cvc5_disagree'], stats['cvc5_unanswered'] = a, dis, none
            if dis:
                raise Undecided('z3 and cvc5 disagree on %d queries' % dis)
            # vacuity: the value spaces are inhabited on both sides
            stats['nontrivial_constraints'] = sum(1 for j in res if j[1] != '["and"]' or j[2] != '["and"]')
        if prop == 'C09':
            c.obs += comparable(c, spec, code)
        return [o for o in c.obs if o.prop == prop]
    if prop == 'C07':
        c = schema.Compare(code, spec).run()
        paths = {}
        for p, idx, d, w, o, top in c.conjobs:
            paths.setdefault(idx, (p, w))
        t = time.time()
        obs, smts = unique.check(code, schema.Ob, paths)
        stats['solver_s'] += time.time() - t
        stats['distinct_queries'] = len(smts)
        a, dis, none = cvc5_all(smts)
        stats['cvc5_agree'], stats['cvc5_disagree'], stats['cvc5_unanswered'] = a, dis, none
        if dis:
            raise Undecided('z3 and cvc5 disagree on %d queries' % dis)
        return obs + [o for o in c.obs if o.prop == 'C07']
    if prop in ('C10', 'C12'):
        mods = sorted(f[:-3] for f in os.listdir(os.path.join(REPO, 'pyasn1_modules'))
                      if f.endswith('.py') and f != '__init__.py')
        ef = registries.run_effects(REPO, mods, code, histories=prop == 'C12')
        stats['module_bodies_executed'] = len(ef) * (2 if prop == 'C12' else 1)
        return registries.check_c10(code, spec, ef) if prop == 'C10' else registries.check_c12(code, spec, ef)
    raise SystemExit('unknown property ' + prop)


def comparable(c, spec, code):
    """encoding decides whether to omit a defaulted component by comparing it with the default;
    the comparison must be defined for every value.  The library compares records slot by slot
    and cannot compare an absent slot with a present one."""
    obs = []
    seen = set()
    for path, idx, d, where, origin, top in c.conjobs:
        n = code['nodes'][idx]
        for x in n.get('components', ()):
            if x['mode'] != 'default':
                continue
            m = code['nodes'][x['type']]
            bad = [y['name'] for y in m.get('components', ()) if y['mode'] == 'optional'] \
                if m['kind'] in ('Sequence', 'Set') else []
            if origin and bad and ('%s:%s' % (origin, x['name'])) in seen:
                continue
            if bad:
                seen.add('%s:%s' % (path, x['name']))
            obs.append(schema.Ob('C09', '%s:%s:comparable default' % (path, x['name']), not bad,
                                 'record with optional %s' % ', '.join(bad), 'comparable with every value', where,
                                 node=idx, den=d, comp=x['name']))
    return obs


def main(prop):
    if prop in ('C01', 'C02', 'C03', 'C13', 'C14'):
        import fncheck
        return fncheck.main(prop)
    t0 = time.time()
    stats = {'solver_s': 0.0}
    spec = asn1.Spec(os.path.join(ROOT, 'contracts', 'asn1'))
    code = extract()
    obs = obligations(prop, spec, code, stats)
    if not obs:
        raise Undecided('no obligations')
    rep = Replayer(spec)
    if prop == 'C05':
        obs += cross_check(spec, rep, stats)
    return finish(prop, obs, stats, t0, rep)


def cross_check(spec, rep, stats):
    """bounded cross-check of contracts, extraction and library together, never counted as proved:
    encodings generated from the contracts alone are decoded and encoded again by the real types.
    Types that reach a recorded finding are left out."""
    listed = set()
    for e in known():
        m, _, rest = e['key'].partition(':')[0].partition('.')
        pub = spec.published(m).get(rest.split('.')[0]) if e['property'] in ('C05', 'C07', 'C08', 'C09') \
            and not e['key'].endswith(':comparable default') and m in spec.mods else None
        if pub and pub[0] == 'type':
            d = spec.den(spec.mods[pub[1]]['types'][pub[2]])
            listed.add(id(d.comps or d))

    def reaches(t, seen):
        d = spec.den(t)
        i = id(d.comps or d)
        if i in listed:
            return True
        if i in seen:
            return False
        seen.add(i)
        return any(reaches(c['type'], seen) for c in d.comps or ()) or (d.elem is not None and reaches(d.elem, seen))

    cases, skipped = [], 0
    for mod in sorted(spec.mods):
        for n, e in sorted(spec.published(mod).items()):
            if e[0] == 'type' and e[1] == mod:
                if reaches(spec.mods[mod]['types'][e[2]], set()):
                    skipped += 1
                    continue
                cases += rep.roundtrips('%s.%s' % (mod, n), 1 if TIER == 'quick' else 2)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(run_cases, [cases[i::8] for i in range(8)]))
    stats['bounded_cross_check'] = '%d encodings generated from the contracts decoded and re-encoded by the real ' \
        'types; %d types that reach a recorded finding left out' % (len(cases), skipped)
    obs, seen = [], set()
    for i in range(8):
        for c, r in zip(cases[i::8], rs[i]):
            key = '%s.%s' % (c['module'], c['type'])
            if r and key not in seen:
                seen.add(key)
                obs.append(schema.Ob('C05', key + ':conforming encoding', False, r, 'decoded and re-encoded as it was',
                                     'cross-check', hit=(c, r)))
    return obs


def finish(prop, obs, stats, t0, rep):
    failing = [o for o in obs if not o.ok]
    listed = known()
    knownhits, bad, bounded = [], [], []
    for o in failing:
        if o.extra.get('status') in ('custom', 'unknown'):
            cs = rep.cases(o)
            rs = run_cases(cs)
            hit = [(c, r) for c, r in zip(cs, rs) if r]
            if hit:
                o.extra['hit'] = hit[0]
                bad.append(o)
            else:
                bounded.append((o, len(cs)))
            continue
        k = [e for e in listed if e['property'] == prop and e['key'] == o.key and e['code'] == text(o.code)]
        if k:
            knownhits.append((o, k[0]))
        else:
            bad.append(o)
    viol = []
    bad.sort(key=lambda o: 'entry' in o.extra)      # the costlier replays last
    for i, o in enumerate(bad):
        hit = o.extra.get('hit') if isinstance(o.extra.get('hit'), tuple) and isinstance(o.extra.get('hit')[0], dict) else None
        if hit is None and i < 40:
            try:
                cs = rep.cases(o)
            except Exception as exc:
                cs = []
                stats.setdefault('replay_errors', []).append(repr(exc)[:200])
            hit = first_hit(cs)
        viol.append((o, hit))
    viol.sort(key=lambda x: x[1] is None)
    for o, k in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for o, n in bounded:
        print('BOUNDED: %s %s decided on %d boundary values only' % (prop, o.key, n))
    for n, (o, hit) in enumerate(viol[:20]):
        p = write_replay(prop, o, hit[0] if hit else None, hit[1] if hit else None, n)
        print('  obligation %s: code %s | contract %s (%s)' % (o.key, text(o.code)[:300], text(o.spec)[:300], o.where))
        if hit:
            print('  replayed: %s' % str(hit[1])[:300])
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if hit else ' no-failing-input-found'))
    if len(viol) > 20:
        print('... and %d more failed obligations' % (len(viol) - 20))
    good = sum(1 for o in obs if o.ok)
    families = {}
    for o in obs:
        a = o.key.partition(':')[2].split(':')[-1].split(' ')[0] if prop != 'C12' else o.key.rpartition(':')[2].split(' ')[0]
        families[a] = families.get(a, 0) + 1
    families = dict(sorted(families.items(), key=lambda x: -x[1])[:20])
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'proof',
        'coverage': {
            'obligations': len(obs), 'discharged': good,
            'checker_cmd': './check %s' % prop,
            'trusted_base': TRUST,
            'known_findings': len(knownhits), 'bounded_stand_ins': [o.key for o, n in bounded],
            'obligation_families': families,
            'back_ends': {
                'C06': 'z3 (python) validity of code <=> contract over all values, every query repeated with cvc5',
                'C07': 'z3 (python) over an arbitrary tag, every query repeated with cvc5',
            }.get(prop, 'ground evaluation over the post-state of the real module bodies'),
            'samples': [repr(o)[:300] for o in obs[:: max(1, len(obs) // 5)][:5]],
        },
        'assumptions': TRUST,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    ev['coverage'].update({k: (round(v, 3) if isinstance(v, float) else v) for k, v in stats.items()})
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d obligations, %d discharged, %d known findings, %d bounded, %d violations (%.1f s)' % (
        prop, len(obs), good, len(knownhits), len(bounded), len(viol), time.time() - t0))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.modules['decide'] = sys.modules['__main__']
    try:
        sys.exit(main(sys.argv[1]))
    except Undecided as exc:
        print('UNDECIDED: %s' % exc)
        sys.exit(2)
