"""C10: registries hold exactly the contract's entries.  C12: module bodies only add, read
nothing, touch nothing else, and commute."""
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

import con as conmod
import schema

LIBPY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))


def keytext(k):
    if isinstance(k, dict) and 'oid' in k:
        return '.'.join(map(str, k['oid']))
    return json.dumps(k, sort_keys=True)


def mapkey(k):
    """registry keys as hashables: the code may use numbers, the contract {'int': n}"""
    if isinstance(k, dict) and 'int' in k:
        k = k['int']
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, dict) and 'oid' in k:
        return ('oid',) + tuple(k['oid'])
    if isinstance(k, dict) and 'text' in k:
        return ('str', k['text'])
    if isinstance(k, dict) and 'str' in k:
        return ('str', k['str'])
    return ('v', json.dumps(k, sort_keys=True))


def same(na, i, nb, j, seen=None, path=''):
    """None when two code nodes denote the same type, else the first difference"""
    seen = set() if seen is None else seen
    if (i, j) in seen:
        return None
    seen.add((i, j))
    a, b = na[i], nb[j]
    for f in ('kind', 'tags', 'named', 'overrides'):
        x, y = a.get(f), b.get(f)
        if f == 'tags':
            x, y = [(c, n) for c, _, n in x], [(c, n) for c, _, n in y]
        if x != y:
            return '%s: %s %s / %s' % (path or 'type', f, x, y)
    if a['con'] != b['con']:
        ca, cb = conmod.reduce_tree(a['con']), conmod.reduce_tree(b['con'])
        if ca != cb:
            comps = [{'name': c['name'], 'mode': 'optional'} for c in a.get('components', [])][:8]
            if a['kind'] in ('Sequence', 'Set', 'Choice') and not comps:
                return '%s: constraint' % (path or 'type')
            st = conmod.solve(a['kind'], ca, cb, comps, None)
            if st[0] != 'equal':
                return '%s: constraint %s / %s' % (path or 'type', ca, cb)
    if a['kind'] != 'Null' and a.get('value') != b.get('value'):
        return '%s: preset value %s / %s' % (path or 'type', a.get('value'), b.get('value'))
    if 'components' in a or 'components' in b:
        ca, cb = a.get('components', []), b.get('components', [])
        if [(c['name'], c['mode']) for c in ca] != [(c['name'], c['mode']) for c in cb]:
            return '%s: components %s / %s' % (path or 'type', [c['name'] for c in ca], [c['name'] for c in cb])
        for x, y in zip(ca, cb):
            if x.get('default') != y.get('default'):
                return '%s.%s: default %s / %s' % (path, x['name'], x.get('default'), y.get('default'))
            xo, yo = x.get('open'), y.get('open')
            if (xo and (xo['governor'], xo['map'].get('name'))) != (yo and (yo['governor'], yo['map'].get('name'))):
                return '%s.%s: open field' % (path, x['name'])
            r = same(na, x['type'], nb, y['type'], seen, path + '.' + x['name'])
            if r:
                return r
    if a.get('element') is not None or b.get('element') is not None:
        if a.get('element') is None or b.get('element') is None:
            return '%s: element' % path
        return same(na, a['element'], nb, b['element'], seen, path + '.*')
    return None


class Matcher(object):
    """does a code node denote the contract type?  The type named by the contract is compared
    through what that name publishes (its own obligations are C05..C11's); anything else is
    compared structurally."""

    def __init__(self, code, spec):
        self.code, self.spec = code, spec
        self.memo = {}

    def diff(self, nodes, idx, t, alias=None):
        d = self.spec.den(t)
        if d.origin:
            mod, name = d.origin.split('.')
            e = self.code['modules'].get(mod, {}).get(name)
            if e and 'class' in e:
                r = same(nodes, idx, self.code['nodes'], e['class'])
                if r is None:
                    return None
        elif nodes is not self.code['nodes']:
            pass
        c = schema.Compare({'nodes': nodes, 'modules': {}, 'errors': {}, 'map_aliases': alias or self.code['map_aliases']}, self.spec)
        c.queue.append(('entry', idx, t, '', False))
        while c.queue:
            c.pair(*c.queue.popleft())
        bad = [o for o in c.obs if not o.ok]
        if bad:
            return '%s: %s, contract %s' % (bad[0].key, bad[0].code, bad[0].spec)

        def solver(jobs):
            out = {}
            for j in jobs:
                if j not in self.memo:
                    sub = json.loads(j[5])
                    self.memo[j] = conmod.solve(j[0], json.loads(j[1]), json.loads(j[2]), json.loads(j[3]), j[4],
                                                lambda f: sub.get(f))
                out[j] = self.memo[j]
            return out
        c.constraints(solver)
        bad = [o for o in c.obs if not o.ok]
        return None if not bad else '%s: %s, contract %s' % (bad[0].key, bad[0].code, bad[0].spec)


def groups(code):
    """canonical contract registry -> code registry entry"""
    alias = {}
    for g in code['map_aliases']:
        for n in g:
            alias[n] = g
    return alias


def check_c10(code, spec, effects=None):
    obs = []
    alias = groups(code)
    want = {}
    for mod, reg, key, t, line in spec.contributions():
        want.setdefault(reg, {}).setdefault(mapkey(key), []).append((mod, key, t, line))
    m = Matcher(code, spec)
    for reg, names in sorted(spec.registries().items()):
        rm, rn = reg.split('.')
        e = code['modules'].get(rm, {}).get(rn)
        where = '%s.asn1:%d' % (rm, spec.mods[rm]['lines'].get(rn, 0))
        if e is None or 'map' not in e:
            obs.append(schema.Ob('C10', reg + ':published', False, 'absent', 'a registry', where))
            continue
        obs.append(schema.Ob('C10', reg + ':published', True))
        obs.append(schema.Ob('C10', reg + ':only its entries', not e.get('shadows'), e.get('shadows'),
                             'a dictionary: no answer for an identifier without an entry', where, registry=reg,
                             unregistered=True))
        for n in names:
            if n != reg:
                obs.append(schema.Ob('C10', '%s:same registry' % n, n in alias.get(reg, [reg]),
                                     'a different dictionary', reg, where, registry=reg, aliasname=n))
        have = {mapkey(k): (k, v) for k, v in e['map']}
        for k, cs in sorted(want.get(reg, {}).items(), key=repr):
            path = '%s[%s]' % (reg, keytext(cs[0][1]))
            where = '%s.asn1:%d' % (cs[0][0], cs[0][3])
            if k not in have:
                obs.append(schema.Ob('C10', path + ':entry', False, 'missing',
                                     'the type governed by it', where, registry=reg, rkey=cs[0][1], type=cs[0][2]))
                continue
            v = have[k][1]
            if not isinstance(v, int):
                obs.append(schema.Ob('C10', path + ':entry', False, v, 'a type instance', where,
                                     registry=reg, rkey=cs[0][1], type=cs[0][2]))
                continue
            ds = [m.diff(code['nodes'], v, t) for _, _, t, _ in cs]
            obs.append(schema.Ob('C10', path + ':entry', None in ds,
                                 '%s (%s)' % (code['nodes'][v]['cls'], ds[0]),
                                 spec.den(cs[0][2]).origin or spec.den(cs[0][2]).kind, where,
                                 registry=reg, rkey=cs[0][1], type=cs[0][2], node=v))
        for k, (key, v) in sorted(have.items(), key=repr):
            if k not in want.get(reg, {}):
                obs.append(schema.Ob('C10', '%s[%s]:entry' % (reg, keytext(key)), False,
                                     code['nodes'][v]['cls'] if isinstance(v, int) else v,
                                     'not registered', where, registry=reg, rkey=key, node=v, extraentry=True))
    # after importing one module alone, its own contributions are there
    if effects is not None:
        canon = {}
        for g in code['map_aliases']:
            for n in g:
                canon[n] = g[0]
        for mod in sorted(spec.mods):
            ef = effects.get(mod)
            if ef is None or 'writes' not in ef:
                obs.append(schema.Ob('C10', mod + ':import', False, (ef or {}).get('error', 'no effect summary'),
                                     'imports', mod, modname=mod))
                continue
            got = {}
            for x in sorted(ef['deps']) + [mod]:
                e2 = effects.get(x) or {}
                for r, op, k, v in e2.get('writes', ()):
                    if k is not None:
                        got.setdefault((canon.get(r, r), mapkey(k)), []).append((x, v))
                for a, o in e2.get('own', {}).items():
                    for k, v in o['items'] or ():
                        got.setdefault((canon.get(o['name'], o['name']), mapkey(k)), []).append((x, v))
            for (m2, reg, key, t, line) in spec.contributions():
                if m2 != mod:
                    continue
                obs.append(schema.Ob('C10', '%s alone: %s[%s]' % (mod, reg, keytext(key)),
                                     (canon.get(reg, reg), mapkey(key)) in got, 'not registered',
                                     'registered by importing %s' % mod, '%s.asn1:%d' % (mod, line),
                                     modname=mod, registry=reg, rkey=key, type=t))
    return obs


MAXPATHS = 48


def run_effects(repo, mods, code, prior='concrete', histories=False):
    canon = {n: g[0] for g in code['map_aliases'] for n in g}
    runs = {}           # (module, answers) -> summary

    def given(effects):
        """entry -> the modules that contribute it on some path"""
        gives = {}
        for m, ps in effects.items():
            for p in ps:
                for r, op, k, v in p.get('writes', ()):
                    if k is not None:
                        gives.setdefault((canon.get(r, r), mapkey(k)), set()).add(m)
                for a, o in p.get('own', {}).items():
                    for k, v in o['items'] or ():
                        gives.setdefault((canon.get(o['name'], o['name']), mapkey(k)), set()).add(m)
        return gives

    def feasible(asked, gives, m):
        """are the answers those of the registries after importing some set of other modules?"""
        who = [(gives.get((canon.get(r, r), mapkey(k)), set()) - {m}, a) for r, k, a in asked]
        no = set().union(*[w for w, a in who if not a])
        return all(w - no for w, a in who if a)

    def run(m, script):
        if (m, script) not in runs:
            runs[m, script] = once(m, 'ask:' + script if script else prior)[1]
        return runs[m, script]

    def paths(m, gives):
        """one run per combination of answers the body can get"""
        out, todo, seen = [], [''], 0
        while todo:
            script = todo.pop()
            seen += 1
            if seen > MAXPATHS:
                return cover(m, gives)
            ef = run(m, script)
            if 'writes' not in ef:
                return [ef if not script else dict(ef, error='%s when answered %s' % (ef.get('error'), script))]
            if ef.get('reads'):
                return [ef]
            out.append(ef)
            for i in range(len(script), len(ef['asked'])):
                other = ef['asked'][:i] + [ef['asked'][i][:2] + [not ef['asked'][i][2]]]
                if feasible(other, gives, m):
                    todo.append(''.join('01'[a] for _, _, a in other))
        return [p for p in out if feasible(p['asked'], gives, m)] or out[:1]

    def cover(m, gives):
        """too many combinations: none there, each one alone there, all there, all but each one there"""
        ef = run(m, '')
        ask = ef['asked']
        can = [feasible([ask[i][:2] + [True]], gives, m) for i in range(len(ask))]
        ways = [[False] * len(ask), list(can)]
        ways += [[i == j and can[i] for j in range(len(ask))] for i in range(len(ask))]
        ways += [[i != j and can[j] for j in range(len(ask))] for i in range(len(ask))]
        ways = [w for w in dict.fromkeys(map(tuple, ways))
                if feasible([x[:2] + [a] for x, a in zip(ask, w)], gives, m)][:MAXPATHS]
        out = []
        for w in ways:
            e = run(m, ''.join('01'[a] for a in w))
            if 'writes' not in e:
                return [dict(e, error='%s when answered %s' % (e.get('error'), w))]
            if e.get('reads'):
                return [e]
            if feasible(e['asked'], gives, m):
                out.append(e)
        return [dict(out[0], bounded='%d questions about earlier entries, answered in %d ways' % (len(ask), len(out)))] + out[1:]

    def join(paths):
        """paths -> one summary: contributions made on some path are made on every path on which
        the entry was not already there"""
        ef = dict(paths[0])
        keys = {}
        for p in paths:
            for i, (r, op, k, v) in enumerate(p['writes']):
                keys.setdefault((r, mapkey(k)), (r, op, k, v, p))
        dep, writes = [], list(ef['writes'])
        have = {(r, mapkey(k)) for r, op, k, v in writes}
        ef['plain'] = len(writes)       # those of the first path
        for key, (r, op, k, v, p) in sorted(keys.items(), key=lambda x: repr(x[0])):
            for q in paths:
                if not any((r2, mapkey(k2)) == key for r2, _, k2, _ in q['writes']) and \
                        not any((r2, mapkey(k2)) == key and a for r2, k2, a in q['asked']):
                    dep.append([r, 'entry %s depends on prior content' % keytext(k)])
                    break
        for q in paths[1:]:
            base = len(ef['nodes'])
            ef['nodes'] = ef['nodes'] + [shift(n, base) for n in q['nodes']]
            writes += [[r, op, k, v + base if isinstance(v, int) else v] for r, op, k, v in q['writes']
                       if (r, mapkey(k)) not in have]
            have |= {(r, mapkey(k)) for r, op, k, v in q['writes']}
            ef['frame'] = ef['frame'] + [f for f in q['frame'] if f not in ef['frame']]
        ef['writes'], ef['reads'], ef['paths'] = writes, dep, len(paths)
        return ef

    def shift(n, base):
        n = dict(n)
        if 'components' in n:
            n['components'] = [dict(c, type=c['type'] + base) for c in n['components']]
        if n.get('element') is not None:
            n['element'] += base
        return n

    servers = {}

    def once(m, prior):
        if m not in servers:
            servers[m] = subprocess.Popen([LIBPY, os.path.join(HERE, 'effects.py'), repo, m, 'serve'], text=True,
                                          stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        p, line = servers[m], ''
        try:
            p.stdin.write(prior + '\n')
            p.stdin.flush()
            line = p.stdout.readline()
        except OSError:
            pass
        if not line.endswith('\n'):
            err = p.communicate()[1]
            del servers[m]
            return m, {'error': (err.strip().splitlines() or ['?'])[-1][:300]}
        res = json.loads(line)
        if not res.get('asked'):
            close(m)        # nothing more to ask
        return m, res

    def close(m):
        p = servers.pop(m, None)
        if p:
            p.communicate()

    def alone(m):
        p = subprocess.run([LIBPY, os.path.join(HERE, 'effects.py'), repo, m] + ['alone'] * bool(m),
                           capture_output=True, text=True)
        return json.loads(p.stdout) if p.returncode == 0 else (p.stderr.strip().splitlines() or ['?'])[-1][:300]
    with ThreadPoolExecutor(8) as ex:
        states = dict(zip(mods, ex.map(alone, mods))) if histories else {}
        found = dict(zip(mods, ex.map(lambda m: [run(m, '')], mods)))
        asking = [m for m in mods if found[m][0].get('asked')]
        # what a module contributes may depend on what the others do
        for n in range(6):
            gives = given(found)
            found.update(zip(asking, ex.map(lambda m: paths(m, gives), asking)))
            if given(found) == gives:
                break
    for m in list(servers):
        close(m)
    if histories:
        found[''] = [{'package': alone('')}]
    out = {m: join(ps) if len(ps) > 1 else ps[0] for m, ps in found.items()}
    for m, ef in out.items():
        if m in states:
            ef['alone'] = states[m]
    return out


def unlike(al, ef, canon):
    """contributions that differ between two import histories -> [(registry, key, difference)]"""
    sides = []
    for e in (al, ef):
        t = {}
        for r, op, k, v in e['writes'][:e.get('plain')]:
            if op in ('set', 'setdefault'):
                x = t.setdefault((canon.get(r, r), mapkey(k)), [k, v, op])
                if op == 'set':
                    x[1:] = [v, op]
        sides.append(t)
    out = []
    for key in sorted(set(sides[0]) | set(sides[1]), key=repr):
        a, b = [t.get(key) for t in sides]
        if a is None or b is None:
            out.append((key[0], (a or b)[0], 'contributed only %s'
                        % ('when nothing else was imported before' if a else 'after other modules')))
        elif isinstance(a[1], int) and isinstance(b[1], int):
            d = same(al['nodes'], a[1], ef['nodes'], b[1])
            if d is not None:
                out.append((key[0], a[0], 'alone / after other modules: ' + d))
        elif a[1] != b[1]:
            out.append((key[0], a[0], 'other values'))
    return out


def check_c12(code, spec, effects):
    obs = []
    canon = {}
    for g in code['map_aliases']:
        for n in g:
            canon[n] = g[0]
    table = {}
    for mod in sorted(effects):
        ef = effects[mod]
        if 'package' in ef:
            obs.append(schema.Ob('C12', 'pyasn1_modules:frame', ef['package'] == [], ef['package'][:5], 'unchanged',
                                 '__init__', modname='', package=True))
            continue
        if 'writes' not in ef:
            obs.append(schema.Ob('C12', mod + ':import', False, ef.get('error'), 'imports', mod, modname=mod))
            continue
        obs.append(schema.Ob('C12', mod + ':reads no registry', not ef['reads'], ef['reads'][:3],
                             'no dependence on prior registry content', mod, modname=mod))
        if ef.get('bounded'):
            # decided on some of the combinations only
            obs.append(schema.Ob('C12', mod + ':every combination of earlier entries', False, ef['bounded'],
                                 'decided for all', mod, modname=mod, status='unknown'))
        if 'alone' in ef:
            al = ef['alone']
            if not isinstance(al, dict) or 'writes' not in al:
                al = {'error': al.get('error') if isinstance(al, dict) else al, 'state': None, 'writes': None}
            obs.append(schema.Ob('C12', mod + ':published state', al['state'] == ef['state'],
                                 al.get('error') or 'other types or constants when other modules were imported before',
                                 'the same after every import history', mod, modname=mod, history=True))
            for d in unlike(al, ef, canon) if al['writes'] is not None else ():
                obs.append(schema.Ob('C12', '%s:contribution %s[%s]' % (mod, d[0], keytext(d[1])), False, d[2],
                                     'the same contributions after every import history', mod, modname=mod,
                                     entry=[d[0], d[1]]))
            obs.append(schema.Ob('C12', mod + ':contributions', True, 'compared', '', mod, modname=mod))
        obs.append(schema.Ob('C12', mod + ':frame', not ef['frame'], ef['frame'][:5], 'unchanged', mod, modname=mod,
                             frame=ef['frame']))
        bad = [w for w in ef['writes'] if w[1] not in ('set', 'setdefault')]
        obs.append(schema.Ob('C12', mod + ':only adds', not bad, [(w[1], w[0], keytext(w[2])) for w in bad[:3]],
                             'entries are only added', mod, modname=mod, bad=bad))
        for r, op, k, v in ef['writes']:
            if op in ('set', 'setdefault'):
                table.setdefault((canon.get(r, r), mapkey(k)), []).append((mod, k, v))
        for a, o in ef['own'].items():
            for k, v in o['items'] or ():
                table.setdefault((canon.get(o['name'], o['name']), mapkey(k)), []).append((mod, k, v))
    for (r, k), ws in sorted(table.items(), key=repr):
        for x in range(len(ws)):
            for y in range(x + 1, len(ws)):
                (ma, ka, va), (mb, kb, vb) = ws[x], ws[y]
                if not isinstance(va, int) or not isinstance(vb, int):
                    d = None if va == vb else 'not type instances'
                else:
                    d = same(effects[ma]['nodes'], va, effects[mb]['nodes'], vb)
                who = ' / '.join(sorted({ma, mb})) if ma != mb else ma + ' twice'
                obs.append(schema.Ob('C12', '%s[%s]:%s' % (r, keytext(ka), who), d is None, d,
                                     'one meaning in every import order', ma, registry=r, rkey=ka, mods=[ma, mb]))
    return obs
