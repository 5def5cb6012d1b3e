"""C04: every public constant has the contract's value (ground obligations)."""
import schema


def check(code, spec, cmp_):
    """returns [Ob]; object constants of a schema type are also queued on the comparison"""
    obs = []
    covered = set()
    for mod in sorted(spec.mods):
        entries = code['modules'].get(mod)
        if entries is None:
            continue
        for name, (what, home, hname) in sorted(spec.published(mod).items()):
            if what != 'const':
                continue
            own = home == mod
            e = entries.get(name)
            kind, v, t = spec.mods[home]['consts'][hname]
            v = spec.val(v, home)
            path = '%s.%s' % (mod, name)
            where = '%s.asn1:%d' % (home, spec.mods[home]['lines'].get(hname, 0))
            if e is None:
                if own:
                    obs.append(schema.Ob('C04', path + ':published', False, 'absent', v, where, const=v, ckind=kind))
                continue
            covered.add(path)
            have, idx = None, None
            if 'const' in e:
                c = e['const']
                have = {'int': c} if isinstance(c, (int, float)) or c in ('MAX', 'MIN') else \
                    {'text': c['str']} if isinstance(c, dict) and 'str' in c else \
                    {'octets': c['bytes']} if isinstance(c, dict) and 'bytes' in c else c
            elif 'object' in e:
                have, idx = e['value'], e['object']
            else:
                have = e
            if t is not None:
                want = spec.resval(v, t, home)
                d = spec.den(t)
                ok = d.kind == 'Null' or cmp_.normval(have, d) == cmp_.normval(want, d)
                if idx is None and 'class' in e:
                    ok = False
            else:
                want = v
                ok = have == want or (kind == 'int' and have == want)
                if kind == 'oid' and idx is not None:
                    n = code['nodes'][idx]
                    ok = ok and n['kind'] == 'ObjectIdentifier'
            obs.append(schema.Ob('C04', path + ':value', ok, have, want, where, const=want, ckind=kind, type=t))
            if t is not None and idx is not None:
                cmp_.queue.append((path, idx, t, where, False))
    # a bound called MAX (X.680: no limit) is no limit wherever a module publishes it
    for mod, entries in sorted(code['modules'].items()):
        if 'MAX' in entries and 'MAX' not in spec.published(mod) if mod in spec.mods else False:
            have = entries['MAX'].get('const')
            covered.add(mod + '.MAX')
            obs.append(schema.Ob('C04', mod + '.MAX:value', have == 'MAX', have, 'no limit', 'X.680 MAX',
                                 const='MAX', ckind='int'))
    # constants of the package no contract mentions
    unc = []
    for mod, entries in code['modules'].items():
        if mod not in spec.mods:
            continue
        pub = spec.published(mod)
        for name, e in entries.items():
            if ('object' in e or 'const' in e) and name not in pub and '%s.%s' % (mod, name) not in covered:
                unc.append('%s.%s' % (mod, name))
    return obs, sorted(unc)
