"""Checks of the function properties (C01, C02, C03, C13, C14).

Per function under contract: symbolic execution of the function's real source (pyvc.py) against its contract
(fnspecs.py) yields obligations; z3 discharges them, cvc5 repeats them.  A function the executor cannot take is
decided by a bounded search instead, and labelled so."""
import hashlib
import json
import multiprocessing
import os
import resource
import subprocess
import sys
import time
import traceback

import decide
import fnspecs
import pyvc

SECONDS = {'quick': 240, 'thorough': 900}
SEARCH = {'quick': {'C01': 6, 'C02': 6, 'C03': 6, 'C13': 25, 'C14': 10},
          'thorough': dict.fromkeys(('C01', 'C02', 'C03', 'C13', 'C14'), 240)}
DEEP = {'quick': 90, 'thorough': 240}       # after a failed obligation or an unsupported function
LIBSITE = '/opt/venv/lib/python3.12/site-packages'

COMMON = [
    'CPython executes the statements and expressions used as engine/pyvc.py models them (integers unbounded; text and '
    'bytes as uninterpreted sequences; any construct outside the modelled subset stops the proof: "unsupported")',
    'loop invariants are inferred (Houdini over the candidate set of engine/pyvc.py) and checked for establishment and '
    'preservation; the inference itself need not be trusted',
    'z3 and cvc5',
]
TRUST = {
    'C01': [
        'stream contract (engine/fnspecs.py, Stream): readline returns the next line or the empty text at the end, '
        'iteration is repeated readline, read returns the rest; lines are arbitrary; str.strip is an uninterpreted function',
        'base64.b64decode is a partial uninterpreted function of its argument, failing with binascii.Error',
        'precondition: the begin markers of the pairs differ from each other',
    ],
    'C02': [
        'as C01 for readPemFromFile; for the text readers the text is an arbitrary value and base64.b64decode an '
        'uninterpreted partial function',
    ],
    'C03': [
        'contract of pyasn1.type.univ.ObjectIdentifier (engine/fnspecs.py, OidVal): building, iteration, concatenation, '
        'tuple conversion, indexing and length are discharged against the library (engine/libspecs.py); constructors '
        'pass the value on to prettyIn, operators dispatch as Python documents',
        'int(text) of a numeric string is an uninterpreted function',
    ],
    'C13': [
        'codec contract (engine/fnspecs.py, Dec/Any/Other): decode(bytes, asn1Spec) fails with PyAsn1Error or returns a '
        'value and the rest; encode(value) is a function of the value; prettyPrint likewise',
        'the readers of pyasn1_modules.pem are used through their contracts, which C01 and C02 discharge',
        'the schema types given to the decoder are those of /repo (C04-C12)',
    ],
    'C14': [
        'pyasn1 structure types are executed for the records the tools build; DER/BER encoding, decoding and SHA-1 are '
        'uninterpreted functions; decoded certificates and responses are arbitrary values of their types',
        'urllib.request, socket: recording contracts of the calls the tools make',
        'the readers of pyasn1_modules.pem are used through their contracts, which C01 and C02 discharge',
    ],
}


def prepare():
    if decide.REPO not in sys.path:
        sys.path.insert(0, decide.REPO)
    if LIBSITE not in sys.path:
        sys.path.append(LIBSITE)
        sys.path.append(os.path.join(decide.REPO, 'tools'))      # a script finds its neighbours
    sys.dont_write_bytecode = True


def plain(x):
    if isinstance(x, set):
        return sorted(plain(i) for i in x)
    return x if isinstance(x, (int, float, str, bool, type(None))) else str(x)


def tasks(prop):
    """functions under contract: those of the repository, and those of pyasn1 whose contracts the others use"""
    import libspecs
    lib = {'C03': libspecs.identifier_tasks, 'C06': libspecs.constraint_tasks, 'C07': libspecs.tagmap_tasks,
           'C08': libspecs.named_tasks, 'C11': libspecs.opentype_tasks}
    return (fnspecs.TASKS[prop](decide.REPO) if prop in fnspecs.TASKS else []) + (lib[prop]() if prop in lib else [])


def library(prop, results):
    """evidence of the contracts on pyasn1; one that does not hold is an error of this checker"""
    out = {'functions': {}, 'obligations': 0, 'not_discharged': []}
    for name, r in results:
        if r[0] == 'unsupported':
            out['not_discharged'].append('%s: %s' % (name, r[1]))
            continue
        obs = {k: o for k, o in r[1].items() if k != 'loop head is reachable'}
        bad = [k for k, o in obs.items() if o['fail']]
        if bad or not obs:
            raise decide.Undecided('the contract used for %s does not hold of the installed library: %s' % (name, bad))
        out['functions'][name] = {k: o['paths'] for k, o in obs.items()}
        out['obligations'] += len(obs)
    return out


def child(prop, index, conn):
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        t = tasks(prop)[index]
        ex, obs = t.run(decide.REPO)
        st = {k: plain(v) for k, v in ex.stats.items() if k != 'smt'}
        st['loops'] = len(ex.loops)
        conn.send(('done', {k: {'paths': o['paths'], 'fail': [[str(a), str(b)] for a, b in o['fail'][:3]],
                                'n': len(o['fail'])} for k, o in obs.items()}, st, ex.stats['smt']))
    except pyvc.Unsupported as e:
        conn.send(('unsupported', str(e)[:300]))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        conn.send(('unsupported', 'the executor stopped: %s: %s (%s:%d)' % (
            type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)))
    conn.close()


def prove(prop, seconds):
    """[(task name, result)]"""
    ctx = multiprocessing.get_context('fork')
    names = [t.name for t in tasks(prop)]
    out, todo, running = {}, list(range(len(names))), {}
    while todo or running:
        while todo and len(running) < 6:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(prop, i, b))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i in list(running):
            p, a, t = running[i]
            if a.poll(0.02):
                try:
                    out[i] = a.recv()
                except EOFError:
                    out[i] = ('unsupported', 'the executor died')
            elif not p.is_alive():
                out[i] = a.recv() if a.poll(0.1) else ('unsupported', 'the executor died')
            elif time.time() - t > seconds:
                out[i] = ('unsupported', 'not decided within %d s' % seconds)
            else:
                continue
            if p.is_alive() and i in out and out[i][0] == 'unsupported':
                p.kill()
            p.join()
            a.close()
            out[i] = out[i] + (round(time.time() - t, 2),)
            del running[i]
    return [(names[i], out[i]) for i in range(len(names))]


# -- bounded search --------------------------------------------------------------------------------

def data_for(prop):
    if prop == 'C03':
        try:
            return [[m, n] for m, n, f in fnspecs.builders(decide.REPO)]
        except pyvc.Unsupported:
            return []
    if prop == 'C13':
        import asn1
        rep = decide.Replayer(asn1.Spec(os.path.join(decide.ROOT, 'contracts', 'asn1')))
        cache = {}

        def setpaths(t):
            # where a type has unordered parts: encodings of it can be out of order
            out, seen = [], set()
            q = [(t, rep.type_at(t)[4])]
            while q and len(out) < 4:
                p, ty = q.pop(0)
                d = rep.spec.den(ty)
                k = (id(d.elem), id(d.comps)) if hasattr(d, 'comps') else None
                if k in seen or p.count('.') > 12:
                    continue
                seen.add(k)
                if d.kind == 'SetOf':
                    out.append(p)
                if d.elem is not None:
                    q.append((p + '.*', d.elem))
                for c in d.comps or ():
                    q.append((p + '.' + c['name'], c['type']))
            return out

        def ders(t):
            if t not in cache:
                cs = rep.roundtrips(t, 2)
                for p in setpaths(t):
                    cs += rep.roundtrips(p, 2)[:40]
                cache[t] = list(dict.fromkeys(c['der'] for c in cs if c.get('der')))
            return cache[t]
        out = []
        for name, kw in fnspecs.dump_specs():
            kw = dict(kw)
            d = {'name': name}
            for k in ('whole', 'count', 'single'):
                if kw.get(k):
                    d[k] = kw[k]
            if kw.get('markers'):
                d['markers'] = [[list(m), t] for m, t in kw['markers'].items()]
            if kw.get('layers') and name == 'cmcdump':
                d['layers'] = {k: v for k, v in kw['layers'].items() if v}
            d['types'] = {'.'.join(map(str, o)): t for o, t in kw.get('types', {}).items()}
            ts = set(d['types'].values()) | {x[1] for x in d.get('markers', ())} | ({d['whole']} if d.get('whole') else set())
            d['ders'] = {t: ders(t) for t in sorted(ts)}
            out.append(d)
        return out
    return None


class Search(object):
    """processes of the library's interpreter looking for failing inputs"""

    def __init__(self, prop, budget, procs, data):
        self.ps = []
        env = dict(os.environ, VERIF_REPO=decide.REPO, PYTHONDONTWRITEBYTECODE='1')
        chunks = [data] * procs
        if prop in ('C13', 'C03') and data:
            chunks = [data[i::procs] for i in range(min(procs, len(data)))]
        for n, d in enumerate(chunks):
            p = subprocess.Popen([decide.LIBPY, os.path.join(decide.HERE, 'bounded_rt.py')], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
            p.stdin.write(json.dumps({'prop': prop, 'seed': decide.SEED * 100 + n, 'budget': budget, 'data': d, 'keep': 3}))
            p.stdin.close()
            p.stdin = None
            self.ps.append(p)
        self.budget = budget

    def result(self):
        tried, failing, errors = 0, [], []
        for p in self.ps:
            try:
                out, err = p.communicate(timeout=self.budget + 60)
                r = json.loads(out)
                tried += r['tried']
                failing += r['failing']
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                errors.append('search did not end')
            except ValueError:
                errors.append(err.strip().split('\n')[-1][:300])
        return tried, failing, errors


def title(case):
    if case['kind'] == 'tool':
        return 'tools/%s.py' % case['tool']['name']
    return {'pem': 'pyasn1_modules.pem.readPemBlocksFromFile', 'pem1': 'pyasn1_modules.pem.readPemFromFile',
            'b64': 'pyasn1_modules.pem: Base64 readers', 'oid': 'identifier builder',
            'ocsp': 'tools/ocspclient.py', 'snmp': 'tools/snmpget.py'}[case['kind']]


def quoted(s):
    return str(s).replace('\\', '\\\\').replace('"""', "'''")


def write_replay(prop, name, obligations, case, what):
    os.makedirs(decide.REPLAYS, exist_ok=True)
    h = hashlib.sha1((prop + name).encode()).hexdigest()[:10]
    p = os.path.join(decide.REPLAYS, '%s-%s.py' % (prop, h))
    with open(p, 'w') as f:
        f.write('#!%s\n"""%s: %s\n\n' % (decide.LIBPY, prop, quoted(name)))
        for o, d in obligations:
            f.write('failed obligation: %s\n' % quoted(o))
            for note, model in d['fail']:
                f.write('    %s\n    verifier: %s\n' % (quoted(note)[:500], quoted(model)[:2500]))
        if case is None:
            f.write('\nNo failing input was found for this obligation.\n"""\nimport sys\n\nprint(__doc__)\nsys.exit(1)\n')
        else:
            f.write('observed: %s\n"""\nimport json\nimport sys\n\nsys.path.insert(0, %r)\nimport bounded_rt\n\n' % (
                quoted(what), decide.HERE))
            f.write('CASE = json.loads(%r)\n\nsys.exit(bounded_rt.main(CASE))\n' % json.dumps(dict(case, title=title(case))))
    os.chmod(p, 0o755)
    return p


def library_only(prop):
    """contracts on pyasn1 that a property without functions of its own relies on"""
    prepare()
    return library(prop, prove(prop, SECONDS[decide.TIER]))


def main(prop):
    t0 = time.time()
    prepare()
    data = data_for(prop)
    s0 = Search(prop, SEARCH[decide.TIER][prop], 2 if prop != 'C13' else 4, data)
    try:
        results = prove(prop, SECONDS[decide.TIER])
    except pyvc.Unsupported as e:
        results = [('all functions', ('unsupported', str(e), 0.0))]
    lib = [x for x in results if x[0].startswith('pyasn1.')]
    results = [x for x in results if not x[0].startswith('pyasn1.')]
    liblist = library(prop, lib)
    total = good = 0
    failed, unsupported, functions, smts = [], [], [], []
    tot = {'queries': 0, 'paths': 0, 'unknown': 0, 'solver_s': 0.0, 'loops': 0}
    inlined = set()
    for name, r in results:
        if r[0] == 'unsupported':
            unsupported.append((name, r[1]))
            functions.append({'function': name, 'result': 'unsupported: ' + r[1]})
            continue
        _, obs, st, smt, secs = r
        real = {k: o for k, o in obs.items() if k != 'loop head is reachable'}
        why = None
        if not real or not any(o['paths'] for o in real.values()):
            why = 'no obligation was generated'
        elif st['loops'] and not obs.get('loop head is reachable', {}).get('paths'):
            why = 'no loop head is reachable'       # every loop would be vacuous
        if why:
            unsupported.append((name, why))
            functions.append({'function': name, 'result': 'unsupported: ' + why})
            continue
        bad = [(k, o) for k, o in real.items() if o['fail']]
        total += len(real)
        good += len(real) - len(bad)
        if bad:
            failed.append((name, bad))
        functions.append({'function': name, 'obligations': {k: o['paths'] for k, o in real.items()},
                          'failed': [k for k, _ in bad], 'paths': st['paths'], 'queries': st['queries'],
                          'seconds': secs, 'executed': st['inlined'], 'loops': st['loops']})
        for k in tot:
            tot[k] += st[k]
        inlined |= set(st['inlined'])
        smts += smt
    smts = list(dict.fromkeys(tuple(x) for x in smts if x[1] in ('sat', 'unsat')))
    agree, dis, none = decide.cvc5_all(smts if decide.TIER == 'thorough' else smts[:400])
    if dis:
        raise decide.Undecided('z3 and cvc5 disagree on %d obligations' % dis)
    tried, failing, errors = s0.result()
    if (failed or unsupported) and not failing:
        t, failing, e = Search(prop, DEEP[decide.TIER], 8, data).result()
        tried += t
        errors += e
    if errors and (failed or unsupported) and not tried:
        raise decide.Undecided('bounded search failed: ' + errors[0])
    viol = 0
    for name, bad in failed:
        for k, o in bad:
            print('  %s: %s fails on %d of %d paths: %s' % (name, k, o['n'], o['paths'], str(o['fail'][:1])[:300]))
    for name, why in unsupported:
        print('BOUNDED: %s %s is outside the verifier\'s reach (%s): decided on %d inputs only' % (prop, name, why, tried))
    if failing:
        seen = set()
        for case, what in failing:
            k = title(case) + (' %s.%s' % (case.get('module'), case.get('name')) if case['kind'] == 'oid' else '')
            if k in seen:
                continue
            seen.add(k)
            obl = [x for n, b in failed for x in b]
            p = write_replay(prop, k, obl, case, what)
            print('  %s: %s' % (k, what[:400]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
            viol += 1
    else:
        for name, bad in failed:
            p = write_replay(prop, name, bad, None, None)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
            viol += 1
    ev = {
        'property': prop, 'tier': decide.TIER, 'seed': decide.SEED, 'level': 'proof',
        'coverage': {
            'obligations': max(total, 1), 'discharged': good, 'checker_cmd': './check %s' % prop,
            'trusted_base': COMMON + TRUST[prop],
            'functions_under_contract': functions,
            'functions_executed_with_callers': sorted(inlined),
            'library_functions_under_contract': liblist,
            'outside_the_verifier': [{'function': n, 'reason': w, 'bounded_inputs': tried} for n, w in unsupported],
            'proof_queries': tot['queries'], 'paths': tot['paths'], 'solver_unknown': tot['unknown'],
            'solver_s': round(tot['solver_s'], 3),
            'back_ends': {'z3': len(smts), 'cvc5_agree': agree, 'cvc5_unanswered': none},
            'bounded_cross_check_inputs': tried,
            'bounded_search_errors': errors[:3],
        },
        'assumptions': COMMON + TRUST[prop],
        'wall_s': round(time.time() - t0, 2),
        'violations': viol,
    }
    os.makedirs(os.path.join(decide.ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(decide.ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d functions, %d obligations, %d discharged, %d functions bounded, %d violations, %d inputs cross-checked (%.1f s)' % (
        prop, len(results), total, good, len(unsupported), viol, tried, time.time() - t0))
    return 1 if viol else 0
