"""C07: at every decision point of every type, no identifier octet is claimed twice.

Over the graph the real modules built.  For each record the candidates at each decision
point (pyasn1 decides on the next outermost tag) are
  CHOICE    all alternatives
  SET       all components
  SEQUENCE  each run of optional/defaulted components together with the required one
            that ends it
The obligation "no tag belongs to two candidates" is an SMT query over an arbitrary tag
(class, number); an untagged ANY claims every tag.
"""
import z3

CONSTRUCTED = {'Sequence', 'Set', 'SequenceOf', 'SetOf'}
RECORDS = ('Sequence', 'Set', 'Choice')


class Unique(object):
    def __init__(self, nodes):
        self.nodes = nodes
        self.memo = {}

    def first(self, i, path=()):
        """outermost tags of an encoding of node i: set of (cls, num) or 'ANY'"""
        if i in self.memo:
            return self.memo[i]
        n = self.nodes[i]
        if n['tags']:
            c, f, num = n['tags'][-1]
            out = {(c, num)}
        elif n['kind'] == 'Choice':
            if i in path:
                return set()
            out = set()
            for c in n.get('components', ()):
                out |= self.first(c['type'], path + (i,))
        else:
            out = {'ANY'}
        if i not in path:
            self.memo[i] = out
        return out

    def points(self, i):
        """decision points: lists of candidate component positions"""
        n = self.nodes[i]
        cs = n.get('components', [])
        if n['kind'] in ('Choice', 'Set'):
            return [list(range(len(cs)))] if len(cs) > 1 else []
        out = []
        for k in range(len(cs)):
            if k and cs[k - 1]['mode'] == 'required' or not k:
                run = []
                for j in range(k, len(cs)):
                    run.append(j)
                    if cs[j]['mode'] == 'required':
                        break
                if len(run) > 1:
                    out.append(run)
        return out

    def signature(self, i):
        n = self.nodes[i]
        cs = n.get('components', [])
        sig = []
        for run in self.points(i):
            sig.append((tuple(run), tuple(tuple(sorted(map(str, self.first(cs[j]['type'])))) for j in run)))
        return tuple(sig)

    def query(self, i):
        """z3: some tag is claimed by two candidates of one decision point.
        -> (solver, [(point, a, b, formula)])"""
        n = self.nodes[i]
        cs = n['components']
        c, t = z3.Int('class'), z3.Int('number')
        alts = []
        for run in self.points(i):
            for x in range(len(run)):
                for y in range(x + 1, len(run)):
                    fx, fy = self.first(cs[run[x]]['type']), self.first(cs[run[y]]['type'])
                    alts.append((run, run[x], run[y], z3.And(member(fx, c, t), member(fy, c, t))))
        s = z3.Solver()
        s.add(t >= 0, z3.Or([c == k for k in (0, 64, 128, 192)]))
        s.add(z3.Or([f for _, _, _, f in alts] or [z3.BoolVal(False)]))
        return s, alts, c, t


def member(f, c, t):
    if 'ANY' in f:
        return z3.BoolVal(True)
    return z3.Or([z3.And(c == a, t == b) for a, b in f] or [z3.BoolVal(False)])


def reach(code, paths):
    """every node some published name leads to has a path"""
    paths = dict(paths)
    todo = [(i, p, w) for i, (p, w) in paths.items()]
    for m in sorted(code['modules']):
        for a, e in sorted(code['modules'][m].items()):
            for k in ('class', 'object'):
                if k in e and e[k] not in paths:
                    paths[e[k]] = ('%s.%s' % (m, a), m)
                    todo.append((e[k], '%s.%s' % (m, a), m))
    while todo:
        i, p, w = todo.pop()
        n = code['nodes'][i]
        nxt = [(c['type'], p + '.' + c['name']) for c in n.get('components', ())]
        if n.get('element') is not None:
            nxt.append((n['element'], p + '.*'))
        for j, q in nxt:
            if j not in paths:
                paths[j] = (q, w)
                todo.append((j, q, w))
    return paths


def check(code, Ob, paths):
    """obligations for every record node, deduplicated by signature for the solver"""
    u = Unique(code['nodes'])
    obs, cache, smts = [], {}, []
    paths = reach(code, paths)
    for i, n in enumerate(code['nodes']):
        if i not in paths:
            continue
        path, where = paths[i]
        if n['kind'] in RECORDS:
            cs = n.get('components', [])
            if n['kind'] == 'Choice':
                obs.append(Ob('C07', path + ':alternatives defined', bool(cs), 'no alternatives', 'alternatives', where, node=i))
            for c in cs:
                f = u.first(c['type'])
                k = code['nodes'][c['type']]['kind']
                obs.append(Ob('C07', path + '.' + c['name'] + ':fully defined', bool(f) and k != 'Asn1Item',
                              'no encoding', 'a defined type', where, node=i, comp=c['name']))
            sig = u.signature(i)
            look = n.get('lookup') or {}
            if not sig:
                if look.get('asked'):
                    obs.append(Ob('C07', path + ':found by the decoder', not look['wrong'], look['wrong'][:4], [], where, node=i))
                continue
            if sig not in cache:
                s, alts, c, t = u.query(i)
                smt = '(set-logic ALL)\n' + s.to_smt2()
                r = s.check()
                smts.append((smt, str(r)))
                hit = None
                if r == z3.sat:
                    m = s.model()
                    for run, a, b, f in alts:
                        if z3.is_true(m.eval(f, model_completion=True)):
                            hit = (run, a, b, m.eval(c, model_completion=True).as_long(),
                                   m.eval(t, model_completion=True).as_long())
                            break
                cache[sig] = (str(r), hit)
            r, hit = cache[sig]
            if r == 'unsat':
                obs.append(Ob('C07', path + ':distinct', True, where=where, node=i))
                obs.append(Ob('C07', path + ':found by the decoder', not look.get('wrong'), (look.get('wrong') or [])[:4], [],
                              where, node=i))
            else:
                code_txt = r
                if hit:
                    run, a, b, cl, nu = hit
                    code_txt = '%s and %s both start with tag (%d,%d)' % (cs[a]['name'], cs[b]['name'], cl, nu)
                obs.append(Ob('C07', path + ':distinct', False, code_txt, 'distinct tags', where, node=i, hit=hit))
        elif n['kind'] in ('SequenceOf', 'SetOf'):
            obs.append(Ob('C07', path + ':element defined', n.get('element') is not None, 'no element type',
                          'an element type', where, node=i))
    return obs, smts
