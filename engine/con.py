"""Value-constraint obligations: for every value, the code's constraint tree accepts it
exactly when the contract's tree does, and never fails with an unrelated error.

A value is abstracted into solver variables that are *exact* for the constraint language:
  integers              x : Int
  strings               n (length), u_k (character class k is used), e_j (equals literal j)
  bit strings / OIDs    n, e_j
  SEQUENCE OF / SET OF  n
  SEQUENCE / SET        p_i (component i present), nested values
  CHOICE                p_i, at most one
Character classes are the atoms of the alphabets mentioned, so the abstraction loses nothing;
every counterexample is concretised and re-evaluated before it is reported.

A tree denotes (pass, fail-with-unrelated-error), following pyasn1's evaluation order.
"""
import itertools
import json
import z3

STRINGS = {'OctetString', 'Any', 'UTF8String', 'NumericString', 'PrintableString', 'TeletexString',
           'VideotexString', 'IA5String', 'GraphicString', 'VisibleString', 'GeneralString',
           'UniversalString', 'BMPString', 'UTCTime', 'GeneralizedTime', 'ObjectDescriptor', 'Null'}
INTS = {'Integer', 'Enumerated', 'Boolean'}
UNIVERSE = {'us-ascii': 128, 'iso-8859-1': 256, 'utf-16-be': 0xD800, 'utf-8': 0xD800, 'utf-32-be': 0xD800}
DEFENC = {'OctetString': None, 'Any': None, 'Null': None}

IMPLIED = {'Boolean': [['or', ['single', {'int': 0}], ['single', {'int': 1}]]],
           'Null': [['single', {'octets': ''}]],
           'Choice': [['size', 1, 1]]}


def literal(kind, v):
    """value of a single-value leaf as the kind's own python value; None when no value of
    this kind can equal it"""
    if kind in INTS:
        if isinstance(v, int):
            return v
        if isinstance(v, dict) and 'int' in v:
            return v['int']
        return None
    if kind == 'ObjectIdentifier':
        return tuple(v['oid']) if isinstance(v, dict) and 'oid' in v else None
    if kind == 'BitString':
        return v['bits'] if isinstance(v, dict) and 'bits' in v else None
    if kind in ('OctetString', 'Any', 'Null'):
        if isinstance(v, dict):
            if 'bytes' in v:
                return bytes.fromhex(v['bytes'])
            if 'octets' in v:
                return bytes.fromhex(v['octets'])
            if 'null' in v:
                return b''
        return None
    if kind in STRINGS:
        if isinstance(v, dict):
            if 'str' in v:
                return v['str']
            if 'text' in v:
                return v['text']
        return None
    return None


def chars_of(kind, leaf):
    out = set()
    for v in leaf[1:]:
        x = v.get('str', v.get('text')) if isinstance(v, dict) else v
        if kind in ('OctetString', 'Any', 'Null'):
            if isinstance(x, int):
                out.add(x)
            elif isinstance(v, dict) and 'bytes' in v and len(v['bytes']) == 2:
                pass        # a bytes object never equals an int element
        elif isinstance(x, str) and len(x) == 1:
            out.add(ord(x))
    return frozenset(out)


def leaves(t):
    if t[0] in ('and', 'or', 'not', 'contained'):
        for x in t[1:]:
            for y in leaves(x):
                yield y
    elif t[0] == 'with':
        yield t
    else:
        yield t


class Model(object):
    """solver variables for one value; `path` makes names unique"""

    def __init__(self, kind, trees, comps, path, nenc=None, sub=None):
        self.kind, self.path, self.side = kind, path, []
        self.comps = comps
        ls = [l for t in trees for l in leaves(t)]
        if kind in INTS:
            self.x = z3.Int(path + 'x')
            return
        if kind in STRINGS or kind in ('BitString', 'ObjectIdentifier'):
            self.n = z3.Int(path + 'n')
            self.side.append(self.n >= 0)
            lits = []
            for l in ls:
                if l[0] == 'single':
                    for v in l[1:]:
                        x = literal(kind, v)
                        if x is not None and x not in lits:
                            lits.append(x)
            self.lits = lits
            self.e = {x: z3.Bool('%se%d' % (path, i)) for i, x in enumerate(lits)}
            self.classes = []
            if kind in STRINGS:
                alph = []
                for l in ls:
                    if l[0] == 'alphabet':
                        a = chars_of(kind, l)
                        if a not in alph:
                            alph.append(a)
                uni = UNIVERSE.get(nenc, 256 if nenc is None else 256)
                atoms = {}
                for c in range(uni):
                    atoms.setdefault(tuple(c in a for a in alph), []).append(c)
                self.classes = [(frozenset(v), z3.Bool('%su%d' % (path, i)))
                                for i, (k, v) in enumerate(sorted(atoms.items(), reverse=True))]
                us = [z3.If(u, 1, 0) for _, u in self.classes]
                self.side.append(self.n >= z3.Sum(us))
                self.side.append(z3.Implies(self.n > 0, z3.Or([u for _, u in self.classes])))
            for x, e in self.e.items():
                need = [self.n == len(x)]
                for cs, u in self.classes:
                    used = any((c if isinstance(c, int) else ord(c)) in cs for c in x)
                    need.append(u if used else z3.Not(u))
                self.side.append(z3.Implies(e, z3.And(need)))
                if len(x) == 0:
                    self.side.append(z3.Implies(self.n == 0, e))
            for a, b in itertools.combinations(self.e.values(), 2):
                self.side.append(z3.Or(z3.Not(a), z3.Not(b)))
            return
        if kind in ('SequenceOf', 'SetOf'):
            self.n = z3.Int(path + 'n')
            self.side.append(self.n >= 0)
            return
        # records
        self.p = {}
        self.sub = {}
        names = [c['name'] for c in comps]
        for c in comps:
            b = z3.Bool(path + 'p_' + c['name'])
            self.p[c['name']] = b
            if kind != 'Choice' and c['mode'] == 'required':
                self.side.append(b)
        if kind == 'Choice':
            for a, b in itertools.combinations(self.p.values(), 2):
                self.side.append(z3.Or(z3.Not(a), z3.Not(b)))
        for f in {f for l in ls if l[0] == 'with' for f, x in l[1:] if x[0] not in ('present', 'absent')}:
            if f in names and sub is not None:
                inner = [x for l in ls if l[0] == 'with' for g, x in l[1:] if g == f]
                m = sub(f, inner, path + f + '.')
                if m is not None:
                    self.sub[f] = m
                    self.side += m.side

    def count(self):
        return z3.Sum([z3.If(b, 1, 0) for b in self.p.values()] or [z3.IntVal(0)])


T_, F_ = z3.BoolVal(True), z3.BoolVal(False)


def den(t, m, spec, present=None):
    """(pass, error) of tree t over model m; present: z3 Bool when the value may be missing
    (None handed to the constraint)"""
    op = t[0]
    if op in ('and', 'contained'):
        P, E = T_, F_
        for x in t[1:]:
            p, e = den(x, m, spec, present)
            E = z3.Or(E, z3.And(P, e))
            P = z3.And(P, p, z3.Not(e))
        return P, E
    if op == 'or':
        if len(t) == 1:
            return T_, F_
        go, P, E = T_, F_, F_
        for x in t[1:]:
            p, e = den(x, m, spec, present)
            E = z3.Or(E, z3.And(go, e))
            P = z3.Or(P, z3.And(go, p, z3.Not(e)))
            go = z3.And(go, z3.Not(p), z3.Not(e))
        return P, E
    if op == 'not':
        if len(t) == 1:
            return T_, F_
        P, E = T_, F_
        for x in t[1:]:
            p, e = den(x, m, spec, present)
            E = z3.Or(E, z3.And(P, e))
            P = z3.And(P, z3.Not(p), z3.Not(e))
        return P, E
    p, e = leaf(t, m, spec)
    if present is not None:
        if spec:
            return z3.Or(z3.Not(present), p), z3.And(present, e)
        if op == 'single':
            return z3.And(present, p), z3.And(present, e)
        return z3.And(present, p), z3.Or(z3.Not(present), e)
    return p, e


def bounds(x, a, b):
    out = []
    if a not in ('MIN',) and a is not None:
        out.append(x >= a if isinstance(a, int) else F_)
    if b not in ('MAX',) and b is not None:
        out.append(x <= b if isinstance(b, int) else F_)
    return z3.And(out) if out else T_


def leaf(t, m, spec):
    op, k = t[0], m.kind
    if op == 'range':
        if k in INTS:
            return bounds(m.x, t[1], t[2]), F_
        if t[1:] == ['MIN', 'MAX']:
            return T_, T_
        return F_, T_
    if op == 'size':
        if k in INTS:
            return F_, T_
        n = m.n if hasattr(m, 'n') else m.count()
        return bounds(n, t[1], t[2]), F_
    if op == 'single':
        if len(t) == 1:
            return T_, F_
        if k in INTS:
            vs = [literal(k, v) for v in t[1:]]
            return z3.Or([m.x == v for v in vs if v is not None] or [F_]), F_
        if hasattr(m, 'e'):
            vs = [literal(k, v) for v in t[1:]]
            return z3.Or([m.e[v] for v in vs if v is not None] or [F_]), F_
        return F_, T_
    if op == 'alphabet':
        if len(t) == 1:
            return T_, F_
        if hasattr(m, 'classes') and k in STRINGS:
            a = chars_of(k, t)
            return z3.And([z3.Not(u) for cs, u in m.classes if not cs <= a] or [T_]), F_
        if k in INTS:
            return F_, T_
        if k == 'BitString' or k == 'ObjectIdentifier':
            return m.n == 0, F_
        return (m.n if hasattr(m, 'n') else m.count()) == 0, F_
    if op == 'with':
        if not hasattr(m, 'p'):
            return F_, T_
        P, E = T_, F_
        for f, x in t[1:]:
            b = m.p.get(f)
            if x[0] == 'present':
                p, e = (b if b is not None else F_), F_
            elif x[0] == 'absent':
                p, e = (z3.Not(b) if b is not None else T_), F_
            elif b is None:
                p, e = F_, T_
            else:
                s = m.sub.get(f)
                if s is None:
                    p, e = F_, T_
                else:
                    p, e = den(x, s, spec, b)
            E = z3.Or(E, z3.And(P, e))
            P = z3.And(P, p, z3.Not(e))
        return P, E
    if op in ('present', 'absent'):
        return (T_, F_) if op == 'present' else (F_, F_)
    return None, None


def has_other(t):
    if t[0] in ('and', 'or', 'not', 'contained'):
        return any(has_other(x) for x in t[1:])
    if t[0] == 'with':
        return any(has_other(x) for f, x in t[1:])
    return t[0] == 'other'


# concrete evaluation -------------------------------------------------------------------

class Unrelated(Exception):
    pass


def ev(t, kind, v, spec):
    """concrete evaluation; v: int | bytes | str | bit text | tuple | ('n', k) | dict"""
    op = t[0]
    if op in ('and', 'contained'):
        return all(ev(x, kind, v, spec) for x in t[1:])
    if op == 'or':
        return len(t) == 1 or any(ev(x, kind, v, spec) for x in t[1:])
    if op == 'not':
        return not any(ev(x, kind, v, spec) for x in t[1:])
    if v is None:
        if spec:
            return True
        if op == 'single':
            return False
        raise Unrelated()
    if op == 'range':
        if kind not in INTS:
            raise Unrelated()
        return (t[1] == 'MIN' or v >= t[1]) and (t[2] == 'MAX' or v <= t[2])
    if op == 'size':
        if kind in INTS:
            raise Unrelated()
        n = v[1] if isinstance(v, tuple) and kind in ('SequenceOf', 'SetOf') else len(v)
        return (t[1] == 'MIN' or n >= t[1]) and (t[2] == 'MAX' or n <= t[2])
    if op == 'single':
        if kind in ('SequenceOf', 'SetOf', 'Sequence', 'Set', 'Choice'):
            raise Unrelated()
        return len(t) == 1 or any(literal(kind, x) is not None and literal(kind, x) == v for x in t[1:])
    if op == 'alphabet':
        if len(t) == 1:
            return True
        if kind in INTS:
            raise Unrelated()
        if kind in ('SequenceOf', 'SetOf'):
            return v[1] == 0
        if kind not in STRINGS:
            return len(v) == 0
        a = chars_of(kind, t)
        return all((c if isinstance(c, int) else ord(c)) in a for c in v)
    if op == 'with':
        if kind not in ('Sequence', 'Set', 'Choice'):
            raise Unrelated()
        for f, x in t[1:]:
            if x[0] == 'present':
                r = f in v
            elif x[0] == 'absent':
                r = f not in v
            else:
                r = ev(x, v[f][0], v[f][1], spec) if f in v and isinstance(v[f], tuple) else ev(x, None, None, spec)
            if not r:
                return False
        return True
    raise Unrelated()


def concretise(m, s):
    def b(x):
        return z3.is_true(s.eval(x, model_completion=True))
    if m.kind in INTS:
        return s.eval(m.x, model_completion=True).as_long()
    if m.kind in ('SequenceOf', 'SetOf'):
        return ('n', s.eval(m.n, model_completion=True).as_long())
    if m.kind in ('Sequence', 'Set', 'Choice'):
        return {f: ((m.sub[f].kind, concretise(m.sub[f], s)) if f in m.sub else True)
                for f, x in m.p.items() if b(x)}
    n = s.eval(m.n, model_completion=True).as_long()
    for x, e in m.e.items():
        if b(e):
            return x
    if n > 3000000:
        return None
    if m.kind == 'BitString':
        for c in ('0' * n, '1' * n) + tuple(format(i, '0%db' % n)[-n:] if n else '' for i in range(64)):
            if c not in m.lits:
                return c
        return None
    if m.kind == 'ObjectIdentifier':
        base = (1, 3, 6, 1, 4, 1, 99999)
        for i in range(len(m.lits) + 1):
            c = (base + (i,) * max(0, n))[:max(n, 0)] if n <= 7 else base + (i,) * (n - 7)
            if c not in m.lits and len(c) == n:
                return c
        for i in range(200):
            c = tuple(([1, 3, 6, 1, 4, 1, 99999] + [1] * n)[:max(0, n - 1)]) + ((i % 40 if n == 2 else i),) if n else ()
            if len(c) == n and c not in m.lits:
                return c
        return None
    used = [cs for cs, u in m.classes if b(u)]
    if n == 0:
        return b'' if m.kind in ('OctetString', 'Any', 'Null') else ''
    pools = [sorted(cs, key=lambda c: (not 48 <= c < 123, c))[:len(m.lits) + 1] for cs in used]
    for pick in itertools.islice(itertools.product(*pools), 2000):
        seq = list(pick) + [pick[0]] * (n - len(pick))
        c = bytes(seq) if m.kind in ('OctetString', 'Any', 'Null') else ''.join(map(chr, seq))
        if c not in m.lits:
            return c
        seq.reverse()
        c = bytes(seq) if m.kind in ('OctetString', 'Any', 'Null') else ''.join(map(chr, seq))
        if c not in m.lits:
            return c
    return None


def build(kind, code, spec, comps, enc, subkind):
    """z3 formula: exists a value on which code and spec disagree"""
    def sub(f, trees, path):
        k = subkind(f) if subkind else None
        if k is None or k['kind'] in ('Sequence', 'Set', 'Choice'):
            return None
        return Model(k['kind'], trees, [], path, k.get('enc'))
    m = Model(kind, [code, spec], comps, 'v.', enc, sub)
    pc, ec = den(code, m, False)
    ps, es = den(spec, m, True)
    return m, z3.And(m.side + [z3.Or(pc != ps, ec)])


def reduce_tree(t):
    """drop neutral wrappers; for caching only"""
    if t[0] in ('and', 'or') and len(t) == 2:
        return reduce_tree(t[1])
    if t[0] == 'and':
        xs = []
        for x in t[1:]:
            x = reduce_tree(x)
            if x[0] == 'and':
                xs += x[1:]
            else:
                xs.append(x)
        if len(xs) == 1:
            return xs[0]
        return ['and'] + xs
    if t[0] == 'or':
        return ['or'] + [reduce_tree(x) for x in t[1:]]
    return t


def spec_tree(kind, con):
    return ['and'] + IMPLIED.get(kind, []) + [list(c) for c in con]


def solve(kind, code, spec, comps=(), enc=None, subkind=None, timeout=60000):
    """('equal', None, smt) | ('differ', value, smt) | ('unknown', why, smt)"""
    if has_other(code):
        return 'custom', None, ''
    m, f = build(kind, code, spec, list(comps), enc, subkind)
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(f)
    smt = '(set-logic ALL)\n' + s.to_smt2()
    for _ in range(200):
        r = s.check()
        if r == z3.unsat:
            return 'equal', None, smt
        if r != z3.sat:
            return 'unknown', s.reason_unknown(), smt
        mod = s.model()
        v = concretise(m, mod)
        if v is not None:
            try:
                a = ev(code, kind, v, False)
            except Unrelated:
                a = 'error'
            if a != ev(spec, kind, v, True):
                return 'differ', v, smt
        # not concretisable: exclude this abstract point
        s.add(z3.Or([d() != mod[d] for d in mod.decls()] or [z3.BoolVal(False)]))
    return 'unknown', 'no concretisable counterexample in 200', smt
