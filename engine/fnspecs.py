"""Contracts of the functions of pem.py, the identifier builders and the tools."""
import base64
import binascii
import importlib
import os
import sys
import types

import z3

import pyvc
from pyvc import (BYTES, Bound, Ex, Fmt, Obj, POISON, PyExc, ReturnX, S, Spec, Sym, Unsupported, VDict, VIter, VList)

INT, BOOL = z3.IntSort(), z3.BoolSort()
LINES = z3.SeqSort(S)

# -- Base64: uninterpreted decoding function and failure predicate ------------------------------
B64 = z3.Function('b64', BYTES, BYTES)
BAD = z3.Function('b64bad', BYTES, BOOL)
ASCII = z3.Function('ascii', S, BOOL)
ENC = z3.Function('str.encode', S, BYTES)
STRIP = z3.Function('str.strip', S, S)
EMPTY = z3.Empty(BYTES)

B64_AXIOMS = [z3.Not(BAD(EMPTY)), B64(EMPTY) == EMPTY]


def b64decode(ex, args, kw):
    if kw or len(args) != 1:
        raise Unsupported('b64decode options')
    x = args[0]
    if isinstance(x, (str, bytes)):
        try:
            return base64.b64decode(x)
        except ValueError as exc:
            raise PyExc(type(exc), exc)
    if isinstance(x, Sym) and x.ty == 'str':
        if not ex.branch(ASCII(x.t)):
            raise PyExc(ValueError)
        x = ex.spec.encode(ex, x, '')
    if not (isinstance(x, Sym) and x.ty == 'bytes'):
        raise PyExc(TypeError)
    if ex.branch(BAD(x.t)):
        raise PyExc(binascii.Error)
    return Sym(B64(x.t), 'bytes')


def b64_contracts(ex):
    for f in (base64.b64decode, base64.standard_b64decode, binascii.a2b_base64, base64.decodebytes):
        ex.contracts[id(f)] = b64decode


def lit_bytes(r):
    return isinstance(r, (str, bytes)) and not isinstance(r, Sym)


def empty(ex, r):
    """condition: r is an empty text or byte string (z3 or bool)"""
    if isinstance(r, (str, bytes)):
        return len(r) == 0
    if isinstance(r, Sym) and r.ty == 'bytes':
        return z3.Length(r.t) == 0
    if isinstance(r, Sym) and r.ty == 'str':
        return r.t == ex.lit('')
    return False


def same_bytes(ex, r, t):
    if isinstance(r, bytes) or isinstance(r, Sym) and r.ty == 'bytes':
        return ex.term(r, 'bytes') == t
    return False


def same_int(ex, r, t):
    if isinstance(r, bool):
        return False
    if isinstance(r, int) or isinstance(r, Sym) and r.ty == 'int':
        return ex.term(r, 'int') == t
    return False


# -- text streams ---------------------------------------------------------------------------------

class Stream(Obj):
    """contract of a text stream: readline() yields the next line, '' at the end; iteration the
    same; read() and readlines() everything left.  The reading position is the monitor's."""

    def shape(self):
        return 'stream'

    def hasattr(self, ex, n):
        if n in ('readline', 'read', 'readlines', '__iter__', '__next__'):
            return True
        raise Unsupported('hasattr %s of a stream' % n)

    def attr(self, ex, name):
        if name not in ('readline', 'read', 'readlines', '__next__', '__iter__'):
            raise Unsupported('stream.%s' % name)
        return Bound(self, name)

    def callm(self, ex, name, args, kw):
        if args or kw:
            raise Unsupported('stream.%s with arguments' % name)
        if name == 'readline':
            v = ex.spec.read_line(ex)
            return '' if v is None else v
        if name == '__next__':
            v = ex.spec.read_line(ex)
            if v is None:
                raise PyExc(StopIteration)
            return v
        if name == '__iter__':
            return self
        if name == 'read':
            return ex.spec.read_all(ex)
        if name == 'readlines':
            return ex.spec.read_lines(ex)
        raise Unsupported('stream.%s' % name)

    def next(self, ex):
        v = ex.spec.read_line(ex)
        return None if v is None else (v,)

    def iter(self, ex):
        return self

    def iter_sentinel(self, ex, name, sentinel):
        if name != 'readline' or sentinel != '':
            raise Unsupported('iter(f, sentinel)')
        return self


class BlockMonitor(Spec):
    """C01 as a monitor: phase of the reader, the pair position, the lines of the block so far"""
    needs_progress = True
    tracks_joins = True
    JOIN = z3.Function('decode.lines', LINES, BYTES)
    ANYBAD = z3.Function('any.bad.line', LINES, BOOL)
    W = z3.Function('begin.position', S, INT)
    M0 = z3.Function('begin.marker', INT, S)
    M1 = z3.Function('end.marker', INT, S)
    N = z3.Int('markers')

    def __init__(self, pair=None):
        self.pair = pair        # a fixed pair of values rather than an unknown list

    @staticmethod
    def decf(s):
        return B64(ENC(s))

    @staticmethod
    def badf(s):
        return BAD(ENC(s))

    def setup(self, ex):
        b64_contracts(ex)
        ex.axioms = list(B64_AXIOMS) + [
            self.JOIN(z3.Empty(LINES)) == EMPTY, z3.Not(self.ANYBAD(z3.Empty(LINES))),
            self.N >= 0,
        ]

    def begin(self, ex):
        ex.ghost.update({'phase': 'SPAM', 'j': -1, 'acc': Sym(z3.Empty(LINES), ('seq', 'str'))})
        ex.ghost['s'] = ''
        if self.pair is not None:
            ex.assume(self.N == 1)
            ex.assume(self.M0(0) == ex.term(self.pair[0], 'str'))
            ex.assume(self.M1(0) == ex.term(self.pair[1], 'str'))

    def markers(self, ex):
        def item(i):
            # precondition: the begin markers are distinct, so each has one position
            ex.fact(z3.Implies(z3.And(i >= 0, i < self.N), self.W(self.M0(i)) == i))
            return Sym(self.M0(i), 'str'), Sym(self.M1(i), 'str')
        return VIter(self.N, item)

    def isbegin(self, s):
        w = self.W(s)
        return z3.And(w >= 0, w < self.N, self.M0(w) == s)

    def read_line(self, ex):
        g = ex.ghost
        if g['phase'] == 'DONE':
            ex.oblige('nothing is read beyond the end line', False)
            raise pyvc.PathEnd()
        if g['phase'] in ('EOFS', 'EOFH'):
            return None
        if ex.choose(2) == 0:
            g['phase'] = 'EOFS' if g['phase'] == 'SPAM' else 'EOFH'
            ex.events += 1
            return None
        raw = ex.fresh('str', 'line')
        ex.assume(raw.t != ex.lit(''))
        ex.events += 1
        s = STRIP(raw.t)
        ex.fact(STRIP(s) == s)
        ex.fact(z3.Implies(s == ex.lit(''), ENC(s) == EMPTY))
        if g['phase'] == 'SPAM':
            # the ghost looks at the line when the code does: no fork that the code does not make
            if ex.branch(self.isbegin(s)):
                g['phase'], g['j'] = 'HAM', Sym(self.W(s), 'int')
                g['acc'] = Sym(z3.Empty(LINES), ('seq', 'str'))
        elif ex.branch(s == self.M1(ex.term(g['j'], 'int'))):
            g['phase'] = 'DONE'
        else:
            old = g['acc'].t
            new = z3.Concat(old, z3.Unit(s))
            g['acc'] = Sym(new, ('seq', 'str'))
            ex.fact(self.JOIN(new) == z3.Concat(self.JOIN(old), self.decf(s)))
            ex.fact(self.ANYBAD(new) == z3.Or(self.ANYBAD(old), self.badf(s)))
        g['s'] = Sym(s, 'str')
        return raw

    def read_all(self, ex):
        raise Unsupported('read() of the whole stream')

    read_lines = read_all

    def terms(self, ex):
        if 'acc' not in ex.ghost:
            return []
        out = [('dec', Sym(self.JOIN(ex.ghost['acc'].t), 'bytes')), ('n', Sym(self.N, 'int')),
               ('w', Sym(self.W(ex.term(ex.ghost['s'], 'str')), 'int'))]
        j = ex.ghost['j']
        if isinstance(j, Sym):
            out += [('m0', Sym(self.M0(j.t), 'str')), ('m1', Sym(self.M1(j.t), 'str'))]
        for i, f in enumerate(ex.frames):
            out += [('%d.%s.strip' % (i, n), Sym(STRIP(v.t), 'str')) for n, v in f.vars.items()
                    if isinstance(v, Sym) and v.ty == 'str']
        return out

    def preds(self, ex):
        g = ex.ghost
        if 'j' not in g:
            return []
        j, last = ex.term(g['j'], 'int'), ex.term(g['s'], 'str')
        out = [('s begins', self.isbegin(ex.term(g['s'], 'str'))), ('s does not begin', z3.Not(self.isbegin(ex.term(g['s'], 'str')))),
               ('s does not end', ex.term(g['s'], 'str') != self.M1(j)),
               ('j in range', z3.And(j >= 0, j < self.N)), ('no bad line', z3.Not(self.ANYBAD(g['acc'].t)))]
        w = self.W(ex.term(g['s'], 'str'))
        for n, f in enumerate(ex.frames):
            for k, v in f.vars.items():
                if k.startswith('$k') and isinstance(v, (Sym, int)):
                    t = ex.term(v, 'int')
                    out.append(('%d.%s not past the position' % (n, k),
                                z3.Or(z3.Not(z3.And(w >= 0, w < self.N)), t <= w)))
        for n, key, jn, b in ex.join_terms():
            out.append(('no bad %s %s' % (n, key), z3.Not(b)))
            out.append(('same bad %s %s' % (n, key), b == self.ANYBAD(g['acc'].t)))
            out.append(('bad but for the line %s %s' % (n, key), z3.Or(b, self.badf(last)) == self.ANYBAD(g['acc'].t)))
            out.append(('all but the line %s %s' % (n, key), z3.Concat(jn, self.decf(last)) == self.JOIN(g['acc'].t)))
        for k, v in ex.lists():
            if ex.ty(v) == ('seq', 'str') or v.items == []:
                t = ex.term(v, ('seq', 'str')) if v.items != [] else z3.Empty(LINES)
                out.append(('all but the line ' + k, z3.Concat(t, z3.Unit(last)) == g['acc'].t))
        return out

    def find(self, ex, it, k):
        """where a value occurs among the begin markers: the position function"""
        r = ex.pure(it.item, it.n)
        if r is None:
            return None
        i, t = r[0].t, r[1]
        if not (isinstance(t, Sym) and t.ty == 'str' and isinstance(k, Sym)):
            return None
        t = z3.simplify(t.t)
        if not (z3.is_app(t) and t.decl().eq(self.M0)):
            return None
        e = t.arg(0)
        at = [z3.simplify(z3.substitute(e, (i, z3.IntVal(x)))) for x in (0, 1, 2)]
        for sign in (1, -1):
            if z3.is_true(z3.simplify(e == at[0] + sign * i)):
                w = self.W(k.t)
                # the position of the position
                p = z3.simplify((w - at[0]) * sign)
                return z3.And(self.isbegin(k.t), p >= 0, p < it.n), p
        return None

    def same_map(self, ex, key, f, bad):
        x, v, badc = ex.maps[key]
        if v.ty != 'bytes' or x.ty != 'str':
            return False
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*(ex.axioms + ex.facts))
        lits = list(ex.lits.values())
        if len(lits) > 1:
            s.add(z3.Distinct(*lits))
        s.add(z3.Or(v.t != f(x.t), (badc if badc is not None else z3.BoolVal(False)) != bad(x.t)))
        return s.check() == z3.unsat

    def joined(self, ex, key, base):
        if base.ty == ('seq', 'str') and self.same_map(ex, key, self.decf, self.badf):
            return Sym(self.JOIN(base.t), 'bytes')
        return Sym(ex.join_fact(key, base.t)[0], ex.maps[key][1].ty)

    def anybad(self, ex, key, base):
        if base.ty == ('seq', 'str') and self.same_map(ex, key, self.decf, self.badf):
            return self.ANYBAD(base.t)
        return ex.join_fact(key, base.t)[1]

    def post(self, ex, r):
        g = ex.ghost
        ph = g['phase']
        j = ex.term(g['j'], 'int')
        if ph in ('SPAM', 'HAM'):
            ex.oblige('it stops only at the end line or at the end of the stream', False, 'phase ' + ph)
            return
        try:
            r = ex.iterable(r)
        except PyExc:
            r = None
        if not isinstance(r, list) or len(r) != 2:
            ex.oblige('the result is a pair', False, repr(r))
            return
        ex.oblige('the result is a pair', True)
        idx, sub = r
        if ph == 'DONE':
            ex.oblige('closed block: position of its pair', same_int(ex, idx, j))
            ex.oblige('closed block: the decoded lines', same_bytes(ex, sub, self.JOIN(g['acc'].t)))
        elif ph == 'EOFS':
            ex.oblige('no block: position -1', same_int(ex, idx, z3.IntVal(-1)))
            ex.oblige('no block: empty', empty(ex, sub))
        else:
            ex.oblige('unclosed block: position of its pair', same_int(ex, idx, j))
            ex.oblige('unclosed block: empty', empty(ex, sub))

    def exceptional(self, ex, e):
        g = ex.ghost
        ok = g['phase'] == 'DONE' and isinstance(e.cls, type) and issubclass(e.cls, ValueError)
        ex.oblige('it fails only on a closed block', ok, '%s at line %s' % (getattr(e.cls, '__name__', e.cls), ex.where))
        if ok:
            ex.oblige('it fails only if a line is not Base64', self.ANYBAD(g['acc'].t))


class Task(object):
    """one function (or script) under contract"""

    def __init__(self, name, spec, entry, setup=None, target=None):
        self.name, self.spec, self.entry, self.setup, self.target = name, spec, entry, setup, target

    def run(self, repo):
        ex = Ex(repo, self.spec)
        if hasattr(self.spec, 'setup'):
            self.spec.setup(ex)
        if self.setup:
            self.setup(ex)
        return ex, ex.verify(self.entry)


def repo_function(mod, name):
    f = getattr(mod, name, None)
    if not isinstance(f, types.FunctionType):
        raise Unsupported('%s is not a plain function' % name)
    return f


def run_with_posts(ex, spec, call):
    try:
        r = call()
    except PyExc as e:
        spec.exceptional(ex, e)
        return
    spec.post(ex, r)


def c01_tasks(repo):
    pem = importlib.import_module('pyasn1_modules.pem')
    f = repo_function(pem, 'readPemBlocksFromFile')
    spec = BlockMonitor()

    def entry(ex):
        spec.begin(ex)
        run_with_posts(ex, spec, lambda: ex.call_star(f, [Stream(), ('*', spec.markers(ex))], {}))
    return [Task('pem.readPemBlocksFromFile', spec, entry, target=f)]


class PairMonitor(BlockMonitor):
    """C02: one marker pair; the block reader is used through its contract (C01)"""

    def block_reader(self, ex, args, kw):
        if kw or not args or not isinstance(args[0], Stream):
            raise Unsupported('block reader on another stream')
        g = ex.ghost
        ps = []
        for a in args[1:]:
            if isinstance(a, tuple) and len(a) == 2 and a[0] == '*' and isinstance(a[1], VIter):
                raise Unsupported('block reader with unknown markers')
            ps.append(ex.iterable(a))
        ok = len(ps) == 1 and all(isinstance(p, list) and len(p) == 2 for p in ps)
        if not ok:
            ex.oblige('the block reader gets exactly the one pair', False, repr(args))
            raise pyvc.PathEnd()
        for p, q, n in zip(ps[0], self.pair, ('begin', 'end')):
            e = ex.equal(p, q)
            ex.oblige('the block reader gets the %s marker' % n, e if isinstance(e, bool) else e.t)
        if g['phase'] in ('EOFS', 'EOFH'):
            return (-1, '')
        if g['phase'] != 'SPAM':
            ex.oblige('nothing is read beyond the end line', False)
            raise pyvc.PathEnd()
        ex.events += 1
        k = ex.choose(4)
        if k == 0:
            g['phase'] = 'EOFS'
            return (-1, '')
        if k == 1:
            g['phase'], g['j'] = 'EOFH', 0
            return (0, '')
        acc = ex.fresh(('seq', 'str'), 'block')
        g['phase'], g['j'], g['acc'] = 'DONE', 0, acc
        if k == 2:
            ex.assume(self.ANYBAD(acc.t))
            raise PyExc(binascii.Error)
        ex.assume(z3.Not(self.ANYBAD(acc.t)))
        return (0, Sym(self.JOIN(acc.t), 'bytes'))

    def post(self, ex, r):
        ph = ex.ghost['phase']
        if ph in ('SPAM', 'HAM'):
            ex.oblige('it stops only at the end line or at the end of the stream', False, 'phase ' + ph)
        elif ph == 'DONE':
            ex.oblige('closed block: the decoded lines', same_bytes(ex, r, self.JOIN(ex.ghost['acc'].t)))
        else:
            ex.oblige('no closed block: empty', empty(ex, r))


class TextMonitor(Spec):
    """C02: Base64 of a whole text or of what remains of a stream"""
    REST = z3.Const('rest', S)

    def setup(self, ex):
        b64_contracts(ex)
        ex.axioms = list(B64_AXIOMS)

    def begin(self, ex):
        ex.ghost['phase'] = 'OPEN'

    def read_all(self, ex):
        if ex.ghost['phase'] == 'CLOSED':
            return ''
        ex.ghost['phase'] = 'CLOSED'
        return Sym(self.REST, 'str')

    def read_lines(self, ex):
        if ex.ghost['phase'] == 'CLOSED':
            return VList(ex, items=[])
        ex.ghost['phase'] = 'CLOSED'
        return VList(ex, seq=Sym(z3.Const('rest.lines', LINES), ('seq', 'str')))

    def joined(self, ex, key, base):
        x, v, badc = ex.maps[key]
        if z3.eq(base.t, z3.Const('rest.lines', LINES)) and z3.eq(v.t, x.t) and badc is None:
            return Sym(self.REST, 'str')
        raise Unsupported('join')

    def read_line(self, ex):
        raise Unsupported('reading by lines')

    def text_reader(self, ex, args, kw):
        """contract of readBase64fromText"""
        if kw or len(args) != 1:
            raise Unsupported('call of readBase64fromText')
        x = args[0]
        if not (isinstance(x, str) or isinstance(x, Sym) and x.ty == 'str'):
            raise PyExc(AttributeError)
        e = ENC(ex.term(x, 'str'))
        if ex.branch(BAD(e)):
            raise PyExc(binascii.Error)
        return Sym(B64(e), 'bytes')

    def post(self, ex, r):
        if self.stream:
            ex.oblige('the stream is read to its end', ex.ghost['phase'] == 'CLOSED')
        ex.oblige('the decoding of the whole text', same_bytes(ex, r, B64(ENC(self.text))))

    def exceptional(self, ex, e):
        ok = isinstance(e.cls, type) and issubclass(e.cls, ValueError)
        ex.oblige('it fails only on bad text', BAD(ENC(self.text)) if ok else False,
                  '%s at line %s' % (getattr(e.cls, '__name__', e.cls), ex.where))


CERT = ('-----BEGIN CERTIFICATE-----', '-----END CERTIFICATE-----')


def c02_tasks(repo):
    pem = importlib.import_module('pyasn1_modules.pem')
    f = repo_function(pem, 'readPemFromFile')
    block = getattr(pem, 'readPemBlocksFromFile', None)
    a, b = Sym(z3.Const('begin', S), 'str'), Sym(z3.Const('end', S), 'str')
    out = []

    def pair(name, pair, args, kw):
        spec = PairMonitor(pair)

        def setup(ex):
            if block is not None:
                ex.contracts[id(block)] = spec.block_reader

        def entry(ex):
            spec.begin(ex)
            run_with_posts(ex, spec, lambda: ex.call(f, [Stream()] + args, dict(kw)))
        out.append(Task('pem.readPemFromFile, ' + name, spec, entry, setup, f))
    pair('default markers', CERT, [], {})
    pair('any markers', (a, b), [a, b], {})
    pair('any markers, by name', (a, b), [], {'startMarker': a, 'endMarker': b})
    pair('any begin marker', (a, CERT[1]), [a], {})
    pair('any end marker', (CERT[0], b), [], {'endMarker': b})

    text = getattr(pem, 'readBase64fromText', None)

    def whole(name, stream):
        spec = TextMonitor()
        spec.stream = stream
        spec.text = spec.REST if stream else z3.Const('text', S)
        g = repo_function(pem, name)

        def setup(ex):
            if stream and text is not None:
                ex.contracts[id(text)] = spec.text_reader

        def entry(ex):
            spec.begin(ex)
            arg = Stream() if stream else Sym(spec.text, 'str')
            run_with_posts(ex, spec, lambda: ex.call(g, [arg], {}))
        out.append(Task('pem.' + name, spec, entry, setup, g))
    whole('readBase64fromText', False)
    whole('readBase64FromFile', True)
    return out


# -- identifier builders ------------------------------------------------------------------------------

ARCS = z3.SeqSort(INT)


class Comp(Obj):
    """component i of an argument list: an integer, a numeric string or an identifier"""

    def __init__(self, spec, i):
        self.spec, self.i = spec, i

    def shape(self):
        return None

    def kind(self, ex):
        k = self.spec.KIND(self.i)
        if ex.branch(k == 2):
            return 2
        return 1 if ex.branch(k == 1) else 0

    def arcs(self, ex):
        return Sym(self.spec.ARCSOF(self.i), ('seq', 'int'))

    def iter(self, ex):
        k = self.kind(ex)
        if k == 2:
            return ex.seq_iter(self.arcs(ex))
        if k == 0:
            raise PyExc(TypeError)
        raise Unsupported('characters of a numeric string')

    def attr(self, ex, name):
        k = self.kind(ex)
        if k == 2 and name in ('asTuple', '__iter__', '__len__', '__add__', '__radd__', '__getitem__', 'isValue', 'prettyPrint'):
            return True if name == 'isValue' else Bound(self, name)
        if hasattr((int, str)[k], name) if k < 2 else hasattr(self.spec.oidcls, name):
            raise Unsupported('component.%s' % name)
        raise PyExc(AttributeError)

    def hasattr(self, ex, name):
        k = self.kind(ex)
        return hasattr((int, str, self.spec.oidcls)[k], name)

    def callm(self, ex, name, args, kw):
        if name == 'asTuple' and not args:
            return self.arcs(ex)
        raise Unsupported('component.%s' % name)

    def len(self, ex):
        k = self.kind(ex)
        if k == 0:
            raise PyExc(TypeError)
        if k == 1:
            raise Unsupported('len of a numeric string')
        return Sym(z3.Length(self.spec.ARCSOF(self.i)), 'int')

    def truth(self, ex):
        k = self.kind(ex)
        if k == 0:
            return Sym(self.spec.VAL(self.i) != 0, 'bool')
        if k == 1:
            return True
        return Sym(z3.Length(self.spec.ARCSOF(self.i)) > 0, 'bool')

    def eq(self, ex, other):
        k = self.kind(ex)
        if k == 0 and isinstance(other, int):
            return Sym(self.spec.VAL(self.i) == int(other), 'bool')
        if other is None:
            return False
        raise Unsupported('== on a component')

    def getitem(self, ex, i):
        if self.kind(ex) == 2:
            return ex.getitem(self.arcs(ex), i)
        raise Unsupported('[] on a component')

    def getslice(self, ex, lo, hi):
        if self.kind(ex) == 2:
            return OidVal(ex.getslice(self.arcs(ex), lo, hi))
        raise Unsupported('slice of a component')

    def add(self, ex, other, left):
        if self.kind(ex) == 2:
            return OidVal(self.arcs(ex)).add(ex, other, left)
        raise Unsupported('+ on a component')


class OidVal(Obj):
    """an identifier under construction"""

    def __init__(self, arcs):
        self.arcs = arcs

    def shape(self):
        return 'oid'

    def parts(self):
        return {'arcs': self.arcs}

    def iter(self, ex):
        return ex.seq_iter(self.arcs)

    def attr(self, ex, name):
        if name in ('asTuple',):
            return Bound(self, name)
        raise Unsupported('identifier.%s' % name)

    def callm(self, ex, name, args, kw):
        return self.arcs

    def len(self, ex):
        return Sym(z3.Length(self.arcs.t), 'int')

    def truth(self, ex):
        return Sym(z3.Length(self.arcs.t) > 0, 'bool')

    def getslice(self, ex, lo, hi):
        return OidVal(ex.getslice(self.arcs, lo, hi))

    def getitem(self, ex, i):
        return ex.getitem(self.arcs, i)

    def add(self, ex, other, left):
        if isinstance(other, (Comp, OidVal)):
            o = other.arcs if isinstance(other, OidVal) else other.arcs(ex) if other.kind(ex) == 2 else None
            if o is None:
                raise Unsupported('identifier + component')
            o = o.t
        else:
            if isinstance(other, (list, VList)) and getattr(other, 'kind', 'list') == 'list':
                raise PyExc(TypeError)      # its arcs are a tuple
            if ex.ty(other) != ('seq', 'int'):
                if other == () and not isinstance(other, Obj):
                    return self
                raise Unsupported('identifier + %r' % (other,))
            o = ex.term(other, ('seq', 'int'))
        a, b = (self.arcs.t, o) if left else (o, self.arcs.t)
        return OidVal(Sym(z3.simplify(z3.Concat(a, b)), ('seq', 'int')))


class OidBuilder(Spec):
    tracks_joins = True
    KIND = z3.Function('component.kind', INT, INT)
    VAL = z3.Function('component.value', INT, INT)
    ARCSOF = z3.Function('component.arcs', INT, ARCS)
    P = z3.Function('prefix', INT, ARCS)
    Q = z3.Function('suffix', INT, ARCS)
    N = z3.Int('components')

    def __init__(self, oidcls):
        self.oidcls = oidcls

    def setup(self, ex):
        # prefix and suffix of the same concatenation: P(i) + Q(i) does not depend on i (the step of the induction)
        i, q = z3.Int('i'), z3.Solver()
        q.add(self.P(i + 1) == z3.Concat(self.P(i), self.part(i)), self.Q(i) == z3.Concat(self.part(i), self.Q(i + 1)),
              z3.Concat(self.P(i), self.Q(i)) != z3.Concat(self.P(i + 1), self.Q(i + 1)))
        if q.check() != z3.unsat:
            raise Unsupported('lemma on prefixes and suffixes')
        ex.axioms = [self.N >= 0, self.P(0) == z3.Empty(ARCS), self.Q(self.N) == z3.Empty(ARCS), self.Q(0) == self.P(self.N)]

    def part(self, i):
        return z3.If(self.KIND(i) == 2, self.ARCSOF(i), z3.Unit(self.VAL(i)))

    def components(self, ex):
        def item(i):
            ex.fact(z3.And(self.KIND(i) >= 0, self.KIND(i) <= 2, z3.Implies(self.KIND(i) != 2, self.VAL(i) >= 0)))
            j = z3.simplify(i + 1)
            ex.fact(self.P(j) == z3.Concat(self.P(i), self.part(i)))
            ex.fact(self.Q(i) == z3.Concat(self.part(i), self.Q(j)))
            return Comp(self, i)
        return VIter(self.N, item)

    def terms(self, ex):
        out = []
        for n, f in enumerate(ex.frames):
            for k, v in f.vars.items():
                if type(v) is int or isinstance(v, Sym) and v.ty == 'int':
                    out.append(('P.%d.%s' % (n, k), Sym(self.P(ex.term(v, 'int')), ('seq', 'int'))))
                    if k.startswith('$k'):
                        out.append(('Q.%d.%s' % (n, k), Sym(self.Q(z3.simplify(self.N - ex.term(v, 'int'))), ('seq', 'int'))))
                    elif type(v) is not int:
                        out.append(('Q.%d.%s' % (n, k), Sym(self.Q(ex.term(v, 'int')), ('seq', 'int'))))
                        out.append(('R.%d.%s' % (n, k), Sym(self.Q(ex.term(v, 'int') + 1), ('seq', 'int'))))
        out.append(('n', Sym(self.N, 'int')))
        return out

    def isinstance(self, ex, v, t):
        ts = t if isinstance(t, tuple) else (t,)
        if isinstance(v, Comp):
            k = v.kind(ex)
            return any(isinstance(x, type) and issubclass((int, str, self.oidcls)[k], x) for x in ts)
        if isinstance(v, OidVal):
            return any(isinstance(x, type) and issubclass(self.oidcls, x) for x in ts)
        return None

    def to_int(self, ex, v):
        if isinstance(v, Comp):
            if v.kind(ex) == 2:
                raise PyExc(TypeError)
            return (Sym(self.VAL(v.i), 'int'),)
        return None

    def native_call(self, ex, f, args, kw):
        if f is self.oidcls and not kw and len(args) == 1:
            a = args[0]
            if isinstance(a, OidVal):
                return (a,)
            if isinstance(a, Comp):
                if a.kind(ex) == 2:
                    return (OidVal(a.arcs(ex)),)
                raise Unsupported('identifier of one component')
            if isinstance(a, (str, bytes)):
                return None
            try:
                it = ex.iterable(a)
            except PyExc:
                raise Unsupported('identifier of %r' % (a,))
            if isinstance(it, list):
                ts = []
                for x in it:
                    if isinstance(x, Comp):
                        if x.kind(ex) != 0:
                            raise asn1_error()      # the library compares it with 0
                        ts.append(self.VAL(x.i))
                    else:
                        ts.append(ex.term(x, 'int'))
                return (OidVal(Sym(pyvc.seq_lit(ts, ARCS), ('seq', 'int'))),)
            s = ex.same_base(it)
            if s is None:
                s = ex.listed(it)
                if not isinstance(s, VList):
                    raise Unsupported('identifier of a lazy sequence')
                return self.native_call(ex, f, [s], kw)
            if s.ty not in ('bytes', ('seq', 'int')):
                raise Unsupported('identifier of a lazy sequence')
            return (OidVal(Sym(s.t, ('seq', 'int'))),)
        return None

    def havoc(self, ex, sh, name):
        if sh[2] == 'oid':
            return OidVal(ex.fresh(('seq', 'int'), name))
        raise Unsupported('havoc')

    def post(self, ex, r):
        if isinstance(r, Comp):
            r = OidVal(r.arcs(ex)) if r.kind(ex) == 2 else r
        if isinstance(r, self.oidcls):
            r = OidVal(Sym(pyvc.seq_lit([z3.IntVal(a) for a in r], ARCS), ('seq', 'int')))
        if not isinstance(r, OidVal):
            ex.oblige('the result is an identifier', False, repr(r))
            return
        ex.oblige('the result is an identifier', True)
        ex.oblige('its arcs are the concatenation of the arguments', r.arcs.t == self.P(self.N))

    def exceptional(self, ex, e):
        ex.oblige('it does not fail', False, '%s at line %s' % (getattr(e.cls, '__name__', e.cls), ex.where))


def builders(repo):
    """every module-level function that composes identifiers: it maps (1, 2, '3') and an
    identifier to an identifier"""
    from pyasn1.type import univ
    out = []
    d = os.path.join(repo, 'pyasn1_modules')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.py') or fn == '__init__.py':
            continue
        try:
            m = importlib.import_module('pyasn1_modules.' + fn[:-3])
        except Exception:
            # it composes identifiers as it is loaded
            with open(os.path.join(d, fn)) as src:
                try:
                    body = pyvc.ast.parse(src.read()).body
                except SyntaxError:
                    body = []
            out += [(fn[:-3], x.name, None) for x in body if isinstance(x, pyvc.ast.FunctionDef)]
            continue
        for n, f in sorted(vars(m).items()):
            if isinstance(f, types.FunctionType) and f.__module__ == m.__name__:
                hits = 0
                for probe in ((1, 2, 3), (1, '2'), (univ.ObjectIdentifier('1.3.6'), 4)):
                    try:
                        hits += isinstance(f(*probe), univ.ObjectIdentifier)
                    except Exception:
                        pass
                if hits or n in ('_OID', '_buildOid'):
                    out.append((fn[:-3], n, f))
    return out


def c03_tasks(repo):
    from pyasn1.type import univ
    out = []
    for mod, n, f in builders(repo):
        spec = OidBuilder(univ.ObjectIdentifier)

        def entry(ex, spec=spec, f=f):
            if f is None:
                ex.oblige('its module can be loaded', False)
                return
            if not isinstance(f, types.FunctionType):
                raise Unsupported('not a plain function')
            run_with_posts(ex, spec, lambda: ex.call_star(f, [('*', spec.components(ex))], {}))
        out.append(Task('%s.%s' % (mod, n), spec, entry, target=f))
    return out


# -- dump tools -----------------------------------------------------------------------------------------

class Codes(object):
    """identifiers as numbers: equal identifiers, equal numbers"""

    def __init__(self):
        self.d = {}

    def __call__(self, oid):
        return self.d.setdefault(tuple(int(x) for x in oid), len(self.d) + 1)


class OidField(Obj):
    """identifier read from a decoded object, or a constant of the modules"""

    def __init__(self, spec, code):
        self.spec, self.code = spec, code

    def shape(self):
        return 'oidfield'

    def parts(self):
        return {'code': self.code}

    def truth(self, ex):
        return True

    def constant(self):
        return z3.is_int_value(self.code.t)

    def eq(self, ex, o):
        if isinstance(o, OidField):
            return Sym(self.code.t == o.code.t, 'bool')
        if isinstance(o, (tuple, self.spec.oidcls)):
            return Sym(self.code.t == self.spec.codes(o), 'bool')
        if o is None or isinstance(o, (int, str)):
            return False
        raise Unsupported('comparison of an identifier with %r' % (o,))

    def attr(self, ex, name):
        if name in ('prettyPrint', 'asTuple', '__str__'):
            return Bound(self, name)
        raise Unsupported('identifier.%s' % name)

    def callm(self, ex, name, args, kw):
        if name == 'asTuple':
            return self
        return Other('oid')


class Other(Obj):
    """text that is not a decoded object"""

    def __init__(self, what):
        self.what = what

    def add(self, ex, o, left):
        return ex.fmt([self, o] if left else [o, self])


class Pretty(Obj):
    """the printed form of a decoded object"""

    def __init__(self, typ, d):
        self.typ, self.d = typ, d

    def add(self, ex, o, left):
        return ex.fmt([self, o] if left else [o, self])


class Any(Obj):
    """octets held by a component"""

    def __init__(self, spec, d):
        self.spec, self.d = spec, d

    def shape(self):
        return 'octets'

    def parts(self):
        return {'octets': self.d}

    def attr(self, ex, name):
        if name == 'asOctets':
            return Bound(self, name)
        raise Unsupported('octets.%s' % name)

    def callm(self, ex, name, args, kw):
        return self.d

    def truth(self, ex):
        return Sym(z3.Length(self.d.t) > 0, 'bool')

    def len(self, ex):
        return Sym(z3.Length(self.d.t), 'int')

    def getslice(self, ex, lo, hi):
        return Any(self.spec, ex.getslice(self.d, lo, hi))

    def eq(self, ex, o):
        if isinstance(o, Any):
            o = o.d
        return ex.equal(self.d, o)


class Dec(Obj):
    """value decoded as a type from octets d; a component of it is a path"""

    def __init__(self, spec, typ, d, path=()):
        self.spec, self.typ, self.d, self.path = spec, typ, d, path

    def truth(self, ex):
        return True

    def proto(self):
        from pyasn1.type import univ
        m, t = self.typ.split('.')
        o = getattr(importlib.import_module('pyasn1_modules.' + m), t)()
        for n in self.path:
            o = o.componentType[n].asn1Object
        if not isinstance(o, (univ.Sequence, univ.Set)) or isinstance(o, univ.Choice):
            raise Unsupported('component of %s' % type(o).__name__)
        return o

    def field(self, ex, name):
        nts = self.proto().componentType
        try:
            if isinstance(name, int) and 0 <= name < len(nts):
                name = nts.getNameByPosition(name)
            elif not isinstance(name, str) or nts.getPositionByName(name) is None:
                raise Unsupported('component %r' % (name,))
        except Unsupported:
            raise
        except Exception as exc:
            raise PyExc(type(exc), exc)
        p = self.path + (name,)
        k = self.spec.leaf(self.typ, p)
        if k == 'oid':
            return OidField(self.spec, Sym(self.spec.fn('oid', self.typ, p, INT)(self.d.t), 'int'))
        if k == 'any':
            t = self.spec.fn('any', self.typ, p, BYTES)(self.d.t)
            ex.fact(z3.Length(t) < z3.Length(self.d.t))
            return Any(self.spec, Sym(t, 'bytes'))
        return Dec(self.spec, self.typ, self.d, p)

    def getitem(self, ex, i):
        return self.field(ex, i)

    def attr(self, ex, name):
        if name in ('prettyPrint', 'getComponentByName', 'getComponentByPosition'):
            return Bound(self, name)
        if name in ('isValue', 'hasValue') and not self.path:
            return True if name == 'isValue' else Bound(self, name)
        raise Unsupported('decoded.%s' % name)

    def callm(self, ex, name, args, kw):
        if kw:
            raise Unsupported('decoded.%s' % name)
        if name == 'prettyPrint' and not args:
            return Pretty(self.typ, self.d) if not self.path else Other('part')
        if name in ('getComponentByName', 'getComponentByPosition') and len(args) == 1 \
                and isinstance(args[0], str) == (name == 'getComponentByName'):
            return self.field(ex, args[0])
        if name == 'hasValue':
            return True
        raise Unsupported('decoded.%s' % name)


class Out(Obj):
    def __init__(self, err):
        self.err = err

    def attr(self, ex, name):
        if name not in ('write', 'flush'):
            raise Unsupported('stdout.%s' % name)
        return Bound(self, name)

    def callm(self, ex, name, args, kw):
        if name == 'write':
            ex.spec.on_print(ex, args, {'file': self} if self.err else {})
        return None


def typename(t):
    return '%s.%s' % (t.__module__.rpartition('.')[2], t.__name__)


class DumpTool(Spec):
    """C13 as a monitor over what the tool reads, decodes, prints, encodes"""
    needs_progress = True
    track_ints = True

    def __init__(self, name, markers=None, whole=None, count=False, single=False, layers=None, inner=None, exact=False):
        # markers: {(begin, end): type name}; whole: type name; layers: {identifier: (type, next)}
        from pyasn1.type import univ
        from pyasn1.codec.der import decoder, encoder
        from pyasn1.codec.ber import decoder as bdec, encoder as benc
        from pyasn1.codec.cer import decoder as cdec, encoder as cenc
        self.oidcls = univ.ObjectIdentifier
        self.name, self.markers, self.whole, self.count, self.single = name, markers, whole, count, single
        self.inner = inner or {}
        self.layers, self.exact = layers, exact
        self.codes = Codes()
        self.dec = {id(decoder.decode): 'DER', id(bdec.decode): 'BER', id(cdec.decode): 'CER'}
        self.enc = {id(encoder.encode): 'DER', id(benc.encode): 'BER', id(cenc.encode): 'CER'}
        self.objs = (decoder.decode, encoder.encode, bdec.decode, benc.encode, cdec.decode, cenc.encode)
        self.fns = {}

    def fn(self, *key):
        name, rest, sort = '.'.join(str(k) for k in key[:-1]), key[:-1], key[-1]
        return z3.Function('%s:%s' % (self.name, name), BYTES, sort)

    def leaf(self, typ, path):
        return self.inner.get((typ, path))

    def setup(self, ex):
        pem = importlib.import_module('pyasn1_modules.pem')
        ex.contracts[id(getattr(pem, 'readPemBlocksFromFile', None))] = self.block
        ex.contracts[id(getattr(pem, 'readPemFromFile', None))] = self.oneblock
        ex.contracts[id(getattr(pem, 'readBase64FromFile', None))] = self.input
        for o in self.objs:
            if id(o) in self.dec:
                ex.contracts[id(o)] = lambda ex, a, k, r=self.dec[id(o)]: self.decode(ex, a, k, r)
            else:
                ex.contracts[id(o)] = lambda ex, a, k, r=self.enc[id(o)]: self.encode_(ex, a, k, r)
        ex.contracts[id(sys.exit)] = self.exit

    def begin(self, ex):
        self.stdin, self.stdout, self.stderr = Stream(), Out(False), Out(True)
        ex.ghost.update({'st': 'START', 'typ': None, 'd': None, 'dec': False, 'printed': False, 'count': 0,
                         'reported': False, 'failed': False, 'top': True})

    def exit(self, ex, args, kw):
        raise PyExc(SystemExit, args[0] if args else None)

    # environment
    def native_attr(self, ex, o, name):
        if o is sys:
            if name == 'argv':
                return (VList(ex, items=[self.name]),)
            if name == 'stdin':
                return (self.stdin,)
            if name in ('stdout', 'stderr'):
                return (getattr(self, name),)
            if name == 'exit':
                return None
            if name in ('version_info', 'maxsize', 'platform', 'version'):
                return None
            raise Unsupported('sys.%s' % name)
        if isinstance(o, types.ModuleType):
            v = getattr(o, name, None)
            if isinstance(v, self.oidcls) and v.isValue:
                return (OidField(self, Sym(z3.IntVal(self.codes(v)), 'int')),)
        return None

    def havoc(self, ex, sh, name):
        if sh[2] == 'oidfield':
            return OidField(self, ex.fresh('int', name))
        if sh[2] == 'octets':
            return Any(self, ex.fresh('bytes', name))
        if sh[2] == 'stream':
            return self.stdin
        raise Unsupported('havoc')

    def read_line(self, ex):
        raise Unsupported('standard input read line by line')

    read_all = read_lines = read_line

    def terms(self, ex):
        out = [('oid.%d' % c, Sym(z3.IntVal(c), 'int')) for c in sorted(self.codes.d.values())]
        n = self.next_layer(ex)
        return out + ([('ncode', Sym(n[0], 'int')), ('ndata', Sym(n[1], 'bytes'))] if n else [])

    def preds(self, ex):
        ver = self.reencoded(ex) if ex.ghost.get('st') == 'OBJ' else None
        return [('re-encoded', ver)] if ver is not None else []

    # functions of the object at hand
    def reencoded(self, ex):
        """condition: encoding the object at hand gives its octets; None when nothing is required"""
        g = ex.ghost
        if not g['dec'] or not (g['top'] or self.exact):
            return None
        typ, d = g['typ'], ex.term(g['d'], 'bytes')
        # trailing octets are ignored only where PEM blocks are read
        return self.fn('encoded', typ, BYTES)(d) == (self.fn('consumed', typ, BYTES)(d) if self.markers is not None else d)

    def next_layer(self, ex):
        """(identifier code, octets) of the content of the object at hand, or None"""
        g = ex.ghost
        if self.layers is None or not g.get('dec') or self.layers.get(g['typ']) is None:
            return None
        typ, d = g['typ'], ex.term(g['d'], 'bytes')
        code, data = self.layers[typ]
        return self.fn('oid', typ, code, INT)(d), self.fn('any', typ, data, BYTES)(d)

    # the input
    def finish(self, ex):
        """the current object is done with"""
        g = ex.ghost
        if g['st'] != 'OBJ':
            return
        ex.oblige('every block is decoded', g['dec'])
        if not g['dec']:
            return
        ex.oblige('every decoded object is printed', g['printed'])
        ver = self.reencoded(ex)
        if ver is not None:
            ex.oblige('re-encoding reproduces the input, or the tool fails', ver)

    def oneblock(self, ex, args, kw):
        args, kw = list(args), dict(kw)
        for n, d in zip(('startMarker', 'endMarker')[max(len(args) - 1, 0):], CERT[max(len(args) - 1, 0):]):
            args.append(kw.pop(n, d))
        if len(args) != 3 or kw:
            raise Unsupported('readPemFromFile')
        return self.block(ex, [args[0], (args[1], args[2])], {})[1]

    def block(self, ex, args, kw):
        g = ex.ghost
        if kw or not args or args[0] is not self.stdin:
            raise Unsupported('block reader on another stream')
        pairs = []
        for a in args[1:]:
            p = ex.iterable(a) if not (isinstance(a, tuple) and a[:1] == ('*',)) else None
            if p is None or len(p) != 2 or not all(isinstance(x, str) for x in p):
                raise Unsupported('markers')
            pairs.append(tuple(p))
        ok = self.markers is not None and set(pairs) == set(self.markers) and len(set(pairs)) == len(pairs)
        ex.oblige('it reads the blocks of exactly the specified markers', ok, repr(pairs))
        if not ok:
            raise pyvc.PathEnd()
        self.finish(ex)
        if g['st'] == 'NONE':
            return (-1, '')
        if self.single and g['st'] == 'OBJ':
            ex.oblige('it reads one block', False)
            raise pyvc.PathEnd()
        ex.events += 1
        g.update({'dec': False, 'printed': False, 'typ': None, 'd': None})
        k = ex.choose(1 + 3 * len(pairs))
        if k == 0:
            g['st'] = 'NONE'
            return (-1, '')
        i, what = divmod(k - 1, 3)
        if what == 0:
            g['st'] = 'NONE'
            return (i, '')
        if what == 1:
            g['st'] = 'EMPTY'
            return (i, b'')
        if ex.choose(2):
            g['failed'] = True
            raise PyExc(binascii.Error)
        d = ex.fresh('bytes', 'block')
        ex.assume(z3.Length(d.t) > 0)
        g.update({'st': 'OBJ', 'typ': self.markers[pairs[i]], 'd': d})
        return (i, d)

    def input(self, ex, args, kw):
        g = ex.ghost
        if kw or len(args) != 1 or args[0] is not self.stdin:
            raise Unsupported('Base64 reader on another stream')
        ex.oblige('it reads Base64 input', self.whole is not None)
        if self.whole is None:
            raise pyvc.PathEnd()
        if g['st'] != 'START':
            return b''
        ex.events += 1
        k = ex.choose(3)
        if k == 0:
            g['failed'] = True
            raise PyExc(binascii.Error)
        if k == 1:
            g['st'] = 'NONE'
            return b''
        d = ex.fresh('bytes', 'input')
        ex.assume(z3.Length(d.t) > 0)
        g.update({'st': 'OBJ', 'typ': self.whole, 'd': d})
        return d

    # the codecs
    def octets(self, ex, v):
        if isinstance(v, Any):
            return v.d.t
        if isinstance(v, (bytes,)) or isinstance(v, Sym) and v.ty == 'bytes':
            return ex.term(v, 'bytes')
        return None

    def decode(self, ex, args, kw, rules):
        g = ex.ghost
        kw = dict(kw)
        spec = kw.pop('asn1Spec', args[1] if len(args) > 1 else None)
        if kw or len(args) > 2 or not args:
            raise Unsupported('decoder options')
        ex.oblige('it decodes by the distinguished rules', rules == 'DER', rules)
        if g['st'] in ('NONE', 'EMPTY') and isinstance(args[0], (bytes, str)) and not args[0]:
            # decoding of no octets fails
            from pyasn1.error import PyAsn1Error
            raise PyExc(PyAsn1Error)
        d = self.octets(ex, args[0])
        if d is None:
            ex.oblige('what it decodes is octets', False, repr(args[0]))
            raise pyvc.PathEnd()
        ex.oblige('it decodes nothing before or after the blocks', g['st'] == 'OBJ', g['st'])
        if g['st'] != 'OBJ':
            raise pyvc.PathEnd()
        # the content of the object at hand, or the object itself
        n = self.next_layer(ex)
        if n is not None and not ex.implied(d == g['d'].t):
            self.finish(ex)
            ex.oblige('the next layer is the content of the last', d == n[1])
            typ = self.layer(ex)
            if typ is None:
                ex.oblige('the next layer has a known type', False)
                raise pyvc.PathEnd()
            ex.events += 1
            g.update({'typ': typ, 'd': Sym(n[1], 'bytes'), 'dec': False, 'printed': False, 'top': False})
        else:
            ex.oblige('it decodes the block at hand', d == g['d'].t)
            if g['dec'] and not ex.implied(d == g['d'].t):
                raise pyvc.PathEnd()
        t = type(spec)
        name = typename(t)
        good = not isinstance(spec, (Obj, Sym)) and name == g['typ'] and spec.isSameTypeWith(t()) and not spec.isValue \
            if spec is not None and hasattr(spec, 'isSameTypeWith') else False
        ex.oblige('it decodes with the type that belongs to the data', good, '%s, expected %s' % (name, g['typ']))
        if not good:
            raise pyvc.PathEnd()
        typ = g['typ']
        d = g['d'].t
        if not ex.branch(self.fn('ok', typ, BOOL)(d)):
            g['failed'] = True
            from pyasn1.error import PyAsn1Error
            raise PyExc(PyAsn1Error)
        rest, cons, enc = (self.fn(n, typ, BYTES)(d) for n in ('rest', 'consumed', 'encoded'))
        ex.fact(d == z3.Concat(cons, rest))
        ex.fact(z3.Length(cons) > 0)
        g['dec'] = True
        return (Dec(self, typ, Sym(d, 'bytes')), Sym(rest, 'bytes'))

    def layer(self, ex):
        """type of the content of the current layer, None when unknown"""
        for oid, typ in self.layertypes.items():
            if ex.implied(self.next_layer(ex)[0] == self.codes(oid)):
                return typ
        return None

    def encode_(self, ex, args, kw, rules):
        kw = dict(kw)
        spec = kw.pop('asn1Spec', args[1] if len(args) > 1 else None)
        if kw or spec is not None or not args or not isinstance(args[0], Dec) or args[0].path:
            raise Unsupported('encoding of %r' % (args,))
        ex.oblige('it encodes by the distinguished rules', rules == 'DER', rules)
        v = args[0]
        return Sym(self.fn('encoded', v.typ, BYTES)(v.d.t), 'bytes')

    # the output
    def on_print(self, ex, args, kw):
        g = ex.ghost
        f = kw.get('file')
        if f is self.stderr:
            return None
        if f is not None and f is not self.stdout:
            raise Unsupported('print to a file')
        if set(kw) - {'file', 'end', 'sep', 'flush'}:
            raise Unsupported('print options')
        parts = []
        for a in args:
            parts += a.flat() if isinstance(a, Fmt) else [a]
        objs = [p for p in parts if isinstance(p, (Pretty, Dec))]
        for p in objs:
            if isinstance(p, Dec):
                raise Unsupported('str() of a decoded object')
            ok = g['st'] == 'OBJ' and g['dec'] and p.typ == g['typ']
            ex.oblige('what is printed is the object at hand', z3.BoolVal(False) if not ok else p.d.t == g['d'].t)
            ex.oblige('each object is printed once', not g['printed'])
            if not g['printed']:
                ex.events += 1
            g['printed'] = True
            c = g['count']
            g['count'] = Sym(z3.simplify(ex.term(c, 'int') + 1), 'int')
        if not objs:
            for p in parts:
                if isinstance(p, bool):
                    continue
                if isinstance(p, int) or isinstance(p, Sym) and p.ty == 'int':
                    if self.count:
                        ex.oblige('the count reported is the number of objects printed',
                                  ex.term(p, 'int') == ex.term(g['count'], 'int'))
                        ex.oblige('the count is reported once and at the end', not g['reported'] and g['st'] in ('NONE', 'EMPTY'))
                        g['reported'] = True
                elif isinstance(p, Sym):
                    raise Unsupported('print of %r' % (p,))
        return None

    # the end
    def end(self, ex, exc):
        g = ex.ghost
        if exc is not None and isinstance(exc.cls, type) and issubclass(exc.cls, SystemExit) and \
                (exc.value is None or isinstance(exc.value, int) and int(exc.value) == 0):
            exc = None
        if exc is None:
            if self.single:
                ex.oblige('it ends after its block', g['st'] == 'OBJ', g['st'])
            elif self.markers is not None:
                ex.oblige('it ends at the end of the blocks only', g['st'] in ('NONE', 'EMPTY'), g['st'])
            else:
                ex.oblige('it ends after its input', g['st'] in ('OBJ', 'NONE'), g['st'])
            self.finish(ex)
            n = self.next_layer(ex)
            if g['st'] == 'OBJ' and n is not None:
                ex.oblige('it ends at content of unknown type only',
                          z3.And([n[0] != self.codes(o) for o in self.layertypes]))
            if self.count:
                ex.oblige('the count is reported', g['reported'])
            return
        why = [z3.BoolVal(bool(g['failed']))]
        n = self.next_layer(ex)
        if g['st'] == 'OBJ':
            ver = self.reencoded(ex)
            if ver is not None:
                why.append(z3.Not(ver))
            if n is not None:
                why.append(z3.And([n[0] != self.codes(o) for o in self.layertypes]))
            if self.exact and g['dec']:
                why.append(z3.Length(self.fn('rest', g['typ'], BYTES)(g['d'].t)) > 0)
        if self.single:
            why.append(z3.BoolVal(g['st'] in ('NONE', 'EMPTY')))
        if self.whole is not None and g['st'] == 'NONE':
            why.append(z3.BoolVal(True))
        ex.oblige('it fails only on bad input or a bad re-encoding', z3.Or(why),
                  '%s at line %s' % (getattr(exc.cls, '__name__', exc.cls), ex.where))


def pair(n):
    return ('-----BEGIN %s-----' % n, '-----END %s-----' % n)


def dump_specs():
    P7 = (1, 2, 840, 113549, 1, 7)
    out = [
        ('x509dump', dict(markers={pair('CERTIFICATE'): 'rfc2459.Certificate'}, count=True)),
        ('x509dump-rfc5280', dict(markers={pair('CERTIFICATE'): 'rfc5280.Certificate'}, count=True)),
        ('crldump', dict(markers={pair('X509 CRL'): 'rfc2459.CertificateList'}, count=True)),
        ('pkcs10dump', dict(markers={pair('CERTIFICATE REQUEST'): 'rfc2314.CertificationRequest'}, count=True)),
        ('pkcs1dump', dict(markers={pair('RSA PRIVATE KEY'): 'rfc2437.RSAPrivateKey',
                                    pair('DSA PRIVATE KEY'): 'rfc2459.DSAPrivateKey'}, count=True)),
        ('pkcs8dump', dict(markers={pair('PRIVATE KEY'): 'rfc5208.PrivateKeyInfo',
                                    pair('ENCRYPTED PRIVATE KEY'): 'rfc5208.EncryptedPrivateKeyInfo'}, count=True)),
        ('cmpdump', dict(whole='rfc4210.PKIMessage')),
        ('crmfdump', dict(whole='rfc2511.CertReqMessages')),
        ('ocspreqdump', dict(whole='rfc2560.OCSPRequest')),
        ('ocsprspdump', dict(whole='rfc2560.OCSPResponse')),
        ('pkcs7dump', dict(
            markers={pair('PKCS7'): 'rfc2315.ContentInfo'}, single=True,
            layers={'rfc2315.ContentInfo': (('contentType',), ('content',)), 'rfc2315.Data': None,
                    'rfc2315.SignedData': None, 'rfc2315.EnvelopedData': None,
                    'rfc2315.SignedAndEnvelopedData': None, 'rfc2315.DigestedData': None, 'rfc2315.EncryptedData': None},
            inner={('rfc2315.ContentInfo', ('contentType',)): 'oid', ('rfc2315.ContentInfo', ('content',)): 'any'},
            types={P7 + (i + 1,): 'rfc2315.' + n for i, n in enumerate(
                ('Data', 'SignedData', 'EnvelopedData', 'SignedAndEnvelopedData', 'DigestedData', 'EncryptedData'))})),
        ('cmcdump', dict(
            whole='rfc5652.ContentInfo', exact=True,
            layers={'rfc5652.ContentInfo': (('contentType',), ('content',)),
                    'rfc5652.SignedData': (('encapContentInfo', 'eContentType'), ('encapContentInfo', 'eContent')),
                    'rfc6402.PKIData': None},
            inner={('rfc5652.ContentInfo', ('contentType',)): 'oid', ('rfc5652.ContentInfo', ('content',)): 'any',
                   ('rfc5652.SignedData', ('encapContentInfo', 'eContentType')): 'oid',
                   ('rfc5652.SignedData', ('encapContentInfo', 'eContent')): 'any'},
            types={(1, 2, 840, 113549, 1, 9, 16, 1, 6): 'rfc5652.ContentInfo',
                   (1, 2, 840, 113549, 1, 7, 2): 'rfc5652.SignedData',
                   (1, 3, 6, 1, 5, 5, 7, 12, 2): 'rfc6402.PKIData'})),
    ]
    return out


def c13_tasks(repo):
    tasks = []
    for name, kw in dump_specs():
        kw = dict(kw)
        types_ = kw.pop('types', {})
        spec = DumpTool(name, **kw)
        spec.layertypes = types_
        for o in types_:
            spec.codes(o)
        path = os.path.join(repo, 'tools', name + '.py')

        def entry(ex, spec=spec, path=path):
            spec.begin(ex)
            try:
                ex.run_script(path)
            except PyExc as e:
                spec.end(ex, e)
                return
            spec.end(ex, None)
        tasks.append(Task('tools/%s.py' % name, spec, entry, target=path))
    return tasks


# -- the client tools --------------------------------------------------------------------------------------

VALUE = pyvc.O
SHA1 = z3.Function('sha1', BYTES, BYTES)
DER = z3.Function('der', VALUE, BYTES)
OCT = z3.Function('octets', VALUE, BYTES)
NUM = z3.Function('number', VALUE, INT)
OIDC = z3.Function('identifier', VALUE, INT)
UNUSED = z3.Function('unused.bits', VALUE, INT)
BITS = z3.Function('bit.octets', VALUE, BYTES)
BITINT = z3.Function('bits.as.octets', VALUE, BYTES)
CHOSEN = z3.Function('chosen', VALUE, INT)
COUNT = z3.Function('count', VALUE, INT)


def asn1_error():
    from pyasn1.error import PyAsn1Error
    return PyExc(PyAsn1Error)


class RV(Obj):
    """a value that was decoded, or a component of one; proto is its (real) schema object"""

    def __init__(self, t, proto, absent=()):
        self.t, self.proto, self.absent = t, proto, absent      # absent: conditions for presence

    def need(self, ex):
        """using the value of a component that is not there fails"""
        for c in self.absent:
            if not ex.branch(c):
                raise asn1_error()

    def kindof(self, *names):
        from pyasn1.type import univ
        return isinstance(self.proto, tuple(getattr(univ, n) for n in names))

    def component(self, ex, name, f='.'):
        from pyasn1.type import univ
        if self.kindof('SequenceOf', 'SetOf'):
            if isinstance(name, Sym) or not isinstance(name, int) or name < 0:
                raise Unsupported('element %r' % (name,))
            return RV(z3.Function('element', VALUE, INT, VALUE)(self.t, name), self.proto.componentType,
                      self.absent + (COUNT(self.t) > name,))
        if not self.kindof('Sequence', 'Set', 'Choice') or not self.kindof('SequenceAndSetBase'):
            raise Unsupported('component of a %s' % type(self.proto).__name__)
        nts = self.proto.componentType
        if isinstance(name, int) and not isinstance(name, bool):
            if not 0 <= name < len(nts):
                raise asn1_error()
            nt, i = nts[name], name
        elif isinstance(name, str):
            try:
                i = nts.getPositionByName(name)
            except Exception as exc:
                raise PyExc(type(exc), exc)
            nt = nts[i]
        else:
            raise Unsupported('component %r' % (name,))
        absent = self.absent
        t = z3.Function('component.' + nt.name, VALUE, VALUE)(self.t)
        if self.kindof('Choice'):
            absent += (CHOSEN(self.t) == i,)
        elif nt.isOptional:
            absent += (z3.Function('present.' + nt.name, VALUE, BOOL)(self.t),)
        return RV(t, nt.asn1Object, absent)

    def getitem(self, ex, i):
        return self.component(ex, i)

    def iter(self, ex):
        if not self.kindof('SequenceOf', 'SetOf'):
            raise Unsupported('iteration')
        n = COUNT(self.t)
        ex.fact(n >= 0)
        return VIter(n, lambda i: RV(z3.Function('element', VALUE, INT, VALUE)(self.t, i), self.proto.componentType,
                                     self.absent))

    def len(self, ex):
        self.need(ex)
        if not self.kindof('SequenceOf', 'SetOf'):
            raise Unsupported('len')
        ex.fact(COUNT(self.t) >= 0)
        return Sym(COUNT(self.t), 'int')

    def truth(self, ex):
        if self.kindof('SequenceOf', 'SetOf'):
            return Sym(z3.And(*(self.absent + (COUNT(self.t) > 0,))), 'bool')
        if self.kindof('Sequence', 'Set'):
            raise Unsupported('truth of a record')
        self.need(ex)
        if self.kindof('Integer', 'Enumerated'):
            return Sym(NUM(self.t) != 0, 'bool')
        if self.kindof('ObjectIdentifier'):
            return True
        raise Unsupported('truth')

    def attr(self, ex, name):
        if name in ('isValue', 'hasValue'):
            return Sym(z3.And(*self.absent), 'bool') if name == 'isValue' else Bound(self, name)
        if name in ('getComponentByName', 'getComponentByPosition', 'getName', 'prettyPrint', 'asOctets', 'asTuple',
                    'getComponent'):
            return Bound(self, name)
        raise Unsupported('decoded.%s' % name)

    def callm(self, ex, name, args, kw):
        if kw:
            raise Unsupported('decoded.%s' % name)
        if name in ('getComponentByName', 'getComponentByPosition') and len(args) == 1:
            return self.component(ex, args[0])
        if name == 'hasValue':
            return Sym(z3.And(*self.absent), 'bool')
        if name == 'getName' and self.kindof('Choice'):
            self.need(ex)
            return ChoiceName(self)
        if name == 'prettyPrint':
            return self
        if name == 'asOctets':
            self.need(ex)
            if self.kindof('OctetString'):
                return Sym(OCT(self.t), 'bytes')
            if self.kindof('BitString'):
                ex.fact(z3.Implies(UNUSED(self.t) == 0, BITINT(self.t) == BITS(self.t)))
                return Sym(BITINT(self.t), 'bytes')
        raise Unsupported('decoded.%s' % name)

    def eq(self, ex, o):
        from pyasn1.type import univ
        self.need(ex)
        if isinstance(o, RV):
            o.need(ex)
            return Sym(self.t == o.t, 'bool')
        if self.kindof('ObjectIdentifier') and isinstance(o, (univ.ObjectIdentifier, tuple)):
            return Sym(OIDC(self.t) == ex.spec.codes(o), 'bool')
        if self.kindof('Integer', 'Enumerated') and isinstance(o, (int, univ.Integer)):
            return Sym(NUM(self.t) == int(o), 'bool')
        if o is None or self.kindof('Integer', 'Enumerated') and isinstance(o, str):
            return False
        raise Unsupported('comparison of a decoded value')

    def encode_value(self, ex):
        """contents octets of a bit string: the number of unused bits, then the bits"""
        self.need(ex)
        if not self.kindof('BitString'):
            raise Unsupported('encoding of the value alone')
        ex.fact(z3.And(UNUSED(self.t) >= 0, UNUSED(self.t) <= 7))
        return (Sym(z3.Concat(z3.Unit(UNUSED(self.t)), BITS(self.t)), 'bytes'), False, True)


class ChoiceName(Obj):
    """name of the chosen alternative"""

    def __init__(self, v):
        self.v = v

    def eq(self, ex, o):
        if not isinstance(o, str):
            return False
        nts = self.v.proto.componentType
        for i in range(len(nts)):
            if nts[i].name == o:
                return Sym(CHOSEN(self.v.t) == i, 'bool')
        return False


class Encoded(Obj):
    """octets of an object that was built"""

    def __init__(self, rules, tree):
        self.rules, self.tree = rules, tree

    def truth(self, ex):
        return True


class Digest(Obj):
    def __init__(self, acc):
        self.acc = acc

    def attr(self, ex, name):
        if name not in ('update', 'digest', 'copy'):
            raise Unsupported('digest.%s' % name)
        return Bound(self, name)

    def callm(self, ex, name, args, kw):
        if kw:
            raise Unsupported('digest options')
        if name == 'update':
            self.acc = z3.Concat(self.acc, ex.spec.octet_term(ex, args[0]))
            return None
        if name == 'copy':
            return Digest(self.acc)
        return Sym(SHA1(z3.simplify(self.acc)), 'bytes')


class HeapChange(object):
    """a real object may have changed"""
    born = -1


class EncodeValue(Obj):
    """contract of BitStringEncoder.encodeValue"""

    def __init__(self, name):
        self.name = name

    def call(self, ex, args, kw):
        if kw or len(args) != 3 or args[1] is not None or not isinstance(args[0], RV):
            raise Unsupported('encodeValue')
        return args[0].encode_value(ex)


class Client(Spec):
    """what the two client tools share: real objects of the library under construction, decoded
    values, codecs"""
    ARGC = 2
    track_ints = True

    def setup(self, ex):
        from pyasn1.type import univ, base
        from pyasn1.codec.der import decoder, encoder
        from pyasn1.codec.ber import decoder as bdec, encoder as benc
        from pyasn1.codec.cer import decoder as cdec, encoder as cenc
        self.univ, self.base = univ, base
        self.codes = Codes()
        self.bitenc = {x.__dict__.get('BitStringEncoder') for x in (benc, encoder, cenc)} - {None}
        self.objs = [(decoder.decode, 'DER', self.decode), (bdec.decode, 'BER', self.decode),
                     (cdec.decode, 'CER', self.decode), (encoder.encode, 'DER', self.encode_),
                     (benc.encode, 'BER', self.encode_), (cenc.encode, 'CER', self.encode_)]
        for o, rules, h in self.objs:
            ex.contracts[id(o)] = lambda ex, a, k, r=rules, h=h: h(ex, a, k, r)
        import hashlib
        ex.contracts[id(hashlib.sha1)] = self.sha1
        ex.contracts[id(hashlib.new)] = self.newhash
        ex.contracts[id(sys.exit)] = self.exit
        self.setup2(ex)

    def exit(self, ex, args, kw):
        raise PyExc(SystemExit, args[0] if args else None)

    def begin(self, ex):
        self.stdin, self.stdout, self.stderr = Stream(), Out(False), Out(True)
        self.syms = {}
        self.keepalive = []
        ex.ghost.update({'failed': False, 'sent': 0, 'reported': 0})
        n = [self.ARGC, self.ARGC - 1, self.ARGC + 1][ex.choose(3)]
        ex.ghost['argc'] = n
        self.argv = [self.name] + [Sym(z3.Const('argument%d' % i, S), 'str') for i in range(1, n)]

    def native_attr(self, ex, o, name):
        if o is sys:
            if name == 'argv':
                return (VList(ex, items=list(self.argv)),)
            if name in ('stdin', 'stdout', 'stderr'):
                return (getattr(self, name),)
            if name in ('exit', 'version_info', 'maxsize', 'platform', 'version'):
                return None
            raise Unsupported('sys.%s' % name)
        return None

    def allowed(self, f):
        m = getattr(f, '__module__', None) or ''
        return Spec.allowed(self, f) or f in self.bitenc

    def base_method(self, ex, inst, cls, name):
        if cls in self.bitenc and name == 'encodeValue':
            return EncodeValue(name)
        return None

    def isinstance(self, ex, v, t):
        if isinstance(v, RV):
            ts = t if isinstance(t, tuple) else (t,)
            return any(isinstance(x, type) and isinstance(v.proto, x) for x in ts)
        return None

    def to_int(self, ex, v):
        if isinstance(v, RV) and v.kindof('Integer', 'Enumerated'):
            v.need(ex)
            return (Sym(NUM(v.t), 'int'),)
        return None

    # octets
    def octet_term(self, ex, v):
        if isinstance(v, bytes) or isinstance(v, Sym) and v.ty == 'bytes':
            return ex.term(v, 'bytes')
        if isinstance(v, RV) and v.kindof('OctetString'):
            v.need(ex)
            return OCT(v.t)
        if isinstance(v, str) or isinstance(v, Sym) and v.ty == 'str':
            raise PyExc(TypeError)
        raise Unsupported('octets of %r' % (v,))

    def sha1(self, ex, args, kw):
        if set(kw) - {'usedforsecurity'} or len(args) > 1:
            raise Unsupported('sha1 options')
        return Digest(self.octet_term(ex, args[0]) if args else EMPTY)

    def newhash(self, ex, args, kw):
        if not args or not isinstance(args[0], str) or args[0].lower() != 'sha1':
            raise Unsupported('digest %r' % (args[:1],))
        return self.sha1(ex, args[1:], kw)

    # objects under construction: real ones; symbolic components are stand-ins of the right type
    def stand_in(self, ex, proto, meaning):
        if isinstance(proto, self.base.SimpleAsn1Type):
            # an object of its own (clone() of a simple type is the type itself) that counts as a value
            o = object.__new__(type(proto))
            o.__dict__.update(proto.__dict__)
            o._value = '<symbolic>'
        else:
            o = proto.clone()
        self.syms[id(o)] = meaning
        self.keepalive.append(o)
        return o

    def lift(self, v):
        return self.syms[id(v)][1] if id(v) in self.syms and self.syms[id(v)][0] == 'decoded' else v

    def lower(self, ex, v, proto):
        """value -> something the real library takes as a component of type proto"""
        if isinstance(v, RV):
            return self.stand_in(ex, v.proto, ('decoded', v))
        if isinstance(v, Sym):
            if proto is None or not isinstance(proto, self.base.SimpleAsn1Type):
                raise asn1_error()
            ok = isinstance(proto, (self.univ.OctetString, self.univ.ObjectIdentifier)) if v.ty == 'str' else \
                isinstance(proto, self.univ.OctetString) if v.ty == 'bytes' else \
                v.ty == 'int' and isinstance(proto, self.univ.Integer)
            if not ok:
                raise Unsupported('%s as %s' % (v.ty, type(proto).__name__))
            if v.ty == 'str':
                if not ex.branch(z3.Function('valid.' + type(proto).__name__, S, BOOL)(v.t)):
                    ex.ghost['failed'] = True
                    raise asn1_error()
            return self.stand_in(ex, proto, (v.ty, v.t))
        if isinstance(v, Other):
            raise Unsupported('text as a component')
        return v

    SETTERS = ('setComponentByName', 'setComponentByPosition', '__setitem__')
    GETTERS = ('getComponentByName', 'getComponentByPosition', '__getitem__', 'getComponent')

    def native_method(self, ex, o, name, args, kw):
        if isinstance(o, tuple(self.bitenc)) and name == 'encodeValue':
            return (EncodeValue(name).call(ex, args, kw),)
        if not isinstance(o, self.base.Asn1Item):
            return None
        if id(o) in self.syms:
            if name == 'prettyPrint':
                return (Other('text'),)
            raise Unsupported('%s of a symbolic component' % name)
        if not isinstance(o, self.base.ConstructedAsn1Type):
            return None
        if name == 'prettyPrint':
            return (Other('text'),)
        if name == 'append' and isinstance(o, self.univ.SequenceOfAndSetOfBase) and len(args) == 1 and not kw:
            name, args = '__setitem__', [0 if o._componentValues is self.base.noValue else len(o._componentValues), args[0]]
        if name not in self.SETTERS + self.GETTERS + ('getName', 'isValue', 'clear', '__len__'):
            raise Unsupported('record.%s' % name)
        args = list(args)
        if name in self.SETTERS:
            kw = dict(kw)
            if 'value' in kw:
                args.append(kw.pop('value'))
            if len(args) > 2 or kw or not args or not ex.concrete(args[0]):
                raise Unsupported('record.%s' % name)
            if len(args) == 2:
                proto = None
                try:
                    if isinstance(o.componentType, self.base.Asn1Item):
                        proto = o.componentType
                    elif isinstance(args[0], str):
                        proto = o.componentType[args[0]].asn1Object if args[0] in o.componentType else None
                    else:
                        proto = o.componentType[args[0]].asn1Object
                except Exception:
                    proto = None
                args[1] = self.lower(ex, args[1], proto)
        if not all(ex.isnative(a) for a in args) or kw:
            raise Unsupported('record.%s' % name)
        # a loop may not do this: its invariants say nothing about the objects under construction
        ex.mutated(HeapChange())
        try:
            r = getattr(o, name)(*[ex.native(a) for a in args])
        except Exception as exc:
            raise PyExc(type(exc), exc)
        return (self.lift(r),)

    def native_call(self, ex, f, args, kw):
        if isinstance(f, type) and issubclass(f, self.base.SimpleAsn1Type) and not kw and len(args) == 1 \
                and isinstance(args[0], (Sym, RV)):
            try:
                proto = f()
            except Exception as exc:
                raise PyExc(type(exc), exc)
            if isinstance(args[0], RV):
                args[0].need(ex)
                return (self.stand_in(ex, proto, ('decoded', args[0])),)
            return (self.lower(ex, args[0], proto),)
        return None

    def tree(self, o, path=(), out=None):
        """the components an encoder writes: {path: leaf}"""
        out = {} if out is None else out
        if id(o) in self.syms:
            out[path] = self.syms[id(o)]
        elif isinstance(o, self.univ.Choice):
            try:
                n = o.getName()
            except Exception:
                raise asn1_error()
            self.tree(o.getComponent(), path + (n,), out)
        elif isinstance(o, self.univ.SequenceAndSetBase):
            vals = o._componentValues
            vals = [] if vals is self.base.noValue else list(vals)
            for i in range(len(o.componentType)):
                nt = o.componentType[i]
                v = vals[i] if i < len(vals) else self.base.noValue
                if v is self.base.noValue:
                    if nt.isOptional or nt.isDefaulted:
                        continue
                    v = nt.asn1Object.clone()
                elif nt.isOptional and not self.filled(v):
                    continue
                if nt.isDefaulted and id(v) not in self.syms and not isinstance(v, self.base.ConstructedAsn1Type) \
                        and v == nt.asn1Object:
                    continue
                self.tree(v, path + (nt.name,), out)
        elif isinstance(o, self.univ.SequenceOfAndSetOfBase):
            vals = o._componentValues
            if vals is self.base.noValue:
                raise asn1_error()
            out[path + ('#',)] = ('real', len(vals))
            for i in sorted(vals):
                self.tree(vals[i], path + (i,), out)
        else:
            if not o.isValue and not isinstance(o, self.univ.Null):
                raise asn1_error()
            out[path] = ('real', o)
        return out

    def filled(self, v):
        """would isValue hold, symbolic components counted as values"""
        if id(v) in self.syms:
            return True
        if isinstance(v, self.univ.Choice):
            return v._currentIdx is not None and self.filled(v._componentValues[v._currentIdx])
        if isinstance(v, self.univ.SequenceAndSetBase):
            vals = v._componentValues
            if vals is self.base.noValue:
                return False
            for i in range(len(v.componentType)):
                nt = v.componentType[i]
                x = vals[i] if i < len(vals) else self.base.noValue
                if nt.isOptional or nt.isDefaulted:
                    continue
                if x is self.base.noValue or not self.filled(x):
                    return False
            return True
        if isinstance(v, self.univ.SequenceOfAndSetOfBase):
            return v._componentValues is not self.base.noValue and all(self.filled(x) for x in v._componentValues.values())
        return v.isValue

    # codecs
    def decode(self, ex, args, kw, rules):
        kw = dict(kw)
        spec = kw.pop('asn1Spec', args[1] if len(args) > 1 else None)
        if kw or len(args) > 2 or not args or not isinstance(spec, self.base.Asn1Item):
            raise Unsupported('decoder options')
        if isinstance(args[0], (bytes, str)) and not args[0]:
            ex.ghost['failed'] = True
            raise asn1_error()
        d = self.octet_term(ex, args[0])
        n = '%s.%s' % (rules, typename(type(spec)))
        if not ex.branch(z3.Function('decodes.' + n, BYTES, BOOL)(d)):
            ex.ghost['failed'] = True
            raise asn1_error()
        return (RV(z3.Function('decoded.' + n, BYTES, VALUE)(d), type(spec)()),
                Sym(z3.Function('rest.' + n, BYTES, BYTES)(d), 'bytes'))

    def encode_(self, ex, args, kw, rules):
        if kw or len(args) != 1:
            raise Unsupported('encoder options')
        v = args[0]
        if isinstance(v, RV):
            v.need(ex)
            if rules != 'DER':
                return Sym(z3.Function(rules, VALUE, BYTES)(v.t), 'bytes')
            return Sym(DER(v.t), 'bytes')
        if isinstance(v, self.base.Asn1Item):
            if id(v) in self.syms:
                raise Unsupported('encoding of a symbolic component')
            return Encoded(rules, self.tree(v))
        raise Unsupported('encoding of %r' % (v,))

    def at(self, ex, tree, path, what):
        """oblige: the leaf at path is what(leaf kind, leaf)"""
        pass

    def real(self, tree, path, value):
        k = tree.get(path)
        return k is not None and k[0] == 'real' and (k[1] == value if path[-1] == '#' else bool(k[1] == value))


def certificate_pair():
    return (CERT,)


class OcspClient(Client):
    name = 'ocspclient'
    ARGC = 2
    TYPES = ('rfc2459.Certificate',)

    def setup2(self, ex):
        pem = importlib.import_module('pyasn1_modules.pem')
        ex.contracts[id(getattr(pem, 'readPemBlocksFromFile', None))] = self.block
        ex.contracts[id(getattr(pem, 'readPemFromFile', None))] = self.one
        import urllib.request
        ex.contracts[id(urllib.request.Request)] = self.request
        ex.contracts[id(urllib.request.urlopen)] = self.urlopen
        self.cls = importlib.import_module('pyasn1_modules.rfc2459').Certificate
        r = importlib.import_module('pyasn1_modules.rfc2560')
        self.basic = r.id_pkix_ocsp_basic
        self.rspcls, self.basiccls = r.OCSPResponse, r.BasicOCSPResponse
        self.sha1oid = (1, 3, 14, 3, 2, 26)
        self.blocks = []

    def begin(self, ex):
        Client.begin(self, ex)
        self.blocks = []

    def one(self, ex, args, kw):
        if kw or len(args) != 1:
            raise Unsupported('readPemFromFile with markers')
        return self.block(ex, [args[0], CERT], {})[1]

    def block(self, ex, args, kw):
        if kw or len(args) != 2 or args[0] is not self.stdin:
            raise Unsupported('block reader')
        p = ex.iterable(args[1])
        ok = isinstance(p, list) and tuple(p) == CERT
        ex.oblige('it reads certificates', ok, repr(p))
        if not ok:
            raise pyvc.PathEnd()
        k = ex.choose(5)
        if k < 4:
            # there is no certificate to ask about
            ex.ghost['failed'] = True
        if k == 0:
            raise PyExc(binascii.Error)
        if k == 1:
            return (-1, '')
        if k == 2:
            return (0, '')
        if k == 3:
            self.blocks.append(EMPTY)
            return (0, b'')
        d = z3.Const('certificate%d' % len(self.blocks), BYTES)
        ex.assume(z3.Length(d) > 0)
        self.blocks.append(d)
        return (0, Sym(d, 'bytes'))

    def cert(self, i):
        return RV(z3.Function('decoded.DER.rfc2459.Certificate', BYTES, VALUE)(self.blocks[i]), self.cls())

    def path(self, ex, v, *names):
        for n in names:
            v = v.component(ex, n)
        return v

    def request(self, ex, args, kw):
        a = dict(zip(('url', 'data', 'headers'), args))
        a.update(kw)
        if len(args) > 3 or set(a) - {'url', 'data', 'headers', 'method'} or a.get('method', 'POST') != 'POST':
            raise Unsupported('HTTP request options')
        return HttpRequest(a.get('url'), a.get('data'))

    def urlopen(self, ex, args, kw):
        if set(kw) - {'data', 'timeout'} or not args or len(args) > 2:
            raise Unsupported('urlopen options')
        r = args[0]
        data = kw.get('data', args[1] if len(args) > 1 else None)
        if isinstance(r, HttpRequest):
            url, data = r.url, data if data is not None else r.data
        else:
            url = r
        e = ex.equal(url, self.argv[1]) if isinstance(url, (str, Sym)) else False
        ex.oblige('the request goes to the given responder', e if isinstance(e, bool) else e.t)
        ex.oblige('one request is sent', ex.ghost['sent'] == 0)
        ex.ghost['sent'] += 1
        self.check_request(ex, data)
        if ex.choose(2):
            ex.ghost['failed'] = True
            import urllib.error
            raise PyExc(urllib.error.URLError)
        return HttpResponse()

    def check_request(self, ex, data):
        ok = isinstance(data, Encoded)
        ex.oblige('an encoded request is sent', ok, repr(data))
        ex.oblige('both certificates were read', len(self.blocks) == 2)
        if not ok or len(self.blocks) != 2:
            raise pyvc.PathEnd()
        ex.oblige('the request is encoded by the distinguished rules', data.rules == 'DER')
        t = dict(data.tree)
        tbs = ('tbsRequest',)
        v = t.pop(tbs + ('version',), None)
        ex.oblige('the request is of version 1', v is None or v[0] == 'real' and int(v[1]) == 0)
        n = t.pop(tbs + ('requestList', '#'), None)
        ex.oblige('the request has a single entry', n == ('real', 1), repr(n))
        c = tbs + ('requestList', 0, 'reqCert')
        a = t.pop(c + ('hashAlgorithm', 'algorithm'), None)
        ex.oblige('the digest is identified as SHA-1', a is not None and a[0] == 'real' and tuple(a[1]) == self.sha1oid)
        p = t.pop(c + ('hashAlgorithm', 'parameters'), None)
        ex.oblige('the digest has no parameters', p is None or p[0] == 'real' and bytes(p[1]) == b'\x05\x00')
        issuer, user = self.cert(0), self.cert(1)
        name = self.path(ex, issuer, 'tbsCertificate', 'subject')
        uname = self.path(ex, user, 'tbsCertificate', 'issuer')
        key = self.path(ex, issuer, 'tbsCertificate', 'subjectPublicKeyInfo', 'subjectPublicKey')
        serial = self.path(ex, user, 'tbsCertificate', 'serialNumber')
        ex.oblige('the issuer of the user certificate is the given issuer', name.t == uname.t)

        def octets(path, what, expected):
            x = t.pop(path, None)
            ex.oblige(what, x[1] == expected if x is not None and x[0] == 'bytes' else False, repr(x)[:200])
        octets(c + ('issuerNameHash',), 'the issuer name hash is SHA-1 of the encoded name', SHA1(DER(uname.t)))
        octets(c + ('issuerKeyHash',), 'the issuer key hash is SHA-1 of the public key bits', SHA1(BITS(key.t)))
        s = t.pop(c + ('serialNumber',), None)
        good = False
        if s is not None and s[0] == 'decoded':
            good = s[1].t == serial.t
        elif s is not None and s[0] == 'int':
            good = s[1] == NUM(serial.t)
        ex.oblige('the serial number is that of the user certificate', good, repr(s)[:200])
        ex.oblige('the request has no other component', not t, repr(sorted(t, key=repr))[:300])

    def response(self, ex):
        """what is to be reported: ([conditions], (certificate identifier, status, produced, this))"""
        rules = 'DER'
        d = z3.Const('response', BYTES)
        top = RV(z3.Function('decoded.DER.rfc2560.OCSPResponse', BYTES, VALUE)(d), self.rspcls())
        status = self.path(ex, top, 'responseStatus')
        rb = self.path(ex, top, 'responseBytes')
        typ, content = self.path(ex, rb, 'responseType'), self.path(ex, rb, 'response')
        b = RV(z3.Function('decoded.DER.rfc2560.BasicOCSPResponse', BYTES, VALUE)(OCT(content.t)), self.basiccls())
        data = self.path(ex, b, 'tbsResponseData')
        rs = self.path(ex, data, 'responses')
        first = self.path(ex, rs, 0)
        conds = [NUM(status.t) == 0] + list(content.absent) + [OIDC(typ.t) == self.codes(self.basic), COUNT(rs.t) > 0]
        ex.fact(COUNT(rs.t) >= 0)
        return conds, (self.path(ex, first, 'certID'), self.path(ex, first, 'certStatus'),
                       self.path(ex, data, 'producedAt'), self.path(ex, first, 'thisUpdate'))

    def on_print(self, ex, args, kw):
        if kw.get('file') is self.stderr:
            return None
        if set(kw) - {'file', 'end', 'sep', 'flush'} or kw.get('file') not in (None, self.stdout):
            raise Unsupported('print options')
        parts = []
        for a in args:
            parts += a.flat() if isinstance(a, Fmt) else [a]
        parts = [p for p in parts if isinstance(p, (RV, ChoiceName))]
        if not parts:
            return None
        if ex.ghost['sent'] == 0:
            return None
        ex.oblige('one report is made', ex.ghost['reported'] == 0)
        ex.ghost['reported'] += 1
        conds, (cid, status, produced, this) = self.response(ex)
        ex.oblige('only a successful basic response is reported', z3.And(conds))
        ex.oblige('the report has four parts', len(parts) == 4, repr(parts)[:200])
        if len(parts) != 4:
            return None

        def same(p, v):
            return p.t == v.t if isinstance(p, RV) else False
        serial = self.path(ex, cid, 'serialNumber')
        a, b = same(parts[0], serial), same(parts[0], cid)
        ex.oblige('the certificate identifier is that of the first single response', z3.Or(a, b) if a is not False else False)
        x = parts[1].v if isinstance(parts[1], ChoiceName) else parts[1]
        ex.oblige('the status is that of the first single response', same(x, status))
        ex.oblige('the production time is that of the response', same(parts[2], produced))
        ex.oblige('the update time is that of the first single response', same(parts[3], this))
        return None

    def end(self, ex, exc):
        g = ex.ghost
        if g['argc'] < self.ARGC:
            ex.oblige('nothing is sent without a responder', g['sent'] == 0)
        if g['argc'] != self.ARGC:
            return
        if exc is None or isinstance(exc.cls, type) and issubclass(exc.cls, SystemExit) and exc.value in (None, 0):
            ex.oblige('it ends well only after a report', g['sent'] == 1 and g['reported'] == 1)
            return
        why = [z3.BoolVal(g['failed'])]
        if len(self.blocks) < 2:
            pass
        elif not g['sent']:
            name = self.path(ex, self.cert(0), 'tbsCertificate', 'subject')
            uname = self.path(ex, self.cert(1), 'tbsCertificate', 'issuer')
            why.append(name.t != uname.t)
        else:
            conds, _ = self.response(ex)
            why.append(z3.Not(z3.And(conds)))
        ex.oblige('it refuses only what is to be refused', z3.Or(why),
                  '%s at line %s' % (getattr(exc.cls, '__name__', exc.cls), ex.where))


class HttpRequest(Obj):
    def __init__(self, url, data):
        self.url, self.data = url, data

    def attr(self, ex, name):
        if name in ('add_header',):
            return Bound(self, name)
        raise Unsupported('request.%s' % name)

    def callm(self, ex, name, args, kw):
        return None


class HttpResponse(Obj):
    def attr(self, ex, name):
        if name in ('read', 'close', '__enter__', '__exit__'):
            return Bound(self, name)
        raise Unsupported('HTTP response.%s' % name)

    def callm(self, ex, name, args, kw):
        if name == '__enter__':
            return self
        if name in ('close', '__exit__'):
            return None
        if args or kw or ex.ghost.get('read'):
            raise Unsupported('HTTP response.read')
        ex.ghost['read'] = True
        d = z3.Const('response', BYTES)
        return Sym(d, 'bytes')


class Socket(Obj):
    def attr(self, ex, name):
        if name in ('sendto', 'recvfrom', 'close', 'settimeout', 'recv', 'connect', 'send', 'sendall', '__enter__',
                    '__exit__'):
            return Bound(self, name)
        raise Unsupported('socket.%s' % name)

    def callm(self, ex, name, args, kw):
        if kw:
            raise Unsupported('socket.%s' % name)
        sp = ex.spec
        if name == '__enter__':
            return self
        if name in ('close', 'settimeout', '__exit__'):
            return None
        if name == 'connect' and len(args) == 1:
            sp.peer = args[0]
            return None
        if name in ('send', 'sendall', 'sendto') and len(args) == (2 if name == 'sendto' else 1):
            sp.sent(ex, args[0], args[1] if name == 'sendto' else sp.peer)
            return None
        if name in ('recvfrom', 'recv') and len(args) == 1:
            ex.oblige('an answer is awaited only after the message is sent', ex.ghost['sent'] > 0)
            if ex.choose(2):
                ex.ghost['failed'] = True
                raise PyExc(OSError)
            d = ex.fresh('bytes', 'reply')
            return (d, ('peer', 161)) if name == 'recvfrom' else d
        raise Unsupported('socket.%s' % name)


class SnmpGet(Client):
    name = 'snmpget'
    ARGC = 4

    def setup2(self, ex):
        import socket
        ex.contracts[id(socket.socket)] = self.mksocket

    def begin(self, ex):
        Client.begin(self, ex)
        self.peer = None

    def native_attr(self, ex, o, name):
        if isinstance(o, Socket):
            return None
        return Client.native_attr(self, ex, o, name)

    def mksocket(self, ex, args, kw):
        import socket
        args = list(args) + [kw[k] for k in ('family', 'type') if k in kw]
        if len(args) < 2 or args[0] != socket.AF_INET or args[1] != socket.SOCK_DGRAM:
            raise Unsupported('socket options')
        return Socket()

    def sent(self, ex, data, peer):
        g = ex.ghost
        ex.oblige('one message is sent', g['sent'] == 0)
        g['sent'] += 1
        ok = isinstance(peer, tuple) and len(peer) == 2
        if ok:
            e = ex.equal(peer[0], self.argv[2])
            ex.oblige('the message goes to the given host', e if isinstance(e, bool) else e.t)
            ex.oblige('the message goes to the SNMP port', peer[1] == 161)
        else:
            ex.oblige('the message goes to the given host', False)
        ok = isinstance(data, Encoded)
        ex.oblige('an encoded message is sent', ok, repr(data))
        if not ok:
            raise pyvc.PathEnd()
        ex.oblige('the message is encoded by the basic rules', data.rules in ('BER', 'DER'))
        t = dict(data.tree)

        def real(path, v):
            x = t.pop(path, None)
            return x is not None and x[0] == 'real' and int(x[1]) == v

        def text(path, v):
            x = t.pop(path, None)
            return x[1] == v.t if x is not None and x[0] == 'str' else False
        ex.oblige('the message is of version 1', real(('version',), 0))
        ex.oblige('the community is the given one', text(('community',), self.argv[1]))
        p = ('data', 'get-request')
        r = t.pop(p + ('request-id',), None)
        ex.oblige('the message is a GET', r is not None)
        ex.oblige('no error is indicated', real(p + ('error-status',), 0) and real(p + ('error-index',), 0))
        v = p + ('variable-bindings',)
        ex.oblige('one variable is asked for', t.pop(v + ('#',), None) == ('real', 1))
        ex.oblige('the variable is the given one', text(v + (0, 'name'), self.argv[3]))
        e = t.pop(v + (0, 'value', 'simple', 'empty'), None)
        ex.oblige('the variable has no value', e is not None and e[0] == 'real')
        ex.oblige('the message has no other component', not t, repr(sorted(t, key=repr))[:300])

    def end(self, ex, exc):
        g = ex.ghost
        if g['argc'] < self.ARGC:
            ex.oblige('nothing is sent without arguments', g['sent'] == 0)
        if g['argc'] != self.ARGC:
            return
        if exc is None or isinstance(exc.cls, type) and issubclass(exc.cls, SystemExit) and exc.value in (None, 0):
            ex.oblige('it ends well only after it has sent the message', g['sent'] == 1)
            return
        ex.oblige('it fails only on a bad argument or no answer', bool(g['failed']),
                  '%s at line %s' % (getattr(exc.cls, '__name__', exc.cls), ex.where))


def c14_tasks(repo):
    tasks = []
    for spec in (OcspClient(), SnmpGet()):
        path = os.path.join(repo, 'tools', spec.name + '.py')

        def entry(ex, spec=spec, path=path):
            spec.begin(ex)
            try:
                ex.run_script(path)
            except PyExc as e:
                spec.end(ex, e)
                return
            spec.end(ex, None)
        tasks.append(Task('tools/%s.py' % spec.name, spec, entry, target=path))
    return tasks


TASKS = {'C01': c01_tasks, 'C02': c02_tasks, 'C03': c03_tasks, 'C13': c13_tasks, 'C14': c14_tasks}


if __name__ == '__main__':
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    sys.path.append('/opt/venv/lib/python3.12/site-packages')
    sys.dont_write_bytecode = True
    import time
    for t in TASKS[sys.argv[1]](os.environ.get('VERIF_REPO', '/repo')):
        t0 = time.time()
        try:
            ex, obs = t.run(os.environ.get('VERIF_REPO', '/repo'))
        except Unsupported as e:
            print(t.name, 'UNSUPPORTED', e)
            if os.environ.get('TB'):
                raise
            continue
        print(t.name, '%.1f s' % (time.time() - t0), {k: v for k, v in ex.stats.items() if k not in ('smt',)})
        for k, o in obs.items():
            print('  ', 'FAIL' if o['fail'] else 'ok  ', k, o['paths'], str(o['fail'][:1])[:300])
        if os.environ.get('INV'):
            for k, L in ex.loops.items():
                for l in L.locs:
                    print(k, [(n, s) for n, s in l], len(L.inv[l]))
                    print('      ', [c for c in L.inv[l]][:60])
