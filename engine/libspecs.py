"""Contracts on the library the repository builds on, discharged against its installed source.

The other specifications use pyasn1 through contracts (fnspecs.OidVal: identifiers; con.py: what a constraint
tree accepts).  Here those contracts are verified against the functions of pyasn1 itself, executed by pyvc.py like
the repository's own: for every value, every tuple of operands, every outcome of a nested constraint.

Left out: the texts of error messages (their formatting is assumed not to fail), __hash__ and set membership.
"""
import importlib
import os
import sys

import z3

import pyvc
from pyvc import BYTES, Ex, Obj, PyExc, Spec, Sym, Unsupported, VDict, VExc, VIter, VList
from fnspecs import ARCS, INT, Task

ARCTY = ('seq', 'int')


def libroot():
    import pyasn1
    return os.path.dirname(os.path.dirname(os.path.realpath(pyasn1.__file__)))


class LibEx(Ex):
    def e_BinOp(self, e):
        if isinstance(e.op, pyvc.ast.Mod) and isinstance(e.left, pyvc.ast.Constant) and isinstance(e.left.value, str):
            return pyvc.POISON          # a message
        return Ex.e_BinOp(self, e)

    def compare(self, op, a, b):
        inf = float('inf')
        if isinstance(b, float) and b in (inf, -inf) and self.ty(a) == 'int':
            return {'Lt': b > 0, 'LtE': b > 0, 'Gt': b < 0, 'GtE': b < 0}.get(op, NotImplemented)
        return Ex.compare(self, op, a, b)

    def b_iter(self, args, kw):
        # an iterator over a tuple, read once by the one who asked for it
        return args[0] if len(args) == 1 and isinstance(args[0], Sym) else Ex.b_iter(self, args, kw)


class LibTask(Task):
    def run(self, repo):
        ex = LibEx(libroot(), self.spec)
        error = importlib.import_module('pyasn1.error')
        for c in (error.PyAsn1Error, importlib.import_module('pyasn1.type.error').ValueConstraintError):
            ex.contracts[id(c)] = lambda ex, args, kw, c=c: VExc(c)
        ex.contracts[id(sys.exc_info)] = lambda ex, args, kw: (ex.handling[-1].cls, pyvc.POISON, pyvc.POISON)
        if hasattr(self.spec, 'setup'):
            self.spec.setup(ex)
        if self.setup:
            self.setup(ex)
        return ex, ex.verify(self.entry)


# -- constraints ------------------------------------------------------------------------------------------------------
#
# outcome of a constraint on a value: 0 accepted, 1 refused (ValueConstraintError), 2 any other error

class OtherError(Exception):
    pass


class Member(Obj):
    """constraint i of an arbitrary tuple of constraints"""

    def __init__(self, spec, i):
        self.spec, self.i = spec, i

    def call(self, ex, args, kw):
        return self.spec.ask(ex, self.i, args, kw)


class Field(Obj):
    """name of component i"""

    def __init__(self, i):
        self.i = i


class Record(Obj):
    """the value of a record: asked for its components"""

    def __init__(self, spec):
        self.spec = spec

    def callm(self, ex, name, args, kw):
        if name == 'get' and len(args) == 1 and not kw and isinstance(args[0], Field):
            return Part(args[0].i)
        raise Unsupported('value.' + name)


class Part(Obj):
    def __init__(self, i):
        self.i = i


class Value(Obj):
    """any value"""


class Self(Obj):
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def attr(self, ex, name):
        if name in self.attrs:
            return self.attrs[name]
        for k in self.cls.__mro__:
            if name in vars(k):
                f = vars(k)[name]
                if isinstance(f, pyvc.types.FunctionType):
                    return pyvc.Bound2(self, f)
                raise Unsupported('self.' + name)
        raise PyExc(AttributeError)

    def setattr(self, ex, name, v):
        self.attrs[name] = v

    def callm(self, ex, name, args, kw):
        raise Unsupported('self.' + name)


class Combined(Spec):
    """and / or / not / every component, over an arbitrary number of operands.

    The operands are asked in order, each with the value and index given, and none after the outcome is certain:
      and   accepted iff all are; otherwise the outcome of the first that does not accept
      or    accepted iff some operand accepts and those before it refuse; refused iff all refuse
      not   accepted iff all refuse; refused iff one accepts and those before it refuse"""
    N = z3.Int('operands')

    def __init__(self, cls, how):
        self.cls, self.how = cls, how
        # outcome of an operand after which the next is asked
        self.going = {'or': 'refused', 'not': 'refused'}.get(how, 'accepted')

    def setup(self, ex):
        ex.axioms = [self.N >= 0]

    def begin(self, ex):
        ex.ghost.update({'pos': Sym(z3.IntVal(0), 'int'), 'last': 'none'})
        self.value, self.idx = (Record(self) if self.how == 'with' else Value()), Value()

    def operands(self, ex):
        return VIter(self.N, lambda i: (Field(i), Member(self, i)) if self.how == 'with' else Member(self, i))

    def terms(self, ex):
        return [('operands', Sym(self.N, 'int'))]

    def isinstance(self, ex, v, t):
        if isinstance(v, Member):
            return issubclass(sys.modules['pyasn1.type.constraint'].AbstractConstraint, t)
        return None

    def ask(self, ex, i, args, kw):
        g = ex.ghost
        ex.oblige('the operands are asked in order, each once', ex.term(g['pos'], 'int') == i)
        if self.how == 'with':
            ok = len(args) == 1 and isinstance(args[0], Part) and not kw
            ex.oblige('each is asked about its own component', args[0].i == i if ok else False)
        else:
            ex.oblige('each is asked about the value', len(args) == 2 and args[0] is self.value and args[1] is self.idx and not kw)
        ex.oblige('none is asked once the outcome is certain', g['last'] in ('none', self.going))
        g['pos'] = Sym(z3.simplify(ex.term(g['pos'], 'int') + 1), 'int')
        g['last'] = ('accepted', 'refused', 'other')[ex.choose(3)]
        ex.events += 1
        if g['last'] == 'refused':
            raise PyExc(sys.modules['pyasn1.type.error'].ValueConstraintError)
        if g['last'] == 'other':
            raise PyExc(OtherError)
        return None

    def entry(self, ex):
        self.begin(ex)
        s = Self(self.cls, {'_values': self.operands(ex)})
        f = vars(self.cls)['_testValue']
        try:
            ex.call(f, [s, self.value, self.idx], {})
            out = 'accepted'
        except PyExc as e:
            out = 'refused' if isinstance(e.cls, type) and issubclass(e.cls, sys.modules['pyasn1.type.error'].ValueConstraintError) else 'other'
            ex.oblige('no error but those of its operands', out == 'refused' or e.cls is OtherError, repr(e.cls))
        last, all_ = ex.ghost['last'], ex.term(ex.ghost['pos'], 'int') == self.N
        # what is certain when the function ends
        if last == 'other':
            want = z3.BoolVal(out == 'other')
        elif self.how in ('and', 'with'):
            want = z3.And(out == last, z3.Or(last != 'accepted', all_)) if last != 'none' else z3.And(out == 'accepted', all_)
        elif self.how == 'or':
            want = z3.BoolVal(out == 'accepted') if last == 'accepted' else z3.And(out == 'refused', all_)
        else:
            want = z3.BoolVal(out == 'refused') if last == 'accepted' else z3.And(out == 'accepted', all_)
        ex.oblige('the outcome is that of the combination', want)


class Leaf(Spec):
    """one test: accepted iff `cond`, refused otherwise, and no other error"""

    def __init__(self, cls, make):
        self.cls, self.make = cls, make

    def entry(self, ex):
        attrs, value, cond = self.make(ex)
        s = Self(self.cls, attrs)
        f = next(vars(k)['_testValue'] for k in self.cls.__mro__ if '_testValue' in vars(k))
        try:
            ex.call(f, [s, value, None], {})
            ok = True
        except PyExc as e:
            ok = not issubclass(e.cls, sys.modules['pyasn1.type.error'].ValueConstraintError)
            ex.oblige('a value it refuses raises ValueConstraintError', not ok, repr(e.cls))
            ok = False
        ex.oblige('it accepts exactly the values of its meaning', cond if ok else z3.Not(cond))


class Sized(Obj):
    def __init__(self, n):
        self.n = n

    def len(self, ex):
        return Sym(self.n, 'int')


class Set_(Obj):
    """a set built from the operands: membership and inclusion are Python's"""
    MEMBER = z3.Function('member', INT, z3.BoolSort())

    def __init__(self, ex):
        self.member, self.over = ex.fresh('bool', 'member').t, ex.fresh('bool', 'superset').t

    def contains(self, ex, x):
        return Sym(self.member, 'bool')

    def callm(self, ex, name, args, kw):
        if name == 'issuperset' and len(args) == 1:
            return Sym(self.over, 'bool')
        raise Unsupported('set.' + name)


def range_(ex, size=False, lo=True, hi=True):
    a = ex.fresh('int', 'start').t if lo else None
    b = ex.fresh('int', 'stop').t if hi else None
    n = ex.fresh('int', 'n').t
    if size:
        ex.assume(n >= 0)
    inf = float('inf')
    cond = z3.And([c for c in (n >= a if lo else None, n <= b if hi else None) if c is not None] or [z3.BoolVal(True)])
    return ({'start': Sym(a, 'int') if lo else -inf, 'stop': Sym(b, 'int') if hi else inf},
            Sized(n) if size else Sym(n, 'int'), cond)


def member(ex, what):
    s = Set_(ex)
    return {'_set': s}, Value(), s.member if what == 'member' else s.over


class Call(Spec):
    """AbstractConstraint.__call__: no operands, no constraint; otherwise the outcome of _testValue"""

    def entry(self, ex):
        con = sys.modules['pyasn1.type.constraint'].AbstractConstraint
        empty = ex.choose(2) == 1
        asked = []
        value, idx = Value(), Value()

        class Test(Obj):
            def call(self, ex, args, kw):
                ex.oblige('the test is made once, on the value and index given',
                          not asked and len(args) == 2 and args[0] is value and args[1] is idx and not kw)
                asked.append(('accepted', 'refused', 'other')[ex.choose(3)])
                if asked[-1] == 'refused':
                    raise PyExc(sys.modules['pyasn1.type.error'].ValueConstraintError)
                if asked[-1] == 'other':
                    raise PyExc(OtherError)
        s = Self(con, {'_values': () if empty else (Value(),), '_testValue': Test()})
        try:
            ex.call(vars(con)['__call__'], [s, value, idx], {})
            out = 'accepted'
        except PyExc as e:
            out = 'refused' if issubclass(e.cls, sys.modules['pyasn1.type.error'].ValueConstraintError) else 'other'
        ex.oblige('without operands everything is accepted', not empty or out == 'accepted' and not asked)
        ex.oblige('the outcome is that of the test', empty or asked == [out])


def constraint_tasks(repo=None):
    c = importlib.import_module('pyasn1.type.constraint')
    importlib.import_module('pyasn1.error')
    out = []

    def add(cls, spec, tag=''):
        out.append(LibTask('pyasn1.type.constraint.%s%s' % (cls, tag), spec, spec.entry))
    add('AbstractConstraint.__call__', Call())
    for cls, how in (('ConstraintsIntersection', 'and'), ('ConstraintsUnion', 'or'), ('ConstraintsExclusion', 'not'),
                     ('WithComponentsConstraint', 'with'), ('ContainedSubtypeConstraint', 'and')):
        add(cls, Combined(getattr(c, cls), how))
    for tag, lo, hi in (('', True, True), (' (MIN..)', False, True), (' (..MAX)', True, False), (' (MIN..MAX)', False, False)):
        add('ValueRangeConstraint', Leaf(c.ValueRangeConstraint, lambda ex, lo=lo, hi=hi: range_(ex, False, lo, hi)), tag)
        add('ValueSizeConstraint', Leaf(c.ValueSizeConstraint, lambda ex, lo=lo, hi=hi: range_(ex, True, lo, hi)), tag)
    add('SingleValueConstraint', Leaf(c.SingleValueConstraint, lambda ex: member(ex, 'member')))
    add('PermittedAlphabetConstraint', Leaf(c.PermittedAlphabetConstraint, lambda ex: member(ex, 'over')))
    for cls, none in (('ComponentPresentConstraint', False), ('ComponentAbsentConstraint', True)):
        add(cls, Leaf(getattr(c, cls), lambda ex, none=none: ({}, Value(), z3.BoolVal(not none))), ' (there)')
        add(cls, Leaf(getattr(c, cls), lambda ex, none=none: ({}, None, z3.BoolVal(none))), ' (not there)')
    return out


# -- identifiers ------------------------------------------------------------------------------------------------------

class Ident(Self):
    """an identifier with an arbitrary tuple of arcs"""

    def iter(self, ex):
        return ex.iterable(ex.call(vars(self.cls)['__iter__'], [self], {}))

    def len(self, ex):
        return ex.call(vars(self.cls)['__len__'], [self], {})


def arcs(ex, name):
    return Sym(z3.Const(name, ARCS), ARCTY)


def same(ex, r, want):
    if isinstance(r, VList) and r.items is not None or isinstance(r, tuple):
        return ex.term(r, ARCTY) == want if r else z3.Length(want) == 0
    return ex.term(r, ARCTY) == want


class Ops(Spec):
    """operations of ObjectIdentifier over arbitrary arcs; `clone(x)` is the identifier built from x"""

    def __init__(self, name, body):
        self.name, self.body = name, body

    FIRST = z3.Function('first', INT, ARCS)      # the first k arcs of `other`
    OTHER = z3.Const('other', ARCS)
    tracks_joins = True

    def setup(self, ex):
        ex.axioms = [self.FIRST(0) == z3.Empty(ARCS), self.FIRST(z3.Length(self.OTHER)) == self.OTHER]

    def terms(self, ex):
        return [('first.%d.%s' % (n, k), Sym(self.FIRST(ex.term(v, 'int')), ARCTY)) for n, f in enumerate(ex.frames)
                for k, v in f.vars.items() if type(v) is int or isinstance(v, Sym) and v.ty == 'int'] + [
                    ('n', Sym(z3.Length(self.OTHER), 'int'))]

    def natural(self, ex):
        """`other` as a sequence; precondition: no arc is negative"""
        s = Sym(self.OTHER, ARCTY)

        def item(i):
            ex.fact(s.t[i] >= 0)
            ex.fact(self.FIRST(z3.simplify(i + 1)) == z3.Concat(self.FIRST(i), z3.Unit(s.t[i])))
            return Sym(s.t[i], 'int')

        class Arcs(Obj):
            def iter(self, ex):
                return VIter(z3.Length(s.t), item)

            def len(self, ex):
                return Sym(z3.Length(s.t), 'int')
        return Arcs()

    def entry(self, ex):
        univ = importlib.import_module('pyasn1.type.univ')
        made = []

        class Clone(Obj):
            def call(self, ex, args, kw):
                if len(args) != 1 or kw:
                    raise Unsupported('clone')
                made.append(args[0])
                return self
        clone = Clone()
        o = Ident(univ.ObjectIdentifier, {'_value': arcs(ex, 'arcs'), 'clone': clone})
        f = vars(univ.ObjectIdentifier)[self.name]
        try:
            self.body(self, ex, o, lambda *a: ex.call(f, [o] + list(a), {}), clone, made)
        except PyExc as e:
            ex.oblige('it does not fail', False, repr(e.cls))

    def isinstance(self, ex, v, t):
        if isinstance(v, Ident):
            return any(issubclass(v.cls, x) for x in (t if isinstance(t, tuple) else (t,)))
        return False if isinstance(v, Obj) else None


def built(ex, clone, made, r, want):
    ex.oblige('the result is one identifier', r is clone and len(made) == 1)
    if r is clone and len(made) == 1:
        ex.oblige('its arcs are those of the contract', same(ex, made[0], want))


def identifier_tasks(repo=None):
    importlib.import_module('pyasn1.type.univ')
    out = []

    def add(name, body, tag=''):
        sp = Ops(name, body)
        out.append(LibTask('pyasn1.type.univ.ObjectIdentifier.%s%s' % (name, tag), sp, sp.entry))
    A = z3.Const('arcs', ARCS)
    B = z3.Const('other', ARCS)
    add('__add__', lambda sp, ex, o, f, c, m: built(ex, c, m, f(arcs(ex, 'other')), z3.Concat(A, B)))
    add('__radd__', lambda sp, ex, o, f, c, m: built(ex, c, m, f(arcs(ex, 'other')), z3.Concat(B, A)))
    for n in ('asTuple', '__iter__'):
        add(n, lambda sp, ex, o, f, c, m: ex.oblige('the result is its arcs', same(ex, f(), A)))
    add('__len__', lambda sp, ex, o, f, c, m: ex.oblige('the result is the number of its arcs', ex.term(f(), 'int') == z3.Length(A)))

    def index(sp, ex, o, f, c, m):
        i = ex.fresh('int', 'i')
        ex.assume(z3.And(i.t >= 0, i.t < z3.Length(A)))
        ex.oblige('the result is that arc', ex.term(f(i), 'int') == A[i.t])
    add('__getitem__', index)

    def pretty(sp, ex, o, f, c, m):
        ex.oblige('the result is the sequence of arcs given', same(ex, f(sp.natural(ex)), B))
    add('prettyIn', pretty, ' (sequence of arcs)')

    def pretty_oid(sp, ex, o, f, c, m):
        x = Ident(o.cls, {'_value': arcs(ex, 'other')})
        ex.oblige('the result is the arcs of the identifier given', same(ex, f(x), B))
    add('prettyIn', pretty_oid, ' (identifier)')
    return out


# -- open types and tag maps --------------------------------------------------------------------------------------------

class Registry(Obj):
    """a dictionary of unknown content that may change between two questions: every question is answered anew"""

    def __init__(self):
        self.log = []

    def truth(self, ex):
        return ex.choose(2) == 1

    def len(self, ex):
        n = ex.fresh('int', 'n')
        ex.assume(n.t >= 0)
        return n

    def contains(self, ex, k):
        r = ex.choose(2) == 1
        self.log.append(('in', k, r))
        return r

    def getitem(self, ex, k):
        how = ex.choose(3)
        if how:
            e = (KeyError, OtherError)[how - 1]
            self.log.append(('get', k, e))
            raise PyExc(e)
        v = Value()
        self.log.append(('get', k, v))
        return v

    def callm(self, ex, name, args, kw):
        if name == 'get' and len(args) in (1, 2) and not kw:
            v = (Value(), args[1] if len(args) == 2 else None)[ex.choose(2)]
            self.log.append(('get', args[0], v))
            return v
        raise Unsupported('registry.' + name)


class Open(Spec):
    """OpenType: the governor it was made with; every question goes to the registry it was made with, then"""

    def __init__(self, what):
        self.what = what

    def entry(self, ex):
        cls = importlib.import_module('pyasn1.type.opentype').OpenType
        name, m = Value(), Registry()
        s = Self(cls, {})
        f = vars(cls)
        ex.call(f['__init__'], [s, name, m], {})
        ex.oblige('making it asks the registry nothing about its entries', not m.log)
        if self.what == 'name':
            ex.oblige('the name is that of the governor given', ex.call(f['name'].fget, [s], {}) is name)
            return
        for n in range(2):
            k = Value()
            del m.log[:]
            try:
                r = ex.call(f[self.what], [s, k], {})
            except PyExc as e:
                r = e.cls
            ex.oblige('every question goes to the registry, once, for the identifier asked for',
                      len(m.log) == 1 and m.log[0][1] is k)
            ex.oblige('the answer is that of the registry at this moment',
                      bool(m.log) and (r is m.log[0][2] or isinstance(r, bool) and r == m.log[0][2]))


class Tags(Obj):
    """a dictionary from tag sets: does it have the one asked for, and what does it give"""

    def __init__(self, ex):
        self.has, self.gives = ex.choose(2) == 1, Value()

    def truth(self, ex):
        return True

    def contains(self, ex, k):
        return self.has

    def getitem(self, ex, k):
        if self.has:
            return self.gives
        raise PyExc(KeyError)


class Tagged(Spec):
    """TagMap: the type listed for the tag set; failing that the default type unless the tag set is excluded"""

    def __init__(self, what):
        self.what = what

    def entry(self, ex):
        cls = importlib.import_module('pyasn1.type.tagmap').TagMap
        present, skip = Tags(ex), Tags(ex)
        default = (None, Value())[ex.choose(2)]
        s = Self(cls, {})
        f = vars(cls)
        ex.call(f['__init__'], [s, present, skip, default], {})
        try:
            r = ex.call(f[self.what], [s, Value()], {})
        except PyExc as e:
            r = e.cls
        there = present.has or default is not None and not skip.has
        if self.what == '__contains__':
            ex.oblige('it answers for the tag sets listed, and for all not excluded when it has a default', r is there or r == there)
        elif there:
            ex.oblige('it gives the type listed, or else the default', r is (present.gives if present.has else default))
        else:
            ex.oblige('it fails for any other', isinstance(r, type) and issubclass(r, Exception))
            ex.oblige('without a default it fails with KeyError', default is not None or r is KeyError)


class Table(Obj):
    """a dictionary in which the key asked for is, or is not"""

    def __init__(self, ex):
        self.has, self.gives = ex.choose(2) == 1, Value()

    contains = lambda self, ex, k: self.has

    def getitem(self, ex, k):
        if self.has:
            return self.gives
        raise PyExc(KeyError)


class Named(Spec):
    """NamedValues: a number gives its name, failing that a name gives its number"""

    def __init__(self, what):
        self.what = what

    def entry(self, ex):
        cls = importlib.import_module('pyasn1.type.namedval').NamedValues
        names, numbers = Table(ex), Table(ex)
        s = Self(cls, {'__names': names, '__numbers': numbers})
        try:
            r = ex.call(vars(cls)[self.what], [s, Value()], {})
        except PyExc as e:
            r = e.cls
        if self.what == '__contains__':
            ex.oblige('it has the names and the numbers', r is (names.has or numbers.has))
        elif self.what == '__getitem__':
            ex.oblige('a number gives its name, or else a name its number',
                      r is (numbers.gives if numbers.has else names.gives if names.has else KeyError))
        else:
            t = numbers if self.what == 'getName' else names
            ex.oblige('what is listed, or nothing', r is (t.gives if t.has else None))


class Numeral(Value):
    """what an integer is made of: a numeral, or something else"""

    def __init__(self, ex):
        self.number = (None, Value())[ex.choose(2)]


class NameRead(Spec):
    """Integer.prettyIn: a numeral is its number; anything else the number of that name, or an error"""

    def to_int(self, ex, v):
        if not isinstance(v, Numeral):
            return None
        if v.number is None:
            raise PyExc(ValueError)
        return (v.number,)

    def entry(self, ex):
        cls = importlib.import_module('pyasn1.type.univ').Integer
        err = importlib.import_module('pyasn1.error').PyAsn1Error
        named, v = Table(ex), Numeral(ex)
        try:
            r = ex.call(vars(cls)['prettyIn'], [Self(cls, {'namedValues': named}), v], {})
        except PyExc as e:
            r = e.cls
        ex.oblige('a numeral is its number; a name is the number of that name; else an error',
                  r is (v.number if v.number is not None else named.gives if named.has else err))


def named_tasks(repo=None):
    sps = [('namedval.NamedValues.' + w, Named(w)) for w in ('__getitem__', '__contains__', 'getName', 'getValue')]
    sps.append(('univ.Integer.prettyIn', NameRead()))
    return [LibTask('pyasn1.type.' + w, sp, sp.entry) for w, sp in sps]


def opentype_tasks(repo=None):
    sps = [(w, Open(w)) for w in ('name', '__getitem__', '__contains__')]
    return [LibTask('pyasn1.type.opentype.OpenType.' + w, sp, sp.entry) for w, sp in sps]


def tagmap_tasks(repo=None):
    sps = [(w, Tagged(w)) for w in ('__getitem__', '__contains__')]
    return [LibTask('pyasn1.type.tagmap.TagMap.' + w, sp, sp.entry) for w, sp in sps]


if __name__ == '__main__':
    sys.path.append('/opt/venv/lib/python3.12/site-packages')
    sys.dont_write_bytecode = True
    for t in constraint_tasks() + identifier_tasks() + opentype_tasks() + tagmap_tasks() + named_tasks():
        try:
            ex, obs = t.run(None)
        except Unsupported as e:
            print(t.name, 'UNSUPPORTED', e)
            if os.environ.get('TB'):
                raise
            continue
        print(t.name)
        for k, o in obs.items():
            print('  ', 'FAIL' if o['fail'] else 'ok  ', k, o['paths'], str(o['fail'][:1])[:300])
