"""Verification conditions for real Python functions and scripts.

The text of the function under contract is parsed from /repo on every run and executed
symbolically, statement by statement.  Branches whose condition is not decided fork the path.
Calls to other repository functions are inlined, unless the callee has a contract: then the
contract is used and the callee is verified on its own.  Everything outside the repository that
can influence the property (streams, codecs, digests, print) is a contract object of
fnspecs.py.

Loops whose iterations are not a known finite number are cut at their head: the state on entry
and after an arbitrary iteration must satisfy the loop's invariant, which the code after (or in)
the loop may then assume.  Invariants are not written down against the text of the code: they
are found for the text at hand as the largest inductive set of candidate equalities and
inequalities between the program's variables and the contract's ghost variables, separately per
`location` (shape of every variable: constants stay constants up to three distinct ones).  The
found invariant is then proved, like any other, by the solver: candidates that are not implied
on entry or not preserved are not in it.
"""
import ast
import builtins
import collections
import contextlib
import functools
import io
import itertools
import os
import sys
import types

import z3

MAXPATHS = 6000
S = z3.DeclareSort('Str')
O = z3.DeclareSort('Obj')
BYTES = z3.SeqSort(z3.IntSort())


class Unsupported(Exception):
    pass


CHAIN = (itertools.chain, itertools.chain.from_iterable)

# lazy library iterators, as the generators they are documented to be equivalent to
PRELUDE = '''
def enumerate(it, start=0):
    for x in it:
        yield start, x
        start += 1

def map(f, it):
    for x in it:
        yield f(x)

def starmap(f, it):
    for x in it:
        yield f(*x)

def filter(f, it):
    for x in it:
        if (x if f is None else f(x)):
            yield x

def filterfalse(f, it):
    for x in it:
        if not (x if f is None else f(x)):
            yield x

def takewhile(f, it):
    for x in it:
        if not f(x):
            return
        yield x

def dropwhile(f, it):
    dropping = True
    for x in it:
        if dropping:
            dropping = f(x)
            if dropping:
                continue
        yield x

def count(start=0, step=1):
    while True:
        yield start
        start += step

def repeat(x):
    while True:
        yield x

def iter(f, sentinel):
    while True:
        x = f()
        if x == sentinel:
            return
        yield x

def chain(*its):
    for it in its:
        yield from it

def any(it):
    for x in it:
        if x:
            return True
    return False

def all(it):
    for x in it:
        if not x:
            return False
    return True

def reduce(f, it):
    first = True
    for x in it:
        if first:
            value = x
            first = False
        else:
            value = f(value, x)
    if first:
        raise TypeError
    return value

def reduce_from(f, it, value):
    for x in it:
        value = f(value, x)
    return value

def sum(it, value=0):
    for x in it:
        value = value + x
    return value

def next(it):
    for x in it:
        return x
    raise StopIteration

def next_default(it, default):
    for x in it:
        return x
    return default
'''
PRELUDE = {n.name: n for n in ast.parse(PRELUDE).body}
for _n in PRELUDE.values():
    ast.increment_lineno(_n, 100000)
BUFFERS = '''
class bytearray:
    def __init__(self, value=b''):
        self.value = value

    def extend(self, more):
        self.value = self.value + more

    def __len__(self):
        return len(self.value)


class BytesIO:
    def __init__(self):
        self.value = b''

    def write(self, more):
        self.value = self.value + more

    def getvalue(self):
        return self.value
'''
CLOSING = '''
class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc):
        self.thing.close()
'''
BUFFERS += CLOSING
BUFFERS = {n.name: n for n in ast.parse(BUFFERS).body}
for _n in BUFFERS.values():
    ast.increment_lineno(_n, 200000)
ITERTOOLS = {itertools.count: 'count', itertools.takewhile: 'takewhile', itertools.dropwhile: 'dropwhile',
             itertools.starmap: 'starmap', itertools.filterfalse: 'filterfalse'}


class Forks(Unsupported):
    """an element function with several outcomes, or one with a value no term stands for"""


class PathEnd(BaseException):
    pass


class PyExc(BaseException):
    def __init__(self, cls, value=None):
        self.cls, self.value = cls, value


class ReturnX(BaseException):
    def __init__(self, v):
        self.v = v


class BreakX(BaseException):
    pass


class ContinueX(BaseException):
    pass


def sort_of(ty):
    if ty == 'int':
        return z3.IntSort()
    if ty == 'bool':
        return z3.BoolSort()
    if ty == 'str':
        return S
    if ty == 'bytes':
        return BYTES
    if ty[0] == 'seq':
        return z3.SeqSort(sort_of(ty[1]))
    if ty in (('obj',), OPAQUE):
        return O
    raise Unsupported('sort of %r' % (ty,))


OPAQUE = ('opaque',)        # elements of a list of objects: they count, but are not read back


class Sym(object):
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        if ty == OPAQUE:
            raise Unsupported('element of a list of objects')
        self.t, self.ty = t, ty

    def __repr__(self):
        return 'Sym(%s:%s)' % (self.t, self.ty)


class VList(object):
    """a list; items (known length) or seq (unknown length)"""

    def __init__(self, ex, items=None, seq=None, kind='list'):
        self.items, self.seq, self.kind = items, seq, kind
        self.born = ex.tick()

    def __repr__(self):
        return 'VList(%r)' % (self.items if self.seq is None else self.seq)


class VDict(object):
    def __init__(self, ex, d=None):
        self.d = d if d is not None else {}
        self.born = ex.tick()


class VIter(object):
    """a lazy or immutable sequence of unknown length: item(i) for 0 <= i < n"""

    def __init__(self, n, item, mapped=None):
        self.n, self.item = n, item
        self.mapped = mapped        # (Sym seq, key, template) when item(i) = f(seq[i])

    lazy = False                    # one use only, as of map or a generator expression


class VSearch(object):
    """(elt for x in s if key(x) == k): the elements of an unknown sequence that match"""
    lazy = True

    def __init__(self, gen, elt, node, frame):
        self.gen, self.elt, self.node, self.frame = gen, elt, node, frame


class VGen(object):
    """a call of a generator function, not started"""
    lazy = True

    def __init__(self, ex, f, vars):
        self.f, self.vars, self.started = f, vars, False
        self.frame = None       # of a generator whose consumer stopped early: it may be continued
        self.finished, self.parts = False, 1
        self.born = ex.tick()


class GenExit(BaseException):
    """control leaves the loop that consumes a generator"""

    def __init__(self, gen, exc):
        self.gen, self.exc = gen, exc


class AccView(object):
    """an accumulator while the body of its loop is summarised: only its length is known"""

    def __init__(self, n):
        self.n = n


class VSDict(object):
    """dictionary built from a VIter of pairs; later pairs win"""

    def __init__(self, it):
        self.it = it


class VFunc(object):
    def __init__(self, node, frame, glob, name, defaults=(), kwdefaults=None):
        self.node, self.frame, self.glob, self.name = node, frame, glob, name
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}


class VClass(object):
    def __init__(self, name, bases, ns):
        self.name, self.bases, self.ns = name, bases, ns
        for f in ns.values():
            if isinstance(f, VFunc):
                f.owner = self
            elif isinstance(f, VProp):
                f.func.owner = self

    def chain(self):
        """the classes in which a name is looked up"""
        out, c = [], self
        while isinstance(c, VClass):
            out.append(c)
            bs = [b for b in c.bases if b is not object]
            if len(bs) > 1:
                raise Unsupported('several bases')
            c = bs[0] if bs else object
        return out + [c]


class VProp(object):
    def __init__(self, kind, func):
        self.kind, self.func = kind, func


UNMODELLED = {'__new__', '__getattr__', '__getattribute__', '__setattr__', '__delattr__', '__del__', '__slots__',
              '__init_subclass__', '__set_name__', '__class_getitem__', '__instancecheck__'}


def _buffer(name):
    n = BUFFERS[name]
    return VClass(name, (), {m.name: VFunc(m, None, {'len': len}, m.name, tuple(ast.literal_eval(d) for d in m.args.defaults), {})
                             for m in n.body})


class VInst(object):
    def __init__(self, ex, cls):
        self.cls, self.attrs = cls, {}
        self.born = ex.tick()


class AttrChange(object):
    """an attribute of an instance was assigned"""

    def __init__(self, inst, name):
        self.inst, self.name, self.born = inst, name, inst.born


BUFFER, STREAM, CLOSING = _buffer('bytearray'), _buffer('BytesIO'), _buffer('closing')


class Bound(object):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Fmt(object):
    """text made of literal and non-literal parts"""

    def __init__(self, parts):
        self.parts = parts

    def flat(self):
        out = []
        for p in self.parts:
            for q in (p.flat() if isinstance(p, Fmt) else [p]):
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != '' or not isinstance(q, str):
                    out.append(q)
        return out


class Cell(object):
    """name bound to nothing we can know"""

    def __repr__(self):
        return 'POISON'


POISON = Cell()
UNDEF = object()


class Obj(object):
    """contract object: subclasses say what the methods do"""

    def attr(self, ex, name):
        return Bound(self, name)

    def callm(self, ex, name, args, kw):
        raise Unsupported('%s.%s' % (type(self).__name__, name))

    def call(self, ex, args, kw):
        raise Unsupported('call of %s' % type(self).__name__)

    def truth(self, ex):
        return True

    def eq(self, ex, other):
        raise Unsupported('== on %s' % type(self).__name__)

    def constant(self):
        return False

    def getitem(self, ex, i):
        raise Unsupported('[] on %s' % type(self).__name__)

    def setitem(self, ex, i, v):
        raise Unsupported('[]= on %s' % type(self).__name__)

    def shape(self):
        return None


class VExc(Obj):
    """an exception object whose arguments are not tracked"""

    def __init__(self, cls):
        self.cls = cls


class Frame(object):
    def __init__(self, vars, glob, parent=None, name='?'):
        self.vars, self.glob, self.parent, self.name = vars, glob, parent, name
        self.globals_decl = set()
        self.nonlocals = set()


class Loop(object):
    def __init__(self):
        self.locs = []          # list of shape tuples
        self.inv = {}           # shape -> set of candidates
        self.widen = set()
        self.seen = {}
        self.ety = {}           # slot of a growing tuple -> type
        self.mutated = set()    # slot names of objects mutated in the body
        self.attrs = set()      # attributes assigned in the body: (frame, variable, attribute)
        self.inner = set()      # (frame, variable, attribute) holding an object mutated in the body
        self.extra = set()      # variables of other frames assigned in the body


def names_stored(nodes, aug=True):
    out = set()
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and not aug:
            todo.append(n.value)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        if isinstance(n, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        if isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        todo += list(ast.iter_child_nodes(n))
    return out


USED_NEXT = {}


def used_next(s, after):
    """the statement after `x = lazy iterator` with the iterator in the place of x, if that is the same"""
    k = (id(s), id(after))
    if k not in USED_NEXT:
        USED_NEXT[k] = (_used_next(s, after), s, after)
    return USED_NEXT[k][0]


def _used_next(s, after):
    def plain(e):
        return isinstance(e, (ast.Name, ast.Constant, ast.Lambda)) or isinstance(e, ast.Attribute) and plain(e.value)

    v = s.value
    if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name):
        return None
    if isinstance(v, ast.GeneratorExp):
        if not plain(v.generators[0].iter):
            return None
    elif not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('map', 'filter', 'zip', 'enumerate')
              and all(plain(a) for a in v.args) and not v.keywords):
        return None
    name = s.targets[0].id
    inside = names_stored([after]) | {x.id for x in ast.walk(v) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    if not isinstance(after, (ast.Return, ast.Expr, ast.Assign, ast.For)) or name in inside \
            or any(isinstance(x, ast.NamedExpr) for x in ast.walk(after)):
        return None
    if sum(isinstance(x, ast.Name) and x.id == name for x in ast.walk(after)) != 1:
        return None
    done = []

    def go(e):
        if isinstance(e, ast.Name) and e.id == name:
            done.append(e)
            return v
        if isinstance(e, (ast.Lambda, ast.IfExp, ast.BoolOp)):
            return e
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if isinstance(e, ast.GeneratorExp):
                return e
            g = e.generators[0]
            new = ast.comprehension(go(g.iter), g.ifs, g.is_async)
            r = type(e)(**{f: getattr(e, f) for f in e._fields})
            r.generators = [new] + e.generators[1:]
            return ast.copy_location(r, e)
        if isinstance(e, ast.AST) and e._fields:
            r = type(e)(**{f: [go(y) if isinstance(y, ast.AST) else y for y in x] if isinstance(x, list) else
                           go(x) if isinstance(x, ast.AST) else x for f, x in ast.iter_fields(e)})
            return ast.copy_location(r, e)
        return e

    if isinstance(after, ast.For):
        new = ast.For(after.target, go(after.iter), after.body, after.orelse)
        ast.copy_location(new, after)
    else:
        new = go(after)
    return new if len(done) == 1 else None


def is_generator(n):
    todo = [n.body] if isinstance(n, ast.Lambda) else list(n.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(x))
    return False


_SOURCES = {}


def source_functions(path):
    """(first line incl. decorators) -> FunctionDef / Lambda nodes of a file"""
    key = (path, os.path.getmtime(path))
    if key not in _SOURCES:
        with open(path) as f:
            tree = ast.parse(f.read())
        d = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = min([n.lineno] + [x.lineno for x in getattr(n, 'decorator_list', ())])
                d.setdefault(line, []).append(n)
        _SOURCES[key] = d, tree
    return _SOURCES[key]


class Ex(object):
    """one verification task"""

    def __init__(self, repo, spec, timeout=4000):
        self.repo, self.spec = os.path.realpath(repo), spec
        self.timeout = timeout
        self.contracts = {}         # id(real object) -> handler(ex, args, kw)
        self.keep = []
        self.axioms = []
        self.loops = {}
        self.obs = {}
        self.final = False
        self.stats = {'queries': 0, 'paths': 0, 'passes': 0, 'unknown': 0, 'solver_s': 0.0, 'inlined': set(), 'smt': []}
        self.gens = []
        self.lits = {}
        self.classes = {}           # plain classes of the repository
        self.maps = {}              # (value key) -> registered element maps

    # -- terms --------------------------------------------------------------------------
    def lit(self, s):
        if s not in self.lits:
            self.lits[s] = z3.Const('lit%d' % len(self.lits), S)
        self.lits_used = True
        return self.lits[s]

    def fresh(self, ty, name='v'):
        self.counter += 1
        return Sym(z3.Const('%s!%d' % (name, self.counter), sort_of(ty)), ty)

    def tick(self):
        self.clock += 1
        return self.clock

    def ufn(self, name, *sorts):
        return z3.Function(name, *sorts)

    def term(self, v, ty):
        """value -> z3 term of the type"""
        if ty == OPAQUE:
            if not isinstance(v, (Obj, tuple)):
                raise Unsupported('list of objects and other values')
            self.counter += 1
            return z3.Const('object!%d' % self.counter, O)
        if isinstance(v, Sym):
            if v.ty == ty:
                return v.t
            if v.ty == 'bool' and ty == 'int':
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if v.ty in ('bytes', ('seq', 'int')) and ty in ('bytes', ('seq', 'int')):
                return v.t
            raise Unsupported('%r as %r' % (v, ty))
        if ty == 'int' and isinstance(v, (int, bool)):
            return z3.IntVal(int(v))
        if ty == 'bool' and isinstance(v, bool):
            return z3.BoolVal(v)
        if ty == 'str' and isinstance(v, str):
            return self.lit(v)
        if ty == 'bytes' and isinstance(v, (bytes, bytearray)):
            return seq_lit([z3.IntVal(b) for b in v], BYTES)
        if isinstance(ty, tuple) and ty[0] == 'seq':
            if isinstance(v, VList):
                if v.seq is not None:
                    return self.term(v.seq, ty)
                return seq_lit([self.term(x, ty[1]) for x in v.items], sort_of(ty))
            if isinstance(v, (tuple, list)):
                return seq_lit([self.term(x, ty[1]) for x in v], sort_of(ty))
            if isinstance(v, VIter) and v.mapped is None:
                raise Unsupported('lazy sequence as a term')
        raise Unsupported('%r as %r' % (v, ty))

    def ty(self, v):
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, (bytes, bytearray)):
            return 'bytes'
        if isinstance(v, VList):
            if v.seq is not None:
                return v.seq.ty
            if not v.items:
                return None
            # a list inside a list is an object of its own, not a value
            t = {self.ty(x) if not isinstance(x, VList) else None for x in v.items}
            if len(t) == 1 and None not in t:
                return ('seq', t.pop())
        if isinstance(v, (tuple, list)) and v:
            t = {self.ty(x) for x in v}
            if len(t) == 1 and None not in t:
                return ('seq', t.pop())
        return None

    def lty(self, v):
        """the type of a list; objects only count"""
        t = self.ty(v)
        if t is None and v.items and all(isinstance(x, Obj) or isinstance(x, tuple) and not self.ty(x) for x in v.items):
            return 'seq', OPAQUE
        return t

    # -- solver ------------------------------------------------------------------------
    def start_path(self, prefix):
        self.prefix, self.pos = prefix, 0
        self.taken = []
        self.counter = self.clock = 0
        self.pc = []
        self.facts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        for a in self.axioms:
            self.solver.add(a)
        self.frames = []
        self.ghost = {}
        self.events = 0
        self.mutlog = []
        self.assignlog = []
        self.depth = 0
        self.active = []
        self.where = None
        self.heads = []
        self.nlits = 0
        self.shared = {}
        self.neighbours = {}

    def sync_lits(self):
        if len(self.lits) > self.nlits and len(self.lits) > 1:
            self.solver.add(z3.Distinct(*self.lits.values()))
            self.nlits = len(self.lits)

    def assume(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def fact(self, c):
        """an instance of a definition: true whatever the path"""
        self.solver.add(c)
        self.facts.append(c)

    def query(self, *extra):
        import time
        self.sync_lits()
        self.stats['queries'] += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def implied(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.query() == z3.unsat
        return self.query(z3.Not(c)) == z3.unsat

    def branch(self, c):
        """decide a symbolic condition, forking when both outcomes are possible"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t = self.query(c) != z3.unsat
            f = self.query(z3.Not(c)) != z3.unsat
            if not t and not f:
                raise PathEnd()
            if t and f:
                self.work.append(self.taken + [False])
            d = t
        self.pos += 1
        self.taken.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n):
        if n == 0:
            raise PathEnd()
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d >= n:
                # recorded before the loop's locations changed
                self.changed = True
                raise PathEnd()
        else:
            d = 0
            for i in range(1, n):
                self.work.append(self.taken + [i])
        self.pos += 1
        self.taken.append(d)
        return d

    def oblige(self, name, c, note=''):
        """a proof obligation on this path"""
        if not self.final:
            return
        o = self.obs.setdefault(name, {'paths': 0, 'fail': []})
        o['paths'] += 1
        if isinstance(c, bool):
            if not c and self.query() != z3.unsat:
                o['fail'].append((note, self.model_text()))
            return
        r = self.query(z3.Not(c))
        if len(self.stats['smt']) < 400:
            s = z3.Solver()
            s.add(*self.solver.assertions())
            s.add(z3.Not(c))
            self.stats['smt'].append(('(set-logic ALL)\n' + s.to_smt2(), str(r)))
        if r != z3.unsat:
            o['fail'].append((note or str(r), self.model_text() if r == z3.sat else 'solver: ' + str(r)))

    def model_text(self):
        try:
            m = self.solver.model()
            return '; '.join(sorted('%s = %s' % (d, m[d]) for d in m.decls() if '!' in d.name() or d.arity() == 0))[:1500]
        except z3.Z3Exception:
            return 'no model'

    # -- exploration ---------------------------------------------------------------------
    def verify(self, entry):
        """entry(ex): sets up the precondition, runs the code, states the postcondition"""
        for n in range(60):
            self.changed = False
            self.stats['passes'] += 1
            self.explore(entry)
            if not self.changed:
                break
        else:
            raise Unsupported('loop invariants do not stabilise')
        self.final = True
        self.stats['paths'] = 0
        self.explore(entry)
        return self.obs

    def explore(self, entry):
        self.work = [[]]
        n = 0
        while self.work:
            n += 1
            if n > MAXPATHS:
                raise Unsupported('more than %d paths' % MAXPATHS)
            self.start_path(self.work.pop())
            self.stats['paths'] += 1
            try:
                entry(self)
            except PathEnd:
                pass
            except RecursionError:
                raise Unsupported('recursion')
            if self.changed:
                # the table moved: finish cheap, start again
                if n > 200:
                    return

    # -- loops -------------------------------------------------------------------------------
    def slot_values(self, node, names, L):
        """[(slotname, value, setter)] of what the loop may change"""
        fr = self.frames[-1]
        fi = len(self.frames) - 1
        out = []
        for n in sorted(names):
            f, v = fr, fr.vars.get(n, UNDEF)
            if n in fr.globals_decl:
                f = fr.glob if isinstance(fr.glob, Frame) else None
                if f is None:
                    raise Unsupported('global %s' % n)
                v = f.vars.get(n, UNDEF)
            out.append(('%d.%s' % (fi, n), v, (f.vars, n)))
        for (i, n) in sorted(L.extra):
            if ('%d.%s' % (i, n)) not in [o[0] for o in out] and i < len(self.frames):
                f = self.frames[i]
                out.append(('%d.%s' % (i, n), f.vars.get(n, UNDEF), (f.vars, n)))
        for (i, n) in sorted(L.mutated):
            if ('%d.%s' % (i, n)) not in [o[0] for o in out] and i < len(self.frames):
                f = self.frames[i]
                out.append(('%d.%s' % (i, n), f.vars.get(n, UNDEF), None))
        for (i, n, a) in sorted(L.inner):
            o = self.frames[i].vars.get(n, UNDEF) if i < len(self.frames) else UNDEF
            if not isinstance(o, VInst) or (i, n, a) in L.attrs or (i == fi and n in names) or (i, n) in L.extra:
                raise Unsupported('object changed in a loop')
            out.append(('%d.%s.%s' % (i, n, a), o.attrs.get(a, UNDEF), None))
        for (i, n, a) in sorted(L.attrs):
            o = self.frames[i].vars.get(n, UNDEF) if i < len(self.frames) else UNDEF
            if not isinstance(o, VInst):
                raise Unsupported('object changed in a loop')
            v = o.attrs.get(a, UNDEF)
            if isinstance(v, (VList, VDict, VInst, VGen)):
                raise Unsupported('attribute holding an object changed in a loop')
            out.append(('%d.%s.%s' % (i, n, a), v, (o.attrs, a)))
        for g in sorted(self.ghost):
            out.append(('g.' + g, self.ghost[g], (self.ghost, g)))
        return out

    def shape(self, v, slot, L):
        if v is UNDEF:
            return ('undef',)
        if v is POISON:
            return ('poison',)
        if isinstance(v, Sym):
            return ('s', v.ty)
        if v is None or isinstance(v, (bool, str, bytes, type, types.FunctionType, types.ModuleType)):
            if isinstance(v, (str, bytes)) and slot in L.widen:
                return ('s', 'str' if isinstance(v, str) else 'bytes')
            return ('c', v if not isinstance(v, (type, types.FunctionType, types.ModuleType)) else id(v), type(v).__name__)
        if isinstance(v, int):
            if slot in L.widen:
                return ('s', 'int')
            return ('c', v, 'int')
        if isinstance(v, VList):
            if v.seq is not None:
                return ('list', v.seq.ty, v.kind)
            if not v.items:
                return ('list0', v.kind)
            t = self.lty(v)
            if t is None:
                return ('poison',)
            return ('list', t, v.kind)
        if isinstance(v, tuple):
            if slot in L.widen and (self.ty(v) or not v and slot in L.ety):
                return ('s', self.ty(v) or L.ety[slot])
            if type(v) is not tuple:
                return ('poison',)
            return ('t',) + tuple(self.shape(x, slot, L) for x in v)
        if isinstance(v, Obj):
            s = v.shape()
            return ('o', type(v).__name__, s) if s is not None else ('poison',)
        return ('poison',)

    def consts_in(self, sh):
        if sh[0] == 'c' and sh[2] in ('int', 'str', 'bytes'):
            return {sh}
        if sh[0] == 't':
            return set().union(*[self.consts_in(x) for x in sh[1:]]) if len(sh) > 1 else set()
        return set()

    def havoc(self, sh, v, name):
        k = sh[0]
        if k == 'undef':
            return UNDEF
        if k == 'poison':
            return POISON
        if k == 's':
            return self.fresh(sh[1], name)
        if k == 'c':
            if sh[2] in ('int', 'str', 'bytes', 'bool', 'NoneType'):
                return sh[1]
            for o in self.keep:
                if id(o) == sh[1]:
                    return o
            return POISON
        if k == 'list':
            return VList(self, seq=self.fresh(sh[1], name), kind=sh[2])
        if k == 'list0':
            return VList(self, items=[], kind=sh[1])
        if k == 't':
            return tuple(self.havoc(x, None, name) for x in sh[1:])
        if k == 'o':
            return self.spec.havoc(self, sh, name)
        raise Unsupported('havoc %r' % (sh,))

    def state_terms(self):
        """named terms the candidates range over"""
        out = {}

        def put(n, v):
            if isinstance(v, Sym):
                out.setdefault(v.ty, []).append((n, v.t))
            elif isinstance(v, bool) or v is None:
                pass
            elif isinstance(v, int):
                out.setdefault('int', []).append((n, z3.IntVal(v)))
            elif isinstance(v, bytes):
                out.setdefault('bytes', []).append((n, self.term(v, 'bytes')))
            elif isinstance(v, str) and n.startswith('g.'):
                out.setdefault('str', []).append((n, self.lit(v)))
            elif isinstance(v, VList):
                t = self.lty(v)
                if t is not None:
                    try:
                        out.setdefault(t, []).append((n, self.term(v, t)))
                    except Unsupported:
                        pass
                elif v.items == []:
                    out.setdefault('empty', []).append((n, None))
            elif isinstance(v, tuple):
                for i, x in enumerate(v[:6]):
                    put('%s.%d' % (n, i), x)
                if self.spec.tracks_joins:
                    if not v:
                        out.setdefault('empty', []).append((n, None))
                    elif isinstance(self.ty(v), tuple):
                        try:
                            out.setdefault(self.ty(v), []).append((n, self.term(v, self.ty(v))))
                        except Unsupported:
                            pass
            elif isinstance(v, VInst):
                for m, x in v.attrs.items():
                    if isinstance(x, (Sym, int, bytes, VList)):
                        put('%s.%s' % (n, m), x)
            elif isinstance(v, Obj):
                for m, x in v.parts().items() if hasattr(v, 'parts') else ():
                    put('%s.%s' % (n, m), x)
        for i, f in enumerate(self.frames):
            for n, v in f.vars.items():
                if not n.startswith('__'):
                    put('%d.%s' % (i, n), v)
        for g, v in self.ghost.items():
            put('g.' + g, v)
        for n, v in self.spec.terms(self):
            put('x.' + n, v)
        if self.spec.tracks_joins:
            for n, key, j, b in self.join_terms():
                put('j.%s.%s' % (n, key), Sym(j, self.maps[key][1].ty))
        if 'bytes' in out and ('seq', 'int') in out:
            out['bytes'] = out['bytes']
        for n, _ in out.pop('empty', ()):
            for ty in [t for t in out if isinstance(t, tuple) and t[0] == 'seq']:
                out[ty].append((n, z3.Empty(sort_of(ty))))
        return out

    def candidates(self, terms):
        out = {}
        for ty, ts in terms.items():
            ts = ts[:40]
            for i, (a, x) in enumerate(ts):
                if ty == 'int':
                    out[('ge0', a)] = x >= 0
                if ty == 'bool':
                    out[('true', a)] = x
                    out[('false', a)] = z3.Not(x)
                if ty == 'bytes':
                    out[('nonempty', a)] = z3.Length(x) > 0
                    out[('empty', a)] = z3.Length(x) == 0
                if ty == 'str':
                    out[('nonempty', a)] = x != self.lit('')
                for b, y in ts[i + 1:]:
                    out[('eq', min(a, b), max(a, b))] = x == y
                    if ty == 'int':
                        out[('le', a, b)] = x <= y
                        out[('le', b, a)] = y <= x
                        out[('lt', a, b)] = x < y
                        out[('lt', b, a)] = y < x
                        out[('succ', a, b)] = x == y + 1
                        out[('succ', b, a)] = y == x + 1
            if isinstance(ty, tuple) and ty[0] == 'seq' or ty == 'bytes':
                for a, x in ts:
                    if ty != 'bytes':
                        out[('empty', a)] = x == z3.Empty(x.sort())
                    for b, y in terms.get('int', ()):
                        if not z3.is_int_value(y) or b.startswith('g.'):
                            out[('len', a, b)] = z3.Length(x) == y
        for n, c in self.spec.preds(self):
            out[('pred', n)] = c
        return out

    def slots_ok(self, slots):
        """no object the loop changes is reachable under two names"""
        pass

    def aliases(self, obj):
        """(frame index, name) of every variable holding obj"""
        out, seen = [], set()
        for i, f in enumerate(self.frames):
            if id(f) in seen:
                continue        # the consumer of a generator runs on top of it
            seen.add(id(f))
            for n, v in f.vars.items():
                if v is obj:
                    out.append((i, n))
                elif isinstance(v, VInst):
                    out += [(i, n, m) for m, x in v.attrs.items() if x is obj]
        # one attribute of one object is one place, under however many names the object goes
        seen, r = set(), []
        for a in out:
            k = a if len(a) == 2 else (id(self.frames[a[0]].vars[a[1]]), a[2])
            if k not in seen:
                seen.add(k)
                r.append(a)
        return r

    def lists(self):
        """(name, list) of the variables and of the attributes of the objects they hold"""
        for i, f in enumerate(self.frames):
            for n, v in f.vars.items():
                if isinstance(v, VList):
                    yield '%d.%s' % (i, n), v
                elif isinstance(v, VInst):
                    for m, x in v.attrs.items():
                        if isinstance(x, VList):
                            yield '%d.%s.%s' % (i, n, m), x

    def arrive(self, L, slots, kind):
        sh = []
        for name, v, _ in slots:
            s = self.shape(v, name, L)
            cs = self.consts_in(s)
            if type(v) is tuple and (self.ty(v) or not v):
                cs = {('len', len(v))}
                if v:
                    L.ety[name] = self.ty(v)
            if cs:
                seen = L.seen.setdefault(name, set())
                seen |= cs
                if len(seen) > (12 if name.startswith('g.') else 4) and name not in L.widen:
                    L.widen.add(name)
                    L.locs, L.inv = [], {}
                    self.changed = True
                    s = self.shape(v, name, L)
            sh.append((name, s))
        sh = tuple(sh)
        cands = self.candidates(self.state_terms())
        if sh not in L.inv:
            if self.final:
                self.oblige('loop state is covered by its invariant', False, str(sh)[:300])
                return
            L.locs.append(sh)
            if len(L.locs) > 60:
                raise Unsupported('loop with more than 60 locations')
            L.inv[sh] = self.keepers(cands)
            self.changed = True
            return
        if self.final:
            for k in sorted(L.inv[sh], key=repr):
                self.oblige('loop invariant ' + ('holds on entry' if kind == 'entry' else 'is preserved'),
                            cands[k] if k in cands else False, repr(k))
            return
        inv = {k: cands[k] for k in L.inv[sh] if k in cands}
        kept = self.keepers(inv)
        if kept != L.inv[sh]:
            L.inv[sh] = kept
            self.changed = True

    def keepers(self, cands):
        """the candidates implied by the path"""
        cands = {k: z3.simplify(c) for k, c in cands.items()}
        cands = {k: c for k, c in cands.items() if not z3.is_false(c)}
        live = {k: c for k, c in cands.items() if not z3.is_true(c)}
        done = {k for k, c in cands.items() if z3.is_true(c)}
        while live:
            r = self.query(z3.Not(z3.And(list(live.values()))))
            if r == z3.unsat:
                return done | set(live)
            drop = []
            if r == z3.sat:
                m = self.solver.model()
                for k, c in live.items():
                    try:
                        if z3.is_false(m.eval(c, model_completion=True)):
                            drop.append(k)
                    except z3.Z3Exception:
                        pass
            if not drop:
                # decide one by one
                for k, c in live.items():
                    if self.query(z3.Not(c)) == z3.unsat:
                        done.add(k)
                return done
            for k in drop:
                del live[k]
        return done

    def loop(self, node, names, cond, body, orelse, counted=False):
        # += on a buffer changes the buffer, not the variable
        names = set(names) - {n for n in names if getattr(self.frames[-1].vars.get(n), 'cls', None) is BUFFER
                              and n not in names_stored([node], False)}
        key = (tuple(f.name for f in self.frames), node.lineno, node.col_offset)
        L = self.loops.setdefault(key, Loop())
        for n in names:
            v = self.frames[-1].vars.get(n)
            if isinstance(v, (VList, VDict)) and len(self.aliases(v)) > 1:
                raise Unsupported('aliased list at a loop')
        slots = self.slot_values(node, names, L)
        self.arrive(L, slots, 'entry')
        if not L.locs:
            raise PathEnd()
        mine = [l for l in L.locs if [n for n, _ in l] == [s[0] for s in slots]]
        sh = mine[self.choose(len(mine))] if mine else self.choose(0)
        for (name, s), (_, v, setter) in zip(sh, slots):
            if setter is None:
                if not isinstance(v, VList):
                    if v is UNDEF or s[0] in ('undef', 'poison'):
                        if s[0] == 'poison':
                            raise Unsupported('object changed in a loop')
                        continue
                    raise Unsupported('mutation of %r in a loop' % (v,))
                if s[0] == 'list0':
                    v.items, v.seq = [], None
                elif s[0] == 'list':
                    v.items, v.seq = None, self.fresh(s[1], name)
                else:
                    raise Unsupported('list of unknown kind in a loop')
                continue
            h = self.havoc(s, v, name)
            d, n = setter
            if h is UNDEF:
                d.pop(n, None)
            else:
                d[n] = h
        cands = self.candidates(self.state_terms())
        for k in sorted(L.inv[sh], key=repr):
            if k in cands:
                self.assume(cands[k])
        if self.query() == z3.unsat:
            raise PathEnd()
        if self.final:
            self.obs.setdefault('loop head is reachable', {'paths': 0, 'fail': []})['paths'] += 1
        head = (self.tick(), len(self.mutlog), len(self.assignlog), self.events, len(self.frames))
        try:
            if not cond():
                self.noted(L, head, names)
                if orelse:
                    self.block(orelse)
                return
            try:
                body()
            except ContinueX:
                pass
        except BreakX:
            self.noted(L, head, names)
            return
        except (ReturnX, PyExc, GenExit):
            self.noted(L, head, names)
            raise
        self.noted(L, head, names)
        idle = False
        if self.spec.needs_progress and not counted:
            idle = self.events <= head[3]
            if not idle:
                self.oblige('every iteration makes progress', True)
        for n in names:
            v = self.frames[-1].vars.get(n)
            if isinstance(v, (VList, VDict)) and len(self.aliases(v)) > 1:
                raise Unsupported('aliased list at a loop')
        self.arrive(L, self.slot_values(node, names, L), 'back')
        if idle and self.final:
            # an iteration that reads nothing must be the last
            again = cond() and self.events <= head[3]
            self.oblige('every iteration makes progress', not again, 'line %d' % node.lineno)
        raise PathEnd()

    def noted(self, L, head, names):
        """what the body changed besides the variables it assigns"""
        clock, nm, na, _, depth = head
        for obj in self.mutlog[nm:]:
            if obj.born > clock:
                continue
            if isinstance(obj, AttrChange):
                al = [a for a in self.aliases(obj.inst) if len(a) == 2]
                if not al:
                    raise Unsupported('loop changes an object not held by a variable')
                if any(i == depth - 1 and n in names or (i, n) in L.extra for i, n in al):
                    raise Unsupported('object and its variable changed in a loop')
                if not any((i, n, obj.name) in L.attrs for i, n in al):
                    L.attrs.add(al[0] + (obj.name,))
                    L.locs, L.inv = [], {}
                    self.changed = True
                continue
            al = self.aliases(obj)
            if not al:
                raise Unsupported('loop changes an object not held by a variable')
            top = depth - 1
            if all(len(a) == 3 for a in al):
                if al[0] not in L.inner:
                    L.inner.add(al[0])
                    L.locs, L.inv = [], {}
                    self.changed = True
                continue
            if any(len(a) == 2 and a[0] == top and a[1] in names for a in al):
                if len(al) > 1:
                    raise Unsupported('aliased object changed in a loop')
                continue
            al = [a for a in al if len(a) == 2]
            if al[0] not in L.mutated:
                L.mutated.add(al[0])
                L.locs, L.inv = [], {}
                self.changed = True
        for (i, n) in self.assignlog[na:]:
            # the loop's own variables are slots already; a function it calls may assign others of this frame
            if (i < depth - 1 or i == depth - 1 and n not in names) and (i, n) not in L.extra:
                L.extra.add((i, n))
                L.locs, L.inv = [], {}
                self.changed = True

    # -- statements -----------------------------------------------------------------------------
    def block(self, stmts):
        skip = False
        for s, after in zip(stmts, stmts[1:] + [None]):
            if skip:
                skip = False
                continue
            if after is not None and type(s) is ast.Assign:
                n = used_next(s, after)
                v = self.eval(s.value) if n is not None else None
                if n is not None and not (isinstance(v, (VIter, VList, VSearch)) and getattr(v, 'lazy', False)):
                    self.where = s.lineno
                    self.assign(s.targets[0], v)
                    continue
                if n is not None:
                    # x = (iterator); the one use of x is in the next statement: it stands there
                    self.set_local(s.targets[0].id, POISON)
                    self.stmt(n)
                    skip = True
                    continue
            self.stmt(s)

    def stmt(self, s):
        self.where = getattr(s, 'lineno', None)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(type(s).__name__)
        m(s)

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Return(self, s):
        raise ReturnX(self.eval(s.value) if s.value is not None else None)

    def s_Break(self, s):
        raise BreakX()

    def s_Continue(self, s):
        raise ContinueX()

    def s_Global(self, s):
        self.frames[-1].globals_decl |= set(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].nonlocals |= set(s.names)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.eval(s.value)
            if isinstance(cur, VList) and isinstance(s.op, ast.Add):
                self.list_extend(cur, v)
                return
            if isinstance(cur, VInst):
                if cur.cls is not BUFFER or not isinstance(s.op, ast.Add):
                    raise Unsupported('augmented assignment of an instance')
                self.setattr(cur, 'value', self.binop('Add', cur.attrs['value'], self.octets(v)))
                return
            self.assign(t, self.binop(type(s.op).__name__, cur, v))
            return
        if isinstance(t, ast.Subscript):
            o, i = self.eval(t.value), self.eval(t.slice)
            cur = self.getitem(o, i)
            if isinstance(cur, (VList, VDict, VInst)):
                raise Unsupported('augmented assignment of an element')
            self.setitem(o, i, self.binop(type(s.op).__name__, cur, self.eval(s.value)))
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value)
            if isinstance(cur, VList) and isinstance(s.op, ast.Add):
                self.list_extend(cur, v)
            elif isinstance(cur, VInst):
                raise Unsupported('augmented assignment of an instance')
            else:
                self.setattr(o, t.attr, self.binop(type(s.op).__name__, cur, v))
            return
        raise Unsupported('augmented assignment')

    def octets(self, v):
        if isinstance(v, bytes) or isinstance(v, Sym) and v.ty == 'bytes':
            return v
        raise Unsupported('octets of %r' % (v,))

    def s_Match(self, s):
        v = self.eval(s.subject)
        for c in s.cases:
            new = {}
            if self.matches(c.pattern, v, new):
                for n, x in new.items():
                    self.set_local(n, x)
                if c.guard is None or self.truth(self.eval(c.guard)):
                    self.block(c.body)
                    return

    def matches(self, p, v, new):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', v, self.eval(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('Is', v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, new):
                return False
            if p.name is not None:
                new[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.matches(q, v, new) for q in p.patterns)
        if isinstance(p, ast.MatchSequence) and type(v) is tuple and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            return len(v) == len(p.patterns) and all(self.matches(q, x, new) for q, x in zip(p.patterns, v))
        raise Unsupported(type(p).__name__)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.set_local(t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                o, i = self.eval(t.value), None
                if isinstance(o, VList) and isinstance(t.slice, ast.Slice) and t.slice.lower is None \
                        and t.slice.upper is None and t.slice.step is None:
                    self.mutated(o)
                    o.items, o.seq = [], None
                    continue
                i = self.eval(t.slice)
                if isinstance(o, VList) and o.items is not None and isinstance(i, int):
                    self.mutated(o)
                    del o.items[i]
                    continue
                raise Unsupported('del')
            else:
                raise Unsupported('del')

    def s_If(self, s):
        self.block(s.body if self.truth(self.eval(s.test)) else s.orelse)

    def s_While(self, s):
        names = names_stored(s.body + [s.test])
        self.loop(s, names, lambda: self.truth(self.eval(s.test)), lambda: self.block(s.body), s.orelse)

    def s_For(self, s):
        return self.over(s, self.eval(s.iter))

    def over(self, s, it):
        if not isinstance(it, VGen):
            it = self.iterable(it)
        if hasattr(self.frames[-1], 'its'):
            self.frames[-1].its[id(s)] = it
        if isinstance(it, VGen):
            return self.for_generator(s, it)
        if isinstance(it, VIter) and (self.summary(s, it) or self.search_loop(s, it) or self.yields(s, it)):
            return
        if isinstance(it, list):
            if len(it) > 300:
                raise Unsupported('long concrete loop')
            for x in it:
                self.assign(s.target, x)
                try:
                    self.block(s.body)
                except ContinueX:
                    continue
                except BreakX:
                    return
            self.block(s.orelse)
            return
        names = names_stored(s.body + [s.target])
        fr = self.frames[-1]
        if isinstance(it, VIter):
            k = '$k%d.%d' % (s.lineno, s.col_offset)
            self.set_local(k, 0)

            def cond():
                i = fr.vars[k]
                i = i if isinstance(i, Sym) else Sym(z3.IntVal(i), 'int')
                if not self.branch(i.t < it.n):
                    return False
                self.assume(i.t >= 0)
                self.set_local(k, Sym(z3.simplify(i.t + 1), 'int'))
                self.assign(s.target, it.item(i.t))
                return True
            self.loop(s, names | {k}, cond, lambda: self.block(s.body), s.orelse, True)
            return
        if isinstance(it, Obj):
            def cond():
                v = it.next(self)
                if v is None:
                    return False
                self.assign(s.target, v[0])
                return True
            self.loop(s, names, cond, lambda: self.block(s.body), s.orelse)
            return
        raise Unsupported('for over %r' % (it,))

    def for_generator(self, s, g):
        """for x in generator(...): the generator's body runs, the loop body at each yield"""
        def body(v):
            self.assign(s.target, v)
            try:
                self.block(s.body)
            except ContinueX:
                pass
        if self.run_generator(g, body):
            self.block(s.orelse)

    def prelude(self, name, args, kw=None):
        """a library iterator as a generator (or, for a consumer, its result)"""
        n = PRELUDE[name]
        f = VFunc(n, None, {}, '%s@%s' % (n.name, self.where), tuple(ast.literal_eval(d) for d in n.args.defaults), {})
        vars = self.bind(f, args, kw or {}, True)
        return VGen(self, f, vars) if is_generator(n) else self.run_body(f, vars)

    def run_generator(self, g, body, collector=None):
        if g.finished:
            return True
        resumed = g.started
        if resumed and (g.frame is None or collector is not None or
                        any(isinstance(v, (VList, VDict, VInst)) for v in g.vars.values())):
            raise Unsupported('generator used a second time')
        g.started = True
        self.mutated(g)
        caller = self.frames[-1]
        if resumed:
            g.parts += 1
            fr, g.frame = g.frame, None
            fr.name = '%s#%d' % (g.f.name, g.parts)     # the rest of it has loops of its own
        else:
            fr = Frame(g.vars, g.f.glob, g.f.frame, g.f.name)
            fr.its = {}
        token = object()

        def on_yield(v):
            self.frames.append(caller)
            n = len(self.frames)
            self.gens.append(token)
            try:
                body(v)
            except (BreakX, ReturnX, PyExc) as e:
                raise GenExit(token, e)
            finally:
                self.gens.pop()
                del self.frames[n - 1:]
        fr.on_yield = on_yield
        fr.collector = collector
        self.depth += 1
        self.active.append(g.f.node)
        if self.depth > 40 or self.active.count(g.f.node) > 8:
            raise Unsupported('recursion')
        self.frames.append(fr)
        n = len(self.frames)
        try:
            try:
                if resumed:
                    self.resume(g.f.node.body, fr.at)
                else:
                    self.block(g.f.node.body)
            except ReturnX:
                pass
            except (BreakX, ContinueX):
                raise Unsupported('generator')
            g.finished = True
        except GenExit as e:
            g.frame = fr
            if e.gen is not token:
                raise
            del self.frames[n - 1:]
            if isinstance(e.exc, BreakX):
                return False
            raise e.exc
        finally:
            del self.frames[n - 1:]
            self.depth -= 1
            self.active.pop()
        return True

    def resume(self, stmts, node):
        """the rest of a block after the yield at which it was left"""
        for i, s in enumerate(stmts):
            if any(x is node for x in ast.walk(s)):
                break
        else:
            raise Unsupported('generator used a second time')
        fr = self.frames[-1]
        if isinstance(s, ast.Expr) and s.value is node:
            if isinstance(node, ast.YieldFrom):
                self.run_generator(fr.its[id(node)], fr.on_yield)
        elif isinstance(s, ast.If):
            self.resume(s.body if any(x is node for y in s.body for x in ast.walk(y)) else s.orelse, node)
        elif isinstance(s, (ast.While, ast.For)) and any(x is node for y in s.body for x in ast.walk(y)):
            it = fr.its.get(id(s))
            if isinstance(s, ast.For) and not isinstance(it, (VGen, Obj)):
                raise Unsupported('generator used a second time')
            try:
                try:
                    self.resume(s.body, node)
                except ContinueX:
                    pass
            except BreakX:
                pass
            else:
                if isinstance(s, ast.While):
                    self.s_While(s)
                else:
                    self.over(s, it)
        else:
            raise Unsupported('generator used a second time')
        self.block(stmts[i + 1:])

    def yields(self, s, it):
        """for x in s: yield f(x), in a generator whose values are collected in a list"""
        acc = getattr(self.frames[-1], 'collector', None)
        if acc is None or len(s.body) != 1 or not isinstance(s.body[0], ast.Expr) or not isinstance(s.body[0].value, ast.Yield) \
                or s.body[0].value.value is None or names_stored([s.target]) & (self.frames[-1].globals_decl | self.frames[-1].nonlocals):
            return False
        snap = self.snapshot(self.frames[-1])

        def item(t):
            self.frames.append(Frame({}, snap.glob, snap, '<loop>'))
            try:
                self.assign(s.target, it.item(t))
                return self.eval(s.body[0].value.value)
            finally:
                self.frames.pop()
        v = VIter(it.n, item, ('map', it, item))
        if self.same_base(v) is None:
            return False
        self.list_extend(acc, v)
        for n in names_stored([s.target]):
            self.set_local(n, POISON)
        self.block(s.orelse)
        return True

    def e_Yield(self, e):
        fr = self.frames[-1]
        if not hasattr(fr, 'on_yield'):
            raise Unsupported('yield')
        v = self.eval(e.value) if e.value is not None else None
        fr.at = e
        fr.on_yield(v)
        return None

    def e_YieldFrom(self, e):
        fr = self.frames[-1]
        if not hasattr(fr, 'on_yield'):
            raise Unsupported('yield')
        it = self.eval(e.value)
        fr.at = None
        if isinstance(it, VGen):
            fr.at, fr.its[id(e)] = e, it
            self.run_generator(it, fr.on_yield, getattr(fr, 'collector', None))
            return None
        it = self.iterable(it)
        if isinstance(it, VIter) and getattr(fr, 'collector', None) is not None:
            self.list_extend(fr.collector, VList(self, items=None, seq=self.same_base(it)) if self.same_base(it) is not None else it)
            return None
        if not isinstance(it, list):
            self.where = e.lineno
            self.set_local('$yf', it)
            loop = ast.For(ast.Name('$y', ast.Store()), ast.Name('$yf', ast.Load()),
                           [ast.Expr(ast.Yield(ast.Name('$y', ast.Load())))], [])
            for y in ast.walk(loop):
                y.lineno, y.col_offset = e.lineno, e.col_offset
            self.s_For(loop)
            return None
        fr.at = None
        for x in it:
            fr.on_yield(x)
        return None

    def snapshot(self, fr, seen=None):
        """the frame as it is now, for element functions that are evaluated later"""
        if not isinstance(fr, Frame):
            return fr
        seen = {} if seen is None else seen
        if id(fr) in seen:
            return seen[id(fr)]
        f = Frame({}, fr.glob, None, fr.name)
        seen[id(fr)] = f
        for n, v in fr.vars.items():
            f.vars[n] = self.frozen(v, seen)
        f.glob = self.snapshot(fr.glob, seen)
        f.parent = self.snapshot(fr.parent, seen)
        f.globals_decl, f.nonlocals = set(fr.globals_decl), set(fr.nonlocals)
        return f

    def frozen(self, v, seen):
        """a copy of what the variable holds now"""
        if id(v) in seen:
            return seen[id(v)]
        if isinstance(v, VList):
            c = VList(self, items=None if v.items is None else list(v.items), seq=v.seq, kind=v.kind)
        elif isinstance(v, VDict):
            c = VDict(self, dict(v.d))
        elif isinstance(v, VInst):
            c = VInst(self, v.cls)
            seen[id(v)] = c
            c.attrs = {a: self.frozen(x, seen) for a, x in v.attrs.items()}
        else:
            return v
        seen[id(v)] = c
        c.frozen = True
        return c

    def pure(self, f, n):
        """run f(i) for an arbitrary i in range; its single outcome, or None"""
        saved = (self.work, self.prefix, self.pos, self.taken, self.solver, self.pc, self.nlits, self.frames, self.where)
        mark = self.mark()
        out, work = [], [[]]
        try:
            while work:
                self.work, self.prefix, self.pos, self.taken = work, work.pop(), 0, []
                self.frames = list(saved[7])
                s = z3.Solver()
                s.set('timeout', self.timeout)
                s.add(*saved[4].assertions())
                self.solver, self.pc = s, []
                i = self.fresh('int', 'any')
                self.assume(z3.And(i.t >= 0, i.t < n))
                try:
                    out.append((i, f(i.t)))
                except PyExc as e:
                    out.append((i, e))
                except PathEnd:
                    pass
                if len(out) > 1:
                    return None
        finally:
            self.work, self.prefix, self.pos, self.taken, self.solver, self.pc, self.nlits, self.frames, self.where = saved
        if self.effects(mark):
            return None
        return out[0] if len(out) == 1 and not isinstance(out[0][1], PyExc) else None

    def simple_body(self, stmts):
        """[(operation, name, expressions)] of a loop body without control flow, or None"""
        out = []
        for x in stmts:
            if isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            if isinstance(x, ast.Assign) and len(x.targets) == 1:
                t, v = x.targets[0], x.value
                if isinstance(t, ast.Name):
                    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == t.id:
                        out.append(('add', t.id, [v.right]))
                    else:
                        out.append(('temp', t, [v]))
                    continue
                if isinstance(t, ast.Tuple) and all(isinstance(y, ast.Name) for y in t.elts):
                    out.append(('temp', t, [v]))
                    continue
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and not isinstance(t.slice, ast.Slice):
                    out.append(('set', t.value.id, [t.slice, v]))
                    continue
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, ast.Add):
                out.append(('add', x.target.id, [x.value]))
                continue
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) \
                    and x.value.func.attr in ('append', 'extend', 'write') and isinstance(x.value.func.value, ast.Name) \
                    and len(x.value.args) == 1 and not x.value.keywords:
                a = x.value.args[0]
                if x.value.func.attr == 'append':
                    out.append(('append', x.value.func.value.id, [a]))
                    continue
                if isinstance(a, ast.List) and len(a.elts) == 1:
                    out.append(('append', x.value.func.value.id, [a.elts[0]]))
                    continue
                out.append((x.value.func.attr, x.value.func.value.id, [a]))
                continue
            return None
        return out

    def stored(self, ops, target):
        names = names_stored([target])
        for k, t, _ in ops:
            if k == 'temp':
                names |= names_stored([t])
        return names

    def summary(self, s, it):
        """a loop that only collects: the same as comprehensions over the sequence"""
        ops = self.simple_body(s.body)
        if not ops:
            return False
        fr = self.frames[-1]
        temps = self.stored(ops, s.target)
        accs = [(k, n) for k, n, _ in ops if k != 'temp']
        names = [n for _, n in accs]
        if not accs or len(set(names)) != len(names) or temps & set(names) or (temps | set(names)) & (fr.globals_decl | fr.nonlocals):
            return False
        kinds = []
        for i, (k, n) in enumerate(accs):
            v = fr.vars.get(n, UNDEF)
            if isinstance(v, VList) and v.items == [] and len(self.aliases(v)) == 1 and k in ('append', 'add') \
                    and not getattr(v, 'frozen', False):
                kinds.append('append')
            elif isinstance(v, VList) and len(self.aliases(v)) == 1 and k == 'append' and not getattr(v, 'frozen', False):
                kinds.append('extend')
            elif isinstance(v, VDict) and not v.d and len(self.aliases(v)) == 1 and k == 'set' and not getattr(v, 'frozen', False):
                kinds.append('set')
            elif k == 'add' and (isinstance(v, bytes) or isinstance(v, Sym) and v.ty == 'bytes'):
                kinds.append('join')
            elif isinstance(v, VInst) and len(self.aliases(v)) == 1 and (
                    v.cls is BUFFER and k in ('add', 'extend') or v.cls is STREAM and k == 'write'):
                kinds.append('buffer')
            else:
                return False
        snap = self.snapshot(fr)

        def values(t):
            child = Frame({}, snap.glob, snap, '<loop>')
            for n in temps:
                child.vars[n] = POISON
            for n, kind in zip(names, kinds):
                child.vars[n] = AccView(t) if kind not in ('extend', 'buffer') else POISON
            self.frames.append(child)
            out = []
            j = 0
            try:
                self.assign(s.target, it.item(t))
                for k, x, es in ops:
                    if k == 'temp':
                        self.assign(x, self.eval(es[0]))
                        continue
                    if k == 'set':
                        kk, v = es
                        v = self.eval(v)
                        out.append((self.eval(kk), v))
                    elif k == 'add' and kinds[j] == 'append':
                        if not (isinstance(es[0], ast.List) and len(es[0].elts) == 1):
                            raise Unsupported('list extended by more than one element')
                        out.append(self.eval(es[0].elts[0]))
                    else:
                        out.append(self.eval(es[0]))
                    if kinds[j] == 'append':
                        child.vars[x] = AccView(z3.simplify(t + 1))
                    elif kinds[j] in ('extend', 'buffer'):
                        child.vars[x] = POISON
                    elif kinds[j] == 'set':
                        child.vars[x] = POISON
                    j += 1
            finally:
                self.frames.pop()
            return out
        results = []
        try:
            for j in range(len(accs)):
                def item(t, j=j):
                    return values(t)[j]
                v = VIter(it.n, item, ('map', it, item))
                if kinds[j] in ('join', 'buffer'):
                    r = self.join(b'', self.lazy_list(v))
                elif kinds[j] in ('extend', 'append') and self.same_base(v) is not None:
                    kinds[j] = 'extend'
                    r = v
                elif kinds[j] == 'extend':
                    return False
                elif self.base_seq(v) is None:
                    if self.pure(item, it.n) is None:
                        return False
                    r = VSDict(v) if kinds[j] == 'set' else v
                else:
                    r = VSDict(self.lazy_list(v)) if kinds[j] == 'set' else self.lazy_list(v)
                results.append(r)
        except Unsupported:
            return False
        for (k, n), kind, r in zip(accs, kinds, results):
            if kind == 'join':
                self.set_local(n, self.binop('Add', fr.vars[n], r))
            elif kind == 'buffer':
                self.setattr(fr.vars[n], 'value', self.binop('Add', fr.vars[n].attrs['value'], self.octets(r)))
            elif kind == 'extend':
                self.list_extend(fr.vars[n], r)
            else:
                self.set_local(n, r)
        for n in temps:
            self.set_local(n, POISON)
        self.block(s.orelse)
        return True

    def search_loop(self, s, it):
        """for x in s: if key(x) == k: ...; break - the body runs for the first match only"""
        if not s.body or not isinstance(s.body[-1], ast.If):
            return False
        last = s.body[-1]
        if last.orelse or not last.body or not isinstance(last.body[-1], (ast.Break, ast.Return, ast.Raise)):
            return False
        ops = self.simple_body(s.body[:-1])
        if ops is None or any(k != 'temp' for k, _, _ in ops):
            return False
        fr = self.frames[-1]
        temps = self.stored(ops, s.target)
        if temps & (fr.globals_decl | fr.nonlocals):
            return False
        snap = self.snapshot(fr)

        def prepare(t, f):
            child = Frame({n: POISON for n in temps}, snap.glob, snap, '<loop>')
            self.frames.append(child)
            try:
                self.assign(s.target, it.item(t))
                for _, x, es in ops:
                    self.assign(x, self.eval(es[0]))
                return f()
            finally:
                self.frames.pop()
        r = self.find_first(it, last.test, prepare)
        if r is None:
            return False
        pos = r[0]
        if pos is None:
            for n in temps:
                self.set_local(n, POISON)
            self.block(s.orelse)
            return True
        self.assign(s.target, it.item(pos))
        for _, x, es in ops:
            self.assign(x, self.eval(es[0]))
        try:
            self.block(last.body)
        except BreakX:
            return True
        except ContinueX:
            raise Unsupported('search loop')
        raise Unsupported('search loop')

    def find_first(self, it, test, prepare):
        """([position of the first element for which key == k holds or None],); None: not such a test"""
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.Eq)):
            return None
        got = []
        try:
            for e in (test.left, test.comparators[0]):
                p = self.pure(lambda t: prepare(t, lambda: self.eval(e)), it.n)
                if p is None:
                    return None
                i, v = p
                ty = self.ty(v)
                if ty not in ('str', 'int', 'bytes'):
                    return None
                got.append((e, v, mentions(self.term(v, ty), i.t)))
        except Unsupported:
            return None
        moving = [x for x in got if x[2]]
        fixed = [x for x in got if not x[2]]
        if len(moving) != 1:
            return None
        e = moving[0][0]
        keys = VIter(it.n, lambda t: prepare(t, lambda: self.eval(e)))
        r = self.iter_find(keys, fixed[0][1], first=True)
        return (None if r is None else r.t,)

    def s_Assert(self, s):
        if not self.truth(self.eval(s.test)):
            raise PyExc(AssertionError, self.quiet(s.msg))

    def quiet(self, node):
        """evaluate a message expression: its value does not matter, its effects do"""
        if node is None:
            return None
        try:
            return self.eval(node)
        except Unsupported:
            return POISON

    def s_Raise(self, s):
        if s.exc is None:
            if getattr(self, 'handling', None):
                raise self.handling[-1]
            raise Unsupported('bare raise')
        v = self.eval(s.exc)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyExc(v)
        if isinstance(v, BaseException):
            raise PyExc(type(v), v)
        if isinstance(v, VClass):
            v = self.call(v, [], {})
        if isinstance(v, VInst):
            raise PyExc(v.cls, v)
        if isinstance(v, VExc):
            raise PyExc(v.cls, v)
        if isinstance(v, PyExc):
            raise v
        raise Unsupported('raise %r' % (v,))

    def s_Try(self, s):
        try:
            try:
                self.block(s.body)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e, self.eval(h.type)):
                        if h.name:
                            self.set_local(h.name, e.value if e.value is not None else POISON)
                        self.handling = getattr(self, 'handling', []) + [e]
                        try:
                            self.block(h.body)
                        finally:
                            self.handling = self.handling[:-1]
                        return
                raise
            else:
                self.block(s.orelse)
        except PathEnd:
            raise
        except (PyExc, ReturnX, BreakX, ContinueX, GenExit):
            self.block(s.finalbody)
            raise
        else:
            self.block(s.finalbody)

    def exc_match(self, e, t):
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, type) and isinstance(e.cls, type):
                if issubclass(e.cls, x):
                    return True
            elif x is e.cls:
                return True
            elif isinstance(e.cls, VClass) and isinstance(x, type):
                b = e.cls.chain()[-1]
                if isinstance(b, type) and issubclass(b, x):
                    return True
            elif isinstance(e.cls, VClass) and isinstance(x, VClass):
                if x in e.cls.chain():
                    return True
            elif not isinstance(x, (type, VClass)):
                raise Unsupported('except clause')
        return False

    def s_With(self, s, k=0):
        if k == len(s.items):
            return self.block(s.body)
        v = self.eval(s.items[k].context_expr)
        if not isinstance(v, (VInst, Obj)):
            raise Unsupported('with')
        enter, leave = self.getattr(v, '__enter__'), self.getattr(v, '__exit__')
        x = self.call(enter, [], {})
        if s.items[k].optional_vars is not None:
            self.assign(s.items[k].optional_vars, x)
        try:
            self.s_With(s, k + 1)
        except PyExc as e:
            if self.truth(self.call(leave, [e.cls, e.value if e.value is not None else POISON, POISON], {})):
                return
            raise
        except (ReturnX, BreakX, ContinueX, GenExit):
            self.call(leave, [None, None, None], {})
            raise
        else:
            self.call(leave, [None, None, None], {})

    def s_FunctionDef(self, s):
        ds = [self.eval(d) for d in s.decorator_list]
        v = self.mkfunc(s)
        for d in reversed(ds):
            v = self.decorate(d, v)
        self.assign_name(s.name, v)

    def decorate(self, d, v):
        if d in (property, staticmethod, classmethod) and isinstance(v, VFunc) and getattr(self.frames[-1], 'isclass', False):
            return VProp(d.__name__, v)
        if d is SAME:
            return v
        if isinstance(d, VFunc) or isinstance(d, types.FunctionType) and \
                os.path.realpath(d.__code__.co_filename).startswith(self.repo + os.sep):
            return self.call(d, [v], {})
        raise Unsupported('decorator')

    def mkfunc(self, n):
        a = n.args
        defaults = tuple(self.eval(d) for d in a.defaults)
        kwd = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fr = self.frames[-1]
        g = fr.glob
        while getattr(fr, 'isclass', False):
            fr = fr.parent      # names of a class are not seen by its methods
        return VFunc(n, fr, g, getattr(n, 'name', '<lambda>'), defaults, kwd)

    def s_ClassDef(self, s):
        bases = tuple(self.eval(b) for b in s.bases)
        bases = tuple(self.vclass(b) if self.plain_class(b) else b for b in bases)
        if s.keywords or s.decorator_list or sum(b is not object for b in bases) > 1:
            raise Unsupported('class with keywords, decorators or several bases')
        fr = Frame({}, self.frames[-1].glob, self.frames[-1], s.name)
        fr.isclass = True
        self.frames.append(fr)
        try:
            self.block(s.body)
        finally:
            self.frames.pop()
        if UNMODELLED & set(fr.vars):
            raise Unsupported('class with ' + ', '.join(sorted(UNMODELLED & set(fr.vars))))
        self.assign_name(s.name, VClass(s.name, bases, fr.vars))

    def s_Import(self, s):
        import importlib
        for a in s.names:
            m = self.neighbour(a.name)
            if m is not None:
                self.assign_name(a.asname or a.name, m)
                continue
            try:
                m = importlib.import_module(a.name)
            except ImportError as exc:
                raise PyExc(type(exc), exc)
            if a.asname:
                self.assign_name(a.asname, m)
            else:
                self.assign_name(a.name.split('.')[0], importlib.import_module(a.name.split('.')[0]))

    def s_ImportFrom(self, s):
        import importlib
        if s.module == '__future__':
            return
        if s.level:
            raise Unsupported('relative import')
        m = self.neighbour(s.module)
        if m is not None:
            for a in s.names:
                if a.name == '*':
                    raise Unsupported('import *')
                self.assign_name(a.asname or a.name, self.getattr(m, a.name, ImportError))
            return
        m = importlib.import_module(s.module)
        for a in s.names:
            if hasattr(m, a.name):
                v = getattr(m, a.name)
            else:
                try:
                    v = importlib.import_module(s.module + '.' + a.name)
                except ImportError as exc:
                    raise PyExc(ImportError, exc)
            self.assign_name(a.asname or a.name, v)

    def neighbour(self, name):
        """a module beside the script: executed like the script itself"""
        path = os.path.join(self.repo, 'tools', name + '.py')
        if self.frames[0].name != '<script>' or not os.path.exists(path):
            return None
        if name not in self.neighbours:
            with open(path) as f:
                tree = ast.parse(f.read())
            fr = Frame({'__name__': name, '__file__': path, '__doc__': None}, None, None, '<module>')
            fr.glob = fr
            self.neighbours[name] = VModule(name, fr)
            n = len(self.frames)
            self.frames.append(fr)
            try:
                self.block(tree.body)
            finally:
                del self.frames[n:]
        return self.neighbours[name]

    # -- names -------------------------------------------------------------------------------------
    def assign_name(self, n, v):
        fr = self.frames[-1]
        if n in fr.globals_decl:
            g = fr.glob
            if not isinstance(g, Frame) or g.name == '<module>' and g is not fr:
                raise Unsupported('assignment to a module global')
            self.note_assign(g, n)
            g.vars[n] = v
            return
        if n in fr.nonlocals:
            f = fr.parent
            while f is not None and n not in f.vars:
                f = f.parent
            if f is None:
                raise Unsupported('nonlocal')
            self.note_assign(f, n)
            f.vars[n] = v
            return
        self.set_local(n, v)

    def set_local(self, n, v):
        fr = self.frames[-1]
        if isinstance(v, (VIter, VList, VSearch)) and getattr(v, 'lazy', False) and n != '$yf':
            raise Unsupported('iterator kept in a variable')
        if self.gens:
            self.note_assign(fr, n)
        if v is UNDEF:
            fr.vars.pop(n, None)
        else:
            fr.vars[n] = v

    def mark(self):
        return self.tick(), self.events, len(self.mutlog), len(self.assignlog), len(self.frames)

    def effects(self, mark, but=None):
        """anything observable happened since the mark: an event, a change of an older object or an outer variable"""
        clock, ev, nm, na, depth = mark
        return self.events != ev or any(o.born <= clock and o is not but for o in self.mutlog[nm:]) or \
            any(i < depth for i, _ in self.assignlog[na:])

    def note_assign(self, f, n):
        for i, g in enumerate(self.frames):
            if g is f:
                self.assignlog.append((i, n))
                return
        raise Unsupported('assignment to a frame that is gone')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for a, b in zip(t.elts, vs):
                if isinstance(a, ast.Starred):
                    self.assign(a.value, b)
                else:
                    self.assign(a, b)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, elts):
        v = self.iterable(v)
        if not isinstance(v, list):
            raise Unsupported('unpacking %r' % (v,))
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if stars:
            i = stars[0]
            after = len(elts) - i - 1
            if len(v) < len(elts) - 1:
                raise PyExc(ValueError)
            mid = v[i:len(v) - after]
            return v[:i] + [VList(self, items=list(mid))] + v[len(v) - after:]
        if len(v) != len(elts):
            raise PyExc(ValueError)
        return v

    def lookup(self, n):
        fr = self.frames[-1]
        f = fr
        if n not in fr.globals_decl:
            while f is not None:
                if n in f.vars:
                    v = f.vars[n]
                    if v is POISON:
                        raise Unsupported('value of %s is not tracked across a loop' % n)
                    return v
                f = f.parent
        g = fr.glob
        if isinstance(g, Frame):
            if n in g.vars:
                if g.vars[n] is POISON:
                    raise Unsupported('value of %s is not tracked across a loop' % n)
                return g.vars[n]
        elif g is not None and n in g:
            return self.wrap(g[n])
        if n == '__name__':
            return '__main__'
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise PyExc(NameError, n)

    def wrap(self, v):
        """a native value met in a module namespace"""
        if type(v) in (list, dict):
            # a shared table: readable, not to be changed by the code under contract
            key = id(v)
            if key not in self.shared:
                self.shared[key] = VList(self, items=list(v)) if type(v) is list else VDict(self, dict(v))
                self.shared[key].frozen = True
            return self.shared[key]
        if isinstance(v, (list, dict, set, bytearray)) or type(v).__module__ in ('collections', 'itertools'):
            raise Unsupported('mutable object shared between calls')
        self.keep_obj(v)
        return v

    def keep_obj(self, v):
        if isinstance(v, (type, types.FunctionType, types.ModuleType)) and all(v is not o for o in self.keep):
            self.keep.append(v)

    # -- expressions ---------------------------------------------------------------------------------
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return tuple(self.elements(e.elts))

    def e_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = VList(self, items=[])
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.list_extend(r, self.eval(x.value))
                else:
                    self.list_append(r, self.eval(x))
            return r
        return VList(self, items=list(self.elements(e.elts)))

    def elements(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.iterable(self.eval(x.value))
                if not isinstance(v, list):
                    raise Unsupported('* of unknown length')
                out += v
            else:
                out.append(self.eval(x))
        return out

    def e_Set(self, e):
        vs = self.elements(e.elts)
        if all(self.concrete(v) for v in vs):
            return frozenset(vs)
        raise Unsupported('set display')

    def e_Dict(self, e):
        d = VDict(self)
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v)
                if not isinstance(o, VDict):
                    raise Unsupported('** of %r' % (o,))
                for k, x in o.d.items():
                    d.d[self.dkey(d, k)] = x
                continue
            kk = self.dkey(d, self.eval(k))
            d.d[kk] = self.eval(v)
        return d

    def dkey(self, d, k):
        """the key of a dictionary that equals k, or k"""
        objs = any(isinstance(x, Obj) for x in d.d)
        if self.concrete(k) and not objs:
            return k
        if not self.concrete(k) and not (isinstance(k, Obj) and k.constant()):
            raise Unsupported('symbolic dictionary key')
        for x in d.d:
            if self.truth(self.equal(k, x)):
                return x
        return k

    def e_Lambda(self, e):
        return self.mkfunc(e)

    def e_IfExp(self, e):
        return self.eval(e.body if self.truth(self.eval(e.test)) else e.orelse)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign_name(e.target.id, v)
        return v

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sym) and v.ty == 'bool':
                return Sym(z3.Not(v.t), 'bool')
            return not self.truth(v)
        if isinstance(v, Sym) and v.ty in ('int', 'bool'):
            t = self.term(v, 'int')
            if isinstance(e.op, ast.USub):
                return Sym(-t, 'int')
            if isinstance(e.op, ast.UAdd):
                return Sym(t, 'int')
        if isinstance(v, (int, float)):
            return {'USub': lambda: -v, 'UAdd': lambda: +v, 'Invert': lambda: ~v}[type(e.op).__name__]()
        raise Unsupported('unary operator')

    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.eval(e.left), self.eval(e.right))

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r)
            res = self.compare(type(op).__name__, left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def e_Subscript(self, e):
        o = self.eval(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower) if e.slice.lower else None
            hi = self.eval(e.slice.upper) if e.slice.upper else None
            st = self.eval(e.slice.step) if e.slice.step else None
            return self.getslice(o, lo, hi, st)
        return self.getitem(o, self.eval(e.slice))

    def e_Slice(self, e):
        return slice(self.eval(e.lower) if e.lower else None, self.eval(e.upper) if e.upper else None,
                     self.eval(e.step) if e.step else None)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = None
                if v.format_spec is not None:
                    f = self.eval(v.format_spec)
                    spec = f if isinstance(f, str) else None
                    if spec is None:
                        raise Unsupported('format spec')
                parts.append(self.textual(self.eval(v.value), spec or ''))
        return self.fmt(parts)

    def e_FormattedValue(self, e):
        return self.fmt([self.textual(self.eval(e.value), '')])

    def textual(self, v, spec=''):
        if isinstance(v, (str, int, bool)) and not isinstance(v, Sym) and v is not POISON:
            if self.spec.track_ints and isinstance(v, int) and spec in ('', 'd'):
                return v
            return format(v, spec) if spec else str(v)
        if spec not in ('', 'd', 's'):
            raise Unsupported('format spec %r' % spec)
        return v

    def fmt(self, parts):
        f = Fmt(parts)
        fl = f.flat()
        if all(isinstance(p, str) for p in fl):
            return ''.join(fl)
        return Fmt(fl)

    def e_Call(self, e):
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.iterable(self.eval(a.value))
                if not isinstance(v, list):
                    args.append(('*', v))
                else:
                    args += v
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if not isinstance(d, VDict):
                    raise Unsupported('**')
                kw.update(d.d)
            else:
                kw[k.arg] = self.eval(k.value)
        return self.call(f, args, kw, e)

    def e_ListComp(self, e):
        r = self.comprehension(e.generators, lambda: self.eval(e.elt), e.elt)
        if isinstance(r, VList):
            return r
        if isinstance(r, VIter):
            return self.listed(r)
        return VList(self, items=r)

    def e_GeneratorExp(self, e):
        g = e.generators
        it = self.eval(g[0].iter)
        it = it if isinstance(it, VGen) else self.iterable(it)
        if isinstance(it, (VGen, Obj)):
            return self.genexp(e, it)
        if len(g) == 1 and len(g[0].ifs) == 1 and isinstance(it, VIter):
            return VSearch(it, e, g[0], self.snapshot(self.frames[-1]))
        mark = self.mark()
        r = self.comprehension(e.generators, lambda: self.eval(e.elt), e.elt, it)
        if self.effects(mark):
            raise Unsupported('generator expression with effects')
        if isinstance(r, VIter):
            r.lazy = True
            return r
        r = VList(self, items=r) if not isinstance(r, VList) else r
        r.lazy = True
        return r

    def genexp(self, e, it):
        """a generator expression as the generator it stands for"""
        body = [ast.Expr(ast.Yield(e.elt))]
        for i, g in reversed(list(enumerate(e.generators))):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter if i else ast.Name('.0', ast.Load()), body, [])]
        n = ast.FunctionDef('<genexpr>', ast.arguments([], [ast.arg('.0')], None, [], [], None, []), body, [])
        for x in ast.walk(n):
            if not hasattr(x, 'lineno'):
                x.lineno, x.col_offset = e.lineno, e.col_offset
        here = self.frames[-1]
        return VGen(self, VFunc(n, here, here.glob, '<genexpr>'), {'.0': it})

    def search(self, v):
        """(found, element) of the first match of a VSearch"""
        def prepare(t, f):
            self.frames.append(Frame({}, v.frame.glob, v.frame, '<comp>'))
            try:
                self.assign(v.node.target, v.gen.item(t))
                return f()
            finally:
                self.frames.pop()
        r = self.find_first(v.gen, v.node.ifs[0], prepare)
        if r is None:
            raise Unsupported('condition of a generator expression')
        if r[0] is None:
            return False, None
        return True, prepare(r[0], lambda: self.eval(v.elt.elt))

    def e_SetComp(self, e):
        r = self.comprehension(e.generators, lambda: self.eval(e.elt))
        if isinstance(r, list) and all(self.concrete(x) for x in r):
            return frozenset(r)
        raise Unsupported('set comprehension')

    def e_DictComp(self, e):
        r = self.comprehension(e.generators, lambda: (self.eval(e.key), self.eval(e.value)))
        return self.todict(r)

    def todict(self, r):
        if isinstance(r, VIter):
            return VSDict(r)
        d = VDict(self)
        for x in r:
            k, v = self.pair(x)
            d.d[self.dkey(d, k)] = v
        return d

    def collect(self, v, gens=(), elt=None):
        """the elements of a generator, or of a comprehension with several parts: a list filled by a loop"""
        at = gens[0].target if gens else None

        def node(x):
            return ast.fix_missing_locations(ast.copy_location(x, at))
        here = self.frames[-1]
        fr = Frame({'$acc': VList(self, items=[]), '$it': v}, here.glob, here, '<collect>')
        body = []
        if gens:
            body = [node(ast.Expr(ast.Call(ast.Attribute(ast.Name('$acc', ast.Load()), 'append', ast.Load()), [elt], [])))]
        for i, g in reversed(list(enumerate(gens))):
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(c, body, []), c)]
            it = g.iter if i else node(ast.Name('$it', ast.Load()))
            body = [ast.copy_location(ast.For(g.target, it, body, []), g.target)]
        self.frames.append(fr)
        n = len(self.frames)
        try:
            if gens:
                self.block(body)
            else:
                self.run_generator(v, lambda x: self.list_append(fr.vars['$acc'], x), fr.vars['$acc'])
        finally:
            del self.frames[n - 1:]
        return fr.vars['$acc']

    def comprehension(self, gens, elt, node=None, first=None):
        fr = Frame({}, self.frames[-1].glob, self.frames[-1], '<comp>')
        here = self.frames[-1]

        def go(i):
            if i == len(gens):
                return [elt()]
            g = gens[i]
            it = first if first is not None and i == 0 else self.iterable(self.eval(g.iter))
            if isinstance(it, VIter):
                if len(gens) > 1 or g.ifs:
                    if i or node is None:
                        raise Unsupported('comprehension over an unknown sequence')
                    self.frames.pop()
                    try:
                        return self.collect(it, gens, node)
                    finally:
                        self.frames.append(fr)
                fr.parent = self.snapshot(here)
                fr.glob = fr.parent.glob

                def item(t):
                    self.frames.append(fr)
                    try:
                        self.assign(g.target, it.item(t))
                        return elt()
                    finally:
                        self.frames.pop()
                r = VIter(it.n, item, ('map', it, item))
                if node is not None:
                    r.comp = (it, gens, node, fr.parent)
                return r
            if isinstance(it, Obj):
                raise Unsupported('comprehension over a stream')
            out = []
            for x in it:
                self.assign(g.target, x)
                if all(self.truth(self.eval(c)) for c in g.ifs):
                    r = go(i + 1)
                    if isinstance(r, VIter):
                        raise Unsupported('nested unknown sequence')
                    out += r
            return out
        self.frames.append(fr)
        try:
            return go(0)
        finally:
            self.frames.pop()

    # -- sequences of unknown length ----------------------------------------------------------------
    def seq_iter(self, s):
        """VIter over a Sym sequence"""
        ety = 'int' if s.ty == 'bytes' else s.ty[1]
        it = VIter(z3.Length(s.t), lambda i: Sym(s.t[i], ety))
        it.base = s
        return it

    def listed(self, it):
        """the elements of a lazy sequence, evaluated now: a list unless the element function is a term"""
        try:
            return self.lazy_list(it)
        except Forks:
            if not hasattr(it, 'comp'):
                raise
        src, gens, node, fr = it.comp
        self.frames.append(fr)
        try:
            return self.collect(src, gens, node)
        finally:
            self.frames.pop()

    def base_seq(self, it):
        while isinstance(it, VIter):
            if getattr(it, 'base', None) is not None:
                return it.base
            it = it.mapped[1] if it.mapped else None
        return None

    def same_base(self, it):
        """the sequence that a lazy one gives element by element, unchanged"""
        base = self.base_seq(it)
        if base is None or it.mapped is None:
            return base
        try:
            _, v, bad = self.element_map(it, base, False)
        except Unsupported:
            return None
        ok = bad is None and v.t.eq(z3.Const('elem', v.t.sort())) and v.ty == ('int' if base.ty == 'bytes' else base.ty[1])
        return base if ok else None

    def lazy_list(self, it):
        """an immutable list f(s[0]), f(s[1]), ...: the element function is evaluated once on an
        arbitrary element; if it can raise, the list can"""
        base = self.base_seq(it)
        if base is None:
            if it.mapped is not None and self.pure(it.item, it.n) is None:
                raise Forks('element function that forks, fails or has effects')
            out = VIter(it.n, it.item, it.mapped)
            return out
        key, val, bad = self.element_map(it, base)
        if bad is not None:
            anybad = self.spec.anybad(self, key, base)
            if anybad is None:
                raise Unsupported('comprehension that can raise')
            if self.branch(anybad):
                raise PyExc(bad)
        out = VIter(it.n, it.item, it.mapped)
        out.base = None
        out.emap = (key, base)
        return out

    def element_map(self, it, base, keep=True):
        """(key, value template, exception class or None) of the function mapped over base"""
        ety = 'int' if base.ty == 'bytes' else base.ty[1]
        x = Sym(z3.Const('elem', sort_of(ety)), ety)
        sub = VIter(it.n, None)
        f = self.compose(it)
        # run f on an arbitrary element, collecting its outcomes in a private exploration
        saved = (self.work, self.prefix, self.pos, self.taken, self.solver, self.pc, self.nlits)
        outcomes = []
        work = [[]]
        while work:
            pre = work.pop()
            self.work, self.prefix, self.pos, self.taken = work, pre, 0, []
            self.solver = z3.Solver()
            self.solver.set('timeout', self.timeout)
            self.solver.add(*(self.axioms + self.facts))
            self.pc, self.nlits = [], 0
            ev = self.events
            try:
                v = f(x)
                outcomes.append(('v', v, list(self.pc)))
            except PyExc as exc:
                outcomes.append(('e', exc.cls, list(self.pc)))
            except PathEnd:
                pass
            if self.events != ev:
                self.work, self.prefix, self.pos, self.taken, self.solver, self.pc, self.nlits = saved
                raise Unsupported('effects in a comprehension over an unknown sequence')
        self.work, self.prefix, self.pos, self.taken, self.solver, self.pc, self.nlits = saved
        vs = [o for o in outcomes if o[0] == 'v']
        es = [o for o in outcomes if o[0] == 'e']
        if len(vs) != 1:
            raise Forks('element function with %d outcomes' % len(vs))
        v = vs[0][1]
        if not isinstance(v, Sym):
            raise Forks('element function value %r' % (v,))
        badc = z3.simplify(z3.Or([z3.And(o[2]) for o in es])) if es else None
        key = (v.t.sexpr(), str(v.ty), badc.sexpr() if badc is not None else '')
        if keep:
            self.register(key, x, v, badc)
        return key, v, (es[0][1] if es else None)

    def register(self, key, x, v, badc):
        """a new element function: the loops are inferred again, with facts about its join"""
        if key in self.maps:
            return
        self.maps[key] = (x, v, badc)
        if self.spec.tracks_joins and not self.final:
            for L in self.loops.values():
                L.locs, L.inv = [], {}
            self.changed = True

    def join_terms(self):
        """(variable, key, join of its elements, condition: one of them is bad) for the lists at hand"""
        out = []
        for n, v in self.lists():
            ty = self.ty(v)
            for key in sorted(self.maps, key=repr):
                x, val, badc = self.maps[key]
                if ty is None and v.items == []:
                    t = z3.Empty(sort_of(('seq', x.ty)))
                elif ty == ('seq', x.ty):
                    try:
                        t = self.term(v, ty)
                    except Unsupported:
                        continue
                else:
                    continue
                if val.ty != 'bytes' and not isinstance(val.ty, tuple):
                    continue
                out.append((n, key) + self.join_fact(key, t))
        return out

    def join_fact(self, key, t):
        x, v, badc = self.maps[key]
        J = self.ufn('join.%s.%s' % (key[0], key[2]), t.sort(), sort_of(v.ty))
        B = self.ufn('bad.%s.%s' % (key[0], key[2]), t.sort(), z3.BoolSort())

        def go(t):
            if z3.is_app_of(t, z3.Z3_OP_SEQ_EMPTY):
                return z3.Empty(sort_of(v.ty)), z3.BoolVal(False)
            if z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT):
                y = t.arg(0)
                return (z3.substitute(v.t, (x.t, y)),
                        z3.substitute(badc, (x.t, y)) if badc is not None else z3.BoolVal(False))
            if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
                rs = [go(c) for c in t.children()]
                return z3.Concat([r[0] for r in rs]), z3.Or([r[1] for r in rs])
            return J(t), B(t)
        j, b = go(t)
        if z3.is_app(t) and not z3.is_const(t):
            self.fact(J(t) == j)
            self.fact(B(t) == b)
        elif z3.is_app_of(t, z3.Z3_OP_SEQ_EMPTY):
            self.fact(J(t) == j)
            self.fact(z3.Not(B(t)))
        return J(t), B(t)

    def compose(self, it):
        """element -> value of a chain of maps over a base sequence"""
        if it.mapped is None:
            return lambda x: x
        kind, inner, item = it.mapped
        g = self.compose(inner)

        def f(x):
            # run the mapped function with the inner sequence pinned to one element
            y = g(x)
            old = inner.item
            inner.item = lambda t: y
            try:
                return item(z3.IntVal(0))
            finally:
                inner.item = old
        return f

    def iterable(self, v, eager=False):
        """value -> python list (known length) | VIter | stream Obj"""
        if isinstance(v, (tuple, list, range, frozenset)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, VList):
            if v.items is not None:
                return list(v.items)
            return self.seq_iter(v.seq)
        if isinstance(v, VDict):
            return list(v.d)
        if isinstance(v, VIter):
            return v
        if isinstance(v, VGen):
            mark = self.mark()
            r = self.iterable(self.collect(v))
            if not eager and self.effects(mark, v):
                raise Unsupported('generator with effects')
            return r
        if isinstance(v, Sym) and (v.ty == 'bytes' or isinstance(v.ty, tuple) and v.ty[0] == 'seq'):
            return self.seq_iter(v)
        if isinstance(v, Obj):
            return v.iter(self) if hasattr(v, 'iter') else v
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (map, filter, zip, enumerate)):
            return list(v)
        if v is None or isinstance(v, (int, float)):
            raise PyExc(TypeError)
        raise Unsupported('iteration over %r' % (v,))

    # -- lists -------------------------------------------------------------------------------------------
    def mutated(self, o):
        if getattr(o, 'frozen', False):
            raise Unsupported('change of a table shared between calls')
        self.mutlog.append(o)

    def list_append(self, l, v):
        self.mutated(l)
        if l.items is not None:
            l.items.append(v)
            return
        ety = l.seq.ty[1]
        if isinstance(v, VList):
            raise Unsupported('list in a list of unknown length')
        t = self.term(v, ety)
        l.seq = Sym(z3.Concat(l.seq.t, z3.Unit(t)), l.seq.ty)

    def list_extend(self, l, v):
        it = self.iterable(v)
        self.mutated(l)
        if isinstance(it, list):
            for x in it:
                self.list_append(l, x)
            return
        if isinstance(it, VIter):
            s = self.same_base(it)
            if s is None:
                got = self.listed(it)
                if not isinstance(got, VList):
                    raise Unsupported('extend by a lazy sequence')
                s = got.seq if got.items is None else Sym(self.term(got, self.ty(got)), self.ty(got)) if got.items else None
                if s is None:
                    return
            sty = s.ty if s.ty != 'bytes' else ('seq', 'int')
            if l.items is not None:
                l.seq = Sym(self.term(l, sty) if l.items else z3.Empty(sort_of(sty)), sty)
                l.items = None
            l.seq = Sym(z3.simplify(z3.Concat(self.term(l.seq, sty), s.t)), sty)
            return
        raise Unsupported('extend')

    # -- operators -----------------------------------------------------------------------------------------
    def concrete(self, v):
        if isinstance(v, (Sym, VList, VDict, VIter, VSDict, Fmt, Obj, Bound, VFunc, VClass, VInst, VSearch, VGen, AccView, VSuper, VProp, VModule,
                          Marker, Bound2)) or v is POISON:
            return False
        if isinstance(v, tuple):
            return all(self.concrete(x) for x in v)
        return True

    def native(self, v):
        """deep native copy of a value made of concrete parts, else raise"""
        if isinstance(v, VList) and v.items is not None:
            return [self.native(x) for x in v.items]
        if isinstance(v, VDict):
            return {self.native(k): self.native(x) for k, x in v.d.items()}
        if isinstance(v, tuple):
            return tuple(self.native(x) for x in v) if not hasattr(v, '_fields') else type(v)(*[self.native(x) for x in v])
        if self.concrete(v):
            return v
        raise Unsupported('not concrete: %r' % (v,))

    def isnative(self, v):
        try:
            self.native(v)
            return True
        except Unsupported:
            return False

    def truth(self, v):
        if v is POISON:
            raise Unsupported('truth of an untracked value')
        if isinstance(v, Sym):
            if v.ty == 'bool':
                return self.branch(v.t)
            if v.ty == 'int':
                return self.branch(v.t != 0)
            if v.ty == 'str':
                return self.branch(v.t != self.lit(''))
            if v.ty == 'bytes' or isinstance(v.ty, tuple) and v.ty[0] == 'seq':
                return self.branch(z3.Length(v.t) > 0)
            raise Unsupported('truth of %r' % (v,))
        if isinstance(v, VList):
            return bool(v.items) if v.items is not None else self.branch(z3.Length(v.seq.t) > 0)
        if isinstance(v, VDict):
            return bool(v.d)
        if isinstance(v, VIter):
            return self.branch(v.n > 0)
        if isinstance(v, Obj):
            return self.truth(v.truth(self))
        if isinstance(v, Fmt):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            raise Unsupported('truth of text')
        if isinstance(v, (VFunc, VClass, Bound)):
            return True
        if isinstance(v, VInst):
            todo = [v.cls]
            for c in todo:
                if not isinstance(c, VClass):
                    if c is not object and not (isinstance(c, type) and issubclass(c, BaseException)):
                        raise Unsupported('truth of an instance')
                    continue
                if any(m in c.ns for m in ('__bool__', '__len__')):
                    raise Unsupported('truth of an instance')
                todo += c.bases
            return True
        try:
            return bool(v)
        except Exception as exc:
            raise PyExc(type(exc), exc)

    def binop(self, op, a, b):
        if op == 'Add' and (hasattr(a, 'add') or hasattr(b, 'add')):
            return a.add(self, b, True) if hasattr(a, 'add') else b.add(self, a, False)
        if op == 'Mod' and isinstance(a, str) and self.spec.track_ints and any(
                type(x) is int for x in (b if isinstance(b, tuple) else (b,))):
            return self.percent(a, b)
        if self.concrete(a) and self.concrete(b):
            import operator
            f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Mod': operator.mod,
                 'FloorDiv': operator.floordiv, 'Div': operator.truediv, 'BitOr': operator.or_,
                 'BitAnd': operator.and_, 'LShift': operator.lshift, 'RShift': operator.rshift,
                 'BitXor': operator.xor, 'Pow': operator.pow}.get(op)
            if f is None:
                raise Unsupported(op)
            try:
                return f(a, b)
            except Exception as exc:
                raise PyExc(type(exc), exc)
        if op == 'Mod' and isinstance(a, (str, Fmt)):
            return self.percent(a, b)
        if op == 'Mult' and isinstance(a, VList) and a.items is not None and type(b) is int:
            return VList(self, items=a.items * b, kind=a.kind)
        if op == 'Add':
            if isinstance(a, VList) and isinstance(b, VList):
                r = VList(self, items=[])
                self.list_extend(r, a)
                self.list_extend(r, b)
                return r
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (str, Fmt)) or isinstance(b, (str, Fmt)):
                ta, tb = self.ty(a), self.ty(b)
                if isinstance(a, Fmt) or isinstance(b, Fmt):
                    return self.fmt([a, b])
                if ta == tb == 'str':
                    if a == '' and not isinstance(a, Sym):
                        return b
                    if b == '' and not isinstance(b, Sym):
                        return a
                    return self.str_op('cat', [a, b])
                raise PyExc(TypeError)
            ta, tb = self.ty(a), self.ty(b)
            if ta == 'str' and tb == 'str':
                return self.str_op('cat', [a, b])
            if ta == 'bytes' and tb == 'bytes':
                return Sym(z3.simplify(z3.Concat(self.term(a, 'bytes'), self.term(b, 'bytes'))), 'bytes')
            if isinstance(a, VList) or isinstance(b, VList):
                if isinstance(a, tuple) or isinstance(b, tuple):
                    raise PyExc(TypeError)
                raise Unsupported('%s on %r, %r' % (op, a, b))
            if a == () and isinstance(tb, tuple):
                return b
            if b == () and isinstance(ta, tuple):
                return a
            if isinstance(ta, tuple) and ta == tb:
                return Sym(z3.simplify(z3.Concat(self.term(a, ta), self.term(b, ta))), ta)
            if ta in ('bytes', 'str') and tb in ('bytes', 'str') and ta != tb:
                raise PyExc(TypeError)
        ta, tb = self.ty(a), self.ty(b)
        if ta in ('int', 'bool') and tb in ('int', 'bool'):
            x, y = self.term(a, 'int'), self.term(b, 'int')
            if op == 'Add':
                return Sym(z3.simplify(x + y), 'int')
            if op == 'Sub':
                return Sym(z3.simplify(x - y), 'int')
            if op == 'Mult':
                return Sym(z3.simplify(x * y), 'int')
            if op in ('FloorDiv', 'Mod') and isinstance(b, int) and b > 0:
                return Sym(x / y if op == 'FloorDiv' else x % y, 'int')
            if op == 'BitAnd':
                for u, v in ((x, b), (y, a)):
                    if isinstance(v, int) and v >= 0 and v & (v + 1) == 0:
                        return Sym(z3.simplify(u % (v + 1)), 'int')
            if op in ('RShift', 'LShift') and isinstance(b, int) and 0 <= b < 4096:
                return Sym(z3.simplify(x / 2 ** b if op == 'RShift' else x * 2 ** b), 'int')
            if op in ('BitAnd', 'BitOr', 'BitXor') and 'bool' not in (ta, tb):
                # no bit-level theory: some function of the operands
                return Sym(self.ufn('int.' + op, I, I, I)(x, y), 'int')
        raise Unsupported('%s on %r, %r' % (op, a, b))

    def str_op(self, name, args):
        f = self.ufn('str.' + name, *([S] * len(args) + [S]))
        return Sym(f(*[self.term(a, 'str') for a in args]), 'str')

    def percent(self, a, b):
        if not isinstance(a, str):
            raise Unsupported('% on text')
        import re
        vals = list(b) if isinstance(b, tuple) else [b]
        if isinstance(b, VDict):
            raise Unsupported('% with a dictionary')
        parts, pos, i = [], 0, 0
        for m in re.finditer(r'%(%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])', a):
            parts.append(a[pos:m.start()])
            pos = m.end()
            if m.group(1) == '%':
                parts.append('%')
                continue
            if i >= len(vals):
                raise PyExc(TypeError)
            v = vals[i]
            i += 1
            if self.concrete(v):
                if self.spec.track_ints and isinstance(v, int) and m.group(1) in ('s', 'd', 'i'):
                    parts.append(v)
                    continue
                try:
                    parts.append(m.group() % (v,))
                except Exception as exc:
                    raise PyExc(type(exc), exc)
            elif m.group(1) in ('s', 'd', 'i'):
                if m.group(1) in ('d', 'i') and not (isinstance(v, Sym) and v.ty in ('int', 'bool')):
                    raise Unsupported('%d of a non-integer')
                parts.append(v)
            else:
                raise Unsupported('format %s' % m.group())
        parts.append(a[pos:])
        if i != len(vals):
            raise PyExc(TypeError)
        return self.fmt(parts)

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            if isinstance(a, Sym) or isinstance(b, Sym):
                o = b if isinstance(a, Sym) else a
                if o is None:
                    return op == 'IsNot'
                if isinstance(o, bool) or (isinstance(a, Sym) and isinstance(b, Sym)):
                    raise Unsupported('is')
                return op == 'IsNot'
            if a is POISON or b is POISON:
                raise Unsupported('is')
            r = a is b
            return r if op == 'Is' else not r
        if op in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            if op == 'Eq':
                return r
            return (not r) if isinstance(r, bool) else Sym(z3.Not(r.t), 'bool')
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            if op == 'In':
                return r
            return (not r) if isinstance(r, bool) else Sym(z3.Not(r.t), 'bool')
        if self.concrete(a) and self.concrete(b):
            try:
                return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
            except Exception as exc:
                raise PyExc(type(exc), exc)
        if self.ty(a) in ('int', 'bool') and self.ty(b) in ('int', 'bool'):
            x, y = self.term(a, 'int'), self.term(b, 'int')
            return Sym({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op], 'bool')
        raise Unsupported('%s on %r, %r' % (op, a, b))

    def equal(self, a, b):
        """bool or Sym bool"""
        if a is POISON or b is POISON:
            raise Unsupported('comparison with an untracked value')
        if isinstance(a, Obj):
            return a.eq(self, b)
        if isinstance(b, Obj):
            return b.eq(self, a)
        if isinstance(a, tuple) and isinstance(b, tuple) and not (self.concrete(a) and self.concrete(b)):
            if len(a) != len(b):
                return False
            cs = []
            for x, y in zip(a, b):
                r = self.equal(x, y)
                if r is False:
                    return False
                if r is not True:
                    cs.append(r.t)
            return Sym(z3.And(cs), 'bool') if cs else True
        if self.concrete(a) and self.concrete(b):
            try:
                return bool(a == b)
            except Exception as exc:
                raise PyExc(type(exc), exc)
        ta, tb = self.ty(a), self.ty(b)
        if isinstance(a, (Sym, VList)) or isinstance(b, (Sym, VList)):
            if (isinstance(a, VList) and a.items == [] and isinstance(tb, tuple)) or \
                    (isinstance(b, VList) and b.items == [] and isinstance(ta, tuple)):
                t = tb if isinstance(tb, tuple) else ta
                o = b if isinstance(tb, tuple) else a
                return Sym(z3.Length(self.term(o, t)) == 0, 'bool')
            if ta is None or tb is None:
                if a is None or b is None:
                    return False
                raise Unsupported('== on %r, %r' % (a, b))
            if ta in ('int', 'bool') and tb in ('int', 'bool'):
                return Sym(self.term(a, 'int') == self.term(b, 'int'), 'bool')
            if ta == tb or {ta, tb} <= {'bytes', ('seq', 'int')}:
                if (ta == 'bytes') != (tb == 'bytes'):
                    return False
                return Sym(self.term(a, ta) == self.term(b, ta), 'bool')
            return False
        if isinstance(a, Fmt) or isinstance(b, Fmt):
            raise Unsupported('== on text')
        if isinstance(a, (VFunc, VClass, Bound)) or isinstance(b, (VFunc, VClass, Bound)):
            return a is b
        raise Unsupported('== on %r, %r' % (a, b))

    def contains(self, c, x):
        if isinstance(c, VSDict):
            return self.sd_find(c, x) is not None
        if isinstance(c, VDict):
            ks = list(c.d)
            if self.concrete(x) and not any(isinstance(k, Obj) for k in ks):
                return x in c.d
            for k in ks:
                if self.truth(self.equal(x, k)):
                    return True
            return False
        if isinstance(c, Obj):
            return c.contains(self, x)
        if self.concrete(c) and self.concrete(x):
            try:
                return x in c
            except Exception as exc:
                raise PyExc(type(exc), exc)
        if isinstance(c, dict):
            for k in list(c):
                if self.truth(self.equal(x, k)):
                    return True
            return False
        if isinstance(c, (tuple, VList, frozenset)):
            it = self.iterable(c)
            if isinstance(it, list):
                for k in it:
                    if self.truth(self.equal(x, k)):
                        return True
                return False
        if isinstance(c, (VIter, VList, Sym)):
            it = self.iterable(c)
            if isinstance(it, VIter) and not (isinstance(c, Sym) and c.ty == 'str'):
                return self.iter_find(it, x) is not None
        raise Unsupported('in %r' % (c,))

    def sd_find(self, d, k):
        """index of the pair a dictionary lookup ends at, or None; forks"""
        it = VIter(d.it.n, lambda i: self.pair(d.it.item(i))[0])
        return self.iter_find(it, k, last=True)

    def pair(self, v):
        v = self.iterable(v)
        if not isinstance(v, list) or len(v) != 2:
            raise Unsupported('dictionary items')
        return v

    def iter_find(self, it, k, last=False, first=False):
        kt = self.term(k, self.ty(k))
        r = self.spec.find(self, it, k)
        if r is not None:
            found, idx = r
            return Sym(idx, 'int') if self.branch(found) else None
        # no spec function for it: existential with a fresh witness / universal
        i = self.fresh('int', 'found')
        j = z3.Int('j!q')
        key_i = self.term(it.item(i.t), self.ty(k))
        key_j = self.term(it.item(j), self.ty(k))
        if self.choose(2) == 0:
            self.assume(z3.And(i.t >= 0, i.t < it.n, key_i == kt))
            if last:
                self.assume(z3.ForAll([j], z3.Implies(z3.And(j > i.t, j < it.n), key_j != kt)))
            if first:
                self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i.t), key_j != kt)))
            if self.query() == z3.unsat:
                raise PathEnd()
            return i
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < it.n), key_j != kt)))
        if self.query() == z3.unsat:
            raise PathEnd()
        return None

    # -- subscripts --------------------------------------------------------------------------------------------
    def index(self, n, i):
        """python index -> term in range, or IndexError"""
        it = self.term(i, 'int')
        if self.branch(it < 0):
            it = it + n
        if not self.branch(z3.And(it >= 0, it < n)):
            raise PyExc(IndexError)
        return it

    def getitem(self, o, i):
        if isinstance(i, slice):
            return self.getslice(o, i.start, i.stop, i.step)
        if isinstance(o, Obj):
            return o.getitem(self, i)
        if isinstance(o, VSDict):
            r = self.sd_find(o, i)
            if r is None:
                raise PyExc(KeyError)
            return self.pair(o.it.item(r.t))[1]
        if isinstance(o, VDict) or isinstance(o, dict):
            d = o.d if isinstance(o, VDict) else o
            if self.concrete(i) and not any(isinstance(k, Obj) for k in d):
                if i in d:
                    return d[i]
                raise PyExc(KeyError)
            for k in d:
                if self.truth(self.equal(i, k)):
                    return d[k]
            raise PyExc(KeyError)
        if isinstance(o, (tuple, list)) or isinstance(o, VList) and o.items is not None:
            xs = o.items if isinstance(o, VList) else o
            if isinstance(i, Sym):
                t = self.term(i, 'int')
                for j in range(len(xs)):
                    if self.branch(z3.Or(t == j, t == j - len(xs))):
                        return xs[j]
                raise PyExc(IndexError)
            try:
                return xs[i]
            except Exception as exc:
                raise PyExc(type(exc), exc)
        if isinstance(o, VIter):
            return o.item(self.index(o.n, i))
        if isinstance(o, (Sym, VList)):
            s = o.seq if isinstance(o, VList) else o
            if s.ty == 'bytes' or isinstance(s.ty, tuple) and s.ty[0] == 'seq':
                t = self.index(z3.Length(s.t), i)
                return Sym(s.t[t], 'int' if s.ty == 'bytes' else s.ty[1])
            raise Unsupported('[] on %r' % (o,))
        h = self.spec.native_method(self, o, '__getitem__', [i], {})
        if h is not None:
            return h[0]
        if self.concrete(o) and self.concrete(i):
            try:
                return self.wrap(o[i])
            except Exception as exc:
                raise PyExc(type(exc), exc)
        if self.concrete(o) and isinstance(o, (str, bytes)):
            raise Unsupported('symbolic index')
        raise Unsupported('[] on %r' % (o,))

    def bound(self, v, n, default):
        if v is None:
            return default
        t = self.term(v, 'int')
        t = z3.If(t < 0, t + n, t)
        return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))

    def getslice(self, o, lo, hi, st=None):
        if st not in (None, 1):
            if self.concrete(o) and all(self.concrete(x) for x in (lo, hi, st)):
                return o[lo:hi:st]
            raise Unsupported('step')
        if isinstance(o, Obj):
            return o.getslice(self, lo, hi)
        if isinstance(o, VList) and o.items is not None and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return VList(self, items=o.items[lo:hi])
        if isinstance(o, (tuple, str, bytes, list)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return o[lo:hi]
        if isinstance(o, VIter):
            n = o.n
            a, b = self.bound(lo, n, z3.IntVal(0)), self.bound(hi, n, n)
            m = z3.If(b > a, b - a, z3.IntVal(0))
            return VIter(z3.simplify(m), lambda i: o.item(i + a))
        s = o.seq if isinstance(o, VList) else o
        t = self.ty(s)
        if t == 'bytes' or isinstance(t, tuple) and t[0] == 'seq':
            x = self.term(s, t)
            n = z3.Length(x)
            a, b = self.bound(lo, n, z3.IntVal(0)), self.bound(hi, n, n)
            r = Sym(z3.simplify(z3.SubSeq(x, a, z3.If(b > a, b - a, z3.IntVal(0)))), t)
            return VList(self, seq=r) if isinstance(o, VList) else r
        raise Unsupported('slice of %r' % (o,))

    def setitem(self, o, i, v):
        if isinstance(o, Obj):
            return o.setitem(self, i, v)
        if self.spec.native_method(self, o, '__setitem__', [i, v], {}) is not None:
            return
        if isinstance(o, VDict):
            i = self.dkey(o, i)
            self.mutated(o)
            o.d[i] = v
            return
        if isinstance(o, VList) and isinstance(i, slice) and i.step in (None, 1):
            lo, hi = self.getslice(o, None, i.start), self.getslice(o, i.stop, None) if i.stop is not None else None
            if i.start is None:
                lo = VList(self, items=[])
            mid = VList(self, items=[])
            self.list_extend(mid, v)
            if i.stop is not None and not (i.start is None and isinstance(i.stop, int) and i.stop == 0):
                # l[a:b] with b < a inserts at a
                n = self.b_len([o], {})
                n = self.term(n, 'int')
                a, b = self.bound(i.start, n, z3.IntVal(0)), self.bound(i.stop, n, n)
                if not self.implied(a <= b):
                    raise Unsupported('slice assignment')
            r = VList(self, items=[])
            for x in (lo, mid) + ((hi,) if hi is not None else ()):
                self.list_extend(r, x)
            self.mutated(o)
            o.items, o.seq = r.items, r.seq
            return
        if isinstance(o, VList) and o.items is not None and isinstance(i, int):
            self.mutated(o)
            try:
                o.items[i] = v
            except IndexError as exc:
                raise PyExc(IndexError, exc)
            return
        raise Unsupported('[]= on %r' % (o,))

    # -- attributes ------------------------------------------------------------------------------------------------
    def getattr(self, o, name, missing=AttributeError):
        if isinstance(o, Obj):
            return o.attr(self, name)
        if isinstance(o, (Sym, VList, VDict, VIter, VSDict, Fmt)):
            return Bound(o, name)
        if isinstance(o, VInst):
            self.private(o, name)
            if name in o.attrs:
                return o.attrs[name]
            return self.class_attr(o, o.cls, name)
        if isinstance(o, VModule):
            if name not in o.frame.vars:
                raise PyExc(missing)
            return o.frame.vars[name]
        if isinstance(o, VSuper):
            if name == '__init__' and not any(isinstance(c, VClass) and name in c.ns for c in o.chain) and o.chain[-1] is object:
                return NOTHING
            return self.class_attr(o.inst, o.inst.cls, name, o.chain)
        if isinstance(o, VClass):
            for c in o.chain():
                if not isinstance(c, VClass):
                    return self.getattr(c, name)
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, VProp):
                        if v.kind == 'property':
                            raise Unsupported('property of a class')
                        return v.func if v.kind == 'staticmethod' else Bound2(o, v.func)
                    return v
        if isinstance(o, (VFunc, Bound)):
            raise Unsupported('attribute of a function')
        if o is POISON:
            raise Unsupported('attribute of an untracked value')
        h = self.spec.native_attr(self, o, name)
        if h is not None:
            return h[0]
        if isinstance(o, tuple) and name in getattr(o, '_fields', ()):
            return getattr(o, name)
        if isinstance(o, (str, bytes, tuple, list, dict)) or isinstance(o, type) is False and not isinstance(
                o, types.ModuleType) and not self.is_plain(o):
            return Bound(o, name)
        try:
            v = getattr(o, name)
        except AttributeError as exc:
            raise PyExc(AttributeError, exc)
        return self.wrap(v)

    def is_plain(self, o):
        return not callable(getattr(type(o), '__call__', None)) and isinstance(o, (int, float)) or o is None

    def class_attr(self, inst, cls, name, chain=None):
        for c in cls.chain() if chain is None else chain:
            if isinstance(c, VClass):
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, VProp):
                        return self.call(v.func, [inst], {}) if v.kind == 'property' else \
                            v.func if v.kind == 'staticmethod' else Bound2(inst.cls, v.func)
                    return Bound2(inst, v) if isinstance(v, (VFunc, types.FunctionType)) else v
                continue
            if name == '__class__':
                return inst.cls
            if name == '__dict__':
                raise Unsupported('__dict__ of an instance')
            h = self.spec.base_method(self, inst, c, name)
            if h is not None:
                return h
            if c is object and not hasattr(object, name):
                raise PyExc(AttributeError)
            raise Unsupported('inherited attribute %s' % name)

    def b_super(self, args, kw):
        f = self.frames[-1].func if hasattr(self.frames[-1], 'func') else None
        owner = getattr(f, 'owner', None)
        if len(args) == 2 and isinstance(args[0], VClass) and isinstance(args[1], VInst):
            owner, inst = args
        elif args or kw or owner is None or not f.node.args.args:
            raise Unsupported('super')
        else:
            inst = self.frames[-1].vars[f.node.args.args[0].arg]
        if not isinstance(inst, VInst) or owner not in inst.cls.chain():
            raise Unsupported('super')
        ch = inst.cls.chain()
        return VSuper(inst, ch[ch.index(owner) + 1:])

    def private(self, inst, name):
        if name.startswith('__') and not name.endswith('__') and isinstance(inst.cls, VClass) and \
                sum(isinstance(c, VClass) for c in inst.cls.chain()) > 1:
            raise Unsupported('private name in a class with bases')

    def setattr(self, o, name, v):
        if isinstance(o, VInst):
            self.private(o, name)
            if any(isinstance(c, VClass) and isinstance(c.ns.get(name), VProp) for c in o.cls.chain()):
                raise Unsupported('assignment to a property')
            if getattr(o, 'frozen', False):
                raise Unsupported('change of an object shared between calls')
            self.mutated(AttrChange(o, name))
            if getattr(v, 'lazy', False) and isinstance(v, (VIter, VList, VSearch, VGen)):
                raise Unsupported('iterator kept in an attribute')
            o.attrs[name] = v
            return
        if isinstance(o, Obj) and hasattr(o, 'setattr'):
            return o.setattr(self, name, v)
        raise Unsupported('attribute assignment')

    # -- calls --------------------------------------------------------------------------------------------------------
    def call(self, f, args, kw, node=None):
        if any(isinstance(a, tuple) and len(a) == 2 and a[0] == '*' and isinstance(a[1], (VIter, Obj)) for a in args):
            h = self.contracts.get(id(f))
            if h is not None:
                return h(self, args, kw)
            if isinstance(f, VFunc) or isinstance(f, types.FunctionType):
                return self.call_star(f, args, kw)
            if f is zip or f is map:
                raise Unsupported('* of unknown length')
            raise Unsupported('* of unknown length')
        h = self.contracts.get(id(f))
        if h is not None:
            return h(self, args, kw)
        if isinstance(f, Bound2):
            return self.call(f.func, [f.obj] + args, kw)
        if isinstance(f, Bound):
            return self.method(f.obj, f.name, args, kw)
        if isinstance(f, VFunc):
            return self.invoke(f, args, kw)
        if f is NOTHING and not args and not kw:
            return None
        if f is functools.wraps and len(args) == 1 and not kw:
            return SAME
        if isinstance(f, Obj):
            return f.call(self, args, kw)
        if isinstance(f, VClass):
            inst = VInst(self, f)
            init = [c.ns['__init__'] for c in f.chain() if isinstance(c, VClass) and '__init__' in c.ns]
            init = init[0] if init else None
            if init is not None:
                self.call(init, [inst] + args, kw)
            elif args or kw:
                b = f.chain()[-1]
                if isinstance(b, type) and issubclass(b, BaseException):
                    return inst
                raise Unsupported('constructor arguments')
            return inst
        if isinstance(f, VInst):
            m = self.class_attr(f, f.cls, '__call__')
            if m is None:
                raise PyExc(TypeError)
            return self.call(m, args, kw)
        if isinstance(f, types.FunctionType):
            fn = os.path.realpath(f.__code__.co_filename)
            if fn.startswith(self.repo + os.sep):
                return self.invoke(self.vfunc(f), args, kw)
        b = getattr(self, 'b_' + getattr(f, '__name__', '?'), None) if getattr(
            builtins, getattr(f, '__name__', '?'), None) is f else None
        if b is not None:
            r = b(args, kw)
            if r is not NotImplemented:
                return r
        h = self.spec.native_call(self, f, args, kw)
        if h is not None:
            return h[0]
        if f is io.BytesIO and not args and not kw:
            return self.call(STREAM, [], {})
        if f is contextlib.closing and len(args) == 1 and not kw:
            return self.call(CLOSING, args, {})
        if f is collections.namedtuple:
            if not all(self.isnative(a) for a in list(args) + list(kw.values())):
                raise Unsupported('namedtuple')
            r = f(*[self.native(a) for a in args], **{k: self.native(a) for k, a in kw.items()})
            self.keep_obj(r)
            return r
        if isinstance(f, type) and issubclass(f, tuple) and f.__bases__ == (tuple,) and '_field_defaults' in vars(f):
            try:
                return f(*args, **kw)
            except TypeError as exc:
                raise PyExc(TypeError, exc)
        if self.plain_class(f):
            return self.call(self.vclass(f), args, kw)
        if isinstance(f, type) and f in ITERTOOLS:
            return self.prelude(ITERTOOLS[f], args, kw)
        if f is functools.reduce and not kw:
            return self.prelude('reduce' if len(args) == 2 else 'reduce_from', args)
        if f is itertools.repeat and len(args) == 1 and not kw:
            return self.prelude('repeat', args)
        if f is itertools.chain and not kw and any(self.lazily(a) for a in args):
            return self.prelude('chain', args)
        if f in CHAIN and not kw and (f is itertools.chain or len(args) == 1):
            r = self.chained(args[0] if f is not itertools.chain else tuple(args))
            r.lazy = True
            return r
        if type(f) is type(str.strip) and args and isinstance(args[0], (Sym, VList, VDict)):
            py = {'str': str, 'bytes': bytes}.get(args[0].ty) if isinstance(args[0], Sym) else \
                list if isinstance(args[0], VList) else dict
            if py is not f.__objclass__:
                raise PyExc(TypeError)
            return self.method(args[0], f.__name__, args[1:], kw)
        if all(self.isnative(a) for a in args) and all(self.isnative(a) for a in kw.values()):
            return self.native_call(f, args, kw)
        if isinstance(f, type) and issubclass(f, Exception) and f.__module__ == 'builtins' and not kw \
                and f.__init__ is not object.__init__ and not issubclass(f, (OSError, UnicodeError, ImportError)):
            return VExc(f)
        raise Unsupported('call of %s with symbolic arguments' % getattr(f, '__name__', f))

    def native_call(self, f, args, kw):
        if not callable(f):
            raise PyExc(TypeError)
        if not self.spec.allowed(f):
            raise Unsupported('call of %r outside the contracts' % (getattr(f, '__qualname__', f),))
        try:
            r = f(*[self.native(a) for a in args], **{k: self.native(a) for k, a in kw.items()})
        except SystemExit as exc:
            raise PyExc(SystemExit, exc)
        except Exception as exc:
            raise PyExc(type(exc), exc)
        if isinstance(r, list):
            return VList(self, items=list(r))
        if isinstance(r, dict) and type(r) is dict:
            return VDict(self, dict(r))
        return r

    def vfunc(self, f):
        table, tree = source_functions(os.path.realpath(f.__code__.co_filename))
        c = table.get(f.__code__.co_firstlineno, ())
        c = [n for n in c if getattr(n, 'name', '<lambda>') == f.__name__]
        if len(c) != 1:
            raise Unsupported('source of %s' % f.__name__)
        if f.__closure__:
            raise Unsupported('closure')
        if any(not (isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod')) for d in getattr(c[0], 'decorator_list', ())):
            raise Unsupported('decorator')      # the function of a property is the one written
        self.stats['inlined'].add('%s:%s' % (os.path.relpath(f.__code__.co_filename, self.repo), f.__name__))
        return VFunc(c[0], None, f.__globals__, f.__name__, tuple(self.wrap(d) for d in f.__defaults__ or ()),
                     {k: self.wrap(d) for k, d in (f.__kwdefaults__ or {}).items()})

    def plain_class(self, f):
        return isinstance(f, type) and type(f) is type and f is not object and all(
            c is object or os.path.realpath(getattr(sys.modules.get(c.__module__), '__file__', None) or '')
            .startswith(self.repo + os.sep) for c in f.__mro__)

    def vclass(self, c):
        """a plain class of the repository: its methods are executed like functions"""
        if '__slots__' in vars(c) or c in self.classes:
            if c in self.classes:
                return self.classes[c]
            raise Unsupported('class with slots')
        ns = {}
        for n, v in vars(c).items():
            if n in ('__module__', '__dict__', '__weakref__', '__doc__', '__qualname__', '__firstlineno__', '__static_attributes__'):
                continue
            if isinstance(v, types.FunctionType):
                ns[n] = self.vfunc(v)
            elif isinstance(v, (staticmethod, classmethod)):
                ns[n] = VProp(type(v).__name__, self.vfunc(v.__func__))
            elif isinstance(v, property) and v.fset is None and v.fdel is None:
                ns[n] = VProp('property', self.vfunc(v.fget))
            elif isinstance(v, (str, bytes, int, tuple, type(None))):
                ns[n] = self.wrap(v)
            else:
                raise Unsupported('class attribute %s' % n)
        if UNMODELLED & set(ns):
            raise Unsupported('class with ' + ', '.join(sorted(UNMODELLED & set(ns))))
        self.classes[c] = VClass(c.__name__, tuple(self.vclass(b) for b in c.__bases__ if b is not object), ns)
        return self.classes[c]

    def bind(self, f, args, kw, lazy=False):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        kw = dict(kw)
        if len(args) > len(names) and a.vararg is None:
            raise PyExc(TypeError)
        for n, v in zip(names, args):
            if not lazy and getattr(v, 'lazy', False) and isinstance(v, (VIter, VList, VSearch)):
                raise Unsupported('iterator passed to a function')
            vars[n] = v
        if a.vararg is not None:
            vars[a.vararg.arg] = tuple(args[len(names):])
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in vars:
                    raise PyExc(TypeError)
                vars[n] = kw.pop(n)
        if a.kwarg is not None:
            vars[a.kwarg.arg] = VDict(self, kw)
        elif kw:
            raise PyExc(TypeError)
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            vars.setdefault(n, d)
        for x in a.kwonlyargs:
            if x.arg not in vars:
                if x.arg not in f.kwdefaults:
                    raise PyExc(TypeError)
                vars[x.arg] = f.kwdefaults[x.arg]
        for n in names:
            if n not in vars:
                raise PyExc(TypeError)
        return vars

    def invoke(self, f, args, kw):
        vars = self.bind(f, args, kw)
        return VGen(self, f, vars) if is_generator(f.node) else self.run_body(f, vars)

    def call_star(self, f, args, kw):
        if isinstance(f, types.FunctionType):
            if not os.path.realpath(f.__code__.co_filename).startswith(self.repo + os.sep):
                raise Unsupported('* of unknown length')
            f = self.vfunc(f)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        k = [i for i, x in enumerate(args) if isinstance(x, tuple) and len(x) == 2 and x[0] == '*' and isinstance(x[1], (VIter, Obj))]
        if k != [len(args) - 1] or len(names) != len(args) - 1 or a.vararg is None:
            raise Unsupported('* of unknown length')
        vars = self.bind(f, args[:-1], kw)
        vars[a.vararg.arg] = args[-1][1]
        return VGen(self, f, vars) if is_generator(f.node) else self.run_body(f, vars)

    def run_body(self, f, vars):
        self.depth += 1
        self.active.append(f.node)
        if self.depth > 40 or self.active.count(f.node) > 8:
            raise Unsupported('recursion')
        fr = Frame(vars, f.glob, f.frame, f.name)
        fr.func = f
        self.frames.append(fr)
        n = len(self.frames)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            try:
                self.block(f.node.body)
            except ReturnX as r:
                return r.v
            return None
        finally:
            del self.frames[n - 1:]
            self.depth -= 1
            self.active.pop()

    def run_script(self, path):
        """execute a module body as a script"""
        with open(path) as f:
            tree = ast.parse(f.read())
        fr = Frame({'__name__': '__main__', '__file__': path, '__doc__': None}, None, None, '<script>')
        fr.glob = fr
        self.frames.append(fr)
        try:
            self.block(tree.body)
        finally:
            del self.frames[:]

    # -- builtins on symbolic values ------------------------------------------------------------------------------------
    def b_len(self, args, kw):
        v = args[0]
        if isinstance(v, AccView):
            return Sym(v.n, 'int')
        if isinstance(v, Sym):
            if v.ty == 'bytes' or isinstance(v.ty, tuple) and v.ty[0] == 'seq':
                return Sym(z3.Length(v.t), 'int')
            if v.ty == 'str':
                f = self.ufn('str.len', S, z3.IntSort())
                t = f(v.t)
                self.fact(z3.And(t >= 0, (t == 0) == (v.t == self.lit(''))))
                return Sym(t, 'int')
            raise Unsupported('len')
        if isinstance(v, VList):
            return len(v.items) if v.items is not None else Sym(z3.Length(v.seq.t), 'int')
        if isinstance(v, VDict):
            return len(v.d)
        if isinstance(v, VIter):
            return Sym(v.n, 'int')
        if isinstance(v, Obj):
            return v.len(self)
        return NotImplemented

    def b_list(self, args, kw):
        if not args:
            return VList(self, items=[])
        it = self.iterable(args[0], True)
        if isinstance(it, list):
            return VList(self, items=it)
        if isinstance(it, VIter):
            s = self.same_base(it)
            if s is not None:
                return VList(self, seq=Sym(s.t, s.ty if s.ty != 'bytes' else ('seq', 'int')))
            return self.listed(it)
        raise Unsupported('list of a stream')

    def b_tuple(self, args, kw):
        if not args:
            return ()
        it = self.iterable(args[0], True)
        if isinstance(it, list):
            return tuple(it)
        if isinstance(it, VIter):
            s = self.same_base(it)
            if s is not None:
                return Sym(s.t, s.ty if s.ty != 'bytes' else ('seq', 'int'))
            r = self.listed(it)
            return r if not isinstance(r, VList) else tuple(r.items) if r.items is not None else r.seq
        raise Unsupported('tuple of a stream')

    def b_iter(self, args, kw):
        if len(args) == 2:
            try:
                return self.spec.iter_sentinel(self, args[0], args[1])
            except Unsupported:
                return self.prelude('iter', args)
        if isinstance(args[0], VIter):
            r = VIter(args[0].n, args[0].item, args[0].mapped)
            r.lazy = True
            return r
        if isinstance(args[0], (Obj, VGen)):
            return args[0]
        return NotImplemented if self.concrete(args[0]) else self.unsup('iter')

    def unsup(self, what):
        raise Unsupported(what)

    def b_dict(self, args, kw):
        if not args:
            return VDict(self, dict(kw))
        if isinstance(args[0], VDict):
            return self.todict([(k, v) for k, v in args[0].d.items()] + list(kw.items()))
        it = self.iterable(args[0], True)
        if isinstance(it, dict):
            return NotImplemented
        if kw:
            raise Unsupported('dict')
        if isinstance(it, (list, VIter)):
            return self.todict(it)
        raise Unsupported('dict')

    def lazily(self, v):
        return isinstance(v, VGen) or isinstance(v, Obj) and isinstance(self.iterable(v), Obj)

    def b_map(self, args, kw):
        f = args[0]
        if len(args) == 2 and self.lazily(args[1]):
            return self.prelude('map', args)
        if len(args) != 2:
            its = [self.iterable(a) for a in args[1:]]
            if all(isinstance(i, list) for i in its):
                return VList(self, items=[self.call(f, list(t), {}) for t in zip(*its)])
            raise Unsupported('map')
        it = self.iterable(args[1])
        if isinstance(it, list):
            mark = self.mark()
            r = VList(self, items=[self.call(f, [x], {}) for x in it])
            if self.effects(mark):
                raise Unsupported('map with effects')
            return r
        if isinstance(it, VIter):
            if isinstance(f, VFunc):
                f = VFunc(f.node, self.snapshot(f.frame), f.glob, f.name, f.defaults, f.kwdefaults)
                if f.frame is not None:
                    f.glob = f.frame.glob
            item = lambda i: self.call(f, [it.item(i)], {})
            r = VIter(it.n, item, ('map', it, item))
            r.lazy = True
            return r
        raise Unsupported('map over a stream')

    def b_filter(self, args, kw):
        if self.lazily(args[1]):
            return self.prelude('filter', args)
        it = self.iterable(args[1])
        if isinstance(it, list):
            mark = self.mark()
            r = VList(self, items=[x for x in it if self.truth(x if args[0] is None else self.call(args[0], [x], {}))])
            if self.effects(mark):
                raise Unsupported('filter with effects')
            return r
        raise Unsupported('filter')

    def b_enumerate(self, args, kw):
        if self.lazily(args[0]):
            return self.prelude('enumerate', args, kw)
        it = self.iterable(args[0])
        start = args[1] if len(args) > 1 else kw.get('start', 0)
        if isinstance(it, list):
            if isinstance(start, int):
                return VList(self, items=[(start + i, x) for i, x in enumerate(it)])
        if isinstance(it, VIter):
            s = self.term(start, 'int')
            r = VIter(it.n, lambda i: (Sym(z3.simplify(i + s), 'int'), it.item(i)))
            r.lazy = True
            return r
        raise Unsupported('enumerate')

    def b_zip(self, args, kw):
        its = [self.iterable(a) for a in args]
        if all(isinstance(i, list) for i in its):
            return VList(self, items=list(zip(*its)))
        its = [self.fixed_iter(i) if isinstance(i, list) else i for i in its]
        if all(isinstance(i, VIter) for i in its) and its:
            n = z3.simplify(its[0].n)
            for x in its[1:]:
                m = z3.simplify(x.n)
                if not m.eq(n):
                    if self.implied(m == n):
                        continue
                    n = z3.simplify(z3.If(m < n, m, n))
            r = VIter(n, lambda i: tuple(x.item(i) for x in its))
            r.lazy = True
            return r
        raise Unsupported('zip')

    def b_range(self, args, kw):
        if all(isinstance(a, int) for a in args):
            return NotImplemented
        if len(args) == 1:
            n = self.term(args[0], 'int')
            return VIter(z3.If(n > 0, n, z3.IntVal(0)), lambda i: Sym(i, 'int'))
        if len(args) == 2:
            a, n = self.term(args[0], 'int'), self.term(args[1], 'int')
            return VIter(z3.If(n > a, n - a, z3.IntVal(0)), lambda i: Sym(z3.simplify(i + a), 'int'))
        if len(args) == 3 and args[2] in (1, -1) and isinstance(args[2], int):
            if args[2] == 1:
                return self.b_range(args[:2], kw)
            a, n = self.term(args[0], 'int'), self.term(args[1], 'int')
            return VIter(z3.If(a > n, a - n, z3.IntVal(0)), lambda i: Sym(z3.simplify(a - i), 'int'))
        raise Unsupported('range')

    def fixed_iter(self, xs):
        def item(i):
            for j, x in enumerate(xs):
                if j == len(xs) - 1 or self.branch(i == j):
                    return x
            raise PathEnd()
        return VIter(z3.IntVal(len(xs)), item)

    def b_reversed(self, args, kw):
        it = self.iterable(args[0])
        if isinstance(it, list):
            return VList(self, items=it[::-1])
        if isinstance(it, VIter):
            r = VIter(it.n, lambda i: it.item(z3.simplify(it.n - 1 - i)))
            r.lazy = True
            return r
        raise Unsupported('reversed')

    def b_isinstance(self, args, kw):
        v, t = args
        r = self.spec.isinstance(self, v, t)
        if r is not None:
            return r
        if isinstance(v, Sym):
            py = {'int': int, 'bool': bool, 'str': str, 'bytes': bytes}.get(v.ty)
            if py is None:
                if isinstance(v.ty, tuple) and v.ty[0] == 'seq':
                    py = tuple
                else:
                    raise Unsupported('isinstance')
            ts = t if isinstance(t, tuple) else (t,)
            return any(isinstance(x, type) and issubclass(py, x) for x in ts)
        if isinstance(v, VList):
            ts = t if isinstance(t, tuple) else (t,)
            return any(isinstance(x, type) and issubclass(list, x) for x in ts)
        if isinstance(v, VDict):
            ts = t if isinstance(t, tuple) else (t,)
            return any(isinstance(x, type) and issubclass(dict, x) for x in ts)
        if isinstance(v, Fmt):
            ts = t if isinstance(t, tuple) else (t,)
            return any(isinstance(x, type) and issubclass(str, x) for x in ts)
        if isinstance(v, (VIter, VSDict, Obj, VInst, VFunc)):
            raise Unsupported('isinstance of %r' % (v,))
        return NotImplemented

    def b_bool(self, args, kw):
        return self.truth(args[0]) if args else False

    def b_int(self, args, kw):
        if not args:
            return 0
        v = args[0]
        r = self.spec.to_int(self, v)
        if r is not None:
            return r[0]
        if isinstance(v, Sym) and v.ty in ('int', 'bool'):
            return Sym(self.term(v, 'int'), 'int')
        if isinstance(v, Sym):
            raise Unsupported('int()')
        return NotImplemented

    def b_str(self, args, kw):
        if not args:
            return ''
        v = args[0]
        if isinstance(v, Sym) and v.ty == 'str':
            return v
        if isinstance(v, Fmt):
            return v
        if isinstance(v, (Sym, Obj)) or self.spec.track_ints and isinstance(v, int):
            return Fmt([v])
        if isinstance(v, VInst):
            return Fmt([v])
        return NotImplemented

    b_repr = b_str

    def b_bytearray(self, args, kw):
        if kw or len(args) > 1:
            raise Unsupported('bytearray')
        return self.call(BUFFER, [self.octets(a) for a in args], {})

    def b_bytes(self, args, kw):
        if args and isinstance(args[0], VInst) and args[0].cls is BUFFER:
            return args[0].attrs['value']
        if args and isinstance(args[0], Sym) and args[0].ty == 'bytes':
            return args[0]
        return NotImplemented

    def b_sum(self, args, kw):
        if self.lazily(args[0]):
            return self.prelude('sum', args, {'value': kw['start']} if kw else {})
        it = self.iterable(args[0], True)
        if isinstance(it, list):
            r = args[1] if len(args) > 1 else kw.get('start', 0)
            for x in it:
                r = self.binop('Add', r, x)
            return r
        if isinstance(it, VIter) and self.spec.tracks_joins:
            start = args[1] if len(args) > 1 else kw.get('start', 0)
            s = self.same_base(it)
            if s is None:
                r = self.listed(it)
                if isinstance(r, VList):
                    return self.b_sum([r, start], {})
            elif start == () and isinstance(s.ty[1], tuple):
                return self.flat(s)
        raise Unsupported('sum')

    def flat(self, s):
        """the concatenation of a sequence of sequences"""
        x = Sym(z3.Const('elem', sort_of(s.ty[1])), s.ty[1])
        key = (x.t.sexpr(), str(x.ty), '')
        self.register(key, x, x, None)
        return Sym(self.join_fact(key, s.t)[0], s.ty[1])

    def chained(self, v):
        """itertools.chain.from_iterable"""
        at = ast.copy_location(ast.Name('$b', ast.Load()), ast.Name('$b', lineno=0, col_offset=0))
        g = [ast.comprehension(ast.Name('$a', ast.Store()), None, [], 0),
             ast.comprehension(ast.Name('$b', ast.Store()), ast.Name('$a', ast.Load()), [], 0)]
        for x in [at] + g:
            for y in ast.walk(x):
                y.lineno = y.end_lineno = self.where or 0
                y.col_offset = y.end_col_offset = -1
        return self.collect(v, g, at)

    def b_any(self, args, kw):
        it = args[0] if isinstance(args[0], VGen) else self.iterable(args[0])
        if isinstance(it, list):
            return any(self.truth(x) for x in it)
        return self.prelude('any', [it])

    def b_all(self, args, kw):
        it = args[0] if isinstance(args[0], VGen) else self.iterable(args[0])
        if isinstance(it, list):
            return all(self.truth(x) for x in it)
        return self.prelude('all', [it])

    def b_next(self, args, kw):
        if isinstance(args[0], Obj):
            v = args[0].next(self)
            if v is None:
                if len(args) > 1:
                    return args[1]
                raise PyExc(StopIteration)
            return v[0]
        if isinstance(args[0], VSearch):
            found, v = self.search(args[0])
            if found:
                return v
            if len(args) > 1:
                return args[1]
            raise PyExc(StopIteration)
        if isinstance(args[0], VGen):
            return self.prelude('next' if len(args) == 1 else 'next_default', args)
        raise Unsupported('next')

    def b_hasattr(self, args, kw):
        o, n = args
        if isinstance(o, Obj):
            return o.hasattr(self, n)
        return NotImplemented

    def b_getattr(self, args, kw):
        if isinstance(args[1], str):
            if len(args) == 2:
                return self.getattr(args[0], args[1])
            if self.concrete(args[0]) and not hasattr(args[0], args[1]):
                return args[2]
            return self.getattr(args[0], args[1])
        raise Unsupported('getattr')

    def b_print(self, args, kw):
        return self.spec.on_print(self, args, kw)

    def b_type(self, args, kw):
        if len(args) == 1 and isinstance(args[0], Sym):
            return {'int': int, 'bool': bool, 'str': str, 'bytes': bytes}.get(args[0].ty) or self.unsup('type')
        if len(args) == 1 and isinstance(args[0], VList):
            return list
        if len(args) == 1 and not self.concrete(args[0]):
            raise Unsupported('type')
        return NotImplemented

    def b_callable(self, args, kw):
        return True if isinstance(args[0], (VFunc, Bound, VClass)) else NotImplemented

    def b_min(self, args, kw):
        return self.minmax(args, kw, lambda x, y: x < y)

    def b_max(self, args, kw):
        return self.minmax(args, kw, lambda x, y: x > y)

    def minmax(self, args, kw, better):
        if all(self.concrete(a) for a in args) and all(self.concrete(a) for a in kw.values()):
            return NotImplemented
        if kw or len(args) != 2:
            raise Unsupported('min/max')
        a, b = self.term(args[0], 'int'), self.term(args[1], 'int')
        return Sym(z3.If(better(a, b), a, b), 'int')

    # -- methods of built-in values --------------------------------------------------------------------------------------
    STR_STR = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'expandtabs', 'swapcase', 'title',
               'casefold', 'removeprefix', 'removesuffix', 'ljust', 'rjust', 'translate'}
    STR_BOOL = {'startswith', 'endswith', 'isspace', 'isdigit', 'isalnum', 'isalpha'}

    def method(self, o, name, args, kw):
        if isinstance(o, Obj):
            return o.callm(self, name, args, kw)
        if isinstance(o, VList):
            return self.list_method(o, name, args, kw)
        if isinstance(o, VDict):
            return self.dict_method(o, name, args, kw)
        if isinstance(o, VSDict):
            if name == 'get':
                r = self.sd_find(o, args[0])
                if r is None:
                    return args[1] if len(args) > 1 else None
                return self.pair(o.it.item(r.t))[1]
            if name == '__contains__':
                return self.sd_find(o, args[0]) is not None
            raise Unsupported('dict.%s' % name)
        if isinstance(o, Sym) and o.ty == 'str':
            return self.str_method(o, name, args, kw)
        if isinstance(o, Sym) and o.ty == 'bytes':
            return self.bytes_method(o, name, args, kw)
        if isinstance(o, (str, bytes)) and name == 'join' and not self.isnative(args[0]):
            return self.join(o, args[0])
        if isinstance(o, str) and name == 'format':
            return self.str_format(o, args, kw)
        if isinstance(o, (dict,)) and args and not self.concrete(args[0]):
            return self.dict_method(VDict(self, o), name, args, kw)
        if isinstance(o, Fmt) and name in ('strip', 'rstrip', 'lstrip'):
            raise Unsupported('text method')
        if isinstance(o, tuple) and name in ('index', 'count'):
            raise Unsupported('tuple.%s' % name)
        if isinstance(o, VIter) and name == 'index' and len(args) == 1 and not kw:
            r = self.iter_find(o, args[0], first=True)
            if r is None:
                raise PyExc(ValueError)
            return r
        if isinstance(o, (str, bytes)) and name in ('startswith', 'endswith') and not self.isnative(args[0]):
            raise Unsupported(name)
        r = self.spec.native_method(self, o, name, args, kw)
        if r is not None:
            return r[0]
        if self.concrete(o) and all(self.isnative(a) for a in args) and all(self.isnative(a) for a in kw.values()):
            try:
                f = getattr(o, name)
            except AttributeError as exc:
                raise PyExc(AttributeError, exc)
            return self.native_call(f, args, kw)
        raise Unsupported('%s.%s' % (type(o).__name__, name))

    def str_format(self, o, args, kw):
        import string
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            parts.append(lit)
            if field is None:
                continue
            if conv not in (None, 's', 'r'):
                raise Unsupported('format')
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Unsupported('format field')
            parts.append(self.textual(v, spec or ''))
        return self.fmt(parts)

    def str_method(self, o, name, args, kw):
        if name == 'encode':
            if kw or args and args[0] not in ('utf-8', 'utf8', 'UTF-8'):
                tag = '.' + repr((args, sorted(kw.items())))
            else:
                tag = ''
            return self.spec.encode(self, o, tag)
        if name == 'join':
            return self.join(o, args[0])
        if kw or not all(self.isnative(a) for a in args):
            raise Unsupported('str.%s' % name)
        tag = name + (repr(tuple(self.native(a) for a in args)) if args else '')
        if name in ('strip', 'lstrip', 'rstrip') and args == [None]:
            tag = name
        if name in self.STR_STR:
            f = self.ufn('str.' + tag, S, S)
            r = f(o.t)
            if tag == 'strip':
                self.fact(f(r) == r)
            if name in ('strip', 'lstrip', 'rstrip'):
                self.fact(f(self.lit('')) == self.lit(''))
            return Sym(r, 'str')
        if name in self.STR_BOOL:
            return Sym(self.ufn('str.' + tag, S, z3.BoolSort())(o.t), 'bool')
        raise Unsupported('str.%s' % name)

    def bytes_method(self, o, name, args, kw):
        if name == 'join':
            return self.join(o, args[0])
        if name in ('hex', 'decode'):
            return Sym(self.ufn('bytes.' + name + repr([self.native(a) for a in args]), BYTES, S)(o.t), 'str')
        if name in ('strip', 'lstrip', 'rstrip'):
            return Sym(self.ufn('bytes.' + name + repr([self.native(a) for a in args]), BYTES, BYTES)(o.t), 'bytes')
        raise Unsupported('bytes.%s' % name)

    def join(self, sep, v):
        if isinstance(v, VIter) and getattr(v, 'emap', None) is None and v.mapped is not None:
            v = self.listed(v)
        if isinstance(v, VIter):
            if getattr(v, 'emap', None) is None:
                raise Unsupported('join of a lazy sequence')
            if not (isinstance(sep, (str, bytes)) and len(sep) == 0):
                raise Unsupported('join with a separator')
            key, base = v.emap
            ty = self.maps[key][1].ty
            if (ty == 'bytes') != isinstance(sep, bytes):
                raise PyExc(TypeError)
            return self.spec.joined(self, key, base)
        if isinstance(v, (VList, Sym)):
            ty = self.ty(v)
            if isinstance(v, VList) and v.items is not None:
                r = sep[:0] if not isinstance(sep, Sym) else None
                if r is None:
                    raise Unsupported('join')
                for i, x in enumerate(v.items):
                    if i:
                        r = self.binop('Add', r, sep)
                    if isinstance(x, str) != isinstance(sep, str) and not isinstance(x, Sym):
                        raise PyExc(TypeError)
                    r = self.binop('Add', r, x)
                return r
            if ty == ('seq', 'bytes') or ty == ('seq', 'str'):
                if not (isinstance(sep, (str, bytes)) and len(sep) == 0):
                    raise Unsupported('join with a separator')
                if (ty[1] == 'bytes') != isinstance(sep, bytes):
                    raise PyExc(TypeError)
                base = v.seq if isinstance(v, VList) else v
                x = Sym(z3.Const('elem', sort_of(ty[1])), ty[1])
                key = (x.t.sexpr(), str(x.ty), '')
                self.register(key, x, x, None)
                return self.spec.joined(self, key, base)
        raise Unsupported('join of %r' % (v,))

    def list_method(self, o, name, args, kw):
        if name == 'append':
            return self.list_append(o, args[0])
        if name == 'extend':
            return self.list_extend(o, args[0])
        if name == 'clear':
            self.mutated(o)
            o.items, o.seq = [], None
            return None
        if name == 'copy':
            return VList(self, items=list(o.items)) if o.items is not None else VList(self, seq=o.seq)
        if name == 'insert' and o.items is not None and isinstance(args[0], int):
            self.mutated(o)
            o.items.insert(args[0], args[1])
            return None
        if name == 'insert' and o.items is None and args[0] == 0 and isinstance(args[0], int):
            self.mutated(o)
            o.seq = Sym(z3.Concat(z3.Unit(self.term(args[1], o.seq.ty[1])), o.seq.t), o.seq.ty)
            return None
        if name == 'pop' and o.items is None and args in ([], [0], [-1]) and o.seq.ty[1] != OPAQUE:
            n = z3.Length(o.seq.t)
            if not self.branch(n > 0):
                raise PyExc(IndexError)
            self.mutated(o)
            x = Sym(o.seq.t[0 if args == [0] else n - 1], o.seq.ty[1])
            o.seq = Sym(z3.simplify(z3.SubSeq(o.seq.t, 1 if args == [0] else 0, n - 1)), o.seq.ty)
            return x
        if name == 'pop' and o.items is not None and all(isinstance(a, int) for a in args):
            self.mutated(o)
            try:
                return o.items.pop(*args)
            except IndexError as exc:
                raise PyExc(IndexError, exc)
        if name == 'reverse' and o.items is not None:
            self.mutated(o)
            o.items.reverse()
            return None
        if name in ('__contains__',):
            return self.contains(o, args[0])
        if name == 'index' and o.items is not None:
            for i, x in enumerate(o.items):
                if self.truth(self.equal(x, args[0])):
                    return i
            raise PyExc(ValueError)
        raise Unsupported('list.%s' % name)

    def dict_method(self, o, name, args, kw):
        if name == 'get':
            for k in o.d:
                if self.truth(self.equal(args[0], k)):
                    return o.d[k]
            return args[1] if len(args) > 1 else None
        if name in ('items', 'keys', 'values'):
            return VList(self, items=[(k, v) if name == 'items' else k if name == 'keys' else v for k, v in o.d.items()])
        if name == '__contains__':
            return self.contains(o, args[0])
        if name == 'update' and not kw and isinstance(args[0], VDict):
            self.mutated(o)
            for k, x in args[0].d.items():
                o.d[self.dkey(o, k)] = x
            return None
        if name == 'setdefault':
            k = self.dkey(o, args[0])
            self.mutated(o)
            return o.d.setdefault(k, args[1] if len(args) > 1 else None)
        if name == 'copy':
            return VDict(self, dict(o.d))
        if name == 'pop':
            k = self.dkey(o, args[0])
            self.mutated(o)
            if k in o.d:
                return o.d.pop(k)
            if len(args) > 1:
                return args[1]
            raise PyExc(KeyError)
        raise Unsupported('dict.%s' % name)


class VModule(object):
    def __init__(self, name, frame):
        self.name, self.frame = name, frame


class VSuper(object):
    def __init__(self, inst, chain):
        self.inst, self.chain = inst, chain


class Marker(object):
    def __init__(self, name):
        self.name = name


SAME, NOTHING = Marker('a decorator that returns its function'), Marker('a call without effect')


class Bound2(object):
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


def seq_lit(ts, sort):
    if not ts:
        return z3.Empty(sort)
    us = [z3.Unit(t) for t in ts]
    return us[0] if len(us) == 1 else z3.Concat(*us)


def mentions(t, x):
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(x):
            return True
        todo += y.children()
    return False


class Spec(object):
    """hooks a contract may override"""
    needs_progress = False
    tracks_joins = False    # relate the joins of the lists at hand
    track_ints = False      # keep integers apart from the text they are printed in

    def terms(self, ex):
        return []

    def preds(self, ex):
        return []

    def find(self, ex, it, k):
        return None

    def joined(self, ex, key, base):
        raise Unsupported('join of a mapped sequence')

    def anybad(self, ex, key, base):
        return None

    def native_attr(self, ex, o, name):
        return None

    def native_call(self, ex, f, args, kw):
        return None

    def native_method(self, ex, o, name, args, kw):
        return None

    def base_method(self, ex, inst, cls, name):
        return None

    def allowed(self, f):
        """may f run natively on concrete arguments?  default: pure builtins and pyasn1 types"""
        m = getattr(f, '__module__', None) or ''
        if isinstance(f, type) and (f.__module__ == 'builtins' or issubclass(f, BaseException)):
            return True
        n = getattr(f, '__name__', '')
        if n in ('exec', 'eval', 'open', 'input', 'compile', '__import__', 'setattr', 'delattr', 'globals', 'locals', 'vars'):
            return False
        s = getattr(f, '__self__', None)
        if isinstance(s, (str, bytes, tuple, int)):
            return True
        return m == 'builtins' or m.startswith('pyasn1.type') or m.startswith('pyasn1_modules')

    def isinstance(self, ex, v, t):
        return None

    def to_int(self, ex, v):
        return None

    def on_print(self, ex, args, kw):
        return None

    def iter_sentinel(self, ex, f, sentinel):
        if isinstance(f, Bound) and isinstance(f.obj, Obj):
            return f.obj.iter_sentinel(ex, f.name, sentinel)
        raise Unsupported('iter(f, sentinel)')

    def encode(self, ex, o, tag):
        f = ex.ufn('str.encode' + tag, S, BYTES)
        r = f(o.t)
        ex.fact((z3.Length(r) == 0) == (o.t == ex.lit('')))
        return Sym(r, 'bytes')

    def havoc(self, ex, sh, name):
        raise Unsupported('havoc of an object')
