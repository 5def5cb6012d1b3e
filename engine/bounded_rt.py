"""Bounded search and replay for the function properties, run by the library's interpreter.

request (JSON on stdin): {prop, repo, seed, budget, data}; answer: {tried, failing: [[case, what]]}
A case is self-contained: replay files run it alone with main(case)."""
import ast
import base64
import io
import itertools
import json
import os
import random
import signal
import sys
import time

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class TooLong(BaseException):
    pass


def _alarm(*a):
    raise TooLong()


class limit(object):
    """seconds of processor-independent time a case may take"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def mined(*paths):
    """integer and text constants of the code"""
    ints, strs = set(), set()
    for p in paths:
        try:
            tree = ast.parse(open(p).read())
        except (OSError, SyntaxError):
            continue
        docs = {id(n.body[0].value) for n in ast.walk(tree)
                if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, bool):
                    continue
                if isinstance(n.value, int):
                    ints.add(n.value)
                elif isinstance(n.value, str) and len(n.value) < 200:
                    strs.add(n.value)
                elif isinstance(n.value, bytes) and len(n.value) < 200:
                    strs.add(n.value.decode('latin-1'))
    return sorted(ints), sorted(strs)


# -- PEM ------------------------------------------------------------------------------------------

class Lines(object):
    """a stream that cannot seek: readline, iteration, read, readlines"""

    def __init__(self, text):
        self.f = io.StringIO(text, newline='\n')

    def readline(self):
        return self.f.readline()

    def __iter__(self):
        return self

    def __next__(self):
        s = self.f.readline()
        if not s:
            raise StopIteration
        return s

    def read(self):
        return self.f.read()

    def readlines(self):
        return self.f.readlines()


def rest_of(f):
    return f.f.read() if isinstance(f, Lines) else f.read()


def split_lines(text):
    """the lines of a stream: '\\n' ends a line"""
    out = text.split('\n')
    return [x + '\n' for x in out[:-1]] + ([out[-1]] if out[-1] else [])


def ref_block(lines, pos, markers):
    """(outcome, next position); outcome ('block', i, bytes) | ('none',) | ('open', i) | ('bad', i)"""
    begins = {b: i for i, (b, e) in enumerate(markers)}
    n = pos
    while n < len(lines) and lines[n].strip() not in begins:
        n += 1
    if n == len(lines):
        return ('none',), n
    i = begins[lines[n].strip()]
    n += 1
    body = []
    while n < len(lines) and lines[n].strip() != markers[i][1]:
        body.append(lines[n].strip())
        n += 1
    if n == len(lines):
        return ('open', i), n
    try:
        return ('block', i, b''.join(base64.b64decode(x.encode()) for x in body)), n + 1
    except ValueError:
        return ('bad', i), n + 1


def pem_text(case):
    if 'text' in case:
        return case['text']
    return ''.join(x * n for x, n in case['runs'])


def show(x):
    return repr(x) if len(repr(x)) < 120 else repr(x)[:117] + '...'


def pem(case):
    from pyasn1_modules import pem as m
    text, markers = pem_text(case), [tuple(x) for x in case['markers']]
    lines = split_lines(text)
    f = io.StringIO(text, newline='\n') if case.get('seek', True) else Lines(text)
    pos = 0
    for k in range(case.get('calls', 1)):
        want, nxt = ref_block(lines, pos, markers)
        try:
            with limit(case.get('limit', 5)):
                got = m.readPemBlocksFromFile(f, *markers)
        except TooLong:
            return 'call %d does not return' % (k + 1)
        except ValueError as exc:
            if want[0] != 'bad':
                return 'call %d fails (%s), expected %s' % (k + 1, exc, show(want))
            if rest_of(f) != ''.join(lines[nxt:]):
                return 'call %d: the stream is not at the line after the block' % (k + 1)
            return None
        except Exception as exc:
            return 'call %d fails with %s (%s), expected %s' % (k + 1, type(exc).__name__, exc, show(want))
        if want[0] == 'bad':
            return 'call %d returns %s for a block that is not Base64' % (k + 1, show(got))
        if not isinstance(got, (tuple, list)) or len(got) != 2:
            return 'call %d returns %s' % (k + 1, show(got))
        i, sub = got
        if want[0] == 'block':
            bad = i != want[1] or not isinstance(sub, bytes) or sub != want[2]
        elif want[0] == 'open':
            bad = i != want[1] or not isinstance(sub, (str, bytes)) or len(sub) != 0
        else:
            bad = i != -1 or not isinstance(sub, (str, bytes)) or len(sub) != 0
        if bad:
            return 'call %d returns %s, expected %s' % (k + 1, show(tuple(got)), show(want))
        pos = nxt
        if case.get('seek', True):
            at = f.tell()
            left = f.read()
            f.seek(at)
        elif k == case.get('calls', 1) - 1:
            left = rest_of(f)
        else:
            continue
        if left != ''.join(lines[pos:]):
            return 'after call %d the stream is at %s, expected %s' % (k + 1, show(left), show(''.join(lines[pos:])))
    return None


PAIRS = [['-----BEGIN A-----', '-----END A-----'], ['-----BEGIN B-----', '-----END B-----'],
         ['-----BEGIN C-----', '-----END A-----']]
ALPHABET = ['-----BEGIN A-----\n', '-----END A-----\n', '-----BEGIN B-----\n', '-----END B-----\n', 'QUJD\n', 'spam\n', '\n']
MORE = ['  -----BEGIN A-----  \n', '\t-----END A-----\r\n', '-----BEGIN A----\n', '-----END A-----x\n', 'x-----END A-----\n',
        '-----begin a-----\n', '-----BEGIN C-----\n', 'QQ==\n', 'QQ==QUJD\n', ' QUI= \n', 'Q\n', 'QUJDR\n', 'QU JD\n', '=QUJD\n', '====\n', 'Q!UJD\n',
        'QUJDREVG\n', '-----BEGIN A----- junk\n', '\x0c\n', '\u00e9\n', '-----END B----- \n', '-\n', 'Proc-Type: 4,ENCRYPTED\n', '+/+/\n', '-_-_\n', 'QUJD\x00\n',
        '\u2003-----END A-----\u2003\n', 'Q' * 76 + '\n', '-----BEGIN -----END A-----\n', 'QUJD\r\n', 'QUJD\x0bREVG\n', '----\n', '-----BEGIN X-----\n', '-----END X-----\n']


def pem_cases(rnd, ints, strs):
    one = PAIRS[:1]
    for n in range(0, 5):
        for ls in itertools.product(ALPHABET, repeat=n):
            yield {'kind': 'pem', 'text': ''.join(ls), 'markers': PAIRS[:2], 'calls': 2}
    for n in range(0, 3):
        for ls in itertools.product(ALPHABET + MORE, repeat=n):
            t = ''.join(ls)
            for a in ('', ALPHABET[0]):
                for seek in (True, False):
                    yield {'kind': 'pem', 'text': a + t + ALPHABET[1] + 'tail\n', 'markers': PAIRS[:2], 'calls': 2, 'seek': seek}
    for ls in itertools.product(ALPHABET[:5] + ['-----BEGIN C-----\n'], repeat=4):
        for m in (PAIRS, [PAIRS[2], PAIRS[0]], [['x', 'x'], PAIRS[0]], [['-----END A-----', '-----BEGIN A-----']]):
            yield {'kind': 'pem', 'text': ''.join(ls), 'markers': m, 'calls': 3}
    for t in ('', '\n', '-----BEGIN A-----', '-----BEGIN A-----\n-----END A-----', '-----BEGIN A-----\nQUJD', 'QUJD\n'):
        for m in ([], PAIRS, [['', '-----END A-----']], [['-----BEGIN A-----', '']], [['same', 'same']],
                  [['a', 'z'], ['b', 'z'], ['z', 'a']]):
            for ts in (t, t + '\n', 'same\nQUJD\nsame\nsame\n', 'b\nQQ==\na\nz\nz\nQUJD\na\n'):
                yield {'kind': 'pem', 'text': ts, 'markers': m, 'calls': 3}
    blk = ALPHABET[0] + 'QUJD\n' + ALPHABET[1]
    sizes = sorted({n + k for n in ints if 1 < n <= 20000 for k in (-1, 0, 1, 2)} | {3, 10, 64, 65, 100, 257, 1025})
    for n in sizes:
        yield {'kind': 'pem', 'runs': [[ALPHABET[0], 1], ['QUJD\n', n], [ALPHABET[1], 1], ['rest\n', 1]], 'markers': one, 'calls': 2}
        yield {'kind': 'pem', 'runs': [['spam\n', n], [blk, 1]], 'markers': one, 'calls': 2}
        yield {'kind': 'pem', 'runs': [['\n', n], [blk, 1]], 'markers': one, 'calls': 2}
        yield {'kind': 'pem', 'runs': [[ALPHABET[0], 1], ['\n', n], ['QUJD\n', 1], [ALPHABET[1], 1]], 'markers': one, 'calls': 2}
        yield {'kind': 'pem', 'runs': [['x', n], ['\n', 1], [blk, 1]], 'markers': one, 'calls': 2}
        yield {'kind': 'pem', 'runs': [[ALPHABET[0], 1], ['QUJD', n], ['\n', 1], [ALPHABET[1], 1]], 'markers': one, 'calls': 2}
        yield {'kind': 'pem', 'runs': [[ALPHABET[0], 1], ['QUJD', n], ['\nQUJD\n', 1], [ALPHABET[1], 1]], 'markers': one, 'calls': 2}
        yield {'kind': 'pem', 'runs': [[' ', n], [ALPHABET[0], 1], [' ', n], ['QUJD', 1], [' ', n], ['\n', 1], [' ', n], [ALPHABET[1], 1]],
               'markers': one, 'calls': 2}
        if n <= 300:
            yield {'kind': 'pem', 'runs': [[blk, n]], 'markers': one, 'calls': n + 1}
            ms = [['b%d' % i, 'e%d' % i] for i in range(n)]
            for i in {0, n // 2, n - 2, n - 1}:
                if 0 <= i < n:
                    yield {'kind': 'pem', 'text': 'b%d\nQUJD\ne%d\nb0\ne0\n' % (i, i), 'markers': ms, 'calls': 2}
    for s in strs:
        for x in (s, s.strip(), 'x' + s, s + 'x', s + s):
            for m in (one, [[s.strip() or 's', '-----END A-----']], [['-----BEGIN A-----', s.strip()]]):
                for t in (x + '\n' + blk, ALPHABET[0] + x + '\n' + ALPHABET[1], ALPHABET[0] + 'QUJD\n' + x + '\nQUJD\n' + ALPHABET[1] + blk,
                          x + '\nQUJD\n' + ALPHABET[1]):
                    yield {'kind': 'pem', 'text': t, 'markers': m, 'calls': 2}
    while True:
        n = rnd.choice((5, 6, 8, 12, 20, 40))
        pool = rnd.choice((ALPHABET, ALPHABET + MORE, ALPHABET[:5]))
        m = rnd.sample(PAIRS, rnd.choice((1, 2, 3)))
        t = ''.join(rnd.choice(pool) for _ in range(n))
        if rnd.random() < .2:
            t = t.rstrip('\n')
        if rnd.random() < .1:
            t = t.replace('\n', '\r\n')
        yield {'kind': 'pem', 'text': t, 'markers': m, 'calls': rnd.choice((1, 2, 4, 8)), 'seek': rnd.random() < .8}


def pem1(case):
    """readPemFromFile"""
    from pyasn1_modules import pem as m
    text, how = pem_text(case), case['how']
    b, e = case.get('pair', ['-----BEGIN CERTIFICATE-----', '-----END CERTIFICATE-----'])
    lines = split_lines(text)
    f = io.StringIO(text, newline='\n') if case.get('seek', True) else Lines(text)
    pos = 0
    for k in range(case.get('calls', 1)):
        want, pos = ref_block(lines, pos, [(b, e)])
        try:
            with limit(5):
                got = m.readPemFromFile(f) if how == 'default' else m.readPemFromFile(f, b, e) if how == 'args' else \
                    m.readPemFromFile(f, b) if how == 'begin' else m.readPemFromFile(f, endMarker=e) if how == 'end' else \
                    m.readPemFromFile(fileObj=f, endMarker=e, startMarker=b)
        except TooLong:
            return 'it does not return'
        except ValueError as exc:
            return None if want[0] == 'bad' else 'it fails (%s), expected %s' % (exc, show(want))
        except Exception as exc:
            return 'it fails with %s: %s' % (type(exc).__name__, exc)
        if want[0] == 'bad':
            return 'it returns %s for a block that is not Base64' % show(got)
        w = want[2] if want[0] == 'block' else b''
        if want[0] == 'block' and (not isinstance(got, bytes) or got != w) or want[0] != 'block' and (not isinstance(got, (str, bytes)) or len(got)):
            return 'call %d returns %s, expected %s' % (k + 1, show(got), show(w))
        if case.get('seek', True):
            at = f.tell()
            left = f.read()
            f.seek(at)
            if left != ''.join(lines[pos:]):
                return 'after call %d the stream is at %s, expected %s' % (k + 1, show(left), show(''.join(lines[pos:])))
    return None


def b64(case):
    from pyasn1_modules import pem as m
    text = pem_text(case)
    try:
        want = base64.b64decode(text.encode())
    except ValueError:
        want = None
    for name in ('readBase64fromText', 'readBase64FromFile'):
        for seek in (True, False):
            f = io.StringIO(text, newline='\n') if seek else Lines(text)
            try:
                with limit(10):
                    got = m.readBase64fromText(text) if name == 'readBase64fromText' else m.readBase64FromFile(f)
            except TooLong:
                return '%s does not return' % name
            except ValueError as exc:
                if want is not None:
                    return '%s fails (%s), expected %s' % (name, exc, show(want))
                continue
            except Exception as exc:
                return '%s fails with %s: %s' % (name, type(exc).__name__, exc)
            if want is None:
                return '%s returns %s for text that is not Base64' % (name, show(got))
            if not isinstance(got, bytes) or got != want:
                return '%s returns %s, expected %s' % (name, show(got), show(want))
            if name == 'readBase64FromFile' and rest_of(f):
                return '%s leaves %s unread' % (name, show(rest_of(f)))
    return None


def c02_cases(rnd, ints, strs):
    C = ['-----BEGIN CERTIFICATE-----\n', '-----END CERTIFICATE-----\n']
    al = C + ['QUJD\n', 'QQ==\n', 'spam\n', '\n', '-----BEGIN X-----\n', '-----END X-----\n', 'Q\n', ' ' + C[1], C[0].strip() + ' \r\n']
    hows = [('default', None), ('args', ['-----BEGIN X-----', '-----END X-----']), ('begin', ['-----BEGIN X-----', C[1].strip()]),
            ('end', [C[0].strip(), '-----END X-----']), ('names', ['-----BEGIN X-----', '-----END X-----']),
            ('names', ['QUJD', 'QUJD']), ('args', ['spam', 'QQ=='])]

    def one(t, **kw):
        for how, pair in hows:
            c = dict({'kind': 'pem1', 'text': t, 'how': how, 'calls': 2}, **kw)
            if pair:
                c['pair'] = pair
            yield c
    pieces = ['', 'A', 'QU', 'QUJ', 'QUJD', 'QQ==', 'QUI=', '=', '\n', ' ', '!', '-_', '+/', '\u00e9', '\r\n', '\t', '\x00', '\ufeff', 'QUJDREVG']
    for n in range(4):
        for ls in itertools.product(al, repeat=n):
            for c in one(''.join(ls)):
                yield c
        for ps in itertools.product(pieces, repeat=min(n, 3)):
            yield {'kind': 'b64', 'text': ''.join(ps)}
    sizes = sorted({n + k for n in ints if 1 < n <= 100000 for k in (-1, 0, 1, 2)} | {64, 76, 1023, 1024, 1025, 8192, 65537})
    for n in sizes:
        for s in ('QUJD', 'QUJD\n', 'A', ' ', '\n', 'QQ==', 'QUJDREVGR0hJSktM\n'):
            yield {'kind': 'b64', 'runs': [[s, n]]}
            yield {'kind': 'b64', 'runs': [[s, n], ['QUI=', 1]]}
        yield {'kind': 'pem1', 'runs': [['spam\n', n], [C[0], 1], ['QUJD\n', n], [C[1], 1]], 'how': 'default', 'calls': 2}
    for s in strs:
        yield {'kind': 'b64', 'text': s}
        yield {'kind': 'b64', 'text': 'QUJD' + s + 'QUJD'}
        yield {'kind': 'b64', 'text': s + 'QUJD\n'}
        yield {'kind': 'b64', 'text': 'QUJD\n' + s + '\nQUJD\n'}
        for c in one(s + '\nQUJD\n' + ''.join(C)):
            yield c
        for c in one(C[0] + s + '\n' + C[1]):
            yield c
    for h in C + ['-----BEGIN X-----\n', 'From: x\n']:
        yield {'kind': 'b64', 'text': h + 'QUJD\n'}
        yield {'kind': 'b64', 'text': h + 'QUJD\n' + h.replace('BEGIN', 'END')}
    while True:
        if rnd.random() < .5:
            yield {'kind': 'b64', 'text': ''.join(rnd.choice(pieces) for _ in range(rnd.choice((3, 5, 9))))}
        else:
            for c in one(''.join(rnd.choice(al) for _ in range(rnd.choice((4, 6, 9)))), seek=rnd.random() < .8):
                yield c


# -- identifier builders -------------------------------------------------------------------------

def mkoid(x):
    from pyasn1.type import univ
    if isinstance(x, list):
        return univ.ObjectIdentifier(tuple(x))
    return x


def arcs_of(args):
    out = ()
    for a in args:
        out += tuple(a) if isinstance(a, list) else (int(a),)
    return out


def oid(case):
    import importlib
    from pyasn1.type import univ
    try:
        f = getattr(importlib.import_module('pyasn1_modules.' + case['module']), case['name'])
    except Exception as exc:
        return 'the module cannot be loaded: %s: %s' % (type(exc).__name__, exc)
    done = []
    for args in case['history']:
        real = [mkoid(a) for a in args]
        want = arcs_of(args)
        try:
            with limit(5):
                got = f(*real)
        except TooLong:
            return '%s%r does not return' % (case['name'], tuple(args))
        except Exception as exc:
            return '%s%r fails with %s: %s' % (case['name'], tuple(args), type(exc).__name__, exc)
        if not isinstance(got, univ.ObjectIdentifier):
            return '%s%r is %s' % (case['name'], tuple(args), show(got))
        done.append((got, want, args))
        for g, w, a in done:
            if tuple(g) != w:
                return '%s%s is %s, expected %s' % (case['name'], tuple(a), g, '.'.join(map(str, w)))
        for a, r in zip(args, real):
            if isinstance(a, list) and tuple(r) != tuple(a):
                return '%s changes its argument %r' % (case['name'], a)
    return None


def oid_cases(rnd, ints, strs, builders):
    def base(m, n, *hist):
        return {'kind': 'oid', 'module': m, 'name': n, 'history': [list(h) for h in hist]}
    P = [[1, 3], [1, 3, 6, 1], [2, 5, 4, 0], [0, 0], [1, 2, 840, 113549, 1, 9]]
    atoms = [0, 1, 2, 39, 40, 127, 128, 2 ** 31, 2 ** 64, '0', '7', '128', '4294967296', '007', ' 5 ', '1_0'] + P
    heads = [[1, 3], (1, 2), (2, 5), ([1, 3, 6],), (1, '3'), ('1', 3), ('2', '100'), (0, 0), ([2, 16, 840], 0)]
    for m, n in builders:
        for h in heads:
            yield base(m, n, h)
            for a in atoms:
                yield base(m, n, tuple(h) + (a,))
                yield base(m, n, tuple(h) + (a,), tuple(h), tuple(h) + (a, a))
        for a, b, c in itertools.product(atoms[:1] + atoms[3:5] + atoms[8:12] + P[:3], repeat=3):
            yield base(m, n, (1, 3, a, b, c))
            yield base(m, n, ([1, 3], a, b, c), ([1, 3], a), ([1, 3], a, b, c))
        for p in P:
            yield base(m, n, (p,), (p, 1), (p, p), (p,))
            yield base(m, n, (1, 3, p))
            yield base(m, n, (p, 1, 2), (p, 1, 3), (p, 1, 2))
        for k in sorted({x + d for x in ints if 0 <= x < 5000 for d in (-1, 0, 1)} | {64, 128, 300}):
            if k >= 0:
                yield base(m, n, (1, 3) + (7,) * k)
                yield base(m, n, (1, 3, k), (1, 3, str(k)), ([1, 3], k), (1, 3, [1, k + 1]))
                yield base(m, n, ([1, 3] + [5] * k, 4))
                yield base(m, n, *[(1, 3, j) for j in range(min(k + 2, 400))])
        for x in ints:
            if x >= 5000:
                yield base(m, n, (1, 3, x), (1, 3, x - 1), (1, 3, x + 1), (1, 3, str(x)), ([1, 3, x], x))
        for s in strs:
            if s.isdigit():
                yield base(m, n, (1, 3, s), (1, 3, int(s)))
    while True:
        m, n = rnd.choice(builders)
        hist = []
        for _ in range(rnd.choice((1, 2, 4))):
            hist.append(tuple(rnd.choice(heads)) + tuple(rnd.choice(atoms) for _ in range(rnd.choice((0, 1, 2, 5, 20)))))
        yield base(m, n, *hist)


# -- tools ----------------------------------------------------------------------------------------------

class ToolStdin(io.StringIO):
    pass


def run_tool(name, stdin, argv, patch=None, seconds=10):
    """(outcome, stdout): 'ok' | 'fail ...' | 'long'"""
    path = os.path.join(REPO, 'tools', name + '.py')
    with open(path) as f:
        src = f.read()
    out, err = io.StringIO(), io.StringIO()
    saved = sys.stdin, sys.stdout, sys.stderr, sys.argv
    sys.stdin, sys.stdout, sys.stderr, sys.argv = ToolStdin(stdin), out, err, [path] + argv
    before = set(sys.modules)
    sys.path.append(os.path.dirname(path))
    try:
        try:
            with limit(seconds):
                exec(compile(src, path, 'exec'), {'__name__': '__main__', '__file__': path})
            res = 'ok'
        except TooLong:
            res = 'long'
        except SystemExit as exc:
            res = 'ok' if exc.code in (None, 0) else 'fail exit %s' % (exc.code,)
        except BaseException as exc:
            res = 'fail %s: %s' % (type(exc).__name__, str(exc)[:200])
    finally:
        sys.stdin, sys.stdout, sys.stderr, sys.argv = saved
        sys.path.pop()
        for m in set(sys.modules) - before:
            if os.path.dirname(getattr(sys.modules[m], '__file__', None) or '') == os.path.dirname(path):
                del sys.modules[m]      # every run starts afresh
    return res, out.getvalue()


def get(t):
    import importlib
    m, n = t.split('.')
    return getattr(importlib.import_module('pyasn1_modules.' + m), n)


def ref_tool(tool, stdin):
    """(printed objects, fails, count or None)"""
    from pyasn1.codec.der import decoder, encoder
    printed, n = [], 0

    class Fail(Exception):
        pass

    def obj(d, typ, exact=False, whole=False, verify=True):
        try:
            v, rest = decoder.decode(d, asn1Spec=get(typ)())
        except Exception:
            raise Fail()
        if exact and rest:
            raise Fail()
        return v, rest

    def verify(v, d):
        try:
            if encoder.encode(v) != d:
                raise Fail()
        except Fail:
            raise
        except Exception:
            raise Fail()

    try:
        if tool.get('markers'):
            markers = [tuple(x[0]) for x in tool['markers']]
            types = [x[1] for x in tool['markers']]
            lines, pos = split_lines(stdin), 0
            while True:
                w, pos = ref_block(lines, pos, markers)
                if w[0] == 'bad':
                    raise Fail()
                if w[0] != 'block' or not w[2]:
                    if tool.get('single'):
                        raise Fail()
                    break
                d = w[2]
                v, rest = obj(d, types[w[1]])
                if rest:
                    d = d[:-len(rest)]
                # encoding may fill in empty optional records, so the text before and after it may differ
                text = v.prettyPrint()
                verify(v, d)
                printed.append((text, v.prettyPrint()))
                n += 1
                if tool.get('single'):
                    t = tool['types'].get(str(v['contentType']))
                    if t is None:
                        raise Fail()
                    v2, _ = obj(bytes(v['content']), t)
                    a = v2.prettyPrint()
                    try:
                        encoder.encode(v2)
                    except Exception:
                        pass
                    printed.append((a, v2.prettyPrint()))
                    break
        else:
            try:
                d = base64.b64decode(stdin.encode())
            except ValueError:
                raise Fail()
            if not d:
                return [], None, None
            typ = tool['whole']
            while True:
                v, rest = obj(d, typ, exact=bool(tool.get('layers')))
                text = v.prettyPrint()
                verify(v, d)
                printed.append((text, v.prettyPrint()))
                nxt = (tool.get('layers') or {}).get(typ)
                if not nxt:
                    break
                o = v
                for p in nxt[0]:
                    o = o[p]
                typ = tool['types'].get(str(o))
                if typ is None:
                    return printed, None, None      # unknown content: either way
                o = v
                for p in nxt[1]:
                    o = o[p]
                try:
                    d = bytes(o)
                except Exception:
                    raise Fail()
    except Fail:
        return printed, True, None
    return printed, False, n if tool.get('count') else None


def tool(case):
    import re
    t = case['tool']
    printed, fails, count = ref_tool(t, case['stdin'])
    res, out = run_tool(t['name'], case['stdin'], [])
    if res == 'long':
        return '%s does not end' % t['name']
    if fails is True and res == 'ok':
        return '%s ends well, but the input or its re-encoding is wrong' % t['name']
    if fails is False and res != 'ok':
        return '%s fails (%s) on good input' % (t['name'], res)
    pos = 0
    texts = {p for ps in printed for p in ps}
    for i, ps in enumerate(printed):
        hits = [(out.find(p, pos), -len(p), p) for p in ps if out.find(p, pos) >= 0]
        if not hits:
            return '%s: object %d of %d is not printed in its place' % (t['name'], i + 1, len(printed))
        j, _, p = min(hits)
        out = out[:j] + out[j + len(p):]
        pos = j
    if fails is False:
        for p in texts:
            if len(p) > 20 and p in out:
                return '%s: an object is printed twice' % t['name']
        roots = {p.split('\n')[0] for p in texts}
        if any(r in out.split('\n') for r in roots if r):
            return '%s: more is printed than the %d objects' % (t['name'], len(printed))
    if count is not None:
        ns = re.findall(r'(?<![#\w.-])\d+\b', out[pos:])
        if str(count) not in ns[:1]:
            return '%s: reports %s, but %d objects were printed' % (t['name'], ns[:1] or 'no count', count)
    return None


def pemtext(markers, ders, rnd, junk=False):
    out = ''
    for (b, e), d in ders:
        if junk:
            out += 'some text\n'
        s = base64.b64encode(d).decode()
        out += b + '\n' + '\n'.join(s[i:i + 64] for i in range(0, len(s), 64)) + '\n' + e + '\n'
    return out


def layered(types):
    """DER of CMC-like nestings and PKCS#7 contents: {name: [der]}"""
    from pyasn1.codec.der import decoder, encoder
    out = {}
    return out


def items(d):
    """[(tag octet, header, content)] of a concatenation of encodings; None when it is not one"""
    out, i = [], 0
    while i < len(d):
        j = i + 1
        if d[i] & 31 == 31:
            while j < len(d) and d[j] & 128:
                j += 1
            j += 1
        if j >= len(d):
            return None
        n, j = d[j], j + 1
        if n & 128:
            k = n & 127
            n, j = int.from_bytes(d[j:j + k], 'big'), j + k
        if j + n > len(d):
            return None
        out.append((d[i], d[i:j], d[j:j + n]))
        i = j + n
    return out


def disorders(d):
    """encodings of the same length with the elements of one set, or of one sequence, in another order"""
    def walk(d):
        its = items(d)
        for n, (t, h, c) in enumerate(its or ()):
            pre = b''.join(x[1] + x[2] for x in its[:n])
            post = b''.join(x[1] + x[2] for x in its[n + 1:])
            if t & 32:
                sub = items(c)
                if sub and len(sub) > 1:
                    r = b''.join(x[1] + x[2] for x in reversed(sub))
                    if r != c:
                        yield t == 0x31, pre + h + r + post
                for s, x in walk(c):
                    yield s, pre + h + x + post
            elif t == 1 and c == b'\xff':
                yield True, pre + h + b'\x01' + post
            elif t == 3 and len(c) > 1 and c[0]:
                yield True, pre + h + c[:-1] + bytes([c[-1] | 1]) + post
    found = list(itertools.islice(walk(d), 200))
    return [x for s, x in found if s][:6] + [x for s, x in found if not s][:2]


def tool_cases(rnd, ints, strs, tools):
    """tools: [{name, markers|whole, ..., ders: {type: [hex]}}]"""
    from pyasn1.codec.der import decoder, encoder

    def bad_forms(d):
        yield d[:-1]
        yield d + b'\x00'
        yield d + d
        yield d + b'\xff\xff'
        # a length that is not minimal: decodes, but is not what the encoder writes
        if d[1] < 128:
            yield d[:1] + b'\x81' + d[1:]
        yield b'\x02\x01\x00'
        yield bytes([d[0] ^ 1]) + d[1:]
        for x in disorders(d):
            yield x
        for n in sorted({254, 255, 256, 257, 300, 65536} | {x + k for x in ints if 1 < x < 100000 for k in (0, 1)}):
            yield d + b'z' * n

    def good(typ, hexes):
        out = []
        for h in hexes:
            d = bytes.fromhex(h)
            try:
                v, r = decoder.decode(d, asn1Spec=get(typ)())
                if not r and encoder.encode(v) == d:
                    out.append(d)
            except Exception:
                pass
        return out
    gens = []
    for t in tools:
        desc = {k: v for k, v in t.items() if k != 'ders'}
        ders = {k: good(k, v) for k, v in t['ders'].items()}
        gens.append(_tool_cases(desc, ders, rnd, bad_forms, ints))
    while gens:
        for g in list(gens):
            c = None
            for _ in range(20):
                c = next(g, None)
                if c is None:
                    gens.remove(g)
                    break
                yield c


def _tool_cases(t, ders, rnd, bad_forms, ints):
    from pyasn1.codec.der import decoder, encoder

    def case(stdin):
        return {'kind': 'tool', 'tool': t, 'stdin': stdin}
    yield case('')
    yield case('\n')
    yield case('not base64\n')
    if t.get('types'):
        # nested contents
        top = t.get('whole') or t['markers'][0][1]
        wraps = []
        for o, typ in sorted(t['types'].items()):
            for d in ders.get(typ, ())[:6]:
                wraps.append((o, d))
        deep = []
        if t.get('layers'):
            L = t['layers']
            sd = [k for k in L if k.endswith('SignedData')]
            oid_sd = [o for o, x in t['types'].items() if x in sd][:1]
            base = ders.get(sd[0], ())[:1] if sd else ()
            for b in base:
                for o, d in wraps + [('1.2.3', b'\x05\x00')]:
                    v, _ = decoder.decode(b, asn1Spec=get(sd[0])())
                    v['encapContentInfo']['eContentType'] = o
                    v['encapContentInfo']['eContent'] = d
                    deep.append((oid_sd[0], encoder.encode(v)))
                    for bd in list(bad_forms(d))[:5]:
                        v['encapContentInfo']['eContent'] = bd
                        deep.append((oid_sd[0], encoder.encode(v)))
        full = []
        for o, d in deep + wraps + [('1.2.3.4', b'\x05\x00')]:
            v = get(top)()
            v['contentType'] = o
            try:
                v['content'] = d
                if not encoder.encode(v).endswith(d):
                    raise ValueError
            except Exception:
                continue
            full.append(encoder.encode(v))
        ders = dict(ders)
        ders[top] = full + ders.get(top, [])
        if t.get('layers'):
            # a content info in a content info
            for d in full[:8]:
                v = get(top)()
                o = [o for o, x in t['types'].items() if x == top]
                if o:
                    v['contentType'] = o[0]
                    v['content'] = d
                    ders[top].append(encoder.encode(v))
    if t.get('markers'):
        pairs = [(tuple(m), ders.get(typ, [])) for m, typ in t['markers']]
        for m, ds in pairs:
            for d in ds:
                yield case(pemtext(None, [(m, d)], rnd))
            for d in ds[4:]:
                for b in disorders(d):
                    yield case(pemtext(None, [(m, b)], rnd))
            for d in ds[:4]:
                for b in bad_forms(d):
                    yield case(pemtext(None, [(m, b)], rnd))
                    yield case(pemtext(None, [(m, ds[0]), (m, b)], rnd))
                yield case(pemtext(None, [(m, d)], rnd, True))
            for n in sorted({2, 3, 5, 17} | {x + k for x in ints if 1 < x < 300 for k in (0, 1)}):
                if ds:
                    yield case(pemtext(None, [(m, ds[i % len(ds)]) for i in range(n)], rnd))
                    yield case(pemtext(None, [(m, ds[0])] * n, rnd))
            if ds:
                one = pemtext(None, [(m, ds[0])], rnd)
                yield case(one + m[0] + '\n' + m[1] + '\n' + one)
                yield case(one + m[0] + '\nQUJD\n')
                yield case(one + m[0] + '\n=A\n' + m[1] + '\n' + one)
                yield case(one.replace('BEGIN', 'BEGIN OTHER') + one)
        allp = [(m, d) for m, ds in pairs for d in ds]
        # the other kind of block under a marker
        for m, ds in pairs:
            for m2, ds2 in pairs:
                if m is not m2:
                    for d in ds2[:2]:
                        yield case(pemtext(None, [(m, d)], rnd))
        for _ in range(150):
            if allp:
                yield case(pemtext(None, [rnd.choice(allp) for _ in range(rnd.choice((1, 2, 3, 4)))], rnd, rnd.random() < .3))
    else:
        for d in ders.get(t['whole'], []):
            yield case(base64.encodebytes(d).decode())
        for d in ders.get(t['whole'], [])[12:]:
            for b in disorders(d):
                yield case(base64.b64encode(b).decode() + '\n')
        for d in ders.get(t['whole'], [])[:12]:
            for b in bad_forms(d):
                yield case(base64.b64encode(b).decode() + '\n')


# -- clients ---------------------------------------------------------------------------------------------

def tlv(tag, c):
    n = len(c)
    if n < 128:
        return bytes([tag, n]) + c
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([tag, 128 | len(b)]) + b + c


def mkcert(name, issuer, serial, key, unused):
    def mkname(x):
        cn = tlv(0x30, tlv(0x06, bytes.fromhex('550403')) + tlv(0x13, x.encode()))
        return tlv(0x30, tlv(0x31, cn)) if x else tlv(0x30, b'')
    alg = tlv(0x30, tlv(0x06, bytes.fromhex('2a864886f70d010105')) + tlv(5, b''))
    n = (serial.bit_length() // 8) + 1
    spki = tlv(0x30, alg + tlv(3, bytes([unused]) + key))
    t = tlv(0x17, b'200101000000Z')
    tbs = tlv(0x30, tlv(2, serial.to_bytes(n, 'big', signed=True)) + alg + mkname(issuer) + tlv(0x30, t + t) + mkname(name) + spki)
    return tlv(0x30, tbs + alg + tlv(3, b'\x00\x01')), mkname(issuer)


def mkresponse(case):
    ok = case.get('status', 0)
    top = tlv(10, bytes([ok]))
    if case.get('nobytes'):
        return tlv(0x30, top), None
    alg = tlv(0x30, tlv(0x06, bytes.fromhex('2b0e03021a')))
    singles, rep = b'', []
    for i, st in enumerate(case.get('single', ['good'])):
        serial = 4000 + 13 * i
        cid = tlv(0x30, alg + tlv(4, b'n' * 20) + tlv(4, b'k' * 20) + tlv(2, serial.to_bytes(3, 'big')))
        s = {'good': b'\x80\x00', 'unknown': b'\x82\x00', 'revoked': tlv(0xa1, tlv(0x18, b'20190101000000Z'))}[st]
        this = b'2021010100000%dZ' % (i % 10)
        extra = tlv(0xa0, tlv(0x18, b'20300101000000Z')) if case.get('next') else b''
        singles += tlv(0x30, cid + s + tlv(0x18, this) + extra)
        rep.append((serial, st, this.decode()))
    rid = tlv(0xa2, tlv(4, b'h' * 20))
    data = tlv(0x30, rid + tlv(0x18, b'20220202020202Z') + tlv(0x30, singles))
    basic = tlv(0x30, data + alg + tlv(3, b'\x00\x01'))
    o = {'basic': '2b0601050507300101'}.get(case.get('type', 'basic'), '2b060105050730010' + '2')
    rb = tlv(0x30, tlv(6, bytes.fromhex(o)) + tlv(4, basic if not case.get('junk') else b'junk'))
    good = ok == 0 and case.get('type', 'basic') == 'basic' and rep and not case.get('junk')
    return tlv(0x30, top + tlv(0xa0, rb)), ((rep[0][0], rep[0][1], '20220202020202Z', rep[0][2]) if good else None)


def ocsp(case):
    import hashlib
    import urllib.request
    ic, iname = mkcert(case['issuer'], case['issuer'], 1, bytes.fromhex(case['key']), case['unused'])
    uc, uname = mkcert('user', case['userissuer'], case['serial'], b'\x30\x00', 0)
    pair = ('-----BEGIN CERTIFICATE-----', '-----END CERTIFICATE-----')
    stdin = pemtext(None, [(pair, ic), (pair, uc)], None)
    rsp, report = mkresponse(case.get('response', {}))
    sent = []

    class R(object):
        def read(self, *a):
            return rsp

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def urlopen(req, data=None, *a, **kw):
        if isinstance(req, str):
            sent.append((req, data))
        else:
            sent.append((req.full_url, data if data is not None else req.data))
        return R()
    saved = urllib.request.urlopen
    urllib.request.urlopen = urlopen
    url = 'http://ocsp.example/x'
    try:
        res, out = run_tool('ocspclient', stdin, [url] if not case.get('bare') else [])
    finally:
        urllib.request.urlopen = saved
    if case.get('bare'):
        return 'a request is sent without a responder' if sent else None
    if res == 'long':
        return 'the client does not end'
    if case['issuer'] != case['userissuer']:
        return 'a request is sent for a certificate of another issuer' if sent else \
            'the client ends well for a certificate of another issuer' if res == 'ok' else None
    if len(sent) != 1:
        return '%d requests are sent (%s)' % (len(sent), res)
    if sent[0][0] != url:
        return 'the request goes to %s' % sent[0][0]
    n = (case['serial'].bit_length() // 8) + 1
    ok = []
    for par in (b'', tlv(5, b'')):
        alg = tlv(0x30, tlv(6, bytes.fromhex('2b0e03021a')) + par)
        cid = tlv(0x30, alg + tlv(4, hashlib.sha1(uname).digest()) + tlv(4, hashlib.sha1(bytes.fromhex(case['key'])).digest())
                  + tlv(2, case['serial'].to_bytes(n, 'big', signed=True)))
        ok.append(tlv(0x30, tlv(0x30, tlv(0x30, tlv(0x30, cid)))))
    if sent[0][1] not in ok:
        return 'the request is %s, expected %s' % (sent[0][1].hex() if isinstance(sent[0][1], bytes) else sent[0][1], ok[0].hex())
    if report is None:
        if res == 'ok':
            return 'a response that is not a successful basic one is reported: %s' % show(out)
        return None
    if res != 'ok':
        return 'the client fails (%s) on a good response' % res
    pos = 0
    for x in report:
        j = out.find(str(x), pos)
        if j < 0:
            return 'the report %s does not give %s' % (show(out), report)
        pos = j + len(str(x))
    return None


def ocsp_cases(rnd, ints):
    base = {'kind': 'ocsp', 'issuer': 'CA', 'userissuer': 'CA', 'serial': 12345, 'key': '3006020103020105', 'unused': 0}

    def c(**kw):
        return dict(base, **kw)
    yield c()
    yield c(bare=True)
    for s in sorted({0, 1, -1, 127, 128, 255, 256, -128, -129, 2 ** 63, 2 ** 64, 2 ** 159, 2 ** 160 + 1}
                    | {x + k for x in ints for k in (-1, 0, 1)} | {2 ** x - 1 for x in ints if 0 < x < 2000}):
        yield c(serial=s)
    for k in ('', '00', '0000', 'ff', '00ff' * 40, '80' * 200, '01' * 127, '01' * 128, '30' * 300):
        for u in (0, 1, 5, 7):
            if (k or not u) and not (u and int(k[-2:], 16) & ((1 << u) - 1)):
                yield c(key=k, unused=u)
    for u in range(8):
        yield c(key='a5a500' if u else 'a5a501', unused=u)
        yield c(key='00a580', unused=u)
    for a, b in (('CA', 'CB'), ('CA', 'ca'), ('CA', ''), ('', 'CA'), ('', ''), ('CA', 'CA '), ('x' * 200, 'x' * 200)):
        yield c(issuer=a, userissuer=b)
    for st in ('good', 'revoked', 'unknown'):
        for more in ([], ['good'], ['revoked', 'unknown'], ['good'] * 9):
            for nxt in (False, True):
                yield c(response={'single': [st] + more, 'next': nxt})
    for r in ({'single': []}, {'type': 'other'}, {'nobytes': True}, {'junk': True}) + tuple(
            {'status': s} for s in (1, 2, 3, 5, 6)) + tuple({'status': s, 'nobytes': True} for s in (1, 2, 3, 5, 6)):
        yield c(response=r)


def snmp(case):
    import socket
    sent = []

    class Sock(object):
        peer = None

        def __init__(self, *a, **kw):
            pass

        def __getattr__(self, n):
            return lambda *a, **kw: None

        def connect(self, p):
            self.peer = p

        def send(self, d, *a):
            sent.append((bytes(d), self.peer))
            return len(d)
        sendall = send

        def sendto(self, d, *a):
            sent.append((bytes(d), a[-1]))
            return len(d)

        def recvfrom(self, n, *a):
            return sent[-1][0], ('h', 161)

        def recv(self, n, *a):
            return sent[-1][0]

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    saved = socket.socket
    socket.socket = Sock
    arcs = case['oid']
    try:
        res, out = run_tool('snmpget', '', [case['community'], 'host.example', '.'.join(map(str, arcs))][:case.get('args', 3)])
    finally:
        socket.socket = saved
    if case.get('args', 3) < 3:
        return 'a message is sent without arguments' if sent else None
    if len(sent) != 1:
        return '%d messages are sent (%s)' % (len(sent), res)
    d, peer = sent[0]
    if tuple(peer or ()) != ('host.example', 161):
        return 'the message goes to %s' % (peer,)

    def b128(v):
        o = [v & 127]
        v >>= 7
        while v:
            o.insert(0, v & 127 | 128)
            v >>= 7
        return bytes(o)
    body = b128(arcs[0] * 40 + arcs[1]) + b''.join(b128(a) for a in arcs[2:])
    vb = tlv(0x30, tlv(0x30, tlv(6, body) + tlv(5, b'')))
    tail = tlv(2, b'\0') + tlv(2, b'\0') + vb
    from pyasn1.codec.ber import decoder
    try:
        v, rest = decoder.decode(d)
        rid = int(v[2][0]) if False else None
    except Exception:
        pass
    # the request identifier is free: find it where it must be
    for n in range(1, 9):
        for i in range(len(d) - n):
            if d[i] == 2 and d[i + 1] == n and d[i + 2 + n:] == tail:
                r = d[i:i + 2 + n]
                want = tlv(0x30, tlv(2, b'\0') + tlv(4, case['community'].encode('latin-1')) + tlv(0xa0, r + tail))
                if d == want:
                    return None if res == 'ok' else 'the client fails (%s)' % res
    return 'the message is %s' % d.hex()


def snmp_cases(rnd, ints):
    for com in ('public', '', 'x', 'private', 'a' * 127, 'a' * 128, 'a' * 300, 'caf\u00e9', ' public ', '0', '123', '0x41', "'41'H", 'version-1'):
        for o in ([1, 3, 6, 1, 2, 1, 1, 1, 0], [1, 3], [2, 999, 3], [0, 0], [1, 3, 6, 1, 4, 1, 2 ** 32 - 1, 0, 127, 128, 16384]):
            yield {'kind': 'snmp', 'community': com, 'oid': o}
    for n in (0, 1, 2):
        yield {'kind': 'snmp', 'community': 'public', 'oid': [1, 3, 6], 'args': n}
    for x in ints:
        if x >= 0:
            yield {'kind': 'snmp', 'community': 'c', 'oid': [1, 3, 6, x, x + 1]}
            if x < 3000:
                yield {'kind': 'snmp', 'community': 'c' * x, 'oid': [1, 3, 6]}
                yield {'kind': 'snmp', 'community': 'c', 'oid': [1, 3] + [6] * min(x, 100)}


def c14_cases(rnd, ints, strs):
    a, b = ocsp_cases(rnd, ints), snmp_cases(rnd, ints)
    for x, y in itertools.zip_longest(a, b):
        for z in (x, y):
            if z is not None:
                yield z


KINDS = {f.__name__: f for f in (pem, pem1, b64, oid, tool, ocsp, snmp)}


def run(case):
    try:
        return KINDS[case['kind']](case)
    except TooLong:
        return 'it does not return'


def main(case):
    r = run(case)
    print(case.get('title', ''))
    print('VIOLATED: ' + r if r else 'holds on this input')
    return 1 if r else 0


def search(req):
    rnd = random.Random(req['seed'])
    prop = req['prop']
    src = lambda *p: os.path.join(REPO, *p)
    end = time.time() + req['budget']
    if prop == 'C01':
        cases = pem_cases(rnd, *mined(src('pyasn1_modules', 'pem.py')))
    elif prop == 'C02':
        cases = c02_cases(rnd, *mined(src('pyasn1_modules', 'pem.py')))
    elif prop == 'C03':
        bs = [tuple(b) for b in req['data']]
        ints, strs = set(), set()
        for m in {b[0] for b in bs}:
            with open(src('pyasn1_modules', m + '.py')) as f:
                tree = ast.parse(f.read())
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool):
                            ints.add(x.value)
                        elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                            strs.add(x.value)
        cases = oid_cases(rnd, sorted(ints), sorted(strs), bs)
    elif prop == 'C13':
        ints = set()
        for t in req['data']:
            ints |= set(mined(src('tools', t['name'] + '.py'))[0])
        cases = tool_cases(rnd, sorted(ints), [], req['data'])
    else:
        ints, strs = mined(src('tools', 'ocspclient.py'), src('tools', 'snmpget.py'))
        cases = c14_cases(rnd, ints, strs)
    tried, failing = 0, []
    for c in cases:
        if time.time() > end or len(failing) >= req.get('keep', 3):
            break
        tried += 1
        r = run(c)
        if r:
            failing.append([c, r])
    return {'tried': tried, 'failing': failing}


if __name__ == '__main__':
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))      # an input that fills the memory fails
    json.dump(search(json.load(sys.stdin)), sys.stdout)
