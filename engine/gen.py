"""Contract-driven DER: values and encodings derived from the contracts alone, used to turn a
failed obligation into an input for the real code (and to cross-check the trusted codec).

A value tree is  ('prim', content bytes) | ('rec', {name: tree}) | ('choice', name, tree) |
('list', [trees]) | ('any', der bytes).
"""
import con as conmod


def length(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([128 | len(b)]) + b


def ident(cls, num, constructed):
    first = cls | (32 if constructed else 0)
    if num < 31:
        return bytes([first | num])
    out = [num & 127]
    num >>= 7
    while num:
        out.append(128 | num & 127)
        num >>= 7
    return bytes([first | 31]) + bytes(reversed(out))


def tlv(cls, num, constructed, content):
    return ident(cls, num, constructed) + length(len(content)) + content


def int_bytes(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return v.to_bytes(n, 'big', signed=True)


def oid_bytes(arcs):
    out = b''
    head = arcs[0] * 40 + arcs[1]
    for a in [head] + list(arcs[2:]):
        chunk = [a & 127]
        a >>= 7
        while a:
            chunk.append(128 | a & 127)
            a >>= 7
        out += bytes(reversed(chunk))
    return out


def bit_bytes(bits):
    pad = -len(bits) % 8
    v = int(bits + '0' * pad, 2) if bits else 0
    return bytes([pad]) + (v.to_bytes((len(bits) + pad) // 8, 'big') if bits else b'')


class Gen(object):
    def __init__(self, spec):
        self.spec = spec
        self.heights = {}
        self.prims = {}

    # minimal height of a finite value -------------------------------------------------
    def height(self, t, path=()):
        d = self.spec.den(t)
        k = id(d)
        if k in self.heights:
            return self.heights[k]
        if k in path:
            return 10 ** 6
        p = path + (k,)
        if d.kind == 'Choice':
            h = 1 + min([self.height(c['type'], p) for c in d.comps] or [0])
        elif d.kind in ('Sequence', 'Set'):
            h = 1 + max([self.height(c['type'], p) for c in d.comps if c['mode'] == 'required'] or [0])
        elif d.kind in ('SequenceOf', 'SetOf'):
            h = 1 + (self.height(d.elem, p) if self.count(d) else 0)
        else:
            h = 1
        if not path or h < 10 ** 6:
            self.heights[k] = h
        return h

    def count(self, d, prefer=0):
        tree = conmod.spec_tree(d.kind, d.con)
        for n in ([prefer] if prefer else []) + list(range(0, 70)):
            if conmod.ev(tree, d.kind, ('n', n), True):
                return n
        return 0

    # primitive contents -------------------------------------------------------------
    def prim(self, d, seed=0):
        tree = conmod.spec_tree(d.kind, d.con)
        for v in self.candidates(d, tree, seed):
            try:
                if conmod.ev(tree, d.kind, v, True):
                    return ('prim', self.content(d, v), v)
            except conmod.Unrelated:
                continue
        raise ValueError('no value found for %s %s' % (d.kind, tree))

    def extreme(self, k, seed):
        """values at the edges of what a type without constraints takes"""
        i = seed - 11
        if k in conmod.INTS:
            return [(-129, (1 << 200) + 1, -(1 << 170), 1 << 63)[i]]
        if k == 'BitString':
            return [('', '10' * 300, '1000', '0' * 32)[i]]
        if k == 'ObjectIdentifier':
            return [((2, 999, 3), (0, 39), (1, 3, 6, 1, 4, 1, 1 << 64), (2, 5, 4, 0, 127, 128))[i]]
        if k == 'UTCTime':
            return [('491231235959Z', '500101000000Z', '991231235959Z', '000101000000Z')[i]]
        if k == 'GeneralizedTime':
            return [('19500101000000Z', '20491231235959Z', '99991231235959Z', '20500101000000Z')[i]]
        if k == 'OctetString':
            return [(b'', bytes(range(256)) * 2, b'\0', b'\xff' * 127)[i]]
        if k == 'NumericString':
            return [('', '1 2', '0' * 200, '9')[i]]
        if k in conmod.STRINGS and k not in ('Null', 'Any'):
            return [('', ' a ', 'z' * 200, 'Az-09')[i]]
        return []

    def candidates(self, d, tree, seed):
        k = d.kind
        if 11 <= seed <= 14 and not d.named:
            return self.extreme(k, seed) + self.candidates(d, tree, seed - 10)
        lits = []
        nums = []
        for l in conmod.leaves(tree):
            if l[0] == 'single':
                lits += [conmod.literal(k, v) for v in l[1:]]
            elif l[0] in ('range', 'size'):
                nums += [x for x in l[1:] if isinstance(x, int)]
        lits = [x for x in lits if x is not None]
        if k == 'Boolean':
            return [1, 0] if seed % 2 == 0 else [0, 1]
        if k in conmod.INTS:
            base = [5 + seed, 1 + seed, 2, 0, 1] + nums
            if d.named:
                base = [n for _, n in d.named][seed % len(d.named):] + [n for _, n in d.named]
            return base + lits + [n + 1 for n in nums] + [n - 1 for n in nums]
        if k == 'ObjectIdentifier':
            return lits[seed % len(lits):] + lits if lits else [(1, 2, 3, 4 + seed)]
        if k == 'BitString':
            sizes = [8 + seed % 7] + nums + list(range(0, 20))
            return lits + [('10110' * n)[:n] for n in sizes]
        if k == 'Null':
            return [b'']
        if k == 'UTCTime':
            return ['2%d0102030405Z' % (seed % 10)]
        if k == 'GeneralizedTime':
            return ['202%d0102030405Z' % (seed % 10)]
        alph = [conmod.chars_of(k, l) for l in conmod.leaves(tree) if l[0] == 'alphabet']
        sizes = [3 + seed % 4] + sorted(nums) + list(range(0, 300))
        chars = '7130' if k == 'NumericString' else 'abc1'
        if seed == 3:
            chars = {'UTF8String': '\u0416\u4e2d', 'BMPString': '\u0416\u4e2d', 'UniversalString': '\u0416\u4e2d',
                     'TeletexString': '\xe9', 'OctetString': '\xff\x00'}.get(k, chars)
        if alph:
            chars = ''.join(map(chr, sorted(alph[0])))
        out = []
        for n in sizes:
            s = ((chars[seed % len(chars):] + chars) * (n // max(1, len(chars)) + 2))[:n]
            out.append(s.encode('latin-1') if k in ('OctetString', 'Any') else s)
        return lits + out

    def content(self, d, v):
        k = d.kind
        if k == 'Boolean':
            return b'\xff' if v else b'\x00'
        if k in conmod.INTS:
            return int_bytes(v)
        if k == 'ObjectIdentifier':
            return oid_bytes(v)
        if k == 'BitString':
            return bit_bytes(v)
        if isinstance(v, bytes):
            return v
        return v.encode(d.enc or 'latin-1')

    # value trees -------------------------------------------------------------------
    def minimal(self, t, seed=0):
        d = self.spec.den(t)
        if d.kind == 'Choice':
            c = min(d.comps, key=lambda c: self.height(c['type']))
            return ('choice', c['name'], self.minimal(c['type'], seed))
        if d.kind in ('Sequence', 'Set'):
            out = {c['name']: self.minimal(c['type'], seed) for c in d.comps if c['mode'] == 'required'}
            return ('rec', self.repair(d, out, seed))
        if d.kind in ('SequenceOf', 'SetOf'):
            return ('list', [self.minimal(d.elem, seed + i) for i in range(self.count(d))])
        if d.kind == 'Any':
            return ('any', b'\x04\x01\x2a')
        return self.prim(d, seed)

    def presence_ok(self, d, names):
        tree = conmod.spec_tree(d.kind, d.con)
        try:
            return conmod.ev(tree, d.kind, {n: True for n in names}, True)
        except conmod.Unrelated:
            return True

    def repair(self, d, out, seed, keep=()):
        """smallest change to the presence set that satisfies the presence constraints"""
        if not d.con or self.presence_ok(d, out):
            return out
        opt = [c for c in d.comps if c['mode'] != 'required']
        import itertools
        for n in range(0, min(len(opt), 4) + 1):
            for flip in itertools.combinations([c for c in opt if c['name'] not in keep], n):
                new = dict(out)
                for c in flip:
                    if c['name'] in new:
                        del new[c['name']]
                    else:
                        new[c['name']] = self.nondefault(c, seed)
                if self.presence_ok(d, new):
                    return {c['name']: new[c['name']] for c in d.comps if c['name'] in new}
        return out

    def nondefault(self, c, seed=0):
        """a value of the component that is not its DEFAULT"""
        t = c['type']
        if c['mode'] != 'default':
            v = self.minimal(t, seed)
            if self.hollow(v):
                # the codec treats an empty constructed optional component as absent
                v = self.filled(t, seed) or v
            return v
        dv = self.spec.resval(c['default'], t, t.mod)
        want = self.der(t, self.fromval(t, dv))
        for s in range(seed, seed + 8):
            v = self.minimal(t, s)
            if self.der(t, v) != want:
                return v
        for v in self.variants(t):
            if self.der(t, v) != want:
                return v
        return None

    def fromval(self, t, v):
        """contract value -> value tree"""
        d = self.spec.den(t)
        if d.kind == 'Any':
            if 'octets' in v:
                return ('any', bytes.fromhex(v['octets']))
            return ('any', b'\x05\x00')
        if d.kind in ('Sequence', 'Set'):
            out = {}
            s = (v or {}).get('struct', {})
            for c in d.comps:
                if c['name'] in s:
                    out[c['name']] = self.fromval(c['type'], s[c['name']])
            return ('rec', out)
        if d.kind == 'Choice':
            n, x = v['choice']
            c = [c for c in d.comps if c['name'] == n][0]
            return ('choice', n, self.fromval(c['type'], x))
        if d.kind in ('SequenceOf', 'SetOf'):
            return ('list', [self.fromval(d.elem, x) for x in v['list']])
        if d.kind in conmod.INTS:
            return ('prim', self.content(d, v['int']), v['int'])
        if d.kind == 'ObjectIdentifier':
            return ('prim', oid_bytes(v['oid']), tuple(v['oid']))
        if d.kind == 'BitString':
            return ('prim', bit_bytes(v['bits']), v['bits'])
        if d.kind == 'Null':
            return ('prim', b'', b'')
        x = bytes.fromhex(v['octets']) if 'octets' in v else v['text']
        return ('prim', self.content(d, x), x)

    def hollow(self, v):
        """some list or record inside is empty"""
        if v[0] == 'choice':
            return self.hollow(v[2])
        if v[0] == 'rec':
            return not v[1] or any(self.hollow(x) for x in v[1].values())
        if v[0] == 'list':
            return not v[1] or any(self.hollow(x) for x in v[1])
        return False

    def filled(self, t, seed=0, depth=0):
        """smallest value without empty lists or records; None when there is none"""
        d = self.spec.den(t)
        if depth > 12:
            return None
        if d.kind == 'Choice':
            for c in sorted(d.comps, key=lambda c: self.height(c['type'])):
                x = self.filled(c['type'], seed, depth + 1)
                if x is not None:
                    return ('choice', c['name'], x)
            return None
        if d.kind in ('Sequence', 'Set'):
            out = {}
            for c in d.comps:
                if c['mode'] == 'required':
                    out[c['name']] = self.filled(c['type'], seed, depth + 1)
                    if out[c['name']] is None:
                        return None
            if not out:
                for c in d.comps:
                    x = self.filled(c['type'], seed, depth + 1)
                    if c['mode'] == 'default':
                        x = self.nondefault(c, seed)
                        if x is None or self.hollow(x):
                            continue
                    if x is not None:
                        out[c['name']] = x
                        break
            out = self.repair(d, out, seed)
            v = ('rec', {c['name']: out[c['name']] for c in d.comps if c['name'] in out})
            return None if self.hollow(v) else v
        if d.kind in ('SequenceOf', 'SetOf'):
            x = self.filled(d.elem, seed, depth + 1)
            return None if x is None else ('list', [x] + [self.filled(d.elem, seed + i, depth + 1)
                                                         for i in range(1, max(1, self.count(d)))])
        return self.minimal(t, seed)

    def variants(self, t, deep=1):
        """a few values of t that together use every component and alternative of it"""
        d = self.spec.den(t)
        out = [self.minimal(t)]
        if d.kind == 'Choice':
            out = []
            for c in d.comps:
                for v in (self.variants(c['type'], deep - 1) if deep > 0 else [self.minimal(c['type'])]):
                    out.append(('choice', c['name'], v))
        elif d.kind in ('Sequence', 'Set'):
            base = out[0][1]
            opt = [c for c in d.comps if c['mode'] != 'required']

            def rec(m, keep=()):
                m = {k: v for k, v in m.items() if v is not None}
                return ('rec', self.repair(d, {c['name']: m[c['name']] for c in d.comps if c['name'] in m}, 0, keep))
            if opt:
                full = dict(base)
                full.update({c['name']: self.nondefault(c, 1) for c in opt})
                out.append(rec(full))
                for c in opt:
                    one = dict(base)
                    one[c['name']] = self.nondefault(c, 2)
                    out.append(rec(one, (c['name'],)))
                    if len(opt) > 1:
                        less = dict(full)
                        less.pop(c['name'])
                        out.append(rec(less, (c['name'],)))
            if deep > 0:
                for c in d.comps:
                    for v in self.variants(c['type'], deep - 1)[1:]:
                        m = dict(base)
                        m[c['name']] = v
                        if c['mode'] != 'required' and self.hollow(v):
                            continue
                        if c['mode'] == 'default' and self.der(c['type'], v) == self.der(
                                c['type'], self.fromval(c['type'], self.spec.resval(c['default'], c['type'], c['type'].mod))):
                            continue
                        out.append(rec(m, (c['name'],)))
        elif d.kind in ('SequenceOf', 'SetOf'):
            n = self.count(d, 2)
            out.append(('list', [self.minimal(d.elem, i) for i in range(n)]))
            if deep > 0:
                k = self.count(d, 19)
                if k > n:
                    out.append(('list', [self.minimal(d.elem, i) for i in range(k)]))
                m = max(1, self.count(d))
                for v in self.variants(d.elem, deep - 1)[1:]:
                    out.append(('list', [v] + [self.minimal(d.elem, i) for i in range(m - 1)]))
        elif d.kind == 'Any':
            out.append(('any', b'\x05\x00'))
            out.append(('any', b'\x30\x03\x02\x01\x07'))
        else:
            for s in (1, 2, 3) + ((11, 12, 13, 14) if deep > 0 else ()):
                try:
                    v = self.prim(d, s)
                except ValueError:
                    continue
                if v not in out:
                    out.append(v)
        return out

    def wrap(self, t, path, inner):
        """value of t that contains `inner` at component path (list of names / '*')"""
        if not path:
            return inner
        d = self.spec.den(t)
        h, rest = path[0], path[1:]
        if h == '*':
            n = max(1, self.count(d))
            v = self.wrap(d.elem, rest, inner)
            return ('list', [v] + [self.minimal(d.elem, i + 3) for i in range(n - 1)])
        c = [c for c in d.comps if c['name'] == h][0]
        v = self.wrap(c['type'], rest, inner)
        if d.kind == 'Choice':
            return ('choice', h, v)
        m = dict(self.minimal(t)[1])
        m[h] = v
        return ('rec', self.repair(d, {c['name']: m[c['name']] for c in d.comps if c['name'] in m}, 0, (h,)))

    # encoding ------------------------------------------------------------------------
    def der(self, t, v):
        d = self.spec.den(t)
        return self.enc(d, v)

    def enc(self, d, v):
        k = d.kind
        if k == 'Choice':
            c = [c for c in d.comps if c['name'] == v[1]][0]
            body = self.der(c['type'], v[2])
            for cls, num in d.tags:
                body = tlv(cls, num, True, body)
            return body
        if k == 'Any':
            body = v[1]
            for cls, num in d.tags:
                body = tlv(cls, num, True, body)
            return body
        if k in ('Sequence', 'Set'):
            parts = []
            for c in d.comps:
                if c['name'] in v[1]:
                    x = self.der(c['type'], v[1][c['name']])
                    if c['mode'] == 'default' and x == self.der(c['type'], self.fromval(
                            c['type'], self.spec.resval(c['default'], c['type'], c['type'].mod))):
                        continue
                    parts.append(x)
            if k == 'Set':
                parts.sort(key=lambda x: (x[0] & 0xc0, self.tagnum(x)))
            body, cons = b''.join(parts), True
        elif k in ('SequenceOf', 'SetOf'):
            parts = [self.der(d.elem, x) for x in v[1]]
            if k == 'SetOf':
                n = max(map(len, parts), default=0)
                parts.sort(key=lambda x: x.ljust(n, b'\0'))
            body, cons = b''.join(parts), True
        else:
            body, cons = v[1], False
        for cls, num in d.tags:
            body = tlv(cls, num, cons, body)
            cons = True
        return body

    @staticmethod
    def tagnum(x):
        if x[0] & 31 != 31:
            return x[0] & 31
        n = 0
        for b in x[1:]:
            n = n << 7 | b & 127
            if not b & 128:
                return n

    # what the decoder must report ----------------------------------------------------------
    def shape(self, t, v):
        d = self.spec.den(t)
        if d.kind == 'Choice':
            c = [c for c in d.comps if c['name'] == v[1]][0]
            return {'choice': [v[1], self.shape(c['type'], v[2])]}
        if d.kind in ('Sequence', 'Set'):
            out = {}
            for c in d.comps:
                if c['name'] in v[1]:
                    out[c['name']] = self.shape(c['type'], v[1][c['name']])
                elif c['mode'] == 'default':
                    dv = self.spec.resval(c['default'], c['type'], c['type'].mod)
                    out[c['name']] = {'default': self.der(c['type'], self.fromval(c['type'], dv)).hex()}
            return {'rec': out}
        if d.kind in ('SequenceOf', 'SetOf'):
            vs = v[1]
            if d.kind == 'SetOf':
                n = max([len(self.der(d.elem, x)) for x in vs], default=0)
                vs = sorted(vs, key=lambda x: self.der(d.elem, x).ljust(n, b'\0'))
            return {'list': [self.shape(d.elem, x) for x in vs]}
        if d.kind == 'Any':
            return {'any': v[1].hex()}
        return {'der': self.enc(d, v).hex()}
