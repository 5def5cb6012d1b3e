"""The contract language: ASN.1 notation (with the Python names the library publishes) and
its denotation.  Independent of pyasn1 and of /repo: contracts are read from
/verif/contracts/asn1/*.asn1 only.

    MODULE rfc5280
    EXTENDS rfc2459                        -- everything rfc2459 publishes is published too
    Name ::= <type>
    Name ::= <type> VALUE <value>          -- type whose fresh instance carries a value
    name OID ::= {1 2 840}
    name INT ::= 5
    name CONST <type> ::= <value>
    REGISTRY name                          -- public registry owned by this module
    REGISTRY name = rfc5280.other          -- the same registry under another name
    REGISTER rfc5280.name { {1 2 3} => <type>, ... }
"""
import os
import re

UNIV = {
    'BOOLEAN': ('Boolean', 1), 'INTEGER': ('Integer', 2), 'BIT STRING': ('BitString', 3),
    'OCTET STRING': ('OctetString', 4), 'NULL': ('Null', 5),
    'OBJECT IDENTIFIER': ('ObjectIdentifier', 6), 'ObjectDescriptor': ('ObjectDescriptor', 7),
    'REAL': ('Real', 9), 'ENUMERATED': ('Enumerated', 10),
    'UTF8String': ('UTF8String', 12), 'SEQUENCE': ('Sequence', 16), 'SET': ('Set', 17),
    'SEQUENCE OF': ('SequenceOf', 16), 'SET OF': ('SetOf', 17),
    'NumericString': ('NumericString', 18), 'PrintableString': ('PrintableString', 19),
    'TeletexString': ('TeletexString', 20), 'T61String': ('TeletexString', 20),
    'VideotexString': ('VideotexString', 21),
    'IA5String': ('IA5String', 22), 'UTCTime': ('UTCTime', 23),
    'GeneralizedTime': ('GeneralizedTime', 24), 'GraphicString': ('GraphicString', 25),
    'VisibleString': ('VisibleString', 26), 'GeneralString': ('GeneralString', 27),
    'UniversalString': ('UniversalString', 28), 'BMPString': ('BMPString', 30),
}
KIND2TEXT = {v[0]: k for k, v in UNIV.items() if k != 'T61String'}
CONSTRUCTED = {'Sequence', 'Set', 'SequenceOf', 'SetOf'}
ENC = {'UTF8String': 'utf-8', 'NumericString': 'us-ascii', 'PrintableString': 'us-ascii',
       'TeletexString': 'iso-8859-1', 'VideotexString': 'iso-8859-1', 'IA5String': 'us-ascii',
       'GraphicString': 'iso-8859-1', 'VisibleString': 'us-ascii', 'GeneralString': 'iso-8859-1',
       'UniversalString': 'utf-32-be', 'BMPString': 'utf-16-be',
       'GeneralizedTime': 'us-ascii', 'UTCTime': 'us-ascii', 'ObjectDescriptor': 'iso-8859-1',
       'OctetString': 'iso-8859-1', 'Any': 'iso-8859-1'}
CLASSES = {'UNIVERSAL': 0, 'APPLICATION': 64, 'CONTEXT': 128, 'PRIVATE': 192}
CLASSNAME = {v: k for k, v in CLASSES.items()}

TOK = re.compile(r"""\s*(?:--[^\n]*(?:\n|$)\s*)*(?:
    (?P<assign>::=)|(?P<arrow>=>)|(?P<dots>\.\.\.)|(?P<range>\.\.)|
    '(?P<hex>[0-9A-Fa-f]*)'H|'(?P<bin>[01]*)'B|
    "(?P<str>(?:[^"\\]|\\.)*)"|
    (?P<num>-?\d+)|
    (?P<id>[A-Za-z_](?:[A-Za-z0-9_]|-(?=[A-Za-z0-9]))*(?:\.[A-Za-z_][A-Za-z0-9_]*)*)|
    (?P<p>[{}()\[\]<>,:|^=])|(?P<eof>$))""", re.X)


class ContractError(Exception):
    pass


class T(object):
    """type expression"""
    __slots__ = ('op', 'a', 'mod', 'line', 'memo', '__weakref__')

    def __init__(self, op, mod, line, **a):
        self.op, self.a, self.mod, self.line, self.memo = op, a, mod, line, None

    def __repr__(self):
        return 'T(%s,%r)' % (self.op, self.a)


class Parser(object):
    def __init__(self, text, fname):
        self.fname = fname
        self.toks = []
        pos, line = 0, 1
        while True:
            m = TOK.match(text, pos)
            if not m:
                raise ContractError('%s:%d: bad token at %r' % (fname, line, text[pos:pos + 30]))
            k = m.lastgroup
            start = m.start(k)
            line = text.count('\n', 0, start) + 1
            self.toks.append((k, m.group(k), line))
            if k == 'eof':
                break
            pos = m.end()
        self.i = 0
        self.mod = None

    def peek(self, n=0):
        return self.toks[min(self.i + n, len(self.toks) - 1)]

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def err(self, msg):
        raise ContractError('%s:%d: %s (at %r)' % (self.fname, self.peek()[2], msg, self.peek()[1]))

    def at(self, v, kind=None, n=0):
        k, x, _ = self.peek(n)
        return x == v and k in (('id', 'p', 'assign', 'arrow', 'dots', 'range') if kind is None else (kind,))

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            self.err('expected %r' % v)

    def ident(self):
        k, v, _ = self.next()
        if k == 'str':
            return v
        if k != 'id':
            self.i -= 1
            self.err('identifier expected')
        return v

    def module(self):
        self.need('MODULE')
        self.mod = self.ident()
        m = {'name': self.mod, 'extends': [], 'types': {}, 'consts': {}, 'registries': {},
             'register': [], 'presets': {}, 'order': [], 'lines': {}}
        while self.peek()[0] != 'eof':
            line = self.peek()[2]
            if self.eat('EXTENDS'):
                m['extends'].append(self.ident())
                continue
            if self.at('REGISTRY') and self.peek(1)[0] == 'id':
                self.next()
                n = self.ident()
                m['registries'][n] = self.ident() if self.eat('=') else None
                m['lines'][n] = line
                continue
            if self.at('REGISTER') and self.peek(1)[0] == 'id':
                self.next()
                n = self.ident()
                self.need('{')
                while not self.eat('}'):
                    k = self.value()
                    self.need('=>')
                    l2 = self.peek()[2]
                    m['register'].append((n, k, self.type(), l2))
                    self.eat(',')
                continue
            name = self.ident()
            if name in m['types'] or name in m['consts']:
                self.err('duplicate definition of %s' % name)
            m['lines'][name] = line
            if self.eat('::='):
                m['types'][name] = self.type()
                if self.eat('VALUE'):
                    m['presets'][name] = self.value()
            elif self.eat('OID'):
                self.need('::=')
                m['consts'][name] = ('oid', self.value(), None)
            elif self.eat('INT'):
                self.need('::=')
                m['consts'][name] = ('int', self.value(), None)
            elif self.eat('CONST'):
                t = self.type()
                self.need('::=')
                m['consts'][name] = ('obj', self.value(), t)
            else:
                self.err('definition expected')
            m['order'].append(name)
        return m

    # -- types ------------------------------------------------------------
    def type(self):
        line = self.peek()[2]

        def mk(op, **a):
            return T(op, self.mod, line, **a)
        if self.eat('['):
            cls = 128
            if self.peek()[1] in CLASSES:
                cls = CLASSES[self.next()[1]]
            num = int(self.next()[1])
            self.need(']')
            if self.eat('IMPLICIT'):
                mode = 'implicit'
            else:
                self.need('EXPLICIT')
                mode = 'explicit'
            return mk('tag', cls=cls, num=num, mode=mode, of=self.type())
        k, v, _ = self.peek()
        if k != 'id':
            self.err('type expected')
        if v in ('SEQUENCE', 'SET'):
            self.next()
            cons = []
            while self.at('('):
                cons.append(self.paren())
            if self.eat('OF'):
                t = mk('of', kind=v + ' OF', elem=self.type())
                for c in cons:
                    t = mk('con', of=t, con=c)
                return t
            t = mk('struct', kind=v, comps=self.components())
        elif v == 'CHOICE':
            self.next()
            t = mk('choice', comps=self.components())
        elif v == 'ANY':
            self.next()
            t = mk('any')
        elif v in ('BIT', 'OCTET', 'OBJECT'):
            self.next()
            w = self.next()[1]
            t = mk('prim', kind=v + ' ' + w)
            t = self.named(t, mk)
        elif v in UNIV:
            self.next()
            t = self.named(mk('prim', kind=v), mk)
        else:
            t = mk('ref', name=self.next()[1])
        while self.at('('):
            t = mk('con', of=t, con=self.paren())
        if self.eat('ENCODED'):
            t = mk('enc', of=t, enc=self.next()[1])
        return t

    def named(self, t, mk):
        if t.a['kind'] in ('INTEGER', 'ENUMERATED', 'BIT STRING', 'BOOLEAN', 'NULL') and self.at('{'):
            self.next()
            out = []
            while not self.eat('}'):
                n = self.ident()
                self.need('(')
                out.append((n, int(self.next()[1])))
                self.need(')')
                self.eat(',')
            return mk('named', of=t, named=out)
        return t

    def components(self):
        self.need('{')
        out = []
        while not self.eat('}'):
            line = self.peek()[2]
            c = {'name': self.ident(), 'line': line}
            c['type'] = self.type()
            c['mode'] = 'required'
            if self.eat('OPTIONAL'):
                c['mode'] = 'optional'
            elif self.eat('DEFAULT'):
                c['mode'] = 'default'
                c['default'] = self.value()
            elif self.eat('VALUE'):
                c['value'] = self.value()
            if self.eat('GOVERNED'):
                self.need('BY')
                g = self.ident()
                self.need('IN')
                c['open'] = (g, self.ident())
            out.append(c)
            if not self.eat(','):
                if not self.at('}'):
                    self.err('expected , or }')
        return out

    # -- constraints ---------------------------------------------------------
    def paren(self):
        self.need('(')
        c = self.union()
        self.need(')')
        return c

    def union(self):
        out = [self.inter()]
        while self.eat('|'):
            out.append(self.inter())
        return out[0] if len(out) == 1 else ['or'] + out

    def inter(self):
        out = [self.celem()]
        while self.eat('^'):
            out.append(self.celem())
        return out[0] if len(out) == 1 else ['and'] + out

    def bound(self):
        k, v, _ = self.next()
        if v in ('MIN', 'MAX'):
            return v
        if k == 'num':
            return int(v)
        if k == 'id':
            return ['constref', v]
        self.i -= 1
        self.err('bound expected')

    def celem(self):
        if self.at('('):
            return self.paren()
        if self.eat('ALL'):
            self.need('EXCEPT')
            return ['not', self.celem()]
        if self.eat('SIZE'):
            self.need('(')
            out = []
            while True:
                a = b = self.bound()
                if self.eat('..'):
                    b = self.bound()
                out.append(['size', a, b])
                if not self.eat('|'):
                    break
            self.need(')')
            return out[0] if len(out) == 1 else ['or'] + out
        if self.eat('FROM'):
            self.need('(')
            out = []
            while True:
                k, v, _ = self.next()
                if k == 'str':
                    v = unquote(v)
                    if self.eat('..'):
                        w = unquote(self.next()[1])
                        out += [chr(c) for c in range(ord(v), ord(w) + 1)]
                    else:
                        out += list(v)
                else:
                    self.err('alphabet')
                if not self.eat('|'):
                    break
            self.need(')')
            return ['alphabet'] + [{'str': c} for c in out]
        if self.eat('WITH'):
            self.need('COMPONENTS')
            self.need('{')
            out = []
            self.eat('...')
            self.eat(',')
            while not self.eat('}'):
                n = self.ident()
                if self.eat('PRESENT'):
                    out.append([n, ['present']])
                elif self.eat('ABSENT'):
                    out.append([n, ['absent']])
                else:
                    out.append([n, self.paren()])
                self.eat(',')
            return ['with'] + out
        if self.peek(1)[1] == '..' or self.at('MIN'):
            a = self.bound()
            self.need('..')
            return ['range', a, self.bound()]
        v = self.value()
        return ['single', v]

    # -- values ----------------------------------------------------------------
    def value(self):
        k, v, _ = self.next()
        if k == 'num':
            return {'int': int(v)}
        if k == 'str':
            return {'text': unquote(v)}
        if k == 'hex':
            return {'octets': v.lower()}
        if k == 'bin':
            return {'bits': v}
        if v == 'NULL':
            return {'null': True}
        if v == 'TRUE':
            return {'int': 1}
        if v == 'FALSE':
            return {'int': 0}
        if v == 'NONE':
            return None
        if v == '{':
            if self.peek()[0] == 'num':
                arcs = []
                while not self.eat('}'):
                    arcs.append(int(self.next()[1]))
                return {'oid': arcs}
            out = {}
            while not self.eat('}'):
                n = self.ident()
                self.need(':')
                out[n] = self.value()
                self.eat(',')
            return {'struct': out}
        if v == '[':
            out = []
            while not self.eat(']'):
                out.append(self.value())
                self.eat(',')
            return {'list': out}
        if v == '<':
            n = self.ident()
            self.need(':')
            x = self.value()
            self.need('>')
            return {'choice': [n, x]}
        if k == 'id':
            return {'name': v, 'mod': self.mod}
        self.i -= 1
        self.err('value expected')


def unquote(s):
    return re.sub(r'\\(x([0-9a-fA-F]{2})|.)', lambda m: chr(int(m.group(2), 16)) if m.group(2) else m.group(1), s)


class Den(object):
    """denotation of a type: what a conforming encoder/decoder must do at this node"""
    __slots__ = ('kind', 'tags', 'con', 'named', 'comps', 'elem', 'enc', 'origin', 'ident')

    def __init__(self, kind, tags, con=(), named=None, comps=None, elem=None, enc=None, origin=None):
        self.kind, self.tags, self.con, self.named = kind, tuple(tags), tuple(con), named
        self.comps, self.elem, self.enc, self.origin = comps, elem, enc, origin
        self.ident = None

    def copy(self, **kw):
        d = Den(self.kind, self.tags, self.con, self.named, self.comps, self.elem, self.enc, self.origin)
        for k, v in kw.items():
            setattr(d, k, v)
        return d


class Spec(object):
    def __init__(self, directory):
        self.mods = {}
        for f in sorted(os.listdir(directory)):
            if f.endswith('.asn1'):
                with open(os.path.join(directory, f)) as fh:
                    m = Parser(fh.read(), f).module()
                if m['name'] + '.asn1' != f:
                    raise ContractError('%s declares module %s' % (f, m['name']))
                self.mods[m['name']] = m
        self.memo = {}

    # name lookup ------------------------------------------------------------
    def find(self, mod, name, section, seen=()):
        if '.' in name:
            mod, name = name.rsplit('.', 1)
        m = self.mods.get(mod)
        if m is None:
            raise ContractError('no contract module %s' % mod)
        if name in m[section]:
            return mod, name, m[section][name]
        for e in reversed(m['extends']):
            if e in seen:
                continue
            r = self.find(e, name, section, seen + (mod,)) if e in self.mods else None
            if r:
                return r
        return None

    def published(self, mod):
        """name -> (home module, home name) of every type and constant a module publishes"""
        out = {}
        m = self.mods[mod]
        for e in m['extends']:
            out.update(self.published(e))
        for n in m['types']:
            out[n] = ('type', mod, n)
        for n in m['consts']:
            out[n] = ('const', mod, n)
        return out

    def const(self, mod, name):
        r = self.find(mod, name, 'consts')
        if r is None:
            raise ContractError('%s: unknown constant %s' % (mod, name))
        kind, v, t = r[2]
        return self.val(v, r[0])

    def val(self, v, mod):
        if isinstance(v, dict) and 'name' in v:
            return self.const(mod, v['name'])
        return v

    # denotation -------------------------------------------------------------
    def den(self, t):
        if t.memo is None:
            t.memo = self._den(t, ())
        return t.memo

    def _den(self, t, path):
        if t.memo is not None:
            return t.memo
        a = t.a
        where = '%s:%d' % (t.mod, t.line)
        if t.op == 'ref':
            r = self.find(t.mod, a['name'], 'types')
            if r is None:
                raise ContractError('%s: unknown type %s' % (where, a['name']))
            key = (r[0], r[1])
            if key in path:
                raise ContractError('%s: circular definition of %s' % (where, a['name']))
            d = self._den(r[2], path + (key,))
            t.memo = d
            if d.origin is None:
                d.origin = '%s.%s' % key
            return d
        if t.op == 'prim':
            k, n = UNIV[a['kind']]
            d = Den(k, [(0, n)], enc=ENC.get(k))
        elif t.op == 'any':
            d = Den('Any', [], enc=ENC['Any'])
        elif t.op == 'of':
            k, n = UNIV[a['kind']]
            d = Den(k, [(0, n)], elem=a['elem'])
        elif t.op == 'struct':
            k, n = UNIV[a['kind']]
            d = Den(k, [(0, n)], comps=a['comps'])
        elif t.op == 'choice':
            d = Den('Choice', [], comps=a['comps'])
        elif t.op == 'tag':
            d = self._den(a['of'], path)
            tg = (a['cls'], a['num'])
            if a['mode'] == 'explicit' or not d.tags:
                d = d.copy(tags=d.tags + (tg,), origin=None)
            else:
                d = d.copy(tags=d.tags[:-1] + (tg,), origin=None)
        elif t.op == 'con':
            d = self._den(a['of'], path)
            d = d.copy(con=d.con + (self.rescon(a['con'], t.mod, d),), origin=None)
        elif t.op == 'named':
            d = self._den(a['of'], path)
            d = d.copy(named=list(a['named']), origin=None)
        elif t.op == 'enc':
            d = self._den(a['of'], path).copy(enc=a['enc'], origin=None)
        else:
            raise ContractError(t.op)
        t.memo = d
        return d

    def rescon(self, c, mod, d):
        if c[0] in ('or', 'and', 'not'):
            return [c[0]] + [self.rescon(x, mod, d) for x in c[1:]]
        if c[0] in ('size', 'range'):
            return [c[0]] + [self.const(mod, x[1])['int'] if isinstance(x, list) else x for x in c[1:]]
        if c[0] == 'single':
            v = c[1]
            if isinstance(v, dict) and 'name' in v:
                named = dict(d.named or ())
                v = {'int': named[v['name']]} if v['name'] in named else self.val(v, mod)
            return ['single', v]
        if c[0] == 'with':
            out = ['with']
            for n, x in c[1:]:
                if x[0] in ('present', 'absent'):
                    out.append([n, x])
                else:
                    comp = [k for k in d.comps if k['name'] == n]
                    if not comp:
                        raise ContractError('%s: WITH COMPONENTS names unknown %s' % (mod, n))
                    out.append([n, self.rescon(x, mod, self.den(comp[0]['type']))])
            return out
        return c

    def resval(self, v, t, mod):
        """resolve named values inside a value of type t"""
        if v is None:
            return None
        d = self.den(t)
        if 'name' in v:
            named = dict(d.named or ())
            if v['name'] in named:
                if d.kind == 'BitString':
                    return {'bits': '0' * named[v['name']] + '1'}
                return {'int': named[v['name']]}
            return self.const(mod, v['name'])
        if 'struct' in v and d.comps is not None:
            cs = {c['name']: c for c in d.comps}
            return {'struct': {n: (self.resval(x, cs[n]['type'], mod) if n in cs else x)
                               for n, x in v['struct'].items()}}
        if 'list' in v and d.elem is not None:
            return {'list': [self.resval(x, d.elem, mod) for x in v['list']]}
        if 'choice' in v and d.comps is not None:
            cs = {c['name']: c for c in d.comps}
            n, x = v['choice']
            return {'choice': [n, self.resval(x, cs[n]['type'], mod) if n in cs else x]}
        return v

    def registry(self, name):
        """canonical registry name after alias resolution"""
        seen = set()
        while True:
            if name in seen:
                raise ContractError('registry alias cycle at ' + name)
            seen.add(name)
            mod, n = name.split('.')
            r = self.find(mod, n, 'registries')
            if r is None:
                raise ContractError('unknown registry ' + name)
            if r[2] is None:
                return '%s.%s' % (r[0], r[1])
            name = r[2] if '.' in r[2] else '%s.%s' % (r[0], r[2])

    def registries(self):
        out = {}
        for m in self.mods.values():
            for n, alias in m['registries'].items():
                out.setdefault(self.registry('%s.%s' % (m['name'], n)), []).append('%s.%s' % (m['name'], n))
        return out

    def contributions(self):
        """[(module, canonical registry, key value, type expr, line)]"""
        out = []
        for m in self.mods.values():
            for (n, k, t, line) in m['register']:
                full = n if '.' in n else '%s.%s' % (m['name'], n)
                out.append((m['name'], self.registry(full), self.val(k, m['name']), t, line))
        return out


if __name__ == '__main__':
    import sys
    s = Spec(sys.argv[1])
    n = 0
    for mn, m in s.mods.items():
        for name, t in m['types'].items():
            s.den(t)
            n += 1
    print(len(s.mods), 'modules', n, 'types', len(s.contributions()), 'registrations')
