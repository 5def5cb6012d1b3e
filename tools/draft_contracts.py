"""Print a first draft of the contracts from what the code does today.  Used once, to get
the text that was then audited against the specifications; no check runs it.

usage: /opt/venv/bin/python -B tools/draft_contracts.py REPO OUTDIR [module...]
"""
import ast, importlib, json, os, pkgutil, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
import extract
import asn1
from extract import ctree, kind_of
from pyasn1.type import base, univ, char, useful, tag

repo, outdir = sys.argv[1:3]
sys.path.insert(0, repo)
import pyasn1_modules
names = sorted(m.name for m in pkgutil.iter_modules(pyasn1_modules.__path__))
mods = {n: importlib.import_module('pyasn1_modules.' + n) for n in names}
eff = {}
from concurrent.futures import ThreadPoolExecutor
def run(n):
    return n, json.loads(subprocess.check_output([sys.executable, '-B', os.path.join(HERE, '..', 'engine', 'effects.py'), repo, n]))
with ThreadPoolExecutor(8) as ex:
    for n, r in ex.map(run, names):
        eff[n] = r

fp_graph = extract.Graph()
dictname = {}
for n, m in mods.items():
    for a, v in vars(m).items():
        if isinstance(v, dict) and not a.startswith('_'):
            dictname.setdefault(id(v), []).append((n, a))

def stars(n):
    t = ast.parse(open(os.path.join(repo, 'pyasn1_modules', n + '.py')).read())
    out = []
    for x in ast.walk(t):
        if isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names):
            if x.module.startswith('pyasn1_modules.'):
                out.append(x.module.split('.')[1])
    return out

def owner_of_map(did):
    c = dictname[did]
    # owner: module not star-importing / whose source assigns a dict display
    best = []
    for n, a in c:
        src = open(os.path.join(repo, 'pyasn1_modules', n + '.py')).read()
        if re.search(r'^%s = (\{|dict\()' % re.escape(a), src, re.M):
            best.append((n, a))
    return (best or c)[0]

def q(n):
    if re.match(r'^[A-Za-z_](?:[A-Za-z0-9_]|-(?=[A-Za-z0-9]))*$', n):
        return n
    return '"%s"' % n

def s2(x):
    out = ''
    for ch in x:
        if ch in '"\\':
            out += '\\' + ch
        elif ord(ch) < 32 or ord(ch) > 126:
            out += '\\x%02x' % ord(ch)
        else:
            out += ch
    return '"%s"' % out

def valtext(v, obj=None):
    if v is None:
        return 'NONE'
    k, x = next(iter(v.items()))
    if k == 'int':
        if obj is not None and kind_of(obj) == 'Boolean':
            return 'TRUE' if x else 'FALSE'
        nv = getattr(obj, 'namedValues', None)
        if nv:
            for nm, y in nv.items():
                if int(y) == x and re.match(r'^[A-Za-z]', nm):
                    return nm
        return str(x)
    if k == 'oid':
        return '{%s}' % ' '.join(map(str, x))
    if k == 'text':
        return s2(x)
    if k == 'octets':
        return "'%s'H" % x
    if k == 'bits':
        return "'%s'B" % x
    if k == 'null':
        return 'NULL'
    if k == 'struct':
        cs = {nt.name: nt.asn1Object for nt in obj.componentType.namedTypes} if obj is not None else {}
        return '{ %s }' % ', '.join('%s: %s' % (q(n), valtext(y, cs.get(n))) for n, y in x.items())
    if k == 'list':
        return '[%s]' % ', '.join(valtext(y, obj.componentType if obj is not None else None) for y in x)
    if k == 'choice':
        return '<%s: %s>' % (q(x[0]), valtext(x[1], obj.componentType[x[0]].asn1Object if obj is not None else None))
    return 'UNKNOWN-%r' % v

def num(x):
    return str(x)

def context(c):
    k = c[0]
    if k == 'and':
        return ' ^ '.join(wrap(x) for x in c[1:])
    if k == 'or':
        return ' | '.join(wrap(x) for x in c[1:])
    if k == 'not':
        return ' ^ '.join('ALL EXCEPT ' + wrap(x) for x in c[1:])
    if k == 'size':
        return 'SIZE (%s)' % (num(c[1]) if c[1] == c[2] else '%s..%s' % (num(c[1]), num(c[2])))
    if k == 'range':
        return '%s..%s' % (num(c[1]), num(c[2]))
    if k == 'alphabet':
        chars = [x['str'] if isinstance(x, dict) and 'str' in x else str(x) for x in c[1:]]
        return 'FROM (%s)' % s2(''.join(chars))
    if k == 'single':
        return ' | '.join(str(x) if isinstance(x, int) else s2(x['str']) if 'str' in x else valtext(x) if 'oid' in x else "'%s'H" % x['bytes'] if 'bytes' in x else 'UNK-%r' % (x,) for x in c[1:])
    if k == 'with':
        return 'WITH COMPONENTS { ..., %s }' % ', '.join('%s %s' % (q(f), 'PRESENT' if x == ['present'] else 'ABSENT' if x == ['absent'] else '(%s)' % context(x)) for f, x in c[1:])
    return 'UNK-%r' % c

def wrap(c):
    if c[0] in ('and', 'or') and len(c) > 2 or c[0] == 'single' and len(c) > 2:
        return '(%s)' % context(c)
    return context(c)

def clist(c):
    """intersection list"""
    if c[0] == 'and':
        out = []
        for x in c[1:]:
            out += clist(x)
        return out
    return [c]

def cons(obj):
    out = clist(ctree(obj.subtypeSpec)) if obj.subtypeSpec else []
    k = kind_of(obj)
    # implied by the type itself
    return [c for c in out if not (k == 'Choice' and c == ['size', 1, 1] or k == 'Boolean' and c == ['single', 0, 1])]

def tags(obj):
    return [(t.tagClass, t.tagId) for t in obj.tagSet.superTags]

def tagtext(t, mode):
    c = asn1.CLASSNAME[t[0]]
    return '[%s%d] %s ' % ('' if c == 'CONTEXT' else c + ' ', t[1], mode)

class Mod(object):
    def __init__(self, n):
        self.n, self.m = n, mods[n]

    def refname(self, cls):
        mod = cls.__module__
        if not mod.startswith('pyasn1_modules.'):
            return None
        mod = mod[len('pyasn1_modules.'):]
        a = cls.__name__
        if a.startswith('_') or getattr(mods[mod], a, None) is not cls:
            return None
        return a if mod == self.n else '%s.%s' % (mod, a)

    def delta(self, obj, base_inst, name, ind):
        """text of obj as name + delta, or None"""
        if name is None:
            return None
        to, tb = tags(obj), tags(base_inst)
        pre = ''
        if to == tb:
            pass
        elif to[:-1] == tb:
            pre = tagtext(to[-1], 'EXPLICIT')
        elif len(to) == len(tb) and to[:-1] == tb[:-1]:
            pre = tagtext(to[-1], 'IMPLICIT')
        else:
            return None
        co, cb = cons(obj), cons(base_inst)
        if co[:len(cb)] != cb:
            return None
        no = dict(getattr(obj, 'namedValues', None) or {})
        nb = dict(getattr(base_inst, 'namedValues', None) or {})
        if no != nb:
            return None
        if getattr(obj, 'encoding', None) != getattr(base_inst, 'encoding', None):
            return None
        if isinstance(obj, base.ConstructedAsn1Type):
            a, b = obj.componentType, base_inst.componentType
            if isinstance(obj, univ.SequenceOfAndSetOfBase):
                if a is not b and not (type(a) is type(b) and self.typetext(a, '') == self.typetext(b, '')):
                    return None
            elif a is not b:
                if len(a) != len(b) or any(x is not y for x, y in zip(a.namedTypes, b.namedTypes)):
                    if [self.comptext(x, '') for x in a.namedTypes] != [self.comptext(x, '') for x in b.namedTypes]:
                        return None
        extra = co[len(cb):]
        return pre + name + ''.join(' (%s)' % context(c) for c in extra)

    def typetext(self, obj, ind, own=None):
        """own: the class being defined (so it is not printed as itself)"""
        cls = type(obj)
        if own is not None:
            for b in cls.__mro__[1:]:
                if b.__module__.startswith('pyasn1_modules.'):
                    t = self.delta(obj, b(), self.refname(b), ind)
                    if t is not None:
                        return t
                    break
        else:
            for b in cls.__mro__:
                if b.__module__.startswith('pyasn1_modules.'):
                    t = self.delta(obj, b(), self.refname(b), ind)
                    if t is not None:
                        return t
        k = kind_of(obj)
        std = [(0, asn1.UNIV[asn1.KIND2TEXT[k]][1])] if k in asn1.KIND2TEXT else []
        to = tags(obj)
        pre = ''
        rest = list(to)
        if rest[:len(std)] == std:
            rest = rest[len(std):]
            for t in reversed(rest):
                pre += tagtext(t, 'EXPLICIT')
        else:
            for t in reversed(rest[1:]):
                pre += tagtext(t, 'EXPLICIT')
            pre += tagtext(rest[0], 'IMPLICIT')
        cs = ''.join(' (%s)' % context(c) for c in cons(obj))
        if isinstance(obj, univ.SequenceOfAndSetOfBase):
            if obj.componentType is None:
                return pre + 'UNDEFINED-' + k
            return '%s%s%s OF %s' % (pre, asn1.KIND2TEXT[k][:-3], cs, self.typetext(obj.componentType, ind))
        if k in ('Sequence', 'Set', 'Choice'):
            word = {'Sequence': 'SEQUENCE', 'Set': 'SET', 'Choice': 'CHOICE'}[k]
            lines = []
            for nt in (obj.componentType.namedTypes if len(obj.componentType) else ()):
                lines.append(ind + '  ' + self.comptext(nt, ind + '  '))
            body = '{\n%s\n%s}' % (',\n'.join(lines), ind) if lines else '{ }'
            return pre + word + ' ' + body + cs
        if k == 'Any':
            return pre + 'ANY' + cs
        nv = getattr(obj, 'namedValues', None)
        nt = ''
        if nv and k in ('Integer', 'Enumerated', 'BitString'):
            items = sorted(nv.items(), key=lambda x: int(x[1]))
            body = ', '.join('%s(%s)' % (q(str(a)), int(b)) for a, b in items)
            if len(body) > 70:
                body = ('\n' + ind + '  ') + (',\n' + ind + '  ').join('%s(%s)' % (q(str(a)), int(b)) for a, b in items) + '\n' + ind
            nt = ' {' + body + '}'
        e = ''
        enc = getattr(obj, 'encoding', None)
        if k in asn1.ENC and enc != asn1.ENC[k]:
            e = ' ENCODED "%s"' % enc
        return pre + asn1.KIND2TEXT[k] + nt + cs + e

    def comptext(self, nt, ind):
        o = nt.asn1Object
        t = '%s %s' % (q(nt.name), self.typetext(o, ind))
        if nt.isDefaulted:
            v = fp_graph.value(o)
            t += ' DEFAULT ' + valtext(v, o)
        else:
            if nt.isOptional:
                t += ' OPTIONAL'
            v = fp_graph.value(o)
            if v is not None and kind_of(o) != 'Null':
                t += ' VALUE ' + valtext(v, o)
        if nt.openType is not None:
            d = nt.openType._OpenType__typeMap
            if id(d) in dictname:
                t += ' GOVERNED BY %s IN %s' % (q(nt.openType.name), '.'.join(owner_of_map(id(d))))
            else:
                t += ' GOVERNED BY %s IN ANONYMOUS' % q(nt.openType.name)
        return t

    def text(self):
        out = ['MODULE ' + self.n]
        st = stars(self.n)
        for s in st:
            out.append('EXTENDS ' + s)
        out.append('')
        src = open(os.path.join(repo, 'pyasn1_modules', self.n + '.py')).read()
        for a, v in vars(self.m).items():
            if a.startswith('_'):
                continue
            if any(getattr(mods[s], a, None) is v for s in st):
                continue
            if isinstance(v, type) and issubclass(v, base.Asn1Item):
                if v.__module__.startswith('pyasn1.'):
                    if not re.search(r'^%s = ' % re.escape(a), src, re.M):
                        continue
                    out.append('%s ::= %s' % (a, self.typetext(v(), '')))
                    continue
                if v.__module__ == 'pyasn1_modules.' + self.n and v.__name__ == a:
                    inst = v()
                    t = '%s ::= %s' % (a, self.typetext(inst, '', own=v))
                    val = fp_graph.value(inst)
                    if val is not None and kind_of(inst) != 'Null':
                        t += ' VALUE ' + valtext(val, inst)
                    out.append(t)
                else:
                    nm = self.refname(v)
                    out.append('%s ::= %s' % (a, nm or self.typetext(v(), '')))
            elif isinstance(v, univ.ObjectIdentifier):
                out.append('%s OID ::= %s' % (a, valtext(fp_graph.value(v))))
            elif isinstance(v, univ.Integer) and type(v) is univ.Integer and not v.namedValues and tags(v) == [(0, 2)]:
                out.append('%s INT ::= %d' % (a, int(v)))
            elif isinstance(v, base.Asn1Item):
                out.append('%s CONST %s ::= %s' % (a, self.typetext(v, ''), valtext(fp_graph.value(v), v)))
            elif isinstance(v, bool) or isinstance(v, int):
                out.append('%s INT ::= %d' % (a, v))
            elif isinstance(v, float):
                pass
            elif isinstance(v, dict):
                n, b = owner_of_map(id(v))
                if (n, b) == (self.n, a):
                    out.append('REGISTRY %s' % a)
                    out.append('REGISTER %s {' % a)
                    # own initial content only: entries written by nobody else
                    for k, x in eff[self.n]['own'].get(a, []):
                        out.append(self.reg(v, k, None))
                    out.append('}')
                else:
                    out.append('REGISTRY %s = %s.%s' % (a, n, b))
        per = {}
        for name, op, k, x in eff[self.n]['writes']:
            per.setdefault(name, []).append(k)
        for name, ks in per.items():
            n, a = name.split('.')
            d = getattr(mods[n], a)
            on, oa = owner_of_map(id(d))
            out.append('')
            out.append('REGISTER %s.%s {' % (on, oa))
            for k in ks:
                out.append(self.reg(d, k, name))
            out.append('}')
        return '\n'.join(out) + '\n'

    def reg(self, d, k, name):
        # the object this module itself writes: re-read from module source variables
        mine = None
        for a, v in vars(self.m).items():
            if isinstance(v, dict) and v is not d:
                for kk, x in v.items():
                    if isinstance(kk, base.Asn1Item) and fp_graph.value(kk) == k:
                        mine = x
        x = mine
        if x is None:
            for kk, y in d.items():
                if (fp_graph.value(kk) if isinstance(kk, base.Asn1Item) else extract.num(kk)) == k:
                    x = y
        kt = valtext(k) if isinstance(k, dict) and 'str' not in k else (s2(k['str']) if isinstance(k, dict) else str(k))
        # symbolic name comment
        nm = ''
        for a, v in vars(self.m).items():
            if isinstance(v, univ.ObjectIdentifier) and fp_graph.value(v) == k:
                nm = a
                break
        if nm:
            kt = nm
        if isinstance(x, type):
            x = x()
        return '  %s => %s,' % (kt, self.typetext(x, '  '))

os.makedirs(outdir, exist_ok=True)
for n in (sys.argv[3:] or names):
    with open(os.path.join(outdir, n + '.asn1'), 'w') as f:
        f.write(Mod(n).text())
