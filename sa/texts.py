"""Abstract semantics of text: a string or text stream is the sequence of the numbers written to it (in order); the text
between numbers is abstracted away.  XML documents are trees of such texts."""
import re
from .terms import *
from .values import *
from .prog import *

NUMERAL = re.compile(r'(?<![\w.])-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?')


class Texts:
    def __init__(self, std):
        self.std = std
        self.I = std.I
        self.saved = NULL
        self.stream = None

    def numbers(self, v):
        """the numbers in v, or None"""
        if isinstance(v, N):
            if v.k == 'str':
                return slist([num(Fr(x)) for x in NUMERAL.findall(v.args[0])])
            if v.k == 'site':
                c, a, b = v.args
                a, b = self.numbers(a), self.numbers(b)
                if a is not None and b is not None:
                    return vite(c, a, b)
                return None
            if is_seq(v):
                return v
        return None

    def text(self, v, why='text'):
        n = self.numbers(v)
        return n if n is not None else unkv(why, 'std::basic_string<char>')

    def shown(self, x, e):
        """text of a number"""
        if isinstance(x, B):
            x = b2i(x)
        return slist([x]) if isinstance(x, P) else self.text(x)

    def join(self, a, b):
        a, b = self.numbers(a), self.numbers(b)
        if a is None or b is None:
            return unkv('text', 'std::basic_string<char>')
        return cat(a, b)

    # ---------------------------------------------------------------- streams
    def put(self, e):
        """stream << value"""
        I = self.I
        args = list(e['args'])
        if e.get('obj') is not None:
            p = self.std.objp(e)
        else:
            p = I.lv(args.pop(0))
        if not (isinstance(p, N) and p.k == 'ptr'):
            for a in args:
                I.ev(a)
            I.note('text written to an unknown stream')
            return p
        a = args[0]
        t = base_t(a.get('t', ''))
        if '(*)' in t or '&(' in t or '(' in t and 'basic_ostream' in t:      # manipulators
            return p
        if kind(t) in ('int', 'real', 'bool'):
            if a.get('t', '').replace('const ', '').strip() in ('char',):
                v = EMPTY
                I.ev(a)
            else:
                v = self.shown(I.ev(a), e)
        else:
            v = I.ev(a)
        I.write(p, self.join(I.read(p), v))
        if 'ofstream' in I.types.get(p.args[0], ''):
            if self.stream is None or self.stream[0] != p.args[0]:
                self.open(p)
            I.write(self.stream[1], self.join(I.read(self.stream[1]), v))
        return p

    def open(self, p):
        """the contents outlive the stream"""
        self.stream = (p.args[0], self.I.alloc(EMPTY, 'file', 'std::basic_string<char>', local=False))

    def stream_member(self, e, cls, f):
        I = self.I
        p = self.std.objp(e)
        if f == 'operator<<':
            return self.put(e)
        for a in e['args']:
            I.ev(a)
        if f == 'str' and not e['args']:
            return self.text(I.read(p))
        if f == 'open':
            if isinstance(p, N) and p.k == 'ptr':
                self.open(p)
            return VOID
        if f in ('is_open', 'good', 'operator bool'):
            return TRUE
        if f in ('operator!', 'fail', 'bad'):
            return FALSE
        if f in ('close', 'flush', 'precision', 'setf', 'width', 'fill'):
            return VOID
        return None

    # ---------------------------------------------------------------- strings
    def string_member(self, e, f):
        I = self.I
        p = self.std.objp(e)
        v = I.read(p)
        if f in ('operator+=', 'append', 'push_back'):
            a = I.ev(e['args'][0])
            for x in e['args'][1:]:
                I.ev(x)
            if isinstance(a, P):
                a = EMPTY if len(e['args']) < 2 else a
            I.write(p, self.join(v, a))
            return p
        if f == 'operator=':
            I.write(p, self.text(I.ev(e['args'][0])))
            return p
        if f in ('c_str', 'data'):
            return self.text(v)
        if f == 'clear':
            I.write(p, EMPTY)
            return VOID
        if f == 'reserve':
            return VOID
        if f in ('size', 'length'):
            return unk('length of a text', 'i')
        if f == 'empty':
            return bunk('text empty')
        return None

    def string_ctor(self, args):
        I = self.I
        args = [a for a in args if not base_t(a.get('t', '')).startswith('std::allocator')]
        if not args:
            return EMPTY
        vs = [I.ev(a) for a in args]
        if len(vs) == 1:
            return self.text(vs[0])
        if isinstance(vs[0], P) and isinstance(vs[1], P):       # filling characters
            return EMPTY
        return unkv('string', 'std::basic_string<char>')

    # ---------------------------------------------------------------- contracts of the tokeniser
    def split(self, e):
        """one token per number"""
        v = self.I.ev(e['args'][0])
        rest = [self.I.ev(a) for a in e['args'][1:]]
        if isinstance(v, N) and v.k == 'str' and rest and isinstance(rest[0], P) and const(rest[0]) is not None:
            d = chr(int(const(rest[0])))
            return slist([node('str', t) for l in v.args[0].split('\n') for t in l.split(d) if t])
        v = self.numbers(v)
        if v is None:
            return unkv('tokens', 'std::vector<std::basic_string<char>>')
        if v == EMPTY:
            return EMPTY
        k = fresh_bv()
        x = elem(v, topoly(k), self.I.facts())
        if not isinstance(x, P):
            return unkv('tokens', 'std::vector<std::basic_string<char>>')
        return comp(k, length(v), slist([x]))

    def to_number(self, e):
        v = self.numbers(self.I.ev(e['args'][0]))
        return self.first(v)

    def first(self, v):
        v = self.numbers(v)
        x = elem(v, num(0), self.I.facts()) if v is not None and v != EMPTY else None
        return x if isinstance(x, P) else unk('number in a text', 'r')

    # ---------------------------------------------------------------- XML trees: node('xml', name, parent, children, attributes, text)
    def xnode(self, name, parent):
        I = self.I
        return I.alloc(node('xml', name, parent, (), (), EMPTY), 'xml', 'pugi::xml_node', local=False)

    def document(self):
        return self.xnode('#document', NULL)

    def xget(self, p):
        if isinstance(p, N) and p.k == 'ptr':
            x = self.I.read(p)
            if isinstance(x, N) and x.k == 'xml':
                return x
        return None

    def xset(self, p, **kw):
        x = self.xget(p)
        a = list(x.args)
        for i, k in enumerate(('name', 'parent', 'children', 'attributes', 'text')):
            if k in kw:
                a[i] = kw[k]
        self.I.write(p, node('xml', *a))

    def xml(self, e, cls, f):
        I = self.I
        o = e['obj']
        if e.get('arrow'):
            here = I.ev(o)
            here = I.read(I.as_ptr(here)) if not isinstance(here, N) or here.k != 'xattr' else here
        else:
            here = I.ev(o)
        args = [I.ev(a) for a in e['args']]
        if f == 'load_file':
            I.write(I.lv(o), self.saved)
            return TRUE
        if f == 'save_file':
            self.saved = here
            return TRUE
        if f in ('operator bool', 'operator!') and isinstance(here, B):
            return here if f == 'operator bool' else not_(here)
        if f.startswith('operator ') and isinstance(here, B):
            return here
        if isinstance(here, N) and here.k == 'xattr':
            p, an = here.args
            x = self.xget(p)
            if x is None:
                return None
            d = dict(x.args[3])
            if f in ('operator=', 'set_value'):
                d[an] = self.shown(args[0], e)
                self.xset(p, attributes=tuple(d.items()))
                return here if f == 'operator=' else TRUE
            v = d.get(an, EMPTY)
            if f in ('value', 'as_string'):
                return v
            if f in ('as_int', 'as_double', 'as_uint', 'as_float'):
                return self.first(v)
            return None
        if f in ('append_child', 'append_attribute', 'text', 'operator=', 'set_value', 'set') and here is not NULL:
            return self.xml_write(e, cls, f, o, here, args)
        return self.xml_read(f, here, args)

    def xml_write(self, e, cls, f, o, here, args):
        I = self.I
        x = self.xget(here)
        if x is None:
            return None
        name, parent, children, attributes, text = x.args
        if f == 'append_child':
            an = args[0].args[0] if args and isinstance(args[0], N) and args[0].k == 'str' else '#text'
            c = self.xnode(an, here)
            self.xset(here, children=children + (c,))
            return c
        if f == 'append_attribute':
            if not (isinstance(args[0], N) and args[0].k == 'str'):
                return None
            self.xset(here, attributes=attributes + ((args[0].args[0], EMPTY),))
            return node('xattr', here, args[0].args[0])
        if f == 'text':
            if name == '#text':
                return here
            for c in children:
                if self.xname(c) == '#text':
                    return c
            c = self.xnode('#text', here)
            self.xset(here, children=children + (c,))
            return c
        if f in ('operator=', 'set_value', 'set'):
            if f == 'operator=' and cls == 'pugi::xml_node':
                I.write(I.lv(o), args[0])
                return args[0]
            self.xset(here, text=self.shown(args[0], e))
            return here if f == 'operator=' else TRUE
        return None

    def xname(self, p):
        x = self.I.read(p) if isinstance(p, N) and p.k == 'ptr' else None
        while isinstance(x, N) and x.k == 'site':
            x = x.args[1]
        return x.args[0] if isinstance(x, N) and x.k == 'xml' else None

    def xml_read(self, f, here, args, x=None):
        if isinstance(here, N) and here.k == 'site':
            a, b = (self.xml_read(f, y, args) for y in here.args[1:])
            return None if a is None or b is None else vite(here.args[0], a, b)
        if here is NULL:
            if f == 'empty':
                return TRUE
            if f in ('child', 'first_child', 'next_sibling', 'parent', 'text'):
                return NULL
            if f in ('value', 'child_value', 'get', 'as_string'):
                return EMPTY
            if f == 'operator!':
                return TRUE
            if f.startswith('operator'):
                return FALSE
            return None
        if x is None and isinstance(here, N) and here.k == 'ptr':
            x = self.I.read(here)
        if isinstance(x, N) and x.k == 'site':
            a, b = (self.xml_read(f, here, args, y) for y in x.args[1:])
            return None if a is None or b is None else vite(x.args[0], a, b)
        if not (isinstance(x, N) and x.k == 'xml'):
            return None
        name, parent, children, attributes, text = x.args
        if f == 'attribute':
            return node('xattr', here, args[0].args[0]) if isinstance(args[0], N) and args[0].k == 'str' else None
        if f in ('name',):
            return node('str', name)
        if f in ('value', 'get', 'as_string'):
            return text
        if f == 'child_value':
            for c in children:
                if self.xname(c) == '#text':
                    return self.xml_read('value', c, [])
            return EMPTY
        if f == 'first_child':
            return children[0] if children else NULL
        if f == 'last_child':
            return children[-1] if children else NULL
        if f == 'child':
            if not (isinstance(args[0], N) and args[0].k == 'str'):
                return None
            for c in children:
                if self.xname(c) == args[0].args[0]:
                    return c
            return NULL
        if f == 'next_sibling':
            pa = self.xget(parent)
            if pa is None:
                return NULL if parent is NULL else None
            cs = pa.args[2]
            i = cs.index(here)
            want = args[0].args[0] if args and isinstance(args[0], N) and args[0].k == 'str' else None
            for c in cs[i + 1:]:
                if want is None or self.xname(c) == want:
                    return c
            return NULL
        if f == 'parent':
            return parent
        if f == 'empty':
            return FALSE
        if f == 'operator!':
            return FALSE
        if f.startswith('operator'):
            return TRUE
        return None
