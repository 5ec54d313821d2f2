"""Reads the data declarations of generated C and C++ files: enough of the
language for constant tables, independent of their layout."""
import re


class CError(Exception):
    pass


TOKEN = re.compile(r'''
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<pp>\#(?:[^\n\\"]|\\.|"(?:[^"\\\n]|\\.)*")*)
  | (?P<str>"(?:[^"\\\n]|\\.)*")
  | (?P<chr>'(?:[^'\\\n]|\\.)*')
  | (?P<num>0[xX][0-9a-fA-F]+[uUlL]*|\d+[uUlL]*)
  | (?P<id>[A-Za-z_]\w*(?:::[A-Za-z_]\w*)*)
  | (?P<op>[-+{}\[\](),;=&*<>.:?!|])
''', re.X | re.S)


def strip_comments(line):
    return re.sub(r'//[^\n]*|/\*.*?\*/', ' ', line)


def tokens(text):
    pos = 0
    out, defines = [], []
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise CError(f'cannot read {text[pos:pos + 60]!r}')
        pos = m.end()
        kind = m.lastgroup
        if kind == 'ws':
            continue
        if kind == 'pp':
            d = re.match(r'#\s*define\s+(\w+)[ \t]*(.*)',
                         strip_comments(m.group()), re.S)
            if d:
                defines.append((d.group(1), d.group(2).strip()))
            continue
        out.append((kind, m.group()))
    return out, defines


SIMPLE = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', '"': '"', "'": "'",
          'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v', '?': '?'}


def string(literal):
    """Bytes (as a latin-1 str) of one C string literal."""
    s = literal[1:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] != '\\':
            out.append(s[i])
            i += 1
            continue
        c = s[i + 1]
        if c == 'x':
            m = re.match(r'[0-9a-fA-F]+', s[i + 2:])    # greedy, as in C
            if not m:
                raise CError(f'bad escape in {literal}')
            v = int(m.group(), 16)
            if v > 255:
                raise CError(f'hex escape out of range in {literal}')
            out.append(chr(v))
            i += 2 + m.end()
        elif c in '01234567':
            m = re.match(r'[0-7]{1,3}', s[i + 1:])
            v = int(m.group(), 8)
            if v > 255:
                raise CError(f'octal escape out of range in {literal}')
            out.append(chr(v))
            i += 1 + m.end()
        elif c in SIMPLE:
            out.append(SIMPLE[c])
            i += 2
        else:
            raise CError(f'bad escape in {literal}')
    return ''.join(out)


class Ref(str):
    """A reference to another symbol."""
    __slots__ = ()


class Unit:
    """Symbols of a set of files."""

    def __init__(self):
        self.data = {}          # name -> value
        self.types = {}         # name -> type text
        self.dims = {}          # name -> declared array size or None
        self.externs = {}       # name -> declared array size or None
        self.defines = {}       # name -> text
        self.order = []

    def value(self, name):
        if name in self.data:
            return self.data[name]
        if name in self.defines:
            return int(self.defines[name], 0)
        raise CError(f'{name} is not defined')


class _Reader:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('eof', '')

    def next(self):
        tok = self.peek()
        self.i += 1
        return tok

    def init(self):
        """An initializer."""
        k, v = self.peek()
        if v == '{':
            self.next()
            out = []
            while True:
                if self.peek()[1] == '}':
                    self.next()
                    return out
                out.append(self.init())
                k, v = self.peek()
                if v == ',':
                    self.next()
                elif v != '}':
                    raise CError(f'expected , or }} before {v!r}')
        return self.expr()

    def expr(self):
        k, v = self.next()
        if k == 'str':
            s = string(v)
            while self.peek()[0] == 'str':
                s += string(self.next()[1])
            return s
        if k == 'num':
            n = int(v.rstrip('uUlL'), 0)
            return n
        if v == '-':
            n = self.expr()
            if not isinstance(n, int):
                raise CError('bad expression')
            return -n
        if v == '&':
            k, v = self.next()
            if k != 'id':
                raise CError('bad reference')
            return Ref(v)
        if v == '(':                    # a cast
            depth = 1
            while depth:
                x = self.next()[1]
                depth += (x == '(') - (x == ')')
                if x == '':
                    raise CError('unbalanced (')
            return self.expr()
        if k == 'id':
            if v in ('nullptr', 'NULL'):
                return None
            return Ref(v)
        raise CError(f'unexpected {v!r}')


def parse(texts, macros=('ACE_TIME_PROGMEM',)):
    u = Unit()
    for text in texts:
        toks, defines = tokens(text)
        for n, v in defines:
            if n in u.defines and u.defines[n] != v:
                raise CError(f'{n} is defined twice')
            u.defines[n] = v
        toks = [t for t in toks if t[1] not in macros]
        r = _Reader(toks)
        while r.i < len(toks):
            k, v = r.peek()
            if v == 'namespace':
                r.next()
                while r.peek()[1] != '{':
                    r.next()
                r.next()
                continue
            if v == 'extern' and toks[r.i + 1][0] == 'str':
                r.i += 3
                continue
            if v in ('}', ';'):
                r.next()
                continue
            head = []
            dims = []
            while True:
                k, v = r.next()
                if k == 'eof':
                    raise CError('unfinished declaration')
                if v == '[':
                    k, v = r.next()
                    if v == ']':
                        dims.append(None)
                    else:
                        dims.append(int(v, 0))
                        if r.next()[1] != ']':
                            raise CError('bad array size')
                    continue
                if v in ('=', ';'):
                    break
                head.append((k, v))
            names = [x for kk, x in head if kk == 'id']
            name = names[-1] if names else None
            if v == ';':
                if names and names[0] == 'extern':
                    u.externs[name] = dims[0] if dims else None
                continue
            if name in u.data:
                raise CError(f'{name} is defined twice')
            u.data[name] = r.init()
            if r.next()[1] != ';':
                raise CError(f'bad initializer of {name}')
            u.types[name] = ' '.join(x for _, x in head[:-1])
            u.dims[name] = dims[0] if dims else None
            u.order.append(name)
    return u
