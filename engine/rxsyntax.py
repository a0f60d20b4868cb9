"""The syntax of the regex crate: a parser to trees, and what the trees match.

Characters are strings of length one, or any other hashable object (a hole: an
expression not known here, which must be the whole content of a group).

Trees: ('e',) empty, ('c', chars predicate), ('cat', [..]), ('alt', [..]), ('rep', t, lo, hi), ('^',), ('$',), ('b',), ('B',), ('hole', h),
('flags', f, t).
"""
import unicodedata


class Bad(Exception):
    """not a valid regular expression"""


class Unknown(Exception):
    """syntax outside the modelled subset"""


PUNCT = set('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')
POSIX = {
    'punct': lambda c: c in PUNCT, 'alpha': lambda c: c.isascii() and c.isalpha(), 'digit': lambda c: '0' <= c <= '9',
    'alnum': lambda c: c.isascii() and c.isalnum(), 'upper': lambda c: 'A' <= c <= 'Z', 'lower': lambda c: 'a' <= c <= 'z',
    'space': lambda c: c in ' \t\n\r\x0b\x0c', 'blank': lambda c: c in ' \t', 'cntrl': lambda c: ord(c) < 32 or ord(c) == 127,
    'graph': lambda c: '!' <= c <= '~', 'print': lambda c: ' ' <= c <= '~', 'xdigit': lambda c: c in '0123456789abcdefABCDEF',
    'word': lambda c: c.isascii() and (c.isalnum() or c == '_'), 'ascii': lambda c: ord(c) < 128,
}


def isword(c):
    return c == '_' or unicodedata.category(c)[0] in 'LM' or unicodedata.category(c) in ('Nd', 'Pc') or c in '\u200c\u200d'


PERL = {'d': lambda c: unicodedata.category(c) == 'Nd', 's': lambda c: c.isspace() and c not in '\x1c\x1d\x1e\x1f', 'w': isword}
ESC = {'n': '\n', 't': '\t', 'r': '\r', 'f': '\x0c', 'v': '\x0b', 'a': '\x07'}
META = set('\\.+*?()|[]{}^$#&-~')


class P:
    def __init__(self, s):
        self.s, self.i = s, 0
        self.ci = self.dot = self.multi = self.x = self.swap = False

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def eat(self, c):
        if self.peek() == c:
            self.i += 1
            return True
        return False

    def starts(self, w):
        return all(self.i + k < len(self.s) and self.s[self.i + k] == c for k, c in enumerate(w))

    def parse(self):
        t = self.alt(0)
        if self.i < len(self.s):
            raise Bad('unopened group')
        return t

    def alt(self, depth):
        saved = (self.ci, self.dot, self.multi, self.x, self.swap)
        out = [self.seq(depth)]
        while self.eat('|'):
            out.append(self.seq(depth))
        self.ci, self.dot, self.multi, self.x, self.swap = saved
        return out[0] if len(out) == 1 else ('alt', out)

    def seq(self, depth):
        out = []
        start = self.i
        while True:
            c = self.peek()
            if c is None or c == '|' or c == ')':
                if c == ')' and depth == 0:
                    raise Bad('unopened group')
                break
            if self.x and isinstance(c, str) and (c.isspace() or c == '#'):
                if c == '#':
                    while self.peek() is not None and self.peek() != '\n':
                        if not isinstance(self.peek(), str):
                            raise Bad('a part inside a comment')
                        self.i += 1
                else:
                    self.i += 1
                continue
            if c in ('*', '+', '?', '{'):
                raise Bad('repetition operator missing expression')
            a = self.atom(depth)
            while True:
                q = self.quant()
                if q is None:
                    break
                if a is None or a[0] == 'flags':
                    raise Bad('repetition operator missing expression')
                if a[0] == 'hole':
                    raise Bad('a part repeated without a group of its own')
                a = ('rep', a, q[0], q[1])
            if a is not None:
                out.append(a)
        hs = [a for a in out if a[0] == 'hole']
        end = self.peek()
        whole = len(out) == 1 and (start == 0 and end is None or start > 0 and depth > 0 and end == ')' and self.groupstart == start)
        if hs and not whole:
            raise Bad('a part without a group of its own')
        if not out:
            return ('e',)
        return out[0] if len(out) == 1 else ('cat', out)

    groupstart = -1

    def quant(self):
        c = self.peek()
        if c == '*':
            r = (0, None)
        elif c == '+':
            r = (1, None)
        elif c == '?':
            r = (0, 1)
        elif c == '{':
            j = self.i + 1
            w = ''
            while j < len(self.s) and self.s[j] != '}':
                w += str(self.s[j])
                j += 1
            if j == len(self.s):
                raise Bad('unclosed counted repetition')
            p = w.replace(' ', '').split(',')
            if not all(x.isdigit() or x == '' for x in p) or len(p) > 2 or p == ['']:
                raise Bad('invalid counted repetition')
            lo = int(p[0]) if p[0] else 0
            hi = lo if len(p) == 1 else int(p[1]) if p[1] else None
            if hi is not None and hi < lo:
                raise Bad('invalid range of a counted repetition')
            self.i = j
            r = (lo, hi)
        else:
            return None
        self.i += 1
        self.eat('?')
        return r

    def flags(self):
        on = True
        n = 0
        while True:
            c = self.peek()
            if c is None:
                raise Bad('unclosed flags')
            if c in ('|', ')', ':') or not isinstance(c, str):
                return
            self.i += 1
            if c == '-':
                on = False
            elif c == 'i':
                self.ci = on
            elif c == 's':
                self.dot = on
            elif c == 'm':
                self.multi = on
            elif c == 'x':
                self.x = on
            elif c == 'U':
                self.swap = on
            elif c in 'uR':
                if c == 'u' and not on or c == 'R' and on:
                    raise Unknown('flag ' + c)
            else:
                raise Bad(f'unrecognised flag {c}')

    def atom(self, depth):
        c = self.peek()
        if not isinstance(c, str):
            self.i += 1
            if self.ci or self.dot or self.multi or self.x or self.swap:
                raise Bad('a part under flags of its surroundings')
            return ('hole', c)
        self.i += 1
        if c == '(':
            saved = (self.ci, self.dot, self.multi, self.x, self.swap)
            if self.eat('?'):
                if self.starts('P<') or self.starts('<'):
                    self.i += 2 if self.starts('P<') else 1
                    if self.peek() in ('=', '!'):
                        raise Bad('look-around is not supported')
                    n = ''
                    while self.peek() is not None and self.peek() != '>':
                        n += str(self.peek())
                        self.i += 1
                    if not self.eat('>') or not n:
                        raise Bad('invalid capture group name')
                elif self.peek() in ('=', '!'):
                    raise Bad('look-around is not supported')
                else:
                    self.flags()
                    if self.eat(')'):
                        return None
                    if not self.eat(':'):
                        raise Bad('invalid flags')
            now = (self.ci, self.dot, self.multi, self.x, self.swap)
            g = self.groupstart
            self.groupstart = self.i
            t = self.alt2(depth + 1)
            self.groupstart = g
            self.ci, self.dot, self.multi, self.x, self.swap = saved
            if not self.eat(')'):
                raise Bad('unclosed group')
            return ('group', t)
        if c == '[':
            return ('c', self.cls())
        if c == '.':
            return ('c', (lambda x: True) if self.dot else (lambda x: x != '\n'))
        if c == '^':
            return ('^',) if not self.multi else ('m^',)
        if c == '$':
            return ('$',) if not self.multi else ('m$',)
        if c == '\\':
            return self.escape()
        return self.lit(c)

    def alt2(self, depth):
        out = [self.seq(depth)]
        while self.eat('|'):
            self.groupstart = self.i
            out.append(self.seq(depth))
        return out[0] if len(out) == 1 else ('alt', out)

    def lit(self, c):
        if self.ci and c.lower() != c.upper():
            s = {c, c.lower(), c.upper()}
            return ('c', lambda x: x in s)
        return ('c', lambda x: x == c)

    def escape(self):
        c = self.peek()
        if c is None:
            raise Bad('incomplete escape')
        if c in ('A', 'z', 'b', 'B'):
            if c == 'b' and self.starts('b{'):
                raise Unknown('\\b{')
            self.i += 1
            return {'A': ('^',), 'z': ('$',), 'b': ('b',), 'B': ('B',)}[c]
        f = self.escset()
        if f is not None:
            return ('c', f)
        x = self.escchar()
        return self.lit(x)

    def escset(self):
        c = self.peek()
        if isinstance(c, str) and c in 'dswDSW':
            self.i += 1
            f = PERL[c.lower()]
            return f if c.islower() else (lambda x: not f(x))
        if c in ('p', 'P'):
            raise Unknown('\\p')
        return None

    def escchar(self):
        c = self.peek()
        if c is None or not isinstance(c, str):
            raise Bad('incomplete escape')
        self.i += 1
        if c in ESC:
            return ESC[c]
        if c in 'xuU':
            if self.eat('{'):
                w = ''
                while self.peek() is not None and self.peek() != '}':
                    w += str(self.peek())
                    self.i += 1
                if not self.eat('}'):
                    raise Bad('unclosed escape')
            else:
                n = {'x': 2, 'u': 4, 'U': 8}[c]
                w = ''.join(str(x) for x in self.s[self.i:self.i + n])
                if len(w) != n:
                    raise Bad('incomplete escape')
                self.i += n
            try:
                return chr(int(w, 16))
            except ValueError:
                raise Bad('invalid escape')
        if c in META or not c.isalnum() and c.isascii() and c not in '<>':
            return c
        if c in '<>':
            raise Unknown('\\' + c)
        raise Bad(f'unrecognised escape \\{c}')

    def cls(self):
        neg = self.eat('^')
        items = []
        first = True
        while True:
            c = self.peek()
            if c is None:
                raise Bad('unclosed character class')
            if not isinstance(c, str):
                raise Bad('a part inside a character class')
            if c == ']' and not first:
                self.i += 1
                break
            if first and c == '-':
                while self.eat('-'):
                    items.append(lambda x: x == '-')
                first = False
                continue
            first = False
            if c == '[':
                if self.starts('[:'):
                    j = self.i + 2
                    w = ''
                    while j < len(self.s) and self.s[j] != ':':
                        w += str(self.s[j])
                        j += 1
                    if j + 1 < len(self.s) and self.s[j + 1] == ']':
                        n = w.startswith('^')
                        if w.lstrip('^') not in POSIX:
                            raise Bad(f'unrecognised class [:{w}:]')
                        f = POSIX[w.lstrip('^')]
                        items.append((lambda f: lambda x: not f(x))(f) if n else f)
                        self.i = j + 2
                        continue
                self.i += 1
                items.append(self.cls())
                continue
            if self.starts('&&') or self.starts('--') or self.starts('~~'):
                raise Unknown('set operations')
            if self.x and c.isspace():
                self.i += 1
                continue
            lo = self.clsitem()
            if callable(lo):
                items.append(lo)
                continue
            if self.peek() == '-' and self.i + 1 < len(self.s) and self.s[self.i + 1] not in (']', '-'):
                self.i += 1
                hi = self.clsitem()
                if callable(hi):
                    raise Bad('invalid range in a character class')
                if hi < lo:
                    raise Bad('invalid range in a character class')
            else:
                hi = lo
            if self.ci:
                items.append((lambda lo, hi: lambda x: any(lo <= y <= hi for y in (x, x.lower(), x.upper()) if len(y) == 1))(lo, hi))
            else:
                items.append((lambda lo, hi: lambda x: lo <= x <= hi)(lo, hi))
        f = lambda x: any(g(x) for g in items)
        return (lambda x: not f(x)) if neg else f

    def clsitem(self):
        c = self.peek()
        if not isinstance(c, str):
            raise Bad('a part inside a character class')
        self.i += 1
        if c != '\\':
            return c
        f = self.escset()
        return f if f is not None else self.escchar()


def parse(s):
    """s: a list of characters and holes, or a string"""
    return P(list(s)).parse()


def ends(t, s, i):
    """where a match of t beginning at i can end"""
    k = t[0]
    if k == 'e':
        return {i}
    if k == 'group':
        return ends(t[1], s, i)
    if k == 'c':
        return {i + 1} if i < len(s) and t[1](s[i]) else set()
    if k == '^':
        return {i} if i == 0 else set()
    if k == '$':
        return {i} if i == len(s) else set()
    if k == 'm^':
        return {i} if i == 0 or s[i - 1] == '\n' else set()
    if k == 'm$':
        return {i} if i == len(s) or s[i] == '\n' else set()
    if k in 'bB':
        a = i > 0 and isword(s[i - 1])
        b = i < len(s) and isword(s[i])
        return {i} if (a != b) == (k == 'b') else set()
    if k == 'cat':
        c = {i}
        for x in t[1]:
            c = set().union(*[ends(x, s, j) for j in c]) if c else c
        return c
    if k == 'alt':
        return set().union(*[ends(x, s, i) for x in t[1]])
    if k == 'rep':
        lo, hi = t[2], t[3]
        cur, seen = {i}, set()
        out = set(cur) if lo == 0 else set()
        n = 0
        while cur and (hi is None or n < hi):
            cur = set().union(*[ends(t[1], s, j) for j in cur])
            n += 1
            if n >= lo:
                new = cur - out
                out |= cur
                if hi is None and n > lo + len(s) + 1:
                    break
                if not new and n > lo:
                    break
        return out
    raise Unknown(k)


def whole(t, s):
    return len(s) in ends(t, s, 0)


def nullable(t):
    """can a match be empty? (assertions are assumed to hold)"""
    k = t[0]
    if k == 'group':
        return nullable(t[1])
    if k == 'cat':
        return all(nullable(x) for x in t[1])
    if k == 'alt':
        return any(nullable(x) for x in t[1])
    if k == 'rep':
        return t[2] == 0 or nullable(t[1])
    return k not in ('c', 'hole')


def branches(t):
    """the alternatives, each a list of atoms; a repetition is an atom"""
    k = t[0]
    if k == 'e':
        return [[]]
    if k == 'group':
        return branches(t[1])
    if k == 'alt':
        return [b for x in t[1] for b in branches(x)]
    if k == 'cat':
        out = [[]]
        for x in t[1]:
            bs = branches(x)
            out = [o + b for o in out for b in bs]
        return out
    return [[t]]
