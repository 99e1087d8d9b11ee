"""Rust tokenizer and token trees (comments dropped, tokens otherwise kept verbatim)."""
import re

OPS = ['<<=', '>>=', '...', '..=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=',
       '%=', '^=', '&=', '|=', '<<', '>>', '..']
IDENT = re.compile(r'(r#)?[A-Za-z_][A-Za-z0-9_]*')
NUM = re.compile(r'(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(\.[0-9][0-9_]*|\.(?![.A-Za-z_]))?([eE][+-]?[0-9_]+)?)([iuf](8|16|32|64|128|size))?')
LIFETIME = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*(?!')")
CHAR = re.compile(r"b?'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^\\'])'", re.S)
RAWSTR = re.compile(r'b?r(#*)"')
OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = set(OPEN.values())


class Tok:
    __slots__ = ('kind', 'text', 'line', 'file')

    def __init__(self, kind, text, line=0, file=None):
        self.kind, self.text, self.line, self.file = kind, text, line, file

    def __repr__(self):
        return self.text


class Group:
    __slots__ = ('open', 'items', 'line', 'file', 'eline')

    def __init__(self, open_, items, line=0, file=None, eline=0):
        self.open, self.items, self.line, self.file, self.eline = open_, items, line, file, eline

    @property
    def kind(self):
        return self.open

    def __repr__(self):
        return '%s%r%s' % (self.open, self.items, OPEN[self.open])


class LexError(Exception):
    pass


def lex(src, file=None, metavars=False):
    out, i, line, n = [], 0, 1, len(src)
    while i < n:
        c = src[i]
        if c == '\n':
            line += 1
            i += 1
            continue
        if c.isspace():
            i += 1
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith('/*', j):
                    depth += 1
                    j += 2
                elif src.startswith('*/', j):
                    depth -= 1
                    j += 2
                else:
                    if src[j] == '\n':
                        line += 1
                    j += 1
            i = j
            continue
        if metavars and c == '$':
            m = re.compile(r'\$+[a-z][a-z0-9_]*(:[a-z]+)?').match(src, i)
            if m:
                out.append(Tok('meta', m.group(), line, file))
                i = m.end()
                continue
        m = RAWSTR.match(src, i)
        if m:
            endp = '"' + m.group(1)
            j = src.find(endp, m.end())
            if j < 0:
                raise LexError('raw string')
            t = src[i:j + len(endp)]
            out.append(Tok('str', t, line, file))
            line += t.count('\n')
            i = j + len(endp)
            continue
        if c == '"' or (c in 'bc' and i + 1 < n and src[i + 1] == '"'):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            t = src[i:j + 1]
            out.append(Tok('str', t, line, file))
            line += t.count('\n')
            i = j + 1
            continue
        m = CHAR.match(src, i)
        if m:
            out.append(Tok('char', m.group(), line, file))
            i = m.end()
            continue
        m = LIFETIME.match(src, i)
        if m:
            out.append(Tok('life', m.group(), line, file))
            i = m.end()
            continue
        m = IDENT.match(src, i)
        if m:
            out.append(Tok('id', m.group(), line, file))
            i = m.end()
            continue
        if c.isdigit():
            # tuple index after '.' must not swallow ".0.lock": x.0.1
            if out and out[-1].text == '.':
                m = re.compile(r'[0-9]+').match(src, i)
            else:
                m = NUM.match(src, i)
            out.append(Tok('num', m.group(), line, file))
            i = m.end()
            continue
        for op in OPS:
            if src.startswith(op, i):
                out.append(Tok('op', op, line, file))
                i += len(op)
                break
        else:
            out.append(Tok('op', c, line, file))
            i += 1
    return out


def tree(toks):
    stack = [Group('{', [])]
    for t in toks:
        if t.kind == 'op' and t.text in OPEN:
            stack.append(Group(t.text, [], t.line, t.file))
        elif t.kind == 'op' and t.text in CLOSE:
            g = stack.pop()
            if not stack or OPEN[g.open] != t.text:
                raise LexError('unbalanced %s at %s:%s' % (t.text, t.file, t.line))
            g.eline = t.line
            stack[-1].items.append(g)
        else:
            stack[-1].items.append(t)
    if len(stack) != 1:
        raise LexError('unbalanced at end')
    return stack[0].items


def parse(src, file=None, metavars=False):
    return tree(lex(src, file, metavars))


def flat(items):
    for it in items:
        if isinstance(it, Group):
            yield Tok('op', it.open, it.line, it.file)
            yield from flat(it.items)
            yield Tok('op', OPEN[it.open], it.eline, it.file)
        else:
            yield it


def byte_array(lit):
    import ast
    return '& [ ' + ' , '.join('%du8' % b for b in ast.literal_eval(lit)) + ' ]'


def text(items):
    """canonical one-line text"""
    return ' '.join(t.text for t in flat(items))


def same(a, b):
    if isinstance(a, Group) != isinstance(b, Group):
        return False
    if isinstance(a, Group):
        return a.open == b.open and len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    return a.text == b.text


class Renderer:
    """Renders items to text and remembers, per output line, the source position."""

    def __init__(self):
        self.lines, self.cur, self.map, self.curpos, self.indent = [], [], {}, None, 0

    def nl(self):
        if self.cur:
            self.lines.append('    ' * self.indent + ' '.join(self.cur))
            if self.curpos:
                self.map[len(self.lines)] = self.curpos
        self.cur, self.curpos = [], None

    def raw(self, text):
        self.nl()
        for l in text.split('\n'):
            self.lines.append(l)

    def items(self, items):
        for it in items:
            if isinstance(it, Group):
                self.tok(Tok('op', it.open, it.line, it.file))
                if it.open == '{':
                    self.nl()
                    self.indent += 1
                    self.items(it.items)
                    self.nl()
                    self.indent -= 1
                    self.tok(Tok('op', '}', it.eline, it.file))
                    self.nl()
                else:
                    self.items(it.items)
                    self.tok(Tok('op', OPEN[it.open], it.eline, it.file))
            elif it.kind == 'raw':
                self.raw(it.text)
            else:
                self.tok(it)
                if it.text == ';':
                    self.nl()

    def tok(self, t):
        if t.kind == 'str' and re.match(r'b"', t.text):
            # byte-string literal: written out as an array
            t = Tok('str', byte_array(t.text), t.line, t.file)
        if t.file and not self.curpos:
            self.curpos = (t.file, t.line)
        self.cur.append(t.text)
