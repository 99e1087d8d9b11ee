"""vx: mechanical extraction of functions from /repo into Verus units.

A unit (specs/*.vx) is a Verus file in which `//@item FILE :: PATH` blocks name items of the real source.
On every run the item is re-read from /repo's working tree, tokenised (comments dropped), and spliced with the
contract text of the block.  Only the rewrites listed in the unit (`//@rw`) are applied to executable code;
each application is recorded and reported.
"""
import os
import re
import json
import difflib
from rtok import *

REPO = os.environ.get('VX_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Lost(Exception):
    """anchor lost / not extractable"""


# ---------------------------------------------------------------- patterns
def parse_pat(s):
    return parse(s, None, metavars=True)


KEYW = {'let', 'return', 'if', 'else', 'match', 'while', 'for', 'in', 'loop', 'mut', 'ref', 'move', 'fn', 'as', 'break',
        'continue', 'unsafe', 'const', 'static', 'struct', 'enum', 'impl', 'where', 'pub', 'use'}


def place_ends(items, i):
    """end indexes (longest first) of a place / call chain starting at items[i]"""
    ends = []
    j = i
    n = len(items)
    while j < n and isinstance(items[j], Tok) and items[j].text in ('&', '*', 'mut'):
        j += 1
    if j >= n:
        return ends
    t = items[j]
    if isinstance(t, Group):
        if t.open != '(':
            return ends
        j += 1
    elif t.kind in ('id', 'num', 'str', 'char') and t.text not in KEYW:
        j += 1
    else:
        return ends
    ends.append(j)
    while j < n:
        t = items[j]
        if isinstance(t, Tok) and t.text in ('.', '::') and j + 1 < n and isinstance(items[j + 1], Tok) and items[j + 1].kind in ('id', 'num'):
            j += 2
            ends.append(j)
        elif isinstance(t, Tok) and t.text == '::' and j + 1 < n and isinstance(items[j + 1], Tok) and items[j + 1].text == '<':
            d, k = 0, j + 1
            while k < n:
                x = items[k].text if isinstance(items[k], Tok) else ''
                d += {'<': 1, '>': -1, '<<': 2, '>>': -2}.get(x, 0)
                k += 1
                if d <= 0:
                    break
            j = k
            ends.append(j)
        elif isinstance(t, Group) and t.open in '([':
            j += 1
            ends.append(j)
        elif isinstance(t, Tok) and t.text == '?':
            j += 1
            ends.append(j)
        else:
            break
    return ends[::-1]


def match_seq(pat, pi, items, i, env):
    """yields (end, env) of matches of pat[pi:] at items[i:]"""
    if pi == len(pat):
        yield i, env
        return
    p = pat[pi]
    if isinstance(p, Tok) and p.kind == 'meta':
        dollars = len(p.text) - len(p.text.lstrip('$'))
        name, _, kind = p.text.lstrip('$').partition(':')

        def bind(j):
            seq = items[i:j]
            if name in env:
                old = env[name]
                if len(old) == len(seq) and all(same(a, b) for a, b in zip(old, seq)):
                    yield from match_seq(pat, pi + 1, items, j, env)
            else:
                e2 = dict(env)
                e2[name] = seq
                yield from match_seq(pat, pi + 1, items, j, e2)
        if kind == 'place':
            if i > 0 and isinstance(items[i - 1], Tok) and items[i - 1].text in ('.', '::'):
                return
            for j in place_ends(items, i):
                yield from bind(j)
        elif kind == 'recv':
            # the receiver of a method call: a place without leading & or *
            if i > 0 and isinstance(items[i - 1], Tok) and items[i - 1].text in ('.', '::'):
                return
            if i < len(items) and isinstance(items[i], Tok) and items[i].text in ('&', '*', 'mut'):
                return
            for j in place_ends(items, i):
                yield from bind(j)
        elif kind == 'id':
            if i < len(items) and isinstance(items[i], Tok) and items[i].kind == 'id' and items[i].text not in KEYW:
                yield from bind(i + 1)
        elif kind == 'rest':
            yield from bind(len(items))
        elif dollars == 1:
            if i < len(items):
                yield from bind(i + 1)
        else:
            lo = i + 1 if dollars == 2 else i
            j = lo
            while j <= len(items):
                if j > i and isinstance(items[j - 1], Tok) and items[j - 1].text == ';':
                    break
                yield from bind(j)
                j += 1
        return
    if i >= len(items):
        return
    it = items[i]
    if isinstance(p, Group):
        if isinstance(it, Group) and it.open == p.open:
            for e, env2 in match_seq(p.items, 0, it.items, 0, env):
                if e == len(it.items):
                    yield from match_seq(pat, pi + 1, items, i + 1, env2)
        return
    if isinstance(it, Tok) and it.text == p.text:
        yield from match_seq(pat, pi + 1, items, i + 1, env)


def subst(rep, env, pos):
    out = []
    for r in rep:
        if isinstance(r, Tok) and r.kind == 'meta':
            name = r.text.lstrip('$').partition(':')[0]
            if name not in env:
                raise Lost('rewrite uses unbound metavariable $' + name)
            out.extend(env[name])
        elif isinstance(r, Group):
            out.append(Group(r.open, subst(r.items, env, pos), *pos))
        else:
            out.append(Tok(r.kind, r.text, pos[0], pos[1]))
    return out


def clone_env(env):
    return env


def rewrite(items, pat, rep, count, fresh=None):
    """apply pat => rep everywhere (outermost/leftmost first, then inside the results' captured parts)"""
    out, i = [], 0
    while i < len(items):
        hit = None
        for e, env in match_seq(pat, 0, items, i, {}):
            if e > i:
                hit = (e, env)
                break
        if hit:
            e, env = hit
            first = items[i]
            pos = (first.line, first.file)
            env2 = {k: rewrite(v, pat, rep, count, fresh) for k, v in env.items()}
            r = rep
            if fresh is not None:
                fresh[0] += 1
                r = rename_fresh(rep, fresh[0])
            new = subst(r, env2, pos)
            count.append((first.file, first.line))
            out.extend(new)
            i = e
        else:
            it = items[i]
            if isinstance(it, Group):
                it = Group(it.open, rewrite(it.items, pat, rep, count, fresh), it.line, it.file, it.eline)
            out.append(it)
            i += 1
    return out


def rename_fresh(rep, n):
    out = []
    for r in rep:
        if isinstance(r, Group):
            out.append(Group(r.open, rename_fresh(r.items, n), r.line, r.file, r.eline))
        elif isinstance(r, Tok) and r.kind == 'id' and r.text.startswith('fresh_'):
            out.append(Tok('id', '%s_%d' % (r.text, n), r.line, r.file))
        else:
            out.append(r)
    return out


# ---------------------------------------------------------------- locating items
_files = {}


def load(file):
    path = os.path.join(REPO, file)
    if file not in _files:
        try:
            src = open(path, encoding='utf-8').read()
        except OSError as e:
            raise Lost('cannot read %s: %s' % (file, e))
        try:
            _files[file] = cfg_filter(parse(src, file))
        except LexError as e:
            raise Lost('cannot tokenise %s: %s' % (file, e))
    return _files[file]


CFG_TRUE = {'target_endian="little"', 'debug_assertions', 'target_pointer_width="64"'}


BIG = [False]


def cfg_eval(s):
    s = s.replace(' ', '')
    if BIG[0] and s.startswith('target_endian='):
        return s == 'target_endian="big"'
    if s in CFG_TRUE:
        return True
    m = re.fullmatch(r'not\((.*)\)', s)
    if m:
        v = cfg_eval(m.group(1))
        return None if v is None else not v
    if s in ('target_endian="big"', 'test', 'kani', 'feature="nightly"'):
        return False
    return None


def cfg_filter(items):
    """drop items/statements under a false #[cfg(..)]; drop the attribute when it is true"""
    out, i = [], 0
    while i < len(items):
        it = items[i]
        if isinstance(it, Tok) and it.text == '#' and i + 1 < len(items) and isinstance(items[i + 1], Group) and items[i + 1].open == '[':
            g = items[i + 1].items
            if len(g) == 2 and isinstance(g[0], Tok) and g[0].text == 'cfg':
                v = cfg_eval(text(g[1].items))
                if v is True:
                    i += 2
                    continue
                if v is False:
                    j = i + 2
                    # skip further attributes, then one item / statement
                    while j < len(items):
                        t = items[j]
                        j += 1
                        if isinstance(t, Tok) and t.text == ';':
                            break
                        if isinstance(t, Group) and t.open == '{':
                            if j < len(items) and isinstance(items[j], Tok) and items[j].text == ';':
                                j += 1
                            break
                    i = j
                    continue
        if isinstance(it, Group):
            it = Group(it.open, cfg_filter(it.items), it.line, it.file, it.eline)
        out.append(it)
        i += 1
    return out


def strip_attrs(items):
    out, i = [], 0
    while i < len(items):
        it = items[i]
        if isinstance(it, Tok) and it.text == '#' and i + 1 < len(items) and isinstance(items[i + 1], Group) and items[i + 1].open == '[':
            i += 2
            continue
        if isinstance(it, Group):
            it = Group(it.open, strip_attrs(it.items), it.line, it.file, it.eline)
        out.append(it)
        i += 1
    return out


def find_item(items, path):
    """path: list of segments such as 'impl Foo', 'fn bar', 'struct X', 'mod m', 'const C'.
    Returns (start, end, items) of the item (attributes excluded)."""
    seg = path[0]
    kind = seg.split()[0]
    if kind == 'macro':
        # body of a rule of a macro_rules! macro; what is looked up in it may contain the macro's variables
        name = seg.split()[1]
        for i in range(len(items) - 3):
            if text(items[i:i + 3]) == text(parse('macro_rules ! ' + name)) and isinstance(items[i + 3], Group):
                body = [x for k, g in enumerate(items[i + 3].items) if isinstance(g, Group) and k and text(items[i + 3].items[k - 1:k]) == '=>' for x in g.items]
                return find_item(body, path[1:])
        raise Lost('not found: %s' % seg)
    if kind == 'closure':
        # a local closure as a function of its parameters; what it captures comes as further parameters (directive `params`)
        name = seg.split()[1]
        for i in range(len(items) - 4):
            if text(items[i:i + 3]) == 'let %s =' % name:
                j = i + 3
                if isinstance(items[j], Tok) and items[j].text == 'move':
                    j += 1
                k = j + 1
                if isinstance(items[j], Tok) and items[j].text == '|':
                    while k < len(items) and not (isinstance(items[k], Tok) and items[k].text == '|'):
                        k += 1
                    k += 1
                elif not (isinstance(items[j], Tok) and items[j].text == '||'):
                    break
                e = k
                while e < len(items) and not (isinstance(items[e], Tok) and items[e].text == ';'):
                    e += 1
                body = items[k:e]
                if not (len(body) == 1 and isinstance(body[0], Group) and body[0].open == '{'):
                    body = [Group('{', body)]
                return parse('fn ' + name) + [Group('(', items[j + 1:k - 1])] + body
        raise Lost('not found: %s' % seg)
    want = text(parse(seg))
    i = 0
    hits = []
    while i < len(items):
        it = items[i]
        if isinstance(it, Tok) and it.text == kind and kind in ('fn', 'struct', 'enum', 'const', 'mod', 'trait', 'type', 'static'):
            # header text is `kind NAME`
            if i + 1 < len(items) and text(items[i:i + 2]) == want:
                j = i
                while j < len(items):
                    t = items[j]
                    j += 1
                    if isinstance(t, Tok) and t.text == ';':
                        break
                    if isinstance(t, Group) and t.open == '{' and kind not in ('const', 'static', 'type'):
                        break
                s = i
                while s > 0 and ((isinstance(items[s - 1], Tok) and items[s - 1].text in ('pub', 'const', 'unsafe', 'async') and kind == 'fn') or
                                 (isinstance(items[s - 1], Tok) and items[s - 1].text == 'pub') or
                                 (isinstance(items[s - 1], Group) and items[s - 1].open == '(' and s > 1 and isinstance(items[s - 2], Tok) and items[s - 2].text == 'pub')):
                    s -= 1
                hits.append((s, j))
                i = j
                continue
        elif isinstance(it, Tok) and it.text == 'impl' and kind == 'impl':
            j = i
            while j < len(items) and not (isinstance(items[j], Group) and items[j].open == '{'):
                j += 1
            head = norm_impl(items[i:j])
            if head == norm_impl(parse(seg)):
                hits.append((i, j + 1))
            i = j + 1
            continue
        i += 1
    if len(path) > 1:
        for s, e in hits:
            body = items[e - 1]
            if isinstance(body, Group):
                try:
                    return find_item(body.items, path[1:])
                except Lost:
                    continue
        raise Lost('not found: %s' % ' :: '.join(path))
    if not hits:
        raise Lost('not found: %s' % seg)
    s, e = hits[0]
    return items[s:e]


IGNORED_ATTRS = ('allow', 'inline', 'must_use', 'doc', 'warn', 'deny', 'cold', 'track_caller', 'expect', 'rustfmt')


def attr_texts(items):
    """attributes directly in `items` (nested groups included): derives sorted, those without meaning for the behaviour left out"""
    out = []
    for i in range(len(items) - 1):
        g = items[i + 1]
        if isinstance(items[i], Tok) and items[i].text == '#' and isinstance(g, Group) and g.open == '[' and g.items:
            n = text(g.items[:1])
            if n in IGNORED_ATTRS:
                continue
            if n == 'derive' and len(g.items) > 1:
                out += ['derive ' + x for x in sorted(text(x).split(':')[-1].strip() for x in split_commas(g.items[1].items) if x)]
            else:
                out.append(text(g.items))
    for it in items:
        if isinstance(it, Group) and it.open != '[':
            out += attr_texts(it.items)
    return out


def surface(items):
    """what the definitions in a file say besides the items that are extracted: attributes of types, trait impls and their items.
    -> {entry name: (idents, text)}"""
    out = {}

    def add(name, ids, t):
        k = name
        n = 1
        while k in out:
            n += 1
            k = '%s #%d' % (name, n)
        out[k] = (sorted(set(ids)), t)

    i = 0
    while i < len(items):
        it = items[i]
        t = it.text if isinstance(it, Tok) else ''
        if t in ('struct', 'enum') and i + 1 < len(items) and isinstance(items[i + 1], Tok):
            j = i
            while j < len(items) and not (isinstance(items[j], Tok) and items[j].text == ';') and not (isinstance(items[j], Group) and items[j].open == '{'):
                j += 1
            s = i
            while s > 0 and (isinstance(items[s - 1], Tok) and items[s - 1].text in ('pub', '#') or isinstance(items[s - 1], Group) and items[s - 1].open in '[('):
                s -= 1
            add(text(items[i:i + 2]), [items[i + 1].text], ' ; '.join(attr_texts(items[s:j + 1])))
            i = j + 1
            continue
        if t == 'impl':
            j = i
            while j < len(items) and not (isinstance(items[j], Group) and items[j].open == '{'):
                j += 1
            if j < len(items):
                head = norm_impl(items[i:j])
                # (a trait implementation)
                if ' for ' in ' %s ' % head:
                    b = items[j].items
                    names = [text(b[k:k + 2]) for k in range(len(b) - 1) if isinstance(b[k], Tok) and b[k].text in ('fn', 'type') and isinstance(b[k + 1], Tok)]
                    add('impl ' + head, [x.text for x in flat(items[i:j]) if x.kind == 'id'], ' ; '.join(sorted(names)))
            i = j + 1
            continue
        if t == 'mod' and i + 2 < len(items) and isinstance(items[i + 2], Group):
            for k, (ids, x) in surface(items[i + 2].items).items():
                add(items[i + 1].text + ' :: ' + k, ids, x)
            i += 3
            continue
        i += 1
    return out


def norm_impl(items):
    """impl header without generic parameter list and where clause; lifetimes dropped"""
    toks = [t for t in flat(items)]
    out = []
    i = 1 if toks and toks[0].text == 'impl' else 0
    if i < len(toks) and toks[i].text == '<':
        d = 0
        while i < len(toks):
            d += {'<': 1, '>': -1, '<<': 2, '>>': -2}.get(toks[i].text, 0)
            i += 1
            if d == 0:
                break
    for t in toks[i:]:
        if t.text == 'where':
            break
        if t.kind == 'life':
            continue
        out.append(t.text)
    s = ' '.join(out)
    s = s.replace('< _ >', '').replace('< >', '').replace('std :: convert ::', '').replace('std :: ops ::', '')
    return ' '.join(s.split())


class Fn:
    """a function split into signature pieces and body"""

    def __init__(self, items):
        self.items = items
        i = 0
        while not (isinstance(items[i], Tok) and items[i].text == 'fn'):
            i += 1
        self.pre = [t for t in items[:i]]
        self.name = items[i + 1].text
        j = i + 2
        # generics
        self.generics = []
        if isinstance(items[j], Tok) and items[j].text == '<':
            d = 0
            while True:
                t = items[j]
                d += {'<': 1, '>': -1, '<<': 2, '>>': -2}.get(t.text if isinstance(t, Tok) else '', 0)
                self.generics.append(t)
                j += 1
                if d == 0:
                    break
        self.params = items[j]
        j += 1
        self.ret, self.where = [], []
        if isinstance(items[j], Tok) and items[j].text == '->':
            j += 1
            while not (isinstance(items[j], Tok) and items[j].text == 'where') and not (isinstance(items[j], Group) and items[j].open == '{'):
                self.ret.append(items[j])
                j += 1
        if isinstance(items[j], Tok) and items[j].text == 'where':
            while not (isinstance(items[j], Group) and items[j].open == '{'):
                self.where.append(items[j])
                j += 1
        self.body = items[j]


def split_commas(items):
    out, cur, d = [], [], 0
    for it in items:
        if isinstance(it, Tok):
            d += {'<': 1, '>': -1, '>>': -2}.get(it.text, 0) if it.text in ('<', '>', '>>') else 0
            if it.text == ',' and d <= 0:
                out.append(cur)
                cur = []
                continue
        cur.append(it)
    if cur:
        out.append(cur)
    return out


def split_args(items):
    """call arguments: commas at top level (no generics issue in practice except turbofish)"""
    out, cur = [], []
    for it in items:
        if isinstance(it, Tok) and it.text == ',':
            out.append(cur)
            cur = []
            continue
        cur.append(it)
    if cur:
        out.append(cur)
    return out


def find_loops(items):
    """list of (container, index of keyword, index of body) in pre-order"""
    res = []

    def walk(its):
        i = 0
        while i < len(its):
            it = its[i]
            if isinstance(it, Tok) and it.text in ('while', 'loop', 'for'):
                if it.text == 'for' and i + 1 < len(its) and isinstance(its[i + 1], Tok) and its[i + 1].text == '<':
                    i += 1
                    continue
                j = i + 1
                while j < len(its) and not (isinstance(its[j], Group) and its[j].open == '{'):
                    j += 1
                if j < len(its):
                    res.append((its, i, j))
                    for x in its[i + 1:j]:
                        if isinstance(x, Group):
                            walk(x.items)
                    walk(its[j].items)
                    i = j + 1
                    continue
            if isinstance(it, Group):
                walk(it.items)
            i += 1
    walk(items)
    return res


def bindings(fn):
    """binding identifiers in order: parameters, let patterns, for patterns"""
    out = []

    def pat_ids(its):
        ids = []
        for k, t in enumerate(its):
            if isinstance(t, Group):
                ids += pat_ids(t.items)
            elif t.kind == 'id' and t.text not in ('mut', 'ref', '_', 'self', 'box') and re.match(r'[a-z_]', t.text):
                nxt = its[k + 1] if k + 1 < len(its) else None
                if isinstance(nxt, Tok) and nxt.text in ('::', ':'):
                    continue
                if isinstance(nxt, Group):
                    continue
                if not t.text.startswith('_'):
                    ids.append(t.text)
        return ids
    for p in split_commas(fn.params.items):
        pre = []
        for t in p:
            if isinstance(t, Tok) and t.text == ':':
                break
            pre.append(t)
        out += pat_ids(pre)

    def walk(its):
        i = 0
        while i < len(its):
            it = its[i]
            if isinstance(it, Tok) and it.text == 'let':
                j = i + 1
                pat = []
                while j < len(its) and not (isinstance(its[j], Tok) and its[j].text in ('=', ':', ';')):
                    pat.append(its[j])
                    j += 1
                out.extend(pat_ids(pat))
                i = j
                continue
            if isinstance(it, Tok) and it.text == 'for':
                j = i + 1
                pat = []
                while j < len(its) and not (isinstance(its[j], Tok) and its[j].text == 'in'):
                    pat.append(its[j])
                    j += 1
                if j < len(its):
                    out.extend(pat_ids(pat))
            if isinstance(it, Group):
                walk(it.items)
            i += 1
    walk(fn.body.items)
    return out


LIT = ('num', 'str', 'char')


def strip_noops(items):
    """drop statements that do nothing: `;`, `();`, `let _x = <literal>;`, `black_box(<literal>);`, `if false {..}`"""
    out, i = [], 0
    n = len(items)

    def at_stmt():
        if not out:
            return True
        p = out[-1]
        if isinstance(p, Tok):
            return p.text == ';'
        return p.open == '{'

    def T(k):
        return items[k].text if k < n and isinstance(items[k], Tok) else None

    def is_lit(seq):
        seq = [t for t in seq if not (isinstance(t, Tok) and t.text in ('-', '&'))]
        if not seq:
            return False
        return all((isinstance(t, Tok) and (t.kind in LIT or t.text in ('true', 'false', ',') or re.fullmatch(r'[ui](8|16|32|64|128|size)|as|bool|[+*]', t.text))) or
                   (isinstance(t, Group) and t.open in '([' and (not t.items or is_lit(t.items))) for t in seq)
    while i < n:
        it = items[i]
        if at_stmt() and isinstance(it, Tok):
            # find end of statement
            j = i
            while j < n and not (isinstance(items[j], Tok) and items[j].text == ';'):
                j += 1
            if j < n:
                st = items[i:j]
                if T(i) == ';' and out:
                    prev = out[-1]
                    if (isinstance(prev, Tok) and prev.text == ';'):
                        i += 1
                        continue
                if T(i) == 'let' and T(i + 1) and T(i + 1).startswith('_'):
                    k = i + 2
                    if T(k) == ':':
                        while k < j and T(k) != '=':
                            k += 1
                    if T(k) == '=' and is_lit(items[k + 1:j]):
                        i = j + 1
                        continue
                tx = text(st)
                m = re.match(r'((let _\w* = )?((std|core) :: )?(hint :: )?black_box|drop|(std|core) :: mem :: drop|let _ =)\b', tx)
                if m:
                    g = [x for x in st if isinstance(x, Group)]
                    if len(g) == 1 and isinstance(st[-1], Group) and (not g[0].items or is_lit(g[0].items)):
                        i = j + 1
                        continue
            if T(i) == 'if' and T(i + 1) == 'false' and i + 2 < n and isinstance(items[i + 2], Group) and T(i + 3) != 'else':
                i += 3
                continue
        if at_stmt() and isinstance(it, Group) and it.open == '(' and not it.items and T(i + 1) == ';':
            i += 2
            continue
        if isinstance(it, Group):
            it = Group(it.open, strip_noops(it.items) if it.open == '{' or True else it.items, it.line, it.file, it.eline)
        out.append(it)
        i += 1
    return out


# ---------------------------------------------------------------- helper inlining
def source_fns(items, ctx=None):
    """name -> list of (ctx, item tokens) for all fns of a file (depth: free, impl, mod)"""
    res = {}
    i = 0
    while i < len(items):
        it = items[i]
        if isinstance(it, Tok) and it.text == 'impl':
            j = i
            while j < len(items) and not (isinstance(items[j], Group) and items[j].open == '{'):
                j += 1
            if j < len(items):
                head = norm_impl(items[i:j])
                for k, v in source_fns(items[j].items, head).items():
                    res.setdefault(k, []).extend(v)
            i = j + 1
            continue
        if isinstance(it, Tok) and it.text == 'fn' and i + 1 < len(items) and isinstance(items[i + 1], Tok):
            j = i
            while j < len(items) and not (isinstance(items[j], Group) and items[j].open == '{') and not (isinstance(items[j], Tok) and items[j].text == ';'):
                j += 1
            if j < len(items) and isinstance(items[j], Group):
                res.setdefault(items[i + 1].text, []).append((ctx, items[i:j + 1]))
            i = j + 1
            continue
        i += 1
    return res


def has_word(items, words):
    for t in flat(items):
        if t.text in words:
            return True
    return False


def inline_helpers(items, fns, known, ctx, notes, depth=0):
    """beta-reduce calls of non-contracted helper functions defined in the same file"""
    if depth > 4:
        return items
    out, i = [], 0
    while i < len(items):
        it = items[i]
        if isinstance(it, Tok) and it.kind == 'id' and it.text in fns and it.text not in known and i + 1 < len(items) \
                and isinstance(items[i + 1], Group) and items[i + 1].open == '(':
            cands = fns[it.text]
            prev = [x.text if isinstance(x, Tok) else '' for x in out[-2:]]
            method = len(prev) == 2 and prev[1] == '.'
            recv_self = method and prev[0] == 'self' and not (len(out) > 2 and isinstance(out[-3], Tok) and out[-3].text == '.')
            pathed = len(prev) == 2 and prev[1] == '::'
            cand = None
            for c, toks in cands:
                f = Fn(toks)
                ps = split_commas(f.params.items)
                has_self = bool(ps) and has_word(ps[0], {'self'})
                if method and recv_self and has_self and c == ctx:
                    cand = (f, ps[1:])
                elif pathed and not has_self and (prev[0] == 'Self' and c == ctx or prev[0] == (c or '').split(' ')[0]):
                    cand = (f, ps)
                elif not method and not pathed and c is None and not has_self:
                    cand = (f, ps)
            if cand and not has_word(cand[0].body.items, {'return', '?'}):
                f, ps = cand
                args = split_args(items[i + 1].items)
                if len(args) == len(ps):
                    blk = []
                    for p, a in zip(ps, args):
                        a = inline_helpers(a, fns, known, ctx, notes, depth)
                        k = next(x for x, t in enumerate(p) if isinstance(t, Tok) and t.text == ':')
                        ty = p[k + 1:]
                        if has_word(ty, {'impl', 'dyn'}) or (f.generics and any(t.text in text(f.generics).split() and t.text[0].isupper() for t in flat(ty))):
                            blk += [Tok('id', 'let')] + p[:k] + [Tok('op', '=')] + a + [Tok('op', ';')]
                        else:
                            blk += [Tok('id', 'let')] + p[:k] + [Tok('op', ':')] + ty + [Tok('op', '=')] + a + [Tok('op', ';')]
                    body = strip_noops(strip_attrs(f.body.items))
                    body = inline_helpers(body, fns, known, ctx, notes, depth + 1)
                    notes.append('inlined helper `%s`' % it.text)
                    if recv_self or pathed:
                        out = out[:-2]
                    out.append(Group('{', blk + [Group('{', body, it.line, it.file, it.line)], it.line, it.file, it.line))
                    # a block in expression position must be parenthesised to be followed by `.`
                    i += 2
                    if i < len(items) or True:
                        g = out.pop()
                        nxt = items[i] if i < len(items) else None
                        stmt = not out or (isinstance(out[-1], Tok) and out[-1].text == ';') or (isinstance(out[-1], Group) and out[-1].open == '{')
                        if stmt and isinstance(nxt, Tok) and nxt.text == ';':
                            out.append(g)
                        else:
                            out.append(Group('(', [g], g.line, g.file, g.line))
                    continue
            if cand is not None:
                notes.append('helper `%s` is not inlinable' % it.text)
        if isinstance(it, Group):
            it = Group(it.open, inline_helpers(it.items, fns, known, ctx, notes, depth), it.line, it.file, it.eline)
        out.append(it)
        i += 1
    return out


def rename_ids(items, ids, prefix):
    """rename free-standing identifiers (not fields or methods)"""
    out = []
    for k, t in enumerate(items):
        if isinstance(t, Group):
            out.append(Group(t.open, rename_ids(t.items, ids, prefix), t.line, t.file, t.eline))
        elif t.kind == 'id' and t.text in ids and not (k and isinstance(items[k - 1], Tok) and items[k - 1].text == '.'):
            out.append(Tok('id', prefix + t.text, t.line, t.file))
        else:
            out.append(t)
    return out


def closure_literal(items):
    """[&][mut][move] |params| body -> (params, body) or None"""
    i = 0
    while i < len(items) and isinstance(items[i], Tok) and items[i].text in ('&', 'mut', 'move'):
        i += 1
    if i < len(items) and isinstance(items[i], Tok) and items[i].text == '||':
        return [], items[i + 1:]
    if not (i < len(items) and isinstance(items[i], Tok) and items[i].text == '|'):
        return None
    j = i + 1
    while j < len(items) and not (isinstance(items[j], Tok) and items[j].text == '|'):
        j += 1
    if j >= len(items):
        return None
    return split_commas(items[i + 1:j]), items[j + 1:]


def inline_closure(items, name, count, env=None):
    """beta-reduce the local closure `name` (and the closure literals passed to it) at its calls"""
    out, i = [], 0
    while i < len(items):
        it = items[i]
        if isinstance(it, Tok) and it.text == 'let':
            k = i + 1
            if k < len(items) and isinstance(items[k], Tok) and items[k].text == 'mut':
                k += 1
            if k + 1 < len(items) and isinstance(items[k], Tok) and items[k].text == name and isinstance(items[k + 1], Tok) and items[k + 1].text == '=':
                e = k + 2
                while e < len(items) and not (isinstance(items[e], Tok) and items[e].text == ';'):
                    e += 1
                cl = closure_literal(items[k + 2:e])
                if cl is None:
                    raise Lost('`%s` is not a closure literal' % name)
                if has_word(cl[1], {'return', '?'}):
                    raise Lost('closure `%s` returns early' % name)
                env = cl
                i = e + 1
                continue
        if env and isinstance(it, Tok) and it.text == name and i + 1 < len(items) and isinstance(items[i + 1], Group) and items[i + 1].open == '(' \
                and not (out and isinstance(out[-1], Tok) and out[-1].text in ('.', '::')):
            params, body = env
            args = split_call(items[i + 1].items)
            if len(args) != len(params):
                raise Lost('call of closure `%s`' % name)
            names, fparams, pre = set(), {}, []

            class F:
                pass
            f = F()
            f.params, f.body = Group('(', [], 0), Group('{', body, 0)
            names |= set(bindings(f))
            for p, a in zip(params, args):
                k = next((x for x, t in enumerate(p) if isinstance(t, Tok) and t.text == ':'), len(p))
                pid = [t for t in p[:k] if isinstance(t, Tok) and t.text != 'mut'][0].text
                names.add(pid)
                lit = closure_literal(a)
                if lit is not None:
                    if has_word(lit[1], {'return', '?'}):
                        raise Lost('closure argument returns early')
                    fparams['vx_c_' + pid] = (lit[0], inline_closure(lit[1], name, count, env))
                else:
                    pos = (it.line, it.file)
                    pre += [Tok('id', 'let', *pos), Tok('id', 'vx_c_' + pid, *pos)] + p[k:] + [Tok('op', '=', *pos)] + a + [Tok('op', ';', *pos)]
            b2 = rename_ids(body, names, 'vx_c_')
            b2 = apply_closure_args(b2, fparams)
            count.append(1)
            out.append(Group('{', pre + b2, it.line, it.file, it.line))
            i += 2
            continue
        if isinstance(it, Group):
            it = Group(it.open, inline_closure(it.items, name, count, env), it.line, it.file, it.eline)
        out.append(it)
        i += 1
    return out


def count_word(items, name):
    return sum(count_word(x.items, name) if isinstance(x, Group) else (x.kind == 'id' and x.text == name) for x in items)


def opaque_closures(items):
    """closure literals without a contract"""
    n = 0
    for k, it in enumerate(items):
        if isinstance(it, Group):
            n += opaque_closures(it.items)
        elif it.text in ('|', '||') and (k == 0 or (isinstance(items[k - 1], Tok) and items[k - 1].text in (',', '=', '&', 'move', '=>', 'return', 'in'))):
            c = closure_literal(items[k:])
            if c is not None and not any(isinstance(x, Tok) and x.text in ('requires', 'ensures') for x in c[1][:60]):
                n += 1
    return n


def fold_closures(items, pinned, count):
    """put a newly introduced local closure that is used once, as an argument, into its place; beta-reduce one that is only called"""
    def subst1(its, name, lit):
        out = []
        for x in its:
            if isinstance(x, Group):
                if x.open == '(' and len(x.items) == 1 and isinstance(x.items[0], Tok) and x.items[0].text == name:
                    out.append(Group('(', list(lit), x.line, x.file, x.eline))
                else:
                    out.append(Group(x.open, subst1(x.items, name, lit), x.line, x.file, x.eline))
            else:
                out.append(x)
        return out

    def sole_arg(its, name):
        return sum((x.open == '(' and len(x.items) == 1 and isinstance(x.items[0], Tok) and x.items[0].text == name) or sole_arg(x.items, name)
                   for x in its if isinstance(x, Group))
    i = 0
    while i < len(items):
        it = items[i]
        if isinstance(it, Group):
            items = items[:i] + [Group(it.open, fold_closures(it.items, pinned, count), it.line, it.file, it.eline)] + items[i + 1:]
        elif it.text == 'let' and i + 2 < len(items):
            k = i + 1
            if isinstance(items[k], Tok) and items[k].text == 'mut':
                k += 1
            if k + 1 < len(items) and isinstance(items[k], Tok) and items[k].kind == 'id' and items[k].text not in pinned \
                    and isinstance(items[k + 1], Tok) and items[k + 1].text == '=':
                e = k + 2
                while e < len(items) and not (isinstance(items[e], Tok) and items[e].text == ';'):
                    e += 1
                lit = items[k + 2:e]
                cl = closure_literal(lit)
                name = items[k].text
                if cl is not None and not (isinstance(lit[0], Tok) and lit[0].text in ('move', '&')):
                    rest = items[e + 1:]
                    uses = count_word(rest, name)
                    if uses == 1 and sole_arg(rest, name) == 1:
                        count.append(name)
                        items = items[:i] + subst1(rest, name, lit)
                        continue
                    try:
                        c = []
                        red = inline_closure(items[i:], name, c)
                        if c and count_word(red, name) == 0:
                            count.append(name)
                            items = items[:i] + red
                            continue
                    except Lost:
                        pass
        i += 1
    return items


def split_call(items):
    """call arguments, knowing closure parameter lists"""
    out, cur, bar = [], [], False
    for it in items:
        if isinstance(it, Tok) and it.text == '|':
            bar = not bar if (bar or not [t for t in cur if not (isinstance(t, Tok) and t.text in ('&', 'move', 'mut'))]) else bar
        if isinstance(it, Tok) and it.text == ',' and not bar:
            out.append(cur)
            cur = []
            continue
        cur.append(it)
    if cur:
        out.append(cur)
    return out


def apply_closure_args(items, fparams):
    out, i = [], 0
    while i < len(items):
        it = items[i]
        if isinstance(it, Tok) and it.text in fparams and not (out and isinstance(out[-1], Tok) and out[-1].text == '.'):
            if not (i + 1 < len(items) and isinstance(items[i + 1], Group) and items[i + 1].open == '('):
                raise Lost('closure argument used as a value')
            ps, e = fparams[it.text]
            args = split_call(items[i + 1].items)
            if len(ps) != len(args):
                raise Lost('closure argument arity')
            pre = []
            pos = (it.line, it.file)
            for p, a in zip(ps, args):
                pre += [Tok('id', 'let', *pos)] + p + [Tok('op', '=', *pos)] + apply_closure_args(a, fparams) + [Tok('op', ';', *pos)]
            out.append(Group('{', pre + clone_items(e), it.line, it.file, it.line))
            i += 2
            continue
        if isinstance(it, Group):
            it = Group(it.open, apply_closure_args(it.items, fparams), it.line, it.file, it.eline)
        out.append(it)
        i += 1
    return out


def clone_items(items):
    return [Group(t.open, clone_items(t.items), t.line, t.file, t.eline) if isinstance(t, Group) else Tok(t.kind, t.text, t.line, t.file) for t in items]


# ---------------------------------------------------------------- unit files
def lit_chars(t):
    """characters of a string literal token, or None"""
    m = re.match(r'r(#*)"(.*)"\1$', t, re.S)
    if m:
        return m.group(2)
    if not (t.startswith('"') and t.endswith('"')):
        return None
    s, out, i = t[1:-1], '', 0
    ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}
    while i < len(s):
        if s[i] != '\\':
            out += s[i]
            i += 1
        elif s[i + 1] in ESC:
            out += ESC[s[i + 1]]
            i += 2
        elif s[i + 1] == 'x':
            out += chr(int(s[i + 2:i + 4], 16))
            i += 4
        elif s[i + 1] == 'u':
            j = s.index('}', i)
            out += chr(int(s[i + 3:j].replace('_', ''), 16))
            i = j + 1
        elif s[i + 1] == '\n':
            i += 2
            while i < len(s) and s[i].isspace():
                i += 1
        else:
            return None
    return out


def lit_token(s):
    return Tok('str', '"' + ''.join({'\\': '\\\\', '"': '\\"', '\n': '\\n', '\t': '\\t', '\r': '\\r'}.get(c, c) for c in s) + '"')


FMT_SPEC = {'.': 'd', '?': 'q', '+': 'p', '#': 'h', '<': 'l', '>': 'r', '^': 'c'}


def format_pieces(args):
    """arguments of format_args! -> list of ('lit', str) | ('arg', spec, tokens); None if not understood"""
    parts = split_args(args)
    if not parts or len(parts[0]) != 1 or not isinstance(parts[0][0], Tok):
        return None
    fs = lit_chars(parts[0][0].text)
    if fs is None:
        return None
    pos, named = [], {}
    for a in parts[1:]:
        if len(a) > 2 and isinstance(a[0], Tok) and a[0].kind == 'id' and isinstance(a[1], Tok) and a[1].text == '=':
            named[a[0].text] = a[2:]
        elif a:
            pos.append(a)
    out, cur, i, nxt = [], '', 0, 0
    while i < len(fs):
        if fs[i] in '{}' and i + 1 < len(fs) and fs[i + 1] == fs[i]:
            cur += fs[i]
            i += 2
        elif fs[i] == '{':
            j = fs.index('}', i)
            name, _, spec = fs[i + 1:j].partition(':')
            if '$' in spec or '*' in spec:
                return None
            if name == '':
                if nxt >= len(pos):
                    return None
                a = pos[nxt]
                nxt += 1
            elif name.isdigit():
                a = pos[int(name)]
            else:
                a = named.get(name, [Tok('id', name)])
            if cur:
                out.append(('lit', cur))
            cur = ''
            out.append(('arg', ''.join(FMT_SPEC.get(c, c) for c in spec), a))
            i = j + 1
        else:
            cur += fs[i]
            i += 1
    if cur:
        out.append(('lit', cur))
    return out


def format_block(pieces, newline, sink):
    """block expression that builds the text piece by piece; `sink`: tokens applied to the text (println)"""
    b = parse('let mut vx_f = String::new();')
    for p in pieces + ([('lit', '\n')] if newline else []):
        if p[0] == 'lit':
            b += parse('vx_f.push_str') + [Group('(', [lit_token(p[1])]), Tok('op', ';')]
        else:
            fn = 'vx_show' + ('_' + p[1] if p[1] else '')
            b += [Tok('id', fn), Group('(', parse('&mut vx_f, &') + [Group('(', list(p[2]))]), Tok('op', ';')]
    if sink:
        b += parse(sink)
    else:
        b += parse('vx_f')
    return Group('{', b)


def desugar_formats(items, count):
    out, i = [], 0
    while i < len(items):
        it = items[i]
        if isinstance(it, Tok) and it.text in ('format', 'println', 'print') and i + 2 < len(items) and isinstance(items[i + 1], Tok) \
                and items[i + 1].text == '!' and isinstance(items[i + 2], Group):
            g = items[i + 2]
            pc = format_pieces(g.items) if g.items or it.text == 'format' else []
            if pc is not None:
                pc = [x if x[0] == 'lit' else (x[0], x[1], desugar_formats(x[2], count)) for x in pc]
                count.append(1)
                blk = format_block(pc, it.text == 'println', None if it.text == 'format' else 'vx_print(vx_f.as_str());')
                if it.text == 'format':
                    out.append(blk)
                else:
                    out.append(blk)
                i += 3
                continue
        if ROWS and isinstance(it, Tok) and it.text == 'row' and i + 2 < len(items) and isinstance(items[i + 1], Tok) \
                and items[i + 1].text == '!' and isinstance(items[i + 2], Group):
            blk = parse('Row::vx_empty()')
            for a in split_args(items[i + 2].items):
                blk += parse('.vx_with') + [Group('(', parse('&') + [Group('(', desugar_formats(a, count))])]
            count.append(1)
            out.append(Group('(', blk))
            i += 3
            continue
        if isinstance(it, Tok) and it.text in ('write', 'writeln') and i + 2 < len(items) and isinstance(items[i + 1], Tok) \
                and items[i + 1].text == '!' and isinstance(items[i + 2], Group):
            parts = split_args(items[i + 2].items)
            rest = items[i + 2].items[len(parts[0]) + 1:] if parts else []
            pc = (format_pieces(rest) if rest else []) if parts else None
            if pc is not None:
                pc = [x if x[0] == 'lit' else (x[0], x[1], desugar_formats(x[2], count)) for x in pc]
                count.append(1)
                blk = format_block(pc, it.text == 'writeln', None)
                blk = Group('{', parse('let vx_t = ') + [blk, Tok('op', ';')] + list(parts[0]) + parse('.vx_write_text(vx_t.as_str())'))
                # in parentheses: `?` and method calls may follow
                out.append(Group('(', [blk]))
                i += 3
                continue
        if isinstance(it, Group):
            it = Group(it.open, desugar_formats(it.items, count), it.line, it.file, it.eline)
        out.append(it)
        i += 1
    return out


def json_value(toks):
    """tokens of a json! value -> expression tokens; None if not understood"""
    if len(toks) == 1 and isinstance(toks[0], Group) and toks[0].open == '{':
        b = parse('let mut vx_j = vx_obj_new();')
        for e in split_args(toks[0].items):
            if not e:
                continue
            if len(e) < 3 or not isinstance(e[0], Tok) or e[0].kind != 'str' or not isinstance(e[1], Tok) or e[1].text != ':':
                return None
            v = json_value(e[2:])
            if v is None:
                return None
            b += [Group('{', parse('let vx_v =') + v + [Tok('op', ';')] + parse('vx_obj_put') + [Group('(', parse('&mut vx_j,') + [e[0]] + parse(', vx_v'))] + [Tok('op', ';')])]
        return [Group('{', b + parse('vx_j'))]
    if len(toks) == 1 and isinstance(toks[0], Group) and toks[0].open == '[':
        return None
    return parse('vx_js') + [Group('(', [Tok('op', '&'), Group('(', list(toks))])]


def desugar_json(items, count):
    out, i = [], 0
    while i < len(items):
        it = items[i]
        if isinstance(it, Tok) and it.text == 'json' and i + 2 < len(items) and isinstance(items[i + 1], Tok) and items[i + 1].text == '!' and isinstance(items[i + 2], Group):
            v = json_value(items[i + 2].items)
            if v is not None:
                count.append(1)
                out += v
                i += 3
                continue
        if isinstance(it, Group):
            it = Group(it.open, desugar_json(it.items, count), it.line, it.file, it.eline)
        out.append(it)
        i += 1
    return out


def serde_attrs(toks):
    """-> ({option: literal text | None}, rest) of leading attributes"""
    o, i = {}, 0
    while i + 1 < len(toks) and isinstance(toks[i], Tok) and toks[i].text == '#' and isinstance(toks[i + 1], Group):
        g = toks[i + 1].items
        if g and isinstance(g[0], Tok) and g[0].text == 'serde':
            for a in split_args(g[1].items):
                if len(a) == 3 and isinstance(a[2], Tok) and a[2].kind == 'str':
                    o[a[0].text] = lit_chars(a[2].text)
                elif a:
                    o[a[0].text] = None
        i += 2
    return o, toks[i:]


def derive_serialize(toks, alias=''):
    """what #[derive(Serialize)] makes of the type: the impl of VxSer as text"""
    o, rest = serde_attrs(toks)
    if o:
        raise Lost('serde container attribute')
    rest = strip_pub(rest)
    kind, name, body = rest[0].text, rest[1].text, rest[-1]
    if not isinstance(body, Group) or body.open != '{':
        raise Lost('derive(Serialize) on this shape')
    fs, ok = [], ['true']
    name = alias or name
    for f in split_commas(body.items):
        if not f:
            continue
        o, f = serde_attrs(f)
        if not set(o) <= {'rename', 'serialize_with'} or None in o.values():
            raise Lost('serde attribute')
        f = strip_pub(f)
        n = f[0].text
        key = lit_token(o.get('rename', n)).text
        if kind == 'enum':
            if len(f) != 1:
                raise Lost('derive(Serialize) on a variant with data')
            fs.append('%s::%s => Js::Text(%s@),' % (name, n, key))
        else:
            v = '%s_js(self.%s)' % (o['serialize_with'], n) if 'serialize_with' in o else 'self.%s.ser()' % n
            fs.append('.insert(%s@, %s)' % (key, v))
            ok.append('%s_ok(self.%s)' % (o['serialize_with'], n) if 'serialize_with' in o else 'self.%s.can()' % n)
    e = 'match *self { %s }' % ' '.join(fs) if kind == 'enum' else 'Js::Obj(Map::<Seq<char>, Js>::empty()%s)' % ''.join(fs)
    return 'impl VxSer for %s { open spec fn ser(&self) -> Js { %s } open spec fn can(&self) -> bool { %s } }' % (name, e, ' && '.join(ok))


class Block:
    def __init__(self, file, path, lineno):
        self.file, self.path, self.lineno = file, path, lineno
        self.sec = []  # (kind, arg, text)


def read_unit(path, seen=None):
    """-> list of ('text', str) | ('block', Block) | ('grw', pat, rep)"""
    out = []
    cur, sec, buf = None, None, []
    text_buf = []

    def flush_text():
        if text_buf:
            out.append(('text', '\n'.join(text_buf)))
            text_buf.clear()
    for ln, line in enumerate(open(path, encoding='utf-8').read().split('\n'), 1):
        s = line.strip()
        if s.startswith('//@'):
            d = s[3:].strip()
            kw, _, arg = d.partition(' ')
            if kw == 'include':
                flush_text()
                inc, _, how = arg.strip().partition(' ')
                ps = read_unit(os.path.join(os.path.dirname(path), inc))
                if how.startswith('contracts'):
                    # callees: only their contracts, which the named unit proves
                    for q in ps:
                        if q[0] == 'block':
                            q[1].contract = how.split()[1]
                    ps = [('text', re.sub(r'^(pub )?proof fn ', lambda m: '#[verifier::external_body] /* contract proved in unit %s */ %s'
                                          % (how.split()[1], m.group(0)), q[1], flags=re.M)) if q[0] == 'text' else q for q in ps]
                out += ps
            elif kw == 'target':
                pass
            elif kw == 'item':
                flush_text()
                f, _, p = arg.partition('::')
                parts = [x.strip() for x in arg.split(' :: ')]
                cur = Block(parts[0], parts[1:], ln)
                sec = None
            elif kw == 'guard':
                flush_text()
                a, b_, c_ = arg.split('==>')
                out.append(('guard', parse_pat(a), parse_pat(b_), parse_pat(c_), arg))
            elif kw == 'formats':
                out.append(('formats',))
            elif kw == 'rows':
                out.append(('rows',))
            elif kw == 'json':
                out.append(('json',))
            elif kw in ('grw', 'grw!'):
                flush_text()
                a, _, b = arg.partition('==>')
                out.append((kw, parse_pat(a), parse_pat(b), arg))
            elif kw == 'end':
                out.append(('block', cur))
                cur = None
            elif cur is not None:
                sec = [kw, arg, []]
                cur.sec.append(sec)
            else:
                raise SystemExit('bad directive %s:%d: %s' % (path, ln, s))
        elif cur is not None:
            if sec is not None:
                sec[2].append(line)
        else:
            text_buf.append(line)
    flush_text()
    return out


PINS = os.path.join(ROOT, 'specs', 'pins.json')


def load_pins():
    try:
        return json.load(open(PINS))
    except OSError:
        return {}


def rename_words(s, ren):
    if not ren:
        return s
    return re.sub(r'(?<![\w.])([A-Za-z_]\w*)\b', lambda m: ren.get(m.group(1), m.group(1)), s)


class UnitResult:
    def __init__(self):
        self.text, self.map = '', {}
        self.fns = []          # dicts: name, file, line, has_contract, probes
        self.rewrites = []
        self.notes = []        # structural changes: make a failure inconclusive
        self.lost = []
        self.pins = {}
        self.surface = []      # what was added to or removed from the types of the unit outside the extracted items
        self.probes = 0


def is_loop_ann(p):
    return p.text.lstrip().startswith(('invariant', 'decreases', 'ensures'))


def stmt_bounds(items, a, b):
    """statement containing items[a:b] -> (start, end) indexes in items"""
    s = a
    while s > 0:
        p = items[s - 1]
        if isinstance(p, Tok) and p.text == ';':
            break
        if isinstance(p, Tok) and p.kind == 'raw' and not is_loop_ann(p):
            break
        if isinstance(p, Group) and p.open == '{':
            # end of a block statement, unless the statement continues (e.g. `= match x {..} ;`)
            if s < len(items) and not (isinstance(items[s], Tok) and items[s].text in ('.', '?', 'else', '=')):
                break
        s -= 1
    e = b
    while e < len(items):
        t = items[e - 1]
        if isinstance(t, Tok) and t.text == ';':
            break
        nxt = items[e]
        if isinstance(t, Group) and t.open == '{' and (items[s] is t or isinstance(items[s], Tok) and items[s].text in ('while', 'for', 'loop', 'if', 'match')) \
                and not (isinstance(nxt, Tok) and nxt.text in ('else', '.', '?')):
            break
        e += 1
    return s, e


def insert_stmt(items, pat, raw, where, done):
    """insert raw token before/after the (first) statement matching pat"""
    for i in range(len(items)):
        for e, env in match_seq(pat, 0, items, i, {}):
            if e > i:
                s, en = stmt_bounds(items, i, e)
                t = Tok('raw', subst_raw(raw, env))
                if where == 'before':
                    k = s
                else:
                    k = en
                done.append(1)
                return items[:k] + [t] + items[k:]
        it = items[i]
        if isinstance(it, Group):
            new = insert_stmt(it.items, pat, raw, where, done)
            if done:
                return items[:i] + [Group(it.open, new, it.line, it.file, it.eline)] + items[i + 1:]
    return items


def insert_all(items, pat, raw, where, done):
    """insert raw before/after every statement (at its own block level) matching pat"""
    items = [Group(x.open, insert_all(x.items, pat, raw, where, done), x.line, x.file, x.eline) if isinstance(x, Group) else x for x in items]
    out, i = list(items), 0
    while i < len(out):
        hit = None
        for e, env in match_seq(pat, 0, out, i, {}):
            if e > i:
                hit = (e, env)
                break
        if hit:
            s, en = stmt_bounds(out, i, hit[0])
            done.append(1)
            t = Tok('raw', subst_raw(raw, hit[1]))
            k = s if where == 'before' else en
            out = out[:k] + [t] + out[k:]
            i = en + 1
        else:
            i += 1
    return out


def subst_raw(raw, env):
    return re.sub(r'\$+([a-z][a-z0-9_]*)', lambda m: text(env[m.group(1)]) if m.group(1) in env else m.group(0), raw)


GUARDS = []
FORMATS = []
ROWS = []
JSON = []


def elaborate_guards(items, gc):
    """make the end of a lock guard's scope explicit (the guard's destructor)"""
    i = 0
    while i < len(items):
        it = items[i]
        if isinstance(it, Tok) and it.text == 'let':
            k = i + 1
            if k < len(items) and isinstance(items[k], Tok) and items[k].text == 'mut':
                k += 1
            if k + 1 < len(items) and isinstance(items[k], Tok) and items[k].kind == 'id' and isinstance(items[k + 1], Tok) and items[k + 1].text == '=':
                e = k + 2
                while e < len(items) and not (isinstance(items[e], Tok) and items[e].text == ';'):
                    e += 1
                rhs = items[k + 2:e]
                for pat, rep, rel, src in GUARDS:
                    hit = None
                    for end, env in match_seq(pat, 0, rhs, 0, {}):
                        if end == len(rhs):
                            hit = env
                            break
                    if hit is None:
                        continue
                    gc[0] += 1
                    name = items[k].text
                    g = 'vx_guard_%d' % gc[0]
                    rest = items[e + 1:]
                    rest = rename_until_shadow(rest, name, g)
                    rest = elaborate_guards(rest, gc)
                    env = dict(hit)
                    env['g'] = [Tok('id', g)]
                    pos = (it.line, it.file)
                    release = subst(rel, env, pos)
                    if name == '_':
                        # `let _ = guard;` drops it at once
                        rest = release + elaborate_guards(items[e + 1:], gc)
                    elif not (rest and text(rest) == g):
                        rest = add_release(rest, g, release, gc, True)
                    return items[:i] + [Tok('id', 'let', *pos), Tok('id', 'mut', *pos), Tok('id', g, *pos), Tok('op', '=', *pos)] + subst(rep, env, pos) + [Tok('op', ';', *pos)] + rest
        if isinstance(it, Group):
            items = items[:i] + [Group(it.open, elaborate_guards(it.items, gc), it.line, it.file, it.eline)] + items[i + 1:]
        i += 1
    return items


def rename_until_shadow(items, a, b):
    out, i, shadow = [], 0, False
    while i < len(items):
        it = items[i]
        if not shadow and isinstance(it, Tok) and it.text == 'let':
            k = i + 1
            if k < len(items) and isinstance(items[k], Tok) and items[k].text == 'mut':
                k += 1
            if k < len(items) and isinstance(items[k], Tok) and items[k].text == a:
                shadow = True
                # the binding itself keeps its name; the initialiser still sees the guard
                out += items[i:k + 1]
                i = k + 1
                while i < len(items) and not (isinstance(items[i], Tok) and items[i].text == ';'):
                    out.append(ren_item(items[i], a, b))
                    i += 1
                out += items[i:]
                return out
        out.append(ren_item(it, a, b))
        i += 1
    return out


def ren_item(it, a, b):
    if isinstance(it, Group):
        return Group(it.open, rename_until_shadow(it.items, a, b), it.line, it.file, it.eline)
    if it.kind == 'id' and it.text == a:
        return Tok('id', b, it.line, it.file)
    return it


def tail_start(body):
    """index of the tail expression of a block, or None"""
    if not body:
        return None
    last = body[-1]
    if isinstance(last, Tok) and (last.text == ';' or last.kind == 'raw'):
        return None
    s, e = stmt_bounds(body, len(body) - 1, len(body))
    if isinstance(body[s], Tok) and body[s].text in ('while', 'for'):
        return None
    return s


def add_release(items, g, release, gc, top):
    out, i = [], 0
    n = len(items)

    def drop_at(i):
        if isinstance(items[i], Tok) and items[i].text in ('drop', 'mem', 'std', 'core'):
            k = i
            while k < n and isinstance(items[k], Tok) and items[k].text in ('std', 'core', 'mem', '::'):
                k += 1
            if k + 2 < n and isinstance(items[k], Tok) and items[k].text == 'drop' and isinstance(items[k + 1], Group) and text(items[k + 1].items) == g \
                    and isinstance(items[k + 2], Tok) and items[k + 2].text == ';':
                return k + 3
        return None
    while i < n:
        it = items[i]
        d = drop_at(i)
        if d:
            if top:
                return out + release + items[d:]
            raise Lost('conditional drop of a lock guard')
        if isinstance(it, Tok) and it.text == 'return':
            e = i + 1
            while e < n and not (isinstance(items[e], Tok) and items[e].text in (';', ',')):
                e += 1
            x = items[i + 1:e]
            gc[0] += 1
            r = Tok('id', 'vx_r_%d' % gc[0], it.line, it.file)
            if x:
                blk = [Tok('id', 'let', it.line, it.file), r, Tok('op', '=')] + x + [Tok('op', ';')] + release + [Tok('id', 'return', it.line, it.file), r, Tok('op', ';')]
            else:
                blk = release + [Tok('id', 'return', it.line, it.file), Tok('op', ';')]
            out.append(Group('{', blk, it.line, it.file, it.line))
            i = e
            continue
        if isinstance(it, Tok) and it.text == '?':
            s, e = stmt_bounds(items, i, i + 1)
            if e == i + 2 and not (isinstance(items[s], Tok) and items[s].text in ('let', 'return')):
                x = out[len(out) - (i - s):]
                out = out[:len(out) - (i - s)]
                gc[0] += 1
                r = Tok('id', 'vx_r_%d' % gc[0], it.line, it.file)
                out.append(Group('{', [Tok('id', 'let', it.line, it.file), r, Tok('op', '=')] + x + [Tok('op', ';'), Tok('id', 'if', it.line, it.file), r] +
                                 parse('.is_err()') + [Group('{', release + [Tok('id', 'return', it.line, it.file), r, Tok('op', ';')], it.line, it.file, it.line)], it.line, it.file, it.line))
                i = e
                continue
            raise Lost('`?` inside an expression while a lock guard is live')
        if isinstance(it, Group):
            it = Group(it.open, add_release(it.items, g, release, gc, False), it.line, it.file, it.eline)
        out.append(it)
        i += 1
    if top:
        t = tail_start(out)
        if t is None:
            # a diverging last statement (return) already released
            if out and isinstance(out[-1], Tok) and out[-1].text == ';' and len(out) > 1 and isinstance(out[-2], Group) and 'return' in text(out[-2].items).split():
                return out
            return out + release
        gc[0] += 1
        r = Tok('id', 'vx_r_%d' % gc[0])
        return out[:t] + [Tok('id', 'let'), r, Tok('op', '=')] + out[t:] + [Tok('op', ';')] + release + [r]
    return out


def build_unit(path, probes=False, pin=False):
    pins = load_pins()
    unit = os.path.basename(path)[:-3]
    # //@target big: the code that a big-endian machine runs
    big = any(l.strip() == '//@target big' for l in open(path))
    if big != BIG[0]:
        BIG[0] = big
        _files.clear()
    parts = read_unit(path)
    res = UnitResult()
    R = Renderer()
    grw = []
    GUARDS.clear()
    FORMATS.clear()
    ROWS.clear()
    JSON.clear()
    # names defined in the unit
    known = set()
    texts = []
    for p in parts:
        if p[0] == 'text':
            texts.append(p[1])
            known.update(re.findall(r'\bfn\s+([A-Za-z_]\w*)', p[1]))
            known.update(re.findall(r'\bconst\s+([A-Z_]\w*)', p[1]))
        elif p[0] == 'block':
            m = p[1].path[-1].split()
            known.add(m[-1])
            for s in p[1].sec:
                if s[0] == 'inline':
                    known.discard(m[-1])
    probe_id = [0]
    for p in parts:
        if p[0] == 'text':
            R.raw(p[1])
            continue
        if p[0] == 'formats':
            FORMATS.append(1)
            continue
        if p[0] == 'rows':
            ROWS.append(1)
            continue
        if p[0] == 'json':
            JSON.append(1)
            continue
        if p[0] == 'guard':
            GUARDS.append(p[1:])
            continue
        if p[0] in ('grw', 'grw!'):
            grw.append((p[1], p[2], p[3], p[0] == 'grw!'))
            continue
        b = p[1]
        try:
            emit_block(b, unit, grw, known, R, res, pins, probes, probe_id)
        except Lost as e:
            res.lost.append('%s :: %s: %s' % (b.file, ' :: '.join(b.path), e))
    types = {}
    for p in parts:
        if p[0] == 'block':
            types.setdefault(p[1].file, set()).update(x for seg in p[1].path if seg.split()[0] in ('struct', 'enum', 'impl') for x in re.findall(r"(?<!')\b[A-Z]\w+", seg))
    for f in sorted(types):
        try:
            now = {k: list(v) for k, v in surface(load(f)).items()}
        except Lost:
            continue
        res.pins['surface|' + f] = now
        old = pins.get('surface|' + f)
        if old is None:
            continue
        for k in sorted(set(now) | set(old)):
            a, c = old.get(k), now.get(k)
            if a != c and types[f] & set((a or c)[0]):
                res.surface.append('%s: %s: %s' % (f, k, 'added' if a is None else 'removed' if c is None else 'now has "%s" instead of "%s"' % (c[1], a[1])))
    R.nl()
    res.text = '\n'.join(R.lines) + '\n'
    res.map = R.map
    res.probes = probe_id[0]
    return res


def strip_pub(items):
    out, i = [], 0
    while i < len(items):
        if isinstance(items[i], Tok) and items[i].text == 'pub':
            i += 1
            if i < len(items) and isinstance(items[i], Group) and items[i].open == '(' and text(items[i].items) in ('crate', 'super', 'self'):
                i += 1
            continue
        out.append(items[i])
        i += 1
    return out


def widen(items, kind):
    """visibility markers are not part of the semantics: everything is made `pub`"""
    items = strip_pub(items)
    if kind in ('struct',):
        out = []
        for it in items:
            if isinstance(it, Group) and it.open in '({':
                f = []
                for x in split_commas(it.items):
                    f += [Tok('id', 'pub')] + strip_pub(x) + [Tok('op', ',')]
                it = Group(it.open, f, it.line, it.file, it.eline)
            out.append(it)
        items = out
    return [Tok('id', 'pub')] + items


def emit_block(b, unit, grw, known, R, res, pins, probes, probe_id):
    file_items = load(b.file)
    toks = find_item(file_items, b.path)
    kind = b.path[-1].split()[0].replace('closure', 'fn')
    key = '%s|%s|%s' % (unit, b.file, ' :: '.join(b.path))
    opts = {}
    for s in b.sec:
        opts.setdefault(s[0], []).append((s[1], '\n'.join(s[2]).strip('\n')))
    body_rw = []
    for s in b.sec:
        if s[0] in ('rw', 'rw!'):
            a, _, r = s[1].partition('==>')
            body_rw.append((parse_pat(a), parse_pat(r), s[1], s[0] == 'rw!'))
    last_rw = []
    for s in b.sec:
        if s[0] == 'rwlast':
            a, _, r = s[1].partition('==>')
            last_rw.append((parse_pat(a), parse_pat(r), s[1], False))
    R.nl()
    if 'derive' in opts:
        R.raw('#[derive(%s)]' % opts['derive'][0][0])
    for a, _ in opts.get('attr', []):
        R.raw(a)
    if kind != 'fn':
        t = strip_attrs(toks)
        for pat, rep, src, frsh in body_rw + grw:
            c = []
            t = rewrite(t, pat, rep, c)
        if kind == 'const' and 'spec' not in opts:
            pass
        R.items(widen(t, kind))
        R.nl()
        if 'serialize' in opts:
            R.raw(derive_serialize(toks, opts['serialize'][0][0].strip()))
            R.nl()
            res.rewrites.append({'fn': b.path[-1], 'rule': 'derive(Serialize): field names and serialize_with taken from the serde attributes', 'sites': 1})
        res.pins[key] = {'text': text(t)}
        old = pins.get(key)
        if old and old.get('text') != text(t):
            res.notes.append('definition changed: ' + ' :: '.join(b.path))
        return
    fn = Fn(strip_noops(strip_attrs(toks)))
    by = getattr(b, 'contract', None)
    if by:
        fn.body = Group('{', [], fn.body.line, fn.body.file, fn.body.eline)
        opts = {k: v for k, v in opts.items() if k in ('ret', 'spec', 'params', 'where', 'generics', 'retty', 'name', 'nopub', 'derive', 'attr')}
        body_rw, last_rw, probes = [], [], False
        opts['spec'] = [(a, re.sub(r'//#[^\n]*', '', re.sub(r'(?m)^\s*decreases[^\n]*', '', x))) for a, x in opts.get('spec', [])]
        R.raw('#[verifier::external_body] /* contract proved in unit %s */' % by)
    line = next((t.line for t in flat(fn.items) if t.line), 0)
    # alpha-renaming of annotations
    bs = bindings(fn)
    loops = find_loops(fn.body.items)
    shape = [text(c[i:i + 1]) for c, i, j in loops]
    heads = [text(c[i:j]) for c, i, j in loops]
    if not by:
        res.pins[key] = {'bindings': bs, 'loops': shape, 'body': text(fn.body.items)}
    old = pins.get(key) if not by else None
    ren = {}
    changed = False
    if old:
        changed = old.get('body') != text(fn.body.items)
        ob = old['bindings']
        if ob != bs:
            if len(ob) == len(bs):
                ren = {a: c for a, c in zip(ob, bs) if a != c}
                # only a consistent, injective renaming
                if any(ren.get(a, a) != c for a, c in zip(ob, bs)) or len(set(bs)) != len(set(ob)):
                    ren = {}
                    res.notes.append('%s: bindings changed' % fn.name)
            else:
                sm = difflib.SequenceMatcher(None, ob, bs)
                for op, i1, i2, j1, j2 in sm.get_opcodes():
                    if op == 'replace' and i2 - i1 == j2 - j1:
                        for a, c in zip(ob[i1:i2], bs[j1:j2]):
                            ren[a] = c
        if old['loops'] != shape:
            res.notes.append('%s: loop structure changed' % fn.name)

    def T(s):
        return rename_words(s, ren)
    body = fn.body.items
    # helper inlining
    fns = source_fns(file_items)
    ctx = None
    for seg in b.path[:-1]:
        if seg.startswith('impl'):
            ctx = norm_impl(parse(seg))
    notes = []
    body = inline_helpers(body, fns, known, ctx, notes)
    for n in notes:
        res.notes.append('%s: %s' % (fn.name, n))
    for a, _ in opts.get('inlineclosure', []):
        c = []
        body = inline_closure(body, a.strip(), c)
        if c:
            res.rewrites.append({'fn': fn.name, 'rule': 'local closure `%s` (and the closure literals passed to it) beta-reduced at its calls' % a.strip(), 'sites': len(c)})
    if changed:
        c = []
        body = fold_closures(body, set(old['bindings']), c)
        if c:
            res.rewrites.append({'fn': fn.name, 'rule': 'new local closure put into its place of use: ' + ', '.join(c), 'sites': len(c)})
    if FORMATS:
        c = []
        body = desugar_formats(body, c)
        if c:
            res.rewrites.append({'fn': fn.name, 'rule': 'format! / println! expanded into its pieces', 'sites': len(c)})
    if JSON:
        c = []
        body = desugar_json(body, c)
        if c:
            res.rewrites.append({'fn': fn.name, 'rule': 'json! objects expanded into insertions', 'sites': len(c)})
    if GUARDS:
        gc = [0]
        body = elaborate_guards(body, gc)
        if gc[0]:
            res.rewrites.append({'fn': fn.name, 'rule': 'lock guards: explicit release at the end of the guard\'s scope', 'sites': gc[0]})
    # auto-include constants
    consts = {}
    for t in flat(body):
        if t.kind == 'id' and re.fullmatch(r'[A-Z][A-Z0-9_]+', t.text) and t.text not in known:
            try:
                ci = find_item(file_items, ['const ' + t.text])
                consts[t.text] = ci
            except Lost:
                pass
    # loops: attach invariants before rewriting (ordinals refer to the source), as raw tokens
    fnloops = find_loops(body)
    loopspec = {}
    for k in ('loop', 'loopstart', 'loopend', 'loopattr', 'loopbind', 'afterloop'):
        for a, t in opts.get(k, []):
            loopspec.setdefault(int(a.split()[0]), {})[k] = (a, T(t))
    for n in range(len(fnloops) - 1, -1, -1):
        cont, i, j = fnloops[n]
        sp = loopspec.get(n, {})
        bodyg = cont[j]
        new = list(bodyg.items)
        if 'loopstart' in sp:
            new = [Tok('raw', sp['loopstart'][1])] + new
        if probes == 'rest':
            new = [probe_tok(probe_id, fn.name, 'loop %d' % n, res)] + new
        if 'loopend' in sp:
            # must stay before a trailing expression; loops have unit bodies
            if new and not (isinstance(new[-1], Tok) and new[-1].text in (';',)) and not isinstance(new[-1], Group) and not (isinstance(new[-1], Tok) and new[-1].kind == 'raw'):
                new.append(Tok('op', ';'))
            elif new and isinstance(new[-1], Group) and new[-1].open != '{':
                new.append(Tok('op', ';'))
            new = new + [Tok('raw', sp['loopend'][1])]
        cont[j] = Group('{', new, bodyg.line, bodyg.file, bodyg.eline)
        if 'afterloop' in sp:
            cont.insert(j + 1, Tok('raw', sp['afterloop'][1]))
        if 'loop' in sp:
            cont.insert(j, Tok('raw', sp['loop'][1]))
        if 'loopbind' in sp:
            # `for x in NAME: expr`
            nm = sp['loopbind'][0].split()[1]
            for q in range(i, j):
                if isinstance(cont[q], Tok) and cont[q].text == 'in':
                    cont.insert(q + 1, Tok('op', ':'))
                    cont.insert(q + 1, Tok('id', nm))
                    break
        if 'loopattr' in sp:
            cont.insert(i, Tok('raw', sp['loopattr'][0].split(' ', 1)[1]))
    # statement anchored ghost code
    for k in ('beforeall', 'afterall'):
        for a, t in opts.get(k, []):
            done = []
            body = insert_all(body, parse_pat(T(a)), T(t), k[:-3], done)
            if not done:
                res.notes.append('%s: ghost-code anchor not found: %s' % (fn.name, a))
    for k in ('before', 'after'):
        for a, t in opts.get(k, []):
            done = []
            opt = a.startswith('?')
            body2 = insert_stmt(body, parse_pat(T(a.lstrip('?'))), T(t), k, done)
            if done:
                body = body2
            elif not opt:
                res.notes.append('%s: ghost-code anchor not found: %s' % (fn.name, a))
    # rewrites
    for pat, rep, src, frsh in body_rw + grw + last_rw:
        c = []
        body = rewrite(body, pat, rep, c, [len(res.rewrites) * 100] if frsh else None)
        if c:
            res.rewrites.append({'fn': fn.name, 'rule': src.strip(), 'sites': len(c)})
    if not by:
        oc = opaque_closures(body)
        res.pins[key]['closures'] = oc
        if old and oc > old.get('closures', 0):
            res.notes.append('%s: closure without a contract' % fn.name)
    if 'start' in opts:
        body = [Tok('raw', T(t)) for a, t in opts['start']] + body
    if 'finish' in opts:
        # ghost code at the end of a unit-returning body
        if body and not (isinstance(body[-1], Tok) and body[-1].text == ';') and not (isinstance(body[-1], Group) and body[-1].open == '{'):
            body = body + [Tok('op', ';')]
        body = body + [Tok('raw', T(t)) for a, t in opts['finish']]
        if probes == 'rest':
            body = body + [probe_tok(probe_id, fn.name, 'end', res)]
    # tail: wrap the tail expression: `let r = <tail>; ghost; r`
    if 'tail' in opts:
        k = len(body)
        while k > 0:
            pt = body[k - 1]
            if isinstance(pt, Tok) and (pt.text == ';' or pt.kind == 'raw'):
                break
            if isinstance(pt, Group) and pt.open == '{' and k < len(body):
                nx = body[k]
                if not (isinstance(nx, Tok) and nx.text in ('.', '?', 'else')):
                    # ends a statement only if that statement is a block-like one
                    s0, e0 = stmt_bounds(body, k - 1, k)
                    if e0 == k:
                        break
            k -= 1
        tail = body[k:]
        if tail:
            var = opts['tail'][0][0].strip() or 'vx_ret'
            extra = [probe_tok(probe_id, fn.name, 'tail', res)] if probes == 'rest' else []
            body = body[:k] + [Tok('id', 'let'), Tok('id', var), Tok('op', '=')] + tail + [Tok('op', ';')] + \
                [Tok('raw', T(opts['tail'][0][1]))] + extra + [Tok('id', var)]
        else:
            res.notes.append('%s: no tail expression' % fn.name)
    if probes == 'entry':
        body = [probe_tok(probe_id, fn.name, 'entry', res), Tok('raw', 'vx_never()')]
    # signature
    sig_ret = fn.ret
    params = fn.params
    where, generics = fn.where, fn.generics
    pre = fn.pre
    for s in b.sec:
        if s[0] == 'rwsig':
            a, _, r = s[1].partition('==>')
            c = []
            pat, rep = parse_pat(a), parse_pat(r)
            params = rewrite([params], pat, rep, c)[0]
            sig_ret = rewrite(sig_ret, pat, rep, c)
            where = rewrite(where, pat, rep, c)
            generics = rewrite(generics, pat, rep, c)
            if not c:
                res.notes.append('%s: signature anchor not found: %s' % (fn.name, s[1]))
    for pat, rep, src, frsh in grw:
        if not frsh:
            c = []
            params = rewrite([params], pat, rep, c)[0]
            sig_ret = rewrite(sig_ret, pat, rep, c)
            where = rewrite(where, pat, rep, c)
            if c:
                res.rewrites.append({'fn': fn.name, 'rule': src.strip(), 'sites': len(c)})
    if 'params' in opts:
        params = Group('(', params.items + ([Tok('op', ',')] if params.items and not (isinstance(params.items[-1], Tok) and params.items[-1].text == ',') else []) +
                       parse(opts['params'][0][0]), params.line, params.file, params.eline)
    if 'where' in opts:
        if opts['where'][0][0].strip() == '-':
            where = []
        elif where:
            where = where + ([] if isinstance(where[-1], Tok) and where[-1].text == ',' else [Tok('op', ',')]) + parse(opts['where'][0][0])
        else:
            where = [Tok('id', 'where')] + parse(opts['where'][0][0])
    if 'generics' in opts:
        generics = parse(opts['generics'][0][0])
    if 'retty' in opts:
        sig_ret = parse(opts['retty'][0][0])
    name = opts['name'][0][0].strip() if 'name' in opts else fn.name
    if 'nopub' in opts:
        pre = [t for t in pre if not (isinstance(t, Tok) and t.text == 'pub') and not isinstance(t, Group)]
    for cn, ci in consts.items():
        # constants used but not declared by the unit: emitted as local statics of the same value
        body = strip_attrs(ci) + body
        res.notes.append('%s: constant %s taken along' % (fn.name, cn))
    if 'nopub' not in opts:
        pre = [Tok('id', 'pub', line, b.file)] + strip_pub(pre)
    line_out = len(R.lines)
    R.items(pre)
    for t in [Tok('id', 'fn', line, b.file), Tok('id', name, line, b.file)]:
        R.tok(t)
    R.items(generics)
    R.items([params])
    if sig_ret:
        if 'ret' in opts:
            R.items([Tok('op', '->')])
            R.items([Group('(', [Tok('id', opts['ret'][0][0].strip()), Tok('op', ':')] + sig_ret, line, b.file, line)])
        else:
            R.items([Tok('op', '->')] + sig_ret)
    R.items(where)
    if 'spec' in opts:
        for a, t in opts['spec']:
            R.raw(T(t))
    if by:
        R.raw('{ unimplemented!() }')
        return
    R.items([Group('{', body, fn.body.line, b.file, fn.body.eline)])
    R.nl()
    res.fns.append({'name': name, 'file': b.file, 'line': line, 'contract': 'spec' in opts, 'props': opts['props'][0][0].replace(',', ' ').split() if 'props' in opts else None, 'path': ' :: '.join(b.path),
                    'changed': changed, 'out': (line_out + 1, len(R.lines))})


def probe_tok(probe_id, fname, where, res):
    probe_id[0] += 1
    res.__dict__.setdefault('probe_list', []).append('%s: %s' % (fname, where))
    return Tok('raw', 'if vx_nondet() { assert(false); /* PROBE %d %s %s */ }' % (probe_id[0], fname, where))


if __name__ == '__main__':
    import sys
    if sys.argv[1] == 'pin':
        allp = {}
        d = os.path.join(ROOT, 'specs')
        for f in sorted(os.listdir(d)):
            if f.endswith('.vx') and not f.startswith('_'):
                r = build_unit(os.path.join(d, f))
                allp.update(r.pins)
                for l in r.lost:
                    print('LOST', f, l)
        json.dump(allp, open(PINS, 'w'), indent=1, sort_keys=True)
        print('pinned', len(allp))
    else:
        r = build_unit(sys.argv[1], probes=('rest' if '--probes' in sys.argv else 'entry' if '--entry' in sys.argv else False))
        print(r.text)
        for l in r.lost:
            print('// LOST', l, file=sys.stderr)
        for l in r.notes:
            print('// NOTE', l, file=sys.stderr)
        for l in r.rewrites:
            print('// RW', l, file=sys.stderr)
