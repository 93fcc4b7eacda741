"""Weaves contracts (../proofs/*.vc) into functions taken from /repo's current source.

The executable text is copied token for token from the repository on every run. What is left out or
rewritten is listed in `Woven.drops`; contracts, loop invariants and ghost code are inserted only at
function signatures, loop headers and statement boundaries, never inside an executable expression."""
import os
import re

TOKEN = re.compile(r'''
   (?P<ws>\s+)
 | (?P<com>//[^\n]*|/\*.*?\*/)
 | (?P<str>b?"(?:\\.|[^"\\])*"|b?r\#*".*?"\#*)
 | (?P<life>'[A-Za-z_][A-Za-z0-9_]*(?!'))
 | (?P<chr>b?'(?:\\.[^']*|[^'\\])')
 | (?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?)
 | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
 | (?P<op>::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|\|=|&=|<<=|>>=|\.\.=|\.\.|.)
''', re.X | re.S)


class Lost(Exception):
    """The source no longer has the shape the contracts are written for."""


class Tok:
    __slots__ = ('k', 's', 'pos')

    def __init__(self, k, s, pos):
        self.k, self.s, self.pos = k, s, pos

    def __repr__(self):
        return self.s


def lex(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        k = m.lastgroup
        if k not in ('ws', 'com'):
            out.append(Tok(k, m.group(), i))
        i = m.end()
    return out


OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')', ']', '}'}


def match(toks, i):
    """The index of the bracket that closes the one at i."""
    depth = 0
    for j in range(i, len(toks)):
        if toks[j].s in OPEN:
            depth += 1
        elif toks[j].s in CLOSE:
            depth -= 1
            if depth == 0:
                return j
    raise Lost('unbalanced brackets')


def skip_angle(toks, i):
    """The index after the generic arguments that start at i."""
    depth = 0
    while True:
        s = toks[i].s
        if s == '<':
            depth += 1
        elif s == '>':
            depth -= 1
        elif s == '>>':
            depth -= 2
        elif s in OPEN:
            i = match(toks, i)
        i += 1
        if depth <= 0:
            return i


class Item:
    def __init__(self, kind, name, attrs, toks):
        self.kind, self.name, self.attrs, self.toks = kind, name, attrs, toks
        self.children = []


def items(toks, within=None):
    """The items of a module, or of an impl or trait."""
    out, i, n = [], 0, len(toks)
    while i < n:
        attrs = []
        while toks[i].s == '#':
            j = i + 1
            if toks[j].s == '!':
                j += 1
            e = match(toks, j)
            attrs.append(''.join(t.s for t in toks[j + 1:e]))
            i = e + 1
            if i >= n:
                return out
        start = i
        j = i
        while toks[j].s in ('pub', 'unsafe', 'const', 'async', 'extern', 'default') and not (
                toks[j].s == 'const' and toks[j + 1].s not in ('fn', 'unsafe', 'extern')):
            j += 1
            if toks[j].s == '(' and toks[j - 1].s == 'pub':
                j = match(toks, j) + 1
            if toks[j].k == 'str':
                j += 1
        kw = toks[j].s
        if kw in ('use', 'const', 'static', 'type'):
            name = toks[j + 1].s
            if kw == 'static':
                toks = toks[:j] + [Tok('id', 'const', toks[j].pos)] + toks[j + 1:]
                kw = 'const'
            e = j
            while toks[e].s != ';':
                e = match(toks, e) + 1 if toks[e].s in OPEN else e + 1
        elif kw in ('struct', 'enum', 'union', 'trait', 'mod', 'impl', 'fn', 'macro_rules') or toks[j + 1].s == '!':
            name = toks[j + 1].s
            e = j + 1
            while toks[e].s not in ('{', ';'):
                e = match(toks, e) + 1 if toks[e].s in OPEN else e + 1
            if toks[e].s == '{':
                body = e
                e = match(toks, e)
                if kw == 'struct' and e + 1 < n and toks[e + 1].s == ';':
                    e += 1
            if kw == 'impl':
                name = impl_name(toks[j + 1:body])
        else:
            raise Lost('an item that starts with `%s`' % kw)
        item = Item(kw, name, attrs, toks[start:e + 1])
        if kw in ('impl', 'trait') and toks[e].s == '}':
            item.head = toks[start:body]
            item.children = items(toks[body + 1:e], item)
        out.append(item)
        i = e + 1
    return out


def impl_name(head):
    i = 0
    if head[0].s == '<':
        i = skip_angle(head, 0)
    text, depth = '', 0
    for t in head[i:]:
        if t.s == 'where' and depth == 0:
            break
        if t.s == '<':
            depth += 1
        if depth == 0:
            text += (' for ' if t.s == 'for' else t.s)
        if t.s == '>':
            depth -= 1
        if t.s == '>>':
            depth -= 2
    return text


def text(toks):
    """Source text for tokens; new lines after `{`, `}` and `;` so that positions say something."""
    out, line = [], ''
    for k, t in enumerate(toks):
        p = toks[k - 1] if k else None
        glue = p is None or t.s in (',', ';', ')', ']', '.', '?') or p.s in ('(', '[', '.', '!', '&') and t.k != 'op' \
            or p.s in ('(', '[') or t.s == '(' and p.k == 'id' or t.s in ('::', '!') or p.s == '::' or t.s == '<' and p.s == '::' \
            or t.s == p.s and t.s in ('<', '>') and t.pos == p.pos + 1
        line += t.s if glue else ' ' + t.s
        if t.s in ('{', '}', ';'):
            out.append(line)
            line = ''
    out.append(line)
    return '\n'.join(out)


# --- contracts ---

class Contract:
    def __init__(self, name):
        self.name, self.spec, self.parts, self.opts = name, '', [], set()


def read_contracts(path):
    """Sections `== kind argument`, within functions `-- place`."""
    unit = {'files': [], 'fns': {}, 'text': {}, 'drop': [], 'rewrites': [], 'order': [], 'options': []}
    cur = None
    with open(path) as f:
        lines = f.read().split('\n')
    sink = None
    for line in lines:
        m = re.match(r'^== (\w+) ?(.*)$', line)
        if m:
            kind, arg = m.groups()
            cur = None
            if kind == 'file':
                unit['files'].append(arg.strip())
                sink = None
            elif kind == 'fn':
                name, *opts = arg.split(' | ')
                cur = Contract(name.strip())
                cur.opts = set(opts)
                unit['fns'][cur.name] = cur
                sink = ('spec', cur)
            elif kind == 'const':
                cur = Contract(arg.strip())
                unit.setdefault('consts', {})[cur.name] = cur
                sink = ('spec', cur)
            elif kind in ('prelude', 'lemmas'):
                unit['text'].setdefault(kind, [])
                sink = ('text', unit['text'][kind])
            elif kind in ('in', 'item'):
                unit['text'].setdefault((kind, arg.strip()), [])
                sink = ('text', unit['text'][(kind, arg.strip())])
            elif kind == 'drop':
                unit['drop'].append(arg.strip())
                sink = None
            elif kind == 'keep':
                unit.setdefault('keep', []).append(arg.strip())
                sink = None
            elif kind == 'assume':
                # The contracts of another unit, whose check discharges them.
                other = read_contracts(os.path.join(os.path.dirname(path), arg.strip() + '.vc'))
                unit.setdefault('assumed', []).extend(other['files'])
                unit.setdefault('units', []).append(arg.strip())
                unit['files'] += other['files']
                for name, c in other['fns'].items():
                    c.opts |= {'external_body', 'assumed'}
                    c.parts = []
                    unit['fns'][name] = c
                for name, c in other.get('consts', {}).items():
                    unit.setdefault('consts', {})[name] = c
                for key, lines in other['text'].items():
                    # Its lemmas are discharged there, and what it keeps to itself stays closed here.
                    lines = [re.sub(r'^(\s*)((pub )?proof fn )', r'\1#[verifier::external_body] /*assumed*/ \2', l) for l in lines]
                    lines = [re.sub(r'^(\s*)((pub )?closed spec fn )', r'\1#[verifier::opaque] \2', l) for l in lines]
                    unit['text'].setdefault(key, []).extend(lines)
                for key in ('drop', 'rewrites', 'options'):
                    unit[key] += other[key]
                for key in ('ghost', 'renames'):
                    unit.setdefault(key, []).extend(other.get(key, []))
                sink = None
            elif kind == 'ghost':
                # Calls that are given the ghost state.
                unit.setdefault('ghost', []).append(arg.strip())
                sink = None
            elif kind == 'lift':
                # A closure, by the function and the variable it is in, and what it captures.
                unit.setdefault('lift', []).append(tuple(arg.strip().split(' ', 2)))
                sink = None
            elif kind == 'rename':
                # file `from` => `to` -- why
                mm = re.match(r'^(\S+) `(.*?)` => `(.*?)` -- (.*)$', arg)
                unit.setdefault('renames', []).append(mm.groups())
                sink = None
            elif kind == 'option':
                unit['options'].append(arg.strip())
                sink = None
            elif kind == 'rewrite':
                # `from` => `to` -- why
                mm = re.match(r'^`(.*?)` => `(.*?)` -- (.*)$', arg)
                unit['rewrites'].append(mm.groups())
                sink = None
            elif kind == 'note':
                sink = None
            else:
                raise ValueError(line)
            continue
        m = re.match(r'^-- (.*)$', line)
        if m and cur:
            part = [m.group(1).strip(), []]
            cur.parts.append(part)
            sink = ('text', part[1])
            continue
        if sink is None:
            continue
        if sink[0] == 'spec':
            sink[1].spec += line + '\n'
        else:
            sink[1].append(line)
    return unit


# --- weaving ---

GHOST = 'ghost'


def find(toks, pat, lo, hi, nth=1):
    p = [t.s for t in lex(pat)]
    for i in range(lo, hi - len(p) + 1):
        if [t.s for t in toks[i:i + len(p)]] == p:
            nth -= 1
            if nth == 0:
                return i
    raise Lost('no `%s`' % pat)


def statement(toks, i, lo):
    """The start of the statement token i is in."""
    depth = 0
    j = i
    while j > lo:
        s = toks[j - 1].s
        if s in (')', ']'):
            depth += 1
        elif s in ('(', '['):
            if depth == 0:
                # Inside parentheses: go on outside.
                j -= 1
                continue
            depth -= 1
        elif depth == 0 and s in (';', '{', '}', '=>'):
            return j
        j -= 1
    return j


def statement_end(toks, i, hi):
    """The index after the statement token i is in."""
    j = i
    while j < hi:
        s = toks[j].s
        if s in OPEN:
            j = match(toks, j)
            if s == '{' and (j + 1 >= hi or toks[j + 1].s not in ('else', '.', '?', ';', ',', ')')):
                return j + 1
        elif s == ';':
            return j + 1
        elif s in CLOSE:
            return j
        j += 1
    return j


def public(item):
    """A struct with everything visible: contracts of public functions speak of it."""
    toks = item.toks
    out = [t for t in toks]
    if item.kind == 'fn':
        return out
    while out[0].s == 'pub':
        out = out[match(out, 1) + 1:] if out[1].s == '(' else out[1:]
    pos = out[0].pos
    opens = next((i for i, t in enumerate(out) if t.s in ('{', '(')), None)
    if item.kind == 'struct' and opens is not None:
        b = opens
        tail = out[match(out, b):]
        body, i, fields = out[b + 1:match(out, b)], 0, []
        start = True
        while i < len(body):
            t = body[i]
            if start:
                if t.s == 'pub':
                    i = match(body, i + 1) + 1 if body[i + 1].s == '(' else i + 1
                fields.append(Tok('id', 'pub', pos))
                start = False
                continue
            if t.s in OPEN:
                e = match(body, i)
                fields += body[i:e + 1]
                i = e + 1
                continue
            if t.s == '<':
                e = skip_angle(body, i)
                fields += body[i:e]
                i = e
                continue
            fields.append(t)
            if t.s == ',':
                start = True
            i += 1
        if fields and fields[-1].s == 'pub':
            fields.pop()
        out = out[:b + 1] + fields + tail
    return [Tok('id', 'pub', pos)] + out


class Woven:
    def __init__(self):
        self.chunks = []
        self.line = 1
        self.fns = []       # (first line, last line, name, kind)
        self.drops = []
        self.where = {}     # name -> file

    def add(self, s):
        self.chunks.append(s + '\n')
        self.line += s.count('\n') + 1

    @property
    def source(self):
        return ''.join(self.chunks)


def desugar(toks, rewrites, drops):
    """Token-level rewrites, each with its reason; all occurrences."""
    for pat, to, why in rewrites:
        p, out, i, hit = [t.s for t in lex(pat)], [], 0, 0
        while i < len(toks):
            if [t.s for t in toks[i:i + len(p)]] == p:
                out += [Tok(t.k, t.s, toks[i].pos) for t in lex(to)]
                i += len(p)
                hit += 1
            else:
                out.append(toks[i])
                i += 1
        toks = out
        if hit:
            drops.add('`%s` is read as `%s`: %s' % (pat, to, why))
    return toks


KEYWORDS = {'return', 'match', 'if', 'in', 'while', 'let', 'else', 'loop', 'move', 'as', 'mut', 'ref', 'break'}
CLOSURES = {'map': ('Some({%s})', 'None'), 'and_then': ('{%s}', 'None'), 'is_some_and': ('{%s}', 'false')}


def receiver(toks, i):
    """The start of the postfix expression that ends before the `.` at i."""
    j = i
    while j > 0:
        t = toks[j - 1]
        if t.s in (')', ']', '}'):
            depth, k = 0, j - 1
            while True:
                if toks[k].s in CLOSE:
                    depth += 1
                elif toks[k].s in OPEN:
                    depth -= 1
                    if depth == 0:
                        break
                k -= 1
            if t.s == '}':
                return j
            j = k
        elif t.k in ('id', 'num', 'str') and t.s not in KEYWORDS or t.s in ('.', '::', '?'):
            j -= 1
        else:
            break
    return j


def span(toks, i):
    """The `(a..b)` that ends before i, when `.map(..).collect()` follows: where it starts, and its dots."""
    lo = receiver(toks, i)
    dots = [k for k in range(lo, i) if toks[k].s == '..']
    e = match(toks, i + 2)
    if toks[lo].s == '(' and match(toks, lo) == i - 1 and len(dots) == 1 and [x.s for x in toks[e + 1:e + 2]] == ['.'] \
            and len(toks) > e + 3 and toks[e + 2].s == 'collect':
        return lo, dots[0]


def expand(toks, drops):
    """Assertions, `ready!` and closures given to methods of Option are spelled out."""
    out = list(toks)

    def mk(s, pos):
        return [Tok(t.k, t.s, pos) for t in lex(s)]
    i, n = 0, 0
    while i < len(out):
        t = out[i]
        if t.k == 'id' and i + 2 < len(out) and out[i + 1].s == '!' and out[i + 2].s == '(':
            e = match(out, i + 2)
            a = i + 3
            while a < e and out[a].s != ',':
                a = match(out, a) + 1 if out[a].s in OPEN else a + 1
            arg = out[i + 3:a]
            if t.s in ('debug_assert', 'assert'):
                out[i:e + 1] = mk('vassert(', t.pos) + arg + mk(')', t.pos)
                drops.add('assertions must hold, in every build')
            elif t.s in ('debug_assert_eq', 'assert_eq', 'debug_assert_ne', 'assert_ne'):
                b = a + 1
                while b < e and out[b].s != ',':
                    b = match(out, b) + 1 if out[b].s in OPEN else b + 1
                out[i:e + 1] = mk('vassert(', t.pos) + arg + mk('==' if t.s.endswith('eq') else '!=', t.pos) + out[a + 1:b] + mk(')', t.pos)
                drops.add('assertions must hold, in every build')
            elif t.s == 'ready':
                out[i:e + 1] = mk('match', t.pos) + arg + mk('{ Poll::Ready(t) => t, Poll::Pending => return Poll::Pending }', t.pos)
                drops.add('ready! is spelled out')
            elif t.s == 'panic':
                out[i:e + 1] = mk('vpanic::<()>()' if out[i - 1].s in ('{', '}', ';') and out[e + 1].s == ';' else 'vpanic()', t.pos)
        elif t.s == 'use' and i and out[i - 1].s in ('{', '}', ';'):
            e = i
            while out[e].s != ';':
                e = match(out, e) + 1 if out[e].s in OPEN else e + 1
            del out[i:e + 1]
            continue
        elif t.s == '.' and [x.s for x in out[i:i + 9]] == ['.', 'iter', '(', ')', '.', 'filter', '(', '|', out[min(i + 8, len(out) - 1)].s]:
            # The elements of a slice for which a closure holds, counted.
            e = match(out, i + 6)
            if [x.s for x in out[e + 1:e + 5]] != ['.', 'count', '(', ')']:
                i += 1
                continue
            b = next(k for k in range(i + 8, e) if out[k].s == '|')
            lo = receiver(out, i)
            n += 1
            out[lo:e + 5] = (mk('{ let mut vcount%d: usize = 0; let mut vnext%d: usize = 0; while vnext%d <' % (n, n, n), t.pos) + out[lo:i]
                             + mk('.len() { let velem%d = &' % n, t.pos) + out[lo:i] + mk('[vnext%d]; let' % n, t.pos) + out[i + 8:b]
                             + mk('= &velem%d; if' % n, t.pos) + mk('{', t.pos) + out[b + 1:e]
                             + mk('} { vcount%d += 1; } vnext%d += 1; } vcount%d }' % (n, n, n), t.pos))
            drops.add('the elements of a slice that pass a filter, counted: the loop that counts them')
            i = lo
            continue
        elif t.s == 'for' and i and out[i - 1].s in ('{', '}', ';') and out[i + 1].s == '(':
            # The elements of a slice, numbered.
            p = match(out, i + 1)
            b = p + 2
            while out[b].s != '{':
                b = match(out, b) + 1 if out[b].s in OPEN else b + 1
            c = i + 2
            while out[c].s != ',':
                c = match(out, c) + 1 if out[c].s in OPEN else c + 1
            if [x.s for x in out[b - 8:b]] != ['.', 'iter', '(', ')', '.', 'enumerate', '(', ')']:
                i += 1
                continue
            n += 1
            recv = out[p + 2:b - 8]
            ref = 0 if out[c + 1].s == '&' and out[c + 2].s != 'mut' else 1
            out[i:b + 1] = (mk('let mut vnext%d: usize = 0; while vnext%d <' % (n, n), t.pos) + recv + mk('.len() { let', t.pos) + out[i + 2:c]
                            + mk('= vnext%d; let' % n, t.pos) + out[c + 2 - ref:p] + mk('= &' if ref else '=', t.pos) + recv + mk('[vnext%d]; vnext%d += 1;' % (n, n), t.pos))
            drops.add('a loop over the numbered elements of a slice is spelled out')
            continue
        elif t.s == '.' and out[i - 1].s == ')' and [x.s for x in out[i + 1:i + 3]] == ['map', '('] and span(out, i):
            # The iterator of a range, mapped and collected.
            lo, dots = span(out, i)
            e = match(out, i + 2)
            c = match(out, e + 3 if out[e + 3].s == '(' else skip_angle(out, e + 4))
            n += 1
            f, v = out[i + 3:e], 'vnext%d' % n
            if f[0].s == '|':
                b = next(k for k in range(1, len(f)) if f[k].s == '|')
                call = mk('{ let', t.pos) + f[1:b] + mk('= %s;' % v, t.pos) + f[b + 1:] + mk('}', t.pos)
            else:
                call = f + mk('(%s)' % v, t.pos)
            out[lo:c + 1] = (mk('{ let mut vall%d = Vec::new(); let mut %s =' % (n, v), t.pos) + out[lo + 1:dots] + mk('; while %s <' % v, t.pos) + out[dots + 1:i - 1]
                             + mk('{ let vitem%d =' % n, t.pos) + call + mk('; vall%d.push(vitem%d); %s += 1; } vall%d }' % (n, n, v, n), t.pos))
            drops.add('a range that is mapped and collected: the loop that collects it')
            i = lo
            continue
        elif t.s == '.' and i + 4 < len(out) and out[i + 1].s in CLOSURES and out[i + 2].s == '(' and out[i + 3].s == '|':
            e = match(out, i + 2)
            b = i + 4
            while out[b].s != '|':
                b += 1
            pat, body = out[i + 4:b], out[b + 1:e]
            some, none = CLOSURES[out[i + 1].s]
            pre, post = some.split('%s')
            lo = receiver(out, i)
            new = mk('match', t.pos) + out[lo:i] + mk('{ Some(', t.pos) + pat + mk(') => ' + pre, t.pos) + body + mk(post + ', None => ' + none + ' }', t.pos)
            if i > 0 and e + 1 < len(out) and out[e + 1].s == '.':
                new = mk('(', t.pos) + new + mk(')', t.pos)
            out[lo:e + 1] = new
            drops.add('closures given to map, and_then and is_some_and of Option are inlined')
            i = lo
            continue
        elif t.s == '.' and i + 4 < len(out) and out[i + 1].s == 'map' and out[i + 2].s == '(' and out[i + 3].k == 'id' and out[i + 3].s not in KEYWORDS:
            # A constructor or function given by name.
            e = match(out, i + 2)
            if any(x.k != 'id' and x.s != '::' for x in out[i + 3:e]):
                i += 1
                continue
            lo = receiver(out, i)
            new = mk('match', t.pos) + out[lo:i] + mk('{ Some(v) => Some(', t.pos) + out[i + 3:e] + mk('(v)), None => None }', t.pos)
            if i > 0 and e + 1 < len(out) and out[e + 1].s == '.':
                new = mk('(', t.pos) + new + mk(')', t.pos)
            out[lo:e + 1] = new
            drops.add('closures given to map, and_then and is_some_and of Option are inlined')
            i = lo
            continue
        elif t.s == '.' and i + 4 < len(out) and out[i + 1].s == 'ok_or_else' and out[i + 2].s == '(' and out[i + 3].s == '||':
            e = match(out, i + 2)
            lo = receiver(out, i)
            new = mk('match', t.pos) + out[lo:i] + mk('{ Some(v) => Ok(v), None => Err({', t.pos) + out[i + 4:e] + mk('}) }', t.pos)
            out[lo:e + 1] = new
            drops.add('closures given to ok_or_else are inlined')
            i = lo
            continue
        elif t.k == 'id' and t.s == 'match':
            b = i + 1
            while out[b].s != '{':
                b = match(out, b) + 1 if out[b].s in OPEN else b + 1
            e = match(out, b)
            arms = match_arms(out, b + 1, e)
            if any(p.k == 'str' for pat, _ in arms for p in pat):
                new = []
                for pat, body in arms:
                    if new:
                        new += mk('else', t.pos)
                    if len(pat) == 1 and pat[0].s == '_':
                        new += mk('{', t.pos) + body + mk('}', t.pos)
                        break
                    tests = []
                    for lit in [p for p in pat if p.s != '|']:
                        if lit.k != 'str':
                            raise Lost('a match on text with the pattern `%s`' % ' '.join(x.s for x in pat))
                        fn = 'bytes_are' if lit.s.startswith('b') else 'text_is'
                        tests += (mk('||', t.pos) if tests else []) + mk(fn + '(', t.pos) + out[i + 1:b] + mk(', %s)' % lit.s.lstrip('b'), t.pos)
                    new += mk('if', t.pos) + tests + mk('{', t.pos) + body + mk('}', t.pos)
                out[i:e + 1] = new
                drops.add('a match on text is read as comparisons')
                continue
        i += 1
    return out


def tail_breaks(toks, drops):
    """A loop that ends the function: `break` with a value returns it."""
    body = next((i for i, t in enumerate(toks) if t.s == '{' and match(toks, i) == len(toks) - 1), None)
    at = [i for i, t in enumerate(toks) if t.k == 'id' and t.s == 'loop' and toks[i + 1].s == '{']
    if body is None or not at or match(toks, at[-1] + 1) != len(toks) - 2:
        return toks
    inner = range(at[-1] + 1, len(toks) - 2)
    if any(toks[i].s in ('loop', 'while', 'for') for i in inner):
        return toks
    out, i = toks[:at[-1]], at[-1]
    while i < len(toks):
        if toks[i].s == 'break' and toks[i + 1].s not in (';', ',', '}'):
            e = i
            while toks[e].s not in (';', ',', '}'):
                e = match(toks, e) + 1 if toks[e].s in OPEN else e + 1
            mk = lambda s: [Tok(t.k, t.s, toks[i].pos) for t in lex(s)]
            out += mk('{ return') + toks[i + 1:e] + mk('; }')
            drops.add('`break` with a value, in a loop that ends the function, returns it')
            i = e
            continue
        out.append(toks[i])
        i += 1
    return out


def addassign(toks, drops):
    """`x += y` as the call of the method that it is."""
    out, i = list(toks), 0
    while i < len(out):
        if out[i].s in ('+=', '-='):
            b, e = statement(out, i, 0), i + 1
            while out[e].s not in (';', ',', '}'):
                e = match(out, e) + 1 if out[e].s in OPEN else e + 1
            mk = lambda s: [Tok(t.k, t.s, out[i].pos) for t in lex(s)]
            name = 'add_assign' if out[i].s == '+=' else 'sub_assign'
            out[b:e] = mk('(') + out[b:i] + mk(').%s(' % name) + out[i + 1:e] + mk(')')
            drops.add('`+=` is read as the call of `add_assign`')
        i += 1
    return out


def match_arms(toks, i, e):
    """[(pattern, body)]"""
    arms = []
    while i < e:
        j = i
        while toks[j].s != '=>':
            j = match(toks, j) + 1 if toks[j].s in OPEN else j + 1
        b = j + 1
        if toks[b].s == '{':
            x = match(toks, b) + 1
        else:
            x = b
            while x < e and toks[x].s != ',':
                x = match(toks, x) + 1 if toks[x].s in OPEN else x + 1
        arms.append((toks[i:j], toks[b:x]))
        i = x + 1 if x < e and toks[x].s == ',' else x
    return arms


def awaited(toks, drops):
    """An async function that waits for a `poll_fn` and for nothing else: its future, polled, calls the closure."""
    at = next((i for i, t in enumerate(toks) if t.s == 'fn'), 0)
    if 'async' not in [t.s for t in toks[:at]]:
        return toks
    b = next(i for i, t in enumerate(toks) if t.s == '{' and match(toks, i) == len(toks) - 1)
    body = [t for t in toks[b + 1:-1]]
    names = [t.s for t in body]
    if names[:1] == ['let'] and names[2:3] == ['='] and names[-3:] == [names[1], '.', 'await']:
        body = body[3:-3]
        if body[-1].s != ';':
            raise Lost('an async function of another form')
        body = body[:-1]
    elif names[-2:] == ['.', 'await']:
        body = body[:-2]
    k = next((i for i, t in enumerate(body) if t.s == 'poll_fn'), None)
    if k is None or any(t.s not in ('future', 'futures', 'std', '::') for t in body[:k]) or body[k + 1].s != '(' \
            or match(body, k + 1) != len(body) - 1 or body[k + 2].s != '|' or body[k + 4].s != '|':
        raise Lost('an async function of another form')
    arrow = next(i for i, t in enumerate(toks) if t.s == '->')
    e = match(toks, next(i for i in range(at, b) if toks[i].s == '('))
    mk = lambda s: [Tok(t.k, t.s, toks[at].pos) for t in lex(s)]
    drops.add('an async function that only waits for a poll_fn is what polling it does')
    return ([t for t in toks[:at] if t.s != 'async'] + toks[at:e] + mk(', ') + [body[k + 3]] + mk(': &mut Context<\'_>') + toks[e:arrow + 1]
            + mk('Poll<') + toks[arrow + 1:b] + mk('>') + [toks[b]] + body[k + 5:-1] + [toks[-1]])


def unfor(toks, drops):
    """`for` as the language defines it: a `while let` over the iterator."""
    out, n = list(toks), 0
    i = 0
    while i < len(out):
        if out[i].k == 'id' and out[i].s == 'for' and i and out[i - 1].s in ('{', '}', ';'):
            mk = lambda s, pos=out[i].pos: [Tok(t.k, t.s, pos) for t in lex(s)]
            j = i + 1
            while out[j].s != 'in':
                j = match(out, j) + 1 if out[j].s in OPEN else j + 1
            b = j + 1
            while out[b].s != '{':
                b = match(out, b) + 1 if out[b].s in OPEN else b + 1
            n += 1
            out[i:b] = mk('let mut viter%d = ' % n) + out[j + 1:b] + mk('; while let Some(') + out[i + 1:j] + mk(') = viter%d.next()' % n)
            drops.add('for loops are spelled out with next')
        i += 1
    return out


def uncall(toks, name, drops):
    """A method that calls a closure again and again: a loop over the calls that it makes."""
    out, n = list(toks), 0
    i = 0
    while i + 4 < len(out):
        if out[i].s == '.' and out[i + 1].s == name and out[i + 2].s == '(' and out[i + 3].s == '|':
            mk = lambda s, pos=out[i].pos: [Tok(t.k, t.s, pos) for t in lex(s)]
            e = match(out, i + 2)
            b = i + 4
            while out[b].s != '|':
                b += 1
            lo = receiver(out, i)
            if out[lo - 1].s not in ('{', '}', ';') or out[e + 1].s != ';':
                raise Lost('a call of %s in an expression' % name)
            n += 1
            out[lo:e + 2] = (mk('let mut vcalls%d = ' % n) + out[lo:i] + mk('.%s_calls(); while let Some((' % name) + out[i + 4:b]
                             + mk(')) = vcalls%d.next() { let vanswer =' % n) + out[b + 1:e] + mk('; vcalls%d.answer(vanswer); }' % n))
            drops.add('%s and the closure given to it: a loop over the calls it makes' % name)
        i += 1
    return out


def ghost_calls(toks, pats, drops):
    """Gives the ghost state to the calls that match; the longest pattern counts."""
    pats = [([t.s for t in lex(p.split(' => ')[0])], (p.split(' => ') + ['vw'])[1]) for p in pats]
    pats.sort(key=lambda p: -len(p[0]))
    out = list(toks)
    i = 0
    while i < len(out):
        for p, var in pats:
            if [t.s for t in out[i:i + len(p)]] == p:
                e = match(out, i + len(p) - 1)
                if out[e - 1].s == ',':
                    e -= 1
                out[e:e] = [Tok(t.k, t.s, out[e].pos) for t in lex(var if e == i + len(p) else ', ' + var)]
                drops.add('a ghost argument for what is shared is given along')
                i += len(p) - 1
                break
        i += 1
    return out


NESTED = ('use', 'enum', 'struct', 'impl', 'fn', 'const', 'static', 'trait', 'type')


def unnest(found, drops):
    """Items within functions, taken out of them."""
    out = []
    for item in found:
        if item.kind in ('impl', 'trait'):
            item.children, inner = [], item.children
            for ch in inner:
                for x in unnest([ch], drops):
                    (item.children if x is ch else out).append(x)
        elif item.kind == 'fn' and item.toks[-1].s == '}':
            toks = item.toks
            b = next(i for i, t in enumerate(toks) if t.s == 'fn')
            while toks[b].s != '{':
                b = match(toks, b) + 1 if toks[b].s in OPEN else b + 1
            kept, i, end = toks[:b + 1], b + 1, len(toks) - 1
            while i < end:
                if toks[i].s in NESTED or toks[i].s == '#':
                    e = i
                    while toks[e].s == '#':
                        e = match(toks, e + 1) + 1
                    if toks[e].s not in NESTED:
                        kept += toks[i:e]
                        i = e
                        continue
                    while toks[e].s not in (';', '{'):
                        e = match(toks, e) + 1 if toks[e].s in OPEN else e + 1
                    e = match(toks, e) + 1 if toks[e].s == '{' and toks[i].s != 'use' else e + 1
                    if toks[i].s == 'use':
                        while toks[e - 1].s != ';':
                            e += 1
                    inner = items(toks[i:e])
                    if any(x.kind != 'use' for x in inner):
                        drops.add('items within functions are taken out of them')
                    out += unnest(inner, drops)
                    i = e
                else:
                    e = statement_end(toks, i, end)
                    kept += toks[i:e]
                    i = e
            item.toks = kept + [toks[-1]]
        out.append(item)
    return out


def lift(toks, var, captured, name, drops):
    """The closure `let var = move || {..};` as a function; a literal that captures what it captures is left."""
    i = find(toks, 'let %s = move || {' % var, 0, len(toks))
    b = i + 5 if toks[i + 4].s == '||' else i + 6
    while toks[b].s != '{':
        b += 1
    e = match(toks, b)
    mk = lambda s: [Tok(t.k, t.s, toks[i].pos) for t in lex(s)]
    fn = mk('fn %s(%s)' % (var, captured)) + toks[b:e + 1]
    fields = [f.split(':')[0].strip() for f in captured.split(',')]
    rest, after = toks[e + 1:], []
    for j, t in enumerate(rest):
        if t.s == var and rest[j + 1].s == '(' and rest[j - 1].s not in ('.', '::'):
            # A call of the closure.
            after += mk('self :: %s' % var)
        elif t.s == '(' and j and rest[j - 1].s == var and rest[j - 2].s not in ('.', '::'):
            after += mk('(' + ', '.join('%s.%s' % (var, f) for f in fields))
        else:
            after.append(t)
    left = toks[:i + 3] + mk('%s { %s }' % (name, ', '.join('%s: %s' % (f, f) for f in fields))) + after
    drops.add('the closure `%s` is a function of what it captures (%s)' % (var, captured))
    return left, fn


def weave_fn(item, name, contract, drops, ghosts=(), world='World'):
    toks = list(item.toks)
    k = next(i for i, t in enumerate(toks) if t.s == 'fn')
    e = k + 2
    if toks[e].s == '<':
        e = skip_angle(toks, e)
    params = match(toks, e)
    for i in range(params, len(toks)):
        if toks[i].s == 'const' and toks[i - 1].s in ('{', '}', ';') and toks[i + 2].s == ':':
            toks[i] = Tok('id', 'let', toks[i].pos)
            drops.add('constants within functions are read as variables')
    if contract and 'ghost' in contract.opts:
        GHOSTS = 'vw: &mut ' + world + (', tw: &mut Bay' if 'held' in contract.opts else '')
        toks[params:params] = [Tok(t.k, t.s, toks[params].pos) for t in lex(('' if toks[params - 1].s in ('(', ',') else ', ') + GHOSTS)]
        params = match(toks, e)
    body = params + 1
    while toks[body].s not in ('{', ';'):
        body = match(toks, body) + 1 if toks[body].s in OPEN else body + 1
    sig = toks[:body]
    ret = None
    for i in range(params + 1, body):
        if toks[i].s == '->':
            ret = i
        if toks[i].s == 'where':
            break
    where = next((i for i in range(params + 1, body) if toks[i].s == 'where'), body)
    head = text(toks[:k + 1]) + ' ' + text(toks[k + 1:params + 1])
    if ret is not None and contract:
        head += ' -> (ret: ' + text(toks[ret + 1:where]) + ')'
    elif ret is not None:
        head += ' -> ' + text(toks[ret + 1:where])
    if where < body:
        head += ' ' + text(toks[where:body])
    pre = ''
    if contract:
        for o in sorted(contract.opts - {'assumed', 'ghost', 'held'}):
            pre += '#[verifier::%s]\n' % o if o != 'external_body' or toks[body].s == '{' else ''
    out = pre + head + '\n' + (contract.spec.rstrip() + '\n' if contract else '')
    if toks[body].s == ';':
        return out.rstrip() + ';'
    if contract and 'external_body' in contract.opts:
        if 'assumed' not in contract.opts:
            drops.add('the body of %s is trusted' % name)
        return out + '{ unimplemented!() }'
    toks = toks[:body] + ghost_calls(toks[body:], ghosts, drops)
    end = match(toks, body)
    lo, hi = body + 1, end
    inserts, start = {}, ''
    loops = [i for i in range(lo, hi) if toks[i].k == 'id' and toks[i].s in ('while', 'loop', 'for')
             and not (toks[i].s == 'for' and toks[i + 1].s == '<')]

    def loop_body(n):
        if n > len(loops):
            raise Lost('%s has %d loops, not %d' % (name, len(loops), n))
        j = loops[n - 1] + 1
        while toks[j].s != '{':
            j = match(toks, j) + 1 if toks[j].s in OPEN else j + 1
        return j

    wanted = {int(m.group(1)) for p in (contract.parts if contract else []) for m in [re.match(r'loop (\d+)', p[0])] if m}
    if contract and len(loops) != len(wanted):
        raise Lost('%s has %d loops, its contract speaks of %d' % (name, len(loops), len(wanted)))
    for place, lines in (contract.parts if contract else []):
        s = '\n'.join(lines).rstrip()
        m = re.match(r'^loop (\d+)$', place)
        if m:
            inserts.setdefault(loop_body(int(m.group(1))), []).append(s)
            continue
        m = re.match(r'^loop (\d+) (entry|exit|after|before)$', place)
        if m:
            b = loop_body(int(m.group(1)))
            at = {'entry': b + 1, 'exit': match(toks, b), 'after': match(toks, b) + 1,
                  'before': statement(toks, loops[int(m.group(1)) - 1], lo)}[m.group(2)]
            inserts.setdefault(at, []).append(s)
            continue
        if place == 'entry':
            start += s + '\n'
            continue
        if place == 'exits':
            # At every `return`, too.
            for i in range(lo, hi):
                if toks[i].k == 'id' and toks[i].s == 'return':
                    e = i + 1
                    while toks[e].s not in (';', ',', '}'):
                        e = match(toks, e) + 1 if toks[e].s in OPEN else e + 1
                    if e == i + 1:
                        inserts.setdefault(i, []).append('{ ' + s)
                        inserts.setdefault(e, []).insert(0, '; }')
                        continue
                    inserts.setdefault(i + 1, []).append('{ let ret = {')
                    inserts.setdefault(e, []).insert(0, '};\n' + s + '\nret }')
            place = 'exit'
        if place == 'exit':
            # The body is bound to `ret` first, if the function has a result.
            if ret is not None:
                inserts.setdefault(lo, []).insert(0, 'let ret = {')
                s = '};\n' + s + '\nret'
            inserts.setdefault(hi, []).append(s)
            continue
        m = re.match(r'^(before|after|in) `(.*)`(?: #(\d+))?$', place)
        if not m:
            raise ValueError(place)
        try:
            i = find(toks, m.group(2), lo, hi, int(m.group(3) or 1))
        except Lost as l:
            raise Lost('%s: %s' % (name, l))
        if m.group(1) == 'before':
            at = statement(toks, i, lo)
        elif m.group(1) == 'in':
            # At the start of the first block after the anchor.
            j = i
            while toks[j].s != '{':
                j += 1
            at = j + 1
        else:
            at = statement_end(toks, i, hi)
        inserts.setdefault(at, []).append(s)
    out += '{\n' + start
    prev = lo
    for at in sorted(inserts):
        out += text(toks[prev:at]) + '\n' + '\n'.join(inserts[at]) + '\n'
        prev = at
    out += text(toks[prev:hi]) + '\n}'
    return out


def cfg_holds(c, features):
    """What a condition of a cfg attribute says; tests and verification are off."""
    m = re.match(r'^(all|any|not)\((.*)\)$', c)
    if m:
        parts, depth, last = [], 0, ''
        for ch in m.group(2):
            depth += (ch == '(') - (ch == ')')
            if ch == ',' and depth == 0:
                parts.append(last)
                last = ''
            else:
                last += ch
        parts = [cfg_holds(x, features) for x in parts + ([last] if last else [])]
        return {'all': all, 'any': any, 'not': lambda x: not x[0]}[m.group(1)](parts)
    m = re.match(r'^feature="(.*)"$', c)
    if m:
        return m.group(1) in features
    return c not in ('test', 'wasmtimer_verif', 'kani')


def cfg_out(attrs, features):
    """Whether conditional compilation leaves the item out."""
    return any(not cfg_holds(m.group(1), features) for a in attrs for m in [re.match(r'^cfg\((.*)\)$', a)] if m)


def strip_inner_cfg(toks, features, drops):
    """Statements and fields under a cfg attribute: kept or left out, as the compiler does."""
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == '#' and i + 1 < len(toks) and toks[i + 1].s == '[':
            e = match(toks, i + 1)
            a = ''.join(t.s for t in toks[i + 2:e])
            if a.startswith('cfg(') and cfg_out([a], features):
                i = statement_end(toks, e + 1, len(toks))
                if i < len(toks) and toks[i - 1].s != ';' and toks[i].s == ',':
                    i += 1
                continue
            i = e + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def weave(contracts, read, features=('tokio', 'tokio-util', 'serde')):
    """The Verus source for a unit. `read(file)` gives the repository's text."""
    w = Woven()
    drops = set()
    used = set()
    w.add('#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_assignments)]')
    w.add('use vstd::prelude::*;')
    for t in contracts['text'].get(('item', 'uses'), []):
        w.add(t)
    w.add('verus! {')
    start = w.line
    w.add('\n'.join(contracts['text'].get('prelude', [])))
    keep = contracts.get('keep')
    world = next((o.split(' ', 1)[1] for o in contracts['options'] if o.startswith('world ')), 'World')

    def one(item, prefix):
        name = (prefix + '::' if prefix else '') + item.name
        toks = strip_inner_cfg(item.toks, features, drops)
        item.toks = desugar(toks, contracts['rewrites'], drops)
        if item.kind == 'fn' and 'public' in contracts['options']:
            while item.toks[0].s == 'pub':
                item.toks = item.toks[match(item.toks, 1) + 1:] if item.toks[1].s == '(' else item.toks[1:]
        for fn, var, captured in contracts.get('lift', []):
            if item.kind == 'fn' and name == fn:
                item.toks, toks = lift(item.toks, var, captured, 'Lifted_' + var, drops)
                one(Item('fn', var, [], toks), name)
        if item.kind == 'fn' and 'awaited' in contracts['options'] and file not in contracts.get('assumed', []):
            item.toks = awaited(item.toks, drops)
        if item.kind == 'fn' and expanded:
            item.toks = tail_breaks(expand(item.toks, drops), drops)
            for o in contracts['options']:
                if o.startswith('calls '):
                    item.toks = uncall(item.toks, o.split()[1], drops)
            if 'addassign' in contracts['options']:
                item.toks = addassign(item.toks, drops)
            if 'unfor' in contracts['options']:
                item.toks = unfor(item.toks, drops)
        w.where[name] = file
        if item.kind == 'const' and prefix and name in contracts['fns']:
            eq = next(i for i, t in enumerate(item.toks) if t.s == '=')
            colon = next(i for i, t in enumerate(item.toks) if t.s == ':')
            mk = lambda s: [Tok(t.k, t.s, item.toks[eq].pos) for t in lex(s)]
            item.kind, item.toks = 'fn', mk('fn %s() ->' % item.name) + item.toks[colon + 1:eq] + mk('{') + item.toks[eq + 1:-1] + mk('}')
            drops.add('the constant %s is read as a function' % name)
        if item.kind == 'fn':
            c = contracts['fns'].get(name)
            if file in contracts.get('assumed', []) and not c:
                return
            if c:
                used.add(name)
            first = w.line
            w.add(weave_fn(item, name, c, drops, contracts.get('ghost', []), world))
            w.fns.append((first, w.line - 1, name, 'assumed' if c and 'assumed' in c.opts else 'trusted' if c and 'external_body' in c.opts else 'contract' if c else 'plain'))
        elif item.kind == 'const' and name in contracts.get('consts', {}):
            c = contracts['consts'][name]
            used.add(name)
            eq = next(i for i, t in enumerate(item.toks) if t.s == '=')
            first = w.line
            w.add('exec ' + text([t for t in item.toks[:eq] if t.s not in ('pub', '(', 'crate', ')')]) + '\n' + c.spec.rstrip()
                  + '\n{\n' + '\n'.join(l for _, ls in c.parts for l in ls) + '\n' + text(item.toks[eq + 1:-1]) + '\n}')
            w.fns.append((first, w.line - 1, name, 'contract'))
        else:
            if 'public' in contracts['options'] and item.kind in ('struct', 'enum', 'const') and not prefix:
                item.toks = public(item)
                drops.add('visibility is ignored')
            w.add(text(item.toks))

    for file in contracts['files']:
        toks = lex(read(file))
        toks = desugar(toks, [r[1:] for r in contracts.get('renames', []) if r[0] == file], drops)
        expanded = 'expand' in contracts['options'] and file not in contracts.get('assumed', [])
        found = items(toks)
        if 'unnest' in contracts['options'] and expanded:
            found = unnest([x for x in found if not cfg_out(x.attrs, features)], drops)
        for item in found:
            if cfg_out(item.attrs, features) or item.kind in ('use', 'mod'):
                continue
            name = item.name
            if name in contracts['drop'] or keep is not None and name not in keep:
                drops.add('%s: `%s %s` is left out' % (file, item.kind, name))
                continue
            for t in contracts['text'].get(('item', name), []) if item.kind != 'impl' else []:
                w.add(t)
            if item.kind in ('impl', 'trait'):
                head = desugar(item.head, contracts['rewrites'], drops)
                w.add(text(head) + ' {')
                extra = contracts['text'].get(('in', name), [])
                key = ('in', name)
                if extra and key not in used:
                    used.add(key)
                    w.add('\n'.join(extra))
                for ch in item.children:
                    full = name + '::' + ch.name
                    if cfg_out(ch.attrs, features):
                        continue
                    if full in contracts['drop'] or keep is not None and ch.kind == 'fn' and full not in contracts['fns'] and name + '::*' not in keep:
                        drops.add('%s: `%s` is left out' % (file, full))
                        continue
                    one(ch, name)
                w.add('}')
            else:
                one(item, '')
    first = w.line
    w.add('\n'.join(contracts['text'].get('lemmas', [])))
    w.add('} // verus!')
    w.add('fn main() {}')
    missing = (set(contracts['fns']) | set(contracts.get('consts', {}))) - used
    if missing:
        raise Lost('no function ' + ', '.join(sorted(missing)))
    drops.add('comments, attributes, tests and whatever the features %s leave out' % '+'.join(features))
    w.drops = sorted(drops)
    return w
