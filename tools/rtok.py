"""Rust lexer, item finder and token-level rewriting used by vx.py (no dependencies)."""
import re

MULTI = ['<<=', '>>=', '...', '..=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=',
         '%=', '^=', '&=', '|=', '<<', '..']
# '>>' is deliberately not munched (generic argument lists)
IDENT = re.compile(r'(r#)?[A-Za-z_\u0080-\uffff][A-Za-z0-9_\u0080-\uffff]*')
NUM = re.compile(r'0[xob][0-9a-fA-F_]+[iu]?[0-9a-z]*|[0-9][0-9_]*(\.[0-9][0-9_]*)?([eE][+-]?[0-9_]+)?[A-Za-z0-9_]*')


class LexError(Exception):
    pass


def lex(src):
    """-> list of (token, start, end, line). Comments dropped."""
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith('/*', j):
                    d += 1
                    j += 2
                elif src.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r'(b|c|br|cr|r)?(#*)"').match(src, i)
        if m and (m.group(2) == '' or (m.group(1) or '').endswith('r')):
            raw = (m.group(1) or '').endswith('r')
            if raw:
                end = src.find('"' + m.group(2), m.end())
                if end < 0:
                    raise LexError('raw string')
                j = end + 1 + len(m.group(2))
            else:
                j = m.end()
                while src[j] != '"':
                    j += 2 if src[j] == '\\' else 1
                j += 1
            out.append((src[i:j], i, j))
            i = j
            continue
        if c == "'" or src.startswith("b'", i):
            k = i + (1 if c == "'" else 2)
            if src[k] == '\\':
                j = src.find("'", k + 2) + 1
                out.append((src[i:j], i, j))
                i = j
                continue
            if k + 1 < n and src[k + 1] == "'":
                out.append((src[i:k + 2], i, k + 2))
                i = k + 2
                continue
            m = IDENT.match(src, k)
            if not m:
                raise LexError('quote at %d' % i)
            out.append((src[i:m.end()], i, m.end()))
            i = m.end()
            continue
        m = IDENT.match(src, i)
        if m:
            out.append((m.group(0), i, m.end()))
            i = m.end()
            continue
        if c.isdigit():
            m = NUM.match(src, i)
            t = m.group(0)
            # "0..n" : the number pattern never swallows '..'; "x.0.1" is fine
            out.append((t, i, m.end()))
            i = m.end()
            continue
        for mu in MULTI:
            if src.startswith(mu, i):
                out.append((mu, i, i + len(mu)))
                i += len(mu)
                break
        else:
            out.append((c, i, i + 1))
            i += 1
    return out


KW = {'let', 'match', 'if', 'while', 'for', 'in', 'return', 'mut', 'ref', 'else', 'loop', 'fn', 'as', 'move', 'break'}
OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = set(')]}')


def match_close(t, i):
    """t: list of token strings, t[i] an opener -> index of its closer"""
    d = 0
    for j in range(i, len(t)):
        if t[j] in OPEN:
            d += 1
        elif t[j] in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise LexError('unbalanced')


def strip_attrs_vis(t):
    out, i = [], 0
    while i < len(t):
        if t[i] == '#' and i + 1 < len(t) and (t[i + 1] == '[' or (t[i + 1] == '!' and t[i + 2] == '[')):
            j = i + 1 if t[i + 1] == '[' else i + 2
            i = match_close(t, j) + 1
            continue
        if t[i] == 'pub':
            i += 1
            if i < len(t) and t[i] == '(' and t[i + 1] in ('crate', 'super', 'self', 'in'):
                i = match_close(t, i) + 1
            continue
        out.append(t[i])
        i += 1
    return out


def angle_skip(t, i):
    """t[i]=='<' -> index after matching '>'"""
    d = 0
    while i < len(t):
        if t[i] == '<':
            d += 1
        elif t[i] == '>':
            d -= 1
            if d == 0:
                return i + 1
        elif t[i] in OPEN:
            i = match_close(t, i)
        i += 1
    raise LexError('angle')


def impl_name(h):
    """header tokens after `impl` (generics included) -> 'Type' or 'Trait for Type'"""
    i = 0
    if h and h[0] == '<':
        i = angle_skip(h, 0)
    parts, cur = [], []
    while i < len(h):
        if h[i] == 'where':
            break
        if h[i] == 'for':
            parts.append(cur)
            cur = []
        elif h[i] == '<':
            j = angle_skip(h, i)
            i = j
            continue
        else:
            cur.append(h[i])
        i += 1
    parts.append(cur)

    def last(p):
        ids = [x for x in p if IDENT.fullmatch(x) and x not in ('dyn', 'mut')]
        return ids[-1] if ids else ''.join(p)
    return ' for '.join(last(p) for p in parts)


def find_items(src):
    """-> dict name -> list of token lists. Names: 'fn f', 'BTree::f', 'Trait for Type::f', 'trait T::f',
    'struct S', 'enum E', 'const C', 'type T', nested inline modules as 'mod m::...'. Test modules are skipped."""
    toks = [x[0] for x in lex(src)]
    items = {}

    def add(name, t):
        items.setdefault(name, []).append(strip_attrs_vis(t))

    def scan(t, prefix):
        i = 0
        while i < len(t):
            start = i
            cfg_test = False
            while t[i] == '#':
                j = i + 1 if t[i + 1] == '[' else i + 2
                e = match_close(t, j)
                a = t[j + 1:e]
                if a[:1] == ['cfg'] and ('test' in a or 'generic_btree_verif' in a) and 'not' not in a:
                    cfg_test = True
                i = e + 1
                if i >= len(t):
                    return
            if t[i] == 'pub':
                i += 1
                if t[i] == '(' and t[i + 1] in ('crate', 'super', 'self', 'in'):
                    i = match_close(t, i) + 1
            while t[i] in ('default', 'async', 'unsafe') or (t[i] == 'const' and t[i + 1] in ('fn', 'unsafe')):
                i += 1
            k = t[i]
            # end of item
            j = i
            if k in ('use', 'const', 'static', 'type') or (k == 'struct'):
                while t[j] not in (';', '{'):
                    if t[j] in '([':
                        j = match_close(t, j)
                    j += 1
                if t[j] == '{':
                    j = match_close(t, j)
                    if k in ('use', 'const', 'static') and j + 1 < len(t) and t[j + 1] == ';':
                        j += 1
                body = None
            elif k in ('impl', 'trait', 'fn', 'enum', 'mod', 'macro_rules', 'extern', 'union'):
                while t[j] not in ('{', ';'):
                    if t[j] in '([':
                        j = match_close(t, j)
                    j += 1
                if t[j] == '{':
                    ob = j
                    j = match_close(t, j)
                    body = (ob + 1, j)
                else:
                    body = None
            else:
                # macro invocation or something unknown: skip to ';' or closing brace
                while j < len(t) and t[j] not in (';', '{'):
                    if t[j] in '([':
                        j = match_close(t, j)
                    j += 1
                if j < len(t) and t[j] == '{':
                    j = match_close(t, j)
                i = j + 1
                continue
            item = t[start:j + 1]
            if not cfg_test:
                if k == 'fn':
                    add(prefix + ('' if prefix else 'fn ') + t[i + 1], item)
                elif k in ('struct', 'enum', 'const', 'type', 'static'):
                    add((prefix + k if prefix else k) + ' ' + t[i + 1], item)
                elif k == 'impl':
                    if body:
                        scan(t[body[0]:body[1]], prefix + impl_name(t[i + 1:body[0] - 1]) + '::')
                elif k == 'trait':
                    if body:
                        scan(t[body[0]:body[1]], prefix + 'trait ' + t[i + 1] + '::')
                elif k == 'mod':
                    if body:
                        scan(t[body[0]:body[1]], prefix + 'mod ' + t[i + 1] + '::')
            i = j + 1

    scan(toks, '')
    return items


# ---------------------------------------------------------------- rewriting
def parse_pat(s):
    t = []
    for x in re.split(r'(\$\$?[a-z_0-9]+)', s):
        if x.startswith('$'):
            t.append(x)
        else:
            t += [y[0] for y in lex(x)]
    return t


def _match(pat, pi, t, i, env):
    if pi == len(pat):
        return i, env
    p = pat[pi]
    if not p.startswith('$'):
        if i < len(t) and t[i] == p:
            return _match(pat, pi + 1, t, i + 1, env)
        return None
    multi = p.startswith('$$')
    name = p.lstrip('$')
    if name in env:
        v = env[name]
        if t[i:i + len(v)] == v:
            return _match(pat, pi + 1, t, i + len(v), env)
        return None
    j = i
    if name.startswith(('p_', 'i_')):
        # p_: a postfix chain (path, field, index, call); i_: one identifier
        if i >= len(t) or not IDENT.fullmatch(t[i]) or t[i] in KW or (i and t[i - 1] in ('.', '::')):
            return None
        j = i + 1
        ends = [j]
        while name.startswith('p_') and j < len(t):
            if t[j] in ('.', '::') and j + 1 < len(t) and (IDENT.fullmatch(t[j + 1]) or t[j + 1].isdigit()):
                j += 2
            elif t[j] in '([':
                j = match_close(t, j) + 1
            else:
                break
            ends.append(j)
        for j in ends:
            r = _match(pat, pi + 1, t, j, {**env, name: t[i:j]})
            if r:
                return r
        return None
    if name.startswith('u_'):
        # any tokens, balanced or not: for cutting a block out of a function
        for j in range(i, len(t) + 1):
            if j < len(t) and pi + 1 < len(pat) and not pat[pi + 1].startswith('$') and t[j] != pat[pi + 1]:
                continue
            r = _match(pat, pi + 1, t, j, {**env, name: t[i:j]})
            if r:
                return r
        return None
    if multi:
        r = _match(pat, pi + 1, t, j, {**env, name: []})
        if r:
            return r
    while j < len(t):
        if t[j] in CLOSE:
            return None
        if not multi and t[j] in (',', ';', '{'):
            return None
        if t[j] in OPEN:
            j = match_close(t, j)
        j += 1
        r = _match(pat, pi + 1, t, j, {**env, name: t[i:j]})
        if r:
            return r
    return None


def rewrite(t, rules):
    """rules: list of (pattern tokens, replacement tokens); each applied left to right, repeatedly, at most 200 times"""
    used = {}
    for k, (pat, rep) in enumerate(rules):
        i = 0
        guard = 0
        while i < len(t) and guard < 400:
            r = _match(pat, 0, t, i, {})
            if r:
                e, env = r
                new = []
                for x in rep:
                    if x.startswith('$'):
                        new += env[x.lstrip('$')]
                    else:
                        new.append(x)
                t = t[:i] + new + t[e:]
                used[k] = used.get(k, 0) + 1
                guard += 1
                # rescan inside the replacement only past its first token (avoids self-application loops)
                i += 1
            else:
                i += 1
    return t, used
