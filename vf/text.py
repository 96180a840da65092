"""Structured strings: concatenations of literal text and words (unknown non-empty pieces without white space).

WORDS maps a string symbol to the characters it is known not to contain (white space is always excluded)."""
from .term import *

WORDS = {}
NUMSPEC = set('defgiEGF%n')
WS = ' \t\n\r\x0b\x0c'


def word(name, excludes='#/\\'):
    s = sym(name, 0, (), False, 'str')
    WORDS[s] = excludes
    return s


def isword(p):
    if p in WORDS:
        return True
    # numbers print without white space
    if p.op == 'fmt' and kind(p.args[1]) == 'num':
        s = p.args[0]
        return s == '' or s[-1] in NUMSPEC and (len(s) == 1 or s[0] in '.0' or s[0].isdigit() and s[0] != '0' and len(s) < 2)
    return False


def excludes(p, chars):
    """no occurrence of any of chars in the word"""
    if p in WORDS:
        return all(c in WORDS[p] or c in WS for c in chars)
    if p.op == 'fmt':
        sp = p.args[0]
        return all(c not in '0123456789.+-eEinfa' and (c not in '%,_' or c not in sp) for c in chars)
    return False


DISTINCT = set()     # words assumed to spell pairwise different non-zero numbers (one side of a case split)


def _number(a):
    """the word the number a = float(word) or float(word with commas as points) is spelled by"""
    if a in DISTINCT:
        return a, 'n'
    x = a.args[0]
    f = None
    if not isinstance(x, Node):
        return None
    if x.op == 'replace':
        f = x.args[1:]
        x = x.args[0]
    return (x, f) if x in DISTINCT else None


def unequal(p):
    if p.op in ('float', 'roundn'):
        return _number(p) is not None
    (m, c), (n, d) = p.args[0]
    if c + d != 0 or len(m) != 1 or len(n) != 1 or m[0][1] != 1 or n[0][1] != 1:
        return False
    a, b = _number(m[0][0]), _number(n[0][0])
    return a is not None and b is not None and a[1] == b[1] and a[0] is not b[0]


def parts(t):
    """literal pieces (python str) and words, or None"""
    if t.op == 'str':
        return [t.args[0]] if t.args[0] else []
    ps = t.args if t.op == 'scat' else (t,)
    out = []
    for p in ps:
        if p.op == 'str':
            out.append(p.args[0])
        elif isword(p):
            out.append(p)
        else:
            return None
    return out


def join(ps):
    from .alg import scat
    return scat(*[mk('str', p) if isinstance(p, str) else p for p in ps])


def nonempty(t):
    return t.op == 'scat' and any((p.op == 'str' and p.args[0]) or isword(p) for p in t.args) or isword(t)


def wordlist(t):
    """list of words joined by white space, or None"""
    if t.op == 'sjoin' and t.args[0].op == 'str' and t.args[0].args[0] and not t.args[0].args[0].strip():
        c = t.args[1]
        ps = c.args if c.op == 'cat' else (c,)
        if all(isword(e) for p in ps for e in ([p.args[2]] if p.op == 'Map' else p.args if p.op in ('lit', 'tup') else [p])):
            return c
    return None


def split(t, sep=None, maxsplit=-1):
    """list of terms or None"""
    ps = parts(t)
    if ps is None:
        return None
    out, cur = [], []
    if sep is None:
        n = 0
        rest = list(ps)
        while rest:
            p = rest.pop(0)
            if not isinstance(p, str):
                cur.append(p)
                continue
            k = 0
            while k < len(p):
                if p[k] in WS or p[k].isspace():
                    if cur:
                        out.append(join(cur))
                        cur = []
                        if maxsplit >= 0 and len(out) >= maxsplit:
                            tail = p[k:].lstrip()
                            more = ([tail] if tail else []) + rest
                            if not tail:
                                more = _lstrip(rest)
                            if more:
                                out.append(join(more))
                            return out
                    k += 1
                    continue
                j = k
                while j < len(p) and not p[j].isspace():
                    j += 1
                cur.append(p[k:j])
                k = j
        if cur:
            out.append(join(cur))
        return out
    if not sep:
        return None
    for p in ps:
        if not isinstance(p, str) and not excludes(p, sep):
            return None
    rest = list(ps)
    while rest:
        p = rest.pop(0)
        if not isinstance(p, str):
            cur.append(p)
            continue
        k = p.find(sep)
        if k < 0 or (maxsplit >= 0 and len(out) >= maxsplit):
            cur.append(p)
            continue
        cur.append(p[:k])
        out.append(join([c for c in cur if c != '']))
        cur = []
        rest.insert(0, p[k + len(sep):])
    out.append(join([c for c in cur if c != '']))
    return out


def _lstrip(ps):
    ps = list(ps)
    while ps and isinstance(ps[0], str):
        q = ps[0].lstrip()
        if q:
            ps[0] = q
            break
        ps.pop(0)
    return ps


def strip(t, how='strip', chars=None):
    ps = parts(t)
    if ps is None:
        return None
    if how in ('strip', 'lstrip'):
        while ps:
            if not isinstance(ps[0], str):
                if chars is not None and not excludes(ps[0], chars):
                    return None
                break
            q = ps[0].lstrip(chars)
            if q:
                ps[0] = q
                break
            ps.pop(0)
    if how in ('strip', 'rstrip'):
        while ps:
            if not isinstance(ps[-1], str):
                if chars is not None and not excludes(ps[-1], chars):
                    return None
                break
            q = ps[-1].rstrip(chars)
            if q:
                ps[-1] = q
                break
            ps.pop()
    return join(ps)


def startswith(t, x, end=False):
    """TRUE, FALSE or None"""
    ps = parts(t)
    if ps is None:
        return None
    if not x:
        return TRUE
    if not ps:
        return FALSE
    p = ps[-1] if end else ps[0]
    if not isinstance(p, str):
        c = x[-1] if end else x[0]
        return FALSE if excludes(p, c) else None
    if len(p) >= len(x) or len(ps) == 1:
        return TRUE if (p.endswith(x) if end else p.startswith(x)) else FALSE
    if not (x.endswith(p) if end else x.startswith(p)):
        return FALSE
    return startswith(join(ps[:-1]) if end else join(ps[1:]), x[:-len(p)] if end else x[len(p):], end)


def contains(t, x):
    ps = parts(t)
    if ps is None:
        return None
    if any(isinstance(p, str) and x in p for p in ps):
        return TRUE
    if all(isinstance(p, str) or excludes(p, x) for p in ps):
        return FALSE
    return None


def replace(t, a, b):
    """text with literal a replaced, or None"""
    ps = parts(t)
    if ps is None or len(a) != 1:
        return None
    if any(not isinstance(p, str) and not excludes(p, a) for p in ps):
        return None
    return join([p.replace(a, b) if isinstance(p, str) else p for p in ps])


def differ(a, b):
    """certainly different strings"""
    for x, y in ((a, b), (b, a)):
        if x.op == 'idx' and y.op == 'str' and len(y.args[0]) >= 1 and excludes(x.args[0], y.args[0][0]):
            return True         # one character of a word that does not hold it
    if a.op == b.op == 'pathjoin' and len(a.args) == len(b.args) and a.args[:-1] == b.args[:-1]:
        return all(p is not None and all(('/' not in x) if isinstance(x, str) else excludes(x, '/') for x in p)
                   for p in (parts(a.args[-1]), parts(b.args[-1]))) and differ(a.args[-1], b.args[-1])
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return False
    if not pa or not pb:
        return bool(pa) != bool(pb)
    for p, q in ((pa, pb), (pb, pa)):
        # the plain spelling of a number is read as one
        if len(p) == len(q) == 1 and isinstance(p[0], str) and not isinstance(q[0], str) and q[0].op == 'fmt' \
                and q[0].args[0] == '' and kind(q[0].args[1]) == 'num':
            try:
                float(p[0])
            except ValueError:
                return True
    for i in (0, -1):
        x, y = pa[i], pb[i]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if (x[:n] != y[:n]) if i == 0 else (x[-n:] != y[-n:]):
                return True
        else:
            w, s = (x, y) if isinstance(y, str) else (y, x)
            if isinstance(s, str) and excludes(w, s[0] if i == 0 else s[-1]):
                return True
    for p, q in ((pa, pb), (pb, pa)):
        if len(p) == 1 and isinstance(p[0], str):
            # a plain text: every literal piece must occur in it, in order
            k = 0
            for x in q:
                if isinstance(x, str):
                    j = p[0].find(x, k)
                    if j < 0:
                        return True
                    k = j + len(x)
                elif k >= len(p[0]):
                    return True
    return False


def plain_path(t):
    """os.path.normpath leaves the text as it is"""
    ps = parts(t)
    if not ps or any(not isinstance(p, str) and not excludes(p, '/') for p in ps):
        return False
    segs, cur = [], []
    for p in ps:
        if not isinstance(p, str):
            cur.append(None)
            continue
        for k, x in enumerate(p.split('/')):
            if k:
                segs.append(cur)
                cur = []
            if x:
                cur.append(x)
    segs.append(cur)
    for k, s in enumerate(segs):
        if not s and not (k == 0 and len(segs) > 1):
            return False
        if all(x is not None for x in s) and ''.join(s) in ('.', '..'):
            return False
        if s == [None]:
            pass
    return True
