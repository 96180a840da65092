"""Helpers shared by the checks."""
import builtins
from vf.runner import *


def spec_call(ck, r, name, args, kw=None, st=None):
    f = ck.spec(name)
    if f is None:
        raise KeyError('no specification ' + name)
    return r.outcome(lambda s, cx: r.ip.call(r.ip.wrap(f, s, cx, None), [a if isinstance(a, V) else V(a) for a in args],
                                             {k: (a if isinstance(a, V) else V(a)) for k, a in (kw or {}).items()},
                                             s, cx, None), st=st)


def method_call(r, qual, obj, name, args, kw=None, st=None):
    """obj.name(*args); a vanished method is reported as such"""
    return r.attr(obj, name, True, st=st, args=args, kw=kw)


def field(o, key):
    """entry `key` of the dictionary an outcome returned"""
    return dget(o.value, const(key))


def cond_value(o, key):
    v = o.value
    return lift(lambda x: x if x.op == 'raises' else dget(x, const(key)), v)


def no_mutation(ck, name, o, where, what=''):
    m = sorted(str(x[1] if isinstance(x, tuple) else x) for x in o.st.mut)
    return ck.add(name, VIOLATED if m else PROVED, where, 'modifies %s' % ', '.join(m) if m else '',
                  'no write reaches an object the caller owns' + what)


def event_list(t):
    """the units of an effect sequence"""
    return flat_units(t)


def okval(t):
    """the value on successful runs: branches that raise are dropped (None when all raise)"""
    if t.op == 'raises':
        return None
    if t.op == 'ite':
        a, b = okval(t.args[1]), okval(t.args[2])
        if a is None:
            return b
        if b is None:
            return a
        return ite(batom(t.args[0]), a, b)
    return t


def raisecond(t, names=None):
    """condition under which the outcome raises (one of names)"""
    if t.op == 'raises':
        e = t.args[0]
        return TRUE if names is None or e in names or getattr(e, 'op', None) == 'str' and e.args[0] in names else FALSE
    if t.op == 'ite':
        return ite(batom(t.args[0]), raisecond(t.args[1], names), raisecond(t.args[2], names))
    return FALSE


def nested(r, d):
    """literal nested dictionary on the heap"""
    return r.dict({k: nested(r, v) if isinstance(v, dict) else v for k, v in d.items()})


def exc_names(t, acc=None):
    acc = set() if acc is None else acc
    if t.op == 'raises':
        e = t.args[0]
        acc.add(e if isinstance(e, str) else show(e))
    elif t.op == 'ite':
        exc_names(t.args[1], acc)
        exc_names(t.args[2], acc)
    else:
        acc.add(None)
    return acc


def isexc(x, exc):
    x, e = getattr(builtins, x, None), getattr(builtins, exc)
    return isinstance(x, type) and issubclass(x, e)


def expect(ck, name, out, ok, exc, w, rule):
    """on every path: raises exc, or completes"""
    names = exc_names(out.value)
    if ok:
        bad = names - {None}
        return ck.add(name, VIOLATED if bad and None not in names else PROVED if not bad else UNDECIDED, w,
                      'raises %s' % sorted(bad) if bad else '', rule)
    names = {exc if isinstance(x, str) and isexc(x, exc) else x for x in names}
    if names == {exc}:
        return ck.add(name, PROVED, w, '', rule)
    if exc not in names or names <= {None} :
        v = VIOLATED
    else:
        v = UNDECIDED if out.value.opq or soft(out.value) else VIOLATED
    return ck.add(name, v, w, 'required %s, got %s' % (exc, sorted(str(x) for x in names)), rule)


def atoms_of(t, op='ite'):
    """conditions of the case distinctions anywhere in the term"""
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite' and x.args[0] not in out:
            out.append(x.args[0])
        stack.extend(x.kids)
    return out


def syms_of(t):
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'sym':
            out.add(x)
        stack.extend(x.kids)
    return out


def split_cases(t, most=4):
    """[t under an assignment of its conditions], or None; only conditions over different unknowns are combined"""
    ats = atoms_of(t)
    if not ats:
        return [t]
    if len(ats) > most:
        return None
    used = set()
    for a in ats:
        s = syms_of(a)
        if not s or s & used:
            return None
        used |= s
    from vf.term import replace
    out = []
    for bits in range(2 ** len(ats)):
        out.append(replace(t, {a: TRUE if bits >> k & 1 else FALSE for k, a in enumerate(ats)}))
    return out
