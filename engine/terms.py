"""Terms of the abstract domain: affine combinations of atoms, flag bits, index arithmetic.

A term is
  int                              a 64-bit constant
  ('s', n)                         a symbol (an unknown value; facts about it live in the state)
  ('len', T)                       the capacity of table T (a power of two)
  ('+', c, ((atom, coef), ...))    affine term
  ('mod', x, L)                    x modulo the power of two L
  ('shr', x, k)                    x >> k
  ('op', name, ...)                anything else (uninterpreted)
  ('ptr', region, off)             an address inside a known region
  ('fn', name)                     a function
  ('tag', addr, t)                 a word read from addr with its dirty bit set
  ('agg', (t, ...))                a structure value
  ('undef',)
"""
M = (1 << 64) - 1


def s64(n):
    n &= M
    return n - (1 << 64) if n >> 63 else n


def is_num(t):
    return isinstance(t, int) or t[0] in ('s', '+', 'len', 'mod', 'shr', 'op')


def lin(t):
    if isinstance(t, int):
        return t & M, {}
    if t[0] == '+':
        return t[1], dict(t[2])
    return 0, {t: 1}


def _k(a):
    return repr(a)


def mk(c, d):
    c &= M
    items = [(a, s64(k)) for a, k in d.items() if k & M]
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: _k(x[0]))
    return ('+', c, tuple(items))


def add(a, b, kb=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0) + k * kb
    return mk(ca + cb * kb, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, d = lin(a)
    return mk(c * k, {x: y * k for x, y in d.items()})


def shr(a, k):
    if k == 0:
        return a
    if isinstance(a, int):
        return a >> k
    c, d = lin(a)
    q = 1 << k
    if s64(c) >= 0 and c % q == 0 and all(y % q == 0 for y in d.values()):
        return mk(c >> k, {x: y >> k for x, y in d.items()})
    if a[0] == 'shr':
        return ('shr', a[1], a[2] + k)
    return ('shr', a, k)


def mod(x, L):
    """x mod L, with L a power of two."""
    if isinstance(x, int) and isinstance(L, int):
        return x % L
    c, d = lin(x)
    changed = True
    while changed:
        changed = False
        for a, k in list(d.items()):
            if isinstance(a, tuple) and a[0] == 'mod' and a[2] == L:
                del d[a]
                t = add(mk(c, d), mulc(a[1], k))
                c, d = lin(t)
                changed = True
                break
            if a == L:
                del d[a]
                changed = True
                break
    if isinstance(L, int):
        c &= L - 1
        d = {a: k for a, k in d.items() if k % L}
    t = mk(c, d)
    if isinstance(t, int) and isinstance(L, int):
        return t % L
    return ('mod', t, L)


def div(a, q):
    """a / q for a difference of addresses that is a multiple of q."""
    c, d = lin(a)
    return mk(s64(c) // q, {x: k // q for x, k in d.items()})


def atoms_of(t, out):
    """All symbols/tables occurring in t."""
    if isinstance(t, tuple):
        if not t:
            return
        h = t[0]
        if h == 's':
            out.add(t)
            return
        if h == 'len':
            out.add(('T', t[1]))
            return
        if h in ('T', 'N') and len(t) == 2 and isinstance(t[1], int):
            out.add(t)
            return
        if h == 'P' and len(t) == 2 and isinstance(t[1], int):
            out.add(('T', t[1]))
            return
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                atoms_of(x, out)
    elif isinstance(t, frozenset):
        for x in t:
            atoms_of(x, out)


def rebuild(t, f):
    """Rebuild t bottom-up, replacing symbols/table ids by f(leaf) and renormalising."""
    if isinstance(t, int) or isinstance(t, str) or t is None:
        return t
    if isinstance(t, frozenset):
        return frozenset(rebuild(x, f) for x in t)
    if not t:
        return t
    h = t[0]
    if h == 's':
        return f(t)
    if h in ('len', 'P') and len(t) == 2 and isinstance(t[1], int):
        r = f(('T', t[1]))
        return (h, r[1])
    if h in ('T', 'N') and len(t) == 2 and isinstance(t[1], int):
        return f(t)
    if h == '+':
        c, d = t[1], {}
        acc = c
        for a, k in t[2]:
            acc = add(acc, mulc_any(rebuild(a, f), k))
        return acc
    if h == 'mod':
        return mod(rebuild(t[1], f), rebuild(t[2], f))
    if h == 'shr':
        return shr(rebuild(t[1], f), t[2])
    return tuple(rebuild(x, f) if isinstance(x, (tuple, frozenset)) else x for x in t)


def mulc_any(t, k):
    if k == 1:
        return t
    return mulc(t, k)


def show(t, names=None):
    names = names or {}
    if isinstance(t, int):
        if t in names:
            return names[t]
        for d, sfx in ((1, '|dirty'), (2, '|handover')):
            if t - d in names:
                return names[t - d] + sfx
        v = s64(t)
        return str(v) if abs(v) < 1 << 20 else hex(t)
    if t is None:
        return 'none'
    if isinstance(t, str):
        return t
    h = t[0] if t else ''
    if h == 's':
        return 'x%s' % (t[1],)
    if h == 'len':
        return 'len(T%s)' % (t[1],)
    if h == '+':
        r = []
        for a, k in t[2]:
            r.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + show(a, names))
        if t[1]:
            r.append(show(t[1], names))
        return '(' + ' + '.join(r) + ')'
    if h == 'mod':
        return '%s mod %s' % (show(t[1], names), show(t[2], names))
    if h == 'shr':
        return '(%s >> %d)' % (show(t[1], names), t[2])
    if h == 'tag':
        return show(t[2], names) + '(unpersisted)'
    if h == 'ptr':
        return '&%s+%s' % (show(t[1], names), show(t[2], names))
    if h == 'fn':
        return t[1]
    return '%s(%s)' % (h, ', '.join(show(x, names) for x in t[1:]))
