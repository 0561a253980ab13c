"""Model of the clevel container: a two-level (or more) persistent hash table whose slots, level links and root are changed by compare-and-swap.

Terms for what is read (X is a symbol, wrapped when something is learnt about it):
  ('op','meta',X)       a root object            ('op','first',m) ('op','last',m) ('op','resz',m)   its fields, immutable once published
  ('op','lvl',X)        a level                  ('op','bkt',l) ('op','cap',l)                      its fields, immutable; 'up' may change
  ('op','ent',X,A)      what was read from the slot at address A
  ('op','key',e)        the key of an entry, immutable
  ('op','new',X)        an object this operation allocated
X: ('op','vac',s) seen to be empty, ('op','occ',s) seen not to be, ('op','mine',s) seen to hold the key of the operation,
   ('op','other',s) seen to hold another key, ('op','gone',s) taken out by this operation, ('op','freed',s); for objects ('op','pub',s) published."""
from terms import *
from interp import *
from pmap import BaseModel, Violation

MASK = 0x0000FFFFFFFFFFFC
H = ('H',)
POP = ('POP',)
BASES = ('meta', 'first', 'last', 'lvl', 'ent', 'bkt', 'new')


def kind(v):
    return v[1] if isinstance(v, tuple) and len(v) > 2 and v[0] == 'op' else None


def state_of(v):
    """What is known about the value read."""
    x = v[2]
    return x[1] if isinstance(x, tuple) and x[0] == 'op' else None


def symbol_of(v):
    x = v[2]
    return x[2] if isinstance(x, tuple) and x[0] == 'op' else x


def strip(v):
    while kind(v) in ('off', 'tagged', 'lo48'):
        v = v[2]
    return v


LOW48 = (1 << 48) - 1
WORDS = BASES + ('tagged', 'lo48', 'hi16')


class ClInterp(Interp):
    """Words that carry an offset in the low 48 bits and a tag in the upper 16."""

    def i_trunc(self, st, i):
        v = self.val(st, i['o'][0])
        if i['t'] == 'i48' and kind(v) in WORDS:
            return ('op', 'lo48', v[2] if kind(v) in ('lo48', 'tagged') else v)
        if i['t'] == 'i16' and kind(v) == 'top':
            return v
        return super().i_trunc(st, i)

    def halves(self, v):
        """(low part, high part) of a word; a part is None where it is not known to be empty."""
        if v == 0:
            return 0, 0
        k = kind(v)
        if k == 'lo48':
            return v[2], 0
        if k == 'hi16':
            return 0, v[2]
        if k == 'tagged':
            return v[2], v[3]
        if k in BASES:
            return v, ('op', 'top', v)
        return None

    def join(self, lo, hi):
        if lo == 0 and hi == 0:
            return 0
        if hi == ('op', 'top', lo):
            return lo
        if hi == 0:
            return ('op', 'lo48', lo)
        if lo == 0:
            return ('op', 'hi16', hi)
        return ('op', 'tagged', lo, hi)

    def binop(self, st, op, ty, a, b, i=None):
        if op in ('and', 'or') and isinstance(a, int):
            a, b = b, a
        if op == 'and' and isinstance(b, int) and b in (LOW48, M & ~LOW48):
            if isinstance(a, tuple) and a[0] == 'undef':
                return [(st, 0)]
            h = self.halves(a)
            if h:
                return [(st, self.join(h[0], 0) if b == LOW48 else self.join(0, h[1]))]
        if op == 'shl' and b == 48:
            return [(st, ('op', 'hi16', a) if a != 0 else 0)]
        if op == 'lshr' and b == 48:
            h = self.halves(a)
            if h and not isinstance(a, int):
                return [(st, h[1])]
        if op == 'or':
            x, y = self.halves(a), self.halves(b)
            if x and y and (x[0] == 0 or y[0] == 0) and (x[1] == 0 or y[1] == 0):
                return [(st, self.join(x[0] or y[0], x[1] or y[1]))]
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if y == MASK and isinstance(x, tuple) and kind(x) in WORDS and kind(x) != 'hi16':
                    return [(st, ('op', 'off', strip(x)))]
        if op == 'add':
            d = lin(add(a, b))[1] if is_num(a) and is_num(b) else {}
            if sum(1 for x in d if kind(x) == 'cap') > 2:     # sums over all levels
                return [(st, st.fresh())]
        return super().binop(st, op, ty, a, b, i)

    def eqtest(self, st, a, b):
        r = self.model.learn(self, st, a, b)
        if r is not None:
            return r
        return super().eqtest(st, a, b)


class ClevelModel(BaseModel):
    RATIO = True

    def __init__(self, consts, spec):
        super().__init__(consts)
        self.spec = spec
        self.COARSE = spec.inserts
        self.UNROLL = 2 if spec.inserts else 5 * self.c.at['slots']
        self.names = {}
        self._arr = {}
        self.anchors = []

    def sh(self, t):
        return show(t, self.names)

    def joins(self, f):
        return True

    def at(self, n):
        return self.c.at[n]

    # ---- what comparisons teach ---------------------------------------------------------
    def mark(self, st, v, k):
        s = symbol_of(v)
        x = v[2]
        if isinstance(x, tuple) and x[0] == 'op':
            def f(t):
                return t
            # replace the wrapper
            old, new = x, ('op', k, s)
            self.rewrap(st, old, new)
        else:
            st.subst(s, ('op', k, s))

    def rewrap(self, st, old, new):
        tmp = ('s', '#wrap')

        def go(t):
            if t == old:
                return new
            if isinstance(t, tuple):
                if t and t[0] == '+':
                    acc = t[1]
                    for a, k in t[2]:
                        acc = add(acc, mulc(go(a), k))
                    return acc
                return tuple(go(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
            if isinstance(t, frozenset):
                return frozenset(go(x) for x in t)
            return t
        for fr in st.frames:
            fr.loc = {k: go(v) for k, v in fr.loc.items()}
        for d in ('mem', 'slots', 'obs', 'pend', 'g'):
            setattr(st, d, {go(k) if isinstance(k, tuple) else k: go(v) for k, v in getattr(st, d).items()})
        st.ne = frozenset(go(t) for t in st.ne)
        st.le = frozenset(go(t) for t in st.le)
        st.log = go(st.log)

    def fork(self, st, v, yes, no):
        """Learn one of two things about a value."""
        s2 = st.copy()
        self.mark(st, v, yes)
        self.mark(s2, v, no)
        return [(st, True), (s2, False)]

    def learn(self, it, st, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == 'ptr' and isinstance(y, int):
                return None
            # offset of something compared with nothing
            raw = kind(x) in ('ent', 'lvl', 'meta', 'new')
            if y == 0 and (kind(x) == 'off' or raw):
                v = strip(x)
                k = state_of(v) if kind(v) in ('ent', 'lvl') else 'occ'
                if kind(v) in ('meta', 'first', 'last', 'new', 'bkt'):
                    return [(st, False)]
                if k == 'vac':
                    return [(st, True)]
                if k is not None:
                    return [(st, False)]
                if kind(v) == 'lvl' and not st.g.get('link') == v:
                    return [(st, False)]
                return self.fork(st, v, 'vac', 'occ')
            if kind(x) in ('top', 'tagat') and kind(y) not in ('top', 'tagat'):
                self.anchors.append(('tag', self.generic(y, None)))
            # key of an entry compared with the key of the operation
            if kind(x) == 'key' and y == self.key:
                self.count('key comparisons')
                v = x[2]
                k = state_of(v)
                if k == 'mine':
                    return [(st, True)]
                if k == 'other':
                    return [(st, False)]
                twice = self.second(st, v)
                r = self.fork(st, v, 'mine', 'other')
                r[0][0].g['saw'] = 1
                if twice:
                    r[0][0].g['twice'] = 1
                return r
        for x, y in ((a, b), (b, a)):
            x, y = (v[2] if kind(v) in ('lo48', 'off') else v for v in (x, y))
            if self.spec.rehash and kind(x) == 'lvl' and kind(y) == 'first':
                s2 = st.copy()
                if x == st.slots.get(st.slots.get(self.last(st))):
                    st.g['two'] = ('pair', x, y)
                return [(st, True), (s2, False)]
            if self.spec.walk and kind(x) in ('lvl', 'last') and kind(y) == 'first':
                s2 = st.copy()
                st.g['top'] = ('pair', x, y)
                return [(st, True), (s2, False)]
        if kind(a) == kind(b) == 'ent' and a != b and a[3] != b[3]:
            if {state_of(a), state_of(b)} & {'vac'} and len({state_of(a), state_of(b)}) > 1 and None not in (state_of(a), state_of(b)):
                return [(st, False)]
            s2 = st.copy()
            for x, y in ((a, b), (b, a)):       # the same word has been read from two places
                st.obs[x[3]] = st.obs.get(x[3], frozenset()) | {y}
            return [(st, True), (s2, False)]
        if kind(a) == kind(b) == 'meta':
            if a == b:
                return [(st, True)]
            s2 = st.copy()
            st.subst(symbol_of(b), symbol_of(a))
            return [(st, True), (s2, False)]
        # a private object is nothing that was read before it was published
        for x, y in ((a, b), (b, a)):
            x, y = strip(x), strip(y)
            if kind(x) == 'new' and state_of(x) != 'pub' and kind(y) in ('ent', 'lvl', 'meta', 'first', 'last'):
                return [(st, False)]
        return None

    # ---- memory of the operation ------------------------------------------------------------
    def is_array(self, root):
        """Is this local variable an array that is accessed with a variable index?"""
        if not self.COARSE or root[0] != 'al' or not isinstance(root[3], int) or root[3] < 0:
            return False
        fn = root[2]
        a = self._arr.get(fn)
        if a is None:
            a = self._arr[fn] = set()
            for b in self.p.fn[fn]['blocks']:
                for i in b:
                    if i['op'] == 'getelementptr' and i['gep'][1] and i['o'][0][0] == 'l':
                        a.add(i['o'][0][1])
        return root[3] in a

    def mem_load(self, st, p, t):
        r, o = p[1], p[2]
        if self.is_array(r):
            v = st.mem.get((r, 0))
            if v == 'lvl':
                return ('op', 'lvl', ('op', 'occ', st.fresh()))
            return st.fresh()
        if t == 'i16' and isinstance(o, int) and o % 8 == self.at('tag') and (r, o - self.at('tag')) in st.mem:
            v = st.mem[(r, o - self.at('tag'))]
            if kind(v) == 'tagged':
                return v[3]
            return ('op', 'tag', v)
        k = (r, o)
        if k in st.mem:
            return st.mem[k]
        return super().mem_load(st, p, t)

    def mem_store(self, st, p, v, t):
        r, o = p[1], p[2]
        if self.is_array(r):
            st.mem[(r, 0)] = 'lvl' if kind(v) in ('lvl', 'first', 'last') or v == 0 else 'any'
            return
        if t == 'i16' and isinstance(o, int) and o % 8 == self.at('tag') and (r, o - self.at('tag')) in st.mem:
            k = (r, o - self.at('tag'))
            st.mem[k] = ('op', 'tagged', strip(st.mem[k]), v)
            return
        st.mem[(r, o)] = v

    def where_in(self, A):
        """(base, offset) of an address inside the pool."""
        c, d = lin(A)
        bs = [a for a, k in d.items() if k == 1 and kind(a) in BASES]
        if len(bs) != 1:
            return None, None
        return bs[0], mk(c, {a: k for a, k in d.items() if a != bs[0]})

    def freed(self, it, st, v, ins):
        if kind(v) in ('ent', 'new') and state_of(v) == 'freed':
            self.violate(it, st, ['C20'], 'use-after-free', 'an object is used that this operation has freed', ins)

    def norm(self, p):
        """Pointers computed from offsets and the address of the pool."""
        if is_num(p) and not isinstance(p, int) and self.where_in(p)[0] is not None:
            return ('ptr', POP, p)
        return p

    def load(self, it, st, p, t, atomic, ins):
        p = self.norm(p)
        if isinstance(p, int):
            self.violate(it, st, ['C20'], 'null', 'an empty pointer is followed', ins)
            return []
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            return st.fresh()
        r, o = p[1], p[2]
        if r == H:
            return self.load_root(it, st, o, ins)
        if r[0] == 'KEY':
            return self.key if o == 0 else ('s', 'value %s' % o)
        if r[0] == 'TMP':
            if not self.same_index(o):
                self.violate(it, st, ['C20'], 'scratch', 'the scratch object of another thread is used', ins)
            i = 0 if not self.same_index(o, 8) else 8
            return st.mem.get((r, i), ('s', 'scratch %s %d' % (r[1], i)))
        if r == POP:
            self.count('loads')
            return self.load_pool(it, st, o, t, ins)
        if r[0] == 'OBJ':
            self.freed(it, st, r[1], ins)
            return st.mem.get((r, o), st.fresh())
        return super().load(it, st, p, t, atomic, ins)

    def same_index(self, o, add_=0):
        want = mulc(('s', 'thread'), 16)
        if self.spec.thread == 0:
            return isinstance(o, int) and o in (0, 8) if not add_ else o == 8
        if add_:
            return sub(o, want) == 8
        return sub(o, want) in (0, 8)

    def load_root(self, it, st, o, ins):
        a = self.c.at
        if o == a['meta']:
            v = ('op', 'meta', st.fresh())
            st.g['lastmeta'] = v
            if not self.spec.rehash:
                st.g['fresh'] = 1
            st.g.pop('twice', None)
            self.count('loads of the root')
            return v
        if o == a['uuid']:
            return ('s', 'uuid')
        for n in ('tmp_meta', 'tmp_level', 'tmp_entry'):
            if o == a[n]:
                return ('s', 'uuid')
            if o == a[n] + 8:
                return ('s', n)
        if o == a['expand_bucket']:
            if self.spec.rehash:
                if st.g.get('dropped'):
                    self.violate(it, st, ['C21'], 'cursor-stale', 'rehashing of the next level does not start at its first bucket', ins)
                return self.cursor(st)
            return st.fresh()
        return st.fresh()

    def load_pool(self, it, st, o, t, ins):
        base, off = self.where_in(o)
        if base is None:
            raise AnalysisError('address %s not understood at %s' % (self.sh(o), it.where(st)))
        k = kind(base)
        a = self.c.at
        self.freed(it, st, base, ins)
        if k == 'ent':
            if state_of(base) == 'vac':
                self.violate(it, st, ['C20'], 'null', 'the entry of an empty slot is read', ins)
            return ('op', 'key', base) if off == 0 else ('op', 'val', base, off)
        if k == 'new':
            return st.mem.get((('OBJ', base), off), st.fresh())
        if k == 'meta':
            for n, f in (('meta.first', 'first'), ('meta.last', 'last'), ('meta.resizing', 'resz')):
                if off == a[n]:
                    if f == 'last' and self.spec.rehash:        # only this operation changes it
                        return self.last(st)
                    return ('op', f, base)
        if k in ('lvl', 'first', 'last'):
            if off == a['level.buckets']:
                return ('s', 'uuid')
            if off == a['level.buckets'] + 8:
                return ('op', 'bkt', base)
            if off == a['level.capacity']:
                return ('op', 'cap', base)
            if off == a['level.up']:
                if self.spec.rehash and base == self.last(st):     # there are always two levels; links do not change once set
                    if base not in st.slots:
                        st.slots[base] = ('op', 'lvl', ('op', 'occ', st.fresh()))
                    return st.slots[base]
                v = ('op', 'lvl', st.fresh())
                if self.spec.rehash:
                    if base in st.slots:
                        return st.slots[base]
                    if k == 'first' or base == st.slots.get(self.last(st)):
                        st.slots[base] = v
                    return v
                if not (self.spec.walk and base == st.g.get('level') and not self.complete(st)):
                    st.g['link'] = v
                    st.g['linkof'] = base
                else:
                    st.g['gap'] = 1
                st.slots = {q: w for q, w in st.slots.items() if q != base}
                if k in ('first', 'last'):
                    st.slots[base] = v
                return v
        if k == 'bkt':
            A = o
            st.g.pop('fresh', None)
            if t == 'i16':
                return ('op', 'tagat', st.fresh(), sub(o, a['tag']))
            self.visit(it, st, base, A, ins)
            e = ('op', 'ent', st.fresh(), A)
            if self.spec.rehash and base[2] == self.last(st):
                self.source(it, st, base, A, e)
            return e
        raise AnalysisError('access to %s+%s not understood at %s' % (k, self.sh(off), it.where(st)))

    # ---- which slots a search has looked at ----------------------------------------------------
    def split(self, st, bkt, A):
        """(bucket index, slot index) of a slot address; None where it is not of that form."""
        c, d = lin(sub(A, bkt))
        B, S = self.at('bucket_size'), self.at('slot_size')
        idx, slot = [], []
        cur = lin(self.cursor(st))[1] if self.spec.rehash else ()
        for x, k in d.items():
            k = s64(k)
            (idx if k % B == 0 and (x[0] != 's' or x in cur) else slot).append((x, k))     # a plain counter counts slots
        if any(k % S for _, k in slot) or s64(c) % S:
            return None
        c = s64(c)
        return mk(0, {x: k // B for x, k in idx}), mk(c // S, {x: k // S for x, k in slot})

    def visit(self, it, st, bkt, A, ins):
        self.count('slot loads')
        L = bkt[2]
        r = self.split(st, bkt, A)
        if r is None:
            if not self.spec.rehash:
                self.violate(it, st, ['C20'], 'slot-address', 'a slot is read at an address that is not a slot of a bucket of the level', ins)
            return
        idx, j = r
        if not (st.entails(j) and st.entails(sub(self.at('slots') - 1, j))):
            self.violate(it, st, ['C20'], 'slot-range', 'a slot is read outside of its bucket', ins)
        gen = self.generic(idx, L)
        if gen is None:
            if not self.spec.rehash:
                self.violate(it, st, ['C20'], 'bucket', 'the bucket searched is not determined by the hash of the key and the capacity of the level alone', ins)
            return
        if not self.spec.rehash:
            self.anchors.append(('bucket', gen))
        if not self.spec.walk:
            return
        g = st.g
        if g.get('level') != L:
            m = g.get('lastmeta')
            if L == ('op', 'last', m):
                self.forget(st)
                g['level'] = L
                g['walk'] = m
            elif g.get('link') == L and g.get('linkof') == g.get('level') and self.complete(st):
                self.forget(st, 'gap')
                g['level'] = L
            else:
                g['gap'] = 1
                self.forget(st, 'gap')
                g['level'] = L
        key = 'seen:' + repr(gen)
        n = g.get(key, 0)
        if n == 'all':
            return
        if isinstance(j, int):
            b = list(g.get('bits:' + key) or '.' * self.at('slots'))
            if j < len(b):
                b[j] = 'x'
            g['bits:' + key] = ''.join(b)
            if '.' not in b:
                g[key] = 'all'
            return
        if n == j or st.entails(sub(j, n)) and st.entails(sub(n, j)):
            g[key] = add(j, 1)

    def forget(self, st, keep=None):
        for k in [k for k in st.g if k == 'top' or k == 'gap' and keep != 'gap' or k.startswith(('seen:', 'bits:'))]:
            del st.g[k]

    def generic(self, idx, L, key=None):
        """The function of hash and capacity that chooses the bucket."""
        cap, ok = ('op', 'cap', L), [True]
        def go(t):
            if t == cap:
                return ('s', 'capacity')
            if t == ('op', 'hash', key or self.key):
                return ('s', 'hash')
            if isinstance(t, tuple):
                if t and t[0] == '+':
                    acc = t[1]
                    for a, k in t[2]:
                        acc = add(acc, mulc(go(a), k))
                    return acc
                if t and t[0] == 's':
                    ok[0] = False
                    return t
                return tuple(go(x) if isinstance(x, tuple) else x for x in t)
            return t
        r = go(idx)
        return r if ok[0] else None

    def complete(self, st):
        """Have all slots of both candidate buckets of the current level been looked at?"""
        want = self.c.at['buckets']
        self.settle(st)
        return len([v for k, v in st.g.items() if k.startswith('seen:') and v == 'all']) >= want

    def settle(self, st):
        for k, v in st.g.items():
            if k.startswith('seen:') and v != 'all' and st.entails(sub(v, self.at('slots'))):
                st.g[k] = 'all'

    def finished(self, st):
        g = st.g
        if g.get('gap') or not g.get('level') or not self.complete(st):
            return 'not all slots that may hold the key were looked at'
        if g.get('top') != ('pair', g['level'], ('op', 'first', g['walk'])) and g['level'] != ('op', 'first', g['walk']):
            return 'the search did not go on to the first level'
        if not g.get('fresh') or g.get('lastmeta') != g.get('walk'):
            return 'the root was not read again, and found to be the same, at the end of the search'
        return None

    # ---- stores -----------------------------------------------------------------------------
    def store(self, it, st, p, v, t, atomic, ins):
        p = self.norm(p)
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            return None
        r, o = p[1], p[2]
        if r[0] == 'TMP':
            st.mem[(r, 8 if self.same_index(o, 8) else 0)] = v
            return None
        if r[0] == 'OBJ' or r == POP and kind(self.where_in(o)[0]) == 'new':
            if r == POP:
                b, o = self.where_in(o)
            else:
                b = r[1]
            self.freed(it, st, b, ins)
            if state_of(b) == 'pub':
                self.violate(it, st, ['C19'], 'plain-store', 'an object that other threads can see already is written with a plain store', ins)
            st.mem[(('OBJ', b), o)] = v
            st.pend[('obj', b, o)] = 1
            return None
        if r == H:
            if o == self.at('expand_bucket') and self.spec.rehash:
                self.step_bucket(it, st, v, ins)
                st.mem[(H, o)] = v if v == 0 else st.fresh()
                st.pend[('cursor',)] = 1
                return None
            self.violate(it, st, ['C19'], 'plain-store', 'a field of the table that other threads use is written with a plain store', ins)
            return None
        if r == POP:
            base, off = self.where_in(o)
            if kind(base) == 'bkt' and self.spec.rehash and v == 0:
                self.clear_source(it, st, base, o, ins)
                return None
            self.violate(it, st, ['C19'], 'plain-store', 'a %s that other threads use is written with a plain store' %
                         ('slot' if kind(base) == 'bkt' else 'word'), ins)
            return None
        return super().store(it, st, p, v, t, atomic, ins)

    def source(self, it, st, bkt, A, e):
        """A slot of the last level is read: how far has the current bucket been emptied?"""
        r = self.split(st, bkt, A)
        g = st.g
        if r is None or not self.same(st, r[0], self.cursor(st)):
            g['src'] = None
            return
        j = r[1]
        n, v = g.get('src') or (None, None)
        if n is not None and self.same(st, j, n):
            g['src'] = (n, e)
        elif n is not None and self.settled(v) and self.same(st, j, add(n, 1)):
            g['src'] = (j, e)
        else:
            g['src'] = (0, e) if self.same(st, j, 0) else None

    def settled(self, v):
        return v == 'done' or isinstance(v, tuple) and state_of(v) == 'vac'

    def same(self, st, a, b):
        return a == b or st.entails(sub(a, b)) and st.entails(sub(b, a))

    def cursor(self, st):
        return st.mem.setdefault((H, self.at('expand_bucket')), ('s', 'bucket'))

    def step_bucket(self, it, st, v, ins):
        self.count('steps of the rehashing cursor')
        g = st.g
        if any(k[0] in ('slot', 'slots') for k in st.pend):
            self.violate(it, st, ['C19'], 'step-early', 'rehashing goes on to the next bucket before the changes to the slots are durable', ins)
        src = g.pop('src', None)
        if v == 0:
            if not g.pop('dropped', None):
                self.violate(it, st, ['C21'], 'cursor-reset', 'rehashing starts again at the first bucket although the level was not dropped', ins)
            return
        if v != add(self.cursor(st), 1):
            self.violate(it, st, ['C21'], 'cursor-step', 'rehashing does not go on to the next bucket', ins)
            return
        if not src or not self.settled(src[1]) or not st.entails(sub(src[0], self.at('slots') - 1)):
            self.violate(it, st, ['C21'], 'cursor-early', 'rehashing goes on to the next bucket although not all slots of this one were seen empty or emptied', ins)

    def clear_source(self, it, st, base, A, ins):
        src = st.g.get('moved')
        if src is None or src[3] != A:
            self.violate(it, st, ['C21'], 'clear-first', 'a slot of the old level is cleared although its entry has not been copied to the new level', ins)
        elif ('slot', st.g['movedto']) in st.pend:
            self.violate(it, st, ['C21', 'C19'], 'clear-early', 'a slot of the old level is cleared before the copy of its entry is durable', ins)
        self.count('moved entries')
        if src is not None and st.g.get('src') and st.g['src'][1] == src:
            st.g['src'] = (st.g['src'][0], 'done')
        st.pend[('slot', A)] = 0
        st.g.pop('moved', None)
        st.g.pop('movedto', None)

    # ---- compare-and-swap ---------------------------------------------------------------------
    def cmpxchg(self, it, st, p, e, n, weak, ins):
        p = self.norm(p)
        if not (isinstance(p, tuple) and p[0] == 'ptr' and p[1] in (H, POP)):
            return super().cmpxchg(it, st, p, e, n, weak, ins)
        o = p[2]
        s2 = st.copy()
        ok = None
        if p[1] == H:
            if o != self.at('meta'):
                self.violate(it, st, ['C19'], 'cas-what', 'a field of the table is changed that no operation changes', ins)
            ok = self.cas_meta(it, st, e, n, ins)
            f = ('op', 'meta', s2.fresh())
            s2.g['lastmeta'] = f
        else:
            base, off = self.where_in(o)
            if base is None:
                raise AnalysisError('address %s not understood at %s' % (self.sh(o), it.where(st)))
            if kind(base) == 'bkt':
                ok = self.cas_slot(it, st, o, e, n, ins)
                f = ('op', 'ent', s2.fresh(), o)
            elif kind(base) in ('lvl', 'first', 'last') and off == self.at('level.up'):
                ok = self.cas_up(it, st, base, e, n, ins)
                f = ('op', 'lvl', s2.fresh())
                s2.slots[base] = f
            else:
                self.violate(it, st, ['C19'], 'cas-what', 'a word is changed that no operation changes', ins)
                f = s2.fresh()
        r = [(s2, ('agg', (f, 0)))]
        if ok is not False:
            r.append((st, ('agg', (e, 1))))
        return r

    def publish(self, it, st, n, what, ins):
        """The object n becomes visible: its contents have to be durable."""
        v = strip(n)
        if kind(v) != 'new':
            return
        if state_of(v) == 'freed':
            self.violate(it, st, ['C20'], 'use-after-free', '%s is published that this operation has freed' % what, ins)
            return
        for k in st.pend:
            if k[0] == 'obj' and k[1] == v:
                self.violate(it, st, ['C19'], 'publish-early', '%s is published before its contents are durable' % what, ins)
                break
        if state_of(v) is None:
            for k in [k for k in st.mem if k[0] == ('OBJ', v)]:
                del st.mem[k]
            self.mark(st, v, 'pub')

    def cas_slot(self, it, st, A, e, n, ins):
        self.count('slot compare-and-swaps')
        ev, nv = strip(e), strip(n)
        seen = kind(ev) == 'ent' and (ev[3] == A or ev in st.obs.get(A, ()))
        if kind(ev) == 'ent' and not seen:
            self.violate(it, st, ['C20'], 'other-slot', 'a slot is changed on the strength of what was read from another slot', ins)
        elif kind(e) in ('off', 'tagged'):
            self.violate(it, st, ['C20'], 'not-observed', 'the expected content of a slot is not the whole word that was read', ins)
        vac = e == 0 or seen and state_of(ev) == 'vac'
        mine = seen and state_of(ev) == 'mine'
        if nv == 0:
            self.count('removals')
            if not mine:
                self.violate(it, st, ['C20'], 'remove-other', 'an entry is removed whose key was not found to be the key of the operation', ins)
            elif not self.spec.removes and not st.g.pop('twice', None):
                self.violate(it, st, ['C20'], 'remove-only', 'an entry is removed by an operation that may only remove a second entry of its key', ins)
            st.g['removed'] = 1
            st.pend[('slot', A)] = ev
            if seen:
                self.mark(st, ev, 'gone')
            return True
        elif kind(nv) == 'new':
            self.count('entries published')
            self.anchors.append(('tag', self.generic(n[3], None) if kind(n) == 'tagged' else None))
            if not self.is_created(st, n):
                self.violate(it, st, ['C20'], 'wrong-entry', 'a slot is given something that is not the entry made from the key and value of the operation', ins)
            if vac:
                if not self.spec.inserts:
                    self.violate(it, st, ['C20'], 'adds', 'an operation that may only replace an entry adds one', ins)
                st.g['added'] = 1
            elif mine:
                if not self.spec.replaces:
                    self.violate(it, st, ['C20'], 'replaces', 'an operation that may only add an entry replaces one', ins)
                st.g['replaced'] = 1
                self.mark(st, ev, 'gone')
            else:
                self.violate(it, st, ['C20'], 'replace-other', 'an entry is replaced whose key was not found to be the key of the operation', ins)
            self.publish(it, st, n, 'an entry', ins)
            n = self.again(st, n)
        elif kind(nv) == 'ent' and self.spec.rehash:
            self.count('entries copied')
            if not vac:
                self.violate(it, st, ['C21'], 'copy-over', 'the copy of an entry is put where an entry may be already', ins)
            if kind(n) != 'ent':
                self.violate(it, st, ['C21'], 'copy-word', 'what is copied is not the whole word that was read from the slot of the old level', ins)
            if state_of(nv) != 'occ':
                self.violate(it, st, ['C21'], 'copy-nothing', 'the content of an empty slot is copied', ins)
            if self.level_of(nv[3]) != self.last(st) or self.level_of(A) != ('op', 'first', self.base_meta(st)):
                self.violate(it, st, ['C21'], 'copy-where', 'an entry is copied that is not from the last level, or not to the first', ins)
            b, _ = self.where_in(A)
            r = self.split(st, b, A) if kind(b) == 'bkt' else None
            gen = self.generic(r[0], b[2], ('op', 'key', nv)) if r else None
            self.anchors.append(('bucket', gen))
            if gen is None:
                self.violate(it, st, ['C21'], 'copy-bucket', 'the bucket an entry is copied to is not determined by the hash of its key and the capacity of the level alone', ins)
            st.g['moved'] = nv
            st.g['movedto'] = A
        else:
            self.violate(it, st, ['C20'], 'wrong-entry', 'a slot is given something that is not an entry of this operation', ins)
        w = strip(n)
        for k in [k for k, x in st.pend.items() if k[0] == 'slot' and x == w]:
            del st.pend[k]      # an entry that is durable in one slot need not be so in another
        st.pend[('slot', A)] = w
        return True

    def again(self, st, n):
        v = strip(n)
        if kind(v) == 'new' and state_of(v) is None:
            return ('op', 'new', ('op', 'pub', symbol_of(v)))
        return v

    def second(self, st, ev):
        """Has another entry with the key of the operation been seen, in another slot?"""
        found = []

        def go(t):
            if isinstance(t, tuple):
                if kind(t) == 'ent' and state_of(t) == 'mine' and t != ev:
                    found.append(t)
                    return
                for x in t:
                    if isinstance(x, tuple):
                        go(x)
        for fr in st.frames:
            for v in fr.loc.values():
                go(v)
        for v in st.mem.values():
            go(v)
        return bool(found)

    def is_created(self, st, n):
        v = strip(n)
        c = st.mem.get((('TMP', 'entry'), 8))
        if strip(c) != v:
            return False
        return True

    def level_of(self, A):
        base, _ = self.where_in(A)
        return base[2] if kind(base) == 'bkt' else None

    def base_meta(self, st):
        return st.g.get('lastmeta')

    def cas_up(self, it, st, l, e, n, ins):
        self.count('levels linked')
        v = strip(n)
        if e != 0 and not (kind(e) == 'lvl' and state_of(e) == 'vac'):
            self.violate(it, st, ['C21'], 'relink', 'the link of a level is changed although it may be set already', ins)
        if kind(v) != 'new' or kind(n) != 'new':
            self.violate(it, st, ['C21'], 'link-what', 'a level is linked that is not a new one', ins)
            return True
        a = self.c.at
        ob = ('OBJ', v)
        b = st.mem.get((ob, a['level.buckets'] + 8))
        cap = st.mem.get((ob, a['level.capacity']))
        up = st.mem.get((ob, a['level.up']))
        want = mulc(('op', 'cap', l), 2)
        if cap != want:
            self.violate(it, st, ['C21'], 'new-capacity', 'the capacity of the new level is %s, not twice the capacity of the level below' % (self.sh(cap) if cap is not None else 'not set'), ins)
        if kind(b) != 'new' or st.mem.get((('OBJ', b), 'size')) != mulc(want, a['bucket_size']):
            self.violate(it, st, ['C21'], 'new-buckets', 'the new level has no array of as many buckets as its capacity says', ins)
        if up != 0:
            self.violate(it, st, ['C21'], 'new-up', 'the link of the new level is not empty', ins)
        if kind(l) != 'first':
            self.violate(it, st, ['C21'], 'link-where', 'a new level is linked to a level that was not seen as the first', ins)
        self.publish(it, st, n, 'a level', ins)
        if kind(b) == 'new' and state_of(b) is None:
            self.mark(st, b, 'pub')
        st.pend[('up', l)] = 1
        st.slots[l] = self.again(st, n)
        return True

    def last(self, st):
        return ('op', 'last', ('s', 'last')) if self.spec.rehash else None

    def cas_meta(self, it, st, e, n, ins):
        self.count('root compare-and-swaps')
        v = strip(n)
        if kind(e) != 'meta':
            self.violate(it, st, ['C21'], 'root-expected', 'the root is changed without comparing it with what was read', ins)
            return True
        if kind(n) != 'new':
            self.violate(it, st, ['C21'], 'root-what', 'the root is set to something that is not a new root object', ins)
            return True
        a = self.c.at
        ob = ('OBJ', v)
        f, l, z = (st.mem.get((ob, a[x])) for x in ('meta.first', 'meta.last', 'meta.resizing'))
        F, L = ('op', 'first', e), self.last(st) or ('op', 'last', e)
        grow = f != F
        drop = l != L
        if grow and f != st.slots.get(F):
            self.violate(it, st, ['C21'], 'root-first', 'the new root names as first level neither the old first level nor the one linked to it', ins)
        if grow and ('up', F) in st.pend:
            self.violate(it, st, ['C19'], 'root-early', 'the root names a level before the link to it is durable', ins)
        if drop and l != st.slots.get(L):
            self.violate(it, st, ['C21'], 'root-last', 'the new root names as last level neither the old last level nor the one linked to it', ins)
        if drop and not self.spec.rehash:
            self.violate(it, st, ['C21'], 'root-drop', 'a level is dropped by an operation that has not moved its entries', ins)
        if drop and self.spec.rehash:
            cur = self.cursor(st)
            if cur != ('op', 'cap', L) and not (st.entails(sub(cur, ('op', 'cap', L))) and st.entails(sub(('op', 'cap', L), cur))):
                self.violate(it, st, ['C21'], 'root-drop', 'a level is dropped before all its buckets have been moved', ins)
        if drop and z != 1 and st.g.get('two') != ('pair', st.slots.get(l), F):
            self.violate(it, st, ['C21'], 'root-resizing', 'the new root says that no entries are being moved although more than two levels may be left', ins)
        if not drop and z != 1:
            self.violate(it, st, ['C21'], 'root-resizing', 'the new root does not say that entries are being moved', ins)
        self.publish(it, st, n, 'a root object', ins)
        if drop and self.spec.rehash:
            st.slots.pop(L, None)
            st.slots.pop(l, None)
            st.g.pop('two', None)
            self.rewrap(st, L, ('op', 'lvl', ('op', 'occ', st.fresh())))
            self.rewrap(st, l, L)
            st.g['dropped'] = 1
        st.pend[('meta',)] = 1
        return True

    def rmw(self, it, st, p, op, v, ins):
        return st.fresh()

    # ---- the persistent memory library --------------------------------------------------------
    def persist(self, it, st, p, n, ins):
        self.count('write-backs')
        p = self.norm(p)
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            return
        r, o = p[1], p[2]

        def inside(x, w=8):
            d = sub(x, o)
            if isinstance(d, int) and isinstance(n, int):
                return 0 <= s64(d) and s64(d) + w <= n
            return False
        gone = []
        for k in st.pend:
            if r == H:
                if k == ('meta',) and inside(self.at('meta')) or k == ('cursor',) and inside(self.at('expand_bucket')):
                    gone.append(k)
            elif r == POP:
                if k[0] == 'slot' and inside(k[1]):
                    gone.append(k)
                if k[0] == 'up' and inside(add(k[1], self.at('level.up'))):
                    gone.append(k)
                if k[0] == 'obj' and (inside(add(k[1], k[2]), 1)):
                    gone.append(k)
            elif r[0] == 'OBJ' and k[0] == 'obj' and k[1] == r[1] and inside(k[2], 1):
                gone.append(k)
        for k in gone:
            del st.pend[k]

    def call(self, it, st, name, f, cal, args, ins):
        if name and name.startswith('llvm.'):
            return self.intrinsic(it, st, name, args, ins)
        d = f['dem'] if f else (name or '')
        if 'numeric_limits<unsigned long>::max' in d:
            return [(st, M)]
        if name == 'pmemobj_persist':
            self.persist(it, st, args[1], args[2], ins)
            return [(st, 0)]
        if 'pmemobj_direct_inline' in (name or ''):
            return self.direct(it, st, args, ins)
        if name == 'pmemobj_xalloc':
            return self.alloc(it, st, args, ins)
        if name == 'pmemobj_free':
            return self.free(it, st, args[0], ins)
        if name in ('pmemobj_tx_stage', 'usleep'):
            return [(st, 0)]
        if name == 'pmemobj_pool_by_oid' or name == 'pmemobj_pool_by_ptr':
            return [(st, ('s', 'pool'))]
        if 'array_constructor<' in d and 'blocks' in (f or {}):
            return [(st, 0)]
        if 'make_persistent_object<' in d:
            return self.new_entry(it, st, args, ins)
        if '::hash<' in d and 'operator()' in d or name == 'std::hash':
            return [(st, ('op', 'hash', self.arg_key(st, args)))]
        if '::expand(' in d and it.p.fn.get(name) and st.frames[0].fn != name and self.spec.cut_expand:
            self.count('expansions')
            return [(st, 0)]
        return None

    def arg_key(self, st, args):
        a = args[-1]
        if isinstance(a, tuple) and a[0] == 'ptr':
            if a[1][0] == 'KEY':
                return self.key
            b, off = self.where_in(a[2]) if a[1] == POP else (None, None)
            if kind(b) == 'ent':
                return ('op', 'key', b)
        return a

    def direct(self, it, st, args, ins):
        off = args[-1]
        if isinstance(off, tuple) and off[0] == 'agg':
            off = off[1][1]
        if isinstance(off, tuple) and off[0] == 'ptr' and off[1][0] in ('al', 'N'):
            off = st.mem.get((off[1], add(off[2], 8)))
        if off == 0:
            return [(st, 0)]
        v = strip(off)
        if isinstance(v, tuple) and v[0] == 's' and v[1] in ('tmp_meta', 'tmp_level', 'tmp_entry'):
            return [(st, ('ptr', ('TMP', v[1][4:]), 0))]
        if kind(v) == 'new':
            if state_of(v) == 'freed':
                self.freed(it, st, v, ins)
            return [(st, ('ptr', ('OBJ', v), 0))]
        if kind(v) == 'lvl' and state_of(v) is None:
            return [(st, ('ptr', POP, v))]
        if kind(v) == 'ent' and state_of(v) is None:
            s2 = st.copy()
            self.mark(st, v, 'occ')
            self.mark(s2, v, 'vac')
            s = symbol_of(v)
            return [(st, ('ptr', POP, (v[0], v[1], ('op', 'occ', s)) + v[3:])), (s2, 0)]
        if kind(v) in ('ent', 'lvl') and state_of(v) == 'vac':
            return [(st, 0)]
        if kind(v) in BASES:
            return [(st, ('ptr', POP, v))]
        raise AnalysisError('address of %s not understood at %s' % (self.sh(off), it.where(st)))

    def alloc(self, it, st, args, ins):
        self.count('allocations')
        dst, size, ctor, arg = args[1], args[2], args[5], args[6]
        v = ('op', 'new', st.fresh())
        st.mem[(('OBJ', v), 'size')] = size
        self.put_oid(it, st, dst, v, ins)
        d = self.p.fn.get(ctor[1], {}).get('dem', '') if isinstance(ctor, tuple) and ctor[0] == 'fn' else ''
        if 'array_constructor' in d:
            return [(st, 0)]
        if isinstance(ctor, tuple) and ctor[0] == 'fn' and 'blocks' in self.p.fn.get(ctor[1], {}):
            return ('into', ctor[1], [args[0], ('ptr', ('OBJ', v), 0), arg])
        return [(st, 0)]

    def put_oid(self, it, st, dst, v, ins):
        if not (isinstance(dst, tuple) and dst[0] == 'ptr'):
            raise AnalysisError('destination of an allocation not understood at %s' % it.where(st))
        r, o = dst[1], dst[2]
        if r[0] == 'TMP':
            if not self.same_index(o):
                self.violate(it, st, ['C20'], 'scratch', 'the scratch object of another thread is used', ins)
            st.mem[(r, 0)] = ('s', 'uuid')
            st.mem[(r, 8)] = v
        elif r[0] == 'OBJ':
            st.mem[(r, o)] = ('s', 'uuid')
            st.mem[(r, add(o, 8))] = v
        else:
            self.mem_store(st, ('ptr', r, o), ('s', 'uuid'), 'i64')
            self.mem_store(st, ('ptr', r, add(o, 8)), v, 'i64')

    def new_entry(self, it, st, args, ins):
        self.count('allocations')
        v = ('op', 'new', st.fresh())
        src = args[2]
        if not (isinstance(src, tuple) and src[0] == 'ptr' and src[1][0] == 'KEY' and src[2] == 0):
            self.violate(it, st, ['C20'], 'entry-content', 'the new entry is not made from the key and value of the operation', ins)
        self.put_oid(it, st, args[1], v, ins)
        return [(st, 0)]

    def free(self, it, st, p, ins):
        self.count('frees')
        v = None
        if isinstance(p, tuple) and p[0] == 'ptr':
            r, o = p[1], p[2]
            if r[0] == 'TMP':
                v = st.mem.get((r, 8), ('s', 'scratch'))
            else:
                v = st.mem.get((r, add(o, 8)))
        v = strip(v) if v is not None else None
        if kind(v) == 'new':
            k = state_of(v)
            if k == 'pub':
                self.violate(it, st, ['C20'], 'free-published', 'an object is freed that other threads can reach', ins)
            elif k == 'freed':
                self.violate(it, st, ['C20'], 'double-free', 'an object is freed twice', ins)
            else:
                b = st.mem.get((('OBJ', v), self.at('level.buckets') + 8))
                for k in [k for k in st.mem if k[0] == ('OBJ', v)]:
                    del st.mem[k]
                self.mark(st, v, 'freed')
            if isinstance(p, tuple) and p[1][0] == 'TMP':
                st.mem[(p[1], 8)] = 0
                st.mem[(p[1], 0)] = 0
            elif isinstance(p, tuple) and p[1][0] == 'OBJ':
                st.mem[(p[1], add(p[2], 8))] = 0
            return [(st, 0)]
        if kind(v) == 'ent':
            k = state_of(v)
            if k != 'gone':
                self.violate(it, st, ['C20'], 'double-free' if k == 'freed' else 'free-bound',
                             'an entry is freed twice' if k == 'freed' else 'an entry is freed that this operation has not taken out of its slot', ins)
            else:
                if v in st.pend.values():
                    self.violate(it, st, ['C19'], 'free-early', 'an entry is freed before its removal from the slot is durable', ins)
                if not self.spec.removes and not self.distinct(st, v):
                    self.violate(it, st, ['C20'], 'free-shared', 'an entry is freed that another slot may refer to as well', ins)
                self.mark(st, v, 'freed')
            return [(st, 0)]
        self.violate(it, st, ['C20'], 'free-what', 'something is freed that is neither an entry taken out nor an object of this operation', ins)
        return [(st, 0)]

    def distinct(self, st, v):
        """Is the entry known to differ from the other entry with this key?"""
        def has(t):
            if isinstance(t, tuple):
                if t == ('op', 'off', v):
                    return True
                return any(has(x) for x in t if isinstance(x, tuple))
            return False
        return any(has(t) for t in st.ne)

    def opaque(self, it, st, name, f, cal, args, ins):
        self.count('opaque calls')
        if name == '__cxa_throw' or name == '__cxa_rethrow':
            return [(st, 0, 'throw')]
        if name and ('terminate' in name or name in ('abort', 'exit', '_exit', '__assert_fail')):
            return [(st, 0, 'stop')]
        if f is not None and f.get('noreturn'):
            return [(st, 0, 'throw')]
        v = st.fresh() if ins.get('t') != 'v' else 0
        return [(st, v)]

    def ptr_eq(self, it, st, a, b):
        if a[1] == b[1] and isinstance(sub(a[2], b[2]), int):
            return [(st, a[2] == b[2])]
        if a[1] != b[1] and (a[1][0] in ('OBJ', 'TMP', 'al') or b[1][0] in ('OBJ', 'TMP', 'al')):
            return [(st, False)]
        s2 = st.copy()
        return [(st, True), (s2, False)]

    def normalise(self, st):
        """Forget objects of this operation that nothing refers to any more."""
        many = [k for k in st.pend if k[0] == 'slot']
        if len(many) > 4:
            for k in many:
                del st.pend[k]
            st.pend[('slots',)] = 1
        if not any(k[0][0] == 'OBJ' for k in st.mem):
            return
        seen, todo = set(), []

        def go(t):
            if isinstance(t, tuple):
                if kind(t) == 'new':
                    s = symbol_of(t)
                    if s not in seen:
                        seen.add(s)
                        todo.append(s)
                    return
                for x in t:
                    if isinstance(x, (tuple, frozenset)):
                        go(x)
            elif isinstance(t, frozenset):
                for x in t:
                    go(x)
        for fr in st.frames:
            for v in fr.loc.values():
                go(v)
        objs = {}
        for k, v in st.mem.items():
            if k[0][0] == 'OBJ':
                objs.setdefault(symbol_of(k[0][1]), []).append(k)
            else:
                go(v)
        for k, v in list(st.slots.items()) + list(st.obs.items()) + list(st.g.items()):
            if isinstance(k, tuple):
                go(k)
            go(v)
        for k, v in st.pend.items():
            if k[0] != 'obj':
                go(k)
                go(v)
        while todo:
            for k in objs.pop(todo.pop(), ()):
                go(st.mem[k])
        for ks in objs.values():
            for k in ks:
                del st.mem[k]
        st.pend = {k: v for k, v in st.pend.items() if k[0] != 'obj' or symbol_of(k[1]) in seen}

    def gc(self, st, order, number):
        from terms import atoms_of
        self.settle(st)

        def live(t):
            a = set()
            atoms_of(t, a)
            return all(x in order or isinstance(x[1], str) for x in a)
        st.le = frozenset(t for t in st.le if len(lin(t)[1]) <= 3)
        keep, more = {}, True
        while more:         # links of links
            more = False
            for k in sorted(st.slots, key=repr):
                if k not in keep and live(k):
                    keep[k] = st.slots[k]
                    number(st.slots[k], order)
                    more = True
        st.slots = keep
        ob = {}
        for k, v in st.obs.items():
            v = frozenset(x for x in v if live(x))
            if v and live(k):
                ob[k] = v
        st.obs = ob
        for k in sorted(st.pend, key=repr):
            number(k, order)
            number(st.pend[k], order)
