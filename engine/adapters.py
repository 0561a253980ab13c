"""Container adapters: what they ask of the container underneath, and what they make of its answer."""
import re
from terms import *
from interp import *
from pmap import *
from mapcheck import MapCheck

THIS = ('C',)
EL, END = ('EL',), ('END',)
LIMIT = (1 << 61) - 1


def split_name(d):
    """Demangled name -> (class without template arguments, method)."""
    depth, out = 0, []
    i = 0
    d = d.replace('[abi:cxx11]', '').replace('operator()', 'operator@call').replace('operator->', 'operator@arrow').replace('operator<<', 'operator@shl') \
         .replace('operator<', 'operator@lt').replace('operator>', 'operator@gt')
    for ch in d:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            if ch == '(':
                break
            out.append(ch)
    s = ''.join(out).strip()
    m = re.search(r'operator (new|delete|[a-z ]+)$', s)
    if not m:
        s = s.split(' ')[-1]
    cls, _, meth = s.rpartition('::')
    return cls.split(' ')[-1], meth


class AdapterModel(BaseModel):
    """The container underneath is an abstract map of which only the binding of the key of the operation matters. For a container with its
    own synchronisation every call is a step of its own; for the lock-based one the binding stays as it is while the lock is held."""
    LOCKS = False
    SIGNED = True

    def __init__(self, consts, spec):
        super().__init__(consts)
        self.spec = spec
        self.names = {}

    def sh(self, t):
        return show(t, self.names)

    def inline(self, f):
        r = self._inl.get(f['sym'])
        if r is None:
            fi = f.get('file')
            fi = self.p.files[fi] if isinstance(fi, int) else (fi or '')
            r = self._inl[f['sym']] = self.inlined(f, fi) or '/cliffMap/' not in fi and '/libpmemobj++/' not in fi and \
                '/experimental/' not in fi and super().inline(f)
        return r

    def inlined(self, f, fi):
        return fi.endswith('/libpmemobj++/p.hpp') or fi.endswith('/detail/pair.hpp') or 'Reserved' in f['dem'].split('(')[0]

    def joins(self, f):
        return True

    def store(self, it, st, p, v, t, atomic, ins):
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1] == EL:
            self.access(it, st, 'a binding is changed', ins, True)
            if p[2] == 8 and st.g.get('b') not in (None, ('abs',)):
                self.event(st, 'set', v)
                st.g['b'] = ('val', v)
            return None
        return super().store(it, st, p, v, t, atomic, ins)

    def load(self, it, st, p, t, atomic, ins):
        if isinstance(p, tuple) and p[0] == 'ptr':
            if p[1] == EL:
                self.access(it, st, 'a binding is read', ins, False)
                b = st.g.get('b')
                if p[2] == 0:
                    return st.g['key']
                if p[2] == 8 and b is not None and b[0] == 'val':
                    return b[1]
                return st.fresh()
            if p[1] == THIS:
                return self.field(st, p, t)
        return super().load(it, st, p, t, atomic, ins)

    def copy_mem(self, it, st, dst, src, sz):
        if isinstance(src, tuple) and src[0] == 'ptr' and src[1] == EL and isinstance(dst, tuple) and dst[0] == 'ptr' and isinstance(src[2], int):
            for o in range(0, sz if isinstance(sz, int) else 16, 8):
                st.mem[(dst[1], add(dst[2], o))] = self.load(it, st, ('ptr', EL, src[2] + o), 'i64', None, None)
            return
        super().copy_mem(it, st, dst, src, sz)

    def field(self, st, p, t):
        if t == 'p' and isinstance(p[2], int):
            return ('ptr', ('F', p[2]), 0)
        return st.fresh()

    def ptr_eq(self, it, st, a, b):
        if a[1][0] == b[1][0]:
            return [(st, a[1] == b[1] and a[2] == b[2])]
        return [(st, False)]

    # ---- what is seen of the container
    def event(self, st, *e):
        if self.LOCKS and e[0] == 'set' and any(x[0] == 'ins' for x in st.log):
            # not visible to others before the lock is released
            st.log = tuple(('ins', e[1]) if x[0] == 'ins' else x for x in st.log)
            return
        if e not in st.log:
            st.log = st.log + (e,)

    def access(self, it, st, what, ins, write):
        self.count('accesses to the container')

    def after(self, st):
        """Another thread may change the binding between two calls."""
        if not self.LOCKS:
            st.g.pop('b', None)

    def bound(self, st, s2):
        v = self.value(s2)
        return v

    def value(self, st):
        return st.fresh()

    def observe(self, st):
        """[(state, None or value)]"""
        b = st.g.get('b')
        if b is None:
            s2 = st.copy()
            v = self.value(s2)
            s2.g['b'] = ('val', v)
            st.g['b'] = ('abs',)
            self.event(st, 'absent')
            self.event(s2, 'present', v)
            return [(st, None), (s2, v)]
        if b[0] == 'abs':
            self.event(st, 'absent')
            return [(st, None)]
        self.event(st, 'present', b[1])
        return [(st, b[1])]

    def key_is(self, it, st, k, ins):
        if not self.same(k, st.g['lkey']):
            self.violate(it, st, ['C14'], 'key', 'the container is asked about %s, which is not the key %s of the operation' % (self.sh(k), self.sh(st.g['lkey'])), ins)
            return False
        return True

    @staticmethod
    def same(a, b):
        return is_num(a) and is_num(b) and sub(a, b) == 0

    def ins_(self, it, st, k, v, how, ins):
        """[(state, inserted?, value before)]; how: 'keep' or 'overwrite' an existing binding."""
        self.access(it, st, 'a binding is added', ins, True)
        self.key_is(it, st, k, ins)
        r = []
        for s, b in self.observe(st):
            if b is None:
                self.event(s, 'ins', v)
                s.g['b'] = ('val', v)
            elif how == 'overwrite':
                self.event(s, 'set', v)
                s.g['b'] = ('val', v)
            r.append((s, b is None, b))
        return r

    def del_(self, it, st, k, ins):
        self.access(it, st, 'a binding is removed', ins, True)
        self.key_is(it, st, k, ins)
        r = []
        for s, b in self.observe(st):
            if b is not None:
                self.event(s, 'del')
                s.g['b'] = ('abs',)
            r.append((s, b is not None))
        return r

    def look(self, it, st, k, ins):
        self.access(it, st, 'a binding is looked up', ins, False)
        self.key_is(it, st, k, ins)
        return self.observe(st)

    def deref(self, st, p, off=0):
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] in ('al', 'N') and isinstance(p[2], int):
            v = st.mem.get((p[1], p[2] + off))
            return v if v is not None else ('undef',)
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1] == EL:
            return st.g['lkey'] if p[2] + off == 0 else st.g['b'][1] if st.g.get('b', ('abs',))[0] == 'val' else ('undef',)
        return ('undef',)

    def call(self, it, st, name, f, cal, args, ins):
        r = super().call(it, st, name, f, cal, args, ins)
        if r is None and f is not None:
            cls, meth = split_name(f['dem'])
            r = self.library(it, st, cls, meth, f['dem'], args, ins)
            if r is not None:
                for x in r:
                    self.after(x[0])
        return r

    def library(self, it, st, cls, meth, d, args, ins):
        return None

    def unknown(self, it, st, d, ins):
        raise AnalysisError('call not understood: %s' % d[:200])


class UcfModel(AdapterModel):
    def value(self, st):
        v = st.fresh(low=0)
        for c in self.c.s.values():
            st.assume_ne(v, c)
        return v

    def library(self, it, st, cls, meth, d, args, ins):
        if cls != 'ConcurrentHashMap':
            return None
        VI, VT = self.c.s['VINITIAL'], self.c.s['VTOMBSTONE']

        def prev(r):
            out = []
            for s, new, b in r:
                if new:
                    s2 = s.copy()
                    out += [(s, VI), (s2, VT)]
                else:
                    out.append((s, b))
            return out
        a = args[1:]
        if meth == 'put':
            return prev(self.ins_(it, st, a[0], a[1], 'overwrite', ins))
        if meth == 'putIfAbsent':
            return prev(self.ins_(it, st, a[0], a[1], 'keep', ins))
        if meth == 'remove' and len(a) == 1:
            return [(s, int(b)) for s, b in self.del_(it, st, a[0], ins)]
        if meth == 'remove':
            r = []
            for s, b in self.look(it, st, a[0], ins):
                if b is None:
                    r.append((s, 0))
                elif self.same(b, a[1]):
                    self.event(s, 'del')
                    r.append((s, 1))
                else:
                    s2 = s.copy()
                    self.event(s2, 'del')
                    r += [(s, 0), (s2, 1)]
            return r
        if meth == 'replace':
            r = []
            for s, b in self.look(it, st, a[0], ins):
                if b is not None:
                    s2 = s.copy()
                    self.event(s2, 'set', a[2])
                    r.append((s2, 1))
                r.append((s, 0))
            return r
        if meth == 'containsKey':
            return [(s, int(b is not None)) for s, b in self.look(it, st, a[0], ins)]
        if meth == 'get':
            return [(s, VI if b is None else b) for s, b in self.look(it, st, a[0], ins)]
        if meth == 'update':
            out = []
            self.key_is(it, st, a[0], ins)
            for s, b in self.observe(st):
                v = s.fresh(low=0)
                self.event(s, 'set' if b is not None else 'ins', v)
                if b is None:
                    s2 = s.copy()
                    out += [(s, VI), (s2, VT)]
                else:
                    out.append((s, b))
            return out
        if meth in ('size', 'capacity'):
            self.event(st, meth)
            return [(st, ('s', meth))]
        if meth == 'isEmpty':
            s2 = st.copy()
            st.assume_eq(('s', 'size'), 0)
            s2.assume_ne(('s', 'size'), 0)
            return [(st, 1), (s2, 0)]
        if 'Reserved' in meth:
            return None
        self.unknown(it, st, d, ins)


class StlModel(AdapterModel):
    LOCKS = True
    MODES = {'pthread_mutex_lock': 'x', 'pthread_rwlock_wrlock': 'x', 'pthread_rwlock_rdlock': 's', 'pthread_spin_lock': 'x'}
    TRY = {'pthread_mutex_trylock': 'x', 'pthread_rwlock_trywrlock': 'x', 'pthread_rwlock_tryrdlock': 's', 'pthread_mutex_timedlock': 'x',
           'pthread_mutex_clocklock': 'x'}
    FREE = ('pthread_mutex_unlock', 'pthread_rwlock_unlock', 'pthread_spin_unlock')
    INL = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock', 'std::mutex', 'std::recursive_mutex', 'std::shared_mutex',
           'std::__shared_mutex_pthread', 'std::__recursive_mutex_base', 'std::__glibcxx_rwlock', 'std::timed_mutex', 'std::__mutex_base', 'std::shared_timed_mutex')

    def inlined(self, f, fi):
        cls, meth = split_name(f['dem'])
        return cls.startswith(self.INL) or '__gthread' in meth or '__glibcxx_rwlock' in meth or super().inlined(f, fi)

    def lock_of(self, p):
        return p[1:] if isinstance(p, tuple) and p[0] == 'ptr' else None

    def call(self, it, st, name, f, cal, args, ins):
        if f is not None and split_name(f['dem'])[1] == '__gthread_active_p':
            return [(st, 1)]
        if name in self.MODES or name in self.TRY:
            k = self.lock_of(args[0])
            self.count('lock acquisitions')
            held = dict(st.g.get('held', ()))
            if name in self.MODES:
                if k in held and not (f and 'recursive' in f['dem']):
                    self.violate(it, st, ['C15'], 'relock', 'a lock that the operation already holds is acquired again', ins)
                return [(self.take(st, k, self.MODES[name]), 0)]
            s2 = st.copy()
            return [(self.take(st, k, self.TRY[name]), 0), (s2, 16)]
        if name in self.FREE:
            k = self.lock_of(args[0])
            held = dict(st.g.get('held', ()))
            if held.pop(k, None) is None:
                self.violate(it, st, ['C15'], 'unlock', 'a lock that the operation does not hold is released', ins)
            st.g['held'] = tuple(sorted(held.items(), key=repr))
            st.g.pop('b', None)
            return [(st, 0)]
        return super().call(it, st, name, f, cal, args, ins)

    def take(self, st, k, mode):
        held = dict(st.g.get('held', ()))
        held[k] = mode
        st.g['held'] = tuple(sorted(held.items(), key=repr))
        st.g.pop('b', None)
        return st

    def access(self, it, st, what, ins, write):
        super().access(it, st, what, ins, write)
        held = dict(st.g.get('held', ()))
        ok = {k for k, m in held.items() if k is not None and self.shared(k) and (m == 'x' or not write)}
        if not ok:
            why = 'while no lock is held' if not held else 'while only a lock is held that does not exclude other threads'
            self.violate(it, st, ['C15'], 'unlocked', '%s %s' % (what, why), ins)
        self.locks.append((self.entry, tuple(sorted(held.items(), key=repr)), write, it.where(st), tuple(it.stack(st))))

    def shared(self, k):
        """Is it a lock of the container (or a global one), not one of this call?"""
        return k[0] == THIS or k[0][0] in ('g', 'F')

    def __init__(self, consts, spec):
        super().__init__(consts, spec)
        self.locks = []

    def opaque(self, it, st, name, f, cal, args, ins):
        if f is not None and split_name(f['dem'])[0] == 'std::map':
            self.access(it, st, 'the map is used', ins, True)
        if name and name.startswith('pthread_'):
            self.unknown(it, st, name, ins)
        return super().opaque(it, st, name, f, cal, args, ins)

    def library(self, it, st, cls, meth, d, args, ins):
        if 'iterator' in cls or '_Rb_tree_' in d and meth in ('operator==', 'operator!='):
            if meth in ('operator@arrow', 'operator*'):
                p = self.deref(st, args[0])
                if isinstance(p, tuple) and p[0] == 'ptr' and p[1] == END:
                    self.violate(it, st, ['C14'], 'end-used', 'the end of the map is used as a binding', ins)
                return [(st, p)]
            if meth in ('operator==', 'operator!='):
                a, b = self.deref(st, args[0]), self.deref(st, args[1])
                eq = a == b if a != ('undef',) != b else None
                if eq is None:
                    s2 = st.copy()
                    return [(st, 0), (s2, 1)]
                return [(st, int(eq == (meth == 'operator==')))]
            if meth.startswith('_Rb_tree_') and len(args) == 2:     # conversion or construction
                v = self.deref(st, args[1]) if isinstance(args[1], tuple) and args[1][0] == 'ptr' and args[1][1][0] == 'al' else args[1]
                if isinstance(args[0], tuple) and args[0][0] == 'ptr':
                    st.mem[(args[0][1], args[0][2])] = v
                return [(st, 0)]
            return None
        if cls != 'std::map':
            return None
        a = args[1:]
        D = self.deref

        def itr(b):
            return ('ptr', END if b is None else EL, 0)
        if meth in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if meth == 'insert':
                if len(a) != 1 or not isinstance(a[0], tuple):
                    self.unknown(it, st, d, ins)
                k, v = D(st, a[0]), D(st, a[0], 8)
            else:
                if len(a) != 2:
                    if len(a) == 1:
                        k, v = D(st, a[0]), D(st, a[0], 8)
                    else:
                        self.unknown(it, st, d, ins)
                else:
                    k, v = D(st, a[0]), D(st, a[1])
            how = 'overwrite' if meth == 'insert_or_assign' else 'keep'
            return [(s, ('agg', (itr(1), int(new)))) for s, new, b in self.ins_(it, st, k, v, how, ins)] + self.throwing(it, st, ins)
        if meth == 'erase':
            if 'iterator' in d.split('(', 1)[1]:
                p = a[0]
                if isinstance(p, tuple) and p[0] == 'ptr' and p[1] == END:
                    self.violate(it, st, ['C14'], 'end-used', 'the end of the map is used as a binding', ins)
                    return [(st, p)]
                return [(s, ('ptr', ('IT',), 0)) for s, b in self.del_(it, st, st.g['lkey'], ins)]
            return [(s, int(b)) for s, b in self.del_(it, st, D(st, a[0]), ins)]
        if meth in ('count', 'contains'):
            return [(s, int(b is not None)) for s, b in self.look(it, st, D(st, a[0]), ins)]
        if meth == 'find':
            return [(s, itr(b)) for s, b in self.look(it, st, D(st, a[0]), ins)]
        if meth in ('end', 'cend'):
            return [(st, ('ptr', END, 0))]
        if meth == 'at':
            return [(s, ('ptr', EL, 8)) if b is not None else (s, 0, 'throw') for s, b in self.look(it, st, D(st, a[0]), ins)]
        if meth == 'operator[]':
            return [(s, ('ptr', EL, 8)) for s, new, b in self.ins_(it, st, D(st, a[0]), 0, 'keep', ins)] + self.throwing(it, st, ins)
        if meth in ('size', 'empty'):
            self.access(it, st, 'the map is used', ins, False)
            self.event(st, 'size')
            if meth == 'empty':
                s2 = st.copy()
                return [(st, 0), (s2, 1)]
            return [(st, ('s', 'size'))]
        if meth.startswith(('map', '~map')):
            return None
        self.access(it, st, 'the map is used', ins, True)
        self.unknown(it, st, d, ins)

    def throwing(self, it, st, ins):
        return []

    def landingpad(self, it, st, ins):
        return ('agg', (st.fresh(), ('op', 'eh')))


class PmemModel(AdapterModel):
    """Containers in libpmemobj++; bindings are added by these adapters only, with the key as their value."""
    CLS = ('pmem::obj::concurrent_hash_map', 'pmem::obj::experimental::clevel_hash')

    def value(self, st):
        return st.g['key']

    def pair(self, st, p):
        return self.deref(st, p), self.deref(st, p, 8)

    def library(self, it, st, cls, meth, d, args, ins):
        if 'accessor' in cls and 'concurrent_hash_map' in cls:
            R = args[0][1] if args and isinstance(args[0], tuple) and args[0][0] == 'ptr' else None
            if meth in ('operator*', 'operator@arrow'):
                if st.mem.get((R, 'acc')) != 1:
                    self.violate(it, st, ['C14'], 'empty-accessor', 'a binding is read through an accessor for which no binding was found', ins)
                return [(st, ('ptr', EL, 0))]
            if meth in ('empty', 'operator bool'):
                return [(st, int((st.mem.get((R, 'acc')) == 1) == (meth != 'empty')))]
            st.mem.pop((R, 'acc'), None)
            return [(st, 0)]
        if cls not in self.CLS:
            return None
        lev = cls.endswith('clevel_hash')
        if lev:
            out, a = args[0], args[2:]

            def ret(s, found):
                if isinstance(out, tuple) and out[0] == 'ptr':
                    for k in [k for k in s.mem if k[0] == out[1] and isinstance(k[1], int) and out[2] <= k[1] < out[2] + 32]:
                        del s.mem[k]
                    s.mem[(out[1], out[2])] = int(found)
                return (s, 0)
        else:
            a = args[1:]

            def ret(s, x):
                return (s, int(x))
        par = d[d.rfind(meth + '(') + len(meth) + 1:]
        acc = not lev and 'accessor' in par.split(',')[0].split(')')[0] and 'accessor' in par
        if meth in ('insert', 'insert_or_assign'):
            r = []
            if acc:
                self.unknown(it, st, d, ins)
            if meth == 'insert_or_assign':
                k, v = self.deref(st, a[0]), self.deref(st, a[1])
            else:
                k, v = self.pair(st, a[0])
            for s, new, b in self.ins_(it, st, k, v, 'overwrite' if meth != 'insert' else 'keep', ins):
                r.append(ret(s, (not new) if lev else new))
            return r
        if meth == 'erase':
            return [ret(s, b) for s, b in self.del_(it, st, self.deref(st, a[0]), ins)]
        if meth in ('search', 'count', 'find'):
            r = []
            k = self.deref(st, a[-1] if meth == 'find' else a[0])
            for s, b in self.look(it, st, k, ins):
                if meth == 'find' and len(a) == 2:
                    R = a[0][1]
                    s.mem[(R, 'acc')] = int(b is not None)
                    # the accessor keeps the binding in place
                r.append(ret(s, b is not None))
            return r
        if meth in ('size', 'capacity'):
            self.event(st, meth)
            return [(st, ('s', meth))]
        if meth == 'empty':
            s2 = st.copy()
            return [(st, 0), (s2, 1)]
        return None

    def after(self, st):
        if not any(k[1] == 'acc' and v == 1 for k, v in st.mem.items()):
            super().after(st)


class Dummy:
    may_claim = True


KINDS = {'ucf': (UcfModel, '/hashMap.hpp'), 'stl': (StlModel, 'x'), 'pm': (PmemModel, '/libpmemobj++/'), 'clevel': (PmemModel, '/libpmemobj++/')}


class AdapterCheck(MapCheck):
    def __init__(self, prog, kind):
        self.p = prog
        self.kind = kind
        self.c = Consts(prog)
        self.defs, self.violations, self.errors, self.results = {}, [], [], {}
        self.claims, self.exhausts, self.anchors, self.stats = [], [], [], {}
        self.locks = []
        self.fnCAS = None
        self.define_all()

    def define_all(self):
        model = KINDS[self.kind][0]

        def setup(m, st):
            if self.kind == 'ucf':
                X = self.sym(st, 'stored key')
                k = ('shr', X, 3)
                for n, c in self.c.s.items():
                    st.assume_ne(X, c)
                st.g['lkey'] = X
            else:
                k = self.sym(st, 'key', low=None)
                st.g['lkey'] = k
            st.g['key'] = k
            m.names = {}
            return [('ptr', THIS, 0), k]
        spec = type('S', (), dict(model=model))
        for op in ('insert', 'erase', 'contains', 'get', 'count', 'increment'):
            self.defs['%s::%s' % (self.kind, op)] = ('vf_' + op, spec, (lambda m, st: setup(m, st)[:1]) if op == 'count' else setup, self.finish(op))

    def where_of(self, op):
        for n, f in self.p.fn.items():
            if f.get('name') == op and '::container_type::' in f.get('dem', ''):
                return f['sym']
        return 'vf_' + op

    def finish(self, op):
        def fin(m, it, st, kind, v):
            fn = 'vf_' + op
            if st.g.get('held'):
                self.bad(m, ['C15'], 'still-locked', 'a lock is still held when the operation %s' % ('returns' if kind == 'ret' else 'ends with an exception'), fn)
            if kind != 'ret':
                return
            m.count('exits checked')
            ev = st.log
            ins = [e for e in ev if e[0] == 'ins']
            dele = [e for e in ev if e[0] == 'del']
            sets = [e for e in ev if e[0] == 'set']
            pres = [e[1] for e in ev if e[0] == 'present']
            absent = ('absent',) in ev

            def bad(rule, msg):
                self.bad(m, ['C14'], rule, msg, fn)
            if op in ('insert', 'erase', 'contains') and not isinstance(v, int):
                if is_num(v):
                    if st.entails(sub(v, 1)):
                        v = 1
                if not isinstance(v, int):
                    bad('result', 'returns %s, which does not follow from what the container answered' % m.sh(v))
                    return
            if op == 'insert':
                if dele:
                    bad('effect', 'removes a binding')
                if v and not ins:
                    bad('result', 'returns true although the container already had a binding' if pres else 'returns true without having inserted anything')
                if not v and ins:
                    bad('result', 'returns false although the key was absent and has been inserted')
                if not v and not pres and not ins:
                    bad('result', 'returns false although no binding was found')
                if ins and ins[0][1] != ('undef',) and not m.same(ins[0][1], st.g['lkey']) or ins and ins[0][1] == ('undef',):
                    bad('value', 'inserts the value %s instead of %s' % (m.sh(ins[0][1]), m.sh(st.g['lkey'])))
            elif op == 'erase':
                if ins or sets:
                    bad('effect', 'adds or changes a binding')
                if v and not dele:
                    bad('result', 'returns true although nothing was removed')
                if not v and dele:
                    bad('result', 'returns false although a binding was removed')
                if not v and not absent and not dele:
                    bad('result', 'returns false although the key was not found to be absent')
            elif op == 'contains':
                if ins or dele or sets:
                    bad('effect', 'changes the container')
                if v and not pres:
                    bad('result', 'returns true although no binding was found')
                if not v and not absent:
                    bad('result', 'returns false although the key was not found to be absent')
            elif op == 'get':
                if ins or dele or sets:
                    bad('effect', 'changes the container')
                if not pres and not absent:
                    bad('result', 'returns without having looked for the key')
                if pres and not absent:
                    want = [('shr', x, 3) if self.kind == 'ucf' else x for x in pres]
                    if not any(m.same(v, w) for w in want):
                        bad('result', 'returns %s where the bound value is %s' % (m.sh(v), m.sh(want[0])))
            elif op == 'count':
                if ins or dele or sets:
                    bad('effect', 'changes the container')
                if self.kind != 'clevel' and v != ('s', 'size'):
                    bad('result', 'returns %s, which is not the number of bindings of the container' % m.sh(v))
            self.locks += getattr(m, 'locks', [])
        return fin

    def agree_locks(self):
        """One lock must protect every access."""
        common = None
        for e, held, write, where, stack in self.locks:
            ok = {k for k, md in held if md == 'x' or not write}
            common = ok if common is None else common & ok
            if not common:
                self.violations.append(Violation(['C15'], 'no-common-lock', 'the map is used without the lock that other operations hold while they use it', where, list(stack), e))
                return
