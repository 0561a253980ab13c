"""Memory, call and protocol model of the persistent hash map, for the abstract interpreter.

What is tracked about a shared slot is only what no other thread can invalidate: a key once written, a value that
is no longer 'empty', a value frozen for hand-over, a retired value. Every load of a slot is split over everything
other threads may have put there (the rely); every successful compare-and-swap is checked against the table of
allowed changes (the guarantee) and against what the operation is entitled to do (its specification)."""
from terms import *
from interp import *


class Violation:
    def __init__(self, props, rule, msg, where, stack, entry):
        self.props, self.rule, self.msg, self.where, self.stack, self.entry = props, rule, msg, where, stack, entry


TAB0 = ('tab', None, 'sh', 0, 0, (), 0)  # successor, kind, size delta, retired-not-counted, lower bounds of copyDone, read as the current table


class Consts:
    def __init__(self, prog):
        self.p = prog
        k = {}
        for n, g in prog.gl.items():
            if n.startswith('vfk_'):
                i = g.get('init')
                if i and i[0] == 'c':
                    k[n[4:]] = int(i[1])
                elif i and i[0] == 'zero':
                    k[n[4:]] = 0
        self.k = k
        # the hash function of the map
        self.hashes = {i['callee'][1] for b in prog.fn.get('vf_hash', {}).get('blocks', ()) for i in b
                       if i['op'] in ('call', 'invoke') and i.get('callee', [0])[0] == 'f' and prog.fn.get(i['callee'][1], {}).get('name') == 'operator()'}
        # dynamic initialisers of the globals
        self.gv = {}
        for n, g in prog.gl.items():
            i = g.get('init')
            if i and i[0] == 'c':
                self.gv[n] = int(i[1]) & M
            elif i and i[0] in ('zero', 'null'):
                self.gv[n] = 0
        m = GlobalInit(self)
        for c in prog.ctors:
            c = c if isinstance(c, str) else c[-1]
            if c in prog.fn and 'blocks' in prog.fn[c]:
                it = Interp(prog, m)
                it.run(c, [])
        self.s = {}
        for n in ('VINITIAL', 'VTOMBSTONE', 'TOMBPRIME', 'MATCH_ANY', 'NO_MATCH_OLD', 'KINITIAL', 'KTOMBSTONE'):
            if 'vfs_' + n not in prog.fn:
                continue
            it = Interp(prog, m)
            r = it.run('vfs_' + n, [])
            if len(r) != 1 or not isinstance(r[0][2], int):
                raise AnalysisError('sentinel %s is not a constant' % n)
            self.s[n] = r[0][2]

    def names(self):
        return {v: n for n, v in reversed(list(self.s.items()))}


class BaseModel:
    """Defaults shared by all models."""
    SIGNED = False      # is an arithmetic shift to be told from a logical one?
    UNROLL = 2          # rounds of a loop that are followed one by one
    COARSE = False      # are counters of loops forgotten?
    RATIO = False       # are counters that advance at multiples of each other's pace related?
    OPPOSITE = True     # are counters that run in opposite directions related to each other?
    INLINE_STD = ('std::atomic', 'std::__atomic', 'std::hash', 'std::move', 'std::forward', 'std::min', 'std::max',
                  'std::swap', 'std::exchange', 'std::addressof', 'std::__addressof', 'std::operator&(std::memory_order',
                  'std::operator|(std::memory_order', 'std::__cmpexch_failure_order', 'std::pair', 'std::get<',
                  'std::enable_if', 'std::remove_reference', 'std::tuple', 'std::_Head_base', 'std::_Tuple_impl',
                  'std::invoke', 'std::__invoke', 'std::__exchange', 'operator new(unsigned long, void*)', 'std::is_constant_evaluated',
                  'std::less', 'std::equal_to', 'std::greater', 'std::not_equal_to', 'std::clamp', 'std::__is_constant_evaluated',
                  'std::initializer_list', 'std::array', 'std::__array_traits', 'std::begin', 'std::end', 'std::size', 'std::cbegin', 'std::cend',
                  'std::optional', 'std::_Optional', 'std::make_pair', 'std::tie', 'std::plus', 'std::minus', 'std::logical_')

    def __init__(self, consts):
        self.c = consts
        self.p = consts.p
        self.violations = []
        self.stats = {}
        self.entry = None
        self._inl = {}

    def is_repo(self, f):
        return not f.startswith('/usr') and f != '?'

    def inline(self, f):
        n = f['sym']
        r = self._inl.get(n)
        if r is None:
            fi = f.get('file')
            fi = self.p.files[fi] if isinstance(fi, int) else (fi or '')
            d = f['dem']
            r = fi.startswith('/repo') or '/harness/' in fi or not fi.startswith('/usr') and fi != ''
            if not r:
                # strip the return type of templates
                r = any(x in d.split('(')[0] and (d.startswith(x) or (' ' + x) in d.split('(')[0]) for x in self.INLINE_STD) \
                    or any(d.startswith(x) for x in self.INLINE_STD)
            self._inl[n] = r
        return r

    def joins(self, f):
        """Merge states inside and after this function? Library helpers are short and free of loops."""
        r = f.get('_joins')
        if r is None:
            fi = f.get('file')
            fi = self.p.files[fi] if isinstance(fi, int) else (fi or '')
            r = f['_joins'] = not fi.startswith('/usr')
        return r

    def max_recursion(self, name):
        return 1

    def violate(self, it, st, props, rule, msg, ins=None):
        w = it.p.loc(ins) if ins and ins.get('ln') else (it.where(st) if st.frames else '?')
        if ins is not None and st.frames:
            w2 = it.where(st)
            if not self.is_repo(w):
                w = w2
        if isinstance(props, str):
            props = [props]
        for v in self.violations:
            if v.rule == rule and v.where == w and v.entry == self.entry:
                v.props = sorted(set(v.props) | set(props))
                return
        self.violations.append(Violation(list(props), rule, msg, w, it.stack(st) if st.frames else [], self.entry))
        if it.TRACE:
            print('TRACE', rule, msg, st.trail[-60:], '\n  tabs', st.tabs, '\n  slots', st.slots, '\n  obs', st.obs, '\n  pend', st.pend, '\n  g', st.g, '\n log', st.log, '\n le', st.le)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # memory that belongs to the operation
    def mem_load(self, st, p, t):
        k = (p[1], p[2])
        if k in st.mem:
            return st.mem[k]
        if (p[1], 'esc') in st.mem or p[1][0] not in ('al',):
            v = st.fresh()
            st.mem[k] = v
            return v
        return ('undef',)

    def mem_store(self, st, p, v, t):
        st.mem[(p[1], p[2])] = v

    def escape(self, st, v):
        if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] in ('al', 'N'):
            for k in [k for k in st.mem if k[0] == v[1]]:
                del st.mem[k]
            st.mem[(v[1], 'esc')] = 1

    def load(self, it, st, p, t, atomic, ins):
        if isinstance(p, tuple) and p[0] == 'ptr':
            r = p[1]
            if r[0] == 'g':
                if r[1] in self.c.gv and p[2] == 0 and not self.written_global(r[1]):
                    return self.c.gv[r[1]]
                g = self.p.gl.get(r[1], {})
                i = g.get('init')
                if i and i[0] == 'str' and isinstance(p[2], int) and t == 'i8':
                    return ord(i[1][p[2]]) if p[2] < len(i[1]) else 0
                return st.fresh()
            if r[0] in ('al', 'N'):
                return self.mem_load(st, p, t)
        return st.fresh()

    def written_global(self, name):
        return not self.p.gl[name].get('const') and name not in self.c.initonly

    def store(self, it, st, p, v, t, atomic, ins):
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] in ('al', 'N'):
            self.mem_store(st, p, v, t)
        return None

    def cmpxchg(self, it, st, p, e, n, weak, ins):
        s2 = st.copy()
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] in ('al', 'N'):
            self.mem_store(st, p, n, None)
        f = s2.fresh()
        return [(st, ('agg', (e, 1))), (s2, ('agg', (f, 0)))]

    def rmw(self, it, st, p, op, v, ins):
        return st.fresh()

    def fence(self, it, st, ins):
        pass

    def use(self, it, st, v):
        return v

    def copy_mem(self, it, st, dst, src, sz):
        if isinstance(src, tuple) and src[0] == 'ptr' and src[1][0] in ('al', 'N') and isinstance(src[2], int):
            for (r, o), v in list(st.mem.items()):
                if r == src[1] and isinstance(o, int) and isinstance(sz, int) and src[2] <= o < src[2] + sz:
                    st.mem[(dst[1], add(dst[2], o - src[2]))] = v
            if (src[1], 'esc') in st.mem:
                st.mem[(dst[1], 'esc')] = 1
        elif isinstance(dst, tuple) and dst[0] == 'ptr':
            self.escape(st, dst)

    def intrinsic(self, it, st, name, args, ins):
        """Common LLVM intrinsics; returns None if not handled."""
        if name.startswith('llvm.lifetime.end') and isinstance(args[1], tuple) and args[1][0] == 'ptr' and args[1][1][0] == 'al' and args[1][2] == 0:
            for k in [k for k in st.mem if k[0] == args[1][1]]:
                del st.mem[k]
            return [(st, 0)]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') or \
                name.startswith('llvm.donothing') or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.prefetch'):
            return [(st, 0)]
        if name.startswith('llvm.expect'):
            return [(st, args[0])]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.copy_mem(it, st, args[0], args[1], args[2])
            return [(st, 0)]
        if name.startswith('llvm.memset'):
            d = args[0]
            if isinstance(d, tuple) and d[0] == 'ptr' and d[1][0] in ('al', 'N'):
                for k in [k for k in st.mem if k[0] == d[1]]:
                    del st.mem[k]
                if args[1] == 0 and isinstance(args[2], int) and isinstance(d[2], int) and args[2] <= 512:
                    for o in range(0, args[2], 8):
                        st.mem[(d[1], d[2] + o)] = 0
                else:
                    st.mem[(d[1], 'esc')] = 1
            return [(st, 0)]
        for nm, pr, first in (('llvm.umin', 'ult', 0), ('llvm.umax', 'ult', 1), ('llvm.smin', 'slt', 0), ('llvm.smax', 'slt', 1)):
            if name.startswith(nm):
                return [(s, args[first] if c else args[1 - first]) for s, c in it.compare(st, pr, args[0], args[1], ins)]
        return None

    def call(self, it, st, name, f, cal, args, ins):
        if name and name.startswith('llvm.'):
            return self.intrinsic(it, st, name, args, ins)
        return None

    NOTHROW = ('close', 'open', 'fstat', 'mmap', 'munmap', 'ftruncate', 'rename', 'remove', 'unlink', 'fprintf', 'strlen', 'strerror',
               '__errno_location', 'malloc', 'free', '_ZdlPv', '_ZdlPvm', '__cxa_end_catch', '__cxa_begin_catch',
               '__cxa_allocate_exception', '__cxa_free_exception', '__isoc23_strtol')

    def opaque(self, it, st, name, f, cal, args, ins):
        self.count('opaque calls')
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t'):
            n = st.next
            st.next += 1
            r = [(st, ('ptr', ('N', n), 0))]
            return r
        if name == '__cxa_throw' or name == '__cxa_rethrow':
            return [(st, 0, 'throw')]
        if name and ('terminate' in name or name in ('abort', 'exit', '_exit', '__assert_fail', '__clang_call_terminate')):
            return [(st, 0, 'stop')]
        if f is not None and f.get('noreturn'):
            return [(st, 0, 'throw')]
        for a in args:
            self.escape(st, a)
        v = st.fresh() if ins.get('t') != 'v' else 0
        r = [(st, v)]
        if ins['op'] == 'invoke' and not (f and f.get('nounwind')) and name not in self.NOTHROW:
            s2 = st.copy()
            r.append((s2, 0, 'throw'))
        return r

    def fn_eq(self, st, a, b):
        return None

    def landingpad(self, it, st, ins):
        a, b = st.fresh(), st.fresh()
        return ('agg', (a, b))

    def ptr_eq(self, it, st, a, b):
        ka, kb = a[1][0], b[1][0]
        if ka != kb or ka in ('al', 'N', 'g'):
            return [(st, False)]
        s2 = st.copy()
        return [(st, True), (s2, False)]

    def normalise(self, st):
        pass

    def gc(self, st, order, number):
        pass

    def narrow_ok(self, st, v):
        return False

    def is_pow2(self, st, t):
        return False

    def undef_use(self, it, st, ins):
        pass

    def undef_branch(self, it, st, ins):
        pass


class GlobalInit(BaseModel):
    """Evaluates dynamic initialisers of constants."""

    def __init__(self, c):
        c.initonly = {n for n in c.gv}
        super().__init__(c)

    def store(self, it, st, p, v, t, atomic, ins):
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] == 'g':
            if p[2] == 0 and isinstance(v, int):
                self.c.gv[p[1][1]] = v
            else:
                self.c.gv.pop(p[1][1], None)
            return None
        return super().store(it, st, p, v, t, atomic, ins)


OWNCUT = {'copySlot', 'resize', 'helpCopy', 'mmapTable', 'munmapTable', 'getOrderedFileName', 'PERSIST', 'PERSIST_FLUSH_ONLY'}


class MapModel(BaseModel):
    def __init__(self, consts, spec):
        super().__init__(consts)
        k, s = consts.k, consts.s
        self.off = {n[4:]: v for n, v in k.items() if n.startswith('off_')}
        self.tf = {v: n for n, v in self.off.items() if n not in ('map_table', 'key', 'value')}
        self.PAIR = k['size_pair']
        self.VI, self.VT, self.TP = s['VINITIAL'], s['VTOMBSTONE'], s['TOMBPRIME']
        self.ANY, self.NOOLD = s['MATCH_ANY'], s['NO_MATCH_OLD']
        self.KI, self.KT = s['KINITIAL'], s['KTOMBSTONE']
        self.D, self.MG = k['dirty'], k['migr']
        State.DIRTY = self.D
        self.names = consts.names()
        self.spec = spec
        self.claims = []         # (entry, U terms, where)
        self.exhausts = []       # (entry, L candidates, where)
        self.anchors = []        # (entry, anchor term, where)
        self.live_ne = frozenset((self.VI, self.VT, self.ANY, self.NOOLD))
        self.fnCAS = None

    def sh(self, t):
        return show(t, self.names)

    # ---- tables -------------------------------------------------------------------
    def new_shared(self, st):
        n = st.fresh_table()
        st.tabs[n] = TAB0
        return ('T', n)

    def tab(self, st, n):
        return st.tabs.get(n, TAB0)

    def settab(self, st, n, **kw):
        t = list(self.tab(st, n))
        for k, v in kw.items():
            t[{'succ': 1, 'kind': 2, 'dsz': 3, 'unc': 4, 'done': 5, 'root': 6}[k]] = v
        st.tabs[n] = tuple(t)

    def successor(self, st, n):
        t = self.tab(st, n)
        if t[1] is None:
            x = self.new_shared(st)
            self.settab(st, n, succ=x)
            return x
        return t[1]

    # ---- slots --------------------------------------------------------------------
    def slot_of(self, it, st, p, ins, check=True):
        """Decode an address inside a pair array: (slot, field)."""
        T = ('T', p[1][1])
        off = p[2]
        c, d = lin(off)
        f = c % self.PAIR
        if any(k % self.PAIR for k in d.values()):
            return None, None
        base = sub(off, f)
        idx = div(base, self.PAIR)
        if f == self.off['key']:
            fld = 'k'
        elif f == self.off['value']:
            fld = 'v'
        else:
            return None, None
        if check:
            L = ('len', T[1])
            ok = st.entails(sub(sub(L, idx), 1)) and (not isinstance(idx, int) or s64(idx) >= 0)
            self.count('slot accesses')
            if not ok:
                self.violate(it, st, ['C17'], 'slot-bounds', 'slot index %s is not shown to be below the capacity' % self.sh(idx), ins)
        return ('S', T, idx), fld

    def fact(self, st, S):
        return st.slots.get(S, (None, ('any',)))

    def setfact(self, st, S, key=None, val=None):
        k, v = self.fact(st, S)
        if key is not None:
            k = key
        if val is not None:
            v = val
        st.slots[S] = (k, v)

    def key_options(self, it, st, S):
        """Everything the key word of S may hold now: [(state, key)]."""
        k, v = self.fact(st, S)
        if k is not None:
            return [(st, k)]
        n = S[1][1]
        if self.tab(st, n)[2] == 'pv':
            return [(st, self.KI)]
        r = []
        own = st.g.get('key')
        s = st.copy()
        r.append((s, self.KI))
        s = st.copy()
        self.setfact(s, S, key=self.KT)
        r.append((s, self.KT))
        if own is not None:
            s = st.copy()
            self.setfact(s, S, key=own)
            r.append((s, own))
        x = st.fresh(low=0, ne=frozenset((self.KI, self.KT)))
        if own is not None:
            st.assume_ne(x, own)
        self.setfact(st, S, key=x)
        r.append((st, x))
        return r

    def val_options(self, it, st, S):
        """Everything the value word may hold, without dirty bit: [(state, word)]."""
        k, v = self.fact(st, S)
        n = S[1][1]
        if self.tab(st, n)[2] == 'pv':
            return [(st, self.VI)]
        c = v[0]
        r = []
        if c == 'prime':
            return [(st, self.TP)]
        if c == 'marked':
            s = st.copy()
            self.setfact(s, S, val=('prime',))
            return [(st, add(v[1], self.MG)), (s, self.TP)]
        if c == 'any':
            s = st.copy()
            r.append((s, self.VI))
        s = st.copy()
        self.setfact(s, S, val=('prime',))
        r.append((s, self.TP))
        if k != self.KT:
            s = st.copy()
            self.setfact(s, S, val=('noninit',))
            r.append((s, self.VT))
            s = st.copy()
            x = s.fresh(low=0, ne=self.live_ne)
            self.setfact(s, S, val=('marked', x))
            r.append((s, add(x, self.MG)))
            s = st.copy()
            x = s.fresh(low=0, ne=self.live_ne)
            self.setfact(s, S, val=('noninit',))
            r.append((s, x))
        return r

    def options(self, it, st, S, fld):
        return self.key_options(it, st, S) if fld == 'k' else self.val_options(it, st, S)

    def note(self, it, st, S, fld, t, ins):
        """Bookkeeping for a word observed in S."""
        if fld == 'v':
            if t == self.TP or st.low3(t) != 0:
                return
            op = st.g.get('op')
            if t in (self.VI, self.VT):
                if op in ('put', 'putIfAbsent', 'update', 'increment') or op == 'copy' and t == self.VI:
                    return
                if op != 'copy':
                    t = self.VT
            elif op in ('remove', 'update', 'increment'):
                return
            st.obs[S] = st.obs.get(S, frozenset()) | {t}
            return
        own = st.g.get('key')
        if own is None:
            return
        T, idx = S[1], S[2]
        g = st.g
        if g.get('pt') != T:
            # a first table has to be the current one, any later one the successor of the one searched before
            if self.tab(st, T[1])[6]:
                self.settab(st, T[1], root=0)
            elif g.get('pt') is not None:
                self.moved_on(it, st, T, ins, 'the operation')
            elif g.get('op') != 'copy':
                self.violate(it, st, ['C05', 'C04'], 'skip-table', 'the operation does not begin with the current table', ins)
            g['pt'] = T
            a = idx[1] if isinstance(idx, tuple) and idx[0] == 'mod' and idx[2] == ('len', T[1]) else idx
            g['anchor'] = a
            g['pfx'] = 0
            for x in ('sealed', 'empty', 'nullAt'):
                g.pop(x, None)
            self.anchors.append((self.entry, a, own, it.where(st)))
        self.advance_prefix(st)
        if t == self.KI and S == self.next_probe(st) and g.get('op') in ('get', 'contains', 'remove', 'remove2', 'replace'):
            g['empty'] = 1

    def next_probe(self, st):
        g = st.g
        T = g.get('pt')
        if T is None:
            return None
        return ('S', T, mod(add(g['anchor'], g['pfx']), ('len', T[1])))

    def advance_prefix(self, st):
        g = st.g
        if 'anchor' not in g:
            return
        while True:
            S = self.next_probe(st)
            f = st.slots.get(S)
            if not f or f[0] is None or not st.known_ne(f[0], g['key']):
                return
            if f[0] == self.KT:
                g['sealed'] = 1
            g['pfx'] = add(g['pfx'], 1)
            st.obs.pop(S, None)

    # ---- durability bookkeeping -------------------------------------------------------
    # pend[(S, fld, word, kind)] = (stage, used); kind 'own' for words written by this operation, 'r' for words read dirty
    def pend_add(self, st, S, fld, t, kind):
        st.pend[(S, fld, t, kind)] = (0, 1 if kind == 'own' else 0)

    def flush_slot(self, st, S):
        for k, (stg, u) in list(st.pend.items()):
            if k[0] == S and stg == 0:
                st.pend[k] = (1, u)

    def flush_ptr(self, it, st, p):
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] == 'P':
            off = p[2]
            if isinstance(off, tuple) and off[0] == 'op' and off[1] == 'align':
                off = off[2]
            c, d = lin(off)
            off = sub(off, c % self.PAIR)
            S, f = self.slot_of(it, st, ('ptr', p[1], off), None, check=False)
            if S:
                self.flush_slot(st, S)

    def do_fence(self, st):
        for k, (stg, u) in list(st.pend.items()):
            if stg == 1:
                if k[3] == 'own':
                    del st.pend[k]
                else:
                    st.pend[k] = (2, u)

    def check_reads(self, it, st, what, ins=None):
        for k, (stg, u) in st.pend.items():
            if k[3] == 'r' and u and stg < 2:
                self.violate(it, st, ['C06'], 'use-before-persist',
                             '%s although the %s %s read from a slot has not been written back and fenced' %
                             (what, 'key' if k[1] == 'k' else 'value', self.sh(k[2])), ins)

    def check_own(self, it, st, what, ins=None, props=('C07',)):
        for k, (stg, u) in st.pend.items():
            if k[3] == 'own':
                self.violate(it, st, list(props), 'own-write-not-durable',
                             '%s although the %s %s it wrote has not been written back and fenced' %
                             (what, 'key' if k[1] == 'k' else 'value', self.sh(k[2])), ins)

    def use(self, it, st, v):
        if isinstance(v, tuple) and v[0] == 'tag':
            k = (v[1][0], v[1][1], v[2], 'r')
            stg, u = st.pend.get(k, (2, 1))
            if k in st.pend:
                st.pend[k] = (stg, 1)
            return v[2]
        return v

    # ---- memory access ------------------------------------------------------------------
    def load(self, it, st, p, t, atomic, ins):
        if isinstance(p, tuple) and p[0] == 'ptr':
            r, off = p[1], p[2]
            if r[0] == 'H':
                if off == self.off['map_table']:
                    self.count('root loads')
                    T = self.new_shared(st)
                    if 'key' in st.g:
                        self.settab(st, T[1], root=1)
                    return ('ptr', T, 0)
                return st.fresh()
            if r[0] == 'T':
                return self.load_table(it, st, r, off, ins)
            if r[0] == 'P':
                return self.load_slot(it, st, p, ins)
        return super().load(it, st, p, t, atomic, ins)

    def load_table(self, it, st, r, off, ins):
        f = self.tf.get(off)
        n = r[1]
        if f == 'pairs':
            return ('ptr', ('P', n), 0)
        if f == 'len':
            return ('len', n)
        if f == 'newTable':
            tb = self.tab(st, n)
            if tb[1] is not None:
                return ('ptr', tb[1], 0)
            if tb[2] == 'pv':
                return 0
            g = st.g
            if g.get('pt') == r:
                self.advance_prefix(st)
            s2 = st.copy()
            x = self.new_shared(s2)
            self.settab(s2, n, succ=x)
            # slots are sealed, frozen and retired only once there is a successor (checked where they are)
            if g.get('pt') == r and g.get('sealed') or \
                    any(S[1] == r and (k == self.KT or v[0] in ('marked', 'prime')) for S, (k, v) in st.slots.items()):
                return [(s2, ('ptr', x, 0))]
            if g.get('pt') == r:
                g['nullAt'] = 1
            return [(st, 0), (s2, ('ptr', x, 0))]
        v = st.fresh()
        if f == 'size' and st.g.get('table') == r:
            st.g['sizeread'] = st.g.get('sizeread', ()) + (v,)
        if f == 'copyDone':
            self.settab(st, n, done=(v,))
        return v

    def load_slot(self, it, st, p, ins):
        S, fld = self.slot_of(it, st, p, ins)
        if S is None:
            return st.fresh()
        self.count('slot loads')
        out = []
        for s, t in self.options(it, st, S, fld):
            self.note(it, s, S, fld, t, ins)
            s2 = s.copy()
            out.append((s, t))
            self.pend_add(s2, S, fld, t, 'r')
            out.append((s2, ('tag', (S, fld), t)))
        return out

    def store(self, it, st, p, v, t, atomic, ins):
        if isinstance(p, tuple) and p[0] == 'ptr':
            r, off = p[1], p[2]
            if r[0] == 'P':
                if self.tab(st, r[1])[2] == 'sh':
                    self.violate(it, st, ['C03', 'C01', 'C02', 'C04'], 'plain-store', 'a slot of a shared table is overwritten by a plain store', ins)
                return None
            if r[0] == 'T':
                if self.tab(st, r[1])[2] == 'sh':
                    f = self.tf.get(off, 'field')
                    pr = {'newTable': ['C10'], 'size': ['C12'], 'copyDone': ['C04'], 'pairs': ['C03', 'C10'], 'len': ['C10']}.get(f)
                    if pr:
                        self.violate(it, st, pr, 'plain-store-' + f, 'field %s of a shared table is overwritten by a plain store' % f, ins)
                elif self.tf.get(off) == 'newTable' and isinstance(v, tuple) and v[0] == 'ptr':
                    self.settab(st, r[1], succ=v[1])
                return None
            if r[0] == 'H':
                if off == self.off['map_table'] and not st.g.get('ctor'):
                    self.violate(it, st, ['C04', 'C03'], 'root-store', 'the current table is replaced by a plain store', ins)
                return None
        return super().store(it, st, p, v, t, atomic, ins)

    def rmw(self, it, st, p, op, v, ins):
        if isinstance(p, tuple) and p[0] == 'ptr':
            r, off = p[1], p[2]
            if r[0] == 'P':
                self.violate(it, st, ['C03', 'C01', 'C02', 'C04', 'C06'], 'slot-rmw', 'a slot is changed by an unconditional read-modify-write', ins)
                return st.fresh()
            if r[0] == 'H':
                self.violate(it, st, ['C04'], 'root-rmw', 'the current table is replaced unconditionally', ins)
                return st.fresh()
            if r[0] == 'T':
                f = self.tf.get(off)
                n = r[1]
                old = st.fresh()
                if f in ('size', 'copyDone') and op in ('add', 'sub'):
                    w = v if op == 'add' else mulc(v, -1)
                    return self.counter_add(it, st, n, f, w, old, ins)
                if f == 'newTable':
                    self.violate(it, st, ['C10'], 'newTable-rmw', 'the successor is replaced unconditionally', ins)
                elif f in ('size', 'copyDone'):
                    self.violate(it, st, ['C12' if f == 'size' else 'C04'], f + '-rmw', 'counter %s is overwritten' % f, ins)
                return old
            if r[0] == 'g':
                old = st.fresh()
                if op == 'add':
                    self.count('shared counter draws')
                    st.g['uniq'] = old
                return old
        return super().rmw(it, st, p, op, v, ins)

    def counter_add(self, it, st, n, f, w, old, ins):
        tb = self.tab(st, n)
        self.count('%s updates' % f)
        if f == 'size':
            if tb[2] == 'sh':
                self.settab(st, n, dsz=add(tb[3], w))
            return old
        unc = sub(tb[4], w)
        self.settab(st, n, unc=unc, done=tuple(sorted({add(x, w) for x in tb[5]} | {add(old, w)}, key=repr)))
        if not st.entails(unc):
            self.violate(it, st, ['C04'], 'overcount', 'more slots are counted as handed over (%s) than were retired (%s)' %
                         (self.sh(w), self.sh(tb[4])), ins)
        return old

    # ---- compare and swap ---------------------------------------------------------------
    def split_word(self, st, w):
        """(base, dirty) of a slot word, or None."""
        if isinstance(w, tuple) and w[0] == 'tag':
            return w[2], 1
        l = st.low3(w) if is_num(w) else None
        if l is None:
            return None
        return sub(w, l & self.D), l & self.D

    def cmpxchg(self, it, st, p, e, n, weak, ins):
        if isinstance(p, tuple) and p[0] == 'ptr':
            r, off = p[1], p[2]
            if r[0] == 'H' and off == self.off['map_table']:
                return self.cas_root(it, st, e, n, ins)
            if r[0] == 'T':
                return self.cas_table(it, st, r, off, e, n, ins)
            if r[0] == 'P':
                return self.cas_slot(it, st, p, e, n, weak, ins)
        return super().cmpxchg(it, st, p, e, n, weak, ins)

    def cas_root(self, it, st, e, n, ins):
        self.count('root compare-and-swaps')
        s2 = st.copy()
        f = self.new_shared(s2)
        out = [(s2, ('agg', (('ptr', f, 0), 0)))]
        if not (isinstance(e, tuple) and e[0] == 'ptr' and e[1][0] == 'T'):
            self.violate(it, st, ['C04'], 'promote-expected', 'the current table is replaced without expecting a known table', ins)
            return out + [(st, ('agg', (e, 1)))]
        T = e[1]
        tb = self.tab(st, T[1])
        if tb[1] is None or n != ('ptr', tb[1], 0):
            self.violate(it, st, ['C04', 'C10'], 'promote-successor', 'the current table is replaced by something other than its successor', ins)
        done = any(st.entails(sub(x, ('len', T[1]))) for x in tb[5])
        if not done:
            self.violate(it, st, ['C04'], 'promote-early',
                         'the successor is promoted without evidence that all slots of the old table are retired', ins)
        self.check_own(it, st, 'the successor is promoted', ins)
        self.count('promotions justified')
        out.append((st, ('agg', (e, 1))))
        return out

    def cas_table(self, it, st, r, off, e, n, ins):
        f = self.tf.get(off)
        nn = r[1]
        tb = self.tab(st, nn)
        if f == 'newTable':
            self.count('successor installations')
            out = []
            if tb[1] is not None and tb[2] == 'sh':
                cur = ('ptr', tb[1], 0)
                if e != 0 and isinstance(e, tuple):
                    if e == cur and n != e:
                        self.violate(it, st, ['C10'], 'successor-replaced', 'an installed successor is replaced', ins)
                        return [(st, ('agg', (e, 1)))]
                return [(st, ('agg', (cur, 0)))]
            if e != 0 and not st.known_ne(0, 0) and isinstance(e, tuple) and e[0] == 'ptr':
                self.violate(it, st, ['C10'], 'successor-replaced', 'a successor is installed over another one', ins)
            if tb[2] == 'sh':
                s2 = st.copy()
                x = self.new_shared(s2)
                self.settab(s2, nn, succ=x)
                out.append((s2, ('agg', (('ptr', x, 0), 0))))
            if isinstance(n, tuple) and n[0] == 'ptr' and n[1][0] == 'T':
                k = self.tab(st, n[1][1])
                if n[1] == r:
                    self.violate(it, st, ['C10'], 'successor-self', 'a table is installed as its own successor', ins)
                if k[2] == 'pv':
                    k2 = list(k)
                    k2[2] = 'sh'
                    st.tabs[n[1][1]] = tuple(k2)
                    st.g['published'] = n[1]
                self.settab(st, nn, succ=n[1])
            else:
                self.violate(it, st, ['C10'], 'successor-unknown', 'something that is not a new table is installed as successor', ins)
            out.append((st, ('agg', (e, 1))))
            return out
        s2 = st.copy()
        v = s2.fresh()
        if f == 'copyDone':
            w = sub(n, e) if is_num(n) and is_num(e) else st.fresh()
            self.counter_add(it, st, nn, f, w, e, ins)
            self.settab(s2, nn, done=(v,))
        elif f == 'size':
            w = sub(n, e) if is_num(n) and is_num(e) else st.fresh()
            self.counter_add(it, st, nn, f, w, e, ins)
        elif f in ('pairs', 'len'):
            self.violate(it, st, ['C10'], 'field-cas', 'field %s of a table is changed' % f, ins)
        return [(st, ('agg', (e, 1))), (s2, ('agg', (v, 0)))]

    def cas_slot(self, it, st, p, e, n, weak, ins):
        S, fld = self.slot_of(it, st, p, ins)
        if S is None:
            return [(st, ('agg', (st.fresh(), 0)))]
        self.count('slot compare-and-swaps')
        # unknown low bits: case split first
        for w in (e, n):
            if is_num(w) and not isinstance(w, int) and self.split_word(st, w) is None:
                raise AnalysisError('flag bits of a compare-and-swap operand are unknown at %s' % it.where(st))
        se, sn = self.split_word(st, e), self.split_word(st, n)
        if se is None or sn is None:
            raise AnalysisError('compare-and-swap operand not understood at %s' % it.where(st))
        (eb, ed), (nb, nd) = se, sn
        if isinstance(n, tuple) and n[0] == 'tag':
            self.use(it, st, n)
        out = []
        # failure: the word differs from e
        for s, t in self.options(it, st.copy(), S, fld):
            for dirty in (0, 1):
                s2 = s.copy()
                if dirty == ed and not weak:
                    if not self.differ(s2, t, eb):
                        continue
                self.note(it, s2, S, fld, t, ins)
                if dirty:
                    self.pend_add(s2, S, fld, t, 'r')
                    w = ('tag', (S, fld), t)
                else:
                    w = t
                out.append((s2, ('agg', (w, 0))))
        # success
        for s in self.match(it, st, S, fld, eb):
            self.cas_success(it, s, S, fld, eb, ed, nb, nd, e, ins)
            out.append((s, ('agg', (e, 1))))
        return out

    def differ(self, st, a, b):
        if sub(a, b) == 0:
            return False
        if st.known_ne(a, b):
            return True
        return st.assume_ne(a, b)

    def match(self, it, st, S, fld, eb):
        """States in which the word of S may equal eb."""
        k, v = self.fact(st, S)
        if self.tab(st, S[1][1])[2] == 'pv':
            cur = self.KI if fld == 'k' else self.VI
            return [st] if not st.known_ne(cur, eb) else []
        if fld == 'k':
            if k is not None:
                if st.known_ne(k, eb):
                    return []
                return [st] if st.assume_eq(k, eb) else []
            if eb != self.KI:
                self.setfact(st, S, key=eb)
            return [st]
        c = v[0]
        if eb == self.TP:
            if c != 'prime':
                self.setfact(st, S, val=('prime',))
            return [st]
        if c == 'prime':
            return []
        if c == 'marked':
            w = add(v[1], self.MG)
            if st.known_ne(w, eb):
                return []
            return [st] if st.assume_eq(w, eb) else []
        l = st.low3(eb)
        if l == self.MG:
            self.setfact(st, S, val=('marked', sub(eb, self.MG)))
            return [st]
        if eb == self.VI:
            return [st] if c == 'any' else []
        if k == self.KT:
            return []
        self.setfact(st, S, val=('noninit',))
        return [st]

    def cas_success(self, it, st, S, fld, eb, ed, nb, nd, e, ins):
        same = sub(eb, nb) == 0
        if same:
            if ed and not nd:
                # the not-yet-durable mark is removed
                self.count('mark removals')
                ok = True
                if isinstance(e, tuple) and e[0] == 'tag':
                    stg, u = st.pend.get((S, fld, eb, 'r'), (2, 1))
                    ok = stg == 2
                else:
                    # a word known by value: durable if flushed and fenced since it was written or read
                    for kk, (stg, u) in st.pend.items():
                        if kk[0] == S and kk[1] == fld and sub(kk[2], eb) == 0 and stg < 2:
                            ok = False
                if not ok:
                    self.violate(it, st, ['C06'], 'mark-removed-early',
                                 'the not-yet-durable mark is removed before the word has been written back and fenced', ins)
                return
            if nd and not ed:
                self.pend_add(st, S, fld, nb, 'r')
            return
        self.count('slot transitions checked')
        if not nd:
            self.violate(it, st, ['C06'], 'mark-missing', 'a word is changed without setting its not-yet-durable mark', ins)
        self.check_reads(it, st, 'a slot is changed', ins)
        if ed and isinstance(e, tuple):
            stg, u = st.pend.get((S, fld, eb, 'r'), (2, 1))
            if stg < 2:
                self.violate(it, st, ['C06'], 'replace-undurable', 'a word that may not be durable is replaced', ins)
        if fld == 'k':
            self.key_transition(it, st, S, eb, nb, ins)
        else:
            self.value_transition(it, st, S, eb, nb, ins)
        self.pend_add(st, S, fld, nb, 'own')

    def key_transition(self, it, st, S, eb, nb, ins):
        own = st.g.get('key')
        if eb != self.KI:
            self.violate(it, st, ['C03'], 'key-overwritten', 'a key that has been written (%s) is changed to %s' % (self.sh(eb), self.sh(nb)), ins)
        if nb == self.KT:
            if self.tab(st, S[1][1])[1] is None:
                self.violate(it, st, ['C04', 'C05'], 'seal-without-successor', 'an empty slot is sealed although no successor table exists', ins)
            self.setfact(st, S, key=self.KT)
            return
        if nb == self.KI:
            self.violate(it, st, ['C03'], 'key-cleared', 'a key slot is set back to empty', ins)
            return
        if own is None or sub(nb, own) != 0:
            self.violate(it, st, ['C01', 'C05'], 'foreign-key', 'a slot is claimed for %s, which is not the key of the operation' % self.sh(nb), ins)
        else:
            self.advance_prefix(st)
            if S != self.next_probe(st):
                self.violate(it, st, ['C05', 'C01'], 'claim-position',
                             'a slot is claimed although an earlier candidate was not shown to hold another key', ins)
            if not self.spec.may_claim:
                self.violate(it, st, ['C01'], 'claim-not-allowed', 'this operation must not claim a slot', ins)
            self.claims.append((self.entry, self.bounds(st, st.g.get('pfx', 0), -1), it.where(st)))
        self.setfact(st, S, key=nb)

    def value_transition(self, it, st, S, eb, nb, ins):
        tb = self.tab(st, S[1][1])
        le, ln = st.low3(eb), st.low3(nb)
        key = self.fact(st, S)[0]
        own = st.g.get('key')
        desc = '%s to %s' % (self.sh(eb), self.sh(nb))
        if ln is None or le is None:
            raise AnalysisError('unknown flag bits in a slot transition')
        if eb == self.TP:
            self.violate(it, st, ['C03', 'C04'], 'retired-changed', 'a retired slot is changed: ' + desc, ins)
            return
        if nb == self.VI:
            self.violate(it, st, ['C03'], 'value-cleared', 'a slot is set back to empty: ' + desc, ins)
            return
        if nb == self.TP:
            if tb[1] is None:
                self.violate(it, st, ['C04'], 'retire-without-successor', 'a slot is retired although no successor table exists', ins)
            if le == self.MG:
                base = sub(eb, self.MG)
                if not self.copied(st, S, base, key):
                    self.violate(it, st, ['C04', 'C07'], 'retire-before-copy',
                                 'a slot holding %s is retired before its binding was placed in the successor table' % self.sh(base), ins)
                self.check_own(it, st, 'a slot is retired', ins)
            elif eb not in (self.VI, self.VT):
                self.violate(it, st, ['C04', 'C07'], 'retire-live', 'a slot is retired while it still holds a binding: ' + desc, ins)
            n = S[1][1]
            self.settab(st, n, unc=add(self.tab(st, n)[4], 1))
            self.setfact(st, S, val=('prime',))
            st.log = st.log + (('retire', S, eb),)
            return
        if le == self.MG:
            self.violate(it, st, ['C03', 'C04'], 'frozen-changed', 'a value that is being handed over is changed: ' + desc, ins)
            return
        if ln == self.MG:
            if sub(sub(nb, self.MG), eb) != 0 or eb in (self.VI,):
                self.violate(it, st, ['C03', 'C04'], 'freeze-changes', 'freezing a slot changes its value: ' + desc, ins)
            if tb[1] is None:
                self.violate(it, st, ['C04'], 'freeze-without-successor', 'a slot is frozen although no successor table exists', ins)
            self.setfact(st, S, val=('marked', sub(nb, self.MG)))
            return
        if ln != 0:
            self.violate(it, st, ['C03', 'C13'], 'stray-flag', 'a value with a stray flag is stored: ' + desc, ins)
            return
        if self.fact(st, S)[1][0] == 'any' or eb == self.VI:
            pass
        self.setfact(st, S, val=('noninit',))
        if own is None or key is None or sub(key, own) != 0:
            self.violate(it, st, ['C01', 'C02'], 'wrong-slot', 'a value is stored in a slot that is not known to belong to the key of the operation', ins)
        st.log = st.log + (('cas', S, eb, nb),)
        if nb in (self.ANY, self.NOOLD):
            self.violate(it, st, ['C01', 'C13'], 'wildcard-stored', 'a wildcard is stored as a value', ins)

    def copied(self, st, S, base, key):
        T = self.tab(st, S[1][1])[1]
        for ev in st.log:
            if ev[0] == 'copy' and T is not None and ev[1] == T and key is not None and sub(ev[2], key) == 0 and sub(ev[3], base) == 0:
                return True
        return False

    # ---- bounds on the probe count ------------------------------------------------------
    def bounds(self, st, pfx, sign):
        """Candidates B with pfx >= B (sign +1) or pfx < B (sign -1), free of the probe counter."""
        c, d = lin(pfx)
        out = set()
        if all(a[0] in ('len', 'shr') for a in d):
            out.add(pfx if sign > 0 else add(pfx, 1))
        syms = [s for s, k in d.items() if k == 1]
        for s in syms:
            for f in st.le:
                k = lin(f)[1].get(s, 0)
                if sign > 0 and k == 1:
                    out.add(sub(pfx, f))
                if sign < 0 and k == -1:
                    out.add(add(add(pfx, f), 1))
        # the capacity of the table being probed, under one name
        T = st.g.get('pt')
        if T is not None:
            out = {rebuild(t, lambda x: ('T', 'cur') if x == T else x) for t in out}
        return frozenset(out)

    # ---- fences, flushes, calls -----------------------------------------------------------
    def fence(self, it, st, ins):
        self.do_fence(st)

    def on_stack(self, st, nm):
        return any((self.p.fn[fr.fn].get('name') or '') == nm for fr in st.frames)

    def call(self, it, st, name, f, cal, args, ins):
        if name and name.startswith('llvm.'):
            if 'clflush' in name or 'clwb' in name:
                self.count('write-backs')
                self.flush_ptr(it, st, args[0])
                return [(st, 0)]
            if name.endswith('fence'):
                self.count('fences')
                self.do_fence(st)
                return [(st, 0)]
            return self.intrinsic(it, st, name, args, ins)
        if isinstance(cal, tuple) and cal[0] == 's' and cal == st.g.get('fn'):
            return self.user_function(it, st, args, ins)
        if isinstance(cal, tuple) and cal[0] == 'asm':
            return self.asm(it, st, cal[1], args)
        if f is None:
            return None
        nm = f.get('name') or ''
        d = f['dem']
        if f['sym'] in self.c.hashes and len(args) == 2:
            self.count('hash computations')
            k = args[1]
            if isinstance(k, tuple) and k[0] == 'ptr' :
                k = self.load(it, st, k, 'i64', 0, ins)
                if isinstance(k, list):
                    raise AnalysisError('hash of a shared word')
            return [(st, ('op', 'hash', k))]
        h = getattr(self, 'cut_' + nm, None)
        if h is not None and nm not in self.spec.nocut and self.inline(f):
            return h(it, st, f, args, ins)
        return None

    def asm(self, it, st, text, args):
        if 'clwb' in text or 'clflush' in text or 'xsaveopt' in text:
            for a in args:
                self.flush_ptr(it, st, a)
        if 'fence' in text:
            self.do_fence(st)
        return [(st, 0)]

    def tb(self, v):
        return v[1] if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'T' else None

    def cut_PERSIST(self, it, st, f, args, ins):
        self.flush_ptr(it, st, args[0])
        self.do_fence(st)
        return [(st, 0)]

    def cut_PERSIST_FLUSH_ONLY(self, it, st, f, args, ins):
        self.flush_ptr(it, st, args[0])
        return [(st, 0)]

    def cut_helpCopy(self, it, st, f, args, ins):
        if len(args) < 2:
            return None
        self.count('help calls')
        return [(st, args[1])]

    def cut_resize(self, it, st, f, args, ins):
        if len(args) != 3:
            return None
        T = self.tb(args[2])
        if T is None:
            return None
        if isinstance(args[0], tuple) and args[0][0] == 'ptr' and args[0][1] != T:
            self.violate(it, st, ['C10', 'C04'], 'resize-other', 'a successor is requested from one table for another one', ins)
        self.count('resize calls')
        if self.tab(st, T[1])[2] == 'pv':
            return None
        x = self.successor(st, T[1])
        r = [(st, ('ptr', x, 0))]
        return r

    def cut_copySlot(self, it, st, f, args, ins):
        if len(args) != 5:
            return None
        To, Tn = self.tb(args[3]), self.tb(args[4])
        idx = args[2]
        if To is None or Tn is None:
            return None
        self.count('hand-over calls')
        if isinstance(args[0], tuple) and args[0][0] == 'ptr' and args[0][1] != To:
            self.violate(it, st, ['C04'], 'handover-other', 'a slot of one table is handed over through another one', ins)
        tb = self.tab(st, To[1])
        if tb[1] != Tn:
            self.violate(it, st, ['C04', 'C10'], 'handover-target', 'a slot is handed over to a table that is not the successor', ins)
        if not st.entails(sub(sub(('len', To[1]), idx), 1)):
            self.violate(it, st, ['C17'], 'handover-bounds', 'slot index %s is not shown to be below the capacity' % self.sh(idx), ins)
        S = ('S', To, idx)
        k, v = self.fact(st, S)
        if v[0] == 'prime':
            return [(st, 0)]
        s2 = st.copy()
        self.setfact(st, S, val=('prime',))
        self.setfact(s2, S, val=('prime',))
        self.settab(s2, To[1], unc=add(self.tab(s2, To[1])[4], 1))
        return [(st, 0), (s2, 1)]

    def cut_mmapTable(self, it, st, f, args, ins):
        if len(args) != 4:
            return None
        self.count('table creations')
        s2 = st.copy()
        n = st.fresh_table()
        st.tabs[n] = ('tab', None, 'pv', 0, 0, (), 0)
        st.g['made'] = ('made', ('T', n), args[0], args[1], args[2])
        self.check_new_table(it, st, args, ins)
        return [(st, ('ptr', ('T', n), 0)), (s2, 0, 'throw')]

    def check_new_table(self, it, st, args, ins):
        """resize: capacity, inherited count, unique name."""
        T = st.g.get('table')
        if T is None:
            return
        cap = args[1]
        L = ('len', T[1])
        ok = False
        if is_num(cap) and not isinstance(cap, int):
            c, d = lin(cap)
            if c == 0 and list(d) == [L]:
                k = d[L]
                ok = k >= 2 and k & (k - 1) == 0
        if not ok:
            self.violate(it, st, ['C10'], 'successor-capacity',
                         'the capacity of the successor, %s, is not the old capacity times a power of two greater than one' % self.sh(cap), ins)
        if args[0] != 1:
            self.violate(it, st, ['C09', 'C10'], 'successor-not-new', 'the successor is not created as a new table', ins)
        if args[2] not in st.g.get('sizeread', ()):
            self.violate(it, st, ['C12'], 'successor-count', 'the successor does not start with the element count of the table it replaces', ins)
        u = st.g.get('named')
        if args[3] != 0 and u is None:
            self.violate(it, st, ['C11', 'C10'], 'file-name', 'the file name of the successor is not made from a number drawn from the shared counter', ins)

    def cut_getOrderedFileName(self, it, st, f, args, ins):
        u = st.g.get('uniq')
        a = args[-1]
        if u is not None and is_num(a) and a == u:
            st.g['named'] = 1
            st.g.pop('uniq', None)
        else:
            st.g.pop('named', None)
        self.escape(st, args[0])
        r = [(st, 0)]
        return r

    def cut_munmapTable(self, it, st, f, args, ins):
        T = self.tb(args[0])
        if T is None:
            return None
        self.count('table releases')
        if self.tab(st, T[1])[2] != 'pv':
            self.violate(it, st, ['C10', 'C04'], 'release-shared', 'a table that other threads may be using is released', ins)
        s2 = st.copy()
        return [(st, 1), (s2, 0)]

    def obs_options(self, it, st):
        """The binding another call of the operation's core observed: [(state, observation)]; None is 'absent'."""
        s = st.copy()
        x = st.fresh(low=0, ne=self.live_ne)
        return [(s, None), (st, x)]

    def cut_putIfMatch(self, it, st, f, args, ins):
        if len(args) != 6 or self.tb(args[1]) is None:
            return None
        T, key, new, old, fn = self.tb(args[1]), args[2], args[3], args[4], args[5]
        g = st.g
        own = g.get('key')
        rec = self.on_stack(st, 'putIfMatch') and sum(1 for fr in st.frames if fr.fn == f['sym']) >= 1
        if not rec and (g.get('op') == 'copy' or g.get('op') in UPDATES and old != self.VI):
            g['inew'], g['iold'], g['ifn'] = new, old, fn
            return None
        if rec and (g.get('op') == 'copy' or old != self.VI):
            return self.delegate(it, st, T, key, new, old, fn, ins)
        # a binding is carried over into the successor
        self.count('carry-overs')
        st.log = st.log + (('copy', T, key, new),)
        if old != self.VI:
            self.violate(it, st, ['C04'], 'copy-overwrites', 'carrying over a binding may overwrite a newer one in the successor table', ins)
        if self.fnCAS is not None and fn != ('fn', self.fnCAS):
            self.violate(it, st, ['C04', 'C02'], 'copy-function', 'carrying over a binding does not store the binding itself', ins)
        if not isinstance(new, int) and is_num(new) and st.low3(new) not in (0,):
            self.violate(it, st, ['C04'], 'copy-flag', 'a binding is carried over with a flag', ins)
        return [(st, st.fresh(low=0))]

    def moved_on(self, it, st, T, ins, what):
        """The operation continues in table T: is it entitled to?"""
        g = st.g
        pt = g.get('pt')
        if pt is None:
            self.violate(it, st, ['C05'], 'skip-table', '%s continues in the successor without searching the table' % what, ins)
            return
        if self.tab(st, pt[1])[1] != T:
            self.violate(it, st, ['C05', 'C04'], 'move-target', '%s continues in a table that is not the successor of the one it searched' % what, ins)
        self.advance_prefix(st)
        own = g['key']
        for S, (k, v) in st.slots.items():
            if S[1] == pt and k is not None and sub(k, own) == 0:
                if v[0] == 'prime':
                    self.count('moves to successor justified')
                    return
                self.violate(it, st, ['C04'], 'move-before-handover',
                             '%s continues in the successor before the slot of its key has been handed over' % what, ins)
                return
        if g.get('sealed'):
            self.count('moves to successor justified')
            return
        b = self.bounds(st, g['pfx'], +1)
        self.exhausts.append((self.entry, b, it.where(st)))

    def delegate(self, it, st, T, key, new, old, fn, ins):
        g = st.g
        self.count('recursive calls')
        self.moved_on(it, st, T, ins, 'the update')
        if sub(key, g['key']) != 0:
            self.violate(it, st, ['C01'], 'retry-key', 'the update continues with a different key', ins)
        if not self.same(new, g['inew']):
            self.violate(it, st, ['C01', 'C02'], 'retry-new', 'the update continues with a different new value (%s)' % self.sh(new), ins)
        if not self.same(old, g['iold']):
            self.violate(it, st, ['C01'] if g['op'] != 'copy' else ['C01', 'C04'], 'retry-old', 'the update continues with a different condition (%s)' % self.sh(old), ins)
        if fn != g['ifn']:
            self.violate(it, st, ['C02', 'C01'], 'retry-function', 'the update continues with a different update function', ins)
        if st.g.get('delegated') or any(e[0] == 'cas' for e in st.log):
            self.violate(it, st, ['C01', 'C02'], 'retry-after-effect', 'the update continues in the successor after it has already taken effect', ins)
        out = []
        for s, o in self.obs_options(it, st):
            s.g['delegated'] = ('obs', o)
            if o is None:
                s2 = s.copy()
                out.append((s, self.VT))
                out.append((s2, self.VI))
            else:
                out.append((s, o))
        return out

    @staticmethod
    def same(a, b):
        return a == b or (is_num(a) and is_num(b) and sub(a, b) == 0)

    def cut_getImpl(self, it, st, f, args, ins):
        if len(args) != 4 or not any(fr.fn == f['sym'] for fr in st.frames):
            return None
        T, key, h = self.tb(args[1]), args[2], args[3]
        if T is None:
            return None
        g = st.g
        self.count('recursive calls')
        self.moved_on(it, st, T, ins, 'the lookup')
        if not self.same(key, g['key']):
            self.violate(it, st, ['C05', 'C01'], 'retry-key', 'the lookup continues with a different key', ins)
        if h != ('op', 'hash', g['key']):
            self.violate(it, st, ['C05'], 'retry-hash', 'the lookup continues with a different hash', ins)
        out = []
        for s, o in self.obs_options(it, st):
            s.g['delegated'] = ('obs', o)
            out.append((s, self.VI if o is None else o))
        return out

    def fn_eq(self, st, a, b):
        # an unknown update function is not the default one (that case is the analysis of put)
        f = st.g.get('fn')
        if f is not None and f in (a, b):
            return False
        return None

    def user_function(self, it, st, args, ins):
        """update() with an unknown function f(table, idx, old, new): atomically replaces old by something."""
        if len(args) != 4 or self.tb(args[0]) is None:
            self.violate(it, st, ['C02'], 'function-arguments', 'the update function is called with something else than its table', ins)
            return [(st, st.fresh())]
        T, idx, E, N = self.tb(args[0]), args[1], args[2], args[3]
        S = ('S', T, idx)
        g = st.g
        if not self.same(N, g['inew']):
            self.violate(it, st, ['C02'], 'function-new', 'the update function does not receive the value given to update', ins)
        k, v = self.fact(st, S)
        if k is None or not self.same(k, g['key']):
            self.violate(it, st, ['C02', 'C01'], 'function-slot', 'the update function is applied to a slot that does not belong to the key', ins)
        out = []
        for s, t in self.val_options(it, st.copy(), S):
            if not self.differ(s, t, E):
                continue
            self.note(it, s, S, 'v', t, ins)
            out.append((s, t))
        for s in self.match(it, st, S, 'v', E):
            if E in (self.TP,) or st.low3(E) not in (0, None):
                self.violate(it, s, ['C02', 'C03'], 'function-frozen', 'the update function is applied to a frozen value', ins)
            self.setfact(s, S, val=('noninit',))
            s.log = s.log + (('cas', S, E, 'f'),)
            out.append((s, E))
        return out

    # ---- pointer equality -------------------------------------------------------------------
    def ptr_eq(self, it, st, a, b):
        if a[1][0] == 'T' and b[1][0] == 'T' and a[2] == b[2]:
            ta, tb = self.tab(st, a[1][1]), self.tab(st, b[1][1])
            if ta[2] == 'pv' or tb[2] == 'pv' or ta[1] == b[1] or tb[1] == a[1]:
                return [(st, False)]
            s2 = st.copy()
            # unify
            x, y = a[1], b[1]
            keep = self.merge_tab(ta, tb)
            st.rename(lambda t: x if t == y else t)
            st.tabs[x[1]] = keep
            return [(st, True), (s2, False)]
        return super().ptr_eq(it, st, a, b)

    @staticmethod
    def merge_tab(a, b):
        return ('tab', a[1] if a[1] is not None else b[1], 'sh', add(a[3], b[3]), add(a[4], b[4]), a[5] + b[5], max(a[6], b[6]))

    # ---- canonical form ------------------------------------------------------------------------
    def normalise(self, st):
        self.advance_prefix(st)
        g = st.g
        own = g.get('key')
        # remember that a mismatching binding was seen before forgetting which
        old = g.get('cmpold')
        if own is not None:
            for S, vs in list(st.obs.items()):
                k = self.fact(st, S)[0]
                if k is not None and st.known_ne(k, own):
                    del st.obs[S]
        for k, (stg, u) in list(st.pend.items()):
            if k[3] == 'own' and stg == 2:
                del st.pend[k]

    def gc(self, st, order, number):
        g = st.g
        own = g.get('key')
        live = set(order)

        def known(t):
            a = set()
            atoms_of(t, a)
            return all(x in order or isinstance(x[1], str) for x in a)
        # tables reachable
        todo = [x for x in order if x[0] == 'T']
        seen = set(todo)
        while todo:
            x = todo.pop()
            tb = st.tabs.get(x[1])
            if tb is None:
                continue
            if tb[1] is not None and tb[1] not in seen:
                seen.add(tb[1])
                number(tb[1], order)
                todo.append(tb[1])
            number(tb[3:5], order)
            number(tb[5], order)
        idx = set()
        for fr in st.frames:
            for v in fr.loc.values():
                self.indices(v, idx)
        for v in st.mem.values():
            self.indices(v, idx)
        for e in st.log:
            self.indices(e, idx)
        for k in st.pend:
            if k[3] == 'own':
                idx.add(k[0][2])
        for S in sorted((S for S in st.slots), key=repr):
            k = st.slots[S][0]
            if own is not None and k is not None and sub(k, own) == 0 and (st.slots[S][1] != ('prime',) or known(S)):
                number(S, order)
                number(st.slots[S], order)
            elif known(S) and (S[2] in idx or isinstance(S[2], tuple) and S[2][0] == 's' and isinstance(S[2][1], str)):
                number(st.slots[S], order)
            else:
                del st.slots[S]
        for n in list(st.tabs):
            if ('T', n) not in order:
                tb = st.tabs[n]
                if tb[4] != 0 or tb[3] != 0:
                    number(('T', n), order)
                    number(tb[3:5], order)
                else:
                    del st.tabs[n]
        # observations: keep those somebody still refers to
        cmpo = g.get('iold')
        for S in list(st.obs):
            if not known(S):
                del st.obs[S]
                continue
            keep = set()
            for v in st.obs[S]:
                if isinstance(v, int) or known(v):
                    keep.add(v)
                elif cmpo is not None and st.known_ne(v, cmpo) and own is not None and self.fact(st, S)[0] is not None and sub(self.fact(st, S)[0], own) == 0:
                    if g.get('op') in ('remove2', 'replace'):
                        g['mism'] = 1
            if keep:
                st.obs[S] = frozenset(keep)
                for v in keep:
                    number(v, order)
            else:
                del st.obs[S]
        tags = set()
        for fr in st.frames:
            for v in fr.loc.values():
                self.tags(v, tags)
        for v in st.mem.values():
            self.tags(v, tags)
        for k in sorted(st.pend, key=repr):
            stg, u = st.pend[k]
            if k[3] == 'r' and (k[0], k[1], k[2]) not in tags and (stg == 2 or not u):
                del st.pend[k]
                continue
            if k[3] == 'r' and k[0][2] not in idx and (k[0], k[1], k[2]) not in tags:
                # nobody can write this word back any more
                del st.pend[k]
                st.pend[(('S', 'gone', 0), k[1], 0, 'r')] = (min(stg, st.pend.get((('S', 'gone', 0), k[1], 0, 'r'), (stg, 1))[0]), 1)
                continue
            number(k, order)

    def indices(self, v, out):
        """Slot indices that a live value denotes or points at."""
        if isinstance(v, int):
            out.add(v)
            return
        if not isinstance(v, tuple) or not v:
            return
        h = v[0]
        if h == 'ptr':
            if v[1][0] == 'P':
                c, d = lin(v[2])
                out.add(div(sub(v[2], c % self.PAIR), self.PAIR) if not any(k % self.PAIR for k in d.values()) else v[2])
        elif h == 'S':
            out.add(v[2])
        elif h == 'tag':
            out.add(v[1][0][2])
        elif h in ('agg', 'cas'):
            for x in v[1:]:
                self.indices(x, out)
        elif h in ('s', '+', 'mod'):
            out.add(v)
        elif isinstance(h, tuple):
            for x in v:
                self.indices(x, out)

    def tags(self, v, out):
        if isinstance(v, tuple):
            if v and v[0] == 'tag':
                out.add((v[1][0], v[1][1], v[2]))
                return
            for x in v:
                if isinstance(x, tuple):
                    self.tags(x, out)


# ---- specifications of the operations -------------------------------------------------------------
UPDATES = ('update', 'put', 'putIfAbsent', 'remove', 'remove2', 'replace', 'increment')


class Spec:
    may_claim = True
    nocut = ()
    model = MapModel

    def __init__(self, **kw):
        self.__dict__.update(kw)
