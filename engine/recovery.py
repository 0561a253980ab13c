"""The constructor of the map: opening the tables found in a directory."""
from terms import *
from interp import *
from pmap import *
from storage import FileModel, is_num_t, MFAIL

VEC = 'std::vector<'


class CtorModel(FileModel):
    """Names are ('nm', i) in their sorted order, kept tables ('K', i) in the order they were kept.

    Ghosts: names/tables: lengths of the two vectors; next: the next name whose table is to be opened; cur: the table being examined
    (table, keys seen empty so far, values seen dead so far, kept, removed); lk: length of the chain linked so far."""

    OPPOSITE = False        # the loops over tables and over slots have nothing to do with each other

    # ---- the table being examined -------------------------------------------------
    def cur(self, st):
        return st.g.get('cur')

    def dead(self, st):
        """Is the table under examination shown to hold no binding that matters?"""
        c = self.cur(st)
        if c is None:
            return True
        T, kk, kv = c[0], c[1], c[2]
        ln = ('len', T[1])
        if kk is not None and st.entails(sub(kk, ln)):
            return True
        return kv is not None and st.entails(sub(kv, ln)) and st.g.get('tables', 0) == 0

    def finish_table(self, it, st, ins):
        c = self.cur(st)
        if c is not None and not self.dead(st):
            self.violate(it, st, ['C11', 'C04', 'C07'], 'table-dropped', 'a table that is not shown to be free of bindings is left out of the recovered map', ins)
        if st.g.pop('early', 0):
            self.violate(it, st, ['C11'], 'link-dropped', 'a table that is not kept is linked', ins)
        st.g.pop('cur', None)

    def scan(self, st, S, k=None, v=None):
        c = self.cur(st)
        if c is None or S[1] != c[0]:
            return
        T, kk, kv, j = c
        st.g['at'] = S
        if k is not None and kk is not None and sub(kk, S[2]) == 0:
            kk = add(kk, 1) if k == self.KI else None
        if v is not None and kv is not None and sub(kv, S[2]) == 0:
            kv = add(kv, 1) if v == 'dead' else None
        st.g['cur'] = (T, kk, kv, j)

    def key_options(self, it, st, S):
        if self.tab(st, S[1][1])[2] != 'rc':
            return super().key_options(it, st, S)
        k, v = self.fact(st, S)
        if k is not None:
            return [(st, k)]
        r = []
        live = v[0] == 'is' and v[1] not in (self.VI, self.VT, self.TP)
        if not live:
            s = st.copy()
            self.setfact(s, S, key=self.KI)
            self.scan(s, S, k=self.KI)
            r.append((s, self.KI))
        w = st.fresh(low=0, ne=frozenset((self.KI,)))
        self.setfact(st, S, key=w)
        self.scan(st, S, k=w)
        return r + [(st, w)]

    def val_options(self, it, st, S):
        if self.tab(st, S[1][1])[2] != 'rc':
            return super().val_options(it, st, S)
        k, v = self.fact(st, S)
        if v[0] == 'is':
            return [(st, v[1])]
        r = []
        for what in ('VI', 'VT', 'TP', 'live', 'frozen'):
            if what in ('live', 'frozen') and k == self.KI:
                continue
            s = st.copy()
            w = {'VI': self.VI, 'VT': self.VT, 'TP': self.TP}.get(what)
            if w is None:
                w = s.fresh(low=0, ne=self.live_ne)
                if what == 'frozen':
                    w = add(w, self.MG)
            self.setfact(s, S, val=('is', w))
            self.scan(s, S, v='live' if what in ('live', 'frozen') else 'dead')
            r.append((s, w))
        return r

    def normalise(self, st):
        # what earlier slots of the table held has been counted
        c, at = self.cur(st), st.g.get('at')
        if at is not None and (c is None or c[0] != at[1]):
            st.g.pop('at')
            at = None
        for k in list(st.slots):
            if k[0] == 'S' and k[1][1] in st.tabs and st.tabs[k[1][1]][2] == 'rc' and k != at:
                del st.slots[k]
        # which lengths a vector is known not to have is of no use
        for k, (low, ne) in list(st.info.items()):
            if any(0 < c < SMALL for c in ne):
                st.info[k] = (low, frozenset(c for c in ne if not 0 < c < SMALL))
        # each count gets a symbol of its own
        used = set()
        for get in (lambda g: g.get('next'), lambda g: g.get('tables'), lambda g: g.get('lk'), lambda g: c and g['cur'][1], lambda g: c and g['cur'][2]):
            t = get(st.g)
            if not is_num_t(t):
                continue
            k0, x = lin(t)
            if any(a[0] != 's' or isinstance(a[1], str) for a in x):
                continue
            free = sorted(a for a, k in x.items() if abs(k) == 1 and a not in used)
            if free and (len(x) > 1 or k0):
                n = st.fresh()
                k = x[free[0]]
                st.subst(free[0], mulc(sub(n, mk(k0, {a: q for a, q in x.items() if a != free[0]})), k))
                used.add(n)
            used |= {a for a in x}
        # how the counts compare to each other is of no use
        st.ne = frozenset(t for t in st.ne if len(lin(t)[1]) < 2)
        def useful(t):
            x = lin(t)[1]
            sy = [a for a in x if a[0] == 's']
            if len(sy) < 2:
                return True
            # an index into one of the vectors
            return len(x) == 2 and any(a == ('s', 'NN') or a == st.g.get('tables') for a in sy) and sorted(x.values()) == [-1, 1]
        st.le = frozenset(t for t in st.le if useful(t))
        MapModel.normalise(self, st)

    # ---- tables ---------------------------------------------------------------------
    def load(self, it, st, p, t, atomic, ins):
        if isinstance(p, tuple) and p[0] == 'ptr':
            r = p[1]
            if r[0] == 'E' and r[1] == 'tables' and p[2] == 0:
                return ('ptr', ('K', r[2]), 0)
            if r[0] == 'K':
                if self.tf.get(p[2]) == 'newTable':
                    return 0 if self.lk(st) == 1 else st.fresh()
                raise AnalysisError('a field of a recovered table is read after the tables were collected')
        return super().load(it, st, p, t, atomic, ins)

    # the length of the chain linked so far; relative to the number of tables kept where that is fixed
    def lk(self, st):
        v = st.g.get('lk')
        return 1 if v is None else sub(st.g.get('tables', 0), int(v)) if isinstance(v, str) else v

    def setlk(self, st, v):
        st.g['lk'] = '0' if sub(st.g.get('tables', 0), v) == 0 and v != 1 else v

    def link(self, it, st, j, n, ins):
        lk = self.lk(st)
        self.count('links')
        c = self.cur(st)
        if c is not None and n == ('ptr', c[0], 0) and sub(add(j, 1), st.g.get('tables', 0)) == 0:
            # the table under examination, which has to be kept then
            st.g['early'] = 1
            return
        if not (isinstance(n, tuple) and n[0] == 'ptr' and n[1][0] == 'K'):
            self.violate(it, st, ['C11'], 'link-unknown', 'a recovered table is linked to something that is not a recovered table', ins)
            return
        if sub(n[1][1], add(j, 1)) != 0:
            self.violate(it, st, ['C11'], 'link-order', 'a recovered table is linked to one that is not the next one', ins)
        elif sub(n[1][1], lk) == 0:
            st.g['lk'] = add(lk, 1)

    def store(self, it, st, p, v, t, atomic, ins):
        if isinstance(p, tuple) and p[0] == 'ptr':
            r = p[1]
            if r[0] == 'K':
                if self.tf.get(p[2]) == 'newTable':
                    self.link(it, st, r[1], v, ins)
                return None
            if r[0] == 'E':
                raise AnalysisError('an element of a vector is overwritten')
            if r[0] == 'g' and ('fileNameCounter' in r[1] or is_num_t(v) and any(a[:2] == ('op', 'num') for a in lin(v)[1])):
                self.count('file numbers')
                n = st.g.get('names')
                last = ('op', 'num', ('nm', sub(n, 1))) if n is not None else None
                d = sub(v, last) if last is not None and is_num_t(v) else None
                st.g['ctr'] = 1 if isinstance(d, int) and 1 <= d < 1 << 32 else 0
                return None
        return super().store(it, st, p, v, t, atomic, ins)

    def cmpxchg(self, it, st, p, e, n, weak, ins):
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] == 'K' and self.tf.get(p[2]) == 'newTable':
            if e != 0:
                self.violate(it, st, ['C11', 'C10'], 'successor-replaced', 'a successor is installed over another one', ins)
            self.link(it, st, p[1][1], n, ins)
            return [(st, ('agg', (0, 1)))]
        return super().cmpxchg(it, st, p, e, n, weak, ins)

    def ptr_eq(self, it, st, a, b):
        if a[1][0] == 'K' and b[1][0] == 'K' and a[2] == b[2]:
            return it.eqtest(st, a[1][1], b[1][1])
        if 'K' in (a[1][0], b[1][0]) and 'T' in (a[1][0], b[1][0]):
            return [(st, False)]
        return super().ptr_eq(it, st, a, b)

    def cut_mmapTable(self, it, st, f, args, ins):
        if len(args) != 4:
            return None
        g = st.g
        self.count('table creations' if args[0] == 1 else 'tables opened')
        s2 = st.copy()
        n = st.fresh_table()
        if args[0] == 1:
            self.need_counter(it, st, ins)
            st.tabs[n] = ('tab', None, 'pv', 0, 0, (), 0)
            st.g['made'] = ('T', n)
            return [(st, ('ptr', ('T', n), 0)), (s2, 0, 'throw')]
        if args[0] != 0:
            raise AnalysisError('a table is opened or created depending on something unknown')
        self.finish_table(it, st, ins)
        j = None
        nm = self.content(st, args[3]) if args[3] != 0 else None
        if nm is None or nm[0] != 'nm':
            self.violate(it, st, ['C11'], 'opens-other', 'a table file is opened that is not one of those found', ins)
        else:
            j = nm[1]
            if not g.get('sorted'):
                self.violate(it, st, ['C11'], 'unsorted', 'table files are opened without having been put in the order of their numbers', ins)
            if sub(j, g.get('next', 0)) != 0:
                self.violate(it, st, ['C11'], 'open-order', 'table files are not opened one after the other in the order of their numbers', ins)
            g['next'] = add(j, 1)
        st.tabs[n] = ('tab', None, 'rc', 0, 0, (), 0)
        g['cur'] = (('T', n), 0, 0, j)
        return [(st, ('ptr', ('T', n), 0)), (s2, 0, 'throw')]

    def need_counter(self, it, st, ins):
        n = st.g.get('names', 0)
        if st.g.get('ctr') != 1 and not st.entails(mulc(n, -1)):
            self.violate(it, st, ['C11', 'C09'], 'file-number', 'table files can be created with numbers that those found in the directory already have', ins)

    def cut_munmapTable(self, it, st, f, args, ins):
        a = args[0]
        self.count('table releases')
        if isinstance(a, tuple) and a[0] == 'ptr' and a[1][0] == 'K':
            self.violate(it, st, ['C11', 'C10'], 'release-kept', 'a table that is part of the recovered map is released', ins)
        elif isinstance(a, tuple) and a[0] == 'ptr' and self.cur(st) and a[1] == self.cur(st)[0] and not self.dead(st):
            self.violate(it, st, ['C11', 'C04', 'C07'], 'table-dropped', 'a table that is not shown to be free of bindings is released', ins)
        s2 = st.copy()
        return [(st, 1), (s2, 0)]

    # ---- files -------------------------------------------------------------------------
    def removed(self, it, st, c, ins):
        self.count('file removals')
        cur = self.cur(st)
        if c[0] == 'nm' and cur and cur[3] is not None and sub(c[1], cur[3]) == 0:
            if not self.dead(st):
                self.violate(it, st, ['C11', 'C04', 'C07'], 'table-deleted', 'the file of a table that is not shown to be free of bindings is deleted', ins)
        elif c[:2] == ('op', 'ent') and self.entry_(st)[1] == 0:
            pass            # not a table file
        else:
            self.violate(it, st, ['C11', 'C04', 'C07'], 'file-deleted', 'a file other than that of a table found to be free of bindings is deleted', ins)

    def sys_remove(self, it, st, args, ins):
        self.removed(it, st, self.content(st, args[0]), ins)
        s2 = st.copy()
        return self.result(st, s2)
    sys_unlink = sys_remove

    def result(self, st, s2):
        return [(st, 0), (s2, (1 << 32) - 1)]

    # ---- strings -------------------------------------------------------------------------
    def element_string(self, st, p):
        if p[1][1] == 'names' and p[2] == 0:
            return ('nm', p[1][2])
        return ('op', 'unk', p)

    def entry_(self, st):
        """The directory entry under examination: regular file?, named .dat?, taken?"""
        return st.g.get('ent', (None, None, 0))

    def split_entry(self, st, i, true=1):
        e = self.entry_(st)
        if e[i] is not None:
            return [(st, true if e[i] else 1 - true)]
        r = []
        for v in (1, 0):
            s = st.copy()
            x = list(e)
            x[i] = v
            s.g['ent'] = tuple(x)
            r.append((s, true if v else 1 - true))
        return r

    def leave_entry(self, it, st, ins):
        e = st.g.pop('ent', None)
        if e and e[1] == 1 and e[0] != 0 and not e[2]:
            self.violate(it, st, ['C11', 'C04', 'C07'], 'file-skipped', 'a table file in the directory is left out of the recovered map', ins)

    # ---- vectors ---------------------------------------------------------------------------
    def length(self, st, kind):
        g = st.g
        if kind == 'names' and not g.get('fixed'):
            g['fixed'] = 1
            N = ('s', 'NN')
            if g.get('names', 0) != 0 or g.get('dirdone'):
                g['names'] = N
                st.record(N)
            else:
                g['names'] = 0
        return g.get(kind, 0)

    def kind(self, d, it_=False):
        """names, tables or None from a demangled signature that mentions a vector."""
        i = d.find(VEC)
        if i < 0:
            return None
        e = d[i + len(VEC):]
        if e.startswith('std::__cxx11::basic_string<char') or e.startswith('std::string'):
            return 'names'
        if '::Table*' in e.split(',')[0] + ','.join(e.split(',')[:4]):
            return 'tables'
        raise AnalysisError('a vector of something unexpected is used: %s' % d[:120])

    def member(self, d):
        """Name of the function: the identifier before the parameter list of a demangled signature."""
        e = d.rfind(')')
        depth = 0
        i = e
        while i >= 0:
            if d[i] in ')>]}':
                if not (d[i] == '>' and d[i - 1] in '-' ):
                    depth += 1
            elif d[i] in '(<[{':
                depth -= 1
                if depth == 0:
                    break
            i -= 1
        h = d[:i]
        for op in ('operator()', 'operator[]', 'operator->', 'operator==', 'operator!=', 'operator*', 'operator++', 'operator--', 'operator-=', 'operator+=',
                   'operator<=>', 'operator-', 'operator+', 'operator='):
            k = h.rfind(op)
            if k >= 0 and (k + len(op) == len(h) or h[k + len(op)] in '<['):
                return op
        # drop template arguments
        depth, cut = 0, len(h)
        i = len(h) - 1
        while i >= 0:
            if h[i] == '>':
                depth += 1
            elif h[i] == '<':
                depth -= 1
            elif depth == 0 and (h[i] == ':' or h[i] == ' '):
                break
            i -= 1
        return h[i + 1:].split('<')[0].split('[')[0]

    def loaditer(self, st, p):
        if isinstance(p, tuple) and p[0] == 'ptr':
            v = self.mem_load(st, p, 'p')
            if isinstance(v, int) or is_num_t(v):
                return v
            if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'E':
                return v[1][2]
        raise AnalysisError('an iterator is not tracked')

    ITER = ('operator*', 'operator->', 'operator++', 'operator--', 'operator==', 'operator!=', 'operator+', 'operator-', '__normal_iterator', 'base')

    def vector_call(self, it, st, d, args, ins):
        kind = self.kind(d)
        m = self.member(d)
        g = st.g
        if '__gnu_cxx::' in d and m in self.ITER:
            if m in ('operator*', 'operator->'):
                return [(st, ('ptr', ('E', kind, self.loaditer(st, args[0])), 0))]
            if m in ('operator++', 'operator--'):
                v = self.loaditer(st, args[0])
                self.mem_store(st, args[0], add(v, 1 if m == 'operator++' else -1), 'p')
                return [(st, args[0] if len(args) == 1 else v)]
            if m in ('operator==', 'operator!='):
                a, b = self.loaditer(st, args[0]), self.loaditer(st, args[1])
                y = 1 if m == 'operator==' else 0
                return [(s, y if e else 1 - y) for s, e in it.eqtest(st, a, b)]
            if m == '__normal_iterator':
                if len(args) == 2 and isinstance(args[1], tuple) and args[1][0] == 'ptr':
                    self.mem_store(st, args[0], self.loaditer(st, args[1]), 'p')
                    return [(st, 0)]
            if m in ('operator+', 'operator-'):
                a = self.loaditer(st, args[0])
                b = args[1]
                if isinstance(b, tuple) and b[0] == 'ptr':
                    b = self.loaditer(st, b)
                return [(st, add(a, b, 1 if m == 'operator+' else -1))]
            if m == 'base':
                return [(st, args[0])]
        elif m in ('vector', '~vector', 'reserve', 'shrink_to_fit'):
            if m == 'vector' and len(args) > 1:
                raise AnalysisError('a vector of table names or tables is copied')
            return [(st, 0)]
        elif m in ('begin', 'cbegin'):
            self.length(st, kind)
            return [(st, 0)]
        elif m in ('end', 'cend', 'size'):
            return [(st, self.length(st, kind))]
        elif m == 'empty':
            return [(s, int(e)) for s, e in it.eqtest(st, self.length(st, kind), 0)]
        elif m in ('operator[]', 'at'):
            return [(st, ('ptr', ('E', kind, args[1]), 0))]
        elif m in ('front', 'back'):
            n = self.length(st, kind)
            return [(st, ('ptr', ('E', kind, 0 if m == 'front' else sub(n, 1)), 0))]
        elif m in ('push_back', 'emplace_back'):
            return self.push(it, st, kind, args[1], d, ins)
        elif m in ('sort', 'stable_sort'):
            return self.sort(it, st, kind, d, args, ins)
        raise AnalysisError('use of a vector is not modelled: %s: %s' % (m, d[:1500]))

    def push(self, it, st, kind, a, d, ins):
        g = st.g
        if kind == 'names':
            if g.get('fixed'):
                raise AnalysisError('a table name is added after the names have been looked at')
            c = self.getstr(st, a)
            e = self.entry_(st)
            if c[:2] != ('op', 'ent'):
                self.violate(it, st, ['C11'], 'name-other', 'something else than the path of a file found is taken for a table file', ins)
            if e[1] != 1 or e[0] == 0:
                self.violate(it, st, ['C11', 'C09'], 'not-a-table', 'a file that is not a table file is taken for one', ins)
            if e[2]:
                self.violate(it, st, ['C11', 'C04'], 'name-twice', 'a table file is taken twice', ins)
            g['ent'] = (e[0], e[1], 1)
            g['names'] = add(g.get('names', 0), 1)
            self.count('table files found')
            return [(st, 0)]
        v = self.load(it, st, a, 'p', 0, ins)
        n = g.get('tables', 0)
        c = self.cur(st)
        if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'K':
            self.violate(it, st, ['C11', 'C04'], 'kept-twice', 'a table is kept twice', ins)
            return [(st, 0)]
        if c is not None and isinstance(v, tuple) and v == ('ptr', c[0], 0):
            g.pop('cur')
        elif isinstance(v, tuple) and v[0] == 'ptr' and v[1] == g.get('made'):
            pass
        else:
            self.violate(it, st, ['C11'], 'kept-other', 'something else than the table just examined is kept', ins)
            return [(st, 0)]
        T, K = v[1], ('K', n)
        lk = self.lk(st)
        if g.pop('early', 0) and sub(lk, n) == 0:
            lk = add(n, 1)

        def R(t):
            if isinstance(t, tuple):
                if t and t[0] == 'ptr' and t[1] == T:
                    return ('ptr', K, t[2])
                return tuple(R(x) for x in t)
            return t
        for fr in st.frames:
            fr.loc = {k: R(x) for k, x in fr.loc.items()}
        st.mem = {k: R(x) for k, x in st.mem.items()}
        st.tabs.pop(T[1], None)
        if g.get('made') == T:
            g['made'] = K
        g['tables'] = add(n, 1)
        self.setlk(st, lk)
        self.count('tables kept')
        return [(st, 0)]

    def sort(self, it, st, kind, d, args, ins):
        if kind != 'names':
            raise AnalysisError('tables are sorted')
        n = self.length(st, kind)
        if args[0] != 0 or sub(args[1], n) != 0:
            self.violate(it, st, ['C11'], 'sort-range', 'not all table names are sorted', ins)
        cmps = []
        if len(args) > 2 and isinstance(args[2], tuple) and args[2][0] == 'fn':
            cmps = [args[2][1]]
        elif len(args) > 2 or 'lambda' in d:
            cmps = [n_ for n_, f in self.p.fn.items() if 'blocks' in f and self.member(f['dem']) == 'operator()' and
                    'basic_string' in f['dem'].split('operator()(')[-1] and self.inline(f)]
        if not cmps and (d.count('>::iterator') or not any(x in d for x in ('lambda', 'std::less', 'std::greater', '(*)'))) and len(args) == 2 and 'lambda' not in d:
            self.violate(it, st, ['C11'], 'sort-order', 'the table names are not sorted by their numbers ("10" comes after "9")', ins)
        elif not cmps:
            raise AnalysisError('the order in which table names are sorted was not found')
        for c in cmps:
            self.comparator(it, st, c, ins)
        st.g['sorted'] = 1
        return [(st, 0)]

    def comparator(self, it, st, c, ins):
        f = self.p.fn[c]
        m = type(self)(self.c, self.spec)
        m.entry = self.entry
        i2 = Interp(self.p, m)
        s = State()
        s.next = 100
        A, B = ('s', 'A'), ('s', 'B')
        a, b = ('ptr', ('E', 'names', A), 0), ('ptr', ('E', 'names', B), 0)
        args = [a, b] if len(f['args']) == 2 else [('ptr', ('al', -1, 'this', 0), 0), a, b]
        na, nb = ('op', 'num', ('nm', A)), ('op', 'num', ('nm', B))
        s.record(na)
        s.record(nb)
        for e, kind, v in i2.run(c, args, s):
            if kind != 'ret':
                continue
            self.count('comparisons of names')
            ok = v == 1 and e.entails(sub(sub(nb, na), 1)) or v == 0 and e.entails(sub(na, nb))
            if not ok:
                self.violate(it, st, ['C11'], 'sort-order', 'the table names are not sorted by their numbers in ascending order', ins)
                return
        self.count('comparators')
        it.fns.add(c)

    # ---- library calls ----------------------------------------------------------------------
    DIRIT = ('std::filesystem::__cxx11::directory_iterator', 'std::filesystem::directory_iterator')

    def call(self, it, st, name, f, cal, args, ins):
        d = f['dem'] if f else ''
        fi = f.get('file') if f else ''
        fi = self.p.files[fi] if isinstance(fi, int) else (fi or '')
        if d and (fi.startswith('/usr') or 'blocks' not in f):
            r = self.library(it, st, d, args, ins)
            if r is not None:
                return r
        return super().call(it, st, name, f, cal, args, ins)

    def library(self, it, st, d, args, ins):
        head = d.split('(')[0]
        if 'filesystem' in d:
            m = self.member(d)
            if 'directory_iterator const&, ' in d and m in ('operator==', 'operator!='):
                y = 1 if m == 'operator==' else 0
                s2 = st.copy()
                self.leave_entry(it, st, ins)
                st.g['dirdone'] = 1
                return [(st, y), (s2, 1 - y)]
            if 'directory_iterator::operator++' in d:
                self.leave_entry(it, st, ins)
                self.count('directory entries')
                return [(st, args[0])]
            if 'directory_iterator::operator*' in d or 'directory_iterator::operator->' in d:
                return [(st, ('ptr', ('D', 0), 0))]
            if m == 'is_regular_file':
                return self.split_entry(st, 0)
            if m in ('is_directory', 'is_other', 'is_symlink', 'is_socket', 'is_fifo'):
                r = []
                for s, v in self.split_entry(st, 0):
                    if v:
                        r.append((s, 0))
                    else:
                        s2 = s.copy()
                        r += [(s, 1), (s2, 0)]
                return r
            if head.endswith('directory_entry::path') or 'directory_entry::operator std' in d:
                return [(st, ('ptr', ('D', 1), 0))]
            if '::path::' in head + '::' or 'path>(' in d or 'filesystem::__cxx11::operator==' in d or m in ('operator==', 'operator!=') and 'path const&' in d:
                if m in ('string', 'c_str', 'native', 'generic_string', 'u8string'):
                    c = self.path(st, args[-1])
                    if len(args) == 2:
                        self.setstr(st, args[0], c)
                        return [(st, 0)]
                    if m == 'c_str':
                        return [(st, ('op', 'cs', c))]
                    raise AnalysisError('a path is used as a string by reference')
                if m == 'extension':
                    self.setstr(st, args[0], ('op', 'ext', 0) if self.path(st, args[1])[:2] == ('op', 'ent') else ('op', 'unk', 0))
                    return [(st, 0)]
                if m == 'filename':
                    self.setstr(st, args[0], ('op', 'fname', 0) if self.path(st, args[1])[:2] == ('op', 'ent') else ('op', 'unk', 0))
                    return [(st, 0)]
                if m in ('operator==', 'operator!='):
                    return self.textcmp(st, self.path(st, args[0]), self.path(st, args[1]), 1 if m == 'operator==' else 0)
                if m == 'compare':
                    return self.textcmp(st, self.path(st, args[0]), self.path(st, args[1]), 0)
                if m == 'path' and len(args) >= 2:
                    a = args[1]
                    if 'char [' in d or 'char const (&)' in d:
                        c = self.content(st, a)
                    elif 'basic_string' in d:
                        c = self.getstr(st, a)
                    elif 'path const&' in d or 'path&&' in d:
                        c = self.path(st, a)
                    else:
                        c = ('op', 'unk', 0)
                    self.setstr(st, args[0], c)
                    return [(st, 0)]
            if head.endswith('filesystem::remove') or head.endswith('filesystem::remove_all'):
                self.removed(it, st, self.path(st, args[0]), ins)
                s2 = st.copy()
                return [(st, 1), (s2, 0)]
            if head.endswith('filesystem::rename') or head.endswith('filesystem::resize_file'):
                self.violate(it, st, ['C11'], 'renames', 'an existing file is renamed or resized', ins)
            for a in args:
                if isinstance(a, tuple) and a[0] == 'ptr' and a[1][0] not in ('D',):
                    self.escape(st, a)
            return [(st, st.fresh() if ins.get('t') != 'v' else 0)]
        if VEC in d:
            return self.vector_call(it, st, d, args, ins)
        if 'basic_string' in d:
            m = self.member(d)
            if m in ('operator==', 'operator!=', 'compare', 'ends_with', 'rfind', 'find'):
                par = self.params(d)
                a = [self.content(st, x) if isinstance(x, tuple) and 'char const*' in t and 'basic_string' not in t else self.getstr(st, x) if isinstance(x, tuple) else x
                     for x, t in zip(args, ([''] if len(par) < len(args) else []) + par)]
                cs = [x for x in a if isinstance(x, tuple)]
                if m in ('operator==', 'operator!=', 'ends_with') and len(cs) == 2:
                    return self.textcmp(st, cs[0], cs[1], 0 if m == 'operator!=' else 1)
                if m == 'compare' and len(cs) == 2:
                    return self.textcmp(st, cs[0], cs[1], 0)
                if m in ('rfind', 'find') and any(c[:2] == ('op', 'lit') and c[2] in ('.dat', 'dat') for c in cs):
                    raise AnalysisError('the extension of a file is found by %s' % m)
        return None

    def path(self, st, p):
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1] == ('D', 1):
            return ('op', 'ent', 0)
        return self.getstr(st, p)

    def textcmp(self, st, a, b, true):
        k = {a[:2], b[:2]}
        lit = a if a[:2] == ('op', 'lit') else b
        if lit[:2] == ('op', 'lit') and (('op', 'ext') in k or ('op', 'ent') in k or ('op', 'fname') in k):
            if lit[2] == '.dat':
                return self.split_entry(st, 1, true)
            if ('op', 'ext') in k:
                # another extension: not .dat if it matches
                r = []
                for s, v in self.split_entry(st, 1):
                    if v:
                        r.append((s, 1 - true))
                    else:
                        s2 = s.copy()
                        r += [(s, true), (s2, 1 - true)]
                return r
        s2 = st.copy()
        return [(st, 1), (s2, 0)]

    def opaque(self, it, st, name, f, cal, args, ins):
        r = super().opaque(it, st, name, f, cal, args, ins)
        d = f['dem'] if f else ''
        if 'std::' in d and not (name or '').startswith('__cxa'):
            r = [x for x in r if len(x) < 3 or x[2] != 'throw']
        return r


def define(mc):
    from mapcheck import H

    def con(rec):
        def setup(m, st):
            D, Z = mc.sym(st, 'DIR', ne=(0,), low=None), mc.sym(st, 'SIZE', low=None)
            st.record(Z)
            st.g['mode'] = 'ctor'
            st.g['ctor'] = 1
            return [D, Z, rec]

        def fin(m, it, st, kind, v):
            if kind != 'ret':
                return
            fn = 'vf_construct'
            g = st.g
            bad = lambda props, rule, msg: mc.bad(m, props, rule, msg, fn)
            old = m.violate
            m.violate = lambda it_, st_, props, rule, msg, ins=None: bad(props, rule, msg)
            try:
                root = st.mem.get((v[1], m.off['map_table'])) if isinstance(v, tuple) and v[0] == 'ptr' else None
                made = g.get('made')
                new = isinstance(root, tuple) and root[0] == 'ptr' and root[1] == made and made is not None
                if not rec:
                    if not new:
                        bad(['C11', 'C09'], 'root', 'the map does not start with the table created for it')
                    return
                m.finish_table(it, st, None)
                nt = g.get('tables', 0)
                if not g.get('dirdone'):
                    bad(['C11', 'C04', 'C07'], 'not-searched', 'the directory is not searched for tables')
                n = g.get('names', 0)
                if not st.entails(sub(g.get('next', 0), n)):
                    bad(['C11', 'C04', 'C07'], 'not-all-opened', 'not all table files found are opened')
                m.need_counter(it, st, None)
                if not st.entails(sub(1, nt)) and not st.entails(sub(m.lk(st), nt)):
                    bad(['C11', 'C04', 'C07'], 'not-linked', 'the recovered tables are not all linked')
                ok = new and nt == 0 or isinstance(root, tuple) and root[0] == 'ptr' and root[1] == ('K', 0) and st.entails(sub(nt, 1))
                if not ok:
                    bad(['C11', 'C04', 'C07'], 'root', 'the recovered map does not start with its oldest table')
            finally:
                m.violate = old
        return setup, fin
    for lab, rec in (('recover', 1), ('construct', 0)):
        a, b = con(rec)
        mc.run(lab, 'vf_construct', Spec(model=CtorModel), a, b)
