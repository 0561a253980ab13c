"""Creation, opening and release of tables; the write-back primitives; constants and predicates."""
from terms import *
from interp import *
from pmap import *

FAIL = (1 << 32) - 1          # -1, as an int
MFAIL = M                      # -1, as a pointer or an off_t


class PersistModel(BaseModel):
    """Which bytes have been written back. Addresses are numbers; an address range does not wrap around."""

    def __init__(self, consts, spec):
        super().__init__(consts)
        self.spec = spec
        self.LINE = 64          # of the processor; the source's own constant is under test

    def line(self, y):
        return sub(y, mod(y, self.LINE))

    def flushed(self, st, y):
        self.count('write-backs')
        if not is_num(y):
            return
        l = self.line(y)
        e = add(l, self.LINE)
        g = st.g
        st.g['unfenced'] = 1
        if g.get('hi') is None:
            g['lo'], g['hi'] = l, e
            return
        if st.entails(sub(g['hi'], l)) and st.entails(sub(e, g['lo'])):
            if st.entails(sub(e, g['hi'])):
                g['hi'] = e
            if st.entails(sub(g['lo'], l)):
                g['lo'] = l

    def call(self, it, st, name, f, cal, args, ins):
        t = ''
        if name and name.startswith('llvm.'):
            t = name
        elif isinstance(cal, tuple) and cal[0] == 'asm':
            t = cal[1]
        if 'clflush' in t or 'clwb' in t or 'xsaveopt' in t:
            for a in args[:1]:
                self.flushed(st, a)
            return [(st, 0)]
        if 'fence' in t:
            self.count('fences')
            st.g.pop('unfenced', None)
            return [(st, 0)]
        if isinstance(cal, tuple) and cal[0] == 'asm':
            return [(st, 0)]
        return super().call(it, st, name, f, cal, args, ins)

    def fence(self, it, st, ins):
        st.g.pop('unfenced', None)


class Strings:
    """std::string objects by their contents."""

    def content(self, st, p):
        if isinstance(p, tuple) and p[0] == 'op' and p[1] == 'cs':
            return p[2]
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] == 'g':
            i = self.p.gl.get(p[1][1], {}).get('init')
            if i and i[0] == 'str' and p[2] == 0:
                return ('op', 'lit', i[1].rstrip('\0') if isinstance(i[1], str) else ''.join(map(chr, i[1])).rstrip('\0'))
            return ('op', 'lit', '') if i and i[0] == 'zero' else ('op', 'txt', p)
        return ('op', 'txt', p)

    def skey(self, p):
        if isinstance(p, tuple) and p[0] == 'ptr' and isinstance(p[2], int):
            return (p[1], 'str%d' % p[2])
        return None

    def getstr(self, st, p):
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] == 'E':
            return self.element_string(st, p)
        k = self.skey(p)
        return st.mem.get(k, ('op', 'unk', p)) if k else ('op', 'unk', p)

    def setstr(self, st, p, c):
        k = self.skey(p)
        if k:
            st.mem[k] = c

    def element_string(self, st, p):
        return ('op', 'unk', p)

    def cat(self, a, b):
        def parts(x):
            return list(x[2:]) if x[1] == 'cat' else [x]
        r = []
        for x in parts(a) + parts(b):
            if x[1:] == ('lit', ''):
                continue
            if r and r[-1][1] == 'lit' and x[1] == 'lit':
                r[-1] = ('op', 'lit', r[-1][2] + x[2])
            else:
                r.append(x)
        if not r:
            return ('op', 'lit', '')
        return r[0] if len(r) == 1 else ('op', 'cat') + tuple(r)

    def string_call(self, it, st, name, f, args, ins):
        d = f['dem'] if f else (name or '')
        if 'basic_string' not in d and 'to_string' not in d and 'std::allocator<char>' not in d:
            return None
        head = d.split('(')[0]
        if head.startswith('std::allocator<char>::'):
            return [(st, 0)]
        B = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'

        def arg(p, t):
            return self.content(st, p) if 'char const*' in t and 'basic_string' not in t else self.getstr(st, p)
        par = self.params(d)
        if head.endswith('to_string') or 'to_string[' in head:
            self.setstr(st, args[0], ('op', 'dec', args[1]))
            return [(st, 0)]
        if ' std::operator+<' in d or d.startswith('std::operator+<'):
            if len(args) == 3 and len(par) == 2:
                self.setstr(st, args[0], self.cat(arg(args[1], par[0]), arg(args[2], par[1])))
                return [(st, 0)]
        if not head.startswith(B + '::') and ('>::' not in head or B not in head):
            return None
        m = d[d.find(B) + len(B):]
        if not m.startswith('::'):
            return None
        m = m[2:].split('(')[0].split('<')[0]
        if m == 'basic_string':
            if not par or par[0] == '':
                c = ('op', 'lit', '')
            else:
                c = arg(args[1], par[0])
            self.setstr(st, args[0], c)
            return [(st, 0)]
        if m in ('operator=', 'assign') and len(args) == 2:
            self.setstr(st, args[0], arg(args[1], par[0]))
            return [(st, args[0])]
        if m in ('operator+=', 'append') and len(args) == 2 and ('char' in par[0] or 'basic_string' in par[0]):
            self.setstr(st, args[0], self.cat(self.getstr(st, args[0]), arg(args[1], par[0])))
            return [(st, args[0])]
        if m in ('c_str', 'data'):
            return [(st, ('op', 'cs', self.getstr(st, args[0])))]
        if m == '~basic_string':
            k = self.skey(args[0])
            if k:
                st.mem.pop(k, None)
            return [(st, 0)]
        return None

    @staticmethod
    def params(d):
        """Top-level parameter types of a demangled signature."""
        e = d.rfind(')')
        depth, i = 0, e
        while i >= 0:
            if d[i] in ')>]}':
                depth += 1
            elif d[i] in '(<[{':
                depth -= 1
                if depth == 0:
                    break
            i -= 1
        out, depth, cur = [], 0, ''
        for ch in d[i + 1:e]:
            if ch in '(<[{':
                depth += 1
            elif ch in ')>]}':
                depth -= 1
            if ch == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        out.append(cur.strip())
        return out


# counts of slots seen so far in the current pass over a table: next index, retired, bindings
PASS0 = (0, 0, 0)


class FileModel(Strings, MapModel):
    NR = {'open': 'opening', 'open64': 'opening', 'fstat': 'sizing', 'fstat64': 'sizing', 'lseek': 'sizing', 'lseek64': 'sizing',
          'ftruncate': 'extending', 'ftruncate64': 'extending', 'posix_fallocate': 'extending', 'mmap': 'mapping', 'mmap64': 'mapping',
          'rename': 'publishing'}

    # ---- slots of a table being set up ------------------------------------------------
    def slot_of(self, it, st, p, ins, check=True):
        S, f = super().slot_of(it, st, p, ins, check=False)
        if S is not None and check:
            n = p[1][1]
            ln = st.g.get('maplen')
            if self.tab(st, n)[2] in ('rc', 'nw') and ln is not None:
                self.count('slot accesses')
                end = add(mulc(S[2], self.PAIR), self.PAIR)
                if not st.entails(sub(ln, end)):
                    self.violate(it, st, ['C17', 'C09', 'C11'], 'slot-bounds', 'slot index %s is not shown to lie in the mapped memory' % self.sh(S[2]), ins)
            else:
                return super().slot_of(it, st, p, ins)
        return S, f

    def key_options(self, it, st, S):
        kind = self.tab(st, S[1][1])[2]
        if kind == 'nw':
            return [(st, st.fresh(low=0))]
        if kind != 'rc':
            return super().key_options(it, st, S)
        k, v = self.fact(st, S)
        if k is not None:
            return [(st, k)]
        w = st.fresh(low=0)
        self.setfact(st, S, key=w)
        self.saw_key(st, S, w)
        return [(st, w)]

    def val_options(self, it, st, S):
        kind = self.tab(st, S[1][1])[2]
        if kind == 'nw':
            return [(st, st.fresh(low=0))]
        if kind != 'rc':
            return super().val_options(it, st, S)
        k, v = self.fact(st, S)
        if v[0] == 'is':
            return [(st, v[1])]
        r = []
        kinds = ('VI', 'VT', 'TP', 'live', 'frozen')
        if sub(st.g.get('pass', PASS0)[0], S[2]) == 1 and 'last' in st.g:
            kinds = (st.g['last'],)
        for what in kinds:
            s = st.copy()
            w = {'VI': self.VI, 'VT': self.VT, 'TP': self.TP}.get(what)
            if w is None:
                w = s.fresh(low=0, ne=self.live_ne)
                if what == 'frozen':
                    w = add(w, self.MG)
            self.setfact(s, S, val=('is', w))
            self.saw_value(s, S, what)
            r.append((s, w))
        return r

    def saw_key(self, st, S, w):
        pass

    def normalise(self, st):
        # what earlier slots of the table held has been counted
        hi = st.g.get('pass', PASS0)[0]
        for k in list(st.slots):
            if k[0] == 'S' and k[1][1] in st.tabs and st.tabs[k[1][1]][2] in ('rc', 'nw') and sub(hi, k[2]) != 0:
                del st.slots[k]
        super().normalise(st)

    def saw_value(self, st, S, what):
        g = st.g
        hi, tp, live = g.get('pass', PASS0)
        if S[2] == 0 and hi != 0 and sub(hi, S[2]) != 0:
            g['passes'] = g.get('passes', ()) + (g['pass'],)
            hi, tp, live = PASS0
        if sub(hi, S[2]) == 0:
            g['last'] = what
            g['pass'] = (add(hi, 1), add(tp, 1) if what == 'TP' else tp, add(live, 1) if what in ('live', 'frozen') else live)

    def note(self, it, st, S, fld, t, ins):
        pass

    def match(self, it, st, S, fld, eb):
        if self.tab(st, S[1][1])[2] in ('rc', 'nw'):
            k, v = self.fact(st, S)
            w = k if fld == 'k' else v[1] if v[0] == 'is' else None
            if w is None:
                return [st]
            if st.known_ne(w, eb):
                return []
            return [st] if st.assume_eq(w, eb) else []
        return super().match(it, st, S, fld, eb)

    def key_transition(self, it, st, S, eb, nb, ins):
        if self.tab(st, S[1][1])[2] == 'rc':
            self.violate(it, st, ['C11'], 'recovery-changes', 'opening an existing table changes a key from %s to %s' % (self.sh(eb), self.sh(nb)), ins)
            return
        super().key_transition(it, st, S, eb, nb, ins)

    def value_transition(self, it, st, S, eb, nb, ins):
        if self.tab(st, S[1][1])[2] == 'rc':
            self.violate(it, st, ['C11'], 'recovery-changes', 'opening an existing table changes a value from %s to %s' % (self.sh(eb), self.sh(nb)), ins)
            return
        super().value_transition(it, st, S, eb, nb, ins)

    def cover(self, st, name, i):
        """Extend the covered interval [lo, hi) of initialised words by index i."""
        g = st.g
        lo, hi = g.get(name, (None, None))
        if hi is None:
            g[name] = (i, add(i, 1))
        elif sub(hi, i) == 0:
            g[name] = (lo, add(i, 1))
        elif sub(lo, add(i, 1)) == 0:
            g[name] = (i, hi)

    def store(self, it, st, p, v, t, atomic, ins):
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] == 'P':
            kind = self.tab(st, p[1][1])[2]
            if kind in ('nw', 'rc'):
                S, f = self.slot_of(it, st, p, ins)
                if S is None:
                    return None
                if kind == 'rc':
                    self.violate(it, st, ['C11'], 'recovery-changes', 'opening an existing table overwrites a slot', ins)
                    return None
                w = self.split_word(st, v) if is_num(v) or v[0] == 'tag' else None
                want = self.KI if f == 'k' else self.VI
                self.count('slot initialisations')
                if w is None or w[0] != want:
                    self.violate(it, st, ['C09'], 'init-value', 'a %s of a new table is set to %s instead of the empty state' %
                                 ('key' if f == 'k' else 'value', self.sh(v)), ins)
                self.cover(st, 'init' + f, S[2])
                st.g.pop('durable', None)
                return None
        return super().store(it, st, p, v, t, atomic, ins)

    def rmw(self, it, st, p, op, v, ins):
        if isinstance(p, tuple) and p[0] == 'ptr':
            if p[1][0] == 'N' and op in ('add', 'sub', 'xchg'):
                old = self.mem_load(st, p, 'i64')
                if is_num_t(old) and is_num_t(v):
                    st.mem[(p[1], p[2])] = v if op == 'xchg' else add(old, v, 1 if op == 'add' else -1)
                else:
                    st.mem[(p[1], p[2])] = st.fresh()
                return old
            if p[1][0] == 'P' and self.tab(st, p[1][1])[2] == 'rc':
                self.violate(it, st, ['C11'], 'recovery-changes', 'opening an existing table changes a slot', ins)
                return st.fresh()
        return super().rmw(it, st, p, op, v, ins)

    def cmpxchg(self, it, st, p, e, n, weak, ins):
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] == 'N':
            cur = self.mem_load(st, p, 'i64')
            if cur == e:
                st.mem[(p[1], p[2])] = n
                return [(st, ('agg', (e, 1)))]
        return super().cmpxchg(it, st, p, e, n, weak, ins)

    # ---- calls -----------------------------------------------------------------------
    def fails(self, st, what):
        st.g['failed'] = tuple(sorted(set(st.g.get('failed', ())) | {what}))
        return st

    def fd_use(self, it, st, fd, what, ins):
        self.count('file calls')
        if fd not in st.g.get('fds', ()):
            self.violate(it, st, ['C16'], 'fd', '%s uses %s, which is not an open file' % (what, 'the result of a failed call' if fd == FAIL else 'something'), ins)
            return False
        return True

    def result(self, st, s2):
        return [(st, 0), (s2, FAIL)]

    def sys_open(self, it, st, args, ins):
        g = st.g
        self.count('file calls')
        name = self.content(st, args[0])
        flags = args[1]
        s2 = self.fails(st.copy(), 'opening')
        fd = st.fresh(ne=frozenset((FAIL,)))
        st.record(fd)
        g['fds'] = g.get('fds', ()) + (fd,)
        if g.get('mode') == 'new':
            final = self.final(st)
            if name == final:
                self.violate(it, st, ['C09'], 'visible-early', 'the file of a new table gets its final name before the table is complete', ins)
                g['published'] = 1
            elif self.looks_like_table(name):
                self.violate(it, st, ['C09'], 'temporary-name', 'the name of an incomplete table file (%s) looks like that of a complete one to recovery' % self.sh(name), ins)
            g['created'] = name
            if isinstance(flags, int) and not flags & 0o100:
                self.violate(it, st, ['C09', 'C16'], 'open-flags', 'the file of a new table is opened without creating it', ins)
        else:
            if name != self.final(st):
                self.violate(it, st, ['C11'], 'other-file', 'another file than the one asked for is opened', ins)
            if isinstance(flags, int) and flags & 0o1000:
                self.violate(it, st, ['C11'], 'truncates', 'an existing table file is truncated when it is opened', ins)
        if isinstance(flags, int) and flags & 3 != 2:
            self.violate(it, st, ['C16', 'C09' if g.get('mode') == 'new' else 'C11'], 'open-flags', 'a table file is not opened for reading and writing', ins)
        return [(st, fd), (s2, FAIL)]

    def looks_like_table(self, name):
        t = name[2:] if name[1] == 'cat' else (name,)
        return not (t[-1][1] == 'lit' and not t[-1][2].endswith('.dat') and t[-1][2] != '')

    def final(self, st):
        return st.g.get('final') or (('op', 'ofn', st.g['uniq']) if 'uniq' in st.g else None)

    def sys_fstat(self, it, st, args, ins):
        self.fd_use(it, st, args[0], 'fstat', ins)
        s2 = self.fails(st.copy(), 'sizing')
        self.escape(st, args[1])
        self.escape(s2, args[1])
        b = args[1]
        if isinstance(b, tuple) and b[0] == 'ptr' and st.g.get('mode') == 'old':
            st.mem[(b[1], add(b[2], 48))] = ('s', 'FSIZE')
        return self.result(st, s2)

    def sys_lseek(self, it, st, args, ins):
        self.fd_use(it, st, args[0], 'lseek', ins)
        s2 = self.fails(st.copy(), 'sizing')
        return [(st, ('s', 'FSIZE') if args[2] == 2 and args[1] == 0 and st.g.get('mode') == 'old' else st.fresh()), (s2, MFAIL)]

    def sys_ftruncate(self, it, st, args, ins):
        self.fd_use(it, st, args[0], 'ftruncate', ins)
        if st.g.get('mode') == 'old':
            self.violate(it, st, ['C11'], 'resizes', 'an existing table file is resized', ins)
        s2 = self.fails(st.copy(), 'extending')
        st.g['flen'] = args[1]
        return self.result(st, s2)

    def sys_posix_fallocate(self, it, st, args, ins):
        self.fd_use(it, st, args[0], 'posix_fallocate', ins)
        s2 = self.fails(st.copy(), 'extending')
        e = s2.fresh(ne=frozenset((0,)))
        if args[1] == 0:
            st.g['flen'] = args[2]
        return [(st, 0), (s2, e)]

    def sys_mmap(self, it, st, args, ins):
        g = st.g
        if g.get('failed'):
            self.violate(it, st, ['C16'], 'goes-on', 'goes on after %s a table file has failed' % ', '.join(g['failed']), ins)
        self.fd_use(it, st, args[4], 'mmap', ins)
        ln = args[1]
        if g.get('mode') == 'new':
            fl = g.get('flen')
            if fl is None or not is_num_t(ln) or not st.entails(sub(fl, ln)):
                self.violate(it, st, ['C16', 'C09'], 'map-beyond-file', 'the mapping (%s bytes) is not shown to lie within the file (%s bytes)' %
                             (self.sh(ln), self.sh(fl)), ins)
        elif not is_num_t(ln) or not st.entails(sub(('s', 'FSIZE'), ln)):
            self.violate(it, st, ['C11', 'C16'], 'map-beyond-file', 'the mapping (%s bytes) is not shown to lie within the file' % self.sh(ln), ins)
        if isinstance(args[2], int) and args[2] & 3 != 3:
            self.violate(it, st, ['C16', 'C07'], 'map-protection', 'a table is not mapped for reading and writing', ins)
        if isinstance(args[3], int) and (not args[3] & 1 or args[3] & 0x20):
            self.violate(it, st, ['C07', 'C09', 'C11'], 'map-private', 'a table is not mapped shared, so its changes never reach the file', ins)
        if args[5] != 0:
            self.violate(it, st, ['C09', 'C11'], 'map-offset', 'a table file is not mapped from its start', ins)
        s2 = self.fails(st.copy(), 'mapping')
        n = st.fresh_table()
        st.tabs[n] = ('tab', None, 'nw' if g.get('mode') == 'new' else 'rc', 0, 0, (), 0)
        g['maplen'] = ln
        g['map'] = ('P', n)
        return [(st, ('ptr', ('P', n), 0)), (s2, MFAIL)]

    def sys_munmap(self, it, st, args, ins):
        g = st.g
        self.count('unmappings')
        if g.get('mode') == 'release':
            T = g['table']
            if args[0] != ('ptr', ('P', T[1]), 0):
                self.violate(it, st, ['C16', 'C10'], 'unmap-address', 'what is unmapped is not the memory of the table', ins)
            elif not self.same(args[1], mulc(('len', T[1]), self.PAIR)):
                self.violate(it, st, ['C16', 'C10'], 'unmap-length', 'unmaps %s bytes of a table of %s' % (self.sh(args[1]), self.sh(mulc(('len', T[1]), self.PAIR))), ins)
            elif g.get('unmapped'):
                self.violate(it, st, ['C16', 'C10'], 'unmap-twice', 'a table is unmapped twice', ins)
            s2 = st.copy()
            st.g['unmapped'] = 'yes'
            s2.g['unmapped'] = 'failed'
            return self.result(st, s2)
        if 'map' not in g or args[0] != ('ptr', g['map'], 0):
            self.violate(it, st, ['C16'], 'unmap-address', 'what is unmapped is not the memory that was mapped', ins)
        elif not self.same(args[1], g['maplen']):
            self.violate(it, st, ['C16'], 'unmap-length', 'unmaps %s of %s mapped bytes' % (self.sh(args[1]), self.sh(g['maplen'])), ins)
        g.pop('map', None)
        return [(st, 0)]

    def sys_close(self, it, st, args, ins):
        self.count('file calls')
        fds = st.g.get('fds', ())
        if args[0] not in fds:
            self.violate(it, st, ['C16'], 'close', 'closes something that is not an open file', ins)
        st.g['fds'] = tuple(x for x in fds if x != args[0])
        s2 = st.copy()
        return self.result(st, s2)

    def sys_rename(self, it, st, args, ins):
        g = st.g
        a, b = self.content(st, args[0]), self.content(st, args[1])
        self.count('publications')
        if g.get('failed'):
            self.violate(it, st, ['C16'], 'goes-on', 'goes on after %s a table file has failed' % ', '.join(g['failed']), ins)
        if g.get('mode') == 'new':
            if a != g.get('created'):
                self.violate(it, st, ['C09'], 'publish-other', 'the file that is given the name of the table is not the one just created', ins)
            if b != self.final(st):
                self.violate(it, st, ['C09', 'C11'], 'publish-name', 'the new file gets another name (%s) than the table it was created for' % self.sh(b), ins)
            self.complete(it, st, 'the file of a new table gets its final name', ins)
        else:
            self.violate(it, st, ['C11'], 'renames', 'an existing table file is renamed', ins)
        s2 = self.fails(st.copy(), 'publishing')
        st.g['published'] = 1
        return self.result(st, s2)

    def complete(self, it, st, what, ins):
        g = st.g
        ln = g.get('maplen')
        if ln is None or 'map' not in g:
            self.violate(it, st, ['C09'], 'incomplete', '%s before it is mapped' % what, ins)
            return
        bad = None
        for nm, w in (('initk', 'keys'), ('initv', 'values')):
            lo, hi = g.get(nm, (None, None))
            if lo is None or lo != 0 or not st.entails(sub(mulc(hi, self.PAIR), ln)):
                bad = 'although its %s are not shown to be initialised up to the last' % w
        if bad is None:
            d = g.get('durable')
            if d is None or not st.entails(sub(d, ln)):
                bad = 'although the whole table has not been written back and fenced since it was initialised'
        if bad:
            self.violate(it, st, ['C09'], 'incomplete', '%s %s' % (what, bad), ins)

    def cut_PERSIST(self, it, st, f, args, ins):
        self.persisted(st, args, 'durable')
        return super().cut_PERSIST(it, st, f, args, ins)

    def cut_PERSIST_FLUSH_ONLY(self, it, st, f, args, ins):
        self.persisted(st, args, 'flushed')
        return super().cut_PERSIST_FLUSH_ONLY(it, st, f, args, ins)

    def persisted(self, st, args, k):
        p = args[0]
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1] == st.g.get('map') and p[2] == 0 and is_num_t(args[1]):
            st.g[k] = args[1]

    def do_fence(self, st):
        if 'flushed' in st.g:
            st.g['durable'] = st.g.pop('flushed')
        super().do_fence(st)

    def sys_msync(self, it, st, args, ins):
        s2 = st.copy()
        if args[2] == 4:
            self.persisted(st, args, 'durable')
        return self.result(st, s2)

    def cut_numFromName(self, it, st, f, args, ins):
        return [(st, ('op', 'num', self.content(st, args[0])))]

    def cut_getOrderedFileName(self, it, st, f, args, ins):
        self.setstr(st, args[0], ('op', 'ofn', args[-1]))
        return [(st, 0)]

    def call(self, it, st, name, f, cal, args, ins):
        if name and not (f and 'blocks' in f and self.inline(f)):
            h = getattr(self, 'sys_' + name.replace('64', ''), None)
            if h is not None:
                return h(it, st, args, ins)
            r = self.string_call(it, st, name, f, args, ins)
            if r is not None:
                return r
        return super().call(it, st, name, f, cal, args, ins)

    def opaque(self, it, st, name, f, cal, args, ins):
        # the library calls used here do not throw, apart from exhaustion of memory
        r = super().opaque(it, st, name, f, cal, args, ins)
        d = f['dem'] if f else ''
        if 'ostream' in d or 'basic_string' in d or 'std::allocator' in d or '_error' in d or name in self.NOTHROW:
            r = [x for x in r if len(x) < 3 or x[2] != 'throw'] if name not in ('__cxa_throw', '__cxa_rethrow') else r
        return r


def is_num_t(t):
    return isinstance(t, int) or isinstance(t, tuple) and is_num(t)


class PredModel(BaseModel):
    def __init__(self, consts, spec):
        super().__init__(consts)
        self.spec = spec
        self.names = consts.names()

    def sh(self, t):
        return show(t, self.names)


class SizeModel(MapModel):
    pass


def define(mc):
    """Register the entry points of this module with the map check."""
    from mapcheck import H
    c, p = mc.c, mc.p
    s = c.s
    where = mc.wrapped

    # ---- write-back primitives
    def per(fence):
        def setup(m, st):
            A, L = mc.sym(st, 'A', low=None), mc.sym(st, 'L', low=None)
            st.record(L)
            st.record(A)
            return [A, L]
        return setup

    def per_exit(fn):
        def fin(m, it, st, kind, v):
            if kind != 'ret':
                return
            g = st.g
            A, L = ('s', 'A'), ('s', 'L')
            A, L = g['args']
            if g.get('hi') is None:
                if not st.entails(mulc(L, -1)):
                    mc.bad(m, ['C08'], 'range', 'may return without having written back anything', fn)
                return
            if not st.entails(sub(A, g['lo'])):
                mc.bad(m, ['C08'], 'range-start', 'the line of the first byte is not shown to be written back', fn)
            if not st.entails(sub(g['hi'], add(A, L))):
                mc.bad(m, ['C08'], 'range-end', 'the line of the last byte is not shown to be written back', fn)
            if g.get('unfenced'):
                mc.bad(m, ['C08'], 'range-fence', 'returns without a fence after the last write-back', fn)
        return fin
    for lab, e, nm in (('PERSIST', 'vf_PERSIST', 'PERSIST'), ('PERSIST_FLUSH_ONLY', 'vf_PERSIST_FLUSH_ONLY', 'PERSIST_FLUSH_ONLY')):
        def st_(m, st, base=per(True)):
            a = base(m, st)
            st.g['args'] = tuple(a)
            return a
        mc.run(lab, e, Spec(model=PersistModel), st_, per_exit(e))

    # ---- creating a table
    def new(named):
        def setup(m, st):
            C, E_ = mc.sym(st, 'CAP', low=None), mc.sym(st, 'COUNT', low=None)
            st.record(sub(C, 8))
            st.record(E_)
            g = st.g
            g['mode'] = 'new'
            if named:
                F = mc.sym(st, 'FILE', ne=(0,), low=None)
                g['final'] = ('op', 'txt', F)
                g['fptr'] = F
                return [C, E_, F]
            return [C, E_, 0]
        return setup

    def exits(m, st, fn):
        g = st.g
        if g.get('fds'):
            mc.bad(m, ['C16'], 'fd-leak', 'may be left with a file descriptor still open', fn)

    def table_fields(m, st, v, fn, props):
        """The fields of the returned table object, or None."""
        g = st.g
        if not (isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'N' and v[2] == 0):
            mc.bad(m, props + ['C16'], 'result', 'does not return the table it made', fn)
            return None
        r = {}
        for k in ('pairs', 'len', 'size', 'newTable', 'copyIdx', 'copyDone'):
            r[k] = st.mem.get((v[1], m.off[k]), ('undef',))
        if r['pairs'] != ('ptr', g.get('map'), 0):
            mc.bad(m, props + ['C16'], 'table-memory', 'the table it returns does not refer to the mapped memory', fn)
        return r

    def failed(m, st, fn):
        if st.g.get('failed'):
            mc.bad(m, ['C16'], 'failure-ignored', 'returns as if nothing had happened although %s the table file failed' % ', '.join(st.g['failed']), fn)
            return True
        return False

    def new_exit(m, it, st, kind, v):
        fn = 'vf_mmapNew'
        exits(m, st, fn)
        if kind != 'ret' or failed(m, st, fn):
            return
        g = st.g
        r = table_fields(m, st, v, fn, ['C09'])
        if r is None:
            return
        if not g.get('published'):
            mc.bad(m, ['C09', 'C11'], 'not-published', 'returns a table whose file never gets its final name', fn)
        class _:       # report at the entry point
            pass
        old = m.violate
        m.violate = lambda it_, st_, props, rule, msg, ins=None: mc.bad(m, props, rule, msg, fn)
        m.complete(it, st, 'a new table is returned', None)
        m.violate = old
        if not is_num_t(r['len']) or not st.entails(sub(g['maplen'], mulc(r['len'], m.PAIR))):
            mc.bad(m, ['C09', 'C17'], 'capacity-memory', 'the table claims %s slots but %s bytes are mapped' % (m.sh(r['len']), m.sh(g['maplen'])), fn)
        if r['len'] != g['cap']:
            mc.bad(m, ['C10', 'C09'], 'capacity', 'the table gets capacity %s instead of %s' % (m.sh(r['len']), m.sh(g['cap'])), fn)
        if r['size'] != g['cnt']:
            mc.bad(m, ['C12'], 'initial-count', 'the table starts with element count %s instead of %s' % (m.sh(r['size']), m.sh(g['cnt'])), fn)
        if r['newTable'] != 0:
            mc.bad(m, ['C10', 'C04'], 'initial-successor', 'a new table does not start without a successor', fn)
        for k in ('copyIdx', 'copyDone'):
            if r[k] != 0:
                mc.bad(m, ['C04'], 'initial-' + k, 'a new table starts with %s = %s' % (k, m.sh(r[k])), fn)

    def nsetup(named):
        f0 = new(named)

        def f(m, st):
            a = f0(m, st)
            st.g['cap'], st.g['cnt'] = a[0], a[1]
            return a
        return f
    NC = ('mmapTable',)
    mc.run('create table (named)', 'vf_mmapNew', Spec(model=FileModel, nocut=NC), nsetup(True), new_exit)
    mc.run('create table (unnamed)', 'vf_mmapNew', Spec(model=FileModel, nocut=NC), nsetup(False), new_exit)

    # ---- opening an existing table
    def old(m, st):
        C, E_ = mc.sym(st, 'CAP', low=None), mc.sym(st, 'COUNT', low=None)
        F = mc.sym(st, 'FILE', ne=(0,), low=None)
        Z = mc.sym(st, 'FSIZE', low=None)
        st.record(Z)
        g = st.g
        g['mode'] = 'old'
        g['final'] = ('op', 'txt', F)
        g['z'] = Z
        return [C, E_, F]

    def old_exit(m, it, st, kind, v):
        fn = 'vf_mmapOld'
        exits(m, st, fn)
        if kind != 'ret' or failed(m, st, fn):
            return
        g = st.g
        for k, (stg, u) in st.pend.items():
            if k[3] == 'r' and u and stg < 2:
                mc.bad(m, ['C06'], 'return-depends', 'depends on the %s %s, which has not been written back and fenced' %
                       ('key' if k[1] == 'k' else 'value', m.sh(k[2])), fn)
        r = table_fields(m, st, v, fn, ['C11'])
        if r is None:
            return
        if not is_num_t(r['len']) or not st.entails(sub(g['maplen'], mulc(r['len'], m.PAIR))):
            mc.bad(m, ['C11', 'C17'], 'capacity-memory', 'the table claims %s slots but %s bytes are mapped' % (m.sh(r['len']), m.sh(g['maplen'])), fn)
        if not is_num_t(r['len']) or not st.entails(sub(mulc(r['len'], m.PAIR), sub(g['z'], m.PAIR - 1))):
            mc.bad(m, ['C11'], 'capacity', 'the table gets capacity %s although the file has %s bytes' % (m.sh(r['len']), m.sh(g['z'])), fn)
        if r['newTable'] != 0:
            mc.bad(m, ['C10', 'C11'], 'initial-successor', 'a recovered table does not start without a successor', fn)
        if r['copyIdx'] != 0:
            mc.bad(m, ['C11', 'C04'], 'initial-copyIdx', 'the hand-over of a recovered table starts at %s' % m.sh(r['copyIdx']), fn)
        ps = [x for x in g.get('passes', ()) + (g.get('pass', PASS0),) if is_num_t(r['len']) and st.entails(sub(x[0], r['len']))]
        if not any(m.same(r['copyDone'], x[1]) for x in ps if is_num_t(r['copyDone'])):
            mc.bad(m, ['C11', 'C04'], 'recovered-retired', 'the number of retired slots of a recovered table (%s) is not the number of retired slots found' % m.sh(r['copyDone']), fn)
        if not any(m.same(r['size'], x[2]) for x in ps if is_num_t(r['size'])):
            mc.bad(m, ['C12', 'C11'], 'recovered-count', 'the element count of a recovered table (%s) is not the number of bindings found' % m.sh(r['size']), fn)
    mc.run('open table', 'vf_mmapOld', Spec(model=FileModel, nocut=NC), old, old_exit)

    # ---- releasing a table
    def rel(m, st):
        T = m.new_shared(st)
        st.g['mode'] = 'release'
        st.g['table'] = T
        return [('ptr', T, 0)]

    def rel_exit(m, it, st, kind, v):
        fn = 'vf_munmap'
        if kind != 'ret':
            return
        u = st.g.get('unmapped')
        if u is None:
            mc.bad(m, ['C16'], 'not-unmapped', 'returns without having unmapped the table', fn)
            return
        if v != (1 if u == 'yes' else 0):
            mc.bad(m, ['C16'], 'release-result', 'returns %s when unmapping %s' % (m.sh(v), 'succeeds' if u == 'yes' else 'fails'), fn)
    mc.run('release table', 'vf_munmap', Spec(model=FileModel, nocut=('munmapTable',)), rel, rel_exit)

    # ---- names of table files
    def nm(m, st):
        st.g['mode'] = 'name'
        N = mc.sym(st, 'NUM', low=None)
        R = ('ptr', ('al', -1, 'result', 0), 0)
        return [R, N]
    gof = [n for n, f in p.fn.items() if f.get('name') == 'getOrderedFileName' and 'blocks' in f]

    def nm_exit(m, it, st, kind, v):
        if kind != 'ret':
            return
        x = st.mem.get((('al', -1, 'result', 0), 'str0'))
        t = list(x[2:]) if x and x[1] == 'cat' else [x]
        if any(not y or y[1] == 'unk' for y in t):
            return          # not built by concatenation: not decided
        k = [i for i, y in enumerate(t) if y and y[1] == 'dec']
        ok = len(k) == 1 and t[k[0]][2] == ('s', 'NUM') and len(t) == 3 and k[0] == 1 and t[0][1] == 'lit' == t[2][1] and \
            t[0][2].endswith('/') and t[2][2] == '.dat'
        if not ok:
            mc.bad(m, ['C11'], 'file-name', 'the name made for number NUM is %s, from which recovery does not get NUM back' % m.sh(x), gof[0])
    if gof:
        mc.run('getOrderedFileName', gof[0], Spec(model=FileModel, nocut=('getOrderedFileName',)), nm, nm_exit)

    # ---- size
    def sz(m, st):
        st.g['op'] = 'size'
        return [H]

    def sz_exit(flag):
        fn = 'vf_isEmpty' if flag else 'vf_size'

        def f(m, it, st, kind, v):
            if kind != 'ret':
                return
            rd = st.g.get('sizeread', ())
            if not rd:
                mc.bad(m, ['C12'], 'count-read', 'does not read the element count', fn)
                return
            x = rd[-1]
            if flag:
                ok = v == 1 and x == 0 or v == 0 and st.known_ne(x, 0)
            else:
                ok = is_num_t(v) and m.same(v, x)
            if not ok:
                mc.bad(m, ['C12'], 'count-result', 'returns %s where the element count is %s' % (m.sh(v), m.sh(x)), fn)
        return f
    mc.run('size', 'vf_size', Spec(model=CountModel), sz, sz_exit(False))
    mc.run('isEmpty', 'vf_isEmpty', Spec(model=CountModel), sz, sz_exit(True))

    # ---- reserved keys and values
    def pred(fn, arg, names):
        def setup(m, st):
            X = mc.sym(st, arg, low=None)
            st.g['x'] = X
            return [X]

        def fin(m, it, st, kind, v):
            if kind != 'ret':
                return
            x = st.g['x']
            for n in names:
                if not (v == 1 and x == s[n] or x != s[n] and (v == 1 or st.known_ne(x, s[n]))) and v != 1:
                    mc.bad(m, ['C13'], 'reserved', 'reports %s as usable' % n, fn)
            if v == 1 and x not in [s[n] for n in names]:
                mc.bad(m, ['C13'], 'usable', 'reports %s as reserved' % m.sh(x), fn)
            if v not in (0, 1):
                mc.bad(m, ['C13'], 'reserved', 'returns %s' % m.sh(v), fn)
        return setup, fin
    for lab, fn, names in (('isKeyReserved', 'vf_isKeyReserved', ('KINITIAL', 'KTOMBSTONE')),
                           ('isValueReserved', 'vf_isValueReserved', ('VINITIAL', 'VTOMBSTONE', 'TOMBPRIME', 'MATCH_ANY', 'NO_MATCH_OLD'))):
        a, b = pred(fn, 'X', names)
        mc.run(lab, fn, Spec(model=PredModel), a, b)

    # ---- flags: bitwise functions are decided by their truth table
    P, Q = 0x3333333333333333, 0x5555555555555555
    for lab, fn, want in (('setMark', 'vf_setMark', P | Q), ('clearMark', 'vf_clearMark', P & ~Q & M), ('isMarked', 'vf_isMarked', P & Q)):
        def fin(m, it, st, kind, v, fn=fn, want=want):
            if v != want:
                mc.bad(m, ['C13'], 'flag', 'does not affect or report exactly the given flag bits', fn)
        mc.run(lab, fn, Spec(model=BitModel), lambda m, st: [P, Q], fin)

    def sent(m, st):
        return []

    def sent_exit(m, it, st, kind, v):
        fn = 'vfs_VINITIAL'
        V = ('VINITIAL', 'VTOMBSTONE', 'TOMBPRIME', 'MATCH_ANY', 'NO_MATCH_OLD')
        D, G = c.k['dirty'], c.k['migr']
        for i, a in enumerate(V):
            for b in V[:i]:
                if s[a] == s[b]:
                    mc.bad(m, ['C13'], 'same-' + a, '%s and %s have the same encoding' % (a, b), fn)
            if s[a] & (D | G) != (G if a == 'TOMBPRIME' else 0):
                mc.bad(m, ['C13'], 'flags-' + a, '%s is encoded with flag bits %d' % (a, s[a] & (D | G)), fn)
            if s[a] >> 3 < (1 << 61) - 8:
                mc.bad(m, ['C13'], 'range-' + a, '%s is encoded as %s, which a user value can be' % (a, m.sh(s[a])), fn)
        if s['KINITIAL'] == s['KTOMBSTONE']:
            mc.bad(m, ['C13'], 'same-KTOMBSTONE', 'KINITIAL and KTOMBSTONE have the same encoding', fn)
        for a in ('KINITIAL', 'KTOMBSTONE'):
            if s[a] & (D | G):
                mc.bad(m, ['C13'], 'flags-' + a, '%s is encoded with flag bits' % a, fn)
            if s[a] >> 3 < (1 << 61) - 8:
                mc.bad(m, ['C13'], 'range-' + a, '%s is encoded as %s, which a user key can be' % (a, m.sh(s[a])), fn)
        if D == G or D == 0 or G == 0 or (D | G) & ~((1 << c.k['bits']) - 1) or D & (D - 1) or G & (G - 1):
            mc.bad(m, ['C13'], 'flag-bits', 'the flags (%d, %d) are not distinct single bits below bit %d' % (D, G, c.k['bits']), fn)
        m.count('sentinels')
    mc.run('sentinels', 'vfs_VINITIAL', Spec(model=PredModel), sent, sent_exit)


class CountModel(MapModel):
    def load_table(self, it, st, r, off, ins):
        v = super().load_table(it, st, r, off, ins)
        if self.tf.get(off) == 'size' and r == st.g.get('root'):
            st.g['sizeread'] = st.g.get('sizeread', ()) + (v,)
        return v

    def load(self, it, st, p, t, atomic, ins):
        v = super().load(it, st, p, t, atomic, ins)
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] == 'H' and p[2] == self.off['map_table']:
            st.g['root'] = v[1]
        return v


class BitModel(PredModel):
    OPS = {'and', 'or', 'xor', 'ret', 'inttoptr', 'ptrtoint', 'zext', 'trunc', 'bitcast', 'br', 'call', 'freeze'}

    def inline(self, f):
        for b in f.get('blocks', ()):
            for i in b:
                if i['op'] not in self.OPS:
                    raise AnalysisError('flag functions are expected to be bitwise: %s in %s' % (i['op'], f['dem']))
        return super().inline(f)
