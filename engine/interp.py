"""Abstract interpreter over LLVM IR (as dumped by irdump).

Disjunctive: a program point holds a set of abstract states; states are merged when they are equal up to the
names of unknowns, and at loop heads counters that move in step are generalised by anti-unification until the
set is stable. Nothing is executed and no path is handed to a solver.
"""
import json
import math
import time
from terms import *


class AnalysisError(Exception):
    pass


def fuse_wraps(f):
    """Turn 'if (x == n) x = 0;' (and its relatives) into one instruction, so that it can be read as 'x modulo n'."""
    B = f['blocks']
    preds = {}
    uses = {}

    def count(v):
        if isinstance(v, list):
            if len(v) == 2 and v[0] == 'l':
                uses[v[1]] = uses.get(v[1], 0) + 1
            else:
                for x in v:
                    count(x)
    for b, blk in enumerate(B):
        for i in blk:
            for v in i.values():
                count(v)
        for s in set(blk[-1].get('succ', ())) | {c for _, c in blk[-1].get('cases', ())} if blk else ():
            preds.setdefault(s, set()).add(b)
    for b, blk in enumerate(B):
        t = blk[-1] if blk else {}
        if t.get('op') == 'br' and len(t['succ']) == 2 and t['succ'][0] != t['succ'][1]:
            sides, ends = [], []
            for s in t['succ']:
                body = B[s]
                if preds.get(s) == {b} and body[-1]['op'] == 'br' and len(body[-1]['succ']) == 1 and len(body) <= 3 and \
                        all(x['op'] in ('add', 'sub') for x in body[:-1]):
                    sides.append(s)
                    ends.append(body[-1]['succ'][0])
                else:
                    sides.append(None)
                    ends.append(s)
            if ends[0] != ends[1] and sides[0] is not None and ends[0] == t['succ'][1]:
                sides[1], ends[1] = None, t['succ'][1]
            elif ends[0] != ends[1] and sides[1] is not None and ends[1] == t['succ'][0]:
                sides[0], ends[0] = None, t['succ'][0]
            if ends[0] == ends[1] and sides != [None, None]:
                _fuse(B, b, blk, t, sides, ends[0], uses)
    for b, blk in enumerate(B):
        out = []
        for i in blk:
            if i['op'] == 'select' and i['o'][0][:1] == ['l']:
                j = next((x for x in out if x.get('i') == i['o'][0][1]), None)
                if j is not None and j['op'] == 'icmp' and uses.get(j['i']) == 1 and i['t'] == 'i64':
                    out.remove(j)
                    i = dict(i, op='wrapsel', pred=j['pred'], ct=j.get('ct', ''), o=j['o'] + i['o'][1:])
            out.append(i)
        B[b] = out


def _fuse(B, b, blk, t, sides, J, uses):
    frm = [b if s is None else s for s in sides]
    phis = [i for i in B[J] if i['op'] == 'phi']
    pick = None
    for i in phis:
        v = {p: x for x, p in i['in']}
        if frm[0] not in v or frm[1] not in v:
            return
        if v[frm[0]] != v[frm[1]]:
            if pick is not None:
                return
            pick = (i, v[frm[0]], v[frm[1]])
    if pick is None or t['o'][0][0] != 'l':
        return
    c = next((x for x in blk if x.get('i') == t['o'][0][1]), None)
    if c is None or c['op'] != 'icmp' or uses.get(c['i']) != 1:
        return
    if not any(x[:1] == ['c'] and int(x[1]) == 0 for x in pick[1:]) and all(s is None or len(B[s]) == 1 for s in sides):
        return
    new = {k: v for k, v in pick[0].items() if k != 'in'}
    new.update(op='select', o=[t['o'][0], pick[1], pick[2]], i=10 ** 6 + pick[0]['i'])
    for s in sides:
        if s is not None:
            blk[-1:-1] = B[s][:-1]
            B[s] = [dict(B[s][-1])]
    blk[-1:-1] = [new]
    blk[-1] = dict(t, o=[], succ=[J])
    for i in phis:
        v = {p: x for x, p in i['in']}
        i['in'] = [[x, p] for x, p in i['in'] if p not in frm] + [[['l', new['i']] if i is pick[0] else v[frm[0]], b]]
    for s in sides:
        if s is not None:
            B[s] = [{'op': 'unreachable', 'i': -1, 't': 'v', 'ln': 0, 'o': []}]


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fn = d['functions']
        self.gl = d['globals']
        self.ctors = d['ctors']
        self.files = d['files']
        self._live = {}
        for n, f in self.fn.items():
            f['sym'] = n
            if f.get('blocks'):
                fuse_wraps(f)

    def loc(self, ins):
        f = ins.get('fl')
        if f is not None and self.files[f].startswith('/usr'):
            for fi, ln, nm in ins.get('ia', ()):
                if not self.files[fi].startswith('/usr'):
                    return '%s:%d' % (self.files[fi], ln)
        return '%s:%d' % (self.files[f] if f is not None else '?', ins.get('ln', 0))

    # ---- liveness of SSA values -------------------------------------------------
    def live(self, name):
        r = self._live.get(name)
        if r:
            return r
        f = self.fn[name]
        B = f['blocks']
        n = len(B)
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        succ = [[] for _ in range(n)]
        phiuse = {}

        def ops(v, out):
            if isinstance(v, list):
                if len(v) == 2 and v[0] == 'l':
                    out.add(v[1])
                else:
                    for x in v:
                        ops(x, out)
        for b, ins in enumerate(B):
            for i in ins:
                if i['op'] == 'phi':
                    for v, p in i['in']:
                        s = set()
                        ops(v, s)
                        phiuse.setdefault((p, b), set()).update(s)
                else:
                    s = set()
                    ops(i.get('o', []), s)
                    if 'callee' in i:
                        ops(i['callee'], s)
                    if 'gep' in i:
                        ops(i['gep'][1], s)
                    use[b] |= s - de[b]
                de[b].add(i['i'])
            t = ins[-1]
            succ[b] = list(dict.fromkeys(t.get('succ', []) + [c[1] for c in t.get('cases', [])]))
        li = [set() for _ in range(n)]
        lo = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in succ[b]:
                    o |= li[s] | phiuse.get((b, s), set())
                i2 = use[b] | (o - de[b])
                if o != lo[b] or i2 != li[b]:
                    lo[b], li[b] = o, i2
                    ch = True
        preds = [0] * n
        for b in range(n):
            for s in succ[b]:
                preds[s] += 1
        # live-in including values defined by the block's own phis is handled by the caller
        heads = set()
        color = [0] * n
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                if color[s] == 1:
                    heads.add(s)
            else:
                color[b] = 2
                stack.pop()
        r = dict(li=li, lo=lo, succ=succ, preds=preds, heads=heads, ops=ops, after={})
        self._live[name] = r
        return r

    def live_after(self, name, b, ip):
        L = self.live(name)
        k = (b, ip)
        if k not in L['after']:
            s = set(L['lo'][b])
            ins = self.fn[name]['blocks'][b]
            for i in reversed(ins[ip + 1:]):
                s.discard(i['i'])
                L['ops'](i.get('o', []), s)
                if 'callee' in i:
                    L['ops'](i['callee'], s)
                if 'gep' in i:
                    L['ops'](i['gep'][1], s)
            L['after'][k] = s
        return L['after'][k]


class Frame:
    __slots__ = ('fn', 'bb', 'ip', 'prev', 'loc')

    def __init__(self, fn, bb=0, ip=0, prev=-1, loc=None):
        self.fn, self.bb, self.ip, self.prev, self.loc = fn, bb, ip, prev, loc or {}

    def copy(self):
        return Frame(self.fn, self.bb, self.ip, self.prev, dict(self.loc))


DICTS = ('mem', 'info', 'slots', 'tabs', 'obs', 'pend', 'g')


class State:
    DIRTY = 1
    __slots__ = ('frames', 'mem', 'info', 'ne', 'le', 'slots', 'tabs', 'obs', 'pend', 'g', 'log', 'next', 'trail')

    def __init__(self):
        self.frames = []
        for d in DICTS:
            setattr(self, d, {})
        self.ne = frozenset()
        self.le = frozenset()
        self.log = ()
        self.next = 0
        self.trail = ()

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        for d in DICTS:
            setattr(s, d, dict(getattr(self, d)))
        s.ne, s.le, s.log, s.next, s.trail = self.ne, self.le, self.log, self.next, self.trail
        return s

    def fresh(self, low=None, ne=frozenset()):
        n = self.next
        self.next += 1
        t = ('s', n)
        if low is not None or ne:
            self.info[t] = (low, frozenset(ne))
        return t

    def fresh_table(self):
        n = self.next
        self.next += 1
        return n

    # ---- facts ------------------------------------------------------------------
    def low3(self, t):
        """The low three bits of t, or None."""
        if isinstance(t, int):
            return t & 7
        if t[0] == 'tag':
            l = self.low3(t[2])
            return None if l is None else l | self.DIRTY
        if t[0] in ('ptr', 'fn', 'agg', 'undef'):
            return None
        c, d = lin(t)
        r = c & 7
        for a, k in d.items():
            if k % 8 == 0:
                continue
            if a[0] == 's':
                low = self.info.get(a, (None, ()))[0]
                if low == 0:
                    continue
                return None
            if a[0] == 'len':
                continue  # power of two >= 8
            return None
        return r

    def known_ne(self, a, b):
        if a == b:
            return False
        ca, da = lin(a)
        cb, db = lin(b)
        if da == db:
            return ca != cb
        la, lb = self.low3(a), self.low3(b)
        if la is not None and lb is not None and la != lb:
            return True
        d = sub(a, b)
        if d in self.ne or mulc(d, -1) in self.ne:
            return True
        c, x = lin(d)
        if len(x) == 1:
            (s, k), = x.items()
            if abs(k) == 1 and s in self.info:
                v = (-c * k) & M
                if v in self.info[s][1]:
                    return True
            if abs(k) == 1 and s[0] == 'len':
                v = (-c * k) & M
                if v < 8 or v & (v - 1):
                    return True
        for t in (a, b):
            if isinstance(t, int) and SMALL <= t:
                return False        # the order is only meaningful for sizes and positions
        if self.entails(sub(d, 1)) or self.entails(sub(mulc(d, -1), 1)):
            return True
        return False

    def axioms(self, t):
        """Inequalities that hold for the atoms of t."""
        out = []
        seen = set()

        def go(a):
            if a in seen or isinstance(a, int):
                return
            seen.add(a)
            if a[0] == 'shr':
                out.append(sub(a[1], mulc(a, 1 << min(a[2], 20))))   # x - (x>>k)*2^k >= 0
                if a[2] <= 20:
                    out.append(add(sub(mulc(a, 1 << a[2]), a[1]), (1 << a[2]) - 1))
                for y in lin(a[1])[1]:
                    go(y)
            elif a[0] == 'mod':
                out.append(sub(sub(a[2], a), 1))
                out.append(a)
                for z in a[1:]:
                    for y in lin(z)[1]:
                        go(y)
            elif a[0] == 'len':
                out.append(sub(a, 8))
            elif a[0] == 'op' and a[1] == 'align':
                out.append(sub(a[2], a))
                out.append(add(sub(a, a[2]), a[3] - 1))
                for y in lin(a[2])[1]:
                    go(y)
        for y in lin(t)[1]:
            go(y)
        return out

    def entails(self, goal, depth=3):
        """goal >= 0 follows from the recorded inequalities (difference-bound closure, small depth)."""
        facts = list(self.le)
        ax = self.axioms(goal)
        for f in facts:
            for a in self.axioms(f):
                if a not in ax:
                    ax.append(a)
        facts = [f for f in facts + ax]

        def trivially(t):
            c, d = lin(t)
            return s64(c) >= 0 and all(k >= 0 for k in d.values())

        seen = set()

        def go(t, dep):
            if trivially(t):
                return True
            if dep == 0 or t in seen:
                return False
            seen.add(t)
            dt = lin(t)[1]
            neg = [a for a, k in dt.items() if k < 0]
            for f in facts:
                df = lin(f)[1]
                if not neg:
                    k = min((dt.get(a, 0) // q for a, q in df.items() if q > 0), default=0)
                    if k > 1 and go(add(t, f, -k), dep - 1):
                        return True
                # only use facts that cancel a negative atom or improve the constant
                if neg and not any(df.get(a, 0) < 0 for a in neg):
                    continue
                if go(sub(t, f), dep - 1):
                    return True
                # facts may be needed with multiplicity (shift axioms)
                for a in neg:
                    k = lin(t)[1][a]
                    if df.get(a, 0) < 0 and k < df[a] and k % df[a] == 0:
                        if go(add(t, f, -(k // df[a])), dep - 1):
                            return True
            return False
        return go(goal, depth)

    # ---- substitution -----------------------------------------------------------
    def rename(self, f):
        """Apply leaf map f everywhere. Returns False if two facts contradict."""
        R = lambda t: rebuild(t, f)
        for fr in self.frames:
            fr.loc = {k: R(v) for k, v in fr.loc.items()}
        self.mem = {R(k): R(v) for k, v in self.mem.items()}
        self.ne = frozenset(R(t) for t in self.ne)
        self.le = frozenset(R(t) for t in self.le)
        info = {}
        for s, (low, ne) in self.info.items():
            r = f(s)
            if isinstance(r, int):
                if low is not None and (r & 7) != low:
                    return False
                if r in ne:
                    return False
            elif r[0] == 's':
                o = info.get(r)
                if o:
                    if low is not None and o[0] is not None and low != o[0]:
                        return False
                    info[r] = (low if low is not None else o[0], ne | o[1])
                else:
                    info[r] = (low, ne)
            else:
                # s := term; keep disequalities as pair facts
                l = self.low3(r)
                if low is not None and l is not None and l != low:
                    return False
                for c in ne:
                    d = sub(r, c)
                    if d == 0:
                        return False
                    self.ne = self.ne | {d}
        self.info = info
        for t in self.ne:
            if t == 0:
                return False
        self.ne = frozenset(t for t in self.ne if not isinstance(t, int))
        for t in self.le:
            if isinstance(t, int) and s64(t) < 0:
                return False
        self.le = prune(self.le)
        slots = {}
        for k, v in self.slots.items():
            k2, v2 = R(k), R(v)
            if k2 in slots:
                v2 = merge_slot(slots[k2], v2)
                if v2 is None:
                    return False
            slots[k2] = v2
        self.slots = slots
        self.tabs = {f(('T', k))[1]: R(v) for k, v in self.tabs.items()}
        ob = {}
        for k, v in self.obs.items():
            k2 = R(k)
            ob[k2] = ob.get(k2, frozenset()) | R(v)
        self.obs = ob
        self.pend = {R(k): R(v) for k, v in self.pend.items()}
        self.g = {k: R(v) for k, v in self.g.items()}
        self.log = tuple(R(e) for e in self.log)
        return True

    def subst(self, s, t):
        return self.rename(lambda x: t if x == s else x)

    def assume_eq(self, a, b):
        """Returns False if impossible."""
        d = sub(a, b)
        if isinstance(d, int):
            return d == 0
        if self.known_ne(a, b):
            return False
        c, x = lin(d)
        # choose a symbol with coefficient +-1 that is not inside another atom; youngest first
        cands = [s for s, k in x.items() if s[0] == 's' and abs(k) == 1]
        cands.sort(key=lambda s: (isinstance(s[1], int), s[1] if isinstance(s[1], int) else 0, str(s[1])), reverse=True)
        for s in cands:
            k = x[s]
            rest = mk(c, {y: q for y, q in x.items() if y != s})
            inner = set()
            for y in x:
                if y != s:
                    atoms_of(y, inner)
            if s in inner:
                continue
            return self.subst(s, mulc(rest, -k))
        self.le = self.le | {d, mulc(d, -1)}
        return True

    def assume_ne(self, a, b):
        d = sub(a, b)
        if isinstance(d, int):
            return d != 0
        c, x = lin(d)
        if len(x) == 1:
            (s, k), = x.items()
            if s[0] == 's' and abs(k) == 1:
                v = (-c * k) & M
                low, ne = self.info.get(s, (None, frozenset()))
                self.info[s] = (low, ne | {v})
                return True
        self.ne = self.ne | {d}
        return True

    def assume_ge(self, t):
        """t >= 0"""
        if isinstance(t, int):
            return s64(t) >= 0
        if self.entails(sub(mulc(t, -1), 1)):
            return False
        if self.entails(mulc(t, -1), 2):
            return self.assume_eq(t, 0)
        self.record(t)
        return True

    def record(self, t):
        """Keep the inequality t >= 0, unless a stronger one over the same terms is kept already."""
        c, d = lin(t)
        if not d:
            return
        c = s64(c)
        for q in self.le:
            cq, dq = lin(q)
            if dq == d:
                if s64(cq) <= c:
                    return
                self.le = (self.le - {q}) | {t}
                return
        self.le = self.le | {t}


def scale(t):
    """The strongest integer inequality t >= 0 over smaller coefficients."""
    c, d = lin(t)
    q = 0
    for k in d.values():
        q = math.gcd(q, k)
    return mk(s64(c) // q, {a: k // q for a, k in d.items()}) if q > 1 else t


def prune(le):
    best = {}
    for t in le:
        if isinstance(t, int):
            continue
        c, d = lin(t)
        if s64(c) >= 0 and all(k > 0 and a[0] in ('shr', 'len', 'mod') for a, k in d.items()):
            continue
        k = frozenset(d.items())
        if k not in best or s64(c) < best[k][0]:
            best[k] = (s64(c), t)
    return frozenset(t for _, t in best.values())


def merge_slot(a, b):
    ka, va = a
    kb, vb = b
    k = ka if kb is None else kb
    order = {'any': 0, 'noninit': 1, 'marked': 2, 'prime': 3, 'is': 4}
    v = va if order[va[0]] >= order[vb[0]] else vb
    return (k, v)


WIDTH = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i48': 48, 'i64': 64, 'p': 64}
TYSZ = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'p': 8, 'f32': 4, 'f64': 8}


def tysize(t):
    if t in TYSZ:
        return TYSZ[t]
    if t[0] in '{[<':
        return int(t[1:-1])
    return 8


class Interp:
    MAXSTEPS = 3000000
    MAXTIME = 300        # seconds per entry point
    AFTER = 20           # seconds to go on after the first violation
    MAXDEPTH = 60
    TRACE = False

    def __init__(self, prog, model):
        self.p = prog
        self.model = model
        self.steps = 0
        self.nstates = 0
        self.exits = []
        self.cover = set()
        self.fns = set()

    # ---- operands -----------------------------------------------------------------
    def val(self, st, v):
        k = v[0]
        if k == 'l':
            try:
                return st.frames[-1].loc[v[1]]
            except KeyError:
                raise AnalysisError('value %%%d undefined in %s' % (v[1], st.frames[-1].fn))
        if k == 'c':
            return int(v[1]) & M
        if k == 'null':
            return 0
        if k == 'f':
            return ('fn', v[1])
        if k == 'g':
            return ('ptr', ('g', v[1]), 0)
        if k == 'undef':
            return ('undef',)
        if k == 'gep':
            return self.ptradd(self.val(st, v[1]), v[2])
        if k == 'cast':
            return self.val(st, v[2])
        if k == 'zero':
            return 0
        if k == 'cagg':
            return ('agg', tuple(self.val(st, x[2]) for x in v[1:]))
        if k == 'asm':
            return ('asm', v[1])
        if k == 'bin':
            r = self.binop(st, v[1], 'i64', self.val(st, v[2]), self.val(st, v[3]))
            return r[0][1]
        if k == 'fp':
            return ('op', 'fp', v[1])
        return ('op', 'k', json.dumps(v))

    @staticmethod
    def ptradd(p, off):
        if isinstance(p, tuple) and p[0] == 'ptr':
            return ('ptr', p[1], add(p[2], off if not isinstance(off, int) else off & M))
        if isinstance(p, tuple) and p[0] in ('fn', 'undef', 'agg', 'tag'):
            return p
        return add(p, off & M if isinstance(off, int) else off)

    # ---- driver -------------------------------------------------------------------
    def run(self, entry, args, st=None, on_exit=None):
        st = st or State()
        f = self.p.fn.get(entry)
        if not f or 'blocks' not in f:
            raise AnalysisError('entry point %s not found' % entry)
        st.frames.append(Frame(entry, loc=dict(enumerate(args))))
        self.visited = {}
        work = [st]
        out = []
        t0 = time.time()
        bad = None
        self.partial = False
        while work:
            s = work.pop()
            try:
                self.advance(s, work, out)
                now = time.time()
                if self.steps > self.MAXSTEPS or now - t0 > self.MAXTIME:
                    raise AnalysisError('state limit reached in %s' % entry)
            except AnalysisError:
                if not self.model.violations:
                    raise
                self.partial = True     # something is wrong already; that is reported
                break
            if self.model.violations:
                if bad is None:
                    bad = now
                elif now - bad > self.AFTER:
                    self.partial = True
                    break
        for s, kind, v in out:
            if on_exit:
                on_exit(s, kind, v)
        return out

    def where(self, st):
        for fr in reversed(st.frames):
            f = self.p.fn[fr.fn]
            b = f['blocks'][fr.bb]
            ins = b[min(fr.ip, len(b) - 1)]
            if ins.get('ln') and self.model.is_repo(self.p.loc(ins)):
                return self.p.loc(ins)
        return self.p.loc(ins)

    def stack(self, st):
        r = []
        for fr in st.frames:
            f = self.p.fn[fr.fn]
            ins = f['blocks'][fr.bb][min(fr.ip, len(f['blocks'][fr.bb]) - 1)]
            nm = f.get('name') or f['dem']
            for fi, ln, sp in reversed(ins.get('ia', ())):
                if not self.p.files[fi].startswith('/usr'):
                    r.append('%s (%s:%d)' % (sp, self.p.files[fi], ln))
                    nm = ins['sp']
            r.append('%s (%s)' % (nm, self.p.loc(ins)))
        return r

    def advance(self, st, work, out):
        while True:
            fr = st.frames[-1]
            f = self.p.fn[fr.fn]
            block = f['blocks'][fr.bb]
            ins = block[fr.ip]
            self.steps += 1
            if self.TRACE and ins.get('ln') and self.model.is_repo(self.p.files[ins['fl']]):
                w = ins['ln']
                if not st.trail or st.trail[-1] != w:
                    st.trail = st.trail + (w,)
            op = ins['op']
            if op == 'br' or op == 'switch':
                self.cover.add((fr.fn, fr.bb))
                if not self.branch(st, ins, work):
                    return
                continue
            if op == 'ret':
                v = self.val(st, ins['o'][0]) if ins.get('o') else None
                self.cover.add((fr.fn, fr.bb))
                if not self.do_ret(st, v, out):
                    return
                continue
            if op == 'unreachable':
                return
            if op == 'resume':
                if not self.unwind(st, out, skip=True):
                    return
                continue
            if op in ('call', 'invoke'):
                r = self.call(st, ins, work, out)
                if not r:
                    return
                continue
            h = getattr(self, 'i_' + op, None)
            if h is None:
                raise AnalysisError('instruction %s not supported (%s)' % (op, self.p.loc(ins)))
            res = h(st, ins)
            if isinstance(res, list):
                for s2, v in res[1:]:
                    s2.frames[-1].loc[ins['i']] = v
                    s2.frames[-1].ip += 1
                    work.append(s2)
                if not res:
                    return
                st, v = res[0]
                st.frames[-1].loc[ins['i']] = v
                st.frames[-1].ip += 1
            else:
                st.frames[-1].loc[ins['i']] = res
                st.frames[-1].ip += 1

    def do_ret(self, st, v, out):
        fr = st.frames.pop()
        self.drop_frame_mem(st, len(st.frames))
        if not st.frames:
            out.append((st, 'ret', v))
            return False
        c = st.frames[-1]
        ins = self.p.fn[c.fn]['blocks'][c.bb][c.ip]
        c.loc[ins['i']] = v
        if ins['op'] == 'invoke':
            return self.goto(st, ins['succ'][0])
        c.ip += 1
        if not self.model.joins(self.p.fn[fr.fn]):
            return True
        return self.merge_point(st, head=False)

    def drop_frame_mem(self, st, depth):
        dead = [k for k in st.mem if k[0][0] == 'al' and k[0][1] == depth]
        for k in dead:
            del st.mem[k]

    def unwind(self, st, out, skip=False, inframe=False):
        """Propagate the current exception. inframe: the call instruction itself is an invoke candidate."""
        first = inframe
        while True:
            if not first:
                st.frames.pop()
                self.drop_frame_mem(st, len(st.frames))
                if not st.frames:
                    out.append((st, 'throw', st.g.get('exn')))
                    return False
            first = False
            fr = st.frames[-1]
            ins = self.p.fn[fr.fn]['blocks'][fr.bb][fr.ip]
            if ins['op'] == 'invoke':
                fr.loc.pop(ins['i'], None)
                return self.goto(st, ins['succ'][1])

    def branch(self, st, ins, work):
        if ins['op'] == 'br':
            succ = ins['succ']
            if len(succ) == 1:
                return self.goto(st, succ[0])
            c = self.val(st, ins['o'][0])
            if isinstance(c, int):
                return self.goto(st, succ[0] if c & 1 else succ[1])
            if isinstance(c, tuple) and c[0] == 'undef':
                self.model.undef_branch(self, st, ins)
                c = st.fresh()
            s2 = st.copy()
            if s2.assume_eq(c, 0) and self.goto(s2, succ[1]):
                work.append(s2)
            if not st.assume_ne(c, 0):
                return False
            return self.goto(st, succ[0])
        c = self.val(st, ins['o'][0])
        if isinstance(c, int):
            for k, b in ins['cases']:
                if int(k[1]) & M == c:
                    return self.goto(st, b)
            return self.goto(st, ins['succ'][0])
        for k, b in ins['cases']:
            s2 = st.copy()
            if isinstance(c, tuple) and c[0] == 'undef':
                if self.goto(s2, b):
                    work.append(s2)
            elif s2.assume_eq(c, int(k[1]) & M) and self.goto(s2, b):
                work.append(s2)
            if not (isinstance(c, tuple) and c[0] == 'undef') and not st.assume_ne(c, int(k[1]) & M):
                return False
        return self.goto(st, ins['succ'][0])

    def goto(self, st, b):
        fr = st.frames[-1]
        prev = fr.bb
        f = self.p.fn[fr.fn]
        L = self.p.live(fr.fn)
        vals = {}
        ip = 0
        coarse = self.model.COARSE and b in L['heads']
        for i in f['blocks'][b]:
            if i['op'] != 'phi':
                break
            ip += 1
            for v, pb in i['in']:
                if pb == prev:
                    v = self.val(st, v)
                    if coarse and i['t'] == 'i64' and is_num(v) and all(a[0] == 's' for a in lin(v)[1]):
                        v = st.fresh()      # counters are not followed
                    vals[i['i']] = v
                    break
        li = L['li'][b]
        loc = {k: v for k, v in fr.loc.items() if k in li}
        loc.update(vals)
        fr.loc, fr.bb, fr.ip, fr.prev = loc, b, ip, prev
        if b in L['heads'] or L['preds'][b] > 1 and self.model.joins(f) and self.joinblock(f['blocks'][b]):
            return self.merge_point(st, head=b in L['heads'])
        return True

    def joinblock(self, block):
        i = block[0]
        j = i.get('_join')
        if j is None:
            j = True
            for x in block:
                if x.get('fl') is not None and x['op'] != 'phi':
                    j = not self.p.files[x['fl']].startswith('/usr')
                    break
            i['_join'] = j
        return j

    # ---- merging ------------------------------------------------------------------
    def snapshot(self, st):
        """Rename symbols canonically; returns a hashable tuple describing the state."""
        self.model.normalise(st)
        order = {}
        live = set()
        for fr in st.frames:
            for k in sorted(fr.loc):
                self._number(fr.loc[k], order)
        heap = {}
        for k in sorted(st.mem, key=repr):
            if k[0][0] == 'N':
                heap.setdefault(k[0], []).append(k)
                continue
            self._number(k, order)
            self._number(st.mem[k], order)
        for k in sorted(st.g):
            self._number(st.g[k], order)
        for e in st.log:
            self._number(e, order)
        # objects on the heap, as far as they are reachable
        todo = [x for x in order if x[0] == 'N']
        while todo:
            x = todo.pop()
            n0 = len(order)
            for k in heap.pop(x, ()):
                self._number(k, order)
                self._number(st.mem[k], order)
            todo += [y for y in list(order)[n0:] if y[0] == 'N']
        for ks in heap.values():
            for k in ks:
                del st.mem[k]
        # roots found; garbage-collect facts about anything else
        self.model.gc(st, order, self._number)
        for s in list(st.info):
            if s not in order and not isinstance(s[1], str):
                del st.info[s]

        def ok(t):
            a = set()
            atoms_of(t, a)
            return all(x in order or isinstance(x[1], str) for x in a)
        st.ne = frozenset(t for t in st.ne if ok(t))
        st.le = frozenset(t for t in st.le if ok(t))
        m = {}
        n = 0
        kinds = {}
        for s in order:
            if isinstance(s[1], str):
                continue
            i = kinds.get(s[0], 0)
            kinds[s[0]] = i + 1
            m[s] = (s[0], i)
            n += 1
        if any(a != b for a, b in m.items()):
            st.rename(lambda x: m.get(x, x))
        st.next = n
        fr = tuple((x.fn, x.bb, x.ip, tuple(sorted(x.loc.items()))) for x in st.frames)
        rest = tuple(tuple(sorted(getattr(st, d).items(), key=repr)) for d in DICTS)
        return (fr, rest, st.ne, st.le, st.log)

    @staticmethod
    def _number(t, order):
        def go(t):
            if isinstance(t, tuple):
                if not t:
                    return
                h = t[0]
                if h == 's':
                    order.setdefault(t, len(order))
                    return
                if h in ('len', 'P', 'T') and len(t) == 2 and isinstance(t[1], (int, str)):
                    order.setdefault(('T', t[1]), len(order))
                    return
                if h == 'N' and len(t) == 2 and isinstance(t[1], int):
                    order.setdefault(t, len(order))
                    return
                for x in t:
                    if isinstance(x, (tuple, frozenset)):
                        go(x)
            elif isinstance(t, frozenset):
                for x in sorted(t, key=repr):
                    go(x)
        go(t)

    def merge_point(self, st, head):
        fr = st.frames[-1]
        snap = self.snapshot(st)
        key = tuple((x.fn, x.bb, x.ip) for x in st.frames)
        seen = self.visited.setdefault(key, {'exact': set(), 'shapes': {}})
        if snap in seen['exact']:
            return False
        seen['exact'].add(snap)
        self.nstates += 1
        if self.nstates > 60000:
            raise AnalysisError('too many abstract states')
        if head:
            return self.widen(st, snap, seen)
        return True

    # ---- generalisation of counters at loop heads -----------------------------------
    def widen(self, st, snap, seen):
        sk, nums = skeleton(snap)
        lst = seen['shapes'].setdefault(sk, [])
        for g in lst:
            if subsumes(g, nums):
                return False
        if len(lst) < self.model.UNROLL:
            lst.append(nums)
            return True
        base = lst[-1]
        gen = antiunify(base, nums, st, base in seen.setdefault('general', set()), self.model.OPPOSITE, self.model.RATIO)
        if gen is None:
            lst.append(nums)
            if len(lst) > 40:
                raise AnalysisError('no convergence at %s' % self.where(st))
            return True
        newnums, newnext = gen
        lst.append(newnums)
        seen['general'].add(newnums)
        if len(lst) > 60:
            raise AnalysisError('no convergence at %s' % self.where(st))
        # rebuild the state with the generalised numbers
        it = iter(newnums)
        apply_nums(st, it)
        st.next = max(st.next, newnext)
        # facts that mention generalised positions were part of the skeleton's numbers as well
        return True

    # ---- instructions ---------------------------------------------------------------
    def i_alloca(self, st, i):
        return ('ptr', ('al', len(st.frames) - 1, st.frames[-1].fn, i['i']), 0)

    def i_load(self, st, i):
        p = self.val(st, i['o'][0])
        return self.model.load(self, st, p, i['t'], i.get('atomic', 0), i)

    def i_store(self, st, i):
        v = self.val(st, i['o'][0])
        p = self.val(st, i['o'][1])
        r = self.model.store(self, st, p, v, i['vt'], i.get('atomic', 0), i)
        return r if r is not None else 0

    def i_cmpxchg(self, st, i):
        p, e, n = (self.val(st, x) for x in i['o'][:3])
        return self.model.cmpxchg(self, st, p, e, n, i.get('weak', False), i)

    def i_atomicrmw(self, st, i):
        p, v = (self.val(st, x) for x in i['o'][:2])
        return self.model.rmw(self, st, p, i['rmw'], v, i)

    def i_fence(self, st, i):
        self.model.fence(self, st, i)
        return 0

    def i_getelementptr(self, st, i):
        p = self.val(st, i['o'][0])
        off, var = i['gep']
        r = self.ptradd(p, off)
        for sc, v in var:
            x = self.val(st, v)
            x = self.model.use(self, st, x)
            if not (isinstance(x, int) or is_num(x)):
                x = st.fresh()
            r = self.ptradd(r, mulc(x, sc))
        return r

    def i_bitcast(self, st, i):
        return self.val(st, i['o'][0])
    i_ptrtoint = i_inttoptr = i_freeze = i_addrspacecast = i_bitcast

    def i_zext(self, st, i):
        return self.val(st, i['o'][0])

    def i_sext(self, st, i):
        v = self.val(st, i['o'][0])
        if isinstance(v, int):
            w = WIDTH[i['ft']]
            v &= (1 << w) - 1
            if v >> (w - 1):
                v |= M & ~((1 << w) - 1)
            return v & ((1 << WIDTH[i['t']]) - 1)
        return v if v[0] != 'op' or v[1] != 'trunc' else ('op', 'sext', v)

    def i_trunc(self, st, i):
        v = self.val(st, i['o'][0])
        w = WIDTH.get(i['t'], 64)
        if isinstance(v, int):
            return v & ((1 << w) - 1)
        if isinstance(v, tuple) and v[0] == 'undef':
            return v
        v = self.model.use(self, st, v)
        if w == 1:
            return v
        if v[0] == 'ptr' or v[0] == 'fn':
            return st.fresh()
        if v[0] == 's' and ('w32', ) in st.g.get('narrow', ()):
            return v
        return ('op', 'trunc', v, w) if not self.model.narrow_ok(st, v) else v

    def fpop(self, st, i):
        return ('op', i['op'], i['t']) + tuple(self.val(st, x) for x in i.get('o', []))
    i_uitofp = i_sitofp = i_fptoui = i_fptosi = i_fadd = i_fsub = i_fmul = i_fdiv = i_fneg = i_fpext = i_fptrunc = fpop

    def i_fcmp(self, st, i):
        s2 = st.copy()
        return [(st, 1), (s2, 0)]

    def i_select(self, st, i):
        c, a, b = (self.val(st, x) for x in i['o'])
        if isinstance(c, int):
            return a if c & 1 else b
        s2 = st.copy()
        r = []
        if st.assume_ne(c, 0):
            r.append((st, self.val(st, i['o'][1])))
        if s2.assume_eq(c, 0):
            r.append((s2, self.val(s2, i['o'][2])))
        return r

    def i_wrapsel(self, st, i):
        """x `pred` y ? a : b, where one of a and b is the other one, k, reduced by L or set to 0: k modulo L, if k is at most L."""
        x, y, a, b = (self.val(st, v) for v in i['o'])
        r = self.wrapped(st, i['pred'], x, y, a, b) if all(map(is_num, (x, y, a, b))) else None
        if r is not None:
            return r
        r = self.compare(st, i['pred'], x, y, i)
        return [(s, self.val(s, i['o'][2 if c & 1 else 3])) for s, c in (r if isinstance(r, list) else [(st, r)])]

    def wrapped(self, st, pred, x, y, a, b):
        pred = 'u' + pred[1:] if pred[0] == 's' else pred
        for q, keep, z in ((pred, b, a), ({'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule'}[pred], a, b)):
            d = sub(x, y)
            if q in ('ult', 'ule'):
                d, q = sub(y, x), {'ult': 'ugt', 'ule': 'uge'}[q]
            # z is taken iff d == 0 (eq), d >= 0 (uge), d > 0 (ugt)
            for L in ([sub(keep, d), add(keep, d)] if q == 'eq' else [sub(keep, d)] if q == 'uge' else [add(sub(keep, d), 1)] if q == 'ugt' else []):
                if isinstance(L, tuple) and (L[0] == 'len' or (L[0] == 'op' and L[1] == 'pow2') or self.model.is_pow2(st, L)):
                    k = sub(L, keep)
                    if z == 0 and st.entails(k) or z == sub(keep, L) and st.entails(sub(add(k, L), 1)):
                        return mod(keep, L)
        return None

    def i_extractvalue(self, st, i):
        v = self.val(st, i['o'][0])
        for k in i['idx']:
            if isinstance(v, tuple) and v[0] == 'agg' and k < len(v[1]):
                v = v[1][k]
            elif v == 0:
                v = 0
            else:
                return st.fresh()
        return v

    def i_insertvalue(self, st, i):
        a, v = self.val(st, i['o'][0]), self.val(st, i['o'][1])

        def ins(a, idx):
            if not idx:
                return v
            l = list(a[1]) if isinstance(a, tuple) and a[0] == 'agg' else []
            k = idx[0]
            while len(l) <= k:
                l.append(('undef',))
            l[k] = ins(l[k], idx[1:])
            return ('agg', tuple(l))
        return ins(a, i['idx'])

    def i_landingpad(self, st, i):
        return self.model.landingpad(self, st, i)

    def i_icmp(self, st, i):
        a, b = (self.val(st, x) for x in i['o'])
        return self.compare(st, i['pred'], a, b, i)

    def compare(self, st, pred, a, b, i=None):
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == 'undef':
                self.model.undef_use(self, st, i)
                s2 = st.copy()
                return [(st, 1), (s2, 0)]
        if pred in ('eq', 'ne'):
            r = self.eqtest(st, a, b)
            y = 1 if pred == 'eq' else 0
            return [(s, y if e else 1 - y) for s, e in r]
        a, b = self.model.use(self, st, a), self.model.use(self, st, b)
        if pred[0] == 's':
            pred = 'u' + pred[1:]
            if isinstance(a, int) and isinstance(b, int):
                w = WIDTH.get((i or {}).get('ct', ''), 64)
                a, b = ((x + (1 << (w - 1))) & ((1 << w) - 1) for x in (a, b))
        if not is_num(a) or not is_num(b):
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'ptr' == b[0] and a[1] == b[1]:
                a, b = a[2], b[2]
            else:
                s2 = st.copy()
                return [(st, 1), (s2, 0)]
        if isinstance(a, int) and isinstance(b, int):
            v = {'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred]
            return [(st, int(v))]
        for x, y, p2 in ((a, b, pred), (b, a, {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}[pred])):
            if isinstance(y, int) and y >= M - 255:
                return self.compare_top(st, x, y, p2)
            if isinstance(y, int) and y > M >> 1:
                s2 = st.copy()
                return [(st, 1), (s2, 0)]
        # truth of  t >= 0
        if pred == 'ult':
            t = sub(sub(b, a), 1)
        elif pred == 'ule':
            t = sub(b, a)
        elif pred == 'ugt':
            t = sub(sub(a, b), 1)
        else:
            t = sub(a, b)
        nt = sub(mulc(t, -1), 1)
        if st.entails(t):
            st.record(t)
            return [(st, 1)]
        if st.entails(nt):
            st.record(nt)
            return [(st, 0)]
        s2 = st.copy()
        r = []
        if st.assume_ge(t):
            r.append((st, 1))
        if s2.assume_ge(nt):
            r.append((s2, 0))
        return r

    def compare_top(self, st, x, y, pred):
        """Comparison with one of the largest words: case split."""
        lo = y if pred in ('ult', 'uge') else y + 1
        up = 1 if pred in ('uge', 'ugt') else 0
        r = []
        for v in range(lo, M + 1):
            if not st.known_ne(x, v):
                s2 = st.copy()
                if s2.assume_eq(x, v):
                    r.append((s2, up))
                if not st.assume_ne(x, v):
                    return r
        return r + [(st, 1 - up)]

    def eqtest(self, st, a, b):
        """Returns [(state, bool)]"""
        a = self.model.use(self, st, a)
        b = self.model.use(self, st, b)
        if a == b:
            return [(st, True)]
        pa = isinstance(a, tuple) and a[0] == 'ptr'
        pb = isinstance(b, tuple) and b[0] == 'ptr'
        fa = isinstance(a, tuple) and a[0] == 'fn'
        fb = isinstance(b, tuple) and b[0] == 'fn'
        if fa and fb:
            return [(st, a == b)]
        if (pa or fa) and isinstance(b, int):
            return [(st, False)]
        if (pb or fb) and isinstance(a, int):
            return [(st, False)]
        if pa and pb:
            if a[1] == b[1]:
                return self.eqtest(st, a[2], b[2])
            return self.model.ptr_eq(self, st, a, b)
        if fa or fb:
            e = self.model.fn_eq(st, a, b)
            if e is not None:
                return [(st, e)]
        if pa or pb or fa or fb:
            s2 = st.copy()
            return [(st, True), (s2, False)]
        if not is_num(a) or not is_num(b):
            s2 = st.copy()
            return [(st, True), (s2, False)]
        if isinstance(sub(a, b), int):
            return [(st, sub(a, b) == 0)]
        if st.known_ne(a, b):
            self.sharpen(st, a, b)
            return [(st, False)]
        s2 = st.copy()
        r = []
        if st.assume_eq(a, b):
            r.append((st, True))
        if s2.assume_ne(a, b):
            self.sharpen(s2, a, b)
            r.append((s2, False))
        return r

    def sharpen(self, st, a, b):
        """a != b: a >= b makes that a > b, and the reverse."""
        if not (isinstance(a, int) and a >= SMALL or isinstance(b, int) and b >= SMALL):
            d = sub(a, b)
            for d in (d, mulc(d, -1)):
                if st.entails(d):
                    st.record(scale(sub(d, 1)))
                    return

    def arith(self, st, i):
        a, b = (self.val(st, x) for x in i['o'])
        r = self.binop(st, i['op'], i['t'], a, b, i)
        return r

    i_add = i_sub = i_mul = i_udiv = i_sdiv = i_urem = i_srem = i_shl = i_lshr = i_ashr = i_and = i_or = i_xor = arith

    def binop(self, st, op, ty, a, b, i=None):
        one = lambda v: [(st, v)]
        w = WIDTH.get(ty, 64)
        mask = (1 << w) - 1
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == 'undef':
                if op in ('and', 'or', 'xor') and w == 1:
                    return one(st.fresh())
                return one(('undef',))
        if op == 'and' and isinstance(a, int):
            a, b = b, a
        if op in ('or', 'add', 'mul', 'xor') and isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
        # dirty words: testing the dirty bit is free, anything else is a use
        if isinstance(a, tuple) and a[0] == 'tag':
            if op == 'and' and isinstance(b, int) and b < 8:
                if b == st.DIRTY:
                    return one(b)
                l = st.low3(a)
                if l is not None and not (b & ~st.DIRTY):
                    return one(l & b)
            if op == 'or' and isinstance(b, int) and b == st.DIRTY:
                return one(a)
            a = self.model.use(self, st, a)
        if isinstance(b, tuple) and b[0] == 'tag':
            b = self.model.use(self, st, b)
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = a & mask, b & mask
            sgn = lambda v: v - (1 << w) if v >> (w - 1) else v
            try:
                r = {'add': lambda: sa + sb, 'sub': lambda: sa - sb, 'mul': lambda: sa * sb,
                     'udiv': lambda: sa // sb, 'urem': lambda: sa % sb, 'sdiv': lambda: int(sgn(sa) / sgn(sb)),
                     'srem': lambda: sgn(sa) - int(sgn(sa) / sgn(sb)) * sgn(sb),
                     'shl': lambda: sa << sb if sb < w else 0, 'lshr': lambda: sa >> sb if sb < w else 0,
                     'ashr': lambda: sgn(sa) >> min(sb, w - 1), 'and': lambda: sa & sb, 'or': lambda: sa | sb,
                     'xor': lambda: sa ^ sb}[op]()
            except ZeroDivisionError:
                return one(('undef',))
            return one(r & mask)
        pa = isinstance(a, tuple) and a[0] == 'ptr'
        pb = isinstance(b, tuple) and b[0] == 'ptr'
        if pa and pb and op == 'sub' and a[1] == b[1]:
            return one(sub(a[2], b[2]))
        if pa and not pb and op in ('add', 'sub') and is_num(b):
            return one(('ptr', a[1], add(a[2], b, 1 if op == 'add' else -1)))
        if pb and not pa and op == 'add' and is_num(a):
            return one(('ptr', b[1], add(b[2], a)))
        if pa and isinstance(b, int) and op == 'and':
            if b <= 7:
                return one(0)
            if b >= M - 7:
                return one(a)
            low = (~b) & M
            if low & (low + 1) == 0:     # alignment
                return one(('ptr', a[1], self.align(st, a[2], low + 1, a[1])))
        if pa and isinstance(b, int) and op == 'or' and b < 8:
            return one(('ptr', a[1], add(a[2], b)))
        if not is_num(a) or not is_num(b):
            if op == 'and' and isinstance(b, int) and b == 0:
                return one(0)
            return one(('op', op, a, b))
        if op == 'add':
            return one(add(a, b))
        if op == 'sub':
            return one(sub(a, b))
        if op == 'mul' and isinstance(b, int) and b in (2, 4, 8) and isinstance(a, tuple) and a[0] == 'shr':
            op, b = 'shl', b.bit_length() - 1
        if op == 'mul':
            if isinstance(b, int):
                return one(mulc(a, s64(b)))
            if isinstance(a, int):
                return one(mulc(b, s64(a)))
            return one(('op', 'mul') + tuple(sorted((a, b), key=repr)))
        if op == 'shl':
            if isinstance(b, int):
                c, d = lin(a)
                # (x >> k) << k for a multiple of 2^k gives x back
                if len(d) == 1:
                    (s, k), = d.items()
                    if isinstance(s, tuple) and s[0] == 'shr' and s[2] == b and s[2] <= 3:
                        l = st.low3(s[1])
                        if l is not None and l % (1 << b) == 0:
                            return one(add(mulc(s[1], k), mulc(c, 1 << b)))
                return one(mulc(a, 1 << b))
            if a == 1:
                return one(('op', 'pow2', b))
            return one(('op', 'shl', a, b))
        if op in ('lshr', 'ashr') and isinstance(b, int):
            if op == 'ashr' and ty == 'i64' and self.model.SIGNED:
                return one(('op', 'ashr', a, b))
            return one(shr(a, b))
        if op in ('udiv', 'sdiv') and isinstance(b, int) and b and b & (b - 1) == 0:
            return one(shr(a, b.bit_length() - 1))
        if op in ('urem', 'srem'):
            if isinstance(b, int) and b and b & (b - 1) == 0:
                return self.binop(st, 'and', ty, a, b - 1, i)
            if not isinstance(b, int) and b[0] == 'len':
                return one(mod(a, b))
            if not isinstance(b, int) and b[0] == 'op' and b[1] == 'pow2':
                return one(mod(a, b))
            return one(('op', 'urem', a, b))
        if op == 'and':
            if isinstance(b, int):
                if b == mask:
                    return one(a)
                if b == 0:
                    return one(0)
                l = st.low3(a)
                if b < 8 and l is not None:
                    return one(l & b)
                if b >= M - 7 and l is not None:
                    return one(sub(a, l & ~b & 7))
                if b < 8 or b >= M - 7:
                    # split on the unknown low bits
                    return self.split_low(st, a, b)
                low = (~b) & M
                if low & (low + 1) == 0:
                    return one(self.align(st, a, low + 1, None))
                if b & (b + 1) == 0:
                    return one(mod(a, b + 1))
                return one(('op', 'and', a, b))
            for x, y in ((a, b), (b, a)):
                L = add(y, 1)
                if isinstance(L, tuple) and (L[0] == 'len' or (L[0] == 'op' and L[1] == 'pow2') or self.model.is_pow2(st, L)):
                    return one(mod(x, L))
            return one(('op', 'and') + tuple(sorted((a, b), key=repr)))
        if op == 'or':
            if isinstance(b, int):
                if b == 0:
                    return one(a)
                l = st.low3(a)
                if b < 8 and l is not None:
                    return one(add(a, b & ~l))
                if b < 8 and a[0] == 's':
                    r = []
                    for s2, v in self.split_low(st, a, 7):
                        a2 = s2.g.pop('_split')
                        r.append((s2, add(a2, b & ~v)))
                    return r
            return one(('op', 'or') + tuple(sorted((a, b), key=repr)))
        if op == 'xor':
            if isinstance(b, int) and w == 1:
                # boolean not of an unknown
                s2 = st.copy()
                r = []
                if st.assume_eq(a, 0):
                    r.append((st, 1))
                if s2.assume_ne(a, 0):
                    r.append((s2, 0))
                return r
            l = st.low3(a)
            if isinstance(b, int) and b < 8 and l is not None:
                return one(add(sub(a, l), (l ^ b)))
            if a == b:
                return one(0)
            return one(('op', 'xor') + tuple(sorted((a, b), key=repr)))
        return one(('op', op, a, b))

    def align(self, st, a, q, region):
        if isinstance(a, int):
            return a & ~(q - 1)
        return sub(a, mod(a, q)) if region is None else ('op', 'align', a, q)

    def split_low(self, st, a, m):
        """a & m for a term whose low bits are unknown: case split over the low bits."""
        if a[0] != 's':
            return [(st, ('op', 'and', a, m))]
        r = []
        bits = m & 7 if m < 8 else (~m) & 7
        for l in sorted({x & bits for x in range(8)}):
            s2 = st.copy()
            # represent a as base + l with base's relevant bits zero: only done for all three bits
            pass
        low, ne = st.info.get(a, (None, frozenset()))
        for l in range(8):
            s2 = st.copy()
            b = s2.fresh(low=0)
            if not s2.subst(a, add(b, l)):
                continue
            v = l & m if m < 8 else sub(add(b, l), l & ~m & 7)
            s2.g['_split'] = add(b, l)
            r.append((s2, v))
        for s2, _ in r:
            if m != 7:
                s2.g.pop('_split', None)
        return r

    # ---- calls ----------------------------------------------------------------------
    def call(self, st, ins, work, out):
        """Returns True to go on with st."""
        cal = self.val(st, ins['callee'])
        args = [self.val(st, x) for x in ins.get('o', [])] if 'o' in ins else []
        name = cal[1] if isinstance(cal, tuple) and cal[0] == 'fn' else None
        f = self.p.fn.get(name) if name else None
        r = self.model.call(self, st, name, f, cal, args, ins)
        if r is None:
            if f is None or 'blocks' not in f or not self.model.inline(f):
                r = self.model.opaque(self, st, name, f, cal, args, ins)
        if r is not None and r[0] == 'into':        # the model calls something else in its place
            name, args = r[1], r[2]
            f = self.p.fn[name]
            r = None
        if r is not None:
            keep = None
            for item in r:
                s2, v = item[0], item[1]
                kind = item[2] if len(item) > 2 else 'ret'
                if kind == 'throw':
                    ok = self.unwind(s2, out, inframe=True)
                elif kind == 'stop':
                    ok = False
                else:
                    fr = s2.frames[-1]
                    fr.loc[ins['i']] = v
                    if ins['op'] == 'invoke':
                        ok = self.goto(s2, ins['succ'][0])
                    else:
                        fr.ip += 1
                        ok = True
                if ok:
                    if s2 is st:
                        keep = st
                    else:
                        work.append(s2)
            return keep is not None
        if len(st.frames) > self.MAXDEPTH:
            raise AnalysisError('call depth exceeded at %s' % self.p.loc(ins))
        if sum(1 for fr in st.frames if fr.fn == name) >= self.model.max_recursion(name):
            raise AnalysisError('unsupported recursion through %s' % f['dem'])
        self.fns.add(name)
        fr = st.frames[-1]
        la = self.p.live_after(fr.fn, fr.bb, fr.ip)
        if ins['op'] == 'invoke':
            L = self.p.live(fr.fn)
            la = L['lo'][fr.bb]
        fr.loc = {k: v for k, v in fr.loc.items() if k in la}
        bv = ins.get('byval', [])
        newargs = {}
        for k, a in enumerate(args[:len(f['args'])]):
            newargs[k] = a
        for k in bv:
            src = args[k]
            dst = ('al', len(st.frames), name, -1 - k)
            sz = f['args'][k][3]
            self.model.copy_mem(self, st, ('ptr', dst, 0), src, sz)
            newargs[k] = ('ptr', dst, 0)
        st.frames.append(Frame(name, loc=newargs))
        return True


# ---- skeletons, matching and anti-unification of numeric positions --------------------
SMALL = 1 << 40


def _isnum(t):
    return (isinstance(t, int) and not isinstance(t, bool) and (t < SMALL or t > M - SMALL + 1) and t < M - (1 << 20)) or \
        (isinstance(t, tuple) and t and t[0] in ('+', 's') and True)


def numatom(a):
    return a[0] == 's' and not isinstance(a[1], str) or a[0] == 'len'


def skeleton(snap):
    """Split a snapshot into a shape and the list of its numeric offsets.

    Offsets are the constants of affine terms (and small plain constants) at value positions; symbols stay in the shape."""
    nums = []

    def go(t):
        if isinstance(t, bool) or t is None or isinstance(t, str):
            return t
        if isinstance(t, int):
            if 0 <= t < SMALL:
                nums.append((t, ()))
                return '#'
            return t
        if isinstance(t, frozenset):
            return ('fs',) + tuple(go(x) for x in sorted(t, key=_fskey))
        if isinstance(t, tuple):
            if t and t[0] == 's' and len(t) == 2:
                if isinstance(t[1], str):
                    return t
                nums.append((0, ((t, 1),)))
                return '#'
            if t and t[0] == '+':
                # symbols and capacities are part of the number; structured atoms part of the shape
                sy = tuple((a, k) for a, k in t[2] if numatom(a))
                ot = tuple((go(a), k) for a, k in t[2] if not numatom(a))
                c = t[1]
                big = 0
                if SMALL <= c <= M - SMALL:
                    big, c = c, 0
                nums.append((s64(c), sy))
                return ('+#', big, ot) if (ot or big) else '#'
            if t and t[0] == 'len' and len(t) == 2:
                nums.append((0, ((t, 1),)))
                return '#'
            if t and t[0] in ('T', 'P', 'N') and len(t) == 2 and isinstance(t[1], (int, str)):
                return t
            if t and t[0] == 'shr':
                return ('shr', go(t[1]) if t[1][0] != 'len' else t[1], t[2])
            if t and t[0] == 'mod':
                return ('mod', go(t[1]), go(t[2]) if isinstance(t[2], tuple) and t[2][0] != 'len' else t[2])
            if t and t[0] == 'al':
                return t
            if t and t[0] == 'op':
                return ('op', t[1]) + tuple(go(x) if isinstance(x, tuple) else x for x in t[2:])
            return tuple(go(x) for x in t)
        return t
    fr, rest, ne, le, log = snap
    shape_fr = []
    for fn, bb, ip, loc in fr:
        shape_fr.append((fn, bb, ip, tuple((k, go(v)) for k, v in loc)))
    mem, info, slots, tabs, obs, pend, g = rest
    sh = [tuple(((k[0], k[1]) if True else k, go(v)) for k, v in mem)]
    # info: symbol attributes; keep only 'low' and ne sets keyed by symbol position
    inf = tuple((s, a) for s, a in info)
    sh.append(('info', inf))
    sh.append(tuple((go_key(k, go), go(v)) for k, v in slots))
    sh.append(tuple((k, go(v)) for k, v in tabs))
    sh.append(tuple((go_key(k, go), go(v)) for k, v in obs))
    sh.append(tuple((go_key(k, go), go(v)) for k, v in pend))
    sh.append(tuple((k, go(v)) for k, v in g))
    n1 = len(nums)
    lg = tuple(go(e) for e in log)
    return (tuple(shape_fr), tuple(sh), lg), tuple(nums) + (('facts', ne, le),)


def go_key(k, go):
    return go(k)


def _fskey(t):
    return repr(t)


def match(g, n):
    """The substitution of g's numeric symbols that gives n's numbers, or None."""
    sub_ = {}
    eqs = [(a, b) for a, b in zip(g[:-1], n[:-1])]
    pending = eqs
    while pending:
        nxt = []
        prog = False
        for (ca, sa), (cb, sb) in pending:
            c = ca
            d = {}
            unb = []
            for s, k in sa:
                if s in sub_:
                    c2, d2 = sub_[s]
                    c += c2 * k
                    for x, q in d2.items():
                        d[x] = d.get(x, 0) + q * k
                else:
                    unb.append((s, k))
            d = {x: q for x, q in d.items() if q}
            if not unb:
                if c != cb or d != dict(sb):
                    return None
                prog = True
            elif len(unb) == 1:
                r = dict(sb)
                for x, q in d.items():
                    r[x] = r.get(x, 0) - q
                k = unb[0][1]
                if (cb - c) % k or any(q % k for q in r.values()):
                    return None
                sub_[unb[0][0]] = ((cb - c) // k, {x: q // k for x, q in r.items() if q})
                prog = True
            else:
                nxt.append(((ca, sa), (cb, sb)))
        if not prog:
            return None
        pending = nxt
    return sub_


def subsumes(g, n):
    """Is the instance n covered by the pattern g (one substitution of g's free numeric symbols)?"""
    gf, nf = g[-1], n[-1]
    sub_ = match(g, n)
    if sub_ is None:
        return False

    # facts of the pattern must hold in the instance
    inst = None
    def f(x):
        if x in sub_:
            c, d = sub_[x]
            return mk(c, d)
        return x
    for t in gf[1]:
        r = rebuild(t, f)
        if r not in nf[1] and mulc(r, -1) not in nf[1] and not (isinstance(r, int) and r != 0):
            return False
    for t in gf[2]:
        r = rebuild(t, f)
        if isinstance(r, int):
            if s64(r) < 0:
                return False
            continue
        if r not in nf[2]:
            # simple weakening: same atoms, larger constant
            c, d = lin(r)
            if not any(lin(q)[1] == d and s64(lin(q)[0]) <= s64(c) for q in nf[2]):
                if inst is None:
                    inst = State()
                    inst.le = nf[2]
                if not inst.entails(r, 1):
                    return False
    return True


def split_diff(k, basis):
    """The difference k as a sum of multiples of the differences in the basis: [(k0, r)], or None."""
    from fractions import Fraction
    rows = [('c',)] + sorted({t for b in list(basis) + [k] for t, _ in b[1]}, key=repr)
    col = lambda b: [Fraction(b[0] if t == ('c',) else dict(b[1]).get(t, 0)) for t in rows]
    cols = [col(b) for b in basis]
    want = col(k)
    n = len(cols)
    mat = [[c[i] for c in cols] + [want[i]] for i in range(len(rows))]
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, len(mat)) if mat[i][c]), None)
        if p is None:
            continue
        mat[r], mat[p] = mat[p], mat[r]
        q = mat[r][c]
        mat[r] = [x / q for x in mat[r]]
        for i in range(len(mat)):
            if i != r and mat[i][c]:
                q = mat[i][c]
                mat[i] = [x - q * y for x, y in zip(mat[i], mat[r])]
        piv.append(c)
        r += 1
    if any(row[n] for row in mat[r:]):
        return None
    res = [(list(basis)[c], mat[i][n]) for i, c in enumerate(piv) if mat[i][n]]
    return [(b, int(x)) for b, x in res] if res and all(x.denominator == 1 for _, x in res) else None


def antiunify(a, b, st, general=False, opposite=True, ratio=False):
    """Least general generalisation of two number vectors of the same shape."""
    if len(a) != len(b):
        return None
    nxt = max([st.next] + [x[1] + 1 for v in (a, b) for _, sy in v[:-1] for x, _ in sy if x[0] == 's' and not isinstance(x[1], str)])
    if general:
        sub_ = match(a, b)
        if sub_ is not None:        # only the facts need to be weakened
            f = lambda x: mk(*sub_[x]) if x in sub_ else x
            sb = State()
            sb.le = b[-1][2]
            ne = frozenset(t for t in a[-1][1] if any(rebuild(t, f) in (u, mulc(u, -1)) for u in b[-1][1]))
            cand = set(a[-1][2])
            for t in a[-1][2]:
                c, d = lin(t)
                if s64(c) < 0:
                    cand.add(mk(0, d))
            le = frozenset(t for t in cand if sb.entails(rebuild(t, f), 1))
            return a[:-1] + (('facts', ne, prune(le)),), nxt
    m = {}
    out = []
    vals = []       # per new symbol: its value in either state
    exprs = []      # terms over new symbols with their value in either state

    def diff(x, y):
        (ca, sa), (cb, sb) = x, y
        da, db = dict(sa), dict(sb)
        return cb - ca, tuple(sorted((k, db.get(k, 0) - da.get(k, 0)) for k in set(da) | set(db) if db.get(k, 0) != da.get(k, 0)))
    # counters that advance in step are expressed by the slowest of them
    consts = {diff(x, y)[0] for x, y in zip(a[:-1], b[:-1]) if x != y and not diff(x, y)[1] and not x[1]}
    consts = sorted(consts, key=lambda d: (abs(d), d < 0))
    lead = None
    if consts:
        d0 = consts[0]
        ca0 = next(x[0] for x, y in zip(a[:-1], b[:-1]) if x != y and diff(x, y) == (d0, ()) and not x[1])
        q = 1
        while abs(d0) >= 8 and d0 % (2 * q) == 0:
            q *= 2
        if s64(ca0) < 0:
            q = -q          # symbols are not negative
        lead = (('s', nxt), d0, ca0, q)
        nxt += 1
        vals.append((lead[0], ca0 // q, {}, (ca0 + d0) // q, {}))
    if ratio:       # the simplest counters first
        todo = {}
        for x, y in zip(a[:-1], b[:-1]):
            k = diff(x, y)
            if x != y and k not in todo and not (lead and not k[1]):
                todo[k] = (x, y)
        for k in sorted(todo, key=lambda k: (len(k[1]), abs(k[0]) + sum(abs(q) for _, q in k[1]), repr(k))):
            if split_diff(k, list(m) + ([(lead[1], ())] if lead else [])) is None:
                (ca, sa), (cb, sb) = todo[k]
                m[k] = (('s', nxt), ca, dict(sa))
                vals.append((('s', nxt), ca, dict(sa), cb, dict(sb)))
                exprs.append((('s', nxt), mk(ca, dict(sa)), mk(cb, dict(sb))))
                nxt += 1
    for (ca, sa), (cb, sb) in zip(a[:-1], b[:-1]):
        if ca == cb and sa == sb:
            out.append((ca, sa))
            continue
        da, db = dict(sa), dict(sb)
        keyd = diff((ca, sa), (cb, sb))
        if lead and not keyd[1] and keyd[0] % lead[1] == 0 and (opposite or keyd[0] // lead[1] > 0):
            s, d0, ca0, q = lead
            k = keyd[0] // d0 * q       # value = ca + k * (s - ca0 // q)
            items = dict(da)
            items[s] = k
            o = (ca - k * (ca0 // q), tuple(sorted(items.items(), key=repr)))
            out.append(o)
            exprs.append((mk(o[0], items), mk(ca, da), mk(cb, db)))
            continue
        if ratio and keyd not in m:
            # a combination of counters that are there already (an address and the indexes it is computed from)
            parts = split_diff(keyd, list(m) + ([(lead[1], ())] if lead else []))
            if parts is not None:
                c, items = ca, dict(da)
                for k0, r in parts:
                    if k0 in m:
                        s, c0, d0 = m[k0]
                    else:
                        s, c0, d0, r = lead[0], lead[2] // lead[3], {}, r * lead[3]
                    c -= r * c0
                    for x, q in d0.items():
                        items[x] = items.get(x, 0) - r * q
                    items[s] = items.get(s, 0) + r
                o = (c, tuple(sorted(((x, q) for x, q in items.items() if q), key=repr)))
                out.append(o)
                exprs.append((mk(o[0], dict(o[1])), mk(ca, da), mk(cb, db)))
                continue
        if keyd not in m:
            m[keyd] = (('s', nxt), ca, da)
            vals.append((('s', nxt), ca, da, cb, db))
            exprs.append((('s', nxt), mk(ca, da), mk(cb, db)))
            nxt += 1
            out.append((0, ((m[keyd][0], 1),)))
        else:
            s, c0, d0 = m[keyd]
            r = dict(da)
            for k, q in d0.items():
                r[k] = r.get(k, 0) - q
            items = {k: q for k, q in r.items() if q}
            items[s] = 1
            out.append((ca - c0, tuple(sorted(items.items(), key=repr))))
    # facts: those common to both, and those that hold of the generalised value in both
    ne = a[-1][1] & b[-1][1]
    sa_, sb_ = State(), State()
    sa_.le, sb_.le = a[-1][2], b[-1][2]
    cand = set(a[-1][2]) | set(b[-1][2])
    if general:     # a generalised state only ever loses facts
        cand = set(a[-1][2])
    new = [(s, mk(ca, da), mk(cb, db)) for s, ca, da, cb, db in vals]
    for s, va, vb in new:       # a counter that has only been seen to grow stays above its first value
        if isinstance(va, int) and isinstance(vb, int):
            cand.add(sub(s, min(s64(va), s64(vb)) & M))
    exprs = list(dict.fromkeys(exprs))
    if not general:             # ... and one that runs between 0 and a capacity stays there
        caps = set()
        for f in a[-1][1] | a[-1][2]:
            caps |= {x for x in lin(f)[1] if x[0] == 'len' or x[0] == 's' and isinstance(x[1], str)}
        for e in {e[0] for e in new}:
            for x in caps:
                cand.add(sub(x, e))
    for f in list(cand):
        for s, va, vb in exprs:
            for base, v in ((sa_, va), (sb_, vb)):
                if f not in base.le or general and base is sb_:
                    continue
                # f mentions the value v with coefficient k: put the new unknown in its place
                fd = lin(f)[1]
                ks = {q for x, q in fd.items() if x in lin(v)[1]}
                if not lin(v)[1]:
                    ks = {1 if q < 0 else -1 for q in fd.values() if abs(q) == 1}
                for k in ks:
                    cand.add(add(sub(f, mulc(v, k)), mulc(s, k)))
    le = set()
    for f in list(cand):
        c, d = lin(f)
        if s64(c) < 0:
            cand.add(mk(0, d))
    for f in cand:
        if isinstance(f, int):
            continue
        fa = rebuild(f, lambda x: va_of(new, x, 1))
        fb = rebuild(f, lambda x: va_of(new, x, 2))
        if State().entails(f, 1):
            continue
        if sa_.entails(fa, 1) and sb_.entails(fb, 1):
            le.add(f)
    return tuple(out) + (('facts', ne, prune(le)),), nxt


def va_of(new, x, k):
    for e in new:
        if e[0] == x:
            return e[k]
    return x


def apply_nums(st, it):
    def go(t):
        if isinstance(t, bool) or t is None or isinstance(t, str):
            return t
        if isinstance(t, int):
            if 0 <= t < SMALL:
                c, s = next(it)
                return mk(c, dict(s))
            return t
        if isinstance(t, frozenset):
            return frozenset([go(x) for x in sorted(t, key=_fskey)])
        if isinstance(t, tuple):
            if t and t[0] == 's' and len(t) == 2:
                if isinstance(t[1], str):
                    return t
                c, s = next(it)
                return mk(c, dict(s))
            if t and t[0] == '+':
                ot = [(go(a), k) for a, k in t[2] if not numatom(a)]
                c0 = t[1]
                big = c0 if SMALL <= c0 <= M - SMALL else 0
                c, s = next(it)
                r = mk(c + big, dict(s))
                for a, k in ot:
                    r = add(r, mulc(a, k))
                return r
            if t and t[0] == 'len' and len(t) == 2:
                c, s = next(it)
                return mk(c, dict(s))
            if t and t[0] in ('T', 'P', 'N') and len(t) == 2 and isinstance(t[1], (int, str)):
                return t
            if t and t[0] == 'shr':
                return shr(go(t[1]) if t[1][0] != 'len' else t[1], t[2])
            if t and t[0] == 'mod':
                x = go(t[1])
                y = go(t[2]) if isinstance(t[2], tuple) and t[2][0] != 'len' else t[2]
                return mod(x, y)
            if t and t[0] == 'al':
                return t
            if t and t[0] == 'op':
                return ('op', t[1]) + tuple(go(x) if isinstance(x, tuple) else x for x in t[2:])
            return tuple(go(x) for x in t)
        return t
    for fr in st.frames:
        loc = {}
        for k, v in sorted(fr.loc.items()):
            loc[k] = go(v)
        fr.loc = loc
    R = lambda d: sorted(d.items(), key=repr)
    st.mem = {k: go(v) for k, v in R(st.mem)}
    st.slots = {go(k): go(v) for k, v in R(st.slots)}
    st.tabs = {k: go(v) for k, v in R(st.tabs)}
    st.obs = {go(k): go(v) for k, v in R(st.obs)}
    st.pend = {go(k): go(v) for k, v in R(st.pend)}
    st.g = {k: go(v) for k, v in R(st.g)}
    st.log = tuple(go(e) for e in st.log)
    f = next(it)
    st.ne, st.le = f[1], f[2]
