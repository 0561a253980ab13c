"""Entry points of the map and what each must do."""
import sys
import time
from terms import *
from interp import *
from pmap import *

H = ('ptr', ('H',), 0)


class MapCheck:
    def __init__(self, prog):
        self.p = prog
        self.c = Consts(prog)
        self.c.initonly = set(self.c.gv)
        self.find_written()
        self.violations = []
        self.stats = {}
        self.defs = {}
        self.errors = []
        self.results = {}
        self.claims, self.exhausts, self.anchors = [], [], []
        self.define()

    def find_written(self):
        """Globals that some function other than the initialisers changes are not constants."""
        init = {c if isinstance(c, str) else c[-1] for c in self.p.ctors}
        for n, f in self.p.fn.items():
            if n in init:
                continue
            for b in f.get('blocks', ()):
                for i in b:
                    if i['op'] == 'store' and i['o'][1][0] == 'g':
                        self.c.initonly.discard(i['o'][1][1])
                    elif i['op'] in ('cmpxchg', 'atomicrmw') and i['o'][0][0] == 'g':
                        self.c.initonly.discard(i['o'][0][1])
                    elif i['op'] in ('call', 'invoke'):
                        for a in i.get('o', []):
                            if a[0] == 'g' and a[1] in self.c.initonly and not self.p.gl[a[1]].get('const'):
                                g = self.p.gl[a[1]]
                                # an address passed to a function: a constant unless it is an atomic object
                                if 'atomic' in g.get('ty', '') or g.get('ty', '')[:1] == '{':
                                    self.c.initonly.discard(a[1])

    def fnptr(self, name):
        it = Interp(self.p, BaseModel(self.c))
        r = it.run(name, [])
        v = r[0][2]
        return v[1] if isinstance(v, tuple) and v[0] == 'fn' else None

    def base_state(self, m):
        st = State()
        st.next = 100
        return st

    def sym(self, st, name, ne=(), low=0):
        s = ('s', name)
        st.info[s] = (low, frozenset(ne))
        return s

    def run(self, label, entry, spec, setup, finish):
        """Register an entry point."""
        self.defs[label] = (entry, spec, setup, finish)

    def analyse(self, label):
        entry, spec, setup, finish = self.defs[label]
        t0 = time.time()
        m = spec.model(self.c, spec)
        m.entry = label
        m.fnCAS = self.fnCAS
        it = Interp(self.p, m)
        st = self.base_state(m)
        args = setup(m, st)
        r = dict(label=label, entry=entry)
        outs = it.run(entry, args, st)
        rets = 0
        for s, kind, v in outs:
            if hasattr(m, "advance_prefix"):
                m.advance_prefix(s)
            self.cur = s
            finish(m, it, s, kind, v)
            rets += 1
        if rets == 0 and not it.partial:
            raise AnalysisError('no path through %s reaches its end' % label)
        blocks = sum(len(self.p.fn[f]['blocks']) for f in {f for f, _ in it.cover})
        return dict(label=label, violations=m.violations, claims=getattr(m, 'claims', []), exhausts=getattr(m, 'exhausts', []),
                    anchors=getattr(m, 'anchors', []),
                    stats=dict(m.stats), states=it.nstates, steps=it.steps, exits=rets,
                    functions=sorted({(self.p.fn[f].get('name') or f) for f in it.fns}),
                    seconds=round(time.time() - t0, 2))

    def analyse_all(self, labels, jobs=8):
        global _MC
        _MC = self
        labels = [l for l in self.defs if l in labels]
        labels.sort(key=lambda l: l not in self.SLOW)
        if jobs == 1 or len(labels) == 1:
            res = [_work(l) for l in labels]
        else:
            import multiprocessing
            with multiprocessing.get_context('fork').Pool(min(jobs, len(labels))) as pool:
                res = pool.map(_work, labels, chunksize=1)
        for r in res:
            if 'error' in r:
                self.errors.append((r['label'], r['error']))
                continue
            self.results[r['label']] = r
            self.violations += r['violations']
            self.claims += r['claims']
            self.exhausts += r['exhausts']
            self.anchors += r['anchors']
            for k, n in r['stats'].items():
                self.stats[k] = self.stats.get(k, 0) + n

    SLOW = ('get', 'containsKey', 'helpCopy', 'replace', 'remove(key,value)')

    # ---- violations at an exit ------------------------------------------------------------
    def bad(self, m, props, rule, msg, f):
        fn = self.p.fn[f]
        wr = fn.get('wraps') or [f, fn.get('line', 0), fn.get('file')]
        w = '%s:%s' % (self.p.files[wr[2]] if isinstance(wr[2], int) else '?', wr[1])
        for v in m.violations:
            if v.rule == rule and v.entry == m.entry:
                v.props = sorted(set(v.props) | set(props))
                return
        m.violations.append(Violation(list(props), rule, msg, w, [wr[0]], m.entry))
        if Interp.TRACE:
            st = self.cur
            print('TRACE', rule, msg, st.trail[-60:], '\n  tabs', st.tabs, '\n  slots', st.slots, '\n  obs', st.obs, '\n  pend', st.pend, '\n  g', st.g, '\n log', st.log, '\n le', st.le)

    def common_exit(self, m, it, s, kind, v, fsym):
        for n, tb in s.tabs.items():
            if tb[4] != 0 and not (s.entails(tb[4]) and s.entails(mulc(tb[4], -1))):
                self.bad(m, ['C04'], 'uncounted', 'returns with retired slots that were not counted (%s)' % m.sh(tb[4]), fsym)
        for k, (stg, u) in s.pend.items():
            if k[3] == 'own':
                self.bad(m, ['C07'], 'return-undurable', 'returns although the %s %s it wrote has not been written back and fenced' %
                         ('key' if k[1] == 'k' else 'value', m.sh(k[2])), fsym)
            elif u and stg < 2:
                self.bad(m, ['C06'], 'return-depends', 'returns a result depending on the %s %s, which has not been written back and fenced' %
                         ('key' if k[1] == 'k' else 'value', m.sh(k[2])), fsym)

    # ---- operations ------------------------------------------------------------------------
    def op_exit(self, op, ret, props, fsym):
        def fin(m, it, s, kind, v):
            if kind != 'ret':
                return
            self.common_exit(m, it, s, kind, v, fsym)
            g = s.g
            own = g['key']
            new, old = g.get('new'), g.get('old')
            VI, VT = m.VI, m.VT
            absent = lambda t: t in (VI, VT)
            eff = [e for e in s.log if e[0] == 'cas']
            dele = g.get('delegated')
            if len(eff) + (1 if dele else 0) > 1:
                self.bad(m, ['C01', 'C02'] if op in ('increment', 'update') else ['C01'], 'two-effects', 'takes effect twice', fsym)
                return
            # size
            exp = {}
            for e in eff:
                S, E, N = e[1:]
                d = 0
                if op != 'copy':
                    if absent(E) and N != VT:
                        d = 1
                    elif not absent(E) and N == VT:
                        d = -1
                exp[S[1][1]] = d & M
            for n, tb in list(s.tabs.items()):
                if sub(tb[3], exp.get(n, 0)) != 0:
                    self.bad(m, ['C12'], 'count', 'changes the element count by %s where it should change by %s (%s)' %
                             (m.sh(tb[3]), s64(exp.get(n, 0)), ', '.join('%s to %s' % (m.sh(e[2]), m.sh(e[3]) if e[3] != 'f' else 'function result') for e in eff) or 'nothing stored'), fsym)
            for n, d in exp.items():
                if d and n not in s.tabs:
                    self.bad(m, ['C12'], 'count', 'does not change the element count', fsym)

            def cond(o, raw=None):
                """Must (True), must not (False) or may (None) the operation store, given the binding o?"""
                if op in ('get', 'contains'):
                    return False
                if op == 'put':
                    return None if o is not None and m.same(o, new) else True
                if op == 'putIfAbsent':
                    return o is None
                if op == 'remove':
                    return True if o is not None else None
                if op == 'remove2':
                    if o is None or s.known_ne(o, old):
                        return False
                    return True if m.same(o, old) else '?'
                if op == 'replace':
                    if o is None or s.known_ne(o, old):
                        return False
                    if not m.same(o, old):
                        return '?'
                    return None if m.same(old, new) else True
                if op in ('increment', 'update'):
                    return True
                if op == 'copy':
                    return raw == VI
            P2 = props
            if eff:
                S, E, N = eff[0][1:]
                o = None if absent(E) else E
                c = cond(o, E)
                if c is False or c == '?':
                    self.bad(m, props + (['C04'] if op == 'copy' else []), 'stored-against-condition',
                             'replaces %s although the condition of the operation does not hold for it' % m.sh(E), fsym)
                if op == 'increment':
                    want = add(E, 8) if o is not None else 8
                    want = add(E, self.unit) if o is not None else self.unit
                elif op == 'update':
                    want = 'f'
                elif op in ('remove', 'remove2'):
                    want = VT
                else:
                    want = new
                if N != want and not (is_num_(N) and is_num_(want) and m.same(N, want)):
                    self.bad(m, props, 'stored-wrong', 'stores %s instead of %s over %s' % (m.sh(N), m.sh(want), m.sh(E)), fsym)
                cands = [(o, E)]
            elif dele:
                cands = [(dele[1], None)]
            else:
                cands = []
                for S, vs in s.obs.items():
                    k = m.fact(s, S)[0]
                    if k is not None and m.same(k, own):
                        for x in sorted(vs, key=repr):
                            cands.append((None if absent(x) else x, x))
                if g.get('empty'):
                    cands.append((None, VT))
                if g.get('mism') and op in ('remove2', 'replace'):
                    cands.append(('mism', None))
                good = []
                for o, raw in cands:
                    c = False if o == 'mism' else cond(o, raw)
                    if c is False or c is None:
                        good.append((o, raw))
                seen = cands
                cands = good

            def retok(o):
                if ret is None:
                    return True
                r = ret(m, s, o, v)
                return r
            if any(retok(o) for o, raw in cands):
                return
            if not eff and not dele and 'nullAt' in g and op not in ('increment', 'update', 'put', 'putIfAbsent', 'copy') and retok(None):
                if not g.get('sealed'):
                    m.exhausts.append((m.entry, m.bounds(s, g['pfx'], +1), self.entryloc(fsym)))
                return
            what = m.sh(v) if v is not None else 'nothing'
            if eff:
                self.bad(m, props, 'result', 'returns %s after replacing %s by %s' % (what, m.sh(eff[0][2]), m.sh(eff[0][3])), fsym)
            elif dele:
                self.bad(m, props, 'result', 'returns %s although the successor table was found to hold %s' % (what, m.sh(dele[1]) if dele[1] is not None else 'no binding'), fsym)
            else:
                obs = ', '.join('no binding' if o is None else m.sh(o) for o, raw in seen) or 'nothing'
                pr = props + (['C05'] if op in ('get', 'contains') and not seen else []) + (['C04'] if op == 'copy' else [])
                self.bad(m, pr, 'result', 'returns %s without having stored anything, having observed %s for the key' % (what, obs), fsym)
        return fin

    def entryloc(self, f):
        fn = self.p.fn[f]
        return (fn.get('wraps') or [fn.get('name') or f])[0]

    def wrapped(self, name):
        """The repository function an entry point calls."""
        return name

    def define(self):
        p, c = self.p, self.c
        self.fnCAS = self.fnptr('vf_fn_CASvalue')
        self.fnInc = self.fnptr('vf_fn_increment')
        self.unit = 1 << c.k['bits']
        s = c.s
        KNE = (s['KINITIAL'], s['KTOMBSTONE'])
        VNE = tuple(s[n] for n in ('VINITIAL', 'VTOMBSTONE', 'MATCH_ANY', 'NO_MATCH_OLD'))

        def setup(op, names, argf):
            def f(m, st):
                g = st.g
                g['op'] = op
                for n in names:
                    g[n] = self.sym(st, n.upper(), KNE if n == 'key' else VNE)
                return argf(m, st)
            return f
        val = lambda m, st, o, v: m.same(v, m.VI if o is None else o) if o != 'mism' and is_num_(v) else False

        def flag(pred):
            def r(m, st, o, v):
                e = pred(m, st, o)
                return e is not None and v == (1 if e else 0)
            return r

        def eqold(m, st, o):
            if o is None or o == 'mism':
                return False
            if m.same(o, st.g['old']):
                return True
            return False if st.known_ne(o, st.g['old']) else None
        live = lambda m, st, o: o is not None
        E = self.run
        W = self.wrapped
        A = lambda *n: (lambda m, st: [H] + [st.g[x] for x in n])
        E('put', 'vf_put', Spec(), setup('put', ['key', 'new'], A('key', 'new')), self.op_exit('put', val, ['C01'], W('vf_put')))
        E('putIfAbsent', 'vf_putIfAbsent', Spec(), setup('putIfAbsent', ['key', 'new'], A('key', 'new')), self.op_exit('putIfAbsent', val, ['C01'], W('vf_putIfAbsent')))
        E('remove', 'vf_remove', Spec(), setup('remove', ['key'], A('key')), self.op_exit('remove', flag(live), ['C01'], W('vf_remove')))
        E('remove(key,value)', 'vf_remove2', Spec(), setup('remove2', ['key', 'old'], A('key', 'old')), self.op_exit('remove2', flag(eqold), ['C01'], W('vf_remove2')))
        E('replace', 'vf_replace', Spec(), setup('replace', ['key', 'old', 'new'], A('key', 'old', 'new')), self.op_exit('replace', flag(eqold), ['C01'], W('vf_replace')))

        def upd(m, st):
            st.g['fn'] = ('s', 'FN')
            st.info[('s', 'FN')] = (None, frozenset((0,)))
            return [H, st.g['key'], st.g['new'], ('s', 'FN')]
        E('update', 'vf_update', Spec(), setup('update', ['key', 'new'], upd), self.op_exit('update', val, ['C02'], W('vf_update')))
        E('increment', 'vf_update', Spec(), setup('increment', ['key', 'new'], lambda m, st: [H, st.g['key'], st.g['new'], ('fn', self.fnInc)]),
          self.op_exit('increment', val, ['C02'], W('vf_update')))
        E('get', 'vf_get', Spec(may_claim=False), setup('get', ['key'], A('key')), self.op_exit('get', val, ['C01'], W('vf_get')))
        E('containsKey', 'vf_containsKey', Spec(may_claim=False), setup('contains', ['key'], A('key')), self.op_exit('contains', flag(live), ['C01'], W('vf_containsKey')))

        def copy(m, st):
            T = m.new_shared(st)
            return [H, ('ptr', T, 0), st.g['key'], st.g['new'], m.VI, ('fn', self.fnCAS)]
        E('carry-over', 'vf_putIfMatch', Spec(), setup('copy', ['key', 'new'], copy), self.op_exit('copy', None, ['C04', 'C01'], W('vf_putIfMatch')))

        # ---- migration
        def cs(m, st):
            T0, T1 = m.new_shared(st), m.new_shared(st)
            m.settab(st, T0[1], succ=T1)
            i = self.sym(st, 'I', low=None)
            st.le = frozenset([sub(sub(('len', T0[1]), i), 1)])
            st.g['op'] = 'copySlot'
            st.g['T'] = T0
            return [H, i, ('ptr', T0, 0), ('ptr', T1, 0)]
        fs = W('vf_copySlot')

        def cse(m, it, s, kind, v):
            if kind != 'ret':
                return
            T = s.g['T']
            S = ('S', T, ('s', 'I'))
            unc = m.tab(s, T[1])[4]
            if not (is_num_(v) and sub(unc, v) == 0):
                self.bad(m, ['C04'], 'retired-report', 'reports %s although it retired %s slot(s)' % (m.sh(v), m.sh(unc)), fs)
            if m.fact(s, S)[1][0] != 'prime':
                self.bad(m, ['C04'], 'not-retired', 'returns without the slot being retired', fs)
            m.settab(s, T[1], unc=0)
            self.common_exit(m, it, s, kind, v, fs)
        E('copySlot', 'vf_copySlot', Spec(nocut=('copySlot',)), cs, cse)

        def hc(m, st):
            T0 = m.new_shared(st)
            st.g['T'] = T0
            st.g['op'] = 'help'
            return [H, ('ptr', T0, 0)]
        fh = W('vf_helpCopy')

        def hce(m, it, s, kind, v):
            if kind != 'ret':
                return
            if v != ('ptr', s.g['T'], 0):
                self.bad(m, ['C04', 'C05'], 'help-result', 'returns another table than the one it was given', fh)
            self.common_exit(m, it, s, kind, v, fh)
        E('helpCopy', 'vf_helpCopy', Spec(nocut=('helpCopy',)), hc, hce)

        def rz(m, st):
            T0 = m.new_shared(st)
            st.g['table'] = T0
            st.g['op'] = 'resize'
            return [H, ('ptr', T0, 0)]
        fr = W('vf_resize')

        def rze(m, it, s, kind, v):
            if kind != 'ret':
                return
            T = s.g['table']
            tb = m.tab(s, T[1])
            if tb[1] is None or v != ('ptr', tb[1], 0):
                self.bad(m, ['C10'], 'resize-result', 'returns %s, which is not the installed successor' % m.sh(v), fr)
            elif m.tab(s, tb[1][1])[2] == 'pv':
                self.bad(m, ['C10'], 'resize-private', 'returns a table that was not installed', fr)
            self.common_exit(m, it, s, kind, v, fr)
        E('resize', 'vf_resize', Spec(nocut=('resize',)), rz, rze)
        import storage
        storage.define(self)
        import recovery
        recovery.define(self)

    def agree(self):
        """Lookups and updates agree on where a search starts and how far it goes."""
        names = set()
        for e, a, own, w in self.anchors:
            names.add(rebuild_key(a, own))
        if len(names) > 1:
            by = {}
            for e, a, own, w in self.anchors:
                by.setdefault(rebuild_key(a, own), []).append((e, w))
            least = min(by.items(), key=lambda x: len(x[1]))
            self.violations.append(Violation(['C05'], 'anchor', 'operations disagree on the first candidate slot: %s' %
                                             '; '.join('%s (%s)' % (show(k), ', '.join(sorted({e for e, w in v}))) for k, v in by.items()),
                                             least[1][0][1], [], least[1][0][0]))
        for e, a, own, w in self.anchors:
            x = foreign(rebuild_key(a, own))
            if x is not None:
                self.violations.append(Violation(['C18', 'C05'], 'anchor-depends', 'the first candidate slot depends on something else than the key '
                                                 'and the capacity: %s' % show(x), w, [], e))
        if not self.claims:
            raise AnalysisError('no slot claim was found')
        if not self.exhausts:
            raise AnalysisError('no probe limit was found')
        st = State()
        us = {}
        for e, U, w in self.claims:
            if not U:
                self.violations.append(Violation(['C05'], 'claim-unbounded', 'a slot may be claimed arbitrarily far from the first candidate', w, [], e))
            us.setdefault(U, (e, w))
        done = set()
        for e, L, w in self.exhausts:
            if (e, w) in done:
                continue
            for U, (e2, w2) in us.items():
                if U and not any(st.entails(sub(l, u)) for l in L for u in U):
                    done.add((e, w))
                    self.violations.append(Violation(['C05'], 'probe-limit', 'gives up after %s candidates while %s (%s) may claim any of the first %s' %
                                                     (' or '.join(map(self.sh, L)) or 'an unknown number of', e2, w2, ' or '.join(map(self.sh, U))), w, [], e))
                    break

    @staticmethod
    def sh(t):
        return show(t).replace('Tcur', '')


def rebuild_key(a, own):
    return rebuild(a, lambda x: ('s', 'KEY') if x == own else x)


def foreign(t):
    """Something in t that is neither the key nor a capacity."""
    if not isinstance(t, tuple) or t == ('s', 'KEY') or t[:1] == ('len',):
        return None
    if t[0] == 's':
        return t
    for x in t[1:]:
        r = foreign(x) if isinstance(x, tuple) else None
        if r is not None:
            return r
    return None


def is_num_(t):
    return isinstance(t, int) or isinstance(t, tuple) and is_num(t)


_MC = None


def _work(label):
    try:
        return _MC.analyse(label)
    except AnalysisError as e:
        return dict(label=label, error=str(e))
    except Exception:
        import traceback
        return dict(label=label, error='internal error: ' + traceback.format_exc()[-600:])


if __name__ == '__main__':
    import os
    p = Program(sys.argv[1])
    mc = MapCheck(p)
    t0 = time.time()
    Interp.TRACE = bool(os.environ.get('TRACE'))
    labels = sys.argv[2:] or list(mc.defs)
    try:
        mc.analyse_all(labels)
        if not sys.argv[2:]:
            mc.agree()
    except AnalysisError as e:
        print('ERROR', e)
    for l, e in mc.errors:
        print('ERROR', l, e)
    for e, d in mc.results.items():
        print(e, d['states'], d['steps'], d['exits'], d['seconds'])
    for v in mc.violations:
        print('V', ','.join(v.props), v.rule, '|', v.entry, '|', v.where, '|', v.msg)
        if os.environ.get('STACK'):
            for x in v.stack:
                print('      ', x)
    print('%.1f s' % (time.time() - t0))
