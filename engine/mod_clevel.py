"""The clevel container, decided by abstract interpretation of its operations."""
import build
from interp import AnalysisError, Program
from clevel import *
from mapcheck import MapCheck
from pmap import Consts

PROPS = {'C19', 'C20', 'C21'}
AI = 'abstract interpretation of LLVM IR with typestates for entries, slots, levels and root objects'
NOTES = {
    'C19': (AI, 'Every path of insert, erase, search, expand and the rehashing loop, over any number of levels, buckets and retries, with every shared word read afresh at each load (any interference). Not decided: update (not reachable through the PMap adapter), and what recovery would do with the words that are durable.'),
    'C20': (AI, 'As C19. Per operation, not per history: that concurrent insertions, rehashing and removals linearize is not decided (the algorithm redoes insertions and repairs duplicates later), nor whether insert saw every copy of its key (its array of levels is abstracted), nor that entries stay allocated while another thread reads them (the repository has no reclamation scheme here).'),
    'C21': (AI, 'As C19, for expand and for the rehashing loop, including the calls of expand from within it. Only the rehashing thread changes the last level of the root, which is how the repository starts it.'),
}
ENTRIES = ('insert', 'erase', 'search', 'expand', 'resize')
NEED = {'C19': ('slot compare-and-swaps', 'root compare-and-swaps', 'levels linked', 'write-backs', 'exits checked'),
        'C20': ('slot loads', 'key comparisons', 'removals', 'entries published', 'frees', 'loads of the root'),
        'C21': ('levels linked', 'root compare-and-swaps', 'entries copied', 'moved entries', 'steps of the rehashing cursor')}


class Spec:
    thread = 1
    rehash = inserts = replaces = removes = False
    cut_expand = True
    walk = grows = False

    def __init__(self, **kw):
        self.__dict__.update(kw)


class ClevelCheck(MapCheck):
    def __init__(self, prog):
        self.p = prog
        self.c = Consts(prog)
        self.c.at = {}
        self.defs, self.violations, self.errors, self.results = {}, [], [], {}
        self.claims, self.exhausts, self.anchors, self.stats = [], [], [], {}
        self.fnCAS = None
        self.constants()
        self.define_all()

    def entry_place(self, l):
        return 'include/libpmemobj++/experimental/clevel_hash.hpp (%s)' % l

    def constants(self):
        for n, fn in (('meta', 'vf_at_meta'), ('expand_bucket', 'vf_at_expand_bucket'), ('uuid', 'vf_at_uuid'), ('threads', 'vf_at_threads'),
                      ('tmp_meta', 'vf_at_tmp_meta'), ('tmp_level', 'vf_at_tmp_level'), ('tmp_entry', 'vf_at_tmp_entry'), ('run', 'vf_at_run'),
                      ('level.buckets', 'vf_in_level_buckets'), ('level.capacity', 'vf_in_level_capacity'), ('level.up', 'vf_in_level_up'),
                      ('meta.first', 'vf_in_meta_first'), ('meta.last', 'vf_in_meta_last'), ('meta.resizing', 'vf_in_meta_resizing'),
                      ('bucket_size', 'vf_bucket_size'), ('slot_size', 'vf_slot_size'), ('slots', 'vf_slots'), ('tag', 'vf_tag_at')):
            m = BaseModel(self.c)
            r = Interp(self.p, m).run(fn, [])
            if len(r) != 1 or not isinstance(r[0][2], int):
                raise AnalysisError('%s is not a constant' % n)
            self.c.at[n] = r[0][2]
        self.c.at['buckets'] = 2

    def analyse(self, label):
        import time
        entry, spec, setup, finish = self.defs[label]
        t0 = time.time()
        m = ClevelModel(self.c, spec)
        m.entry = label
        m.key = self.key
        it = ClInterp(self.p, m)
        it.TRACE = getattr(self, 'trace', False)
        st = self.base_state(m)
        args = setup(m, st)
        outs = it.run(entry, args, st)
        rets = 0
        for s, k, v in outs:
            finish(m, it, s, k, v)
            rets += 1
        if rets == 0 and not it.partial:
            raise AnalysisError('no path through %s reaches its end' % label)
        return dict(label=label, violations=m.violations, claims=[], exhausts=[], anchors=m.anchors, stats=dict(m.stats), states=it.nstates,
                    steps=it.steps, exits=rets, functions=sorted({(self.p.fn[f].get('name') or f) for f in it.fns}), seconds=round(time.time() - t0, 2))

    def define_all(self):
        self.key = ('s', 'key')
        KV = ('ptr', ('KEY',), 0)
        T = ('s', 'thread')

        def setup(*args):
            def f(m, st):
                for n in ('key', 'thread', 'uuid', 'pool', 'tmp_meta', 'tmp_level', 'tmp_entry', 'bucket'):
                    self.sym(st, n, low=None)
                st.assume_ne(('s', 'uuid'), 0)
                st.assume_ne(('s', 'uuid'), M)
                return [('ptr', H, 0)] + list(args)
            return f
        self.defs['insert'] = ('vf_insert', Spec(inserts=True), setup(KV, T), self.finish)
        self.defs['erase'] = ('vf_erase', Spec(removes=True, walk=True), setup(KV, T), self.finish)
        self.defs['search'] = ('vf_search', Spec(walk=True), setup(KV), self.finish)
        self.defs['expand'] = ('vf_expand', Spec(cut_expand=False, grows=True), setup(T), self.finish)
        self.defs['resize'] = ('vf_resize', Spec(rehash=True, thread=0), setup(), self.finish)

    def finish(self, m, it, st, kind, v):
        if kind != 'ret':
            return
        m.count('exits checked')
        g = st.g
        if st.pend:
            m.violate(it, st, ['C19'], 'not-durable', 'the operation returns although %s may not be durable' % ', '.join(sorted({k[0] for k in st.pend})), None)
        e = m.entry
        if e == 'resize' and g.get('dropped'):
            m.violate(it, st, ['C21'], 'cursor-stale', 'rehashing of the next level does not start at its first bucket', None)
        if e in ('resize', 'expand'):
            return
        for v in ([v] if isinstance(v, int) else [0, 1]):
            if e == 'insert':
                if v == 0 and not g.get('added'):
                    m.violate(it, st, ['C20'], 'result', 'insert reports a new entry but has added none', None)
                if v == 1 and (g.get('added') or not g.get('saw')):
                    m.violate(it, st, ['C20'], 'result', 'insert reports that the key is there, but it added its entry or has not seen the key', None)
            if e == 'erase':
                if v != g.get('removed', 0):
                    m.violate(it, st, ['C20'], 'result', 'erase reports %s' % ('a removal but has removed nothing' if v else 'nothing removed although it removed an entry'), None)
            if e == 'search' and v and not g.get('saw'):
                m.violate(it, st, ['C20'], 'result', 'search reports the key without having seen it', None)
            if e == 'erase' or e == 'search' and not v:
                why = m.finished(st)
                if why:
                    m.violate(it, st, ['C20'], 'incomplete', '%s ends although %s' % (e, why), None)


def one(tmp):
    js = build.ir('clevel', tmp, keep='pmemobj_direct_inline,expand,obj_constructor,array_constructor,make_persistent_object,operator<<,hash',
                  flags=['-DNDEBUG', '-DDEFAULT_CACHELINE_SIZE=64'])
    return ClevelCheck(Program(js))


def agree(cc):
    """All operations have to look for a key in the same two buckets, and mark its entry with the same tag."""
    out = []
    for what in ('bucket', 'tag'):
        sets = {}
        for l, r in cc.results.items():
            if r['anchors']:
                sets[l] = {g for k, g in r['anchors'] if k == what}
        sets = {l: s for l, s in sets.items() if s}
        n = 2 if what == 'bucket' else 1
        ref = max(sets.values(), key=lambda s: sum(1 for x in sets.values() if x == s), default=set())
        for l, s in sorted(sets.items()):
            if None in s or s != ref or len(s) != n:
                msg = '%s %s: %s' % (l, 'searches other buckets for a key than the other operations do' if what == 'bucket' else 'marks or recognises entries by a tag that is not the one the other operations use',
                                     ', '.join(sorted(show(x) if x is not None else '(not a function of the hash)' for x in s)))
                out.append(Violation(['C20'] + (['C21'] if l == 'resize' else []), 'same-' + what, msg, cc.entry_place(l), [cc.defs[l][0]], l))
    return out


def run(prop, tier, tmp, res):
    cc = one(tmp)
    cc.analyse_all(ENTRIES, jobs=5)
    for l, e in cc.errors:
        res.errors.append((PROPS, 'clevel %s: %s' % (l, e)))
    if not cc.errors:
        cc.violations += agree(cc)
    res.violations += cc.violations
    if not cc.violations and not cc.errors:
        for p, names in NEED.items():
            for n in names:
                if not cc.stats.get(n):
                    res.errors.append(({p}, 'clevel: nothing analysed: no %s seen' % n))
    fns = set()
    for r in cc.results.values():
        fns |= set(r['functions'])
    samples = [dict(entry=r['label'], states=r['states'], steps=r['steps'], exits=r['exits']) for r in cc.results.values()]
    for p in PROPS:
        res.cov(p, explanation='Abstract interpretation of each operation of the clevel container to a fixed point; shared words are unknown at every load, so every interleaving is covered.',
                entry_points=[s['entry'] for s in samples], functions=sorted(fns), states=sum(s['states'] for s in samples),
                obligations={n: cc.stats.get(n, 0) for n in NEED[p]}, all_counts=cc.stats, samples=samples)
