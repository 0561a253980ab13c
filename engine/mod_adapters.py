"""The container adapters, decided by abstract interpretation against an abstract map."""
import os
import build
from interp import AnalysisError, Program
import adapters

PROPS = {'C14', 'C15'}
AI = 'abstract interpretation of LLVM IR of the adapters against an abstract map; lock-set analysis'
NOTES = {
    'C14': (AI, 'Every path of insert, erase, contains, get and count of the four adapters, for every key whose top three bits are zero and every answer of the container underneath, which is taken to behave as an atomic map (the map of this repository is decided by C01 to C05; the two libpmemobj++ containers are not decided). The value bound in the two libpmemobj++ containers is the key, as no adapter operation binds anything else.'),
    'C15': (AI, 'Every path of every operation, exceptional ones included: each use of the map, or of a reference or iterator into it, happens while a lock is held that every other use holds too, and no lock is held at the end. std::map and the mutexes are taken at their documented meaning.'),
}
OPS = ('insert', 'erase', 'contains', 'get', 'count', 'increment')


def one(kind, tmp):
    js = build.ir('adapter', tmp, keep=adapters.KINDS[kind][1], flags=['-DNDEBUG', '-DDEFAULT_CACHELINE_SIZE=64', '-D%sDef' % kind], out=kind)
    return adapters.AdapterCheck(Program(js), kind)


def run(prop, tier, tmp, res):
    kinds = ['stl'] if prop == 'C15' else ['ucf', 'stl', 'pm', 'clevel']
    samples, fns, states, exits, acc = [], set(), 0, 0, 0
    stats = {}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        checks = list(ex.map(lambda k: (k, one(k, tmp)), kinds))
    for k, ac in checks:
        ac.analyse_all(list(ac.defs), jobs=1)
        for l, e in ac.errors:
            if prop == 'C14' and l.endswith('increment'):
                continue
            res.errors.append(({prop} if prop else None, '%s: %s' % (l, e)))
        if k == 'stl' and not ac.errors:
            ac.agree_locks()
        res.violations += ac.violations
        if not ac.violations and not ac.errors:
            for n in ('accesses to the container', 'exits checked') + (('lock acquisitions',) if k == 'stl' else ()):
                if not ac.stats.get(n):
                    res.errors.append(({prop} if prop else None, '%s: nothing analysed: no %s seen' % (k, n)))
        for r in ac.results.values():
            fns |= {k + '::' + x for x in r['functions']}
            states += r['states']
            exits += r['exits']
            samples.append(dict(entry=r['label'], states=r['states'], exits=r['exits']))
        for n, c in ac.stats.items():
            stats[n] = stats.get(n, 0) + c
    if prop:
        res.cov(prop, explanation='Abstract interpretation of each adapter operation; every answer the container can give is followed.',
                entry_points=[s['entry'] for s in samples], functions=sorted(fns), exits_checked=exits, obligations=stats, samples=samples[:6])
