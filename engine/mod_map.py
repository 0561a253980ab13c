"""Properties of the persistent map, decided by abstract interpretation of its operations."""
import sys
import build
from interp import AnalysisError, Program, Interp
import mapcheck

UPD = ['put', 'putIfAbsent', 'remove', 'remove(key,value)', 'replace', 'update', 'increment', 'carry-over']
READ = ['get', 'containsKey']
MIG = ['copySlot', 'helpCopy', 'resize']
OPS = UPD + READ + MIG
NEW = ['create table (named)', 'create table (unnamed)']
OLD = ['open table']
REC = ['recover', 'construct']
# property: (entry points it is decided on, events that must have been seen there)
NEED = {
    'C01': (UPD + READ, ['slot loads', 'slot compare-and-swaps', 'slot transitions checked']),
    'C02': (['update', 'increment'], ['slot compare-and-swaps']),
    'C03': (OPS, ['slot compare-and-swaps', 'slot transitions checked']),
    'C04': (OPS + NEW + OLD + REC, ['carry-overs', 'hand-over calls', 'root compare-and-swaps', 'promotions justified', 'moves to successor justified']),
    'C05': (UPD + READ, ['hash computations', 'recursive calls']),
    'C06': (OPS + OLD, ['mark removals', 'write-backs', 'fences']),
    'C08': (['PERSIST', 'PERSIST_FLUSH_ONLY'], ['write-backs']),
    'C09': (NEW + REC, ['slot initialisations', 'publications', 'file calls']),
    'C11': (OLD + REC + ['getOrderedFileName'], ['slot loads', 'file calls', 'tables opened', 'tables kept', 'links', 'file numbers',
                                                    'comparators', 'file removals', 'table files found']),
    'C13': (['isKeyReserved', 'isValueReserved', 'setMark', 'clearMark', 'isMarked', 'sentinels'], ['sentinels']),
    'C16': (NEW + OLD + ['release table'], ['file calls', 'unmappings']),
    'C07': (OPS + REC, ['write-backs', 'fences', 'slot transitions checked']),
    'C10': (OPS + NEW + OLD + REC + ['release table'], ['successor installations', 'table creations', 'table releases']),
    'C12': (OPS + NEW + OLD + ['size', 'isEmpty'], ['size updates', 'table creations']),
    'C17': (OPS + NEW + OLD + REC, ['slot accesses']),
    'C18': (UPD + READ, ['hash computations', 'slot accesses']),
}
PROPS = set(NEED)
AI = 'abstract interpretation of LLVM IR with a rely/guarantee slot protocol'
TRUSTED = (' Assumes the abstract domain and transfer functions, sequentially consistent or stronger slot accesses, keys and values outside the '
           'reserved encodings, counters that do not wrap, and that calls of operations analysed on their own (hand-over, resize, the '
           'continuation in a successor table) behave as their own analysis shows.')
NOTES = {p: (AI, n + TRUSTED) for p, n in {
    'C01': 'Every path of every operation, over every content another thread may store between two accesses: effect, condition and result agree. Not linearizability of whole histories.',
    'C02': 'Every path of update and increment, with an arbitrary update function, including the continuation in a successor table.',
    'C03': 'Every compare-and-swap, store or read-modify-write of a shared slot on every path is one of the allowed life-cycle steps from the observed word.',
    'C04': 'Ordering and counting of the hand-over on every path; the count argument is per thread (each retirement is counted by the thread that made it). Resurrection by a thread asleep across two complete resizes is not decided.',
    'C05': 'Start, order and end of every search, compared symbolically between lookups and updates.',
    'C06': 'Every use and every mark removal of a word read from a slot, on every path.',
    'C07': 'Every word written by an operation is written back and fenced before the operation returns, retires a slot or promotes a table.',
    'C08': 'Every path of the range primitives for a symbolic start address and length that does not wrap around; one cache line is 64 bytes.',
    'C09': 'Every path of the creation of a table, with every system call failing or not, for a symbolic capacity.',
    'C11': 'Every path of the recovering constructor, for any number of directory entries, table files and slots and arbitrary slot contents: which files are taken, in which order they are opened, which tables are dropped and deleted, how the others are linked, the next file number; every path of the opening of an existing table, for a symbolic file size and arbitrary contents; and the name that a table file is given. The library (vector, sort, string, filesystem) is taken at its documented meaning.',
    'C13': 'The encodings are evaluated from their initialisers, the predicates interpreted over all words, the flag functions shown bitwise and evaluated on their truth table.',
    'C16': 'Every combination of failing calls on every path of creation, opening and release; failures of close and of the release in the losing resize thread are not followed up.',
    'C10': 'Every installation of a successor, every release of a table, and the capacity passed to its creation.',
    'C12': 'The change of the element count on every path equals the change of the binding; drift between the counts of old and new table while a resize is running is not decided.',
    'C18': 'For the hash function the map uses by default and those of hashing/hash.hpp, on keys of 1 to 44 bytes: everything the result is computed from (data flow through the optimised IR, calls included) is a byte of the key or a constant, no byte outside the key is read, and the first candidate slot of every operation is a function of this hash and the capacity. Nothing is said about the quality of the hash.',
    'C17': 'Every slot access on every path is at an index proved below the capacity.',
}.items()}
NOTES['C18'] = (AI + '; data-flow analysis of the optimised IR of the hash functions', NOTES['C18'][1])
EXPL = ('Abstract interpretation of the LLVM IR of every operation, over all interleavings with other threads that follow the '
        'slot life cycle (every shared load is split over everything another thread may have stored); loops are iterated to a fixpoint. '
        'obligations = protocol steps at which a rule was checked.')


def run(prop, tier, tmp, res):
    """prop None: everything."""
    entries, need = NEED[prop] if prop else (None, [])
    js = build.ir('map', tmp)
    p = Program(js)
    mc = mapcheck.MapCheck(p)
    if entries is None:
        entries = list(mc.defs)
    labels = [e for e in mc.defs if tier == 'thorough' or e in entries]
    missing = [e for e in entries if e not in mc.defs]
    if missing:
        raise AnalysisError('no analysis for %s' % ', '.join(missing))
    mc.analyse_all(labels)
    for l, e in mc.errors:
        if l in entries:
            res.errors.append(({prop} if prop else None, '%s: %s' % (l, e)))
    if prop in ('C05', 'C18', None) and not mc.errors:
        mc.agree()
    res.violations += mc.violations
    if not prop:
        return
    if not mc.violations and not mc.errors:
        for n in need:
            if not mc.stats.get(n):
                res.errors.append(({prop}, 'nothing analysed for rule: no %s seen' % n))
    fns = set()
    for r in mc.results.values():
        fns |= set(r['functions'])
    res.cov(prop, explanation=EXPL, entry_points=sorted(mc.results), functions=sorted(fns),
            abstract_states=sum(r['states'] for r in mc.results.values()),
            instructions_interpreted=sum(r['steps'] for r in mc.results.values()),
            exits_checked=sum(r['exits'] for r in mc.results.values()),
            obligations={n: mc.stats.get(n, 0) for n in sorted(mc.stats)},
            samples=[dict(entry=r['label'], states=r['states'], exits=r['exits']) for r in list(mc.results.values())[:4]])
