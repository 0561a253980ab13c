"""Runs the analyses a property depends on, prints the verdict and writes the evidence."""
import json
import os
import sys
import tempfile
import time
import traceback

import build
from interp import AnalysisError, Program

TRUST = ['clang 18 front end and the LLVM passes SROA, inlining, SCCP, SimplifyCFG (the analysed form of the code)',
         'the abstract domain and transfer functions in /verif/engine',
         'x86-64, 64-bit size_t, the build configuration of the repository (RESIZE on, PMwCAS off)']


class Result:
    """What an analysis found: violations per property, coverage per property, errors."""

    def __init__(self):
        self.violations = []     # objects with props, rule, msg, where, stack, entry
        self.errors = []         # (set of properties or None for all, text)
        self.coverage = {}       # property -> dict

    def cov(self, prop, **kw):
        self.coverage.setdefault(prop, {}).update(kw)


def known(here):
    """known-findings file: (property, rule, entry, place) -> text; 'fixed' entries suppress nothing."""
    r = []
    p = os.path.join(here, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                head, _, text = l[6:].partition('|')
                d = dict(x.split('=', 1) for x in head.split())
                d['text'] = text.strip()
                r.append(d)
    return r


def modules():
    import mod_map
    ms = [mod_map]
    for n in ('mod_adapters', 'mod_clevel', 'mod_obj', 'mod_hash'):
        try:
            ms.append(__import__(n))
        except ModuleNotFoundError as e:
            if n not in str(e):
                raise
    return ms


def main(here, argv):
    t0 = time.time()
    if not argv:
        print('usage: check <property> [quick|thorough]')
        return 2
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    res = Result()
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage={}, violations=0)
    ran = []
    errors = []
    with tempfile.TemporaryDirectory(prefix='verif-') as tmp:
        for m in modules():
            if prop not in m.PROPS:
                continue
            ran.append(m.__name__)
            try:
                m.run(prop, tier, tmp, res)
            except (AnalysisError, build.BuildError) as e:
                errors.append('%s: %s' % (m.__name__, e))
            except Exception:
                errors.append('%s: %s' % (m.__name__, traceback.format_exc()))
    if not ran:
        print('no check decides', prop)
        return 2
    errors += [t for ps, t in res.errors if ps is None or prop in ps]
    mine, seen = [], set()
    for v in res.violations:
        if prop in v.props:
            k = (v.rule, v.where, v.entry)
            if k not in seen:
                seen.add(k)
                mine.append(v)
    kn = known(here)
    new = []
    for v in mine:
        hit = [d for d in kn if d.get('property') == prop and d.get('rule') == v.rule and d.get('entry', v.entry) == v.entry
               and d.get('in', '') in ' '.join([v.where] + [str(x) for x in v.stack])]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]['text']))
        else:
            new.append(v)
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    replay = os.path.join(here, 'evidence', prop + '.replay.txt')
    cov = res.coverage.get(prop, {})
    cov.setdefault('explanation', 'static analysis of the current source')
    ev['coverage'] = cov
    ev['assumptions'] = TRUST + list(cov.pop('assumptions', []))
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = len(new)
    if errors:
        cov['errors'] = errors
    json.dump(ev, open(os.path.join(here, 'evidence', prop + '.json'), 'w'), indent=1, sort_keys=True)
    if new:
        with open(replay, 'w') as f:
            for v in new:
                f.write('%s: [%s] %s\n    rule %s, while analysing %s\n' % (v.where, prop, v.msg, v.rule, v.entry))
                for x in v.stack:
                    f.write('      in %s\n' % x)
        for v in new[:20]:
            print('%s: %s [%s, %s]' % (v.where, v.msg, v.rule, v.entry))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        for e in errors:
            print('note: incomplete:', e.splitlines()[-1][:300])
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    if errors:
        for e in errors:
            print('ERROR', e)
        return 2
    print('%s holds on everything analysed (%s; %.1f s)' % (prop, ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int)), ev['wall_s']))
    return 0
