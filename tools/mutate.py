#!/usr/bin/env python3
"""Development aid: applies each edit of mutants.py to a scratch copy and runs the analyses on it.
usage: mutate.py [name-prefix...]   Bugs must be reported (by one of the expected properties), refactorings must not be."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.path.insert(0, os.path.join(HERE, 'engine'))
from mutants import M
from concurrent.futures import ThreadPoolExecutor


BASE = os.environ.get('BASE', '/repo')


def one(m):
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        for x in ('containers', 'include', 'hashing', 'tests', 'src'):
            if os.path.isdir(BASE + '/' + x):
                shutil.copytree(BASE + '/' + x, d + '/' + x, symlinks=True)
        for x in os.listdir(BASE):
            if os.path.isfile(BASE + '/' + x) and not os.path.islink(BASE + '/' + x) and os.path.getsize(BASE + '/' + x) < 1 << 20:
                shutil.copy(BASE + '/' + x, d)
        for f, old, new in m['edits']:
            s = open(d + '/' + f).read()
            if old not in s:
                return m, 'NOT APPLICABLE: ' + old[:60]
            open(d + '/' + f, 'w').write(s.replace(old, new, 1 if not m.get('all') else -1))
        r = subprocess.run([sys.executable, HERE + '/tools/allprops.py', m.get('mods', 'map')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, env=dict(os.environ, VERIF_REPO=d))
        return m, r.stdout
    finally:
        shutil.rmtree(d)


def main():
    for m in M:
        if m['name'].startswith('hash-'):
            m['mods'] = 'map,hash' if any(f.startswith('containers') for f, _, _ in m['edits']) else 'hash'
    sel = [m for m in M if not sys.argv[1:] or any(m['name'].startswith(a) for a in sys.argv[1:])]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
        for m, out in ex.map(one, sel):
            vs = [l for l in out.splitlines() if l.startswith('V ')]
            er = [l for l in out.splitlines() if l.startswith('E ') or 'NOT APPL' in l or 'Traceback' in l or 'Error' in l]
            props = {p for l in vs for p in l.split()[1].split(',')}
            if m['kind'] == 'bug':
                ok = bool(props & set(m['props']))
            else:
                ok = not vs and not er
            bad += not ok
            print('%s %-34s %s %s' % ('ok  ' if ok else 'FAIL', m['name'], m['kind'], ','.join(sorted(props))), flush=True)
            if not ok or os.environ.get('V'):
                for l in (vs + er)[:int(os.environ.get('V', '4'))]:
                    print('       ', l[:400], flush=True)
    print(len(sel), 'mutants,', bad, 'unexpected')


main()
