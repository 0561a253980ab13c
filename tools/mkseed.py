#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds/<id>.py (edits, meta, demonstration) and tries the demonstration with and without the change."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    base = {x.split()[0] for x in sh("git -C /repo log --format=%h -1 1251f3d").stdout.split()}
    for name in sys.argv[1:] or sorted(f[:-3] for f in os.listdir(HERE + '/seeds') if f.endswith('.py')):
        ns = {}
        ns["HERE"] = HERE
        exec(open(HERE + '/seeds/%s.py' % name).read(), ns)
        d = tempfile.mkdtemp(prefix='seed-')
        sh('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base' % (d, d))
        for f, old, new in ns['edits']:
            s = open(d + '/' + f).read()
            if s.count(old) != 1:
                print(name, 'EDIT', s.count(old), old[:80])
            open(d + '/' + f, 'w').write(s.replace(old, new, 1))
            # lines taken away have to be lines of the original repository
        out = ROOT + '/seeded/' + name
        os.makedirs(out, exist_ok=True)
        diff = sh('git -C %s diff' % d).stdout
        open(out + '/patch.diff', 'w').write(diff)
        json.dump(ns['meta'], open(out + '/meta.json', 'w'), indent=1)
        for x in ns.get('copy', ['demo.hpp', 'demo.sh']):
            shutil.copy(HERE + '/seedlib/' + x, out)
        if 'demo' in ns:
            open(out + '/demo.cpp', 'w').write(ns['demo'])
        if 'sh' in ns:
            open(out + '/demo.sh', 'w').write(ns['sh'])
            os.chmod(out + '/demo.sh', 0o755)
        a = sh('bash %s/demo.sh' % out, cwd='/repo')
        b = sh('bash %s/demo.sh' % out, cwd=d)
        print(name, 'base rc', a.returncode, 'patched rc', b.returncode, b.stdout.strip()[-150:].replace('\n', ' | '))
        if a.returncode:
            print(a.stdout[-1500:])
        # original lines only?
        blame = {}
        for f in {e[0] for e in ns['edits']}:
            blame[f] = [l.split()[0].lstrip('^') for l in sh('git -C /repo blame -s %s' % f).stdout.splitlines()]
        cur, ln, orig = None, 0, 0
        for l in diff.splitlines():
            if l.startswith('+++ b/'):
                cur = l[6:]
            elif l.startswith('@@'):
                ln = int(l.split()[1].split(',')[0][1:])
            elif l.startswith('-') and not l.startswith('---'):
                if not blame[cur][ln - 1].startswith('1251f3d'):
                    print(name, 'touches an added line:', l)
                else:
                    orig += 1
                ln += 1
            elif l.startswith(' '):
                ln += 1
        if not orig:
            print(name, 'takes away no original line')
        shutil.rmtree(d)


main()
