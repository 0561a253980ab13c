"""Building the IR dumper and the IR of the harnesses, from the current source of the repository."""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/llvm-config'


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
    return r.stdout


def irdump():
    """The IR dumper, built on first use."""
    src = os.path.join(HERE, 'engine', 'irdump.cpp')
    out = os.path.join(HERE, 'build', 'irdump')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(os.path.join(HERE, 'build', 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
            return out
        cxx = [f for f in sh([LLVM, '--cxxflags']).split() if not f.startswith('-std=')]
        ld = sh([LLVM, '--ldflags', '--libs', 'core', 'irreader', 'support', 'demangle', 'passes']).split()
        sh(['clang++-18', '-O1', '-std=c++17'] + cxx + ['-w', src, '-o', out + '.tmp'] + ld)
        os.replace(out + '.tmp', out)
    return out


KEEP = {'map': 'copySlot,resize,helpCopy,mmapTable,munmapTable,getOrderedFileName,numFromName,PERSIST,PERSIST_FLUSH_ONLY'}


def includes(*extra):
    r = []
    for d in ('', '/include', '/containers', '/tests', '/hashing') + extra:
        r.append('-I' + REPO + d)
    return r


FLAGS = {'map': ['-DNDEBUG', '-DDEFAULT_CACHELINE_SIZE=64']}


def ir(name, tmp, keep=None, flags=None, prefix='vf', src=None, out=None):
    """Compile a harness against the repository and dump its IR as JSON. Returns the path of the dump."""
    tool = irdump()
    src = src or os.path.join(HERE, 'harness', name + '.cpp')
    bc = os.path.join(tmp, (out or name) + '.bc')
    js = os.path.join(tmp, (out or name) + '.json')
    sh(['clang++-18', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-access-control', '-w'] +
       (flags if flags is not None else FLAGS.get(name, [])) + includes() + ['-emit-llvm', '-c', src, '-o', bc])
    with open(js, 'w') as f:
        keep = keep if keep is not None else KEEP.get(name, '')
        r = subprocess.run([tool, bc, '--expand-except=' + keep, prefix], stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise BuildError('irdump: ' + r.stderr[-2000:])
    os.unlink(bc)
    return js


if __name__ == '__main__':
    print(irdump())
