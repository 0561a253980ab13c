"""The hash of a key is a function of the key alone: data flow over the optimised IR of the hash functions."""
import os
import re
import build
from interp import AnalysisError
from pmap import Violation

PROPS = {'C18'}
NOTES = {}
SRC = os.path.join(build.HERE, 'harness', 'hash.cpp')
SIZES = {'': 8}
PURE = set('''add sub mul udiv sdiv urem srem shl lshr ashr and or xor icmp select phi br switch ret zext sext trunc bitcast getelementptr
    extractvalue insertvalue extractelement insertelement shufflevector unreachable fcmp freeze alloca'''.split())
FINE = re.compile(r'llvm\.(fsh[lr]|bswap|bitreverse|ctpop|ctlz|cttz|lifetime|assume|dbg|umin|umax|smin|smax|abs|experimental\.noalias|'
                  r'vector\.|uadd|umul|usub|usub\.sat|uadd\.sat|memcpy|memset|memmove|expect)')
NORET = re.compile(r'__throw_|terminate|abort|__assert_fail|__cxa_|_Unwind_Resume')


class Fn:
    def __init__(self, name, args, consts, dbg):
        self.name, self.args, self.attrs, self.dbg, self.ins = name, args, consts, dbg, []


class Module:
    def __init__(self, text):
        self.fns, self.consts, self.md = {}, set(), {}
        cur = None
        for l in text.splitlines():
            if cur is None:
                m = re.match(r'define .*?@("[^"]*"|[\w.$]+)\((.*)\)', l)
                if m:
                    args = [(a, bool(re.search(r'(^|[ ,])ptr', t))) for t, a in re.findall(r'([^,%]*)%([\w.]+)(?=[,)]|$)', re.sub(r'\([^()]*\)', '', m.group(2)))]
                    d = re.search(r'!dbg (!\d+)', l)
                    cur = self.fns[m.group(1).strip('"')] = Fn(m.group(1).strip('"'), args, l, d and d.group(1))
                    continue
                m = re.match(r'@("[^"]*"|[\w.$]+) = (.*)', l)
                if m and re.search(r'(^| )constant ', m.group(2)) and 'external' not in m.group(2).split('constant')[0]:
                    self.consts.add(m.group(1).strip('"'))
                m = re.match(r'(!\d+) = (.*)', l)
                if m:
                    self.md[m.group(1)] = m.group(2)
            elif l.startswith('}'):
                cur = None
            else:
                t = l.strip()
                if t and not re.match(r'([\w.$]+|"[^"]*"):', t) and not t.startswith(';') and not t.startswith('#dbg'):
                    cur.ins.append(t)

    def where(self, f, ins):
        """Place of an instruction in the repository, following inlining outwards to the first place in the repository."""
        m = re.search(r'!dbg (!\d+)', ins)
        n, r = m and m.group(1), None
        while n:
            d = self.md.get(n, '')
            ln = re.search(r'line: (\d+)', d)
            fi = self.file(re.search(r'scope: (!\d+)', d))
            r = '%s:%s' % (fi, ln.group(1) if ln else 0)
            if fi.startswith(build.REPO):
                return r
            ia = re.search(r'inlinedAt: (!\d+)', d)
            n = ia and ia.group(1)
        return r or '%s' % f.name

    def file(self, m):
        for _ in range(20):
            if not m:
                return '?'
            d = self.md.get(m.group(1), '')
            if d.startswith('!DIFile') or 'DIFile(' in d:
                fn, di = re.search(r'filename: "([^"]*)"', d), re.search(r'directory: "([^"]*)"', d)
                return os.path.normpath(os.path.join(di.group(1) if di else '', fn.group(1)))
            m = re.search(r'file: (!\d+)', d) or re.search(r'scope: (!\d+)', d)
        return '?'


class Check:
    def __init__(self, mod):
        self.m, self.found, self.undecided, self.done, self.n = mod, [], [], {}, dict(instructions=0, loads=0, calls=0, functions=0)

    def bad(self, f, ins, rule, msg, entry):
        self.found.append(Violation(['C18'], rule, msg, self.m.where(f, ins), [], entry))

    def go(self, f, entry, size, depth=0):
        """size: bytes of the key behind the first argument, None if not known."""
        if (f.name, size) in self.done:
            return
        self.done[f.name, size] = 1
        self.n['functions'] += 1
        straight = not any(re.match(r'(br i1|switch|indirectbr|invoke)', i) for i in f.ins)
        base = {a: ('key', 0 if size is not None and i == 0 else None) for i, (a, p) in enumerate(f.args) if p}
        got = set()
        ptrs = {}
        for ins in f.ins:
            m = re.match(r'(?:%([\w.]+) = )?(?:tail |musttail |notail )?(\w+)', ins)
            if not m:
                continue
            dst, op = m.group(1), m.group(2)
            body = ins.split(', !')[0]
            if op == 'alloca':
                base[dst] = ('own', None)
            elif op == 'getelementptr':
                p = re.search(r'ptr (%[\w.]+|@[\w.$]+|@"[^"]*")', body)
                b = self.prov(base, p.group(1)) if p else None
                c = re.search(r'getelementptr (?:inbounds )?(?:nuw )?i8, ptr %[\w.]+, i64 (-?\d+)$', body)
                base[dst] = None if b is None else (b[0], b[1] + int(c.group(1)) if c and b[1] is not None else None)
            elif op in ('phi', 'select') and re.search(r'(phi|select i1 \S+) ?,? ?ptr', body):
                ps = [self.prov(base, x) for x in re.findall(r'(?:ptr |\[ )(%[\w.]+|@[\w.$]+|null)', body)]
                ks = {x[0] for x in ps if x}
                base[dst] = (ks.pop(), None) if len(ks) == 1 else None if not ks else ('mixed', None)
        for ins in f.ins:
            m = re.match(r'(?:%([\w.]+) = )?(?:tail |musttail |notail )?(\w+)', ins)
            if not m:
                continue
            dst, op = m.group(1), m.group(2)
            body = ins.split(', !')[0]
            self.n['instructions'] += 1
            if re.search(r'\b(undef|poison)\b', body) and op not in ('insertelement', 'insertvalue', 'shufflevector', 'call', 'phi', 'unreachable'):
                if straight:
                    self.bad(f, ins, 'uninitialised', 'the hash depends on an uninitialised value', entry)
            elif straight and op == 'phi' and re.search(r'\[ (undef|poison)', body):
                self.bad(f, ins, 'uninitialised', 'the hash depends on an uninitialised value', entry)
            if op == 'ret' and re.search(r'\b(undef|poison)\b', body):
                pass
            if op in PURE:
                if re.search(r'@[\w.$"]', body) and op not in ('getelementptr', 'select', 'phi', 'br', 'switch', 'unreachable') and \
                        any(g.strip('"') not in self.m.consts for g in re.findall(r'@([\w.$]+|"[^"]*")', body)):
                    self.bad(f, ins, 'address', 'the hash depends on the address of an object', entry)
            elif op == 'load':
                self.n['loads'] += 1
                if 'volatile' in body or ' atomic ' in body:
                    self.bad(f, ins, 'shared', 'the hash depends on a shared or volatile variable', entry)
                    continue
                p = re.search(r'ptr (%[\w.]+|@[\w.$]+|@"[^"]*"|getelementptr.*|null)', body).group(1)
                b = self.prov(base, p)
                if b is None or b[0] == 'mixed':
                    self.undecided.append('%s: cannot tell what is read: %s' % (self.m.where(f, ins), body))
                elif b[0] == 'var':
                    self.bad(f, ins, 'variable', 'the hash depends on the variable %s' % b[1], entry)
                elif b[0] == 'key' and b[1] is not None and size is not None:
                    t = re.search(r'load (\S+),', body).group(1)
                    w = int(t[1:]) // 8 if re.match(r'i\d+$', t) else 8 if t in ('ptr', 'double') else 0
                    v = re.search(r'load <(\d+) x i(\d+)>', body)
                    if v:
                        w = int(v.group(1)) * int(v.group(2)) // 8
                    if straight and (b[1] < 0 or b[1] + w > size):
                        self.bad(f, ins, 'outside', 'reads bytes %d to %d of a key of %d bytes' % (b[1], b[1] + w - 1, size), entry)
                    got |= set(range(b[1], b[1] + w))
                elif b[0] == 'key':
                    got.add('?')
            elif op == 'store' or op in ('atomicrmw', 'cmpxchg', 'fence'):
                p = re.findall(r'ptr (%[\w.]+|@[\w.$]+|@"[^"]*")', body)
                b = self.prov(base, p[-1]) if p else None
                if op != 'store' or b is None or b[0] in ('var', 'key', 'mixed'):
                    self.bad(f, ins, 'effect', 'computing a hash changes a variable', entry)
            elif op in ('call', 'invoke'):
                c = re.search(r'@("[^"]*"|[\w.$]+)\(', body)
                if not c or ' asm ' in body:
                    self.bad(f, ins, 'call', 'the hash depends on machine state or on a function that is not known', entry)
                    continue
                n = c.group(1).strip('"')
                self.n['calls'] += not n.startswith('llvm.dbg')
                if FINE.match(n):
                    if 'mem' in n:
                        for p in re.findall(r'ptr [^%@,]*(%[\w.]+|@[\w.$]+)', body)[1:2]:
                            b = self.prov(base, p)
                            if b and b[0] == 'var':
                                self.bad(f, ins, 'variable', 'the hash depends on the variable %s' % b[1], entry)
                            elif b and b[0] == 'key':
                                got.add('?')
                elif n in self.m.fns:
                    for p in re.findall(r'ptr [^%@,]*(@[\w.$]+)', body[c.end():]):
                        if p[1:] not in self.m.consts and p[1:] not in self.m.fns:
                            self.bad(f, ins, 'variable', 'the hash depends on the variable %s' % p[1:], entry)
                    got.add('?')
                    self.go(self.m.fns[n], entry, None, depth + 1)
                elif not NORET.search(n):
                    self.bad(f, ins, 'call', 'the hash depends on %s, which is not a function of the key' % n, entry)
            elif op == 'ptrtoint':
                self.use_of_address(f, ins, dst, entry)
            elif op not in ('landingpad', 'resume', 'inttoptr'):
                self.undecided.append('%s: instruction not known: %s' % (self.m.where(f, ins), body))
        if size is not None and '?' not in got and not got >= set(range(size)) and not self.found:
            self.bad(f, f.attrs, 'ignored', 'only %d of the %d bytes of a key have an influence on its hash' % (len(got), size), entry)

    def prov(self, base, p):
        if p.startswith('%'):
            return base.get(p[1:])
        g = re.search(r'@("[^"]*"|[\w.$]+)', p)
        if not g:
            return None
        g = g.group(1).strip('"')
        return ('const', None) if g in self.m.consts else ('var', g)

    def use_of_address(self, f, ins, dst, entry):
        """Where does an address turned into a number go? Alignment tests only choose between ways to compute the same thing."""
        seen, todo = set(), [dst]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for i in f.ins:
                if re.search(r'%%%s\b' % re.escape(x), i.split(' = ', 1)[-1].split(', !')[0]):
                    m = re.match(r'(?:%([\w.]+) = )?(?:tail )?(\w+)', i)
                    if m.group(2) in ('icmp', 'br', 'switch'):
                        continue
                    if m.group(2) in ('ret', 'store', 'call'):
                        self.bad(f, ins, 'address', 'the hash depends on the address of an object', entry)
                        return
                    if m.group(1):
                        todo.append(m.group(1))


def compile(tmp, *extra):
    out = os.path.join(tmp, 'hash.ll')
    build.sh(['clang++-18', '-std=c++20', '-O2', '-g', '-fno-vectorize', '-fno-slp-vectorize', '-mllvm', '-inline-threshold=100000', '-fno-access-control',
              '-w', '-DNDEBUG', '-DDEFAULT_CACHELINE_SIZE=64'] + list(extra) + build.includes() + ['-S', '-emit-llvm', SRC, '-o', out])
    return Module(open(out).read())


def bare(f):
    r = [re.sub(r', !.*', '', i) for i in f.ins if 'llvm.dbg' not in i]
    return None if any(re.search(r' = alloca | br i1 |^br i1 |^switch', i) for i in r) else r


def run(prop, tier, tmp, res):
    mod = compile(tmp)
    c = Check(mod)
    # a computation that is told apart by what its variables hold before they are set
    m2, m3 = (compile(tmp, '-ftrivial-auto-var-init=' + x) for x in ('zero', 'pattern'))
    for n, f in sorted(mod.fns.items()):
        if n.startswith('vfh_') and n in m2.fns and n in m3.fns:
            x, y = bare(m2.fns[n]), bare(m3.fns[n])
            if x is not None and y is not None and x != y:
                i = next((i for i, j in zip(m3.fns[n].ins, m2.fns[n].ins) if re.sub(', !.*', '', i) != re.sub(', !.*', '', j)), m3.fns[n].ins[0])
                c.found.append(Violation(['C18'], 'uninitialised', 'the hash depends on an uninitialised variable', m3.where(m3.fns[n], i), [], n[4:]))
    roots = [f for n, f in sorted(mod.fns.items()) if n.startswith('vfh_')]
    for f in roots:
        c.go(f, f.name[4:], int(f.name.rsplit('_', 1)[1]))
    res.violations += c.found
    if len(roots) < 8:
        res.errors.append(({'C18'}, 'the hash functions were not found'))
    if not c.found:
        for t in c.undecided:
            res.errors.append(({'C18'}, t))
    if prop:
        res.cov(prop, hash_functions=[f.name[4:] for f in roots], hash_instructions=c.n['instructions'], key_loads=c.n['loads'], hash_calls=c.n['calls'])
