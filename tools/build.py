#!/usr/bin/env python3
"""Content-addressed native build of /repo's sources and of the harnesses.

usage: build.py VARIANT HARNESS...      builds build/bin/VARIANT/HARNESS
Objects are cached under build/cache by the hash of (source, transitive includes, flags): nothing depends on time stamps.
Only the translation units a harness can reach through its includes are compiled.
"""
import hashlib, os, re, subprocess, sys, concurrent.futures as cf, fcntl, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
CEX = os.path.join(REPO, 'CEX')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))
INC = os.path.join(VERIF, 'compat', 'inc')
CXX = 'clang++'
BASE = ('-std=c++17 -w -g1 -mavx2 -maes -mpclmul -mrdrnd -mrdseed -msha -mbmi2 -mxsave -fno-strict-aliasing -fwrapv '
        '-fms-extensions -fms-compatibility -fms-compatibility-version=19.30 -fgnuc-version=4.2.1 -DNDEBUG').split()
# the project needs MSVC's late template parsing; the standard headers in the precompiled prelude must not be parsed that way
DTP = ('-fno-delayed-template-parsing', '-fdelayed-template-parsing')
VARIANTS = {
    'plain': ['-O1'],
    'asan': ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'fuzz': ['-O1', '-fsanitize=address,fuzzer-no-link', '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-fsanitize=thread'],
}
LINK = {'plain': [], 'asan': ['-fsanitize=address'], 'fuzz': ['-fsanitize=address,fuzzer'], 'tsan': ['-fsanitize=thread']}
# not part of the project's own build here either (stale)
STALE = {'ACSTest', 'DLTMK5Q8380417N256', 'DLTMK6Q8380417N256', 'SocketReceiver', 'SocketSender', 'Socket', 'SocketBase', 'SocketClient', 'SocketServer', 'NetworkTools'}
NETWORK = {'Socket', 'SocketBase', 'SocketClient', 'SocketServer', 'NetworkTools'}
FSED = (b'static_cast<int32_t>(Access) | static_cast<int32_t>(Mode))',
        b'static_cast<std::ios_base::openmode>(static_cast<int32_t>(Access) | static_cast<int32_t>(Mode)))')
INCRE = re.compile(rb'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)
_files = {}

def content(p):
    if p not in _files:
        try:
            b = open(p, 'rb').read()
        except OSError:
            b = None
        _files[p] = (b, [m.decode('latin1').replace('\\', '/') for m in INCRE.findall(b)] if b is not None else [])
    return _files[p]

def resolve(name, frm):
    for d in (os.path.dirname(frm), CEX, INC, os.path.join(VERIF, 'compat'), os.path.join(VERIF, 'harness')):
        p = os.path.normpath(os.path.join(d, name))
        if os.path.isfile(p):
            return p
    return None

def closure(src):
    seen, todo = set(), [src]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for n in content(p)[1]:
            q = resolve(n, p)
            if q and q not in seen:
                todo.append(q)
    return seen

def key(src, flags, extra=()):
    h = hashlib.sha256()
    for p in sorted(closure(src) | set(extra)):
        h.update(p.replace(VERIF, '@V').replace(REPO, '@R').encode() + b'\0')
        h.update(hashlib.sha256(content(p)[0] or b'').digest())
    h.update('\0'.join(flags).encode())
    return h.hexdigest()[:40]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode('utf8', 'replace')

class Builder:
    def __init__(self, variant):
        self.v = variant
        self.flags = BASE + VARIANTS[variant]
        self.cache = os.path.join(BUILD, 'cache')
        os.makedirs(self.cache, exist_ok=True)
        self.inc = ['-I' + CEX, '-I' + INC, '-I' + os.path.join(VERIF, 'compat'), '-I' + os.path.join(VERIF, 'harness')]
        self.prelude = os.path.join(VERIF, 'compat', 'prelude.h')
        self.pre = closure(self.prelude)
        self.pch = None

    def make_pch(self):
        k = key(self.prelude, self.flags)
        out = os.path.join(self.cache, k + '.pch')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            rc, o = run([CXX, '-x', 'c++-header'] + [DTP[0]] + self.flags + self.inc + [self.prelude, '-o', tmp])
            if rc:
                sys.stderr.write(o); raise SystemExit(3)
            os.replace(tmp, out)
        self.pch = out

    def obj(self, src, use_prelude=True, cflags=()):
        flags = self.flags + list(cflags)
        if os.path.basename(src).startswith(('MPKC', 'Xmss', 'XMSS', 'Sphincs', 'Keccak.cpp', 'SHA2.cpp')):
            flags.append('-O3')   # McEliece key generation and the hash-based signatures take many seconds without
        k = key(src, flags + ['P' if use_prelude else 'N'], self.pre if use_prelude else ())
        out = os.path.join(self.cache, k + '.o')
        if os.path.exists(out):
            return out, None
        real, tmpsrc = src, None
        if os.path.basename(src) == 'FileStream.cpp' and src.startswith(CEX):
            b = content(src)[0].replace(*FSED)
            tmpsrc = os.path.join(self.cache, k + '.FileStream.cpp')
            open(tmpsrc, 'wb').write(b)
            real = tmpsrc
        tmp = out + '.%d.tmp' % os.getpid()
        cmd = [CXX] + flags + ([DTP[1], '-include-pch', self.pch] if use_prelude else []) + self.inc + ['-c', real, '-o', tmp]
        rc, o = run(cmd)
        if tmpsrc:
            os.unlink(tmpsrc)
        if rc:
            return None, o
        os.replace(tmp, out)
        return out, None

    def units(self, mains, full=False):
        """translation units reachable from the harness sources"""
        cpps = {os.path.splitext(f)[0]: os.path.join(CEX, f) for f in os.listdir(CEX) if f.endswith('.cpp')}
        skip = STALE - (NETWORK if getattr(self, 'net', False) else set())
        if full:
            return sorted(p for n, p in cpps.items() if n not in skip)
        want, todo, seen = set(), list(mains), set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for p in closure(s):
                if os.path.dirname(p) == CEX:
                    n = os.path.splitext(os.path.basename(p))[0]
                    for m in (n, n + 'B' if n == 'MPKCN6960T119' else n):
                        if m in cpps and m not in skip and cpps[m] not in want:
                            want.add(cpps[m]); todo.append(cpps[m])
        return sorted(want)

    def build(self, harness, extra=(), libs=(), full=False):
        """harness: path of main source; returns path of the executable"""
        main = os.path.join(VERIF, 'harness', harness + '.cpp')
        text = content(main)[0].decode()
        m = re.search(r'//\s*LIBS:(.*)', text)
        libs = list(libs) + (m.group(1).split() if m else [])
        m = re.search(r'//\s*EXTRA:(.*)', text)
        extra = list(extra) + [os.path.join(VERIF, x) for x in (m.group(1).split() if m else [])]
        if 'PROP(' in text: extra.append(os.path.join(VERIF, 'harness', 'pbt_main.cpp'))
        m = re.search(r'//\s*CFLAGS:(.*)', text)
        cfl = m.group(1).split() if m else []
        self.net = bool(re.search(r'//\s*NETWORK', text))
        self.make_pch()
        units = self.units([main] + extra, full)
        jobs = [(main, True, cfl)] + [(u, True, ()) for u in units] + [(e, True, cfl) for e in extra]
        jobs.append((os.path.join(VERIF, 'compat', 'fakewin.cpp'), False, ()))
        # biggest sources first
        jobs.sort(key=lambda j: -sum(len(content(p)[0] or b'') for p in closure(j[0])))
        objs, errs = [], []
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get('VF_JOBS', '8'))) as ex:
            for (s, _, _), (o, e) in zip(jobs, ex.map(lambda j: self.obj(*j), jobs)):
                if o: objs.append(o)
                else: errs.append((s, e))
        if errs:
            for s, e in errs:
                sys.stderr.write('COMPILE FAILED %s\n%s\n' % (s, e[:4000]))
            raise SystemExit(3)
        bindir = os.path.join(BUILD, 'bin', self.v)
        os.makedirs(bindir, exist_ok=True)
        h = hashlib.sha256(('\0'.join(sorted(objs)) + '\0'.join(libs)).encode()).hexdigest()[:24]
        exe = os.path.join(bindir, '%s-%s' % (harness, h))
        if not os.path.exists(exe):
            tmp = exe + '.%d.tmp' % os.getpid()
            rc, o = run([CXX] + LINK[self.v] + ['-fuse-ld=lld'] + objs + ['-o', tmp] + libs + ['-lpthread', '-ldl', '-Wl,--no-dependent-libraries'])
            if rc:
                if not full and 'undefined' in o:
                    return self.build(harness, (), (), True)
                sys.stderr.write('LINK FAILED\n' + o[:6000]); raise SystemExit(3)
            os.replace(tmp, exe)
        for f in os.listdir(bindir):  # older builds of the same harness
            if f.startswith(harness + '-') and f != os.path.basename(exe) and not f.endswith('.tmp'):
                try: os.unlink(os.path.join(bindir, f))
                except OSError: pass
        return exe

def build(variant, harness):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return Builder(variant).build(harness)

if __name__ == '__main__':
    for hname in sys.argv[2:]:
        print(build(sys.argv[1], hname))
