#!/usr/bin/env python3
"""Builds LIBOL/SOL (from /repo's working tree) and the harnesses, out of tree.

Objects are cached under /verif/build keyed by the content of everything they
can include, so a rebuild after an edit of /repo recompiles what changed."""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'g++'

BASE = ['-std=c++11', '-g1', '-Wno-error', '-w', '-pthread', '-DUSE_PTHREAD',
        '-DJSON_DLL_BUILD', '-DSOL_EXPORTS', '-Dsol_EXPORTS',
        '-DHAS_NUMPY_DEV', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION']
VARIANTS = {
    # memory-safety build: what most checks run
    'asan': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address'],
    # additionally undefined behaviour in arithmetic/shift/bounds traps
    'ubsan': ['-O1', '-fno-omit-frame-pointer',
              '-fsanitize=address,signed-integer-overflow,shift,bounds,'
              'integer-divide-by-zero,null,return,unreachable',
              '-fno-sanitize-recover=all'],
    # the Python extension, run with the sanitizer's library preloaded
    'pyasan': ['-O1', '-fPIC', '-fno-omit-frame-pointer', '-fsanitize=address'],
    # plain build: scheduler harness, command line tools
    'plain': ['-O1'],
}

def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)

def py_includes():
    out = []
    for code in ('import sysconfig;print(sysconfig.get_paths()["include"])',
                 'import numpy;print(numpy.get_include())'):
        r = subprocess.run(['/usr/bin/python3', '-c', code],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True)
        if r.returncode == 0:
            out.append('-I' + r.stdout.strip().splitlines()[-1])
    return out

def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()

def find(root, exts):
    res = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ('_build', '.git')]
        res += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return sorted(res)

class Builder:
    def __init__(self):
        self.inc = ['-I' + os.path.join(REPO, 'include'),
                    '-I' + os.path.join(REPO, 'external')] + py_includes()
        self.repo_hdr = file_hash(
            find(os.path.join(REPO, 'include'), ('.h', '.hpp', '.inl')) +
            find(os.path.join(REPO, 'external'), ('.h', '.hpp')) +
            find(os.path.join(REPO, 'src'), ('.h', '.hpp', '.inl')))
        self.h_hdr = file_hash(glob.glob(os.path.join(VERIF, 'harness', '*.h')))
        self.pool = cf.ThreadPoolExecutor(os.cpu_count() or 4)

    def lib_sources(self):
        return (find(os.path.join(REPO, 'src', 'sol'), ('.cc', '.cpp')) +
                glob.glob(os.path.join(REPO, 'external', 'json', '*.cpp')))

    def compile(self, src, variant, extra=(), own=False):
        flags = BASE + VARIANTS[variant] + list(extra) + self.inc
        if own:
            flags = ['-I' + os.path.join(VERIF, 'harness')] + flags
        key = hashlib.sha256(('\0'.join([CXX] + flags) + self.repo_hdr +
                              (self.h_hdr if own else '') +
                              file_hash([src])).encode()).hexdigest()[:24]
        d = os.path.join(BUILD, 'obj')
        os.makedirs(d, exist_ok=True)
        obj = os.path.join(d, os.path.basename(src) + '.' + key + '.o')
        if not os.path.exists(obj):
            tmp = obj + '.%d.tmp' % os.getpid()
            r = sh([CXX] + flags + ['-c', src, '-o', tmp])
            if r.returncode != 0:
                raise RuntimeError('compile of %s failed:\n%s' % (src, r.stdout[:3000]))
            os.replace(tmp, obj)
        return obj

    def link(self, name, objs, variant, extra=()):
        key = hashlib.sha256('\0'.join(list(objs) + list(extra)).encode()
                             ).hexdigest()[:16]
        d = os.path.join(BUILD, 'bin')
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, '%s.%s.%s' % (name, variant, key))
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(d, '%s.%s.*' % (name, variant))):
                os.unlink(old)
            tmp = exe + '.%d.tmp' % os.getpid()
            r = sh([CXX] + VARIANTS[variant] + ['-pthread', '-rdynamic', '-o', tmp] +
                   list(objs) + list(extra) + ['-ldl'])
            if r.returncode != 0:
                raise RuntimeError('link of %s failed:\n%s' % (name, r.stdout[:3000]))
            os.replace(tmp, exe)
        return exe

    def harness(self, names, variant, extra_srcs=('pbt.cc',), extra=()):
        """names: harness/<name>.cc -> {name: exe}; library objects linked in."""
        jobs = {}
        for s in self.lib_sources():
            jobs[self.pool.submit(self.compile, s, variant)] = ('lib', s)
        for n in list(names):
            s = os.path.join(VERIF, 'harness', n + '.cc')
            jobs[self.pool.submit(self.compile, s, variant, extra, True)] = ('h', n)
        for e in extra_srcs:
            s = os.path.join(VERIF, 'harness', e)
            jobs[self.pool.submit(self.compile, s, variant, extra, True)] = ('x', e)
        lib, own, ex = [], {}, []
        for f, (k, n) in list(jobs.items()):
            o = f.result()
            if k == 'lib': lib.append(o)
            elif k == 'h': own[n] = o
            else: ex.append(o)
        lib.sort(); ex.sort()
        return {n: self.link(n, [own[n]] + ex + lib, variant) for n in names}

    def tools(self, names, variant='plain'):
        jobs = [self.pool.submit(self.compile, s, variant) for s in self.lib_sources()]
        tj = {n: self.pool.submit(self.compile, os.path.join(REPO, 'tools', n + '.cc'),
                                  variant) for n in names}
        lib = sorted(j.result() for j in jobs)
        return {n: self.link('tool_' + n, [j.result()] + lib, variant)
                for n, j in tj.items()}

    def pyext(self, variant='pyasan'):
        """python/pysol.pyx -> a directory with the extension module for /usr/bin/python3.
        The source is Python 2's; the directives give it Python 2's strings and callbacks."""
        src = os.path.join(REPO, 'python')
        ins = [os.path.join(src, f) for f in ('pysol.pyx', 'pysol.pxd')]
        key = hashlib.sha256((file_hash(ins) + self.repo_hdr).encode()).hexdigest()[:16]
        d = os.path.join(BUILD, 'py', key)
        cpp = os.path.join(d, 'pysol.cpp')
        if not os.path.exists(cpp):
            os.makedirs(d, exist_ok=True)
            tmp = cpp + '.%d.tmp.cpp' % os.getpid()
            r = sh(['/usr/bin/cython', '--cplus', '-2', '-X', 'legacy_implicit_noexcept=True',
                    '-X', 'c_string_type=str', '-X', 'c_string_encoding=ascii', '-I', src,
                    '--module-name', 'pysol', ins[0], '-o', tmp])
            if r.returncode != 0:
                raise RuntimeError('compile of pysol.pyx failed:\n%s' % r.stdout[-3000:])
            os.replace(tmp, cpp)
        jobs = [self.pool.submit(self.compile, s, variant) for s in self.lib_sources() + [cpp]]
        jobs.append(self.pool.submit(self.compile, os.path.join(VERIF, 'harness', 'pywrap.cc'), variant))
        objs = sorted(j.result() for j in jobs)
        wrap = ['-Wl,--wrap=sol_' + f for f in ('CreateModel', 'RestoreModel', 'ReleaseModel',
                                                'CreateDataIter', 'ReleaseDataIter')]
        exe = self.link('pysol', objs, variant, ['-shared'] + wrap)
        out = os.path.join(d, 'pysol.so')
        tmp = out + '.%d.tmp' % os.getpid()
        if os.path.lexists(out): os.unlink(out)
        os.symlink(exe, tmp)
        os.replace(tmp, out)
        return d

if __name__ == '__main__':
    b = Builder()
    print(b.harness(sys.argv[2:], sys.argv[1]))
