"""Build and run machinery shared by the checks: everything is derived from /repo's current working tree."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
JOBS = max(1, min(8, os.cpu_count() or 1))
CLANG = 'clang++'
NM = 'llvm-nm-18'

BC_FLAGS = ['-std=c++20', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only',
            '-include', os.path.join(VERIF, 'rt/prelude.h'), '-I' + os.path.join(VERIF, 'rt'), '-I' + os.path.join(VERIF, 'harness')]
# undefined behaviour becomes a trap that the executor reports
UB_FLAGS = ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,return,bool,enum,null', '-fsanitize-trap=all']
UB_FLAGS = ['-fsanitize=shift,bounds,return', '-fsanitize-trap=all']

# sources of the repository that the harnesses may need (third-party bindings and other platforms excluded)
SRC_GLOBS = ['src/joedb/*.cpp', 'src/joedb/journal/*.cpp', 'src/joedb/interpreted/*.cpp', 'src/joedb/concurrency/*.cpp',
             'src/joedb/error/*.cpp', 'src/joedb/ui/*.cpp', 'src/joedb/rpc/*.cpp', 'src/joedb/compiler/*.cpp', 'src/joedb/compiler/generator/*.cpp', 'src/external/*.cpp']
EXCLUDE = re.compile(r'(Windows_File|Android_Logger|Apple_Logger|CURL_File|Brotli|Websocket_Channel|/minimal_runtime\w*\.cpp|Local_Channel|/ssh/|/asio/)')
MAIN_RE = re.compile(r'^\s*int\s+main\s*\(', re.M)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()


_content = {}


def file_hash(path):
    try:
        st = os.stat(path)
    except OSError:
        return 'missing'
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _content:
        with open(path, 'rb') as f:
            _content[key] = hashlib.sha256(f.read()).hexdigest()
    return _content[key]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


class BuildError(Exception):
    pass


def parse_deps(text):
    text = text.replace('\\\n', ' ')
    i = text.index(':')
    return [d for d in text[i + 1:].split() if d]


def cached_compile(src, cmd_base, suffix, out_flag='-o'):
    """Compile src with cmd_base, cached by the contents of everything it includes."""
    os.makedirs(CACHE, exist_ok=True)
    key = sha(' '.join(cmd_base), src)[:24]
    meta = os.path.join(CACHE, key + '.json')
    out = os.path.join(CACHE, key + suffix)
    try:
        with open(meta) as f:
            m = json.load(f)
        if os.path.exists(out) and all(file_hash(d) == h for d, h in m['deps'].items()):
            return out
    except (OSError, ValueError):
        pass
    tmp = out + '.%d.tmp' % os.getpid()
    dep = tmp + '.d'
    r = run(cmd_base + ['-MD', '-MF', dep, '-c', src, out_flag, tmp])
    if r.returncode:
        raise BuildError('compilation of %s failed:\n%s' % (src, "\n".join(l for l in r.stderr.splitlines() if "error" in l)[-4000:]))
    with open(dep) as f:
        deps = parse_deps(f.read())
    os.unlink(dep)
    os.replace(tmp, out)
    with open(meta + '.tmp%d' % os.getpid(), 'w') as f:
        json.dump({'deps': {d: file_hash(d) for d in deps}}, f)
    os.replace(meta + '.tmp%d' % os.getpid(), meta)
    return out


def build_engine():
    """The executor itself (from /verif/engine)."""
    os.makedirs(BUILD, exist_ok=True)
    r = run(['make', '-s', '-j%d' % JOBS, '-C', os.path.join(VERIF, 'engine'), 'OUT=' + BUILD])
    if r.returncode:
        raise BuildError('engine build failed:\n' + r.stderr[-4000:])
    return os.path.join(BUILD, 'symx')


def nm(path):
    """defined strong, defined weak, undefined symbols of a bitcode or object file"""
    key = path + '.nm'
    try:
        if os.path.getmtime(key) >= os.path.getmtime(path):
            with open(key) as f:
                d, w, u = json.load(f)
                return set(d), set(w), set(u)
    except (OSError, ValueError):
        pass
    r = run([NM, '-P', path])
    d, w, u = set(), set(), set()
    for line in r.stdout.splitlines():
        p = line.split()
        if len(p) < 2:
            continue
        n, t = p[0], p[1]
        if t == 'U':
            u.add(n)
        elif t in 'Ww' or t in 'Vv':
            w.add(n)
        elif t.isupper():
            d.add(n)
    try:
        with open(key, 'w') as f:
            json.dump([sorted(d), sorted(w), sorted(u)], f)
    except OSError:
        pass
    return d, w, u


def repo_sources():
    r = []
    for g in SRC_GLOBS:
        for f in sorted(glob.glob(os.path.join(REPO, g))):
            if not EXCLUDE.search(f):
                r.append(f)
    # files that define main() are programs, not library code
    out = []
    for f in r:
        with open(f, errors='replace') as h:
            if MAIN_RE.search(h.read()):
                continue
        out.append(f)
    return out


HINTS = os.path.join(VERIF, 'rt/symbol_hints.json')


class Program:
    """A harness linked with what it needs of the repository, as bitcode."""

    def __init__(self, harness, includes=(), extra=(), defines=(), ub=False):
        self.harness = harness
        self.includes = list(includes)
        self.extra = list(extra)
        self.defines = list(defines)
        self.flags = [CLANG, '-emit-llvm'] + BC_FLAGS + (UB_FLAGS if ub else []) + ['-I' + i for i in self.includes] + ['-I' + os.path.join(REPO, 'src')] + ['-D' + d for d in self.defines]
        self.mains = []
        self.libs = []
        self.sources = []

    def bc(self, src):
        return cached_compile(src, self.flags, '.bc')

    def build(self, pool):
        try:
            with open(HINTS) as f:
                hints = json.load(f)
        except OSError:
            hints = {}
        rt_flags = [CLANG, '-emit-llvm'] + BC_FLAGS
        frt = pool.submit(cached_compile, os.path.join(VERIF, 'rt/rt.cpp'), rt_flags + ['-fno-builtin'], '.bc')
        frt2 = pool.submit(cached_compile, os.path.join(VERIF, 'rt/rt_io.cpp'), rt_flags, '.bc')
        firsts = [os.path.join(VERIF, 'harness', self.harness)] + self.extra
        # start with the harness and what it needed the last time
        want = hints.get('files:' + self.harness, [])
        sources = repo_sources()
        rel = {os.path.relpath(s, REPO): s for s in sources}
        guess = [rel[w] for w in want if w in rel]
        fg = {s: pool.submit(self.bc, s) for s in guess}
        self.mains = list(pool.map(self.bc, firsts))
        done = {s: f.result() for s, f in fg.items()}
        tried_all = False
        while True:
            defined, undefined = set(), set()
            for b in self.mains:
                d, w, u = nm(b)
                defined |= d | w
                undefined |= u
            used = set()
            changed = True
            while changed:
                changed = False
                for s, b in done.items():
                    if s in used:
                        continue
                    d, w, u = nm(b)
                    if d & (undefined - defined):
                        used.add(s)
                        defined |= d | w
                        undefined |= u
                        changed = True
            missing = {m for m in undefined - defined if ('joedb' in m or 'wide_char' in m) and not m.startswith('_ZTH')}
            if not missing or tried_all:
                break
            nxt = set()
            for m in missing:
                h = hints.get(m)
                if h and h in rel and rel[h] not in done:
                    nxt.add(rel[h])
            if not nxt:
                nxt = {s for s in sources if s not in done}
                tried_all = True
            if not nxt:
                break
            for s, b in zip(nxt, pool.map(self._try, nxt)):
                if b:
                    done[s] = b
                else:
                    done.pop(s, None)
            done = {s: b for s, b in done.items() if b}
        self.missing = missing
        self.sources = sorted(used)
        self.libs = [done[s] for s in self.sources] + [frt.result(), frt2.result()]
        self.used_files = sorted(os.path.relpath(s, REPO) for s in used)
        return self

    def _try(self, s):
        try:
            return self.bc(s)
        except BuildError as e:
            log('note: %s' % str(e)[:500])
            return None

    # -------------------------------------------------------------- native builds
    def native_from_bitcode(self, pool):
        """The very bitcode that was analysed, compiled natively with the real C++ library."""
        flags = [CLANG, '-O0', '-Wno-everything', '-fno-stack-protector']
        bcs = self.mains + [b for b, s in zip(self.libs, self.sources)]
        objs = list(pool.map(lambda b: self._ir_obj(b), bcs))
        nat = cached_compile(os.path.join(VERIF, 'rt/native.cpp'), [CLANG, '-std=c++20', '-O1', '-I' + os.path.join(VERIF, 'rt')], '.o')
        out = os.path.join(CACHE, 'nat_' + sha(*objs, file_hash(nat), self.harness)[:20])
        if not os.path.exists(out):
            r = run(flags + ['-rdynamic', '-o', out + '.tmp'] + objs + [nat] + self.native_stub() + ['-lpthread', '-ldl'])
            if r.returncode:
                raise BuildError('native link failed: ' + r.stderr[-3000:])
            os.replace(out + '.tmp', out)
        return out

    def native_stub(self):
        return []

    def _ir_obj(self, bc):
        with open(bc, 'rb') as f:
            h = hashlib.sha256(f.read()).hexdigest()[:24]
        out = os.path.join(CACHE, 'ir_' + h + '.o')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            r = run([CLANG, '-x', 'ir', '-O1', '-Wno-everything', '-c', bc, '-o', tmp])
            if r.returncode:
                raise BuildError('native compilation failed: ' + r.stderr[-3000:])
            os.replace(tmp, out)
        return out

    def native_sanitized(self, pool):
        """Independent build from source with AddressSanitizer and UndefinedBehaviorSanitizer, to confirm a violation."""
        base = [CLANG, '-std=c++20', '-O1', '-g1', '-fsanitize=address,shift,bounds,return,unreachable', '-fno-sanitize-recover=all', '-I' + os.path.join(VERIF, 'rt'), '-I' + os.path.join(VERIF, 'harness')] + \
            ['-I' + i for i in self.includes] + ['-I' + os.path.join(REPO, 'src')] + ['-D' + d for d in self.defines]
        srcs = [os.path.join(VERIF, 'harness', self.harness)] + self.extra + self.sources + [os.path.join(VERIF, 'rt/native.cpp')]
        objs = list(pool.map(lambda s: cached_compile(s, base, '.o'), srcs))
        out = os.path.join(CACHE, 'asan_' + sha(*[file_hash(o) for o in objs])[:20])
        if not os.path.exists(out):
            r = run(base + ['-rdynamic', '-o', out + '.tmp'] + objs + ['-lpthread', '-ldl'])
            if r.returncode:
                raise BuildError('sanitized link failed: ' + r.stderr[-3000:])
            os.replace(out + '.tmp', out)
        return out


def merge(results):
    t = {}
    for r in results:
        for k, v in r.items():
            if isinstance(v, dict):
                d = t.setdefault(k, {})
                for k2, v2 in v.items():
                    if k2 == 'slowest':
                        d[k2] = max(d.get(k2, 0), v2)
                    else:
                        d[k2] = d.get(k2, 0) + v2
            elif isinstance(v, list):
                t.setdefault(k, []).extend(v)
            else:
                t[k] = t.get(k, 0) + v
    return t


def symx(program, entry, seconds, jobs=JOBS, preempt=None, params=None, max_violations=6, samples=4, solver_timeout=None, concretize=None, random_search=False, max_steps=None, seed=1):
    out = tempfile.mktemp(prefix='symx_', suffix='.json', dir=BUILD)
    cmd = [os.path.join(BUILD, 'symx'), '--entry', entry, '--time', str(seconds), '--jobs', str(jobs), '--out', out,
           '--max-violations', str(max_violations), '--samples', str(samples), '--seed', str(seed)]
    if preempt is not None:
        cmd += ['--preempt', str(preempt)]
    if solver_timeout:
        cmd += ['--solver-timeout', str(solver_timeout)]
    if concretize:
        cmd += ['--concretize', str(concretize)]
    if random_search:
        cmd += ['--random']
    if max_steps:
        cmd += ['--max-steps', str(max_steps)]
    cmd += program.mains + ['--lib'] + program.libs
    env = dict(os.environ)
    for k, v in (params or {}).items():
        env['SYM_PARAM_' + k] = str(v)
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=seconds * 1.5 + 60)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        e += '\nkilled after timeout'
    wall = time.time() - t0
    try:
        with open(out) as f:
            res = json.load(f)
        os.unlink(out)
    except (OSError, ValueError) as x:
        return {'error': 'executor failed (%s): %s' % (x, e[-2000:]), 'wall': wall}
    r = merge(res)
    r['wall'] = wall
    r['stderr'] = e[-1000:]
    r['processes'] = len(res)
    return r


def write_inputs(path, inputs, header=()):
    with open(path, 'w') as f:
        for h in header:
            f.write('# ' + h + '\n')
        for l in inputs:
            f.write(l + '\n')


def replay(binary, inputs_file, entry, params=None, preempt=None, timeout=100):
    env = dict(os.environ)
    for k, v in (params or {}).items():
        env['SYM_PARAM_' + k] = str(v)
    if preempt is not None:
        env['SYM_PREEMPT'] = str(preempt)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:handle_abort=1'
    with tempfile.TemporaryDirectory(prefix='replay_', dir=BUILD) as d:
        try:
            r = run([binary, inputs_file, entry], env=env, timeout=timeout, cwd=d)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as x:
            return 99, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'


def update_hints(pool_programs):
    """Developer command: remember where symbols are defined, to avoid compiling everything."""
    hints = {}
    for p in pool_programs:
        hints['files:' + p.harness] = p.used_files
        for s, b in zip(p.sources, p.libs):
            for d in nm(b)[0]:
                if 'joedb' in d:
                    hints[d] = os.path.relpath(s, REPO)
    return hints
