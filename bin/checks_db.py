"""Code generated by joedbc: a harness asks for it with a comment line '// generated: schema...' """
import os
import re
import subprocess
import vlib

SCHEMA = os.path.join(vlib.VERIF, 'harness/schema')


def build_joedbc(pool):
    """The schema compiler, built from the repository's current sources."""
    main = os.path.join(vlib.REPO, 'src/joedb/compiler/joedbc.cpp')
    flags = [vlib.CLANG, '-std=c++20', '-O0', '-I' + os.path.join(vlib.REPO, 'src')]
    srcs = [main] + [s for s in vlib.repo_sources() if '/rpc/' not in s and '/concurrency/' not in s and os.path.basename(s) not in ('Encoded_File.cpp',)]

    def comp(s):
        try:
            return vlib.cached_compile(s, flags, '.o')
        except vlib.BuildError as e:
            if s == main:
                raise
            return None
    objs = [o for o in pool.map(comp, srcs) if o]
    # what joedbc needs
    defined, undefined, used = set(), set(), [objs[0]]
    d, w, u = vlib.nm(objs[0])
    defined |= d | w
    undefined |= u
    rest = objs[1:]
    changed = True
    while changed:
        changed = False
        for o in list(rest):
            d, w, u = vlib.nm(o)
            if d & (undefined - defined):
                rest.remove(o)
                used.append(o)
                defined |= d | w
                undefined |= u
                changed = True
    out = os.path.join(vlib.CACHE, 'joedbc_' + vlib.sha(*[vlib.file_hash(o) for o in used])[:20])
    if not os.path.exists(out):
        r = vlib.run([vlib.CLANG, '-o', out + '.tmp'] + used + ['-lpthread'])
        if r.returncode:
            raise vlib.BuildError('joedbc does not link: ' + r.stderr[-2000:])
        os.replace(out + '.tmp', out)
    return out


def generated(harness, pool):
    with open(os.path.join(vlib.VERIF, 'harness', harness)) as f:
        text = f.read()
    m = re.search(r'^// generated: (.*)$', text, re.M)
    mock = [os.path.join(vlib.VERIF, 'rt/asio')] if re.search(r'^// asio$', text, re.M) else []
    if re.search(r'^// posix$', text, re.M):
        mock.append(os.path.join(vlib.VERIF, 'rt/posix'))
    if not m:
        return mock, []
    joedbc = build_joedbc(pool)
    inc, extra = list(mock), []
    for name in m.group(1).split():
        top = os.path.join(vlib.BUILD, 'gen', vlib.file_hash(joedbc)[:16] + name)
        src = SCHEMA
        sub = name
        if name == 'encoded_file':
            src = os.path.join(vlib.REPO, 'src/joedb/db')
            os.makedirs(os.path.join(top, 'joedb/db'), exist_ok=True)
            inc.append(top)
            top = os.path.join(top, 'joedb/db')
        else:
            os.makedirs(top, exist_ok=True)
            inc.append(top)
        texts = {}
        for suffix in ('.joedbi', '.joedbc'):
            with open(os.path.join(src, name + suffix)) as f:
                texts[suffix] = f.read()
        rpc = os.path.join(src, name + '.rpc')
        if os.path.isdir(rpc):
            for f in sorted(os.listdir(rpc)):
                with open(os.path.join(rpc, f)) as g:
                    texts['.rpc/' + f] = g.read()
        stamp = vlib.sha(*texts.values())
        done = os.path.join(top, 'done')
        if not (os.path.exists(done) and open(done).read() == stamp):
            for suffix, t in texts.items():
                os.makedirs(os.path.dirname(os.path.join(top, name + suffix)), exist_ok=True)
                with open(os.path.join(top, name + suffix), 'w') as f:
                    f.write(t)
            r = subprocess.run([joedbc, name], cwd=top, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
            if r.returncode:
                raise vlib.BuildError('joedbc %s: %s' % (name, r.stdout[-1000:]))
            with open(done, 'w') as f:
                f.write(stamp)
        gen = os.path.join(top, sub)
        if not os.path.exists(os.path.join(gen, 'Writable_Database.cpp')):
            # nested name space
            for d, _, fs in os.walk(top):
                if 'Writable_Database.cpp' in fs:
                    gen = d
        for d in sorted(set([gen] + [d for d, _, fs in os.walk(os.path.join(gen, 'rpc')) if 'Writable_Database.cpp' in fs])):
            for f in ('Database_Writable.cpp', 'Writable_Database.cpp'):
                extra.append(os.path.join(d, f))
    return inc, extra
