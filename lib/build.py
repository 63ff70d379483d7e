"""Builds harnesses against the sources of the repository's working tree (offline, ninja).

Source lists are computed by globbing directories and following quoted #include
lines, so that files added or renamed by a refactoring are picked up."""
import os, re, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
DRAKE = 'third_party/com_github_robotlocomotion_drake'
TP = [DRAKE, 'third_party/com_github_pinam45_dynamic_bitset', 'third_party/com_github_tartanllama_optional',
      'third_party/com_github_progschj_threadpool', 'third_party/com_github_westes_flex']

VARIANTS = {
    'asan': '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS',
    'dbg': '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_DEBUG',
    'tsan': '-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread',
    'plain': '-O1 -g1 -D_GLIBCXX_ASSERTIONS',
}
LDFLAGS = {'asan': '-fsanitize=address,undefined', 'dbg': '-fsanitize=address,undefined', 'tsan': '-fsanitize=thread', 'plain': ''}

# directories of product code: (dir relative to repo)
DIRS = ['third_party/com_github_progschj_threadpool/ThreadPool', DRAKE + '/dreal/symbolic', 'dreal/symbolic', 'dreal/util', 'dreal/smt2', 'dreal/solver', 'dreal/contractor',
        'dreal/optimization', 'dreal/api', 'dreal/dr']
MISSING = re.compile(r'ibex|ezOptionParser|ez_option_parser|pybind11|nlopt|picosat')
EXCLUDE = re.compile(r'(_test\.cc|_main\.cc|_py\.cc)$')


class BuildError(Exception):
    pass


def _includes(path, cache={}):
    if path in cache:
        return cache[path]
    try:
        with open(path, errors='replace') as f:
            txt = f.read()
    except OSError:
        cache[path] = []
        return []
    cache[path] = re.findall(r'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]', txt, re.M)
    return cache[path]


def _resolve(inc, src):
    for base in [REPO, os.path.dirname(src)] + [os.path.join(REPO, t) for t in TP]:
        p = os.path.join(base, inc)
        if os.path.isfile(p):
            return os.path.normpath(p)
    return None


def closure(src):
    seen, todo, ext = set(), [src], set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for i in _includes(p):
            r = _resolve(i, p)
            if r:
                todo.append(r)
            else:
                ext.add(i)
    return seen, ext


def all_sources():
    out = []
    for d in DIRS:
        full = os.path.join(REPO, d)
        if not os.path.isdir(full):
            continue
        for root, dirs, files in os.walk(full):
            dirs[:] = [x for x in dirs if x not in ('test', 'tests', 'examples', 'benchmark')]
            for f in sorted(files):
                if f.endswith(('.cc', '.cpp', '.cxx')) and not EXCLUDE.search(f):
                    out.append(os.path.join(root, f))
    return out


def core_sources():
    """Sources whose transitive includes need no missing external and no generated parser."""
    out = []
    for s in all_sources():
        rel = os.path.relpath(s, REPO)
        if rel.startswith(('dreal/dr/', 'dreal/optimization/', 'dreal/api/')):
            continue
        _, ext = closure(s)
        if any(MISSING.search(e) or e.endswith(('.yy.hh', '.ll.hh')) for e in ext):
            continue
        out.append(s)
    return out


def needed_sources(harness, kind):
    """The sources behind the headers the harness includes (a source is behind a header when it
    has its name, or includes it and no header has the source's name), transitively."""
    cand = core_sources() if kind == 'core' else full_sources()
    owner = {}
    for s in cand:
        h = re.sub(r'\.\w+$', '.h', s)
        if os.path.isfile(h):
            owner.setdefault(h, set()).add(s)
        else:
            for i in _includes(s):
                r = _resolve(i, s)
                if r:
                    owner.setdefault(r, set()).add(s)
    done, todo, out = set(), [os.path.join(VERIF, 'harness', harness + '.cc')], set()
    while todo:
        p = todo.pop()
        if p in done:
            continue
        done.add(p)
        for i in _includes(p):
            r = _resolve(i, p) or (os.path.join(VERIF, 'harness', i) if os.path.isfile(os.path.join(VERIF, 'harness', i)) else None)
            if r:
                todo.append(r)
                for s in owner.get(r, ()):
                    out.add(s)
                    todo.append(s)
    return sorted(out)


def full_sources():
    return all_sources()


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, 'w') as f:
        f.write(text)


def version_header(gen):
    ver = '0.0.0'
    try:
        for line in open(os.path.join(REPO, 'tools/dreal.bzl')):
            m = re.match(r'DREAL_VERSION\s*=\s*"([^"]+)"', line.strip())
            if m:
                ver = m.group(1)
    except OSError:
        pass
    p = (ver.split('.') + ['0', '0', '0'])
    pre = p[3] if len(ver.split('.')) > 3 else ''
    write_if_changed(os.path.join(gen, 'dreal/version.h'),
                     '#pragma once\n#define DREAL_VERSION_STRING "%s"\n#define DREAL_VERSION_FULL %s\n'
                     '#define DREAL_VERSION_MAJOR %s\n#define DREAL_VERSION_MINOR %s\n#define DREAL_VERSION_REVISION %s\n'
                     % (ver, ver, p[0], p[1], p[2]))


def obj_name(src):
    rel = os.path.relpath(src, REPO) if src.startswith(REPO + os.sep) else os.path.relpath(src, '/')
    return rel.replace('/', '__').replace('..', 'up') + '.o'


def build(harnesses, verbose=False):
    try:
        return build1(harnesses, verbose, False)
    except BuildError:
        return build1(harnesses, verbose, True)


def build1(harnesses, verbose, everything):
    """harnesses: list of (name, variant, kind) with kind 'core' | 'full' | 'none'. Returns {(name, variant): path}."""
    cwd = os.path.join(BUILD, hashlib.sha1(REPO.encode()).hexdigest()[:8])
    gen = os.path.join(cwd, 'gen')
    os.makedirs(gen, exist_ok=True)
    version_header(gen)
    L = ['ninja_required_version = 1.3', 'builddir = .']
    inc = '-iquote %s -iquote %s ' % (REPO, gen)
    inc += '-isystem %s/%s/. ' % (REPO, DRAKE)
    inc += ' '.join('-isystem %s/%s' % (REPO, t) for t in TP[1:])
    defs = '-DFMT_DEPRECATED_OSTREAM=1 -DFMT_NO_FMT_STRING_ALIAS=1 -DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB -DSPDLOG_SHARED_LIB'
    base = '-fPIC -fno-strict-aliasing -w -pthread -include cstdint'
    hx = '-I %s/harness' % VERIF
    shim = os.path.join(VERIF, 'shim')
    for v in VARIANTS:
        L += ['rule cc_%s' % v, '  command = g++ -std=gnu++17 %s %s %s $extra -MD -MF $out.d -c $in -o $out' % (VARIANTS[v], base, defs),
              '  depfile = $out.d', '  deps = gcc', '  description = CC[%s] $out' % v]
        L += ['rule ar_%s' % v, '  command = rm -f $out && ar crs $out @$out.rsp', '  rspfile = $out.rsp', '  rspfile_content = $in', '  description = AR $out']
        L += ['rule ln_%s' % v, '  command = g++ %s -pthread -o $out $in $libs' % LDFLAGS[v], '  description = LD $out']
    L += ['rule bison', '  command = bison -o $cc --defines=$hh --report=none -Wno-other $in', '  description = BISON $in']
    L += ['rule flex', '  command = flex -o $out $in', '  description = FLEX $in']
    done = set()
    targets = {}
    kinds = set((v, k) for _, v, k in harnesses if k != 'none')
    gen_objs = {}
    if any(k == 'full' for _, k in kinds):
        gen_srcs = []
        for d in ('smt2', 'dr'):
            y = os.path.join(REPO, 'dreal', d, 'parser.yy')
            l = os.path.join(REPO, 'dreal', d, 'scanner.ll')
            oc = '%s/dreal/%s/parser.yy.cc' % (gen, d)
            oh = '%s/dreal/%s/parser.yy.hh' % (gen, d)
            os.makedirs(os.path.dirname(oc), exist_ok=True)
            extra_h = ' '.join('%s/dreal/%s/%s' % (gen, d, x) for x in ('location.hh',))
            L += ['build %s %s | %s: bison %s' % (oc, oh, extra_h, y), '  cc = %s' % oc, '  hh = %s' % oh]
            ol = '%s/dreal/%s/scanner.ll.cc' % (gen, d)
            L += ['build %s: flex %s' % (ol, l)]
            gen_srcs += [oc, ol]
        gen_hdrs = ['%s/dreal/%s/parser.yy.hh' % (gen, d) for d in ('smt2', 'dr')]
    libs = {}
    for v, k in sorted(kinds):
        srcs = core_sources() if k == 'core' else full_sources()
        if not everything:
            want = set()
            for name, v2, k2 in harnesses:
                if (v2, k2) == (v, k):
                    want.update(needed_sources(name, k))
            srcs = sorted(want)
        objs = []
        for s in srcs:
            o = 'obj/%s/%s/%s' % (v, k, obj_name(s))
            order = ' || ' + ' '.join(gen_hdrs) if k == 'full' else ''
            sh = '-isystem %s ' % shim if k == 'full' else ''
            L += ['build %s: cc_%s %s%s' % (o, v, s, order), '  extra = %s %s' % (inc, sh)]
            objs.append(o)
        if k == 'full':
            for s in gen_srcs:
                if not any(os.path.basename(os.path.dirname(s)) == os.path.basename(os.path.dirname(q)) and os.path.basename(q) == 'driver.cc' for q in srcs):
                    continue
                o = 'obj/%s/%s/%s' % (v, k, os.path.relpath(s, cwd).replace('/', '__') + '.o')
                L += ['build %s: cc_%s %s || %s' % (o, v, s, ' '.join(gen_hdrs)), '  extra = %s -isystem %s' % (inc, shim)]
                objs.append(o)
            for f in sorted(os.listdir(shim)) if os.path.isdir(shim) else []:
                if f.endswith('.cc'):
                    o = 'obj/%s/%s/shim_%s.o' % (v, k, f)
                    L += ['build %s: cc_%s %s' % (o, v, os.path.join(shim, f)), '  extra = %s -isystem %s' % (inc, shim)]
                    objs.append(o)
        lib = 'lib/%s_%s_%s.a' % (v, k, hashlib.sha1(' '.join(objs).encode()).hexdigest()[:8])
        L += ['build %s: ar_%s %s' % (lib, v, ' '.join(objs))]
        libs[(v, k)] = lib
    for name, v, k in harnesses:
        if (name, v) in targets:
            continue
        o = 'obj/%s/h_%s_%s.o' % (v, k, name)
        sh = '-isystem %s ' % shim if k == 'full' else ''
        order = ' || ' + ' '.join(gen_hdrs) if k == 'full' else ''
        L += ['build %s: cc_%s %s/harness/%s.cc%s' % (o, v, VERIF, name, order), '  extra = %s %s %s %s' % (inc, hx, sh, '-fno-sanitize-address-use-after-scope' if k != 'none' and v != 'tsan' else '')]
        out = 'bin/%s/%s' % (v, name)
        lib = libs.get((v, k), '')
        extra = '-lquadmath -lspdlog -lfmt'
        if k == 'full':
            extra += ' -lpicosat -lnlopt -lcds -lgmpxx -lgmp'
        L += ['build %s: ln_%s %s %s' % (out, v, o, lib), '  libs = %s' % extra]
        targets[(name, v)] = os.path.join(cwd, out)
    nf = os.path.join(cwd, 'build-%s.ninja' % hashlib.sha1(repr((sorted(harnesses), everything)).encode()).hexdigest()[:8])
    write_if_changed(nf, '\n'.join(L) + '\n')
    cmd = ['ninja', '-C', cwd, '-f', nf] + [os.path.relpath(t, cwd) for t in targets.values()]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if verbose or (p.returncode != 0 and everything):
        sys.stderr.write(p.stdout[-12000:])
    if p.returncode != 0:
        raise BuildError('build failed')
    return targets
