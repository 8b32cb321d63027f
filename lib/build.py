"""Builds everything a check needs from /repo's current working tree.

Nothing is executed from /repo: the library's translation units are compiled
to LLVM bitcode (clang, unoptimised, with debug info), the exporter (tool/irx)
normalises selected functions and writes them as JSON.  Results are cached in
/verif/build under a hash of the complete input, so a changed tree is always
re-analysed.
"""
import hashlib, json, os, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = 'clang++'
os.makedirs(BUILD, exist_ok=True)


class Broken(Exception):
    """The analysis itself could not be carried out (neither pass nor violation)."""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise Broken('command failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd)[:400], r.stdout[-4000:]))
    return r.stdout


def _hash_tree():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'tpie'), os.path.join(REPO, 'cmake_modules')]
    files = [os.path.join(REPO, 'CMakeLists.txt')]
    for r in roots:
        for d, dn, fn in os.walk(r):
            dn.sort()
            if d.endswith('deadcode'):
                continue
            for f in sorted(fn):
                files.append(os.path.join(d, f))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fd:
                h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:24]


_tree = None
def tree():
    global _tree
    if _tree is None:
        _tree = _hash_tree()
    return _tree


def workdir():
    d = os.path.join(BUILD, 'tree-' + tree())
    os.makedirs(d, exist_ok=True)
    return d


def filehash(*paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


_irx = None
def irx():
    global _irx
    if _irx:
        return _irx
    src = os.path.join(VERIF, 'tool', 'irx.cpp')
    out = os.path.join(BUILD, 'irx-' + filehash(src))
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        run(['bash', os.path.join(VERIF, 'tool', 'build.sh'), tmp])
        os.rename(tmp, out)
    _irx = out
    return out


_conf = None
def config():
    """Configure /repo out of tree (generates config.h; builds nothing)."""
    global _conf
    if _conf:
        return _conf
    d = os.path.join(workdir(), 'cfg')
    if not os.path.exists(os.path.join(d, 'ok')):
        tmp = tempfile.mkdtemp(prefix='cfg', dir=workdir())
        run(['cmake', '-S', REPO, '-B', tmp, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Release',
             '-DCMAKE_CXX_STANDARD=14', '-DTPIE_USE_GIT_COMMIT=OFF', '-DTPL_LOGGING=ON',
             '-DTPIE_PARALLEL_SORT=ON', '-DTPIE_USE_SNAPPY=ON', '-DTPIE_USE_LZ4=ON',
             '-DTPIE_USE_ZSTD=ON', '-DCOMPILE_TEST=OFF', '-Wno-dev', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'])
        cc = json.load(open(os.path.join(tmp, 'compile_commands.json')))
        tus = sorted({e['file'] for e in cc if '/tpie/' in e['file'] and '/deadcode/' not in e['file']})
        json.dump(tus, open(os.path.join(tmp, 'tus.json'), 'w'))
        open(os.path.join(tmp, 'ok'), 'w').close()
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp)
    _conf = d
    return d


def library_tus():
    return json.load(open(os.path.join(config(), 'tus.json')))


def cxxflags():
    return ['-D_FILE_OFFSET_BITS=64', '-D_LARGEFILE_SOURCE', '-I' + config(), '-I' + REPO, '-DNDEBUG',
            '-std=gnu++17', '-fPIC', '-w']


def bc_one(src):
    """bitcode for one file, path; src absolute."""
    flags = ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names',
             '-fstandalone-debug', '-emit-llvm', '-c']
    key = filehash(src, extra=src + ' '.join(flags))
    out = os.path.join(workdir(), os.path.basename(src) + '-' + key + '.bc')
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        run([CLANG] + cxxflags() + flags + [src, '-o', tmp])
        os.rename(tmp, out)
    return out


def bitcode(srcs):
    config()
    with ThreadPoolExecutor(max_workers=8) as ex:
        f = ex.submit(irx)
        r = list(ex.map(bc_one, srcs))
        f.result()
        return r


def tu(name):
    return os.path.join(VERIF, 'tus', name)


def lib(name):
    return os.path.join(REPO, 'tpie', name)


def export(srcs, cfg):
    bcs = bitcode(srcs)
    tool = irx()
    blob = json.dumps(cfg, sort_keys=True)
    key = hashlib.sha256((blob + '\n'.join(bcs) + tool).encode()).hexdigest()[:20]
    out = os.path.join(workdir(), 'x-%s.json' % key)
    if not os.path.exists(out):
        cf = out + '.cfg%d' % os.getpid()
        open(cf, 'w').write(blob)
        tmp = out + '.tmp%d' % os.getpid()
        run([tool, '-o', tmp, '--cfg', cf] + bcs)
        os.unlink(cf)
        os.rename(tmp, out)
    with open(out) as f:
        return json.load(f)


def prune():
    """keep the cache small: only the two most recent trees."""
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith('tree-')]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-3]:
        if d != workdir():
            shutil.rmtree(d, ignore_errors=True)
