"""Front end: builds the clang-based extractor if needed and turns /repo's
current sources into IR (one JSON per build configuration)."""
import hashlib, os, re, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KAI_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'kai-extract')
SRC_EXT = ('.hpp', '.h', '.inc', '.in')

class ExtractError(Exception): pass

def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def ensure_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    stamp = TOOL + '.' + _sha([src])
    if os.path.exists(TOOL) and os.path.exists(stamp): return
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.run(['llvm-config-18', '--cxxflags'], capture_output=True, text=True, check=True).stdout.split()
    flags = [f for f in flags if f not in ('-std=c++17', '-fno-exceptions')]
    tmp = TOOL + '.%d' % os.getpid()
    r = subprocess.run(['clang++', '-std=c++17', '-O1', '-fno-rtti', *flags, '-w', src, '-o', tmp,
                        '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'], capture_output=True, text=True)
    if r.returncode: raise ExtractError('cannot build the extractor: ' + r.stderr[-2000:])
    os.replace(tmp, TOOL); open(stamp, 'w').close()

def sources():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('.git', '_build', 'build', 'test', 'docs')]
        for f in fs:
            if f.endswith(SRC_EXT): out.append(os.path.join(d, f))
    return sorted(out)

CONFIG = """#pragma once
#define NUMBER_OF_LOGICAL_CORES      8
#define NUMBER_OF_PHYSICAL_CORES     8
#define IS_64BIT                     1
#define HAS_SSE2                     1
#define IS_LINUX                 1
"""
# configurations: name -> list of (file, regex, replacement)
CONFIGS = {
    'x25519': [],
    'p256': [('crypto/ec_group.hpp', r'^[ \t]*#[ \t]*define[ \t]+ENABLE_X25519_ACCELERATION\b.*$', '//')],
    'nofilter': [('mpc/rpmt/cwprf_mqrpmt.hpp', r'^[ \t]*#[ \t]*define[ \t]+BLOOMFILTER\b.*$', '//')],
}
CONFIGS['p256nofilter'] = CONFIGS['p256'] + CONFIGS['nofilter']

def extract(cfg='x25519', jobs=None):
    ensure_tool()
    drv = os.path.join(VERIF, 'tool', 'driver.cpp')
    key = _sha(sources() + [drv, os.path.join(VERIF, 'tool', 'extract.cpp'), os.path.abspath(__file__)])
    out = os.path.join(BUILD, 'ir-%s-%s.json' % (cfg, key))
    if os.path.exists(out): return out
    os.makedirs(BUILD, exist_ok=True)
    for f in os.listdir(BUILD):
        if f.startswith('ir-%s-' % cfg) and not f.endswith('.tmp'):
            try: os.unlink(os.path.join(BUILD, f))
            except OSError: pass
    with tempfile.TemporaryDirectory(prefix='kai') as td:
        roots = []
        def overlay(rel, text):
            p = os.path.join(td, rel.replace('/', '_'))
            open(p, 'w').write(text)
            roots.extend(['--map', os.path.join(REPO, rel), p])
        overlay('config/config.h', CONFIG)
        for rel, rx, rep in CONFIGS[cfg]:
            s = open(os.path.join(REPO, rel)).read()
            s2, n = re.subn(rx, rep, s, flags=re.M)
            overlay(rel, s2)
        tmp = out + '.%d.tmp' % os.getpid()
        for extra in ([], ['-DKAI_NO_INST']):
          with open(tmp, 'w') as fo:
            r = subprocess.run([TOOL, REPO + '/', drv, *roots, '--', '-std=c++17', '-frelaxed-template-template-args', *extra, '-fopenmp', '-I' + os.path.join(VERIF, 'tool', 'stub'),
                                '-I/usr/local/openssl/include', '-I' + REPO, '-w', '-resource-dir=/usr/lib/llvm-18/lib/clang/18',
                                '-march=x86-64-v3', '-maes', '-mpclmul'], stdout=fo, stderr=subprocess.PIPE, text=True)
          if not r.returncode: break
        if r.returncode or os.path.getsize(tmp) < 1000:
            os.unlink(tmp)
            raise ExtractError('clang could not analyse the tree (%s):\n%s' % (cfg, r.stderr[-3000:]))
        os.replace(tmp, out)
    return out

if __name__ == '__main__':
    for c in CONFIGS: print(extract(c))
