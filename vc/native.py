"""Compile the real functions of /repo (current tree) for the replay programs.

The C library objects are built from the source list of
build-aux/configure-lib.sh (linux, x86_64, gcc), every symbol prefixed "mes_"
so that a replay program, itself linked against the host C library, can call
them.  Nothing is written outside the scratch directory given."""
import os, re, subprocess, glob, shutil
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.normpath(os.path.join(HERE, '..'))
INC = ['-nostdinc', '-I', REPO + '/include', '-I', REPO + '/include/linux/x86_64', '-I', HERE + '/stub']
CF = ['-O0', '-w', '-fno-builtin', '-fno-stack-protector', '-DHAVE_CONFIG_H=1']

def lib_sources():
    sh = ('set +e; cd "$1"; mes_libc=mes; mes_kernel=linux; mes_cpu=x86_64; mes_bits=64; compiler=gcc; mes_system=x86_64-linux-mes; '
          'eval "$(grep -v "config.sh" %s/build-aux/configure-lib.sh | sed -e "s,^set -[eu],,")"; echo $libc_gnu_SOURCES lib/stub/*.nonexistent' % REPO)
    r = subprocess.run(['bash', '-c', sh, 'x', REPO], capture_output=True, text=True)
    fs = [f for f in r.stdout.split() if f.endswith('.c')]
    if len(fs) < 50: fs = open(os.path.join(HERE, 'libsources.txt')).read().split()
    extra = ['lib/string/__memcpy.c', 'lib/string/__memmove.c', 'lib/string/__memset.c', 'lib/mes/div.c', 'lib/libtcc1.c']
    out = []
    for f in fs + extra:
        if f not in out and os.path.exists(os.path.join(REPO, f)): out.append(f)
    return out

def build_archive(work):
    """-> path of the archive; files that do not compile are left out"""
    d = os.path.join(work, 'obj'); os.makedirs(d, exist_ok=True)
    errs = []
    def one(f):
        o = os.path.join(d, f.replace('/', '_')[:-2] + '.o')
        r = subprocess.run(['gcc', '-c'] + CF + (['-DHAVE_LONG_LONG=1'] if 'libtcc1' in f else []) + INC + [os.path.join(REPO, f), '-o', o], capture_output=True, text=True)
        if r.returncode: errs.append((f, r.stderr[-400:])); return None
        subprocess.run(['objcopy', '--prefix-symbols=mes_', o])
        # the division library has its own __mesabi_uldiv
        if f == 'lib/mes/div.c': subprocess.run(['objcopy', '--redefine-sym', 'mes___mesabi_uldiv=mes_div_uldiv', o])
        return o
    with ThreadPoolExecutor(8) as ex: objs = [o for o in ex.map(one, lib_sources()) if o]
    a = os.path.join(work, 'libmes.a')
    if os.path.exists(a): os.remove(a)
    subprocess.run(['ar', 'rcs', a] + objs, check=True)
    return a, errs

def build_mes_archive(work):
    """the interpreter's sources added to the C library's, every symbol weak, so
    that a replay program can supply its own error reporting"""
    a, errs = build_archive(work)
    d = os.path.join(work, 'mesobj'); os.makedirs(d, exist_ok=True)
    def one(f):
        o = os.path.join(d, os.path.basename(f)[:-2] + '.o')
        r = subprocess.run(['gcc', '-c'] + CF + ['-DMES_VERSION="x"', '-DMES_PKGDATADIR="/nonexistent"'] + INC + ['-I', REPO + '/src', f, '-o', o], capture_output=True, text=True)
        if r.returncode: errs.append((f, r.stderr[-400:])); return None
        subprocess.run(['objcopy', '--prefix-symbols=mes_', o]); subprocess.run(['objcopy', '--weaken', o])
        return o
    with ThreadPoolExecutor(8) as ex: objs = [o for o in ex.map(one, sorted(glob.glob(REPO + '/src/*.c'))) if o]
    # library objects: weak as well
    b = os.path.join(work, 'libmesscheme.a'); shutil.copy(a, b)
    subprocess.run(['objcopy', '--weaken', b], check=True)
    subprocess.run(['ar', 'rs', b] + objs, check=True, capture_output=True)
    return b, errs

def build_for(work, name):
    """-> (executable or None, diagnostics) of the replay program NAME"""
    scheme = '"s.h"' in open(os.path.join(VERIF, 'replay', name + '.c')).read()
    a, errs = (build_mes_archive if scheme else build_archive)(work)
    exe, err = build_harness(work, name, a, whole=scheme)
    return exe, (err + repr(errs)) if not exe else ''

def build_harness(work, name, archive, extra=(), whole=False):
    src = os.path.join(VERIF, 'replay', name + '.c'); exe = os.path.join(work, 'replay_' + name)
    r = subprocess.run(['gcc', '-O1', '-g', '-w', '-no-pie', '-DMES_CONSTANTS="%s/include/mes/constants.h"' % REPO, '-I', os.path.join(VERIF, 'replay')] + list(extra) + [src] + (['-Wl,--whole-archive', archive, '-Wl,--no-whole-archive'] if whole else [archive]) + ['-o', exe], capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-3000:]
    return exe, ''

MES_SRC = 'builtins cc core display eval-apply gc globals hash lib math mes module posix reader stack string struct symbol vector'.split()
def build_mes(work, flags=()):
    """The interpreter itself, against the Mes C Library, into work/mes -> path or None"""
    d = os.path.join(work, 'mesobj'); os.makedirs(d, exist_ok=True)
    errs = []
    srcs = [os.path.join('src', os.path.basename(p)) for p in sorted(glob.glob(REPO + '/src/*.c'))]
    srcs = [s for s in srcs if os.path.basename(s)[:-2] in MES_SRC or s not in ('src/test',)]
    def one(f):
        o = os.path.join(d, f.replace('/', '_')[:-2] + '.o')
        r = subprocess.run(['gcc', '-c', '-O1'] + CF[1:] + list(flags) + ['-DMES_VERSION="x"', '-DMES_PKGDATADIR="/nonexistent"'] + INC + ['-I', REPO + '/src', os.path.join(REPO, f), '-o', o], capture_output=True, text=True)
        if r.returncode: errs.append((f, r.stderr[-400:])); return None
        return o
    libs = lib_sources() + ['lib/linux/x86_64-mes-gcc/crt1.c']
    with ThreadPoolExecutor(8) as ex: objs = [o for o in ex.map(one, srcs + [l for l in libs if not l.endswith('/crt1.c')] + [libs[-1]]) if o]
    crt = [o for o in objs if o.endswith('crt1.o')]; lib = [o for o in objs if '/lib_' in o and o not in crt]; src = [o for o in objs if '/src_' in o]
    a = os.path.join(d, 'libc.a')
    subprocess.run(['ar', 'rcs', a] + lib)
    exe = os.path.join(work, 'mes')
    r = subprocess.run(['gcc', '-static', '-nostdlib', '-no-pie', '-o', exe] + crt + src + [a, '-lgcc'], capture_output=True, text=True)
    if r.returncode: return None, errs + [('link', r.stderr[-2000:])]
    return exe, errs
if __name__ == '__main__':
    import sys, time, tempfile
    t = time.time(); w = tempfile.mkdtemp(); a, e = build_archive(w); print(a, e, time.time() - t)
    for h in sys.argv[1:]:
        x, err = build_harness(w, h, a); print(x, err)
        if x: print(subprocess.run([x], capture_output=True, text=True))
