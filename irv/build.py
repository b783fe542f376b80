"""Mechanical extraction: compile /repo's current sources to LLVM IR on every run."""
import os, subprocess, tempfile, shutil, atexit, hashlib
from . import llparse
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin'
_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='verif.')
        pid = os.getpid()
        atexit.register(lambda d=_tmp: shutil.rmtree(d, ignore_errors=True) if os.getpid() == pid else None)
    return _tmp

def config_dir():
    for d in (os.path.join(REPO, '_build'), ):
        if all(os.path.exists(os.path.join(d, h)) for h in ('config.h', 'apisupport-config.h', 'cpusupport-config.h')):
            return d
    return os.path.join(VERIF, 'irv', 'config')

INC = ['.', 'lib', 'lib-platform', 'lib-platform/crypto', 'lib-platform/util', 'lib/crypto', 'lib/scryptenc', 'lib/util',
       'libcperciva/alg', 'libcperciva/cpusupport', 'libcperciva/crypto', 'libcperciva/util']
DEFS = ['-DHAVE_CONFIG_H', '-DAPISUPPORT_CONFIG_FILE="apisupport-config.h"', '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"']
POSIX = ['-D_POSIX_C_SOURCE=200809L', '-D_XOPEN_SOURCE=700']
def cflags(src):
    r = ['-w', '-I' + config_dir()] + ['-I' + os.path.join(REPO, d) for d in INC] + DEFS
    if not src.endswith('memlimit.c'): r += POSIX
    return r
ISA = ['-msse2', '-mssse3', '-msha', '-maes', '-mrdrnd']

class CompileError(Exception): pass

def to_ir(src, extra=(), passes='sroa,simplifycfg'):
    out = os.path.join(tmpdir(), src.replace('/', '_') + '.' + hashlib.md5(repr((extra, passes)).encode()).hexdigest()[:6] + '.ll')
    if os.path.exists(out): return out
    cmd = [LLVM + '/clang'] + ISA + cflags(src) + list(extra) + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-S', '-emit-llvm', os.path.join(REPO, src), '-o', out + '.0']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise CompileError(p.stderr[-2000:])
    p = subprocess.run([LLVM + '/opt', '-passes=' + passes, '-S', out + '.0', '-o', out], capture_output=True, text=True)
    if p.returncode: raise CompileError(p.stderr[-2000:])
    return out

def module(src, extra=(), passes='sroa,simplifycfg'):
    return llparse.parse(to_ir(src, extra, passes))

def consts(include, names):
    """integer values of names visible in the text `include` (enumerators and macros of /repo's headers)"""
    src = os.path.join(tmpdir(), 'consts_%s.c' % hashlib.md5(repr((include, names)).encode()).hexdigest()[:8])
    if not os.path.exists(src + '.val'):
        with open(src, 'w') as f:
            f.write(include + '\n#include <stdio.h>\nint main(void) {' + ''.join('printf("%%lld\\n", (long long)(%s));' % n for n in names) + 'return 0;}\n')
        p = subprocess.run([LLVM + '/clang'] + cflags('x') + [src, '-o', src + '.exe'], capture_output=True, text=True)
        if p.returncode: raise CompileError(p.stderr[-2000:])
        v = subprocess.run([src + '.exe'], capture_output=True, text=True).stdout
        with open(src + '.val', 'w') as f: f.write(v)
    return [int(x) for x in open(src + '.val').read().split()]
