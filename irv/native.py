"""Native builds of /repo's current sources, used only to replay failed obligations on the real code."""
import os, subprocess, glob, ctypes, concurrent.futures, hashlib, signal, sys, time, json, traceback
from . import build

LIBDIRS = ['lib/crypto', 'lib/scryptenc', 'lib/util', 'lib-platform/crypto', 'lib-platform/util', 'libcperciva/alg',
           'libcperciva/cpusupport', 'libcperciva/crypto', 'libcperciva/util']
VARIANTS = {
 'all': None,
 'soft': '',
 'sse2': '#define CPUSUPPORT_X86_CPUID 1\n#define CPUSUPPORT_X86_SSE2 1\n',
}
FAST = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-g']}

def sources():
    out = []
    import re
    incl = set()
    for d in LIBDIRS:
        for f in glob.glob(os.path.join(build.REPO, d, '*.c')):
            incl |= set(re.findall(r'#include "([^"]*\.c)"', open(f, errors='replace').read()))
    for d in LIBDIRS:
        for f in sorted(glob.glob(os.path.join(build.REPO, d, '*.c'))):
            b = os.path.basename(f)
            if b == 'crypto_scrypt-ref.c' or b in incl: continue
            out.append(os.path.relpath(f, build.REPO))
    return out

def objects(variant='all', extra=(), opt='-O1', srcs=None):
    cfg = VARIANTS[variant.split('+')[0]]
    flags = list(extra)
    if variant.endswith('+asan'): flags += FAST['asan']
    d = os.path.join(build.tmpdir(), 'nat.' + hashlib.md5(repr((variant, tuple(extra), opt)).encode()).hexdigest()[:8])
    os.makedirs(d, exist_ok=True)
    inc = []
    defs = list(build.DEFS)
    if cfg is not None:
        open(os.path.join(d, 'cpusupport-variant.h'), 'w').write(cfg)
        defs = [x for x in defs if 'CPUSUPPORT' not in x] + ['-DCPUSUPPORT_CONFIG_FILE="cpusupport-variant.h"', '-I' + d]
    def one(s):
        o = os.path.join(d, s.replace('/', '_') + '.o')
        if os.path.exists(o): return o
        fl = [f for f in build.cflags(s) if f not in build.DEFS]
        p = subprocess.run(['gcc', '-c', '-fPIC', opt, '-g', '-w'] + build.ISA + fl + defs + flags + [os.path.join(build.REPO, s), '-o', o], capture_output=True, text=True)
        if p.returncode: raise build.CompileError(p.stderr[-1500:])
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs or sources()))

def so(variant='all', extra=(), opt='-O1', csrc=None, ldflags=()):
    """shared object with the whole library (+ optional C driver text)"""
    objs = objects(variant, extra, opt)
    tag = hashlib.md5(repr((variant, tuple(extra), opt, csrc, tuple(ldflags))).encode()).hexdigest()[:8]
    out = os.path.join(build.tmpdir(), 'lib%s.so' % tag)
    if os.path.exists(out): return out
    add = []
    if csrc:
        c = os.path.join(build.tmpdir(), 'drv%s.c' % tag)
        open(c, 'w').write(csrc)
        add = [c]
    fl = [f for f in build.cflags('x.c')]
    san = FAST['asan'] if variant.endswith('+asan') else []
    p = subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-g'] + build.ISA + fl + san + add + objs + list(ldflags) + ['-lcrypto', '-lm', '-o', out], capture_output=True, text=True)
    if p.returncode: raise build.CompileError(p.stderr[-1500:])
    return out

def binary(name, csrc, variant='all', extra=(), opt='-O1', ldflags=(), srcs=None, with_main=False):
    objs = objects(variant, extra, opt, srcs)
    if with_main: objs = objs + objects(variant, extra, opt, ['main.c'])
    out = os.path.join(build.tmpdir(), name)
    add = []
    if csrc:
        c = os.path.join(build.tmpdir(), name + '.c'); open(c, 'w').write(csrc); add = [c]
    san = FAST['asan'] if variant.endswith('+asan') else []
    p = subprocess.run(['gcc', '-w', '-g'] + build.ISA + build.cflags('x.c') + san + add + objs + list(ldflags) + ['-lcrypto', '-lm', '-o', out], capture_output=True, text=True)
    if p.returncode: raise build.CompileError(p.stderr[-1500:])
    return out

def in_child(fn, timeout=60):
    """run fn() in a forked child; returns ('ok', value) | ('signal', n) | ('exc', text) | ('timeout',)"""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try: v = ('ok', fn())
            except BaseException as e: v = ('exc', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-800:]))
            data = json.dumps(v).encode()
            while data:
                n = os.write(w, data); data = data[n:]
        finally: os._exit(0)
    os.close(w)
    buf = b''
    t0 = time.time()
    import select
    while True:
        rl, _, _ = select.select([r], [], [], max(0.05, timeout - (time.time() - t0)))
        if not rl:
            if time.time() - t0 >= timeout:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r)
                return ('timeout',)
            continue
        b = os.read(r, 1 << 16)
        if not b: break
        buf += b
    os.close(r)
    _, stt = os.waitpid(pid, 0)
    if os.WIFSIGNALED(stt): return ('signal', os.WTERMSIG(stt))
    if not buf: return ('signal', -1)
    return tuple(json.loads(buf))

STACK = r'''
#define _GNU_SOURCE
#include <stdint.h>
#include <string.h>
#include <ucontext.h>
#include <sys/mman.h>
#define STKSZ (1 << 20)
static uint8_t * w_stk; static ucontext_t w_u0, w_u1; int w_resid;
/* run f on a stack of its own, and look there afterwards for 72 contiguous bytes of a secret (more than any register spill) */
static void w_run(void (*f)(void)) {
	if (!w_stk) w_stk = mmap(0, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	memset(w_stk, 0, STKSZ); getcontext(&w_u1); w_u1.uc_stack.ss_sp = w_stk; w_u1.uc_stack.ss_size = STKSZ; w_u1.uc_link = &w_u0;
	makecontext(&w_u1, f, 0); swapcontext(&w_u0, &w_u1);
}
static void w_scan(const char * s, size_t n) { size_t i; for (i = 0; i + 72 <= n; i += 36) if (memmem(w_stk, STKSZ, s + i, 72)) w_resid++; }
int w_has(const void * s, size_t n) { return w_stk && memmem(w_stk, STKSZ, s, n) != NULL; }
'''
