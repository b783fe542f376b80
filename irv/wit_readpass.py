"""Replay on the real code: readpass, readpass_file and passphrase_entry against scripted terminals, files, signals and faults."""
import ctypes, json, os, random, time, tempfile, shutil
from . import native
STACK = native.STACK
DRV = STACK + r'''
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <termios.h>
#undef sigaction
#define W(x) __wrap_##x
struct src { const char * text; size_t len, pos; int tty, open, fd; FILE * f; };
struct src w_in = {"", 0, 0, 0, 1, 700}, w_tty = {"", 0, 0, 1, 0, 701};
int w_havetty = 0, w_ev, w_nread;
int w_sigat = -1, w_sig, w_sigat2 = -1, w_sig2, w_readfail = -1, w_getfail = -1, w_setfail = -1, w_clofail, w_dupfail;
struct sigaction w_disp[65]; struct termios w_term, w_term0; int w_got[65], w_raised[65], w_nget, w_nset;
char w_bad[200]; int w_rpargs[8]; 
static void orig(int s) { (void)s; }
static void bad(const char * m) { if (!w_bad[0]) strncpy(w_bad, m, 199); }
static void one(int s) { if (w_disp[s].sa_handler != orig && w_disp[s].sa_handler != SIG_DFL && w_disp[s].sa_handler != SIG_IGN) { w_got[s]++; w_disp[s].sa_handler(s); } else if (memcmp(&w_term, &w_term0, 60)) bad("a signal arriving during entry would leave the terminal changed"); }
static void ev(void) { int e = w_ev++; if (e == w_sigat) one(w_sig); if (e == w_sigat2) one(w_sig2); }
static ssize_t rd(void * c, char * b, size_t n) {
	struct src * s = c; size_t k;
	ev();
	if (s->tty && (w_term.c_lflag & ECHO)) bad("terminal echo is on while the passphrase is read");
	{ struct termios t = w_term; t.c_lflag = w_term0.c_lflag; if (s->tty && memcmp(&t, &w_term0, 60)) bad("other terminal settings changed"); }
	if (w_nread++ == w_readfail) { errno = EIO; return -1; }
	for (k = 0; k < n && s->pos < s->len; ) { b[k++] = s->text[s->pos++]; if (b[k - 1] == '\n') break; }
	return (ssize_t)k;
}
static int cl(void * c) { struct src * s = c; s->open = 0; if (w_clofail) { errno = EIO; return -1; } return 0; }
static FILE * mk(struct src * s) { cookie_io_functions_t io = {rd, NULL, NULL, cl}; s->open = 1; s->f = fopencookie(s, "r", io); return s->f; }
FILE * __real_fopen(const char *, const char *);
FILE * W(fopen)(const char * p, const char * m) { ev(); if (strcmp(p, "/dev/tty")) { bad("opened another file"); return NULL; } if (!w_havetty) { errno = ENXIO; return NULL; } return mk(&w_tty); }
FILE * W(fopen64)(const char * p, const char * m) { return W(fopen)(p, m); }
int __real_fileno(FILE *);
int W(fileno)(FILE * f) { if (f == w_tty.f) return w_tty.fd; if (f == w_in.f) return w_in.fd; return __real_fileno(f); }
static struct src * byfd(int fd) { return fd == 700 ? &w_in : fd == 701 && w_tty.open ? &w_tty : NULL; }
int W(isatty)(int fd) { struct src * s = byfd(fd); ev(); errno = ENOTTY; return s && s->tty; }
int W(tcgetattr)(int fd, struct termios * t) { struct src * s = byfd(fd); ev(); if (!s || !s->tty) { errno = ENOTTY; return -1; } if (w_nget++ == w_getfail) { errno = EIO; return -1; } *t = w_term; return 0; }
int W(tcsetattr)(int fd, int a, const struct termios * t) { struct src * s = byfd(fd); ev(); if (!s || !s->tty) { bad("tcsetattr on something that is not the terminal in use"); errno = ENOTTY; return -1; } if (w_nset++ == w_setfail) { if (!memcmp(t, &w_term0, 60)) w_term = *t; errno = EIO; return -1; } w_term = *t; ev(); return 0; }
int W(sigaction)(int s, const struct sigaction * n, struct sigaction * o) { if (o) *o = w_disp[s]; if (n) w_disp[s] = *n; ev(); return 0; }
int W(raise)(int s) { w_raised[s]++; if (w_disp[s].sa_handler != orig) bad("a signal is re-delivered before its handler is restored"); if (memcmp(&w_term, &w_term0, 60)) bad("a signal is re-delivered before the terminal is restored"); return 0; }
char * __real_strdup(const char *);
char * W(strdup)(const char * s) { if (w_dupfail) { errno = ENOMEM; return NULL; } return __real_strdup(s); }
#include "readpass.h"
char w_out[8192]; static char * w_pw; static int w_rc, w_dt, w_cf;
static void w_body(void) { w_rc = readpass(&w_pw, "prompt", w_cf ? "again" : NULL, w_dt); }
int w_go(const char * tin, size_t nin, int intty, const char * tt, size_t nt, int devtty, int confirm) {
	struct sigaction sa; struct termios t; int i, rc; char * pw; FILE * in0 = stdin, * err0 = stderr;
	memset(&sa, 0, sizeof sa); sa.sa_handler = orig; for (i = 1; i < 65; i++) { w_disp[i] = sa; w_disp[i].sa_flags = i & 0x7; sigemptyset(&w_disp[i].sa_mask); sigaddset(&w_disp[i].sa_mask, 1 + i % 30); }
	struct sigaction d0[65]; memcpy(d0, w_disp, sizeof d0);
	memset(&t, 0, sizeof t); t.c_lflag = ECHO | ICANON | ISIG; t.c_iflag = 0x500; t.c_cflag = 0xbf; t.c_oflag = 5; for (i = 0; i < 20; i++) t.c_cc[i] = i + 3; w_term = w_term0 = t;
	w_in.text = tin; w_in.len = nin; w_in.tty = intty; w_tty.text = tt; w_tty.len = nt;
	stdin = mk(&w_in); stderr = __real_fopen("/dev/null", "w");
	w_cf = confirm; w_dt = devtty; w_run(w_body); rc = w_rc; pw = w_pw; w_scan(tin, nin); w_scan(tt, nt);
	if (!w_in.open) bad("standard input was closed");
	if (w_tty.open) bad("the terminal opened for entry was not closed");
	if (memcmp(&w_term, &w_term0, 60)) bad("terminal settings were not restored");
	for (i = 1; i < 65; i++) { if (memcmp(&d0[i], &w_disp[i], sizeof sa)) bad("signal dispositions were not restored"); if (!w_got[i] != !w_raised[i]) bad(w_got[i] ? "a received signal was not re-delivered" : "a signal was raised that had not been received"); }
	if (rc == 0 && pw) strncpy(w_out, pw, 8191);
	if (rc == 0 && !pw) bad("success without a passphrase");
	stdin = in0; stderr = err0;
	return rc;
}
'''
WRAPS = ['fopen', 'fopen64', 'fileno', 'isatty', 'tcgetattr', 'tcsetattr', 'sigaction', 'raise', 'strdup']
MAXP = 2047
def lines_of(t):
    """fgets view: (text, whole line?)"""
    out = []
    while t:
        i = t.find(b'\n'); n = len(t) if i < 0 else i + 1
        if n > MAXP: out.append((None, False)); return out
        out.append((t[:n], True)); t = t[n:]
    return out
def strip(l):
    for i, ch in enumerate(l):
        if ch in b'\r\n': return l[:i]
    return l
def expect(tin, tt, havetty, devtty, confirm):
    if devtty == 0: src = tin
    elif havetty: src = tt
    elif devtty == 1: src = tin
    else: return None
    ls = lines_of(src)
    if not confirm:
        return strip(ls[0][0]) if ls and ls[0][1] else None
    i = 0
    while True:
        if i + 1 >= len(ls) or ls[i][0] is None or ls[i + 1][0] is None: return None
        if ls[i][0] == ls[i + 1][0]: return strip(ls[i][0])
        i += 2
def rp(path, tin, intty, tt, havetty, devtty, confirm, **kw):
    info = dict(function='readpass', stdin=tin.hex()[:400], stdin_len=len(tin), stdin_is_tty=intty, tty=tt.hex()[:400], tty_len=len(tt), have_tty=havetty, devtty=devtty, confirm=confirm, **kw)
    L = ctypes.CDLL(path)
    I = lambda n: ctypes.c_int.in_dll(L, 'w_' + n)
    I('havetty').value = havetty
    for k, v in kw.items(): I(k).value = v
    b1, b2 = ctypes.create_string_buffer(tin, len(tin) + 1), ctypes.create_string_buffer(tt, len(tt) + 1)
    rc = L.w_go(b1, ctypes.c_size_t(len(tin)), intty, b2, ctypes.c_size_t(len(tt)), devtty, confirm)
    bad = (ctypes.c_char * 200).in_dll(L, 'w_bad').value
    if bad: return dict(info, got=bad.decode())
    if I('resid').value: return dict(info, got='passphrase bytes left on the stack after readpass returned')
    got = (ctypes.c_char * 8192).in_dll(L, 'w_out').value if rc == 0 else None
    usedtty = (intty if devtty == 0 or (devtty == 1 and not havetty) else 1)
    inj = (0 <= kw.get('readfail', -1) < I('nread').value) or (usedtty and (0 <= kw.get('getfail', -1) < I('nget').value or kw.get('setfail', -1) == 0)) or kw.get('dupfail')
    want = expect(tin, tt, havetty, devtty, confirm)
    if inj: return dict(info, got='success although an operation failed') if rc == 0 else None
    if kw.get('readfail', -1) >= 0 or kw.get('clofail'):
        if rc == 0 and got != want: return dict(info, got=repr(got)[:200], want=repr(want)[:200])
        return None
    if got is None and any(l and len(l) == MAXP and l[-1:] != b'\n' for t in (tin, tt) for l, w in lines_of(t)): return None
    if got != want: return dict(info, got=repr(got)[:200], want=repr(want)[:200])
    return None

FDRV = STACK + r'''
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static const char * T; static size_t N, P; int w_readfail = -1, w_nread, w_clofail, w_open, w_opened; char w_name[64];
static ssize_t rd(void * c, char * b, size_t n) { size_t k; if (w_nread++ == w_readfail) { errno = EIO; return -1; } for (k = 0; k < n && P < N && k < 700; ) b[k++] = T[P++]; return (ssize_t)k; }
static int cl(void * c) { w_open--; if (w_clofail) { errno = EIO; return -1; } return 0; }
FILE * __real_fopen(const char *, const char *);
FILE * __wrap_fopen(const char * p, const char * m) { cookie_io_functions_t io = {rd, NULL, NULL, cl}; strncpy(w_name, p, 63); w_open++; w_opened++; return fopencookie(NULL, "r", io); }
FILE * __wrap_fopen64(const char * p, const char * m) { return __wrap_fopen(p, m); }
#include "readpass.h"
int w_dupfail; char * __real_strdup(const char *);
char * __wrap_strdup(const char * s) { if (w_dupfail) { errno = ENOMEM; return NULL; } return __real_strdup(s); }
char w_out[8192]; static char * w_pw; static int w_rc;
static void w_body(void) { w_rc = readpass_file(&w_pw, "some-file"); }
int w_go(const char * t, size_t n) { char * pw; int rc; FILE * e0 = stderr; T = t; N = n; stderr = __real_fopen("/dev/null", "w"); w_run(w_body); rc = w_rc; pw = w_pw; w_scan(t, n); stderr = e0; if (rc == 0) strncpy(w_out, pw, 8191); return rc; }
'''
def rpf(path, t, **kw):
    info = dict(function='readpass_file', content=t.hex()[:400], length=len(t), **kw)
    L = ctypes.CDLL(path); I = lambda n: ctypes.c_int.in_dll(L, 'w_' + n)
    for k, v in kw.items(): I(k).value = v
    rc = L.w_go(ctypes.create_string_buffer(t, len(t) + 1), ctypes.c_size_t(len(t)))
    got = (ctypes.c_char * 8192).in_dll(L, 'w_out').value if rc == 0 else None
    if I('resid').value: return dict(info, got='passphrase bytes left on the stack after readpass_file returned')
    if I('open').value: return dict(info, got='file left open')
    if (ctypes.c_char * 64).in_dll(L, 'w_name').value != b'some-file': return dict(info, got='another file was opened')
    if kw.get('dupfail') or kw.get('clofail') or 0 <= kw.get('readfail', -1) < I('nread').value: return dict(info, got='success although an operation failed: %r' % got[:100]) if rc == 0 else None
    i = t.find(b'\n')
    want = strip(t) if (i < 0 or i == len(t) - 1) and len(t) <= MAXP else None
    if got != want: return dict(info, got=repr(got)[:200], want=repr(want)[:200])

EDRV = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "passphrase_entry.h"
int w_rc; int w_calls; char w_prompt[32], w_confirm[32], w_file[4200]; int w_devtty = -1, w_isfile; static char PW[] = "from-source";
int libcperciva_readpass(char ** p, const char * a, const char * b, int d) { w_calls++; strncpy(w_prompt, a ? a : "(null)", 31); strncpy(w_confirm, b ? b : "(null)", 31); w_devtty = d; if (w_rc == 0) *p = strdup(PW); return w_rc; }
int readpass_file(char ** p, const char * f) { w_calls++; w_isfile = 1; strncpy(w_file, f, 4199); if (w_rc == 0) *p = strdup(PW); return w_rc; }
char w_out[8192], w_arg[4200]; int w_method; int w_off;
int w_parse(const char * s) { enum passphrase_entry e = PASSPHRASE_UNSET; const char * a = NULL; FILE * e0 = stderr; int rc; stderr = fopen("/dev/null", "w"); rc = passphrase_entry_parse(s, &e, &a); stderr = e0; w_method = e; if (rc == 0) w_off = (int)(a - s); return rc; }
int w_entry(int m, const char * arg, int once) { char * pw = NULL; int rc; FILE * e0 = stderr; stderr = fopen("/dev/null", "w"); rc = passphrase_entry_readpass(&pw, m, arg, "P1", "P2", once); stderr = e0; if (rc == 0) strncpy(w_out, pw, 8191); return rc; }
'''
M = dict(UNSET=0, TTY_STDIN=1, STDIN_ONCE=2, TTY_ONCE=3, ENV=4, FILE=5)
def pparse(path, s):
    L = ctypes.CDLL(path); rc = L.w_parse(ctypes.c_char_p(s))
    m = ctypes.c_int.in_dll(L, 'w_method').value; off = ctypes.c_int.in_dll(L, 'w_off').value
    want = {b'dev:tty-stdin': (1, 4), b'dev:stdin-once': (2, 4), b'dev:tty-once': (3, 4)}.get(s) or ((4, 4) if s[:4] == b'env:' else (5, 5) if s[:5] == b'file:' else None)
    got = (m, off) if rc == 0 else None
    if got != want: return dict(function='passphrase_entry_parse', arg=s.decode('latin1'), got=got, want=want)
def pentry(path, m, arg, once, rc0, envval):
    L = ctypes.CDLL(path)
    if envval is not None: L.setenv(ctypes.c_char_p(arg), ctypes.c_char_p(envval), 1)
    ctypes.c_int.in_dll(L, 'w_rc').value = rc0
    rc = L.w_entry(m, ctypes.c_char_p(arg), once)
    g = lambda n, k: (ctypes.c_char * k).in_dll(L, n).value
    I = lambda n: ctypes.c_int.in_dll(L, n).value
    info = dict(function='passphrase_entry_readpass', method=m, arg=arg.decode('latin1')[:100], once=once, source_result=rc0, env=None if envval is None else envval.decode('latin1')[:200])
    if m == 0: return dict(info, got='success without a method') if rc == 0 else None
    if m == 4:
        got = g('w_out', 8192) if rc == 0 else None
        return dict(info, got=repr(got)[:200]) if got != envval else None
    if (rc == 0) != (rc0 == 0): return dict(info, got='return %d' % rc)
    if m == 5:
        if I('w_isfile') != 1 or g('w_file', 4200) != arg: return dict(info, got='file not read')
    else:
        want = ({1: 1, 2: 0, 3: 2}[m], b'P1', b'P2' if m == 1 and not once else b'(null)')
        got = (I('w_devtty'), g('w_prompt', 32), g('w_confirm', 32))
        if got != want: return dict(info, got=repr(got), want=repr(want))
    if I('w_calls') != 1: return dict(info, got='source used %d times' % I('w_calls'))
    if rc == 0 and g('w_out', 8192) != b'from-source': return dict(info, got=repr(g('w_out', 8192)))

def search_prop(prop, seed, deadline, failed):
    rng = random.Random(seed)
    p1 = native.so('all', csrc=DRV, ldflags=['-Wl,' + ','.join('--wrap=' + w for w in WRAPS)])
    jobs, late = [], []
    T = [b'', b'\n', b'a', b'a\n', b'pass word\n', b'abc\r\n', b'abc\rdef\n', b'x\ny\n', b'\r\n', b'a\n\nb', b' lead trail \n', b'\xff\xfe\x80\n', b'\t tab\n']
    T += [b'y' * n + e for n in (1, 7, 8, 15, 16, 255, 256, 1022, 1023, 1024, 2044, 2045, 2046, 2047, 2048, 2049, 4095) for e in (b'', b'\n', b'\r\n', b'\nq')]
    for t in T:
        for d in (0, 1, 2):
            for have in (0, 1): jobs.append((rp, (p1, t, 0, b'tty' + t, have, d, 0), {}))
        jobs.append((rp, (p1, t, 1, b'', 0, 0, 0), {}))
    C = [b'abc\nabc\n', b'abc\nabd\nabc\nabc\n', b'abc\nab\nabc\nabd\nq\nq\n', b'abc\nabc', b'abc\n', b'', b'abc\nabcd\n', b'\n\n', b'abcdefgh\nabcdefgX\nz\nz\n', b'a\nb\nc\nd\ne\ne\n', b'ABC\nabc\n', b'q\n\n', b'\nq\n',
         b'w' * 2046 + b'\n' + b'w' * 2046 + b'\n', b'w' * 2046 + b'\n' + b'w' * 2045 + b'v\n', b'w' * 2050 + b'\n' + b'w' * 2050 + b'\n', b'w' * 300 + b'A\n' + b'w' * 300 + b'B\n', b'w' * 1500 + b'A\n' + b'w' * 1500 + b'B\nq\nq\n']
    C += [b'abc\n\nq\nq\n', b'abc\n\r\nq\nq\n', b'\nabc\n\n\n', b'abc\r\nabc\n', b'abc\n ab\nx', b'p\nq\np\nq\np\nq\np\nq\np\np\n']
    C += [b''.join(rng.choice([b'', b'', b'a', b'ab', b'b', b'a\r', b'A', b'a b']) + b'\n' for _ in range(rng.randrange(1, 12))) for _ in range(40)]
    for t in C:
        for d, have, it in ((0, 0, 0), (0, 0, 1), (1, 0, 0), (1, 1, 0), (2, 1, 0), (2, 0, 0)): jobs.append((rp, (p1, t, it, t, have, d, 1), {}))
    SG = (1, 2, 3, 13, 14, 15, 20, 21, 22)
    for s in SG:
        for at in range(0, 40): jobs.append((rp, (p1, b'in\n', 0, b'abc\nabd\nx\nx\n', 1, 1, at & 1), dict(sig=s, sigat=at)))
    for at in range(0, 30):
        jobs.append((rp, (p1, b'in\n', 0, b'', 1, 1, 0), dict(sig=2, sigat=at)))
        jobs.append((rp, (p1, b'in\n', 0, b'abc\n', 1, 2, 0), dict(sig=SG[at % 9], sigat=at, sig2=SG[(at * 5 + 1) % 9], sigat2=at + 1)))
        jobs.append((rp, (p1, b'in\n', 1, b'', 0, 0, 0), dict(sig=15, sigat=at)))
    for f in (dict(getfail=0), dict(setfail=0), dict(setfail=1), dict(clofail=1), dict(dupfail=1), dict(readfail=0), dict(readfail=1), dict(readfail=2), dict(readfail=3)):
        for d, have, it in ((1, 1, 0), (0, 0, 1), (0, 0, 0)):
            for cf in (0, 1):
                for sa in (-1, 10, 11, 12, 13, 14, 15, 16): jobs.append((rp, (p1, b'q\nq\n', it, b'w\ne\nw\nw\n', have, d, cf), dict(sig=3, sigat=sa, **f)))
    p2 = native.so('all', csrc=FDRV, ldflags=['-Wl,--wrap=fopen,--wrap=fopen64,--wrap=strdup'])
    for t in T + [b'a\n\n', b'\n\n', b'abc\r', b'abc\n\r', b'l1\nl2', b'\r', b'\r\r\n']:
        for k in ({}, dict(clofail=1), dict(readfail=0), dict(readfail=1), dict(readfail=2)): jobs.append((rpf, (p2, t), k))
    p3 = native.so('all', csrc=EDRV, ldflags=['-Wl,-z,muldefs'])
    for s in (b'', b':', b'dev:', b'dev:tty-stdin', b'dev:tty-stdi', b'dev:tty-stdinx', b'dev:stdin-once', b'dev:tty-once', b'dev:tty-onc', b'dev', b'env:', b'env:A', b'env', b'env:A:B', b'file:', b'file:/x:y', b'fil:x', b'Dev:tty-once', b'envx:A', b'xenv:A', b'file', b'dev:stdin', b'devx:tty-once', b'tty-once', b'filex:/a', b'env:dev:tty-once', b'file:env:X', b'dev:env:X', b':env:X', b'dev:tty', b'e:x', b'f:y'): jobs.append((pparse, (p3, s), {}))
    for m in range(6):
        for once in (0, 1, 2, -1, 256):
            for rc0 in (0, -1, 1): jobs.append((pentry, (p3, m, b'W_PASS', once, rc0, b'value' if m == 4 else None), {}))
    for v in (b'', b'a', b'a\n', b'a\r\nb', b' x ', b'\xff' * 40, b'z' * 2047, b'z' * 2048, b'z' * 5000, b'a:b', None): jobs.append((pentry, (p3, 4, b'W_PASSX', 1, 0, v), {}))
    LP = [bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789') for _ in range(n)) for n in (1990, 1980, 300, 4000)]
    A, B, S, X = LP
    for t in (A + b'\n', A, S + b'\n', X + b'\n', A + b'\n' + A + b'\n', S + b'\n' + B + b'\n' + A + b'\n' + A + b'\n', A + b'\n' + B + b'\n' + S + b'\n' + S + b'\n', A + b'\n' + S, A + b'\n' + X + b'\n', A + b'\n\n'):
        for k in ({}, dict(readfail=1), dict(readfail=2), dict(readfail=3), dict(dupfail=1), dict(clofail=1), dict(setfail=1)):
            for d, have, it, cf in ((0, 0, 0, 0), (0, 0, 0, 1), (0, 0, 1, 1), (2, 1, 0, 1), (2, 1, 0, 0)): late.append((rp, (p1, t, it, t if have else b'', have, d, cf), k))
            if 'setfail' not in k: late.append((rpf, (p2, t), k))
    jobs = late + jobs if prop == 'C11' else jobs + late
    if any('file' in l for l, *_ in failed): jobs.sort(key=lambda j: j[0] is not rpf)
    if any('passphrase_entry' in str(l) or 'method' in str(l) for l in failed): jobs.sort(key=lambda j: j[0] is rp)
    import concurrent.futures as cf
    def chunk(js):
        for f, a, k in js:
            left = deadline - time.time()
            if left < 3: return None
            r = native.in_child(lambda: f(*a, **k), min(20, left))
            if r[0] == 'ok':
                if r[1]: return r[1]
            elif r[0] == 'exc':
                if os.environ.get('WITDEBUG'): print(r)
                return None
            else: return dict(function=f.__name__, args=str(a[1:])[:300], options=k, crash=str(r))
        return None
    if os.environ.get('WITDEBUG'): print(len(jobs))
    return chunk(jobs)
