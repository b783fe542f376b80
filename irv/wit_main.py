"""Replay on the real tool: main.c linked with recording stand-ins for the encryption interfaces, run on concrete command lines."""
import json, os, random, re, shutil, subprocess, tempfile, time, math
from . import native
DRV = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "scryptenc.h"
#include "passphrase_entry.h"
static FILE * L; static int prepped; static char * pw0; static size_t pwl; static int l_files; static void * l_cookie, * l_pw;
FILE * __real_fopen(const char *, const char *); int __real_fclose(FILE *); int __real_fflush(FILE *); void __real_free(void *);
static FILE * lg(void) { if (!L) { L = __real_fopen(getenv("W_LOG"), "a"); setvbuf(L, NULL, _IONBF, 0); } return L; }
static int fails(const char * n) { const char * f = getenv("W_FAIL"); return f && !strcmp(f, n); }
static int rcof(const char * n) { const char * r = getenv("W_RC"); return fails(n) ? r ? atoi(r) : 7 : 0; }
static struct { FILE * f; char n[200]; } tab[16]; static int nt;
static const char * nm(FILE * f) { int i; if (f == stdin) return "<stdin>"; if (f == stdout) return "<stdout>"; for (i = nt - 1; i >= 0; i--) if (tab[i].f == f) return tab[i].n; return "?"; }
FILE * __wrap_fopen(const char * p, const char * m) { FILE * f; if (m[0] == 'w' || m[0] == 'a') { fprintf(lg(), "{\"ev\":\"openw\",\"name\":\"%s\",\"prepped\":%d}\n", p, prepped); if (fails("openw")) { errno = EACCES; return NULL; } } else if (fails("openr")) { errno = EACCES; return NULL; } f = __real_fopen(p, m); if (f && nt < 16) { tab[nt].f = f; strncpy(tab[nt].n, p, 199); nt++; l_files++; } return f; }
FILE * __wrap_fopen64(const char * p, const char * m) { return __wrap_fopen(p, m); }
int __wrap_fclose(FILE * f) { char n[200]; strncpy(n, nm(f), 199); if (f != stdin && f != stdout && f != stderr && f != L) l_files--; int r = __real_fclose(f); if (fails("closein") && strstr(n, "in")) { errno = EIO; return EOF; } if (fails("closeout") && strstr(n, "out")) { errno = ENOSPC; return EOF; } return r; }
int __wrap_fflush(FILE * f) { if (fails("flush")) { errno = ENOSPC; return EOF; } return __real_fflush(f); }
int __real_passphrase_entry_readpass(char **, enum passphrase_entry, const char *, const char *, const char *, int) __attribute__((weak));
int __wrap_passphrase_entry_readpass(char ** p, enum passphrase_entry e, const char * a, const char * b, const char * c, int d) { int r = __real_passphrase_entry_readpass(p, e, a, b, c, d); if (r == 0) { l_pw = pw0 = *p; pwl = strlen(*p); } return r; }
static void __attribute__((destructor)) l_end(void) { if (getenv("W_LIVE") && (l_pw || l_cookie || l_files)) fprintf(lg(), "{\"ev\":\"live\",\"passphrase\":%d,\"cookie\":%d,\"files\":%d}\n", l_pw != NULL, l_cookie != NULL, l_files); }
void __wrap_free(void * p) { if (p && p == l_pw) l_pw = NULL; if (p && p == pw0) { size_t i; for (i = 0; i < pwl; i++) if (pw0[i]) { fprintf(lg(), "{\"ev\":\"leak\"}\n"); break; } pw0 = NULL; } __real_free(p); }
static void rec(const char * what, FILE * in, const uint8_t * pw, size_t n, struct scryptenc_params * P, int v, int f) {
	fprintf(lg(), "{\"ev\":\"%s\",\"in\":\"%s\",\"pw\":\"%.*s\",\"maxmem\":%ju,\"frac\":\"%a\",\"time\":\"%a\",\"logN\":%d,\"r\":%ju,\"p\":%ju,\"verbose\":%d,\"force\":%d}\n", what, nm(in), (int)n, pw, (uintmax_t)P->maxmem, P->maxmemfrac, P->maxtime, P->logN, (uintmax_t)P->r, (uintmax_t)P->p, !!v, !!f);
	pw0 = (char *)(size_t)pw; pwl = n; }
int __wrap_scryptenc_file(FILE * in, FILE * out, const uint8_t * pw, size_t n, struct scryptenc_params * P, int v, int f) { rec("enc", in, pw, n, P, v, f); fprintf(lg(), "{\"ev\":\"out\",\"name\":\"%s\"}\n", nm(out)); return rcof("enc"); }
int __wrap_scryptdec_file_prep(FILE * in, const uint8_t * pw, size_t n, struct scryptenc_params * P, int v, int f, struct scryptdec_file_cookie ** C) { rec("prep", in, pw, n, P, v, f); if (rcof("prep")) { *C = NULL; return rcof("prep"); } prepped = 1; l_cookie = *C = malloc(64); return 0; }
int __wrap_scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * out) { fprintf(lg(), "{\"ev\":\"copy\",\"cookie\":%d}\n{\"ev\":\"out\",\"name\":\"%s\"}\n", C != NULL, nm(out)); return rcof("copy"); }
void __wrap_scryptdec_file_cookie_free(struct scryptdec_file_cookie * C) { if (C && C == l_cookie) l_cookie = NULL; __real_free(C); }
int __wrap_scryptdec_file_printparams(FILE * in) { fprintf(lg(), "{\"ev\":\"info\",\"in\":\"%s\"}\n", nm(in)); return rcof("info"); }
'''
WR = ['fopen', 'fopen64', 'fclose', 'fflush', 'free', 'passphrase_entry_readpass', 'scryptenc_file', 'scryptdec_file_prep', 'scryptdec_file_copy', 'scryptdec_file_cookie_free', 'scryptdec_file_printparams']
DEF = dict(enc=dict(maxmem=0, frac=0.125, time=5.0), dec=dict(maxmem=0, frac=0.5, time=300.0))
def run(exe, args, want, fail=None, rc=None, env=None, live=False, stdin=b'pass one\n'):
    """want: None (must be refused without effect) or dict of expectations"""
    t = tempfile.mkdtemp(prefix='verif.')
    try:
        open(t + '/in', 'wb').write(b'x'); open(t + '/pwfile', 'wb').write(b'from file\n')
        e = dict(PATH='/usr/bin:/bin', W_LOG=t + '/log', W_ENVPW='from env')
        if fail: e['W_FAIL'] = fail
        if live: e['W_LIVE'] = '1'
        if rc is not None: e['W_RC'] = str(rc)
        try: p = subprocess.run([exe] + args, cwd=t, env=e, input=stdin, capture_output=True, timeout=20, start_new_session=True)
        except subprocess.TimeoutExpired: return dict(args=args, got='timeout')
        ev = [json.loads(l) for l in open(t + '/log')] if os.path.exists(t + '/log') else []
        info = dict(function='scrypt ' + ' '.join(args), args=args, injected=fail, rc=rc, exit=p.returncode, events=ev[:6], stderr=p.stderr.decode('latin1')[:200])
        if p.returncode < 0 or p.returncode > 127 and p.returncode == 134: return dict(info, got='killed by a signal')
        if any(x['ev'] == 'leak' for x in ev): return dict(info, got='the passphrase is released without being overwritten')
        lv = [x for x in ev if x['ev'] == 'live']; ev = [x for x in ev if x['ev'] != 'live']
        if lv: return dict(info, got='still held when the program ends: %s' % ', '.join(k for k in ('passphrase', 'cookie', 'files') if lv[0][k]))
        lib = [x for x in ev if x['ev'] in ('enc', 'prep', 'info')]
        if want is None:
            if p.returncode == 0: return dict(info, got='exit 0', want='refused')
            if lib or ev or os.path.exists(t + '/out'): return dict(info, got='operation attempted', want='refused')
            return None
        mode = want['mode']
        if fail is None:
            if p.returncode != 0: return dict(info, got='exit %d' % p.returncode, want='success')
        elif fail in ('openw', 'openr', 'closeout', 'enc', 'prep', 'copy', 'info', 'flush'):
            if p.returncode == 0: return dict(info, got='exit 0 although an operation failed')
        if fail == 'prep' and (os.path.exists(t + '/out') or any(x['ev'] == 'openw' for x in ev)): return dict(info, got='output file created although the passphrase was not verified')
        if fail == 'openr' or fail == 'openw' and want['mode'] == 'enc': return dict(info, got='operation attempted') if any(y['ev'] in ('enc', 'out') for y in ev) else None
        if any(x['ev'] == 'openw' and not x['prepped'] for x in ev) and mode == 'dec': return dict(info, got='output file opened before verification')
        if mode == 'version':
            return None
        if len(lib) != 1 or lib[0]['ev'] != dict(enc='enc', dec='prep', info='info')[mode]: return dict(info, got='wrong operation')
        x = lib[0]
        if x['in'] != want.get('in', 'in'): return dict(info, got='input %s' % x['in'], want=want.get('in', 'in'))
        if mode == 'info': return None
        d = dict(DEF[mode]); d.update(logN=0, r=0, p=0, verbose=0, force=0, pw='pass one'); d.update({k: v for k, v in want.items() if k not in ('mode', 'in', 'out')})
        for k, v in d.items():
            g = x[k] if k not in ('frac', 'time') else float.fromhex(x[k])
            if g != v: return dict(info, got='%s = %r' % (k, g), want='%r' % v)
        if mode == 'dec' and fail in (None, 'copy', 'closeout', 'closein'):
            if not any(y['ev'] == 'copy' and y['cookie'] for y in ev): return dict(info, got='no output produced')
        outs = [y for y in ev if y['ev'] == 'out']
        if fail in (None, 'enc', 'copy', 'closeout', 'closein') and (len(outs) != 1 or outs[0]['name'] != want.get('out', '<stdout>')): return dict(info, got=str(outs), want=want.get('out', '<stdout>'))
        return None
    finally: shutil.rmtree(t, ignore_errors=True)

def cnum(s):
    m = re.fullmatch(r'[ \t\n\v\f\r]*([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)', s)
    if not m: return None
    b = m.group(2); v = int(b, 16) if b[:2] in ('0x', '0X') else int(b, 8) if b[0] == '0' and len(b) > 1 else int(b)
    return -v if m.group(1) == '-' else v
def cases(rng):
    J = []
    add = lambda a, w, **k: J.append((a, w, k))
    B = ['-P', 'in']
    NUM = ['0', '1', '2', '7', '8', '9', '10', '11', '16', '31', '32', '33', '39', '40', '41', '64', '255', '256', '1000', '2047', '2048', '2049', '4096', '65536', '4294967295', '4294967296', '4294967297', '4294967306', '8589934602', '18446744073709551615', '18446744073709551616', '18446744073709551617', '18446744073709551626',
           '-1', '-10', '-32', '-2048', '-0', '-18446744073709551615', '-18446744073709551606', '-4294967295', '', ' ', 'x', '10x', '10 ', ' 10', '+10', '1e1', '0x10', '0x', '010', '012', '08', '1.0', '10.0', '\t12', 'nan', 'inf', '--1', '- 1', ' -18446744073709551604', '00000000000000012']
    for o, lo, hi, k in (('--logN', 10, 40, 'logN'), ('-r', 1, 32, 'r'), ('-p', 1, 2048, 'p')):
        oth = {'--logN': ['--logN', '14'], '-r': ['-r', '8'], '-p': ['-p', '1']}; base = dict(logN=14, r=8, p=1)
        for s in NUM:
            a = sum([v for q, v in oth.items() if q != o], [])
            v = cnum(s); w = dict(base, mode='enc', **{}) if v is not None and lo <= v <= hi else None
            if w is not None: w = dict(w, **{k: v})
            add(['enc'] + a + [o, s] + B, w)
    FLT = [('0.1', .1), ('0.5', .5), ('0.50000000000000001', .5), ('0.51', None), ('0.5000000000000002', None), ('1', None), ('1e-3', 1e-3), ('-0.1', None), ('-0', None), ('0', None), ('0.0', None), ('nan', None), ('NAN', None), ('-nan', None), ('inf', None), ('-inf', None), ('', None), ('x', None), ('.25', .25), ('0x.8p-1', .25), ('0.1x', None), (' 0.2', .2), ('0.2 ', None), ('50%', None), ('1e-400', None), ('1e400', None), ('nan(1)', None)]
    for s, v in FLT:
        add(['enc', '-m', s] + B, dict(mode='enc', frac=v) if v is not None else None)
        add(['dec', '-m', s] + B, dict(mode='dec', frac=v) if v is not None else None)
    TM = [('0', 0.0), ('1', 1.0), ('0.5', .5), ('1e9', 1e9), ('1e308', 1e308), ('inf', float('inf')), ('infinity', float('inf')), ('-1', None), ('-0.5', None), ('-inf', None), ('nan', None), ('-nan', None), ('', None), ('5s', None), ('5 ', None), ('1e400', None), ('300', 300.0), ('-1e-300', None), ('0x1p3', 8.0)]
    for s, v in TM:
        add(['enc', '-t', s] + B, dict(mode='enc', time=v) if v is not None else None)
        add(['dec', '-t', s] + B, dict(mode='dec', time=v) if v is not None else None)
    for s, v in [('0', 0), ('1', 1), ('1000', 1000), ('1k', 1000), ('5 MB', 5 * 10 ** 6), ('1G', 10 ** 9), ('10GB', 10 ** 10), ('18E', 18 * 10 ** 18), ('19E', None), ('18446744073709551615', 2 ** 64 - 1), ('18446744073709551616', None), ('-1', None), ('1.5M', None), ('1KB', None), ('x', None), ('', None), ('1 kB', 1000), ('1kBx', None)]:
        add(['enc', '-M', s] + B, dict(mode='enc', maxmem=v) if v is not None else None)
        add(['dec', '-M', s] + B, dict(mode='dec', maxmem=v) if v is not None else None)
    full = ['--logN', '12', '-r', '3', '-p', '5']
    for md in ('enc', 'dec'):
        e = (lambda **k: dict(mode=md, **k))
        add([md] + B, e()); add([md] + B + ['out'], e(out='out')); add([md, '-f'] + B, e(force=1)); add([md, '-v'] + B, e(verbose=1)); add([md, '-fv'] + B, e(force=1, verbose=1)); add([md, '-vfP', 'in', 'out'], e(force=1, verbose=1, out='out'))
        add([md, '-P', '-'], None); add([md, '--passphrase', 'env:W_ENVPW', '-'], e(pw='from env', **{'in': '<stdin>'})); add([md, '--passphrase', 'file:pwfile', '-', 'out'], e(pw='from file', out='out', **{'in': '<stdin>'}))
        add([md, '--passphrase=env:W_ENVPW', 'in'], e(pw='from env')); add([md, '--passphrase', 'dev:stdin-once', 'in'], e()); add([md, '--passphrase', 'dev:stdin-once', '-'], None)
        add([md, '--passphrase', 'bogus', 'in'], None); add([md, '--passphrase', 'dev:nothing', 'in'], None); add([md, '--passphrase', '', 'in'], None)
        add([md, '-P', '-P', 'in'], None); add([md, '-P', '--passphrase', 'env:W_ENVPW', 'in'], None); add([md, '--passphrase', 'env:W_ENVPW', '-P', 'in'], None); add([md, '--passphrase', 'env:A', '--passphrase', 'env:W_ENVPW', 'in'], None)
        add([md], None); add([md, '-P'], None); add([md, '-P', 'in', 'out', 'x'], None); add([md, '-m'], None); add([md, '-P', 'in', '-t'], dict(mode=md, out='-t')); add([md, '--logN'], None)
        add([md, '-z'] + B, None); add([md, '--nope'] + B, None); add([md, '-fz'] + B, None); add([md, '-f=1'] + B, None); add([md, '--log', '12'] + B, None); add([md, '--logNN', '12'] + B, None)
        for q in ('--logNN', '--logNx', '--logN~', '--logN>', '--logn', '--log', '--', '---logN', '-logN', '--logN-', '--logN:'): add([md, q, '12', '-r', '3', '-p', '5'] + B, None)
        for q in ('--logN=', '--logN=12=', '--logN==12', '--logN= ', '--logN=12 '): add([md, q, '-r', '3', '-p', '5'] + B, None)
        add([md, '-r=3', '--logN', '12', '-p', '5'] + B, None); add([md, '-t=5'] + B, None); add([md, '-Pz', 'in'], None); add([md, '-vt', '5', '-P', 'in', 'out'], e(verbose=1, time=5.0, out='out')); add([md, '-vt5', '-fP', 'in'], e(verbose=1, time=5.0, force=1))
        add([md, '-Pm', '.25', 'in', 'out'], e(frac=.25, out='out')); add([md, '-Pt', '-t', 'in'], None); add([md, '-PM', '7', '--', 'in', '-v'], e(maxmem=7, out='-v')); add([md, '-P', '-t', '--', 'in'], None); add([md, '-P', 'in', '-v'], e(out='-v')); add([md, '--passphrase=', 'in'], None)
        add([md, '--passphrase=env:W_ENVPW', '-t', '4', '--', 'in', 'out'], e(pw='from env', time=4.0, out='out')); add([md, '-P='] + ['in'], None); add([md, '-vv'] + B, e(verbose=1)); add([md, '-vP-', 'in'], None)
        add([md, '-P', '--', 'in', 'out'], e(out='out'))
        add([md, '-m0.25', '-P', 'in'], e(frac=.25)); add([md, '-t7', '-M1k', '-P', 'in'], e(time=7.0, maxmem=1000)); add([md, '-t', '7', '-t', '9'] + B, e(time=9.0)); add([md, '-t', '7', '-t', 'x'] + B, None); add([md, '-M', '5k', '-M', '0'] + B, e(maxmem=0)); add([md, '-m', '0', '-m', '.25'] + B, e(frac=.25)); add([md, '-m', '.25', '-m', '0'] + B, None)
        add([md] + full + B, e(logN=12, r=3, p=5) if md == 'enc' else None)
        for i in (0, 2, 4):
            add([md] + full[:i] + full[i + 2:] + B, None); add([md] + full[i:i + 2] + B, None)
        add([md, '--logN=12', '-r3', '-p5'] + B, e(logN=12, r=3, p=5) if md == 'enc' else None)
        add([md, '--logN', '40', '-r', '32', '-p', '2048', '-m', '.5', '-t', '1', '-M', '3M', '-fv'] + B + ['out'], e(logN=40, r=32, p=2048, frac=.5, time=1.0, maxmem=3000000, force=1, verbose=1, out='out') if md == 'enc' else None)
        for f in ('openw', 'closeout', 'enc' if md == 'enc' else 'prep', 'copy' if md == 'dec' else 'enc', 'openr', 'closein'):
            add([md] + B + ['out'], e(out='out'), fail=f)
            if f not in ('openw', 'closeout'): add([md] + B, e(), fail=f)
        for rc in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 256, 512, -1):
            add([md] + B + ['out'], e(out='out'), fail='enc' if md == 'enc' else 'prep', rc=rc)
            if md == 'dec': add([md] + B + ['out'], e(out='out'), fail='copy', rc=rc)
        add([md, '-P', 'missing-file', 'out'], None)
    add(['info', 'in'], dict(mode='info')); add(['info', '-'], dict(mode='info', **{'in': '<stdin>'})); add(['info'], None); add(['info', 'in'], dict(mode='info'), fail='info'); add(['info', 'nothere'], None); add(['info', '-z', 'in'], None); add(['info', 'in'], dict(mode='info'), fail='openr')
    for rc in (1, 7, 13, 256): add(['info', 'in'], dict(mode='info'), fail='info', rc=rc)
    add(['--version'], dict(mode='version')); add(['--version'], dict(mode='version'), fail='flush'); add([], None); add(['encx', 'in'], None); add(['', 'in'], None); add(['-P', 'in'], None); add(['en', '-P', 'in'], None); add(['Enc', '-P', 'in'], None)
    return J
def search_prop(prop, seed, deadline, failed):
    import concurrent.futures as cf
    exe = native.binary('scrypt_rec', DRV, ldflags=['-Wl,' + ','.join('--wrap=' + w for w in WR)], with_main=True)
    J = cases(random.Random(seed))
    def one(j):
        if time.time() > deadline - 3: return None
        return run(exe, j[0], j[1], live=prop == 'C18', **j[2])
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, J):
            if r: return r
    return None
