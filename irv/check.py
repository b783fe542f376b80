"""check <property>: runs the property's proof tasks, writes evidence, reports violations."""
import sys, os, json, time, importlib, re
from . import build, solver
VERIF = build.VERIF
from .props import PROPS

def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[prop]
    from . import tasks
    for m in cfg['modules']: importlib.import_module('irv.' + m)
    names = [n for n in tasks.REG if prop in tasks.REG[n][1]]
    also = [n for n in tasks.REG if n not in names and cfg.get('also') and re.match(cfg['also'], n)]    # contracts relied on, re-proved here
    names += also
    budget = 560 if tier == 'quick' else 1500
    res = tasks.run_tasks(names, budget=budget, per_task=cfg.get('per_task', 420 if tier == 'quick' else 1200))
    obls, disch, failed, errors, samples, fn_inl, fn_con, fn_ext, notes, solver_t, per = tally(prop, cfg, tasks, names, also, res)
    trusted = list(cfg.get('trusted', []))
    viol = 0
    lines = []
    known = load_known(prop)
    rep = wit = None
    if failed or errors:
        left = (840 if tier == 'quick' else 3000) - (time.time() - t0)
        for w in cfg.get('witness', []):
            try:
                mod = importlib.import_module('irv.' + w)
                wit = mod.search(seed, time.time() + min(left - 20, 200), [f for f in failed]) if not hasattr(mod, 'search_prop') else mod.search_prop(prop, seed, time.time() + min(left - 20, 240), failed)
            except build.CompileError as e: errors.append((w, 'native build for replay failed: %s' % str(e)[-600:]))
            except Exception as e:
                errors.append((w, 'replay search: %s' % e))
                wit = None
            if wit: break
            left = (840 if tier == 'quick' else 3000) - (time.time() - t0)
        if not wit:     # no failing input: once more, with longer solver limits, before the obligations count as failed
            badt = sorted({f[0] for f in failed} | {n for n, e in errors if n in res})
            left = (780 if tier == 'quick' else 2800) - (time.time() - t0)
            if left > 30 and badt:
                solver.SLOW = 4.0
                r2 = tasks.run_tasks(badt, budget=left, per_task=left)
                solver.SLOW = 1.0
                for n in badt:
                    if r2[n]['err'] is None or res[n]['err'] is not None: res[n] = r2[n]
                obls, disch, failed, errors, samples, fn_inl, fn_con, fn_ext, notes, solver_t, per = tally(prop, cfg, tasks, names, also, res)
                notes.append('tasks proved again with longer solver limits: ' + ', '.join(badt))
    if failed or errors:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        rep = os.path.join(VERIF, 'replay', prop + '.json')
        json.dump(dict(property=prop, failed_obligations=[dict(task=f[0], obligation=f[1], function=f[3], location=f[5], verifier_output=f[4][:3000]) for f in failed[:40]],
                       undischarged=[dict(task=n, reason=e) for n, e in errors], input_on_real_code=wit,
                       reproduce='cd /verif && ./check %s' % prop), open(rep, 'w'), indent=1, default=str)
        viol = 1
        print('failed obligations: %d; undischarged tasks: %d' % (len(failed), len(errors)))
        for f in failed[:10]: print('  FAILED [%s] %s (%s)' % (f[0], f[1], f[5]))
        for n, e in errors[:10]: print('  UNDISCHARGED [%s] %s' % (n, e.strip().split('\n')[0]))
        if wit: print('  real code: ' + json.dumps(wit, default=str)[:1500])
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, rep, '' if wit else ' no-failing-input-found'))
    else:
        p = os.path.join(VERIF, 'replay', prop + '.json')
        if os.path.exists(p): os.unlink(p)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 1), violations=viol,
        coverage=dict(obligations=obls, discharged=disch, checker_cmd='cd /verif && ./check %s' % prop, trusted_base=trusted,
            tasks=per, functions_inlined_and_verified=sorted(fn_inl), functions_used_through_verified_contracts=sorted(fn_con),
            external_functions_modelled=sorted(fn_ext), backends=dict(z3_queries=solver_t['z3_queries'], z3_s=round(solver_t['z3_time'], 1),
            cvc5_queries=solver_t['cvc5_queries'], cvc5_s=round(solver_t['cvc5_time'], 1), closed_syntactically=solver_t['syntactic'], slowest_query_s=round(solver_t['max'], 1)),
            undischarged=[n for n, e in errors], samples=samples),
        assumptions=list(cfg.get('assumptions', [])) + notes)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d tasks, %.1f s' % (prop, obls, disch, len(names), time.time() - t0))
    for l in lines: print(l)
    return 1 if viol else 0

def tally(prop, cfg, tasks, names, also, res):
    obls = disch = 0
    failed, errors = [], []
    samples, fn_inl, fn_con, fn_ext, notes = [], set(), set(), set(), []
    solver_t = {'z3_queries': 0, 'z3_time': 0.0, 'cvc5_queries': 0, 'cvc5_time': 0.0, 'syntactic': 0, 'max': 0.0}
    per = {}
    for n in names:
        r = res[n]
        c = 0
        for o in r['obls']:
            if not relevant(prop, o[0], cfg, n in also): continue
            obls += 1; c += 1
            if o[1]:
                disch += 1
                if len(samples) < 12 and hash_(o[0]) % 7 == 0: samples.append('%s: %s' % (n, o[0]))
            else: failed.append((n,) + tuple(o))
        if r['err']: errors.append((n, r['err']))
        if not r['obls'] and not r['err']: errors.append((n, 'no obligations generated (vacuous)'))
        per[n] = dict(obligations=c, wall_s=round(r['wall'], 1), doc=(tasks.REG[n][0].__doc__ or '').strip())
        fn_inl |= set(r['inlined']); fn_con |= set(r['contracts']); fn_ext |= set(r['externals'])
        for x in r['notes']:
            if x not in notes: notes.append(x)
        for k in solver_t:
            v = r['stats'].get(k, 0)
            solver_t[k] = max(solver_t[k], v) if k == 'max' else solver_t[k] + v
    return obls, disch, failed, errors, samples, fn_inl, fn_con, fn_ext, notes, solver_t, per

def hash_(s):
    h = 7
    for ch in s: h = (h * 31 + ord(ch)) & 0xffffff
    return h

EXCL = {'resource': ('C18', 'C03'), 'erase': ('C11',)}
def relevant(prop, label, cfg, also=False):
    for k, ps in EXCL.items():
        if label.startswith(k + ':'): return prop in ps
    m = re.match(r'(C\d\d(?:,C\d\d)*): ', label)
    if m: return also or prop in m.group(1).split(',')
    only = cfg.get('only')
    if only: return bool(re.search(only, label)) or label.startswith('vacuity')
    return True

def load_known(prop):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: out.append(m.group(2))
    return out

if __name__ == '__main__':
    sys.setrecursionlimit(100000)
    try: rc = main(sys.argv[1])
    except SystemExit: raise
    sys.exit(rc)
