#!/usr/bin/env python3-vt
"""check.py PROPERTY — decide one property on /repo's current tree.

Deciding step: every obligation generated from the current source for the
functions under contract (and the lemmas over their contracts) is discharged by
an SMT solver.  The replay program (real code, compiled from the current tree)
looks for a failing input when an obligation is left open."""
import os, sys, json, time, shutil, tempfile, subprocess, threading, traceback, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'vc'))
import c2why, prove, native, registry
from concurrent.futures import ThreadPoolExecutor
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time(); BUDGET = 780

TRUSTED = ['vc/c2why.py (mechanical translation of the C functions to WhyML, printed whole on every run) and pycparser/gcc -E in front of it',
           'typed memory model of specs/mem.mlw: one map per scalar size, so no scalar is read at another size than it was stored with',
           'why3 1.6 (WP calculus, SMT-LIB printer), z3 5.3.2/4.8.12 and cvc5 1.1.2 (an answer "unsat" of any of them is believed)',
           'definitional axioms of specs/*.mlw (slen, inset, matchat, ...)',
           'no aliasing between a named C variable and a cell of the memory maps (address-taken variables live in the maps)']

def known():
    p = os.path.join(VERIF, 'known-findings.txt'); out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                kv = dict(x.split('=', 1) for x in ln[8:].split('|')[0].split() if '=' in x)
                kv['text'] = ln.split('|', 1)[1].strip() if '|' in ln else ln; out.append(kv)
    return out

def closure(fns, specs, ctx):
    """contracted functions reached through calls, with the extraction of each"""
    todo, done, order = list(fns), set(), []
    while todo:
        f = todo.pop(0)
        if f in done: continue
        done.add(f); order.append(f)
    return order

def run_harness(prop, work, res, extra_args=()):
    try:
        r = registry.R[prop]
        if not r['replay']: res['state'] = 'none'; return
        exe, err = native.build_for(work, r['replay'])
        if not exe: res.update(state='nobuild', out=err); return
        n = 0
        for k in range(8 if TIER == 'thorough' else 1):
            p = subprocess.Popen([exe, str(SEED + k)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=work, start_new_session=True)
            try: out, _ = p.communicate(timeout=240)
            except subprocess.TimeoutExpired: os.killpg(p.pid, 9); out, _ = p.communicate(); res.update(state='timeout', out=out[-2000:]); return
            fl = [l for l in out.split('\n') if l.startswith('FAIL')]
            if fl or p.returncode not in (0,):
                res.update(state='FAIL', out='\n'.join(fl) or 'replay program ended with status %s: %s' % (p.returncode, out[-1500:]), exe=r['replay'], seed=SEED + k); return
            for l in out.split('\n'):
                if l.startswith('OK evaluations='): n += int(l.split('=')[1].split()[0])
        res.update(state='OK', evaluations=n)
    except Exception as e: res.update(state='nobuild', out=traceback.format_exc())

def vacuity(goals, fn):
    """hypotheses of some postcondition obligation of fn must not be contradictory"""
    gs = [g for g in goals if g.fn == fn and 'postcondition' in g.tag.lower()] or [g for g in goals if g.fn == fn]
    # many obligations belong to infeasible paths: look at several before deciding
    step = max(1, len(gs) // 80)
    for g in gs[-1:-13:-1] + gs[:-12][::step]:
        t = open(g.files).read(); i = t.rindex(';; Goal'); f = g.files + '.vac'
        open(f, 'w').write(t[:i] + '\n(check-sat)\n')
        o = subprocess.run(['z3-new', '-T:2', f], capture_output=True, text=True).stdout.strip()
        if not o.startswith('unsat'): return True
    return not gs

def main():
    prop = sys.argv[1]; r = registry.R[prop]
    if r['engine']:
        import importlib
        return importlib.import_module(r['engine']).main(prop, VERIF)
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try: return decide(prop, r, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(prop, r, work):
    specs = c2why.load_specs(); ctx = c2why.Ctx(specs)
    har = {'state': 'running'}
    ht = threading.Thread(target=run_harness, args=(prop, work, har)); ht.start()
    goals, functions, broken, assumed, loose = [], [], [], set(), {}
    todo, seen = list(r['fns']), set()
    lock = threading.Lock()
    def gen(fn):
        try:
            f, gs = prove.generate(fn, ctx, work)
            with lock:
                goals.extend(gs); functions.append((fn, f))
                if f.unmatched_loops or f.loopno < len(specs[fn].loops): loose[fn] = 'loops of the function do not match the annotated ones'
                return sorted(f.called)
        except c2why.Unsupported as e:
            with lock: broken.append((fn, str(e)))
        except Exception as e:
            with lock: broken.append((fn, 'extraction: ' + traceback.format_exc()[-600:]))
        return []
    def gen_lemma(m):
        try:
            _, gs = prove.generate('lemma_' + m, ctx, work, mlw=os.path.join(VERIF, 'specs', m + '.mlw'))
            with lock: goals.extend(gs)
        except c2why.Unsupported as e:
            with lock: broken.append((m, str(e)))
    with ThreadPoolExecutor(8) as ex:
        lem = [ex.submit(gen_lemma, m) for m in r['lemmas']]
        while todo:
            cur = [f for f in dict.fromkeys(todo) if f not in seen]; seen |= set(cur); todo = []
            for called in ex.map(gen, cur):
                for c in called:
                    if c in seen or c not in specs: continue
                    if specs[c].trusted: assumed.add(c)
                    else: todo.append(c)
        for l in lem: l.result()
    goals.sort(key=lambda g: (g.fn, int(g.name.split('#')[1])))
    # quick portfolio first
    prove.discharge(goals, prove.STAGES[:2])
    pend = [g for g in goals if g.status != 'proved']
    ht.join()
    if har['state'] == 'FAIL' and (pend or broken): pass          # a failing input decides
    elif pend:
        cap = 48
        for st in prove.STAGES[2:]:
            if time.time() - T0 > BUDGET - 240: break
            for g in pend: g.status = None
            sel = pend[:cap]
            prove.discharge(sel, [st])
            pend = [g for g in goals if g.status != 'proved']
            if har['state'] == 'OK' and len(pend) > cap: break
        if pend and len(pend) <= 12 and TIER == 'thorough':
            for g in pend: g.status = None
            prove.discharge(pend, [[('z3', 60), ('cvc5', 60), ('z3s', 60), ('cvc5e', 60)]])
            pend = [g for g in goals if g.status != 'proved']
    # annotations that no longer fit the loops: their open obligations say nothing about the code
    for fn in sorted({g.fn for g in pend} & set(loose)): broken.append((fn, loose[fn]))
    pend = [g for g in pend if g.fn not in loose]
    fns = sorted(f for f, _ in functions)
    with ThreadPoolExecutor(8) as ex:
        vac = [fn for fn, ok in zip(fns, ex.map(lambda fn: vacuity(goals, fn), fns)) if not ok] if not pend and not broken else []
    for fn in vac: broken.append((fn, 'contradictory hypotheses: obligations hold vacuously'))
    by, tm = {}, 0.0
    for g in goals:
        tm += g.time
        if g.status == 'proved': by[g.by] = by.get(g.by, 0) + 1
    nproved = sum(g.status == 'proved' for g in goals)
    inl = sorted({x for _, f in functions for x in f.inlined})
    cov = dict(obligations=len(goals), discharged=nproved, checker_cmd='python3-vt check.py ' + prop,
               trusted_base=TRUSTED + ['assumed contract of %s (%s)' % (c, specs[c].note or 'external or outside the verifier\'s reach') for c in sorted(assumed)],
               functions_under_contract=fns, inlined_helpers=inl, lemma_modules=r['lemmas'], by_back_end=by, solver_seconds=round(tm, 1),
               obligations_per_function={fn: sum(g.fn == fn for g in goals) for fn in sorted({g.fn for g in goals})},
               cross_check_on_compiled_code=dict(kind='bounded', evaluations=har.get('evaluations', 0), state=har['state'], rule='replay/%s.c: the compiled real functions against an executable reading of the contracts; supplementary, never the deciding step' % r['replay']))
    viol = []
    rp = None
    if pend or broken or har['state'] == 'FAIL':
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rp = os.path.join(VERIF, 'evidence', prop + '.replay.txt')
        with open(rp, 'w') as o:
            o.write('property %s\n' % prop)
            for g in pend[:60]: o.write('obligation not discharged: %s | %s\n  solvers: every stage answered unknown, timeout or sat%s\n' % (g.name, g.tag, ' (sat reported)' if g.sat else ''))
            for fn, why in broken: o.write('contract does not attach: %s: %s\n' % (fn, why))
            o.write('replay program: %s %s\n' % (har['state'], har.get('out', '')))
            if har['state'] == 'FAIL': o.write('re-run: cd /verif && python3-vt replay/run.py %s %d\n' % (har['exe'], har['seed']))
    kf = [k for k in known() if k.get('property') == prop]
    code = 0; level = 'proof'
    if har['state'] == 'FAIL':
        code = 1; print(har['out'][:1500]); print('VIOLATION property=%s replay=%s' % (prop, rp))
    elif pend:
        code = 1
        for g in pend[:8]: print('obligation not discharged: %s | %s' % (g.name, g.tag))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    elif broken:
        for fn, why in broken: print('contract does not attach: %s: %s' % (fn, why))
        if har['state'] == 'OK':
            level = 'exploration'
            print('BOUNDED: %d evaluations of the compiled code stand in for the functions above (not counted as proved)' % har['evaluations'])
            cov.update(evaluations=har['evaluations'], distinct_nontrivial=har['evaluations'], rule=cov['cross_check_on_compiled_code']['rule'], samples=['replay/%s.c seed %d' % (r['replay'], SEED)], bounded_stand_in_for=[fn for fn, _ in broken])
        else:
            code = 1; print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    elif not goals:
        print('no obligations generated'); code = 2
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    ev = dict(property=prop, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED, level=level, coverage=cov,
              assumptions=['inputs satisfy the preconditions listed in specs/ for each function (valid pointers, terminated strings, lengths below 2^62)'] + ([r['note']] if r['note'] else []),
              wall_s=round(time.time() - T0, 2), violations=1 if code == 1 else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d functions, %d/%d obligations discharged %s, cross-check %s %s, %.1f s' % (prop, len(fns), nproved, len(goals), by, har['state'], har.get('evaluations', ''), time.time() - T0))
    return code
if __name__ == '__main__': sys.exit(main())
