#!/usr/bin/env python3-vt
"""Discharge the obligations of functions under contract.

For each function: c2why -> WhyML -> why3 (split_vc) -> one SMT-LIB task per
obligation -> z3-new / cvc5 / z3 portfolio."""
import os, re, sys, subprocess, time, shutil, tempfile, json, threading, queue
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c2why
HERE = os.path.dirname(os.path.abspath(__file__)); SPECS = os.path.normpath(os.path.join(HERE, '..', 'specs'))
DRV = '/usr/share/why3/drivers/'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

CONF = """[main]
magic = 14
memlimit = 2000
running_provers_max = 1
timelimit = 5.0
[prover]
command = "/bin/sh %s/dump.sh %%f"
driver = "z3_471"
editor = ""
in_place = false
interactive = false
name = "Dump"
shortcut = "dump"
version = "1"
"""

class Goal:
    def __init__(self, fn, name, files): self.fn, self.name, self.files = fn, name, files; self.sat = False; self.status = None; self.by = None; self.time = 0.0; self.tag = ''


def why3_dump(mlw, outdir, module=None):
    """one SMT-LIB file per obligation, and (location, kind) of each"""
    os.makedirs(outdir, exist_ok=True)
    conf = outdir + '.conf'
    open(conf, 'w').write(CONF % HERE)
    cmd = ['why3', '-C', conf, '-L', SPECS, 'prove', '-P', 'dump', '-a', 'split_vc']
    if module: cmd += ['-T', module]
    r = subprocess.run(cmd + [mlw], capture_output=True, text=True, env=dict(os.environ, VCDIR=outdir))
    info = re.findall(r'^File "?([^",:\n]*)"?(?:, line (\d+), character[^\n]*)?:\n(?:Sub-goal ((?:[^\n]|\n(?!Prover))*?) of\s+goal|Goal)\s+([^\n]*)\.\nProver result', r.stdout, re.M)
    if r.returncode not in (0, 2) or 'Prover result' not in r.stdout:
        err = '\n'.join(l for l in r.stderr.split('\n') if l.strip() and not l.startswith('Warning') and 'unused variable' not in l)
        if err.strip(): return None, err
    return info, ''

def generate(fn, ctx, work, prelude=('mem.Mem',), mlw=None, module=None):
    """-> (Fn or None, [Goal])"""
    if mlw is None:
        f, out = c2why.module(ctx, fn, prelude)
        path = os.path.join(work, fn + '.mlw'); open(path, 'w').write('\n'.join(out.lines) + '\n')
        tags = out.tags
    else: f, path, tags = None, mlw, {}
    src = open(path).read().split('\n')
    d = os.path.join(work, fn + '.vc')
    info, err = why3_dump(path, d, module)
    # why3 wants every variable a function depends on mentioned in its specification
    for _ in range(8):
        m = re.search(r'depends on variable (\w+),\s+which\s+is\s+left\s+out', err) if info is None and f is not None else None
        if not m: break
        k = next(i for i, l in enumerate(out.lines) if re.match(r'  let (rec )?%s ' % re.escape(c2why.why_id(fn)), l))
        while out.lines[k].strip() != '=': k += 1
        out.lines[k-1] += ' ensures { %s = %s }' % (m.group(1), m.group(1))
        open(path, 'w').write('\n'.join(out.lines) + '\n'); src = open(path).read().split('\n')
        shutil.rmtree(d, ignore_errors=True); info, err = why3_dump(path, d, module)
    if info is None: raise c2why.Unsupported('why3 rejects %s: %s' % (os.path.basename(path), err[-600:]))
    n = len(os.listdir(d))
    if n != len(info): raise c2why.Unsupported('%d obligations but %d locations for %s' % (n, len(info), fn))
    gs = []
    for k, (file, ln, kind, goal) in enumerate(info):
        g = Goal(fn, '%s#%d' % (fn, k), os.path.join(d, '%d.smt2' % k)); ln = int(ln or 1)
        if os.path.basename(file) == os.path.basename(path):
            g.tag = '%s: %s @ %s' % (kind or goal, tags.get(ln, ''), src[ln-1].strip()[:110])
        else: g.tag = '%s @ %s:%d' % (kind or goal, os.path.basename(file), ln)
        gs.append(g)
    return f, gs

def solver_cmd(s, f, t):
    if s == 'z3': return ['z3-new', '-T:%d' % t, f]
    if s == 'z3s': return ['z3-new', '-T:%d' % t, 'smt.random_seed=7', 'smt.arith.solver=2', f]
    if s == 'z3m': return ['z3-new', '-T:%d' % t, 'smt.mbqi=false', 'smt.auto_config=false', f]
    if s == 'z3old': return ['z3', '-T:%d' % t, f]
    if s == 'cvc5': return ['cvc5', '-q', '--lang=smt2', '--tlimit=%d' % (t * 1000), f]
    if s == 'cvc5e': return ['cvc5', '-q', '--lang=smt2', '--full-saturate-quant', '--tlimit=%d' % (t * 1000), f]
    if s == 'cvc5n': return ['cvc5', '-q', '--lang=smt2', '--nl-ext-tplanes', '--tlimit=%d' % (t * 1000), f]

def run1(s, goal, t):
    f = goal.files
    t0 = time.time()
    try: r = subprocess.run(['prlimit', '--as=6000000000'] + solver_cmd(s, f, t), capture_output=True, text=True, timeout=t + 10)
    except subprocess.TimeoutExpired: return 'timeout', time.time() - t0
    o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
    return o, time.time() - t0

STAGES = [[('z3', 2)], [('cvc5', 4)], [('z3', 12), ('cvc5', 12), ('z3m', 12)], [('z3old', 20), ('cvc5e', 20), ('z3s', 20), ('cvc5n', 20)]]
def discharge(goals, stages=None, jobs=JOBS, stop=None):
    stages = stages or STAGES
    pend = list(goals)
    for st in stages:
        if not pend: break
        with ThreadPoolExecutor(jobs) as ex:
            def one(g):
                for s, t in st:
                    if g.status == 'proved': return
                    o, dt = run1(s, g, t); g.time += dt
                    if o == 'unsat': g.status, g.by = 'proved', s; return
                    if o == 'sat': g.sat = True
            def sole(a):
                g, s, t = a
                if g.status == 'proved': return
                o, dt = run1(s, g, t); g.time += dt
                if o == 'unsat': g.status, g.by = 'proved', s
            list(ex.map(sole, [(g, s, t) for g in pend for s, t in st]))
        pend = [g for g in pend if g.status != 'proved']
    for g in pend: g.status = g.status or 'unproved'
    return goals

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('fns', nargs='*'); ap.add_argument('-k', action='store_true'); ap.add_argument('-m', help='mlw module file'); ap.add_argument('-q', action='store_true'); ap.add_argument('--smoke', action='store_true')
    a = ap.parse_args()
    specs = c2why.load_specs(); ctx = c2why.Ctx(specs)
    work = '/tmp/vcdev'; shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    st = STAGES[:2] if a.q else STAGES
    if a.m:
        _, gs = generate(os.path.basename(a.m)[:-4], ctx, work, mlw=a.m); fns = [(a.m, gs)]
        discharge(gs, st)
        for g in gs: print(('ok  ' if g.status == 'proved' else 'FAIL'), g.by, '%.1f' % g.time, g.name, g.tag) if g.status != 'proved' else None
        print(len(gs), 'goals', sum(g.status == 'proved' for g in gs), 'proved'); return
    for fn in a.fns or [s for s in specs if not specs[s].trusted]:
        t0 = time.time()
        try: f, gs = generate(fn, ctx, work)
        except c2why.Unsupported as e: print('UNSUPPORTED', fn, e); continue
        discharge(gs, st)
        ok = sum(g.status == 'proved' for g in gs)
        print('%s %s: %d/%d %.1fs inl=%s unmatched_loops=%d' % ('OK ' if ok == len(gs) else 'BAD', fn, ok, len(gs), time.time() - t0, f.inlined, f.unmatched_loops), flush=True)
        for g in gs:
            if g.status != 'proved': print('   FAIL', g.name, '|', g.tag)
        if a.smoke: smoke(gs)
def smoke(gs):
    """hypotheses of some postcondition goals must be satisfiable (not provably false)"""
    for g in gs:
        t = open(g.files).read()
        i = t.rindex(';; Goal')
        f = g.files + '.smoke'; open(f, 'w').write(t[:i] + '\n(check-sat)\n')
        r = subprocess.run(['z3-new', '-T:3', f], capture_output=True, text=True).stdout.strip()
        if r == 'unsat': print('   VACUOUS', g.name, g.tag)
if __name__ == '__main__': main()
