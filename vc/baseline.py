#!/usr/bin/env python3-vt
"""Record the names and types of the locals that the annotations in specs/ speak of."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c2why
c2why._locals = {}
specs = c2why.load_specs(); ctx = c2why.Ctx(specs); out = {}
for fn in sorted(specs):
    if specs[fn].trusted: continue
    try: f = c2why.Fn(ctx.unit_for(fn), fn, specs[fn], ctx).run(); out[fn] = [(w, str(t)) for w, t in f.localinfo]
    except c2why.Unsupported as e: print(fn, e)
with open(os.path.join(c2why.HERE, '..', 'specs', 'locals.json'), 'w') as o:
    o.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v)) for k, v in out.items()) + '\n}\n')
