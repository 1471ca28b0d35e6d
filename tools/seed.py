"""tools/seed.py ID < JSON {property, needs, breaks, edits:[[file, old, new]...], demo: C text (library demo) | sh: full demo.sh text}
Writes /verif/seeded/ID; checks the patch applies, the tree builds in a scratch copy is left to vcheck --bug."""
import sys, json, os, subprocess, tempfile, shutil
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
SH = '''#!/bin/bash
# run in /repo after the build; exit 0 when the property holds here
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 2; trap 'rm -rf "$w"' EXIT
objcopy --prefix-symbols=mes_ gcc-lib/x86_64-mes/libc+gnu.a "$w/libmes.a" || exit 2
gcc -w -no-pie -O0 -fno-builtin -o "$w/demo" "$here/demo.c" "$w/libmes.a" || exit 2
cd "$w" && timeout 60 ./demo
'''
def make(id, property, needs, breaks, edits, demo=None, sh=None, files={}):
    t = tempfile.mkdtemp(prefix='seed')
    subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
    for f, a, b in edits:
        p = t + '/r/' + f; s = open(p, encoding='latin-1').read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, 'w', encoding='latin-1').write(s.replace(a, b))
    d = subprocess.run(['git', '-C', t + '/r', 'diff'], capture_output=True, text=True).stdout
    shutil.rmtree(t)
    o = V + '/seeded/' + id; os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    json.dump({'property': property, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
    if demo: open(o + '/demo.c', 'w').write(demo)
    open(o + '/demo.sh', 'w').write(sh or SH); os.chmod(o + '/demo.sh', 0o755)
    for k, v in files.items(): open(o + '/' + k, 'w').write(v)
    print(id, len(d.splitlines()))
