#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE < spec: create seeded/ID from a spec with sections
@@old / @@new (text replaced in FILE), @@needs, @@breaks, @@main (Rust demonstration)."""
import sys, os, subprocess, json, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id_, prop, f = sys.argv[1:4]
sec = re.split(r'^@@(\w+)\n', sys.stdin.read(), flags=re.M)
parts = list(zip(sec[1::2], sec[2::2]))
p = os.path.join('/repo', f)
src = open(p).read()
new = src
olds = [b for a, b in parts if a == 'old']; news = [b for a, b in parts if a == 'new']
for o, n in zip(olds, news):
    assert new.count(o) == 1, (new.count(o), o)
    new = new.replace(o, n)
d = os.path.join(V, 'seeded', id_)
os.makedirs(d, exist_ok=True)
open(p, 'w').write(new)
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
open(d + '/patch.diff', 'w').write(diff)
get = {a: b.strip() for a, b in parts if a not in ('old', 'new')}
json.dump(dict(property=prop, needs=get['needs'], what_it_breaks=get['breaks']), open(d + '/meta.json', 'w'), indent=1)
html = not f.startswith('cinereus')
open(d + '/main.rs', 'w').write(('' if html else 'mod t;\nuse t::*;\n\n') + get['main'] + '\n')
for x in ('demo.sh', 'lock.txt') if html else ('t.rs', 'demo.sh', 'lock.txt'):
    shutil.copy(os.path.join(V, 'tools/seedlib-html' if html else 'tools/seedlib', x), d)
if html:
    shutil.copytree(os.path.join(V, 'shims'), d + '/shims', dirs_exist_ok=True, ignore=shutil.ignore_patterns('target', 'Cargo.lock', '.gitignore'))
