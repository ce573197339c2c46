#!/usr/bin/env python3
"""mkseed.py DIR...: DIR holds seed.json {property, needs, what_it_breaks, file, old, new, sources} and demo.cpp (or demo.py).
Makes /verif/seeded/<name>/ from it after checking that the demonstration passes before and fails after the change."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Demonstration: exit 0 when the property holds. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
objs=
n=0
for s in "$here/demo.cpp" %s; do
  n=$((n+1))
  case "$s" in /*) f=$s;; *) f=$repo/$s;; esac
  g++ -std=c++14 -O0 -w -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DBOOST_ALLOW_DEPRECATED_HEADERS -I"$here" -I"$here/shim/include" \\
    -I/usr/include/eigen3 -I"$repo/include" -I"$repo/src" -I"$repo" -c "$f" -o "$tmp/$n.o" &
  objs="$objs $tmp/$n.o"
done
wait
g++ $objs -o "$tmp/demo" -pthread -ldl %s || exit 2
cd "$tmp" && timeout 60 ./demo
'''
PYDEMO = '''#!/bin/bash
# Demonstration: exit 0 when the property holds. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 timeout 60 /usr/bin/python3 "$here/demo.py" "$PWD"
'''
COMMON = ['src/debug/debug.cpp', 'src/exception/exception-abstract.cpp'] + ['src/exception/exception-%s.cpp' % k for k in
          ('dynamic', 'factory', 'feature', 'signal', 'task', 'tools')]


def run(demo, cwd):
    return subprocess.run(['bash', demo], cwd=cwd, capture_output=True, text=True)


def make(src):
    src = src.rstrip('/')
    name = os.path.basename(src)
    ns = {}
    exec(open(os.path.join(src, 'seed.py')).read(), ns)
    out = os.path.join(V, 'seeded', name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    py = os.path.exists(os.path.join(src, 'demo.py'))
    if py:
        shutil.copy(os.path.join(src, 'demo.py'), out)
        for f in os.listdir(src):
            if f.startswith('stub'):
                shutil.copytree(os.path.join(src, f), os.path.join(out, f))
        demo = PYDEMO
    else:
        shutil.copy(os.path.join(src, 'demo.cpp'), out)
        shutil.copy(os.path.join(V, 'tools/demo/d.hpp'), out)
        shutil.copytree(os.path.join(V, 'shim'), os.path.join(out, 'shim'))
        srcs = list(ns['sources'])
        if ns.get('common', True):
            srcs = [s for s in COMMON if s not in srcs] + srcs
        demo = DEMO % (' '.join(srcs), ns.get('libs', ''))
    open(os.path.join(out, 'demo.sh'), 'w').write(demo)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': ns['property'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    wt = tempfile.mkdtemp(prefix='seedwt')
    subprocess.run('git -C /repo archive HEAD | tar -x -C ' + wt, shell=True, check=True)
    subprocess.run(['git', 'init', '-q', wt], check=True)
    subprocess.run('git -C %s add -A && git -C %s -c user.name=a -c user.email=a@a commit -qm a' % (wt, wt), shell=True, check=True)
    ok = run(os.path.join(out, 'demo.sh'), wt)
    for f, old, new in ns['edits']:
        p = os.path.join(wt, f)
        s = open(p, newline='').read()
        assert s.count(old) == 1, (name, f, s.count(old))
        open(p, 'w', newline='').write(s.replace(old, new))
    d = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True)
    open(os.path.join(out, 'patch.diff'), 'wb').write(d.stdout)
    ko = run(os.path.join(out, 'demo.sh'), wt)
    print(name, 'before', ok.returncode, 'after', ko.returncode, '' if ok.returncode == 0 and ko.returncode == 1 else ok.stderr[-1500:] + ko.stderr[-1500:])
    # the changed lines must be lines of the original repository
    base = '6fb41f4'
    for f, old, new in ns['edits']:
        b = subprocess.run(['git', '-C', '/repo', 'show', base + ':' + f], capture_output=True, text=True).stdout
        for l in set(old.split('\n')) - set(new.split('\n')):
            if l.strip() and l not in b:
                print('  not an original line:', l)
    check = subprocess.run('git -C /repo apply --check %s' % os.path.join(out, 'patch.diff'), shell=True)
    p = subprocess.run(['python3', os.path.join(V, 'run.py'), 'check', ns['property']], env=dict(os.environ, VERIF_REPO=wt), capture_output=True, text=True)
    print('  check', ns['property'], p.returncode, [l for l in p.stdout.split('\n') if 'VIOLATION' in l or 'held' in l or 'VIOLATED' in l])
    shutil.rmtree(wt)


for a in sys.argv[1:]:
    make(a)
