#!/usr/bin/env python3
"""Builds and runs the property checks.

  run.py check ID [--tier quick|thorough]   decide one property (exit 0 / 1)
  run.py replay FILE                        re-run a saved failing case
  run.py all [--tier T] [--repo DIR]        every check in turn (development)
  run.py manifest                           rewrite MANIFEST.json
  run.py setup                              check that the tools are there
"""
import hashlib, json, os, subprocess, sys, time, concurrent.futures as cf, glob, shutil

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import checks as T
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
EVID = os.path.join(V, 'evidence')
REPLAYS = os.path.join(V, 'replays')
PYVT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
CXX = 'g++'
BASE = ['-std=c++14', '-O1', '-g0', '-w', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-DBOOST_ALLOW_DEPRECATED_HEADERS',
        '-DEIGEN_INITIALIZE_MATRICES_BY_NAN', '-ftrivial-auto-var-init=pattern', '-pthread']
SAN = ['-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,bool,enum,bounds',
       '-fno-sanitize-recover=all']
INC = lambda: ['-I' + V + '/engine', '-I' + V + '/shim/include', '-I/usr/include/eigen3', '-I' + REPO + '/include',
               '-I' + REPO + '/src', '-I' + REPO]
os.environ['VERIF_INCLUDES'] = ' '.join(INC())


def log(*a):
    print(*a, flush=True)


def header_hash():
    h = hashlib.sha256()
    fs = []
    for root in (REPO + '/include', REPO + '/src', V + '/engine', V + '/shim', V + '/harness'):
        for d, _, names in os.walk(root):
            fs += [os.path.join(d, n) for n in names if n.endswith(('.hh', '.h', '.hpp', '.hxx'))]
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def obj_name(src, flags, hh):
    inner = b''
    if src.endswith('.cpp'):
        # sources that include other sources (harness over a .cpp)
        txt = open(src, 'rb').read()
        for line in txt.splitlines():
            if line.startswith(b'#include') and b'.cpp' in line:
                n = line.split(b'"')[1].decode() if b'"' in line else line.split(b'<')[1].split(b'>')[0].decode()
                for d in (REPO, REPO + '/src', os.path.dirname(src)):
                    if os.path.exists(os.path.join(d, n)):
                        inner += open(os.path.join(d, n), 'rb').read()
    key = hashlib.sha256((' '.join(flags) + src + hh).encode() + open(src, 'rb').read() + inner).hexdigest()[:24]
    return os.path.join(BUILD, os.path.basename(src) + '.' + key + '.o')


def compile_all(jobs, link_out, libs, ldflags, fallback=None):
    """jobs: [(source, flags)]"""
    os.makedirs(BUILD, exist_ok=True)
    hh = header_hash()
    objs, todo = [], []
    for src, flags in jobs:
        o = obj_name(src, flags, hh)
        objs.append(o)
        if not os.path.exists(o):
            todo.append((src, flags, o))

    def one(t):
        src, flags, o = t
        tmp = o + '.%d.tmp' % os.getpid()
        p = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
        if p.returncode:
            lines = [l for l in p.stderr.splitlines() if 'error' in l or 'undefined' in l] or p.stderr.splitlines()
            return src + ':\n' + '\n'.join(l[:300] for l in lines[:12])
        os.rename(tmp, o)
        return None
    # longest first (by size of the source)
    todo.sort(key=lambda t: -os.path.getsize(t[0]) - (10**9 if V in t[0] or 'python' in t[0] else 0))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        raise BuildError('\n'.join(errs))
    if link_out is None:
        return None
    lk = hashlib.sha256((' '.join(objs) + ' '.join(libs + ldflags)).encode()).hexdigest()[:24]
    out = link_out + '.' + lk
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        p = subprocess.run([CXX] + ldflags + objs + ['-o', tmp, '-pthread'] + libs, capture_output=True, text=True)
        if p.returncode and fallback and 'undefined reference' in p.stderr:
            # a symbol now lives in a source that is not in the list of this check: look for it in all the others
            p = subprocess.run([CXX] + ldflags + objs + [fallback()] + ['-o', tmp, '-pthread'] + libs, capture_output=True, text=True)
        if p.returncode:
            raise BuildError('link: ' + p.stderr[-6000:])
        os.rename(tmp, out)
    return out


def archive(skip, flags):
    """every library source that compiles here, except those already linked"""
    srcs = sorted(set(glob.glob(REPO + '/src/*/*.cpp')) - set(skip))
    srcs = [s for s in srcs if not s.endswith(('.t.cpp', 'robot-utils-py.cpp', 'utils-windows.cpp'))]
    objs = []

    def one(s):
        try:
            compile_all([(s, flags)], None, [], [])
        except BuildError:
            pass
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(one, srcs))
    for s in srcs:
        o = obj_name(s, flags, header_hash())
        if os.path.exists(o):
            objs.append(o)
    a = os.path.join(BUILD, 'all-%s.a' % hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(a):
        subprocess.run(['ar', 'rcs', a + '.tmp'] + objs, check=True)
        os.rename(a + '.tmp', a)
    return a


def build(cid, c):
    san = [] if c.get('nosan') else SAN
    flags = BASE + san + INC() + c.get('flags', [])
    jobs = [(os.path.join(V, 'harness', c['harness']), flags + c.get('hflags', []))]
    for s in c.get('srcs', []):
        jobs.append((os.path.join(REPO, s), flags))
    for s in c.get('vsrcs', []):
        jobs.append((os.path.join(V, s), flags))
    for s in c.get('plain', []):       # big generated-code sources: no sanitizer, to bound the compile time
        jobs.append((os.path.join(REPO, s), BASE + INC() + c.get('flags', [])))
    return compile_all(jobs, os.path.join(BUILD, cid), c.get('libs', []), san,
                       lambda: archive([j[0] for j in jobs], flags))


def wrap_name(header):
    return 'wrap_' + os.path.basename(header)[:-len('-python.h')].replace('-', '_')


def build_pyext(cid, c):
    """one python extension with the binding sources of the repository (each with its own module name) and what they need"""
    import sysconfig
    flags = ['-std=c++14', '-O0', '-g0', '-w', '-fPIC', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-DBOOST_ALLOW_DEPRECATED_HEADERS',
             '-pthread'] + INC() + ['-I' + sysconfig.get_paths()['include']]
    jobs = [(os.path.join(V, 'harness', c['ext']), flags)]
    jobs += [(os.path.join(REPO, s), flags + (['-Dwrap=' + n] if n else [])) for s, n in c['bindings']]
    if c.get('headers'):        # a module for every header which lists the classes of a plugin, as the build makes them
        hs = [h for s in c['srcs'] for h in [s[:-4] + '-python.h'] if os.path.exists(os.path.join(REPO, h))]
        hs.sort(key=lambda h: 'event' not in h)     # its header cannot follow the one of the pool
        os.makedirs(BUILD, exist_ok=True)
        for k in range(8):
            g = os.path.join(BUILD, 'pyplugins%d.cpp' % k)
            text = '#include "pyplugin.hh"\n' + ''.join(
                '#define entities_t %s_t\n#include <%s>\n#undef entities_t\nBOOST_PYTHON_MODULE(%s) { exposeAll<%s_t>(); }\n' % (
                    n, os.path.join(REPO, h), n, n) for h in hs[k::8] for n in [wrap_name(h)])
            if not os.path.exists(g) or open(g).read() != text:
                with open(g, 'w') as f:
                    f.write(text)
            jobs.append((g, flags + ['-I' + os.path.join(V, 'harness')]))
    jobs += [(os.path.join(REPO, s), flags) for s in c['srcs']]
    lib = [os.path.basename(f)[3:-3] for f in sorted(glob.glob('/usr/lib/*/libboost_python3*.so'))]
    if not lib:
        raise BuildError('no Boost.Python library')
    return compile_all(jobs, os.path.join(BUILD, cid + '.so'), ['-l' + lib[0], '-ldl'] + c.get('libs', []), ['-shared', '-Wl,--allow-multiple-definition'],
                       lambda: archive([j[0] for j in jobs], flags))


def known(cid):
    """[(key, what)] of the recorded (unrepaired) findings of this property"""
    r = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('KNOWN-FINDING:') and 'property=%s ' % cid in l:
                rest = l.split('property=%s ' % cid, 1)[1].strip()
                key, what = rest.split(' ', 1)
                assert key.startswith('key='), l
                r.append((key[4:], what))
    return r


def run_cpp(cid, c, tier, seed):
    exe = build(cid, c)
    out = os.path.join(BUILD, cid + '.json')
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, '--id', cid, '--out', out, '--seed', str(seed), '--replaydir', REPLAYS,
           '--budget', os.environ.get('VERIF_BUDGET') or str(c.get('budget', 8) if tier == 'quick' else c.get('tbudget', 180)),
           '--min', str(c.get('min', 400)), '--cpu', str(c.get('cpu', 20)),
           '--workers', str(c.get('workers', min(8, os.cpu_count() or 4)))]
    if c.get('max'):
        cmd += ['--max', str(c['max'])]
    for k, _ in known(cid):
        cmd += ['--known', k]
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
    for l in p.stdout.splitlines():
        log(l)
    if p.returncode not in (0, 1):
        log(p.stderr[-4000:])
        raise BuildError('runner of %s ended with %d' % (cid, p.returncode))
    return p.returncode, json.load(open(out))


def run_py(cid, c, tier, seed):
    out = os.path.join(BUILD, cid + '.py.json')
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, VERIF_REPO=REPO, VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH=os.path.join(V, 'py'))
    if c.get('ext'):
        env['VERIF_PYEXT'] = build_pyext(cid, c)
        trace = env['VERIF_TRACE'] = os.path.join(BUILD, '%s.%d.trace' % (cid, os.getpid()))
    cmd = [PYVT, os.path.join(V, 'py', c['module']), '--id', cid, '--out', out, '--replaydir', REPLAYS,
           '--budget', os.environ.get('VERIF_BUDGET') or str(c.get('budget', 15) if tier == 'quick' else c.get('tbudget', 180))]
    for k, _ in known(cid):
        cmd += ['--known', k]
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env, cwd='/tmp')
    for l in p.stdout.splitlines():
        log(l)
    if p.returncode < 0 and c.get('ext') and os.path.exists(trace):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-crash.replay' % cid)
        shutil.move(trace, path)
        again = subprocess.run(cmd[:2] + ['--id', cid, '--replay', path], capture_output=True, env=env, cwd='/tmp').returncode
        log(p.stderr[-1500:])
        if again < 0:
            name = open(path).read().split()[2]
            log('FAILED %s: the interpreter died (signal %d)' % (name, -again))
            log('VIOLATION property=%s replay=%s' % (cid, path))
            return 1, dict(sub=[dict(prop=name, evaluations=1, nontrivial=0, distinct_nontrivial=0, samples=[])], evaluations=1,
                           violations=1, distinct_nontrivial=0)
    if c.get('ext') and os.path.exists(trace):
        os.unlink(trace)
    if p.returncode not in (0, 1) or not os.path.exists(out):
        log(p.stderr[-6000:])
        raise BuildError('python check of %s ended with %d' % (cid, p.returncode))
    return p.returncode, json.load(open(out))


def check(cid, tier):
    c = T.CHECKS[cid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    parts, rc = [], 0
    for part in c['parts']:
        kind = part.get('kind', 'cpp')
        r, cov = {'cpp': run_cpp, 'py': run_py}[kind](cid, part, tier, seed)
        rc = max(rc, r)
        cov['part'] = part.get('harness') or part.get('module')
        parts.append(cov)
        empty = [s['prop'] for s in cov['sub'] if not s['evaluations']]
        if empty and not r:
            raise BuildError('no case was run for %s' % ', '.join(empty))
    samples = []
    for p in parts:
        for s in p['sub']:
            for x in s.pop('samples', []):
                samples.append({'prop': s['prop'], 'case': x})
    ev = dict(property=cid, tier=tier, seed=seed, level=c.get('level', 'exploration'),
              coverage=dict(evaluations=sum(p['evaluations'] for p in parts),
                            distinct_nontrivial=sum(p['distinct_nontrivial'] for p in parts),
                            rule=c['rule'], samples=samples[:40],
                            sub=[dict(s, part=p['part']) for p in parts for s in p['sub']],
                            unreproducible=sum(p.get('unreproducible', 0) for p in parts)),
              assumptions=c.get('assumptions', T.ASSUME), wall_s=round(time.time() - t0, 2),
              violations=sum(p['violations'] for p in parts))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, cid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, cid + '.json'))
    for k, what in known(cid):
        log('KNOWN-FINDING: property=%s %s' % (cid, what))
    log('%s %s in %.1f s' % (cid, 'held' if rc == 0 else 'VIOLATED', time.time() - t0))
    return rc


def replay(path):
    txt = open(path, errors='replace').read().split('\n')
    cid = txt[0].split()[1]
    for part in T.CHECKS[cid]['parts']:
        if part.get('kind', 'cpp') == 'cpp':
            exe = build(cid, part)
            p = subprocess.run([exe, '--replay', path])
            if p.returncode != 2:
                return p.returncode
        else:
            env = dict(os.environ, VERIF_REPO=REPO, PYTHONPATH=os.path.join(V, 'py'), PYTHONDONTWRITEBYTECODE='1')
            if part.get('ext'):
                env['VERIF_PYEXT'] = build_pyext(cid, part)
            p = subprocess.run([PYVT, os.path.join(V, 'py', part['module']), '--id', cid, '--replay', path], env=env, cwd='/tmp')
            if p.returncode != 2:
                return p.returncode
    return 2


def manifest():
    ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    na = T.NOT_APPLICABLE + [dict(property=i, reason='check not built yet') for i in ids
                             if i not in T.CHECKS and i not in [x['property'] for x in T.NOT_APPLICABLE]]
    m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=na,
             notes='Every check compiles what it needs from /repo (plus the dynamic-graph/pinocchio stand-in headers in shim/) and runs generated cases against an oracle; see DESIGN.md.')
    for cid in sorted(T.CHECKS):
        c = T.CHECKS[cid]
        m['checks'].append(dict(property=cid, quick_cmd='python3 run.py check %s --tier quick' % cid,
                                thorough_cmd='python3 run.py check %s --tier thorough' % cid,
                                technique=c.get('technique', T.TECHNIQUE), level=c.get('level', 'exploration'),
                                level_note=c.get('note', T.NOTE)))
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    log('%d checks' % len(m['checks']))


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        if a[0] == 'check':
            return check(a[1], tier)
        if a[0] == 'replay':
            return replay(os.path.abspath(a[1]))
        if a[0] == 'all':
            ids = a[1:] or sorted(T.CHECKS)
            bad = []
            for i in ids:
                try:
                    r = check(i, tier)
                except BuildError as e:
                    log(e)
                    r = 2
                if r:
                    bad.append((i, r))
            log('bad:', bad)
            return 1 if bad else 0
        if a[0] == 'manifest':
            return manifest()
        if a[0] == 'setup':
            for t in (CXX, PYVT):
                assert shutil.which(t), t
            return 0
    except BuildError as e:
        log('ERROR: could not build or run the check')
        log(e)
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
