#!/usr/bin/env python3
"""mutate.py REPO COPY FILES N SEED LOG: make N small changes, one at a time, in each source (FILES: all, half0 to half3 (a quarter each), or parts of their names; in REPO, a scratch
clone), run the checks of COPY (a scratch clone of /verif) which own the source, and log the changes they do not notice."""
import os
import random
import re
import subprocess
import sys

REPO, COPY, which, N, seed, log = sys.argv[1:7]
N = int(N)
sys.path.insert(0, COPY)
import checks  # noqa
rnd = random.Random(int(seed))
M, S, D = 'src/matrix/', 'include/sot/core/', 'src/dynamic_graph/sot/core/'
OWNERS = {
    'src/control/admittance-control-op-point.cpp': 'C20', 'src/control/control-gr.cpp': 'C19', 'src/control/control-pd.cpp': 'C19', 'src/debug/contiifstream.cpp': 'C06',
    'src/debug/debug.cpp': 'C05', 'src/exception/exception-abstract.cpp': 'C04', 'src/factory/pool.cpp': 'C42', 'src/feature/feature-1d.cpp': 'C26',
    'src/feature/feature-abstract.cpp': 'C26 C27 C42', 'src/feature/feature-generic.cpp': 'C26 C13', 'src/feature/feature-joint-limits.cpp': 'C29 C13',
    'src/feature/feature-line-distance.cpp': 'C29 C13', 'src/feature/feature-point6d-relative.cpp': 'C29 C13', 'src/feature/feature-point6d.cpp': 'C27 C13',
    'src/feature/feature-pose.cpp': 'C28', S + 'feature-pose.hxx': 'C28 C13', 'src/feature/feature-posture.cpp': 'C26 C25 C13', 'src/feature/feature-task.cpp': 'C26 C13',
    'src/feature/feature-vector3.cpp': 'C26 C13', 'src/feature/feature-visual-point.cpp': 'C29 C13', 'src/feature/visual-point-projecter.cpp': 'C29 C13',
    'src/filters/causal-filter.cpp': 'C01 C02', 'src/filters/filter-differentiator.cpp': 'C16', 'src/filters/madgwickahrs.cpp': 'C17',
    'src/math/op-point-modifier.cpp': 'C30 C13', S + 'derivator.hh': 'C14', S + 'fir-filter.hh': 'C14', S + 'integrator-euler.hh': 'C15', S + 'integrator-abstract.hh': 'C15',
    M + 'matrix-svd.cpp': 'C10', M + 'operator.cpp': 'C12 C11 C09', M + 'operator.hh': 'C12 C11 C09 C13', S + 'variadic-op.hh': 'C11 C12 C13', 'src/sot/flags.cpp': 'C07',
    'src/sot/memory-task-sot.cpp': 'C25', 'src/sot/sot.cpp': 'C24 C25 C13', 'src/task/gain-adaptive.cpp': 'C21', 'src/task/gain-hyperbolic.cpp': 'C21',
    'src/task/multi-bound.cpp': 'C08', 'src/task/task-abstract.cpp': 'C22 C42', 'src/task/task-conti.cpp': 'C23', 'src/task/task-pd.cpp': 'C23', 'src/task/task-unilateral.cpp': 'C23',
    'src/task/task.cpp': 'C22 C13', 'src/tools/binary-int-to-uint.cpp': 'C33', 'src/tools/clamp-workspace.cpp': 'C32 C13', 'src/tools/com-freezer.cpp': 'C34',
    'src/tools/device.cpp': 'C31', 'src/tools/event.cpp': 'C33', S + 'event.hh': 'C33', S + 'latch.hh': 'C33', S + 'switch.hh': 'C33 C13', S + 'timer.hh': 'C33',
    'src/tools/exp-moving-avg.cpp': 'C14', 'src/tools/gradient-ascent.cpp': 'C34', 'src/tools/gripper-control.cpp': 'C32 C13', 'src/tools/joint-limitator.cpp': 'C32 C13',
    'src/tools/joint-trajectory-entity.cpp': 'C38', 'src/tools/kalman.cpp': 'C18', S + 'mailbox.hxx': 'C35', 'src/tools/motion-period.cpp': 'C34',
    'src/tools/neck-limitation.cpp': 'C32 C13', 'src/tools/parameter-server.cpp': 'C40', 'src/tools/periodic-call-entity.cpp': 'C36', 'src/tools/periodic-call.cpp': 'C36 C31',
    'src/tools/robot-utils.cpp': 'C39 C40', S + 'robot-utils.hh': 'C39 C40', 'src/tools/sequencer.cpp': 'C36', 'src/tools/smooth-reach.cpp': 'C34', 'src/tools/sot-loader.cpp': 'C41',
    'src/tools/time-stamp.cpp': 'C33', 'src/tools/trajectory.cpp': 'C38 C46', 'src/traces/reader.cpp': 'C37', 'src/utils/stop-watch.cpp': 'C03',
    D + 'matrix_util.py': 'C43', D + 'utils/attime.py': 'C44', D + 'utils/history.py': 'C44', D + 'utils/thread_interruptible_loop.py': 'C44',
    D + 'meta_tasks.py': 'C45', D + 'meta_task_6d.py': 'C45', D + 'meta_task_posture.py': 'C45', D + 'meta_task_visual_point.py': 'C45', D + 'meta_tasks_kine.py': 'C45',
    D + 'meta_tasks_kine_relative.py': 'C45', D + 'feature_position.py': 'C45', D + 'feature_position_relative.py': 'C45', D + 'math_small_entities.py': 'C45',
    D + 'utils/viewer_helper.py': 'C47', D + 'utils/viewer_loger.py': 'C47'}
FILES = sorted(OWNERS) if which == 'all' else [f for f in sorted(OWNERS) if any(w in f for w in which.split(','))]
if which.startswith('half'):
    FILES = sorted(OWNERS)[int(which[4])::4]
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '),
       (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'),
       (r'\+= ', '-= '), (r'-= ', '+= '), (r'\b(\d+)\b(?!\.|\d|>)', None), (r'\b(\d+\.\d*)', None), (r'\+\+(\w+)', r'\1'), (r'if \((.*)\) (\{|\w.*;)$', r'if (!(\1)) \2'),
       (r'\bstd::min\b', 'std::max'), (r'\bstd::max\b', 'std::min'), (r'\bcos\b', 'sin'), (r'\bsin\b', 'cos'), (r'\.transpose\(\)', ''), (r'\.inverse\(\)', ''),
       (r'^(\s+)[\w.>\[\](-]+.*;$', r'\1;'), (r' and ', ' or '), (r' or ', ' and '), (r'\bif (.*):$', r'if not (\1):'), (r'(\w+)\(time\)', None)]


def skip(l):
    s = l.strip()
    return (not s or s.startswith(('//', '*', 'assert', '\\', '/*', '#', 'sotDEBUG', 'using', 'namespace', 'template', 'import', 'from', 'typedef', '"', "'''", '}', 'sotERROR', 'os <<',
                                   'extern', 'std::cout', 'case')) or 'DEBUG' in s or 'doc' in s.lower() or 'cerr' in s or 'cout' in s or 'print' in s)


def mutant(f):
    for _ in range(5000):
        raw = open(os.path.join(REPO, f), newline='').read()
        ls = raw.split('\n')
        i = rnd.randrange(len(ls))
        l = ls[i].rstrip('\r')
        if skip(l) or (f.endswith('.py') and ls[max(0, i - 1)].count('"""')):
            continue
        pat, rep = rnd.choice(OPS)
        code = l.split('//')[0].rstrip()
        ms = [m for m in re.finditer(pat, code) if code[:m.start()].count('"') % 2 == 0]
        if not ms:
            continue
        m = rnd.choice(ms)
        if rep is None:
            if m.group(0).endswith('(time)'):
                new = m.group(1) + '.accessCopy()'
            else:
                new = str(int(m.group(1)) + rnd.choice([1, -1])) if '.' not in m.group(1) else repr(float(m.group(1)) * 1.5 + .1)
        else:
            new = m.expand(rep)
        n = l[:m.start()] + new + l[m.end():]
        if n == l or (f.endswith('.py') and n.strip() in ('', ';')):
            continue
        ls[i] = n + ('\r' if ls[i].endswith('\r') else '')
        return f, i + 1, l.strip(), n.strip(), '\n'.join(ls), raw
    return None


def note(s):
    with open(log, 'a') as o:
        o.write(s + '\n')


for f in FILES:
    done = killed = 0
    p = os.path.join(REPO, f)
    while done < N:
        m = mutant(f)
        if not m:
            break
        _, i, old, new, text, raw = m
        open(p, 'w', newline='').write(text)
        rc = None
        try:
            for cid in OWNERS[f].split():
                rc = subprocess.run(['timeout', '300', 'python3', 'run.py', 'check', cid], cwd=COPY, capture_output=True, text=True,
                                    env=dict(os.environ, VERIF_REPO=REPO, VERIF_SEED='1', VERIF_BUDGET='5')).returncode
                if rc != 0:
                    break
        finally:
            open(p, 'w', newline='').write(raw)
        if rc not in (0, 1):
            if rc != 2:
                note('rc %d %s:%d  %s  =>  %s' % (rc, f, i, old, new))
            done += .34
            continue
        done += 1
        killed += rc == 1
        if rc == 0:
            note('SURVIVES %s:%d  %s  =>  %s' % (f, i, old, new))
    note('%s: %d of %.0f noticed' % (f, killed, done))
