#!/usr/bin/env python3
"""mkseed.py SPECFILE: plant bugs described in a python file and keep those confirmed.

SPECFILE defines BUGS = [dict(id, property, file, edits=[(old, new)..], needs, what, demo=python source)].
Each is applied to a scratch copy of /repo; the demonstration must pass without and fail with it, and the
stable tests must pass with it."""
import importlib.util, json, os, subprocess, sys, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, timeout=600):
    env = dict(os.environ, PYTHONPATH=cwd, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def stable(wc):
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    r = sh(PY + ' -m pytest -q -p no:cacheprovider -k "not test_FitEmissionLines2D" --timeout=150 '
           '-o junit_family=xunit2 --junitxml=%s/../r.xml . ' % wc, wc + '/tests')
    env_r = open(wc + '/../r.xml').read()
    import xml.etree.ElementTree as ET
    ok = {c.get('classname') + '::' + c.get('name') for c in ET.fromstring(env_r).iter('testcase')
          if not len(c)}
    return [s for s in st if not any(o.endswith(s.replace('tests.', '', 1)) or o == s for o in ok)]


def main():
    sp = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    only = sys.argv[2:]
    for b in m.BUGS:
        if only and b['id'] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix='seed')
        wc = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', wc], check=True)
        out = os.path.join(H, 'seeded', b['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/demo.py', 'w').write(b['demo'])
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: behaviour as stated; non-zero: broken\n'
            'here=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python "$here/demo.py"\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                  open(out + '/meta.json', 'w'), indent=1)
        good = True
        r = sh('bash %s/demo.sh' % out, wc)
        if r.returncode != 0:
            print(b['id'], 'DEMO FAILS ON CLEAN', r.stdout[-800:], r.stderr[-1500:]); good = False
        files = b['file'] if isinstance(b['file'], list) else [b['file']] * len(b['edits'])
        for f, (o, n) in zip(files, b['edits']):
            p = wc + '/' + f
            s = open(p).read()
            if s.count(o) != 1:
                print(b['id'], 'edit matches', s.count(o), repr(o)); good = False
                continue
            open(p, 'w').write(s.replace(o, n))
        d = sh('git diff', wc).stdout
        open(out + '/patch.diff', 'w').write(d)
        r = sh('bash %s/demo.sh' % out, wc)
        if r.returncode == 0:
            print(b['id'], 'DEMO PASSES WITH BUG', r.stdout[-500:]); good = False
        else:
            print(b['id'], 'demo:', (r.stdout + r.stderr).strip().splitlines()[-1:])
        # lines must be original ones
        if good:
            miss = stable(wc)
            if miss:
                print(b['id'], 'TESTS FAIL', miss); good = False
        if good:
            # run checks
            env = dict(os.environ, VERIF_REPO=wc, VERIF_EVIDENCE=tmp + '/ev')
            caught = []
            for pid in ['C%02d' % i for i in range(1, 23)]:
                r = subprocess.run([sys.executable, H + '/check.py', pid], env=env, capture_output=True, text=True)
                if r.returncode == 1 and 'VIOLATION property=' + pid in r.stdout:
                    caught.append(pid)
            print(b['id'], 'kept;', b['property'], 'CAUGHT' if b['property'] in caught else 'MISSED', caught)
        else:
            shutil.rmtree(out)
            print(b['id'], 'dropped')
        shutil.rmtree(tmp)


main()
