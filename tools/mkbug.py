"""plant bugs: python3 tools/mkbug.py SPEC.py  -- SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
Each is tried in a scratch copy of /repo: it must pass the stable tests, its demo must pass without and fail with it; then it is
written to /verif/seeded/<id>/ and the check of the property is run against it in the copy."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

W = '/tmp/bugw'
CLEAN = '/tmp/bugclean'    # a clone of HEAD: /repo itself may be in use by a running check
PY = '/opt/venv/bin/python'
base = {t for t in json.load(open('/opt/vp/BASELINE.json')).get('passed', [])} if os.path.exists('/opt/vp/BASELINE.json') else set()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)


def tests(tree):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', PYTHONPATH=tree)
    sh(f'rm -rf /tmp/bugt; mkdir /tmp/bugt; cp -a {CLEAN}/test /tmp/bugt/test; ln -s {tree}/metcalcpy /tmp/bugt/metcalcpy')
    r = sh(f'{PY} -m pytest -q -p no:cacheprovider --timeout=300 . 2>&1 | tail -8', cwd='/tmp/bugt/test', env=env)
    sh('rm -rf /tmp/bugt')
    m = re.search(r'(\d+) passed', r.stdout)
    return (int(m.group(1)) if m else 0), r.stdout


def demo(d, tree):
    env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1')
    env.pop('VERIF_SEED', None)
    return sh(f'bash {d}/demo.sh', cwd=tree, env=env, timeout=300)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    sh(f'rm -rf {CLEAN}; git clone -q /repo {CLEAN}')
    for b in bugs:
        if want and b['id'] not in want:
            continue
        sh(f'rm -rf {W}; cp -a {CLEAN} {W}')
        ok = True
        for f, old, new in b['edits']:
            s = open(f'{W}/{f}').read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT MATCHES', s.count(old), f)
                ok = False
                break
            open(f'{W}/{f}', 'w').write(s.replace(old, new))
        if not ok:
            continue
        d = f'/tmp/bugd_{b["id"]}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(f'{d}/patch.diff', 'w').write(sh(f'git -C {W} diff').stdout)
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        open(f'{d}/demo.py', 'w').write('import os, sys, warnings\nsys.path.insert(0, os.getcwd())\nwarnings.simplefilter("ignore")\n' + b['demo'])
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        n, log = tests(W)
        clean, dirty = demo(d, CLEAN), demo(d, W)
        good = n >= 57 and clean.returncode == 0 and dirty.returncode != 0
        r = sh(f'bash /verif/run.sh {b["prop"]} quick', env=dict(os.environ, VERIF_REPO=W, PYTHONPATH=W, VERIF_SEED='1'))
        caught = r.returncode == 1 and f'VIOLATION property={b["prop"]}' in r.stdout
        print(f'{b["id"]}: tests={n} demo clean={clean.returncode} bug={dirty.returncode} {"VALID" if good else "INVALID"} '
              f'check={"CAUGHT" if caught else f"MISSED (exit {r.returncode})"}')
        if not good:
            print(log[-600:], clean.stdout[-300:], clean.stderr[-600:], dirty.stdout[-300:], dirty.stderr[-300:])
        else:
            if not dirty.stdout and 'Traceback' in dirty.stderr:
                print('   demo traceback:', dirty.stderr.strip().splitlines()[-1])
            t = f'/verif/seeded/{b["id"]}'
            shutil.rmtree(t, ignore_errors=True)
            os.makedirs('/verif/seeded', exist_ok=True)
            shutil.move(d, t)
        if good:
            rf = '/verif/tools/bug_results.json'
            res = json.load(open(rf)) if os.path.exists(rf) else {}
            res[b['id']] = b['prop'] if caught else 'missed'
            json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
        if not caught:
            print('   ', r.stdout[-500:], r.stderr[-300:])
    sh(f'rm -rf {W} {CLEAN}')


main()
