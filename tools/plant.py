"""Confirms planted changes.  plant.py SPEC.py [ID...]

SPEC.py defines BUGS: a list of dicts with id, property, edits [(file, old, new)], demo (python source), needs, what.
For each: a scratch copy of /repo is changed, the demonstration has to succeed on the original and to fail on the
change, the stable tests have to pass on the change; then /verif/seeded/<id>/ is written."""
import json, os, runpy, shutil, subprocess, sys
import xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
DEMO = '#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n' \
       'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = 'import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings\nwarnings.simplefilter("ignore")\n' \
       'import numpy as np\nimport skcurve\nfrom skcurve import *\n'


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in bugs:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]:
            continue
        w = '/tmp/plant.' + b['id']
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo', w + '/repo')
        repo = w + '/repo'
        try:
            for f, old, new in b['edits']:
                s = open(os.path.join(repo, f)).read()
                if s.count(old) != 1:
                    raise ValueError('%s: %r occurs %d times in %s' % (b['id'], old, s.count(old), f))
                open(os.path.join(repo, f), 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE).stdout
            d = os.path.join(w, 'demo')
            os.makedirs(d)
            open(d + '/demo.py', 'w').write(HEAD + b['demo'].strip() + '\n')
            open(d + '/demo.sh', 'w').write(DEMO)
            ok = True
            r = sh(['bash', d + '/demo.sh'], '/repo')
            if r.returncode != 0:
                ok = False
                print(b['id'], 'demo FAILS on the original:', r.stdout.decode()[-600:])
            r = sh(['bash', d + '/demo.sh'], repo)
            if r.returncode == 0:
                ok = False
                print(b['id'], 'demo PASSES with the change')
            else:
                print(b['id'], 'demo:', r.stdout.decode().strip().split('\n')[-1][-150:])
            r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--junitxml=' + w + '/j.xml', 'tests'], repo)
            t = ET.parse(w + '/j.xml').getroot()
            bad = [c.get('name') for c in t.iter('testcase') if c.find('failure') is not None or c.find('error') is not None]
            if bad:
                ok = False
                print(b['id'], 'TESTS FAIL:', len(bad), bad[:4])
            if ok:
                out = os.path.join(ROOT, 'seeded', b['id'])
                os.makedirs(out, exist_ok=True)
                open(out + '/patch.diff', 'wb').write(diff)
                shutil.copy(d + '/demo.py', out)
                shutil.copy(d + '/demo.sh', out)
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                          open(out + '/meta.json', 'w'), indent=1)
                print(b['id'], 'confirmed')
        except ValueError as e:
            print(e)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
