"""Write seeded/<id>/ from the definitions in tools/seeds.py and verify them in a scratch copy of the repository.

usage: mkseed.py [ids]     (checks: mkseed.py --run [ids] also runs the property's check on the patched copy)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeds import SEEDS

DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right, non-zero otherwise; run in the repository root
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/stub"
cat > "$T/stub/tf.py" <<'EOF'
EOF
export MPLBACKEND=Agg MPLCONFIGDIR="$T/mpl" PYTHONDONTWRITEBYTECODE=1 SCRATCH="$T"
export PYTHONPATH="$PWD/hand_eye_calibration/python:$PWD/hand_eye_calibration_experiments/python:$T/stub"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
timeout 280 "$PY" "$D/demo.py" > "$T/out" 2>&1
R=$?
tail -5 "$T/out"
exit $R
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    args = sys.argv[1:]
    run = '--run' in args
    ids = [a for a in args if not a.startswith('-')]
    root = tempfile.mkdtemp(prefix='vfaseed')
    try:
        for s in SEEDS:
            if ids and s['id'] not in ids:
                continue
            d = os.path.join(root, s['id'])
            sh('cp -r /repo %s' % d)
            for rel, old, new in s['edits']:
                p = os.path.join(d, rel)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'edit matches %d times: %r' % (t.count(old), old))
                    break
                open(p, 'w').write(t.replace(old, new))
            else:
                out = os.path.join(HERE, 'seeded', s['id'])
                os.makedirs(out, exist_ok=True)
                diff = sh('git diff', cwd=d).stdout
                open(os.path.join(out, 'patch.diff'), 'w').write(diff)
                open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
                os.chmod(os.path.join(out, 'demo.sh'), 0o755)
                open(os.path.join(out, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']},
                          open(os.path.join(out, 'meta.json'), 'w'), indent=1)
                a = sh('bash %s/demo.sh' % out, cwd='/repo')
                b = sh('bash %s/demo.sh' % out, cwd=d)
                # original lines only
                added = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
                fixes = sh("git log -p --format= --grep='^fix:' | grep '^+' | cut -c2-", cwd='/repo').stdout.split('\n')
                mine = [l for l in added if l.strip() and l in fixes]
                t = sh('/opt/venv/bin/python -m pytest -q -x hand_eye_calibration/test/test_quaternion.py '
                       'hand_eye_calibration/test/test_dual_quaternion.py 2>&1 | tail -1', cwd=d,
                       env=dict(os.environ, PYTHONPATH=d + '/hand_eye_calibration/python'))
                msg = 'demo %d -> %d; tests: %s' % (a.returncode, b.returncode, t.stdout.strip())
                if a.returncode or not b.returncode:
                    msg += '  PROBLEM ' + a.stdout[-300:] + b.stdout[-300:]
                if mine:
                    msg += '  CHANGES FIXED LINES %s' % mine
                if run:
                    c = sh('python3 %s/check.py %s' % (HERE, s['property']),
                           env=dict(os.environ, VFA_REPO=d, VFA_EVIDENCE=root + '/ev'))
                    msg += '; check exit %d %s' % (c.returncode, [l for l in c.stdout.split('\n') if ': [' in l][:1])
                print(s['id'], s['property'], msg)
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
