"""Build seeded/<id>/ from a spec file (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO) and confirm it: plant.py SPEC [checks...]"""
import json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests():
    sh('bash /opt/vp/test.sh /tmp/plant.json')
    return json.load(open('/tmp/plant.json'))


def confirm(d, checks):
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
    demo = sh('bash %s/demo.sh' % d, cwd=REPO)
    print('clean demo:', demo.returncode, (demo.stdout + demo.stderr)[-300:] if demo.returncode else '')
    ok = demo.returncode == 0
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode:
        print('patch does not apply', a.stderr)
        return False
    try:
        b = sh('bash /opt/vp/build.sh')
        t = json.dumps(tests())
        demo = sh('bash %s/demo.sh' % d, cwd=REPO)
        print('build:', b.returncode, 'demo with patch:', demo.returncode, (demo.stdout + demo.stderr).strip()[-300:])
        print('tests:', t[:400])
        ok = ok and b.returncode == 0 and demo.returncode != 0
        for c in checks:
            r = sh('/opt/venv/bin/python mc/run.py %s' % c, cwd=VERIF)
            print(c, 'exit', r.returncode, [l for l in r.stdout.splitlines() if 'tier=' in l])
            print('    ', ' | '.join(l[:300] for l in r.stdout.splitlines()[1:2]))
    finally:
        sh('git -C /repo checkout -- .')
    return ok


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    d = os.path.join(VERIF, 'seeded', spec['ID'])
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
    try:
        for f, old, new in spec['EDITS']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
    finally:
        sh('git -C /repo checkout -- .')
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(spec['DEMO'].lstrip())
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository; fails when the planted change is there\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    ok = confirm(d, sys.argv[2:] or [spec['PROPERTY']])
    print(spec['ID'], 'CONFIRMED' if ok else 'NOT CONFIRMED')


if __name__ == '__main__':
    if os.path.isdir(sys.argv[1]):
        print(confirm(os.path.abspath(sys.argv[1]), sys.argv[2:]))
    else:
        main()
