"""run.py C03 [--thorough]   check one property
run.py replay FILE          re-run the execution recorded in a violation file
run.py all [--thorough]     check all of them"""
import os, sys, subprocess
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
MODULES = {'C%02d' % i: 'c%02d' % i for i in range(1, 25)}
if __name__ == '__main__':
    # one fixed string hash seed per process: the thorough tier repeats the run under another one
    if os.environ.get('PYTHONHASHSEED') is None:
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    os.chdir(os.path.dirname(HERE))
    sys.path.insert(0, HERE)
    sys.modules['run'] = sys.modules['__main__']
    import core
    a = sys.argv[1]
    if a == 'replay':
        sys.exit(core.replay(sys.argv[2]))
    if a == 'all':
        rc = 0
        for p in sorted(MODULES):
            if os.path.exists(os.path.join(HERE, MODULES[p] + '.py')):
                rc |= subprocess.call([sys.executable, __file__, p] + sys.argv[2:])
        sys.exit(rc)
    sys.exit(core.main(a, MODULES[a]))
