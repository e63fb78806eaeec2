#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough] [--seed N] [--replay FILE]: decides one property of /repo's working tree."""
import argparse, importlib, json, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if sys.prefix != '/opt/veriftools/pyvenv' and os.path.exists(VT) and not os.environ.get('VT_REEXEC'):
    os.environ['VT_REEXEC'] = '1'
    os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'vt'))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier')
    ap.add_argument('--seed', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    import fw
    m = importlib.import_module('checks.' + a.pid.lower())
    f = fw.Fw(a.pid, m.LEVEL, a.tier, a.seed, a.replay)
    try:
        m.run(f)
        return f.finish()
    except Exception:
        traceback.print_exc()
        import shutil
        shutil.rmtree(f.scratch, ignore_errors=True)
        print('ERROR: the check of %s could not be completed' % a.pid)
        return 2


if __name__ == '__main__':
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
