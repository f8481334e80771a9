import sys, os, argparse, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
import core, extract
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('--tier', default='quick')
    a = ap.parse_args()
    ck = core.Check(a.pid, a.tier)
    try:
        m = importlib.import_module(a.pid.lower())
        m.go(ck, a.tier)
    except extract.ExtractError as e:
        print('ERROR', e); return 2
    return ck.finish()
if __name__ == '__main__':
    sys.setrecursionlimit(200000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    def r():
        try: rc.append(main())
        except SystemExit as e: rc.append(e.code)
    t = threading.Thread(target=r); t.start(); t.join()
    sys.exit(rc[0] if rc else 3)
