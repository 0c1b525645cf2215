import os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Check, MachineryError


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1') % (2**31 - 1)
    c = Check(pid, tier, seed)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(c)
        rc = c.finish()
    except MachineryError as e:
        print('CHECK-ERROR %s: %s' % (pid, e))
        rc = 2
    except BaseException:
        traceback.print_exc()
        print('CHECK-ERROR %s: harness exception' % pid)
        rc = 2
    finally:
        c.cleanup()
    sys.stdout.flush()
    os._exit(rc)


main()
