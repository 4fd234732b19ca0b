"""python3-vt harness/run.py Cnn quick|thorough    |    python3-vt harness/run.py Cnn --replay FILE"""
import sys, os, glob, importlib
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core


def main():
    core.ensure_environment()
    prop = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    found = glob.glob(os.path.join(HERE, 'checks', prop.lower() + '_*.py'))
    if len(found) != 1:
        print('no check module for', prop, found); return 2
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    module = importlib.import_module(os.path.basename(found[0])[:-3])
    if mode == '--replay':
        return core.replay(module, os.path.abspath(sys.argv[3]) if os.path.exists(sys.argv[3]) else os.path.join(core.VERIF, sys.argv[3]))
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    return core.run_check(module, mode, seed)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback; traceback.print_exc()
        rc = 2
    sys.exit(rc)
