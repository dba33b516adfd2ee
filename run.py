#!/opt/venv/bin/python
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))

def _fix_environment():
    wanted = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent-pycache',
              'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'}
    python = '/opt/venv/bin/python'
    if any(os.environ.get(key) != value for key, value in wanted.items()) or os.environ.get('PYTHONPATH'):
        environment = dict(os.environ)
        environment.update(wanted)
        environment.pop('PYTHONPATH', None)
        os.execve(python, [python, os.path.abspath(__file__), *sys.argv[1:]], environment)


def main():
    _fix_environment()
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    name = sys.argv[1]
    import glob, importlib
    matches = glob.glob(os.path.join(HERE, 'checks', name.lower() + '_*.py'))
    if len(matches) != 1:
        print('no such check:', name, file = sys.stderr)
        sys.exit(2)
    # `mc.base` replaces the clock before anything of the code under test is imported
    from mc import base, fakeos, fakenet
    try:
        base.import_target()
        module = importlib.import_module('checks.' + os.path.basename(matches[0])[:-3])
    except (SyntaxError, ImportError):
        raise
    base.main(module.CHECK, sys.argv[2:])


if __name__ == '__main__':
    main()
