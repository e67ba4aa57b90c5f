#!/opt/venv/bin/python
"""check.py Cxx [--tier quick|thorough] [--replay FILE] ...: decide one property (see DESIGN.md)."""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.dont_write_bytecode:
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    for k in ('PYTHONPATH', 'PYTHONOPTIMIZE', 'PYTHONUTF8', 'PYTHONIOENCODING', 'PYTHONWARNINGS'):
        env.pop(k, None)
    py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    os.execve(py, [py, '-u', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import runner  # noqa: E402

if __name__ == '__main__':
    try:
        code = runner.main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
