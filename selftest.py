#!/opt/venv/bin/python
"""setup_cmd: nothing has to be built (the checks load the library from /repo's working tree), so this only
confirms that the simulator is usable here: every run is a pure function of property, seed and run number (two
processes give identical event logs), and the simulated disk is between the library and its files."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = [f'C{n:02d}' for n in range(1, 15)] + ['C18', 'C19']


def digest(p, n):
    env = dict(os.environ)
    r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), p, '--digest', str(n), '--seed', '7', '--tier', 'quick'],
                       capture_output=True, text=True, env=env)
    if r.returncode:
        raise SystemExit(f'{p}: {r.stdout}{r.stderr}')
    return r.stdout


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 12
    bad = 0
    for p in PROPS:
        a, b = digest(p, n), digest(p, n)
        if a != b:
            bad += 1
            print(f'{p}: two executions of the same seeds differ')
        print(f'{p}: {n} runs executed twice, identical event logs, {sum(int(l.split()[3]) for l in a.splitlines())} events')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
