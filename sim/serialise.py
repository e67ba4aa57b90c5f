"""Helper process for C05: serialises documents under another hash seed. stdin: JSON list of trees."""
import hashlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import loader, schema as S, world as W     # noqa: E402

if __name__ == '__main__':
    job = json.load(sys.stdin)
    loader.install()
    out = []
    with W.World(job['env']) as w:
        w.boot()
        for t in job['trees']:
            out.append(hashlib.sha256(S.build(w.lib, t).to_sexpr().encode('utf-8', 'surrogatepass')).hexdigest())
    sys.stdout.write(json.dumps(out))
    sys.stdout.flush()
    os._exit(0)
