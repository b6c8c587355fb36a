"""python -m dst.replay <file>: re-executes a replay file; exit 1 if the violation is there."""
import json
import os
import shutil
import sys
import tempfile

from . import check

if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        rep = json.load(f)
    scratch = tempfile.mkdtemp(prefix='dst-replay-')
    try:
        rec = check.run_one(rep, scratch, 'replay')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    hit = [v for v in rec.get('violations', []) if v['class'] == rep['class']] or ([{'detail': 'no progress'}] if rec.get('hung') else [])
    print(json.dumps({k: rec.get(k) for k in ('digest', 'violations', 'tail', 'harness_error')}, indent=1))
    if hit:
        print(f'VIOLATION property={rep["property"]} replay={os.path.abspath(sys.argv[1])}')
    sys.exit(1 if hit else 0)
