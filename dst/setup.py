"""setup_cmd: nothing is compiled; check that the harness and the code under test import."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import env, sched, worker  # noqa: E402,F401

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(os.path.join(root, 'MANIFEST.json')))
for c in man['checks']:
    worker.scenario(c['property'])
print('ok', env.folx.__file__, len(sched.CODES), 'code objects')
