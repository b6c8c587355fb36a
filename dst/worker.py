"""Executes simulated runs.  Run i of (property, seed) is a pure function of the
code under test and (property, seed, i); nothing else is drawn from."""
import contextlib
import faulthandler
import gc
import importlib
import json
import os
import resource
import sys
import time
import traceback

from . import env  # noqa: F401
import jax
import jax.experimental

from . import core, device, flaky, host  # noqa: F401


def scenario(pid):
    return importlib.import_module(f'.scen.{pid.lower()}', __package__)


def execute(scn, case):
    """Run one case; returns its record."""
    sim = core.Sim()
    t = time.perf_counter()
    rec = {}
    try:
        device._current = None
        # jax's default configuration: 64 bit types are not available
        with jax.experimental.disable_x64() if case.get('x32') else contextlib.nullcontext():
            scn.run(case, sim)
    except core.Violation as v:
        sim.fail(v.cls, v.detail)
    except BaseException as e:  # a bug of the harness: never a verdict
        rec['harness_error'] = f'{type(e).__name__}: {e}\n' + ''.join(traceback.format_exc())[-2500:]
    finally:
        device._current = None
    rec.update(
        digest=sim.digest(), steps=sim.steps, stats=dict(sim.stats), sigs=sorted(sim.sigs),
        violations=sim.violations, wall=time.perf_counter() - t,
    )
    if sim.violations:
        rec['tail'] = list(sim.tail)[-60:]
    return rec


def make_case(scn, pid, seed, i, tier):
    return json.loads(core.jdump(scn.gen(core.rng_for(pid, seed, i), i, tier)))


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * resource.getpagesize()


def main_run(pid, seed, tier, w, W, deadline, cap, out):
    scn = scenario(pid)
    if hasattr(scn, 'warm'):
        scn.warm()
    gc.collect()
    gc.freeze()
    start = int(os.environ.get('DST_START', w))
    n = 0
    with open(out, 'a', buffering=1) as f:
        i = start
        while i < cap and time.time() < deadline:
            f.write(json.dumps({'start': i}) + '\n')
            faulthandler.dump_traceback_later(150, exit=True)
            case = make_case(scn, pid, seed, i, tier)
            rec = execute(scn, case)
            rec['i'] = i
            if rec['violations'] or rec.get('harness_error') or i < 3:
                rec['case'] = case
            f.write(json.dumps(rec) + '\n')
            n += 1
            i += W
            if n % 8 == 0:
                gc.collect()
                if rss() > 2.2e9:
                    faulthandler.cancel_dump_traceback_later()
                    f.write(json.dumps({'respawn': i}) + '\n')
                    return 77
        faulthandler.cancel_dump_traceback_later()
        f.write(json.dumps({'done': True}) + '\n')
    return 0


def main_one(casefile, out):
    with open(casefile) as f:
        rep = json.load(f)
    scn = scenario(rep['property'])
    faulthandler.dump_traceback_later(300, exit=True)
    recs = []
    for c in rep.get('prelude', []):
        execute(scn, c)
        gc.collect()
    recs = execute(scn, rep['case'])
    with open(out, 'w') as f:
        json.dump(recs, f)
    return 0


def main_list(spec, out):
    """Determinism sample: records of the runs in spec['runs'], in that order."""
    with open(spec) as f:
        sp = json.load(f)
    scn = scenario(sp['property'])
    if hasattr(scn, 'warm'):
        scn.warm()
    with open(out, 'a', buffering=1) as f:
        for i in sp['runs']:
            if time.time() > sp['deadline']:
                break
            rec = execute(scn, make_case(scn, sp['property'], sp['seed'], i, sp['tier']))
            f.write(json.dumps({'i': i, 'digest': rec['digest'], 'steps': rec['steps']}) + '\n')
    return 0


def main_shrink(casefile, out, budget):
    with open(casefile) as f:
        rep = json.load(f)
    scn = scenario(rep['property'])
    faulthandler.dump_traceback_later(budget * 3 + 120, exit=True)
    cls = rep['class']
    end = time.time() + budget
    tried = kept = 0
    best = rep['case']

    def fails(case):
        nonlocal tried
        tried += 1
        gc.collect()
        r = execute(scn, case)
        return any(v['class'] == cls for v in r['violations'])

    progress = True
    # bring the case into explicit form (e.g. a recorded schedule) first
    if hasattr(scn, 'explicit'):
        for c in scn.explicit(best) or []:
            if time.time() < end and fails(c):
                best = c
                break
    while progress and time.time() < end:
        progress = False
        for c in scn.shrink(best):
            if time.time() >= end:
                break
            c = json.loads(core.jdump(c))
            if c == best:
                continue
            if fails(c):
                best, progress = c, True
                kept += 1
                with open(out, 'w') as f:
                    json.dump({'case': best, 'tried': tried, 'kept': kept}, f)
                break
    with open(out, 'w') as f:
        json.dump({'case': best, 'tried': tried, 'kept': kept}, f)
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'run':
        rc = main_run(a[1], int(a[2]), a[3], int(a[4]), int(a[5]), float(a[6]), int(a[7]), a[8])
    elif a[0] == 'one':
        rc = main_one(a[1], a[2])
    elif a[0] == 'list':
        rc = main_list(a[1], a[2])
    else:
        rc = main_shrink(a[1], a[2], float(a[3]))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
