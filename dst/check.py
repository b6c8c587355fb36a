"""python -m dst.check <property> [--tier quick|thorough]

Explores simulated runs in parallel worker processes, minimises and replays the
first violation, writes evidence/<property>.json.  Exit 0 or 1, nothing else."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
QUICK_BUDGET = 75.0
THOROUGH_BUDGET = 780.0


def spawn(args, scratch, hashseed='0', extra=None):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=ROOT, TMPDIR=scratch, **(extra or {}))
    e.setdefault('FOLX_REPO', '/repo')
    log = open(os.path.join(scratch, 'stderr.log'), 'ab')
    return subprocess.Popen([PY, '-m', 'dst.worker', *map(str, args)], cwd=ROOT, env=e, stdout=log, stderr=log, stdin=subprocess.DEVNULL)


def read_lines(path, pos):
    try:
        with open(path) as f:
            f.seek(pos)
            data = f.read()
    except FileNotFoundError:
        return [], pos
    end = data.rfind('\n') + 1
    return [json.loads(x) for x in data[:end].splitlines() if x], pos + len(data[:end].encode())


def load_findings(pid):
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: '):
                d = json.loads(line[len('finding: '):])
                if d['property'] == pid:
                    out.append(d)
    return out


def match_finding(v, findings):
    for d in findings:
        if d['class'] == v['class'] and all(t in v['detail'] for t in d['contains']):
            return d
    return None


def run_one(rep, scratch, name, timeout=330, hashseed='0'):
    cf, of = os.path.join(scratch, name + '.case'), os.path.join(scratch, name + '.out')
    with open(cf, 'w') as f:
        json.dump(rep, f)
    if os.path.exists(of):
        os.unlink(of)
    p = spawn(['one', cf, of], scratch, hashseed)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return {'hung': True}
    if not os.path.exists(of):
        return {'hung': p.returncode == 1, 'crashed': p.returncode}
    with open(of) as f:
        return json.load(f)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Check:
    def __init__(self, pid, tier, seed, budget=None, workers=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.budget = budget or float(os.environ.get('DST_BUDGET', QUICK_BUDGET if tier == 'quick' else THOROUGH_BUDGET))
        self.W = workers or int(os.environ.get('DST_WORKERS', min(8, os.cpu_count() or 8)))
        self.cap = int(os.environ.get('DST_CAP', 10**9))
        self.findings = load_findings(pid)
        self.scratch = tempfile.mkdtemp(prefix=f'dst-{pid}-')
        self.records = {}
        self.found = []  # (i, violation, record)
        self.known = collections.Counter()
        self.harness = []
        self.unreproduced = []
        self.lost = []

    def make(self, rec_case, cls, detail, prelude=()):
        return {'property': self.pid, 'seed': self.seed, 'class': cls, 'detail': detail, 'case': rec_case, 'prelude': list(prelude)}

    # ------------------------------------------------------------------
    def explore(self):
        t0 = time.time()
        deadline = t0 + self.budget
        outs, procs, pos, last, cur = {}, {}, {}, {}, {}
        for w in range(self.W):
            outs[w] = os.path.join(self.scratch, f'w{w}.jsonl')
            pos[w], last[w], cur[w] = 0, time.time(), w
            procs[w] = spawn(['run', self.pid, self.seed, self.tier, w, self.W, deadline, self.cap, outs[w]], self.scratch)
        # the same runs again, in one other process, other order, other hash seed
        det_runs = [self.W * k + (k * 3) % self.W for k in range(3 if self.tier == 'quick' else 40)][::-1]
        spec = os.path.join(self.scratch, 'det.spec')
        with open(spec, 'w') as f:
            json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'runs': det_runs, 'deadline': deadline}, f)
        det = spawn(['list', spec, os.path.join(self.scratch, 'det.jsonl')], self.scratch, hashseed='4711')
        live = set(procs)
        stop_at = None
        while live:
            time.sleep(0.1)
            now = time.time()
            for w in list(live):
                lines, pos[w] = read_lines(outs[w], pos[w])
                for r in lines:
                    last[w] = now
                    if 'start' in r:
                        cur[w] = r['start']
                    elif 'i' in r:
                        self.take(r)
                rc = procs[w].poll()
                if rc is None:
                    if now - last[w] > 200:
                        procs[w].kill()
                        procs[w].wait()
                        rc = -9
                    else:
                        continue
                lines, pos[w] = read_lines(outs[w], pos[w])
                for r in lines:
                    if 'start' in r:
                        cur[w] = r['start']
                    elif 'i' in r:
                        self.take(r)
                if rc == 0:
                    live.discard(w)
                    continue
                nxt = cur[w] + self.W
                if rc != 77:
                    self.lost.append((cur[w], rc))
                    log(f'worker {w} ended with {rc} in run {cur[w]}')
                elif cur[w] not in self.records:
                    nxt = cur[w]
                if time.time() < deadline - 12 and len(self.lost) < 20:
                    last[w] = time.time()
                    procs[w] = spawn(['run', self.pid, self.seed, self.tier, w, self.W, deadline, self.cap, outs[w]], self.scratch, extra={'DST_START': str(nxt)})
                else:
                    live.discard(w)
            if self.found and stop_at is None:
                stop_at = time.time() + 2.0
            if stop_at is not None and time.time() > stop_at:
                break
            if time.time() > deadline + 420:
                break
        for p in procs.values():
            if p.poll() is None:
                p.kill()
                p.wait()
        if det.poll() is None:
            try:
                det.wait(0.1 if self.found else 60)
            except subprocess.TimeoutExpired:
                det.kill()
                det.wait()
        lines, _ = read_lines(os.path.join(self.scratch, 'det.jsonl'), 0)
        both = [r for r in lines if r['i'] in self.records]
        self.det_same = sum(self.records[r['i']]['digest'] == r['digest'] for r in both)
        self.det_total = len(both)
        self.det_diff = [r['i'] for r in both if self.records[r['i']]['digest'] != r['digest']]
        if self.det_diff:
            log('nondeterministic runs:', self.det_diff)
        self.explore_s = time.time() - t0

    def take(self, r):
        if r['i'] in self.records:
            return
        self.records[r['i']] = r
        if r.get('harness_error'):
            self.harness.append((r['i'], r['harness_error']))
            log(f'harness error in run {r["i"]}: {r["harness_error"]}')
        for v in r['violations']:
            d = match_finding(v, self.findings)
            if d:
                self.known[d['id']] += 1
            else:
                self.found.append((r['i'], v, r))

    # ------------------------------------------------------------------
    def same(self, rec, cls):
        if cls in ('hang', 'crash'):
            return bool(rec.get('hung') or rec.get('crashed') is not None)
        return any(v['class'] == cls and not match_finding(v, self.findings) for v in rec.get('violations', []))

    def confirm(self):
        """Minimise and replay in fresh processes; the path of the replay file or None."""
        tried = set()
        for i, v, r in sorted(self.found, key=lambda x: x[0])[:6]:
            if v['class'] in tried:
                continue
            rep = self.make(r['case'], v['class'], v['detail'])
            t = time.time()
            if not self.same(run_one(rep, self.scratch, 'confirm'), v['class']):
                # it may need what came before it in its process
                w = i % self.W
                for keep in (24, 200):
                    before = self.cases_before(i, keep)
                    rep = self.make(r['case'], v['class'], v['detail'], before)
                    if before and self.same(run_one(rep, self.scratch, 'confirm2'), v['class']):
                        break
                    if len(before) < keep:
                        rep = None
                        break
                    rep = None
                if rep is None:
                    self.unreproduced.append((i, v))
                    log(f'run {i}: {v["class"]} did not reproduce in a fresh process (worker {w})')
                    continue
                rep = self.fewer(rep)
            tried.add(v['class'])
            rep = self.minimise(rep)
            log(f'run {i}: {v["class"]}: {v["detail"]}')
            log(f'minimised in {time.time() - t:.1f} s')
            return self.write_replay(rep, i)
        return None

    def fewer(self, rep):
        """Drop the preceding runs that are not needed."""
        end = time.time() + 60
        pre = rep['prelude']
        w = max(1, len(pre) // 2)
        while time.time() < end:
            k = 0
            while k < len(pre) and time.time() < end:
                less = dict(rep, prelude=pre[:k] + pre[k + w:])
                if self.same(run_one(less, self.scratch, 'fewer', 60), rep['class']):
                    pre, rep = less['prelude'], less
                else:
                    k += w
            if w == 1:
                break
            w = max(1, w // 2)
        return rep

    def cases_before(self, i, keep):
        sys.path.insert(0, ROOT)
        cf = os.path.join(self.scratch, 'before.json')
        code = (
            'import sys,json\nfrom dst import worker as w\n'
            f'scn=w.scenario({self.pid!r})\n'
            f'json.dump([w.make_case(scn,{self.pid!r},{self.seed},k,{self.tier!r}) for k in range({i % self.W},{i},{self.W})][-{keep}:],open({cf!r},"w"))\n'
        )
        e = dict(os.environ, PYTHONPATH=ROOT, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        subprocess.run([PY, '-c', code], cwd=ROOT, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        if not os.path.exists(cf):
            return []
        with open(cf) as f:
            return json.load(f)

    def minimise(self, rep):
        budget = 35 if self.tier == 'quick' else 120
        cf, of = os.path.join(self.scratch, 'shrink.case'), os.path.join(self.scratch, 'shrink.out')
        with open(cf, 'w') as f:
            json.dump(rep, f)
        if rep['prelude']:
            return rep
        p = spawn(['shrink', cf, of, budget], self.scratch)
        try:
            p.wait(budget * 3 + 150)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        try:
            with open(of) as f:
                got = json.load(f)
        except Exception:
            return rep
        small = dict(rep, case=got['case'], minimised={'tried': got['tried'], 'kept': got['kept']})
        rec = run_one(small, self.scratch, 'confirm3')
        if self.same(rec, rep['class']):
            small['detail'] = next(v['detail'] for v in rec['violations'] if v['class'] == rep['class'])
            small['trace'] = rec.get('tail')
            small['digest'] = rec.get('digest')
            return small
        return rep

    def write_replay(self, rep, i):
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        rep = dict(rep, run=i, tier=self.tier)
        h = hashlib.md5(json.dumps(rep['case'], sort_keys=True).encode()).hexdigest()[:8]
        path = os.path.join(d, f'{self.pid}-{h}.json')
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        return path

    def losses(self):
        """Runs that took their process down: a verdict only if a fresh process repeats it."""
        for i, rc in self.lost[:4]:
            cases = self.case_of(i)
            if cases is None:
                continue
            rec = run_one(self.make(cases, 'hang', ''), self.scratch, 'lost')
            if rec.get('hung'):
                rep = self.make(cases, 'hang', f'run {i} makes no progress (fresh process, 300 s)')
                return self.write_replay(rep, i)
            if rec.get('violations'):
                rec['i'], rec['case'] = i, cases
                self.take(rec)
        return None

    def case_of(self, i):
        cf = os.path.join(self.scratch, 'caseof.json')
        code = (
            'import sys,json\nfrom dst import worker as w\n'
            f'scn=w.scenario({self.pid!r})\njson.dump(w.make_case(scn,{self.pid!r},{self.seed},{i},{self.tier!r}),open({cf!r},"w"))\n'
        )
        e = dict(os.environ, PYTHONPATH=ROOT, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        subprocess.run([PY, '-c', code], cwd=ROOT, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        if not os.path.exists(cf):
            return None
        with open(cf) as f:
            return json.load(f)

    # ------------------------------------------------------------------
    def evidence(self, wall, violations):
        stats = collections.Counter()
        sigs = set()
        steps = 0
        run_wall = 0.0
        for r in self.records.values():
            stats.update(r['stats'])
            sigs.update(r['sigs'])
            steps += r['steps']
            run_wall += r['wall']
        info = self.info()
        samples = [json.dumps(self.records[i]['case'])[:1500] for i in sorted(self.records) if 'case' in self.records[i]][:3]
        cov = {
            'evaluations': len(self.records),
            'distinct_nontrivial': len(sigs),
            'rule': info.get('rule', ''),
            'samples': samples,
            'simulated_runs_per_hour': round(len(self.records) / max(self.explore_s, 1e-9) * 3600),
            'seeds': len(self.records),
            'worker_processes': self.W,
            'simulated_time': f'{steps} logical steps (folx has no clock; simulated time is counted in recorded events)',
            'logical_steps': steps,
            'faults_injected': {k[len('fault:'):]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
            'probes': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault:')},
            'distinct_states_measure': info.get('measure', ''),
            'real_components': info.get('real', []),
            'stubbed_components': info.get('stub', []),
            'determinism_sample': {'repeated': self.det_total, 'identical': self.det_same, 'different': self.det_diff},
            'known_finding_hits': dict(self.known),
            'harness_errors': len(self.harness),
            'runs_lost': len(self.lost),
            'unreproduced_anomalies': [f'{i}: {v["class"]}' for i, v in self.unreproduced],
        }
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
            'assumptions': info.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': violations,
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        path = os.path.join(ROOT, 'evidence', f'{self.pid}.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)

    def info(self):
        try:
            with open(os.path.join(ROOT, 'dst', 'info.json')) as f:
                return json.load(f)[self.pid]
        except Exception:
            return {}

    def probes(self):
        """Known findings are re-demonstrated on every run."""
        path = None
        for d in self.findings:
            if 'case' not in d:
                continue
            rec = run_one(self.make(d['case'], d['class'], ''), self.scratch, 'probe')
            if any(match_finding(v, [d]) for v in rec.get('violations', [])):
                print(f'KNOWN-FINDING: property={self.pid} {d["what"]}', flush=True)
        return path

    def main(self):
        t0 = time.time()
        path = None
        try:
            self.explore()
            self.probes()
            path = self.confirm() if self.found else None
            if path is None and self.lost:
                path = self.losses()
                if path is None and self.found:
                    path = self.confirm()
            if not self.records and path is None:
                # nothing ran at all: the code under test cannot even be imported or run
                log(open(os.path.join(self.scratch, 'stderr.log'), errors='replace').read()[-3000:])
                raise SystemExit(2)
            self.evidence(time.time() - t0, 1 if path else 0)
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
        n = len(self.records)
        log(f'{self.pid}: {n} runs, {time.time() - t0:.1f} s, determinism {self.det_same}/{self.det_total}, harness errors {len(self.harness)}, lost {len(self.lost)}, unreproduced {len(self.unreproduced)}')
        if path:
            print(f'VIOLATION property={self.pid} replay={path}', flush=True)
            return 1
        print(f'property={self.pid} held on {n} simulated runs', flush=True)
        return 0


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a = ap.parse_args()
    sys.exit(Check(a.property.upper(), a.tier, a.seed).main())
