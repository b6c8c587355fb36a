"""Writes MANIFEST.json and dst/info.json from the list below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REAL = ['all of folx (imported from /repo)', 'jax tracing', 'XLA compilation', 'XLA CPU execution', 'numpy']
DEV = 'the failing device: an injected exception replaces that execution'
MC = 'exploration is sampling: a clean batch is evidence, not proof'
FP = 'float64; agreement within 1e-7 relative to the scale of the result counts as equal'
TR = 'the fault model of the device is an exception raised instead of an execution; silently wrong device results are outside of the model'

I = {
    'C01': dict(
        rule='random typed programs x weights x argument structure x calling context x (no fault | device execution k fails | callback raises | log handler fails); the result is compared with jvp-of-jvp, then the same wrapped function is called again without faults',
        measure='distinct (set of operations, eager/jit, context, kind of fault) plus distinct (folx call site of the failing execution, fault kind)',
        stub=[DEV], assumptions=[MC, FP, TR, 'inside of a jit, operations whose derivative depends on bitwise equality of recomputed values (max, sort, ...) are only run eagerly']),
    'C02': dict(
        rule='as C01 with thresholds 1..n, fractions and beyond, and failures aimed at mask analysis, eager constants and setops.unique',
        measure='distinct (set of operations, eager/jit, context, kind of fault) plus distinct (folx call site of the failing execution, fault kind)',
        stub=[DEV, 'primitives sim_const / sim_flip whose eager execution fails on demand'], assumptions=[MC, FP, TR]),
    'C03': dict(
        rule='histories of calls on wrapped functions that share code (variants of programs, thresholds, weights, inputs, registrations) with failures and interrupts in between; every successful call is compared bitwise with the same call in a fresh history',
        measure='distinct (kinds of calls and faults in order) prefixes',
        stub=[DEV], assumptions=[MC, TR, 'the fresh history runs in the same process after clearing jax caches or on a fresh wrapped function']),
    'C04': dict(
        rule='2-4 simulated caller threads, each a list of jobs (forward Laplacian, operators, batched vmap, memory estimate); schedules drawn per line or per bytecode instruction; each result is compared bitwise with the job run alone',
        measure='distinct sequences of context switches (from thread, to thread, folx function)',
        stub=[DEV, 'locks created by folx code are simulated locks'], assumptions=[MC, TR, 'threads switch only at folx lines/instructions: jax internals are atomic in the simulation']),
    'C05': dict(
        rule='calls under simulated threads; a snapshot of the host state is compared at every line of folx; other threads log meanwhile; records are counted',
        measure='distinct sequences of context switches plus distinct (set of operations, fault)',
        stub=[DEV, "the host's log handlers"], assumptions=[MC, 'state is looked at between lines of folx code, not inside of jax']),
    'C06': dict(
        rule='concurrent histories of register / deregister / evaluate over a few operations and names; checked for linearizability against a sequential registry',
        measure='distinct sequences of context switches and distinct histories',
        stub=[], assumptions=[MC, 'threads switch at bytecode instructions of folx code']),
    'C07': dict(
        rule='random row functions, batch sizes, limits, axes, trees; a kernel primitive records rows and chunk sizes at execution and fails in a chosen chunk',
        measure='distinct (batch, limit, axes, structure, mode, fault)',
        stub=['sim_kernel, an extra primitive with a host callback that records rows and can fail'], assumptions=[MC, TR]),
    'C08': dict(
        rule='random functions with affine or irregular memory costs x reported memory statistics (any number, missing, partial, raising) x failing estimation; chunk sizes observed at execution',
        measure='distinct (batch, statistics kind, fraction, structure, fault)',
        stub=['the device object that reports memory statistics', 'sim_kernel'], assumptions=[MC, 'the estimate of folx itself (C09) is the cost model']),
    'C09': dict(
        rule='random programs; the estimate is compared with an independent liveness model; failures while tracing, interrupts at any line, interleavings with other estimates and evaluations',
        measure='distinct (set of operations, nesting, fault) and distinct sequences of context switches',
        stub=[], assumptions=[MC, 'inner jitted functions and loop bodies are accounted with their own inputs while they run']),
    'C10': dict(
        rule='random scalar functions; the three operators in random order, modes and contexts with failures and failover; compared with nested automatic differentiation',
        measure='distinct (set of operations, order of operators, contexts, faults)',
        stub=[DEV], assumptions=[MC, FP, TR]),
    'C11': dict(
        rule='eager evaluations of chains and random DAGs; a probe after every value records the live device arrays while the evaluation proceeds; a device execution or the n-th probe fails, calls are repeated and their leftovers counted',
        measure='distinct (shape of program, length, threshold, fault)',
        stub=[DEV, 'sim_probe, an extra identity primitive that looks at the live arrays'], assumptions=[MC, 'arrays are observed by jax.live_arrays()', 'an array may stay alive as long as a later step or the result reads it']),
    'C12': dict(
        rule='a failure or interrupt at a random point (device execution, callback, rule, line of folx) of a call of each entry point; identity of the exception at the caller; log handlers that fail',
        measure='distinct (entry point, place and kind of failure)',
        stub=[DEV, 'log handler'], assumptions=[MC, TR]),
    'C13': dict(
        rule='random programs cut into stages with threshold and mode per stage; triples stored as pickle, npz, host copies or objects; crashes inside and between stages, retries and duplicates; final result compared with jvp-of-jvp of the whole program',
        measure='distinct (operations, cuts, per stage mode, sparse, storage, fault)',
        stub=[DEV, 'crash: everything but the stored bytes is dropped'], assumptions=[MC, FP, TR, 'a jitted stage may refuse sparse triples because masks are documented to be static']),
}

NOTE = {k: 'seeded search over simulated runs; faults and schedules chosen by the simulator; replayable minimised counterexamples' for k in I}


def main():
    pids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    have = [p for p in pids if os.path.exists(os.path.join(ROOT, 'dst', 'scen', p.lower() + '.py'))]
    man = {
        'version': 1,
        'setup_cmd': f'{PY} -m dst.setup',
        'checks': [
            {
                'property': p,
                'quick_cmd': f'{PY} -m dst.check {p} --tier quick',
                'thorough_cmd': f'{PY} -m dst.check {p} --tier thorough',
                'technique': 'deterministic simulation with fault injection: seeded search over programs, histories, schedules and fault sequences; oracle: ' + ORACLE[p],
                'level': 'exploration',
                'level_note': NOTE[p],
            }
            for p in have
        ],
        'not_applicable': [{'property': p, 'reason': 'check under construction'} for p in pids if p not in have],
        'notes': 'No hooks in /repo are needed; the seams are sys.monitoring, jax internals and stubs (DESIGN.md).',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    with open(os.path.join(ROOT, 'dst', 'info.json'), 'w') as f:
        json.dump({p: dict(I[p], real=REAL) for p in pids}, f, indent=1)
        f.write('\n')


ORACLE = {
    'C01': 'nested jvp without folx',
    'C02': 'nested jvp without folx',
    'C03': 'the same call in a fresh history, bitwise',
    'C04': 'the same job run alone, bitwise',
    'C05': 'snapshot of host state at every step; log records counted',
    'C06': 'linearizability against a sequential registry',
    'C07': 'plain loop over rows; rows and chunk sizes at execution',
    'C08': 'plain loop over rows; chunk size model',
    'C09': 'independent liveness model',
    'C10': 'nested automatic differentiation',
    'C11': 'live device arrays against the liveness of the program',
    'C12': 'identity of the injected exception',
    'C13': 'nested jvp of the uncut function',
}

if __name__ == '__main__':
    main()
