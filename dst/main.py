"""Command line of the checks."""

import argparse
import gc
import json
import os
import sys
import time
import traceback

from . import seams

_t0 = time.monotonic()


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument(
        '--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)
    )
    ap.add_argument('--n', type=int)
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--index', type=int)
    ap.add_argument('--digests', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    try:
        return _main(a)
    except SystemExit:
        raise
    except BaseException:  # noqa: B036
        traceback.print_exc(file=sys.__stdout__)
        print('CHECK-ERROR', flush=True)
        return 2


def _main(a):
    now = time.monotonic  # real clock
    try:
        seams.install()
    except Exception:
        # the package cannot even be imported: not something a property of
        # its behaviour can be decided on
        raise
    from . import engine, props  # noqa: F401
    from .base import PROPS

    prop = PROPS[a.prop]
    gc.collect()
    gc.freeze()
    if a.replay:
        return do_replay(prop, a.replay)
    if a.index is not None:
        sc = engine.make_scenario(prop, a.seed, a.index)
        o = engine.exec_seq(prop, [], sc)
        print(json.dumps(sc, indent=1))
        print(o)
        return 0
    thorough = a.tier == 'thorough'
    n = a.n or (prop.thorough if thorough else prop.quick)
    workers = a.workers or min(8, len(os.sched_getaffinity(0)))
    known = engine.load_known()
    t0 = now()
    agg, viol = engine.search(
        prop, a.seed, n, workers, prop.chunk, known=known
    )
    if a.digests:
        import hashlib

        print(
            prop.id,
            agg['n'],
            hashlib.sha1(
                repr(sorted(agg['digest'].items())).encode()
            ).hexdigest(),
        )
    probes = []
    if viol is None:
        probes = engine.known_probes(prop)
    wall = now() - t0
    lines = []
    nviol = 0
    path = None
    if viol is not None:
        nviol = 1
        path, w = engine.report(prop, a.seed, viol, not thorough)
        lines.append(
            f'violated: {w["kind"]} run={w.get("run")} eval={w.get("eval")} '
            f'{w["detail"][:400]}'
        )
        lines.append(f'VIOLATION property={prop.id} replay={path}')
    else:
        for text in probes:
            lines.append(f'KNOWN-FINDING: property={prop.id} {text}')
    if not a.no_evidence:
        engine.evidence(
            prop,
            'thorough' if thorough else 'quick',
            a.seed,
            agg,
            wall,
            now() - t0,
            nviol,
            workers,
            probes,
        )
    print(
        f'{prop.id}: {agg["n"]} scenarios, {agg["runs"]} runs, '
        f'{agg["evals"]} evaluations, {agg["sim_s"]:.3g} s simulated, '
        f'{wall:.1f} s'
    )
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return 1 if nviol else 0


def do_replay(prop, path):
    from . import engine

    d, o, hit = engine.replay(prop, path)
    same = o['digest'] == d['digest']
    if hit:
        w = hit[0]
        print(
            f'violated: {w["kind"]} run={w.get("run")} eval={w.get("eval")} '
            f'{w["detail"][:1000]}'
        )
        print(
            f'execution {"identical to" if same else "differs from"} the '
            'recorded one'
        )
        print(f'VIOLATION property={prop.id} replay={path}')
        return 1
    print(f'{prop.id}: no violation on replay')
    return 0
