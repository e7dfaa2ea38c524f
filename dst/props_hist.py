"""Properties of recorded histories and log output."""

import copy
import os
import re

import numpy as np

from . import gen
from .base import Prop, register
from .engine import Out
from .histmodel import check_group, partial_ok, read_file, same_group
from .oracles import viol
from .props_pair import compare_clients, disk_fault, plan, solo
from .sim import hung, run_sig, simulate

ENDED = 0  # DID_NOT_RUN


def over(r):
    """the optimization itself had ended (perhaps not the recording)"""
    return int(r.final['exitflag']) != ENDED


@register
class C12(Prop):
    id = 'C12'
    quick = 1500
    thorough = 30000
    needs_tmp = True
    rule = (
        '1-4 optimizers, sequential or in threads under a seeded scheduler, '
        'recording to one file or two; given, repeated and generated '
        'identifiers, failing and interrupted runs, recording switched on and '
        'off between runs; the file is read back and every entry of every '
        'group compared with the observed run'
    )
    nt_rule = 'at least two groups with two iterations each were checked'

    def gen(self, r, index):
        m = int(gen.pick(r, [1, 2, 3, 4], p=[0.35, 0.35, 0.2, 0.1]))
        clients = []
        ids = ['a', 'b', 'run 1', 'x' * 40]
        for i in range(m):
            c = gen.client(
                r,
                maxiter=16,
                nruns=int(r.integers(1, 4)),
                fault_kw={'p_abort': 0.2},
                p_none=0.3,
            )
            c['history'] = 'h.h5' if r.random() < 0.9 else 'h2.h5'
            if r.random() < 0.3:
                c['hist_type'] = 'Path'
            for rs in c['runs']:
                k = r.random()
                if k < 0.35:
                    rs['start_id'] = gen.pick(r, ids)
                elif k < 0.4:
                    rs['start_id'] = ''
                if r.random() < 0.12:
                    rs['interrupt_at'] = int(10.0 ** r.uniform(0, 3.8))
                if r.random() < 0.1:
                    rs['options'] = {
                        'history_file': gen.pick(
                            r, [None, 'h.h5', 'h2.h5']
                        )
                    }
                if r.random() < 0.12:
                    sub = gen.client(
                        r, maxiter=5, nruns=1, n=2, fault_kw={'p_abort': 0.2}
                    )
                    if 'interrupt_at' not in rs:
                        sub['history'] = 'h.h5'
                        rs['faults'].append(
                            {
                                'k': int(r.integers(0, 4)),
                                'kind': 'nested',
                                'client': sub,
                            }
                        )
            clients.append(c)
        sc = {'clients': clients}
        if m > 1 and r.random() < 0.6:
            sc['plan'] = plan(r, clients)
            if r.random() < 0.1:
                sc['instr'] = True
        return sc

    def run(self, sc, tmp):
        out = Out()
        w = simulate(sc, tmp)
        out.add_world(w, w.clients)
        if w.sched is not None and w.sched.deadlock:
            out.viol.append(
                viol('C12', 'deadlock', w.clients[0], -1, -1, 'threads stuck')
            )
            return out
        runs = []  # (client, run index, run)
        for c in w.clients:
            runs += [(c, i, r) for i, r in enumerate(c.runs)]
            for _f, sub in c.subs:
                runs += [(sub, i, r) for i, r in enumerate(sub.runs)]
        for c, i, r in runs:
            out.sig.append(run_sig(c, r))
        big = self.judge(out, runs, tmp)
        out.nontrivial = big >= 2
        return out

    def judge(self, out, runs, tmp):
        files = {}
        for c, i, r in runs:
            p = r.options.get('history_file')
            if p:
                files.setdefault(os.path.basename(str(p)), []).append(
                    (c, i, r)
                )
        for name in os.listdir(tmp):
            files.setdefault(name, [])
        big = 0
        # identifiers which were not given are distinct
        seen = {}
        for c, i, r in runs:
            if r.spec.get('start_id') or not r.start_id or not r.evals:
                continue
            gid = str(r.start_id)
            if gid in seen:
                out.viol.append(
                    viol(
                        'C12',
                        'generated-identifier-repeats',
                        c,
                        i,
                        -1,
                        f'{gid!r} was generated for two runs',
                    )
                )
            seen[gid] = r
        for name, rs in sorted(files.items()):
            path = os.path.join(tmp, name)
            done = [t for t in rs if t[2].exc is None]
            if not os.path.exists(path):
                if done:
                    c, i, r = done[0]
                    out.viol.append(
                        viol('C12', 'no-file', c, i, -1, name)
                    )
                continue
            try:
                groups = read_file(path)
            except Exception as e:
                c, i, r = (rs or runs)[0]
                out.viol.append(
                    viol('C12', 'file-unreadable', c, i, -1, repr(e))
                )
                continue
            out.probes['groups_read'] += len(groups)
            used = {}
            for c, i, r in done:
                if hung(r):
                    continue
                gid = str(r.spec.get('start_id') or r.start_id)
                if gid not in groups:
                    out.viol.append(
                        viol(
                            'C12',
                            'group-missing',
                            c,
                            i,
                            -1,
                            f'{gid!r} not in {sorted(groups)}',
                        )
                    )
                    continue
                if gid in used:
                    out.viol.append(
                        viol(
                            'C12',
                            'identifier-reused',
                            c,
                            i,
                            -1,
                            f'{gid!r} stands for two completed runs',
                        )
                    )
                    continue
                used[gid] = r
                d = check_group(c, r, groups[gid], out.probes)
                if d:
                    out.viol.append(
                        viol('C12', 'wrong-entry', c, i, -1, f'{gid!r}: {d}')
                    )
                if len(r.evals) > 2:
                    big += 1
            # a run that was cut off while it recorded may have left a part
            for gid in sorted(set(groups) - set(used)):
                ok = any(
                    r.exc is not None
                    and over(r)
                    and str(r.spec.get('start_id') or r.start_id) == gid
                    and partial_ok(r, groups[gid])
                    for c, i, r in rs
                )
                if not ok:
                    c, i, r = (rs or runs)[0]
                    out.viol.append(
                        viol(
                            'C12',
                            'unexpected-group',
                            c,
                            i,
                            -1,
                            f'{gid!r} with {sorted(groups[gid])}',
                        )
                    )
            # runs that completed must not fail because of the recording
            for c, i, r in rs:
                if (
                    r.exc is not None
                    and over(r)
                    and not isinstance(r.exc, KeyboardInterrupt)
                    and r.raised is not r.exc
                    and int(r.final['exitflag']) not in (-3, -4, -5, -99)
                    and len(r.evals)
                    and r.evals[-1].ok
                ):
                    gid = str(r.spec.get('start_id') or r.start_id)
                    # the name may be taken, also by a part left behind
                    taken = gid in used or any(
                        q is not r
                        and isinstance(q.exc, KeyboardInterrupt)
                        and over(q)
                        and str(q.spec.get('start_id') or q.start_id) == gid
                        for _, _, q in rs
                    )
                    if not taken and int(
                        r.final['exitflag']
                    ) in (-1, -2, 1, 2, 3):
                        out.viol.append(
                            viol(
                                'C12',
                                'recording-failed',
                                c,
                                i,
                                -1,
                                repr(r.exc),
                            )
                        )
        return big


class Epochs(Prop):
    """each client is a process of its own, on the same disk"""

    needs_tmp = True


@register
class C13(Epochs):
    id = 'C13'
    quick = 1100
    thorough = 24000
    rule = (
        'a sequence of 2-5 processes (worlds) on one simulated disk, each '
        'making 1-3 recorded runs; processes are killed at objective calls or '
        'at disk operations, writes fail, are torn or run out of space, opens '
        'fail, runs are interrupted at arbitrary lines; after every process '
        'the file is read back and compared with what completed runs wrote'
    )
    nt_rule = (
        'a group with two iterations existed before a later fault fired'
    )
    stub = Prop.stub + ['disk under the HDF5 library (per-operation faults)']

    def gen(self, r, index):
        m = int(r.integers(2, 6))
        hist = 'd/h.h5' if r.random() < 0.4 else 'h.h5'
        clients = []
        for i in range(m):
            c = gen.client(
                r,
                maxiter=6,
                nruns=int(r.integers(1, 4)),
                fault_kw={'p_abort': 0.15},
                n=int(gen.pick(r, [1, 2, 3])),
            )
            c['history'] = hist
            c['disk'] = []
            for ri, rs in enumerate(c['runs']):
                if r.random() < 0.12:
                    rs['interrupt_at'] = int(10.0 ** r.uniform(0, 3.5))
                if r.random() < 0.12:
                    rs['faults'].append(
                        {'k': int(r.integers(0, 6)), 'kind': 'kill'}
                    )
                if r.random() < 0.12:
                    rs['faults'].append(
                        {
                            'k': int(r.integers(0, 3)),
                            'kind': 'fsgone',
                            'how': gen.pick(r, ['nodir', 'isdir']),
                        }
                    )
                if r.random() < 0.2:
                    rs['start_id'] = gen.pick(r, ['a', 'b', 'c', 'd'])
            if r.random() < 0.5:
                for _ in range(int(r.integers(1, 3))):
                    c['disk'].append(disk_fault(r, len(c['runs'])))
            clients.append(c)
        return {'clients': clients}

    def run(self, sc, tmp):
        out = Out()
        path = os.path.join(tmp, sc['clients'][0]['history'])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        st = {'kept': {}, 'prev': {}, 'old': False, 'stop': False}

        def load():
            if not os.path.exists(path):
                return None, None
            out.probes['files_read'] += 1
            try:
                return read_file(path), None
            except Exception as e:
                return None, e

        def after(c, r):
            if st['stop']:
                return
            now, err = load()
            v = self.judge(c, r, st, now, err)
            if v:
                out.viol.append(v)
                st['stop'] = True
            st['prev'] = now or {}

        for ei, cs in enumerate(sc['clients']):
            base = {k: v for k, v in sc.items() if k != 'clients'}
            base['seed'] = f'{sc.get("seed")}-{ei}'
            base['clients'] = [cs]

            def hook(w):
                w.after_run = after
                w.clients[0].cid = ei

            had = st['old']
            w = simulate(base, tmp, disk=cs.get('disk', []), hook=hook)
            out.add_world(w, w.clients)
            c = w.clients[0]
            for r in c.runs:
                out.sig.append(run_sig(c, r))
            if had and (w.disk.fired or w.faults):
                out.nontrivial = True
            if st['stop']:
                break
            if load()[1] is not None:
                # the process died while it appended; start over
                os.unlink(path)
                st['kept'], st['prev'], st['old'] = {}, {}, False
                out.probes['restarted_on_empty_disk'] += 1
        return out

    def judge(self, c, r, st, now, err):
        ri = len(c.runs) - 1
        fired = [k for k, _, _ in r.fired]
        crash = any(k in ('crash', 'torn') for k in fired)
        werr = any(k in ('enospc', 'eio', 'short') for k in fired)
        kept = st['kept']
        info = f'disk faults {r.fired}, opened {r.modes}'

        def bad(kind, detail):
            return viol('C13', kind, c, ri, -1, f'{detail}; {info}')

        lost = None
        if now is None and (kept or err is not None):
            lost = f'file unreadable: {err!r}'
        elif kept:
            for gid, g in kept.items():
                if gid not in now:
                    lost = f'group {gid!r} is gone'
                elif not same_group(now[gid], g):
                    lost = f'group {gid!r} changed'
        if lost:
            if crash and kept and any(m in ('w', 'w-', 'x') for m in r.modes):
                return bad('earlier-history-lost', lost)
            if crash:
                # killed while it appended: not promised
                st['kept'] = {}
                return None
            if werr and err is not None and 'w' not in r.modes:
                return bad('damaged-by-write-error-in-append', lost)
            if not kept and werr:
                return None
            return bad('earlier-history-lost', lost)
        gid = gid_of(r)
        if r.exc is None and not r.dead:
            if hung(r):
                return None
            if r.fs_gone:
                # the caller has to learn about it, unless it was recorded in
                # a file that the run made at that path
                try:
                    made = read_file(r.fs_made) if r.fs_made else {}
                except Exception:
                    made = {}
                if gid not in made:
                    return bad(
                        'returned-without-record',
                        f'{gid!r} missing, the path was not there',
                    )
                return None
            if now is None or gid not in now:
                return bad('returned-without-record', f'{gid!r} missing')
            d = check_group(c, r, now[gid])
            if d:
                return bad('incomplete-record', f'{gid!r}: {d}')
            kept[gid] = now[gid]
            if len(r.evals) > 2:
                st['old'] = True
            return None
        if (
            r.exc is not None
            and not r.dead
            and over(r)
            and int(r.final['exitflag']) in (-1, -2, -5, 1, 2, 3)
            and not isinstance(r.exc, KeyboardInterrupt)
            and r.raised is not r.exc
            and not hung(r)
            and not fired
            and not r.fs_gone
            and gid not in st['prev']
        ):
            return bad('recording-failed', repr(r.exc))
        return None

    def known_probe(self, tmp):
        """a write error inside the append of a run to a file with history"""
        path = os.path.join(tmp, 'h.h5')
        cs = {
            'problem': {'fam': 'quad', 'n': 2, 'seed': 1, 'c': [0.1, 0.2]},
            'lb': [-1, -1],
            'ub': [1, 1],
            'options': {'maxiter': 5},
            'hess': {'cls': 'BFGS', 'args': {}},
            'verbose': 40,
            'history': 'h.h5',
        }

        def go(sid, plan):
            c = dict(cs, runs=[{'x0': [0.5, -0.5], 'start_id': sid}])
            return simulate({'clients': [c]}, tmp, disk=plan)

        go('a', [])
        n = go('b', []).disk.total_ops
        with open(path, 'rb') as f:
            before = f.read()
        hit = []
        for op in range(1, n + 1):
            with open(path, 'wb') as f:
                f.write(before)
            go('c', [{'kind': 'enospc', 'open': 0, 'op': op}])
            try:
                g = read_file(path)
                if 'a' not in g or 'b' not in g:
                    hit.append(op)
            except Exception:
                hit.append(op)
        return [
            (
                'a write error (disk full) while a run appends its group to '
                'an existing history file makes the groups of earlier runs '
                f'unreadable ({len(hit)} of {n} write operations)',
                bool(hit),
            )
        ]


def gid_of(r):
    return str(r.spec.get('start_id') or r.start_id)


STAMP = re.compile(r'^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(,\d+)? ', re.M)
LINE = re.compile(r'^fides\((\w+)\)(.*)$', re.M)
ITER = re.compile(r'^\s+(\d+)\s*\|')
LEVEL = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}


def text(r):
    return STAMP.sub('', ''.join(r.log))


@register
class C14(Prop):
    id = 'C14'
    quick = 1600
    thorough = 32000
    chunk = 10
    rule = (
        '1-4 optimizers with different verbosity, sequential, nested or in '
        'threads under a seeded scheduler, with failures; what each run wrote '
        'to the log stream is compared with what it writes alone and checked '
        'line by line against the run'
    )
    nt_rule = 'at least two runs logged three or more lines'

    def gen(self, r, index):
        m = int(gen.pick(r, [1, 2, 3, 4], p=[0.2, 0.4, 0.25, 0.15]))
        clients = []
        for i in range(m):
            c = gen.client(
                r,
                maxiter=14,
                nruns=int(r.integers(1, 4)),
                fault_kw={'p_abort': 0.2},
                n=int(gen.pick(r, [1, 2, 3])),
            )
            c['verbose'] = int(
                gen.pick(
                    r,
                    [10, 20, 30, 40, 50, 25],
                    p=[0.2, 0.4, 0.15, 0.1, 0.05, 0.1],
                )
            )
            for rs in c['runs']:
                if r.random() < 0.1:
                    rs['verbose'] = int(gen.pick(r, [10, 20, 30, 40]))
                if r.random() < 0.08:
                    rs['interrupt_at'] = int(10.0 ** r.uniform(0, 3.5))
                elif r.random() < 0.12:
                    sub = gen.client(
                        r, maxiter=6, nruns=1, n=2, fault_kw={'p_abort': 0.3}
                    )
                    sub['verbose'] = int(gen.pick(r, [10, 20, 30, 40]))
                    rs['faults'].append(
                        {
                            'k': int(r.integers(0, 4)),
                            'kind': 'nested',
                            'client': sub,
                        }
                    )
            clients.append(c)
        sc = {'clients': clients}
        if m > 1 and r.random() < 0.7:
            sc['plan'] = plan(r, clients)
            if r.random() < 0.12:
                sc['instr'] = True
        return sc

    def valid(self, sc):
        return super().valid(sc) and not any(
            rs.get('interrupt_at')
            and any(f['kind'] == 'nested' for f in rs['faults'])
            for c in sc['clients']
            for rs in c['runs']
        )

    def run(self, sc, tmp):
        out = Out()
        w = simulate(sc, tmp)
        out.add_world(w, w.clients)
        if w.sched is not None and w.sched.deadlock:
            out.viol.append(
                viol('C14', 'deadlock', w.clients[0], -1, -1, 'threads stuck')
            )
            return out
        rich = 0
        for c in w.clients:
            cs = copy.deepcopy(c.spec)
            for rs in cs['runs']:
                rs['faults'] = [
                    f for f in rs['faults'] if f['kind'] != 'nested'
                ]
            pairs = [(c, solo(sc, tmp, cs))]
            for f, sub in c.subs:
                pairs.append((sub, solo(sc, tmp, copy.deepcopy(f['client']))))
            for a, w2 in pairs:
                out.add_world(w2, w2.clients)
                b = w2.clients[0]
                for ri, (x, y) in enumerate(zip(a.runs, b.runs)):
                    out.sig.append(run_sig(a, x))
                    if hung(y):
                        break
                    d = self.judge(a, x, y)
                    if d:
                        out.viol.append(viol('C14', d[0], a, ri, -1, d[1]))
                        return out
                    rich += text(x).count('\n') > 3
        stray = [s for t, s in w.stderr_buf if t is None]
        if stray:
            out.viol.append(
                viol(
                    'C14',
                    'stray-output',
                    w.clients[0],
                    -1,
                    -1,
                    repr(stray[:3]),
                )
            )
        out.nontrivial = rich >= 2
        return out

    def judge(self, c, r, ref):
        t, u = text(r), text(ref)
        if t != u:
            a, b = t.split('\n'), u.split('\n')
            i = next(
                (k for k, (p, q) in enumerate(zip(a, b)) if p != q),
                min(len(a), len(b)),
            )
            return (
                'log-differs',
                f'line {i}: {a[i:i+1]} instead of {b[i:i+1]} '
                f'({len(a)} and {len(b)} lines)',
            )
        lev = r.verbose
        iters = []
        stops = 0
        for m in LINE.finditer(t):
            n = LEVEL.get(m.group(1))
            if n is not None and n < lev:
                return 'below-level', m.group(0)
            k = ITER.match(m.group(2))
            if k:
                iters.append(int(k.group(1)))
            if 'topping' in m.group(2):
                stops += 1
        if lev <= 20:
            want = None
            n = len(r.evals) - 1
            if r.exc is None:
                want = [list(range(n + 1))]
                if stops != 1:
                    return 'stop-reason', f'{stops} stop messages'
            elif r.spec.get('interrupt_at') is None:
                want = [list(range(max(n, 0))), list(range(n + 1))]
            if want is not None and iters not in want:
                return (
                    'iteration-lines',
                    f'iterations {iters} logged, run made {n}',
                )
        elif lev <= 30:
            flag = int(r.final['exitflag'])
            if r.exc is None and flag in (-1, -2) and stops != 1:
                return 'stop-reason', f'{stops} stop messages'
        return None
