"""Properties about what a run tells about itself."""

import re

import numpy as np

from . import gen
from .base import Prop, register
from .engine import Out
from .model import EPS
from .oracles import opt_of, options_plain, viol
from .props_hist import LINE, text
from .sim import hung, run_sig, simulate

NUM = re.compile(r'^[+-]?(\d+(?:\.(\d*))?)(?:[eE]([+-]?\d+))?$')
FLOAT = r'([+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|inf|nan))'
STOPMSG = (
    (1, ('function difference',)),
    (2, ('norm of step',)),
    (3, ('gradient norm',)),
    (-1, ('number of iterations',)),
    (-2, ('runtime',)),
    (-5, ('radius',)),
)


def tells(s, v, err=0.0):
    """does the printed number s stand for the value v (known up to err)?"""
    s = s.strip()
    v = float(v)
    m = NUM.match(s)
    if not m:
        try:
            p = float(s)
        except ValueError:
            return False
        if np.isinf(p) and abs(v) > 1e150 and (p > 0) == (v > 0):
            return True  # norms overflow before their value does
        return p == v or (np.isnan(p) and np.isnan(v)) or not np.isfinite(err)
    if np.isnan(v):
        return False
    dec = len(m.group(2) or '')
    ex = int(m.group(3) or 0)
    p = float(s)
    if not np.isfinite(v):
        return False
    if np.isinf(p):  # rounded up beyond the largest number
        return abs(v) > 1e306 and (p > 0) == (v > 0)
    with np.errstate(all='ignore'):
        unit = 10.0 ** (ex - dec)
        return bool(abs(p - v) <= 0.5000001 * unit + err)


def rows(r):
    out = []
    for m in LINE.finditer(text(r)):
        cols = m.group(2).split('|')
        if len(cols) == 9 and cols[0].strip().isdigit():
            out.append((m.group(0), [c.strip() for c in cols]))
    return out


def judge(c, r, out):
    """(kind, eval, detail) of the first line that is not true"""
    ev = r.evals
    for line, col in rows(r):
        k = int(col[0])
        if k >= len(ev):
            return 'row-of-nothing', len(ev) - 1, line
        e = ev[k]
        post = (
            ev[k + 1].snap
            if k + 1 < len(ev)
            else (r.final if r.exc is None else None)
        )
        if k == 0:
            if not tells(col[1], e.f):
                return 'wrong-start', 0, f'{line}: value {e.f!r}'
            gn = np.linalg.norm(e.g)
            if not tells(col[5], gn, 1e-10 * gn):
                return 'wrong-start', 0, f'{line}: gradient norm {gn!r}'
            d = opt_of(options_plain(r.options), 'delta_init')
            if not tells(col[4], d):
                return 'wrong-start', 0, f'{line}: radius {d!r}'
            if col[8] != str(int(np.isfinite(e.f))):
                return 'wrong-start', 0, f'{line}: value {e.f!r}'
            out.probes['start_lines_checked'] += 1
            continue
        pre = e.snap
        out.probes['iteration_lines_checked'] += 1
        with np.errstate(all='ignore'):
            gn = np.linalg.norm(pre['grad'])
            step = np.linalg.norm(e.x - pre['x'])
            serr = 1e-9 * step + 8 * EPS * (
                np.linalg.norm(e.x) + np.linalg.norm(pre['x'])
            )
        if not tells(col[4], pre['delta_iter'], 1e-12 * pre['delta_iter']):
            return 'wrong-radius', k, f'{line}: radius {pre["delta_iter"]!r}'
        if not tells(col[5], gn, 1e-10 * gn):
            return 'wrong-gradient-norm', k, f'{line}: gradient norm {gn!r}'
        if not tells(col[6], step, serr):
            return 'wrong-step-norm', k, f'{line}: step norm {step!r}'
        if not col[7]:
            return 'no-step-type', k, line
        fin = bool(np.isfinite(e.f))
        if fin:
            d = e.f - pre['fval']
            if np.isfinite(d) and not tells(
                col[2], d, 4 * EPS * (abs(e.f) + abs(pre['fval']))
                if c.spec.get('resfun') else 0.0
            ):
                return 'wrong-difference', k, f'{line}: difference {d!r}'
        if post is None:
            continue
        if not tells(col[3], post['tr_ratio'], 1e-12 * abs(post['tr_ratio'])):
            return 'wrong-ratio', k, f'{line}: ratio {post["tr_ratio"]!r}'
        if post['fval'] == e.f != pre['fval']:
            acc = True
        elif post['fval'] == pre['fval'] != e.f:
            acc = False
        else:
            acc = post['tr_ratio'] > 0
        if col[8] != str(int(bool(acc))):
            return 'wrong-acceptance', k, f'{line}: accepted {bool(acc)}'
        if not tells(col[1], post['fval']):
            return 'wrong-value', k, f'{line}: value {post["fval"]!r}'
    return stop(c, r, out) or failure(r, out)


def stop(c, r, out):
    if r.exc is not None:
        return None
    flag = int(r.final['exitflag'])
    k = len(r.evals) - 1
    o = options_plain(r.options)
    for m in LINE.finditer(text(r)):
        s = m.group(2)
        if 'topping' not in s:
            continue
        for f, keys in STOPMSG:
            if any(x in s for x in keys):
                out.probes['stop_messages_checked'] += 1
                if f != flag:
                    return 'wrong-reason', k, f'{s.strip()}: flag {flag}'
                break
        else:
            continue
        if k < 1:
            continue
        e = r.evals[k]
        pre, post = e.snap, r.final
        if flag == 1:
            d = abs(e.f - pre['fval'])
            err = 4 * EPS * (abs(e.f) + abs(pre['fval']))
            m = re.search('difference ' + FLOAT + '.*atol=' + FLOAT
                          + '.*rtol=' + FLOAT, s)
            want = (d, err), (opt_of(o, 'fatol'), 0), (opt_of(o, 'frtol'), 0)
        elif flag == 3:
            g = e.g if post['tr_ratio'] > 0 else pre['grad']
            gn = np.linalg.norm(g)
            m = re.search('absolute.*: ' + FLOAT + ' < ' + FLOAT, s)
            want = (gn, 1e-10 * gn), (opt_of(o, 'gatol'), 0)
            if not m:
                m = re.search(
                    'relative.*: ' + FLOAT + ' < ' + FLOAT + r' \* ', s
                )
                want = (gn, 1e-10 * gn), (opt_of(o, 'grtol'), 0)
        elif flag == -5:
            m = re.search('radius ' + FLOAT, s)
            want = ((post['delta'], 1e-12 * post['delta']),)
        elif flag == -1:
            m = re.search('iterations ' + FLOAT, s)
            want = ((opt_of(o, 'maxiter'), 0),)
        elif flag == -2:
            m = re.search('runtime ' + FLOAT, s)
            want = ((opt_of(o, 'maxtime'), 1e-9 * opt_of(o, 'maxtime')),)
        else:
            continue
        if not m:
            out.probes['stop_messages_not_understood'] += 1
            continue
        for p, (v, err) in zip(m.groups(), want):
            if not tells(p, v, err):
                return 'wrong-reason-value', k, f'{s.strip()}: {p} for {v!r}'
    return None


def failure(r, out):
    """the error names the iteration and the entries"""
    s = str(r.exc) if isinstance(r.exc, RuntimeError) else ''
    if 'non-finite' not in s or r.raised is r.exc or not r.evals:
        return None
    k = len(r.evals) - 1
    e = r.evals[k]
    if not e.ok:
        return None
    out.probes['error_messages_checked'] += 1
    if ('initial point' in s) != (k == 0):
        return 'wrong-error', k, s
    m = re.search(r'at iteration (\d+)', s)
    if m and int(m.group(1)) != k:
        return 'wrong-error', k, f'{s} (iteration {k})'
    m = re.search(r'gradient entries.* indices \(array\(\[([\d, ]*)\]', s,
                  re.S)
    if m:
        ix = [int(i) for i in m.group(1).split(',') if i.strip()]
        bad = np.where(~np.isfinite(e.g))[0].tolist()
        if ix != bad:
            return 'wrong-error', k, f'{s} (entries {bad})'
    return None


@register
class C26(Prop):
    id = 'C26'
    quick = 3000
    thorough = 60000
    rule = (
        'one optimizer at INFO or DEBUG level with 1-3 runs under a fault '
        'plan; every number in every line of the progress table, the reason '
        'for stopping with its values, and what errors say about place and '
        'entries, compared with what the run did'
    )
    nt_rule = 'the lines of at least three iterations of a run with a failed or rejected evaluation were checked'

    def gen(self, r, index):
        c = gen.client(
            r,
            maxiter=30,
            nruns=int(gen.pick(r, [1, 2, 3], p=[0.6, 0.25, 0.15])),
            fault_kw={'p_abort': 0.25},
        )
        c['verbose'] = int(gen.pick(r, [20, 10, 15]))
        if r.random() < 0.4:
            gen.tolerances(r, c)
        if r.random() < 0.1:
            c['options']['delta_init'] = float(10.0 ** r.uniform(-14, 6))
        if r.random() < 0.5:
            c['options']['maxiter'] = int(c['options']['maxiter'] * 2)
            if c['options'].get('stepback_strategy') == 'refine':
                c['options']['maxiter'] = 8
        gen.decorate(r, c)
        if c['verbose'] > 20:
            c['verbose'] = 20
        return {'clients': [c]}

    def run(self, sc, tmp):
        out = Out()
        w = simulate(sc, tmp)
        out.add_world(w, w.clients)
        c = w.clients[0]
        for ri, r in enumerate(c.runs):
            out.sig.append(run_sig(c, r))
            if hung(r):
                break
            d = judge(c, r, out)
            if d:
                out.viol.append(viol('C26', d[0], c, ri, d[1], d[2]))
                return out
            if len(rows(r)) >= 4 and any(
                e.snap['fval'] == p.snap['fval']
                for p, e in zip(r.evals[1:], r.evals[2:])
            ):
                out.nontrivial = True
        return out
