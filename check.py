#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough] : decide one property on /repo."""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.join(REPO, 'pysad')


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def findings(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                key, _, what = line.split(' ', 2)[2].partition(' :: ')
                out.append((key.strip(), what.strip()))
    return out


def job(a):
    """one unit of work: (kind, name) -> dict(status, detail, obligations, proved, where, keys)"""
    kind, name, seed, runs, limit = a
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from sa import compare
        from sa.program import Program, alias_for
        prog = Program({'pysad': ROOT, 'probe': os.path.join(HERE, 'probe')})
        if kind == 'cmp':
            from sa.registry import C
            sp = Program({'spec': os.path.join(HERE, 'spec')}, alias_for(prog))
            cfg = C[name]
            q, s = compare.find_class(prog, cfg['cls']), compare.find_class(sp, cfg['cls'])
            if q is None:
                r = dict(status='violated', detail='public class %s no longer exists' % cfg['cls'], obligations=1, proved=0, where='pysad', parts=[])
            else:
                x = compare.check_class(prog, q, sp, s, cfg, seed, runs)
                r = dict(status=x.status, detail=x.detail, obligations=x.obligations, proved=x.proved, where=x.where or q, parts=[[p, bool(e)] for p, e in x.parts])
            r['violations'] = [dict(key='%s' % name, where=r['where'], detail=r['detail'])] if r['status'] == 'violated' else []
        else:
            from sa import rules
            r = rules.run(name, prog, HERE, seed, runs)
    except Timeout:
        r = dict(status='undecided', detail='time limit', obligations=1, proved=0, violations=[], parts=[])
    except BaseException as ex:
        r = dict(status='undecided', detail='%s: %s' % (type(ex).__name__, str(ex)[:300]), obligations=1, proved=0, violations=[], parts=[])
        if os.environ.get('TB'):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    r.update(kind=kind, name=name, wall=round(time.time() - t0, 2))
    return r


def expand(jobs):
    """rules that visit every class are split per class"""
    out = []
    from sa import rules
    from sa.program import Program
    prog = None
    for k, n in jobs:
        if k == 'rule' and n in rules.PER_CLASS:
            prog = prog or Program({'pysad': ROOT, 'probe': os.path.join(HERE, 'probe')})
            out += [('rule', '%s:%s' % (n, q)) for q in rules.subjects(n, prog)]
        else:
            out.append((k, n))
    return out


def decide(pid, tier, seed):
    from sa.props import P
    p = next(x for x in P if x['id'] == pid)
    runs = 60 if tier == 'quick' else 600
    limit = 240 if tier == 'quick' else 1500
    try:
        jobs = expand(p['jobs'])
    except Exception as ex:
        return p, [dict(kind='rule', name='program', status='undecided', detail='%s: %s' % (type(ex).__name__, ex), obligations=1, proved=0, violations=[], parts=[], wall=0)]
    args = [(k, n, seed, runs, limit) for k, n in jobs]
    t0 = time.time()
    deadline = t0 + (780 if tier == 'quick' else 7000)
    res = []
    with mp.Pool(min(8, max(1, len(args))), maxtasksperchild=8) as pool:
        hs = [(a, pool.apply_async(job, (a,))) for a in args]
        for a, h in hs:
            try:
                res.append(h.get(timeout=max(1, deadline - time.time())))
            except mp.TimeoutError:
                res.append(dict(kind=a[0], name=a[1], status='undecided', detail='time limit', obligations=1, proved=0, violations=[], parts=[], wall=0))
        pool.terminate()
    return p, res


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    p, res = decide(pid, tier, seed)
    known = findings(pid)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    viol, kn = [], []
    for r in res:
        for v in r['violations']:
            hit = [w for k, w in known if k == v['key']]
            (kn if hit else viol).append(dict(v, note=hit[0] if hit else '', kind=r['kind'], name=r['name']))
    ob = sum(r['obligations'] for r in res)
    ok = sum(r['proved'] for r in res)
    for v in kn:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, v['key'], v['note']))
    und = [r for r in res if r['status'] in ('undecided', 'agrees')]
    out = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(viol),
               coverage=dict(
                   explanation='Static analysis of the current source of %s: %d analyses, %d obligations, %d discharged by normal form or by rule; %d analyses left open. '
                               'Obligations are equalities between the transition function of a class, extracted by abstract interpretation, and that of the reference semantics '
                               '(or instances of a rule over effect summaries); an obligation not discharged is reported only if a separating interpretation of the two functions exists.'
                               % (ROOT, len(res), ob, ok, len(und)),
                   obligations=ob, discharged=ok,
                   rule=p['title'],
                   analyses=[dict(kind=r['kind'], subject=r['name'], status=r['status'], obligations=r['obligations'], discharged=r['proved'], wall_s=r['wall'], detail=r.get('detail', '')[:400]) for r in res],
                   samples=[dict(subject=r['name'], obligations=[x[0] for x in r.get('parts', [])][:40]) for r in res[:4]],
                   known_findings=[v['key'] for v in kn]))
    json.dump(out, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d analyses, %d/%d obligations discharged, %d open, %.1f s' % (pid, len(res), ok, ob, len(und), time.time() - t0))
    for r in und:
        print('  open: %s %s: %s' % (r['kind'], r['name'], r['detail'][:200]))
    if not viol:
        sys.exit(0)
    seen = set()
    for v in viol:
        h = hashlib.sha1(('%s|%s' % (v['name'], v['key'])).encode()).hexdigest()[:10]
        if h in seen:
            continue
        seen.add(h)
        path = os.path.join(ev, '%s-%s.violation.json' % (pid, h))
        json.dump(dict(property=pid, **v), open(path, 'w'), indent=1, default=str)
        print('  at %s: %s' % (v['where'], str(v['detail'])[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.exit(1)


if __name__ == '__main__':
    main()
