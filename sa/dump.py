import sys, traceback
sys.path.insert(0, '/verif')
from sa.program import Program
from sa.classmodel import ClassModel
from sa import terms as tm
from sa.terms import show

def dump(prog, qual, methods=None, events=True):
    print('=' * 30, qual)
    M = ClassModel(prog, qual)
    print('changed:', sorted(M.changed))
    print('kinds:', {p: sorted(d['leafs']) for p, d in M.kinds.items() if ('f', p) in M.changed})
    for oid, path in M._reach(M.init_st)[1].items():
        c = M.init_st.heap[oid]
        if c.kind == 'inst':
            for f, v in c.fields.items():
                print('  init %s.%s = %s' % (path, f, show(M.init_interp.fz(M.init_st, v))[:300]))
    for m in M.methods():
        if methods and m not in methods: continue
        if not methods and m in ('fit', 'fit_score', 'score', 'fit_transform', 'transform', 'fit_score_partial','fit_transform_partial') and not any(b.name == m for b in M.cls.node.body if hasattr(b, 'name')): continue
        f = prog.find_method(M.cls, m)
        if f.abstract: continue
        s = M.run(m)
        print(' --', m, '-> ', show(s.interp.fz(s.st, s.ret))[:1500])
        if s.st.pc is not tm.TRUE: print('   pc', show(s.st.pc)[:200])
        out, seen = M._reach(s.pre)
        for oid, path in seen.items():
            a, b = s.pre.heap[oid], s.st.heap[oid]
            if a is b: continue
            if a.kind == 'inst':
                for ff, v in b.fields.items():
                    if v is not a.fields.get(ff): print('    %s.%s := %s' % (path, ff, show(s.interp.fz(s.st, v))[:1500]))
            elif a.content is not b.content:
                print('    [%s] := %s' % (path, show(s.interp.fz(s.st, b.content))[:1500]))
        if events:
            for e in s.events:
                if e.kind not in ('ext', 'setfield', 'mutate', 'import', 'setitem', 'dictread', 'eachwrite'):
                    d = {k: (show(v)[:200] if isinstance(v, tm.T) else [show(x)[:100] if isinstance(x, tm.T) else x for x in v] if isinstance(v, tuple) else v) for k, v in e.data.items()}
                    print('      ev', e.kind, d, 'if', show(e.guard)[:150], e.loops and [(show(a), show(b)[:40]) for a, b in e.loops])
        if s.interp.notes: print('    notes', s.interp.notes)

if __name__ == '__main__':
    prog = Program({'pysad': '/repo/pysad'})
    q = sys.argv[1:]
    import time
    for x in q:
        cs = [c for c in prog.classes if c == x or c.split('.')[-1] == x]
        for c in cs[:1]:
            t = time.time()
            try:
                dump(prog, c)
            except Exception:
                traceback.print_exc()
            print('   [%.1fs]' % (time.time() - t))
