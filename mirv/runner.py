import importlib, multiprocessing as mp, os, time
import z3
from . import mirparse, verify

_G = {}


def _work(i):
    try:
        return verify.run_job(_G['V'], _G['jobs'][i], _G['prog'])
    except BaseException as e:      # never lose a result
        j = _G['jobs'][i]
        return dict(job=j.name, obligations=[dict(name=j.name + '/completion', function=j.fn, status='undecided', backend='mirv', seconds=0, detail='engine: %s' % e)], functions=[], inlined=[], notes=[], covers=[], seconds=0, path_solver_seconds=0)


TRUSTED = ['rustc nightly MIR (text dump of the working tree, mir-opt-level=0)', 'mirv: parser, symbolic executor, std models (mirv/stdmodel.py)', 'z3 / cvc5']


def run(prop, mir, tier='quick', case=None, log=print, repo='/repo'):
    try:
        mod = importlib.import_module('mirv.props.' + prop.lower())
    except ModuleNotFoundError:
        return dict(obligations=[], functions=[], assumptions=['no deductive obligations for this property'], trusted=TRUSTED, z3=z3.get_version_string())
    prog = mirparse.Program(mir, repo)
    jobs = mod.jobs(prog)
    _G.update(V=dict(tier=tier, case=case or (lambda k, a: (None, ''))), jobs=jobs, prog=prog)
    res = [None] * len(jobs)
    ctx = mp.get_context('fork')
    if os.environ.get('MIRV_SERIAL'):
        res = [_work(i) for i in range(len(jobs))]
    else:
        # one process per job: a stuck solver call cannot stall the check
        queue = list(range(len(jobs)))
        live = {}
        n = int(os.environ.get('MIRV_JOBS', '8'))
        t_all = time.time()
        while queue or live:
            while queue and len(live) < n:
                i = queue.pop(0)
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=lambda i=i, b=b: (b.send(_work(i)), b.close()), daemon=True)
                p.start()
                b.close()
                live[i] = (p, a, time.time())
            for i, (p, a, t) in list(live.items()):
                lim = jobs[i].budget * (1 if tier == 'quick' else 5) * 1.5 + 30
                if a.poll(0.01):
                    try:
                        res[i] = a.recv()
                    except EOFError:
                        res[i] = None
                    p.join(5)
                    del live[i]
                elif not p.is_alive() and not a.poll(0):
                    del live[i]
                elif time.time() - t > lim:
                    p.kill()
                    del live[i]
            if time.time() - t_all > (330 if tier == 'quick' else 6000):
                queue.clear()
                for p, a, t in live.values():
                    p.kill()
                live.clear()
            time.sleep(0.005)
        for i, r in enumerate(res):
            if r is None:
                j = jobs[i]
                res[i] = dict(job=j.name, obligations=[dict(name=j.name + '/completion', function=j.fn, status='undecided', backend='mirv', seconds=0, detail='no result (killed or out of time)')], functions=[], inlined=[], notes=[], covers=[], seconds=0, path_solver_seconds=0)
    obs, fns, inl, notes, covers = [], set(), set(), set(), []
    for r in res:
        obs += r['obligations']
        fns |= set(r['functions'])
        inl |= set(r['inlined'])
        notes |= set(r['notes'])
        covers += r['covers']
    for o in obs:
        if o['status'] != 'discharged':
            log('  %s: %s %s' % (o['status'], o['name'], (o.get('detail') or '')[:300]))
    return dict(obligations=obs, functions=sorted(fns | inl), assumptions=sorted(notes) + list(getattr(mod, 'ASSUMPTIONS', [])), trusted=TRUSTED, covers=covers, scope=getattr(mod, 'SCOPE', 'part'), proved=getattr(mod, 'PROVED', '-'), bounded=getattr(mod, 'BOUNDED', '-'), z3=z3.get_version_string(), jobs=[dict(job=r['job'], seconds=round(r['seconds'], 2)) for r in res])


if __name__ == '__main__':
    import sys
    r = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '/tmp/t/m.mir', tier=os.environ.get('VERIF_TIER', 'quick'))
    for o in r['obligations']:
        print(o['status'][:4], '%-70s %-16s %6.2f' % (o['name'], o['backend'], o['seconds']))
    print(sum(o['status'] == 'discharged' for o in r['obligations']), '/', len(r['obligations']), [x for x in r.get('jobs') if x['seconds'] > 5])
