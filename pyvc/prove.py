"""python3-vt -m pyvc.prove <harness> <contract> <out.json> [budget_s]   (verifier process)"""
import sys, json, time, traceback, os, importlib


def run_contract(c, budget, timeout_ms=6000):
    from . import core
    houdini = {}
    t = time.time()
    while True:
        try: return run_once(c, budget - (time.time() - t), timeout_ms, houdini)
        except core.RestartContract: pass       # a guessed relation between a local variable and the ghost state was refuted: next guess


def run_once(c, budget, timeout_ms, houdini):
    from . import core, rt, hapi
    opts = dict(c.opts)
    opts['houdini'] = houdini
    if getattr(c, 'effects_of', None) is not None:
        from . import effects
        opts['effects'] = effects.Effects(c.name + '/depends only on inputs, own state and the seeded stream')
    E = core.Engine(timeout_ms=opts.pop('timeout_ms', timeout_ms), budget_s=budget, opts=opts)
    res = {'contract': c.name, 'status': 'proved', 'why': '', 'functions': c.functions}
    t = time.time()
    def one(eng):
        S = hapi.SymE(eng)
        eng.S = S
        try:
            try:
                if 'effects' in opts: effects.run(eng, c.effects_of, S, c.name)
                else: c.fn(S)
            except (TypeError, AttributeError, NameError, RecursionError) as ex:
                raise core.Unsupported('%s: %s @ %s' % (type(ex).__name__, ex, where(ex)))
            except core.Ctl: raise
            except hapi.Skip: raise core.Infeasible()
            except Exception as ex:
                # an exception the contract does not allow escaped
                eng.check(c.name + '/no-unexpected-exception', False, '%s: %s @ %s' % (type(ex).__name__, ex, where(ex)))
        finally:
            S.done()
    try:
        E.explore(one)
    except core.RestartContract: raise
    except core.Budget as b:
        res['status'] = 'undecided'; res['why'] = 'budget: %s' % b
    except core.Unsupported as u:
        res['status'] = 'undecided'; res['why'] = 'outside the supported fragment: %s' % (u,)
        res['tb'] = traceback.format_exc()[-2500:]
    except core.Ctl as u:
        res['status'] = 'undecided'; res['why'] = 'engine: %s %s' % (type(u).__name__, u)
        res['tb'] = traceback.format_exc()[-2500:]
    except RecursionError as u:
        res['status'] = 'undecided'; res['why'] = 'recursion'
    except Exception as u:
        res['status'] = 'undecided'; res['why'] = 'engine error: %s %s' % (type(u).__name__, u)
        res['tb'] = traceback.format_exc()[-2500:]
    obls = []
    for o in E.obls.values():
        obls.append({'name': o.name, 'status': o.status, 'n': o.n, 'time': round(o.time, 3), 'backend': sorted(o.backend),
                     'model': o.model, 'detail': o.detail})
    res['obligations'] = obls
    idle = sorted(n for n, used in getattr(E, 'stubs', {}).items() if not used)
    if any(o['status'] == 'failed' for o in obls):
        res['status'] = 'failed'
        # a callee under contract was never called: the code is divided into functions in another way, the contract says nothing about it
        if idle: res['status'] = 'undecided'; res['why'] = 'the functions are divided differently: %s never called' % ', '.join(idle)
    elif res['status'] == 'proved' and any(o['status'] == 'unknown' for o in obls):
        res['status'] = 'undecided'; res['why'] = 'solver gave no answer for %s' % [o['name'] for o in obls if o['status'] == 'unknown'][:5]
    elif res['status'] == 'proved' and not obls:
        res['status'] = 'undecided'; res['why'] = 'no obligation generated'
    elif res['status'] == 'proved':
        miss = [x for x in c.cover if not E.reach.get(x)]
        if miss: res['status'] = 'undecided'; res['why'] = 'vacuous: cover point(s) %s not reachable' % miss
    res.update(paths=E.paths, runs=E.runs, solver_s=round(E.solver_time, 2), solver_calls=E.solver_calls, wall_s=round(time.time() - t, 2),
               assumptions=sorted(E.assumptions), covered=sorted(E.reach), summaries=len(E.summaries))
    return res


def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    tb = [f for f in tb if '/repo/' in f.filename] or tb
    return '%s:%s' % (tb[-1].filename, tb[-1].lineno) if tb else '?'


def main():
    mod, name, out = sys.argv[1:4]
    budget = float(sys.argv[4]) if len(sys.argv) > 4 else 60
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from . import shims
    shims.install(os.environ.get('PYVC_REPO', '/repo'))
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
    h = importlib.import_module(mod)
    names = name.split(',')
    outs = []
    for nm in names:
        c = [c for c in h.CONTRACTS if c.name == nm][0]
        try:
            outs.append(run_contract(c, budget))
        except MemoryError:
            outs.append({'contract': nm, 'status': 'undecided', 'why': 'memory', 'obligations': [], 'functions': c.functions})
    json.dump(outs, open(out, 'w'), default=str)


if __name__ == '__main__': 
    main()
