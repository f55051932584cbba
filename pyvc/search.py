"""<venv>/python -m pyvc.search <harness> <out.json> <seconds> <seed> [contract,...] [replay.json]
Bounded contract search and counter-model replay on the real, uninstrumented code."""
import sys, json, time, traceback, os, importlib, random, signal


class Timeout(BaseException): pass


def run_one(c, seed, given=None, limit=None):
    from . import hapi
    E = hapi.ConE(seed, given)
    def alarm(*a): raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit or c.opts.get('limit', 10))
    st = random.getstate()
    random.seed(seed)
    try:
        c.fn(E)
        r = ('ok', None, None)
    except hapi.Skip: r = ('skip', None, None)
    except hapi.Interface: r = ('iface', None, None)
    except hapi.CheckFailed as f: r = ('fail', f.name, str(f.detail)[:2000])
    except Timeout: r = ('timeout', None, None)
    except Exception as ex:
        if hapi.interface(ex): r = ('iface', None, None)
        else: r = ('fail', c.name + '/no-unexpected-exception', '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-1500:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        E.done()
        random.setstate(st)
    return r, E


def main():
    mod, out, secs, seed = sys.argv[1:5]
    secs = float(secs); seed = int(seed)
    only = set(sys.argv[5].split(',')) if len(sys.argv) > 5 and sys.argv[5] else None
    replay = json.load(open(sys.argv[6])) if len(sys.argv) > 6 else {}
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.environ.get('PYVC_REPO', '/repo'))
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
    import logging
    logging.disable(logging.CRITICAL)
    devnull = open(os.devnull, 'w')
    real = sys.stdout
    sys.stdout = devnull
    res = {}
    def fin():
        json.dump(res, open(out, 'w'), default=str)
    try:
        h = importlib.import_module(mod)
    except Exception as ex:
        res['_import'] = traceback.format_exc()[-3000:]
        fin(); return
    cs = [c for c in h.CONTRACTS if c.con and (only is None or c.name in only)]
    tot = sum(c.weight for c in cs) or 1
    for c in cs:
        r = res[c.name] = {'runs': 0, 'skips': 0, 'iface': 0, 'timeouts': 0, 'checks': 0, 'fails': [], 'covered': []}
        cov = set()
        t0 = time.time()
        lim = secs * c.weight / tot
        seen = set()
        def note(rr, E, origin, sd):
            r['runs'] += 1
            r['checks'] += sum(E.checked.values())
            cov.update(E.covered)
            if rr[0] in ('skip', 'iface'): r['skips'] += 1; r['iface'] += rr[0] == 'iface'
            elif rr[0] == 'timeout':
                r['timeouts'] += 1
            elif rr[0] == 'fail':
                if rr[1] not in seen:
                    seen.add(rr[1])
                    r['fails'].append({'check': rr[1], 'detail': rr[2], 'inputs': E.rec, 'seed': sd, 'origin': origin})
        for given in replay.get(c.name, []):
            for k in range(60):
                rr, E = run_one(c, seed * 1000003 + k, given)
                note(rr, E, 'model', seed * 1000003 + k)
                if rr[0] == 'fail': break
                if time.time() - t0 > lim + 5: break
        k = 0
        maxruns = c.opts.get('max_search', 10 ** 9)
        while (time.time() - t0 < lim or k < c.opts.get('min_search', 3)) and k < maxruns:
            sd = seed * 7919 + k * 104729 + 1
            rr, E = run_one(c, sd)
            note(rr, E, 'search', sd)
            k += 1
            if len(seen) >= 3: break
            if r['timeouts'] > 3: break
        r['covered'] = sorted(cov)
        r['wall_s'] = round(time.time() - t0, 2)
    sys.stdout = real
    fin()


if __name__ == '__main__': main()
