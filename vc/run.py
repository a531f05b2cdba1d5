"""Runs the contracts of one property (or all); prints a JSON report."""
import argparse, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def run_spec(sp, prop, timeout, deadline, dump=None, max_paths=6000):
    import core
    eng = core.Engine(sp.name, timeout_ms=sp.opts.get('timeout', timeout), deadline=deadline, dump=dump, max_paths=max_paths)
    eng.want = prop
    eng.cover_needed = set(sp.opts.get('covers', ()))

    def h(c):
        c.mode = sp.mode
        sp.f(c)
    t = time.time()
    try:
        eng.run(h)
    except Exception as e:
        eng.unsupported.append('engine error: ' + repr(e)[:200] + ' ' + ' < '.join(f'{os.path.basename(x.filename)}:{x.lineno}' for x in traceback.extract_tb(e.__traceback__)[-4:]))
    return eng, time.time() - t


def pool(todo, one, jobs, deadline):
    """Runs each contract in a process of its own; yields the reports."""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    waiting, live = list(todo), []

    def child(sp, conn):
        try:
            conn.send(one(sp))
        except BaseException as e:
            conn.send({'name': sp.name, 'mode': sp.mode, 'unsupported': ['engine error: ' + repr(e)[:300]], 'obligations': [], 'paths': 0, 'funcs': sp.funcs,
                       'wall': 0, 'solver': 0, 'queries': 0, 'covers': {}, 'assumed': [], 'dump': []})
        conn.close()
        os._exit(0)
    while waiting or live:
        while waiting and len(live) < jobs:
            sp = waiting.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(sp, w), daemon=True)
            p.start()
            w.close()
            live.append((sp, p, r))
        for item in list(live):
            sp, p, r = item
            rep = None
            if r.poll(0.02):
                try:
                    rep = r.recv()
                except EOFError:
                    rep = {}
            elif time.time() > deadline + 90:
                p.kill()
                rep = {}
            if rep is not None:
                if not rep:
                    rep = {'name': sp.name, 'mode': sp.mode, 'unsupported': ['the verifier died or ran out of time'], 'obligations': [], 'paths': 0, 'funcs': sp.funcs,
                           'wall': 0, 'solver': 0, 'queries': 0, 'covers': {}, 'assumed': [], 'dump': []}
                p.join(5)
                live.remove(item)
                yield rep


# the contracts of these properties are proved on the contracts of those: established in the same run, and where one is not,
# the dependent property is not proved (that is not by itself a violation of it)
DEPENDS = {'C20': ['C19']}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', default=None)
    ap.add_argument('--spec', default=None)
    ap.add_argument('--timeout', type=int, default=10000)
    ap.add_argument('--budget', type=float, default=240)
    ap.add_argument('--out', default=None)
    ap.add_argument('--smt', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--tier', default='thorough')
    ap.add_argument('--jobs', type=int, default=0)
    a = ap.parse_args()
    import z3, load
    load.install()
    rep = {'specs': [], 'z3': z3.get_version_string(), 'import': None}
    try:
        import importlib
        for m in ('src.jax_act.core.utils', 'src.jax_act.core.states', 'src.jax_act.core.controller', 'src.jax_act.core.viewer', 'src.jax_act.core.builder',
                  'src.jax_act.core.tensoreditor', 'src.jax_act.layers.act', 'src.jax_act.layers.core', 'src.jax_act.frameworks.flax'):
            importlib.import_module(m)
    except BaseException as e:
        rep['import'] = repr(e)[:300]
    import registry
    specs = registry.load_all()
    deadline = time.time() + a.budget
    todo = [sp for sp in specs if (not a.property or a.property in sp.props) and (not a.spec or a.spec in sp.name)
            and (a.tier == 'thorough' or sp.opts.get('tier') != 'thorough' or a.spec)]
    via = {}
    for d in DEPENDS.get(a.property, ()):
        for sp in specs:
            if d in sp.props and not (a.spec and a.spec not in sp.name) and (a.tier == 'thorough' or sp.opts.get('tier') != 'thorough'):
                if sp not in todo:
                    todo.append(sp)
                via[sp.name] = d
    rep['sources'] = dict(load.LOADED)

    def one(sp):
        if rep['import']:
            return {'name': sp.name, 'mode': sp.mode, 'unsupported': ['import: ' + rep['import']], 'obligations': [], 'paths': 0, 'funcs': sp.funcs, 'wall': 0, 'solver': 0,
                    'queries': 0, 'covers': {}, 'dump': []}
        dump = [] if a.smt else None
        eng, wall = run_spec(sp, via.get(sp.name, a.property), a.timeout, deadline, dump)
        if sp.name in via:
            bad = [o.name for o in eng.obls.values() if o.refuted or o.unknown]
            for n in bad:
                del eng.obls[n]
            if bad:
                eng.unsupported.append('a contract relied on is not established: ' + ', '.join(bad)[:300])
        return {'name': sp.name, 'mode': sp.mode, 'paths': eng.paths, 'queries': eng.queries, 'solver': round(eng.solver_time, 2), 'wall': round(wall, 2),
                'unsupported': eng.unsupported, 'funcs': sp.funcs, 'covers': dict(eng.covers), 'assumed': sorted(eng.assumed), 'dump': dump or [],
                'obligations': [{'name': o.name, 'paths': o.paths, 'ok': o.ok, 'refuted': o.refuted, 'unknown': o.unknown, 'detail': o.detail, 'time': round(o.time, 3)}
                                for o in eng.obls.values()]}

    def show(s):
        if a.v:
            bad = [o for o in s['obligations'] if o['refuted'] or o['unknown']]
            print(f"{s['name']}: {s['paths']} paths, {len(s['obligations'])} obligations, {s['wall']}s (solver {s['solver']}), covers {s['covers']}", flush=True)
            for u in s['unsupported']:
                print('   UNSUPPORTED', u)
            for o in bad:
                print('   BAD', o['name'], o['ok'], o['refuted'], o['unknown'], json.dumps(o['detail'])[:700])
    dumps = []
    for s in pool(todo, one, a.jobs or min(8, os.cpu_count() or 1), deadline):
        dumps += s.pop('dump')
        rep['specs'].append(s)
        show(s)
    order = {sp.name: i for i, sp in enumerate(specs)}
    rep['specs'].sort(key=lambda s: order[s['name']])
    if a.smt:
        os.makedirs(a.smt, exist_ok=True)
        for i, (n, s) in enumerate(dumps):
            open(os.path.join(a.smt, f'{i:05d}.smt2'), 'w').write(f'; {n}\n' + s)
    if a.out:
        json.dump(rep, open(a.out, 'w'))
    elif not a.v:
        print(json.dumps(rep))


if __name__ == '__main__':
    main()
