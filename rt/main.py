"""Runs the runtime side of one property against the real code.

usage: main.py --property C01 --seed 1 --tier quick --budget 40 --out result.json [--cases hints.json]
       main.py --replay file.json
Always prints/writes a result; exit code 0 unless this program itself fails. In replay mode the exit code is 1 if the
recorded case still violates the property.
"""
import argparse, json, sys, time, traceback, os, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=60)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--start', type=int, default=0)
    a = ap.parse_args()
    from common import Fail, Skip, np
    import common
    try:
        import props_core, props_build, props_util, props_grad
        PROPS = {**props_core.PROPS, **props_grad.PROPS, **props_build.PROPS, **props_util.PROPS}
        common.repo()
    except Exception as e:
        tb = traceback.format_exc()
        res = {'error': 'import', 'message': tb[-2000:], 'evaluations': 0, 'failures': []}
        if a.replay:
            print(tb)
            return 1
        json.dump(res, open(a.out, 'w'))
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        if r.get('case') is None:
            print('no input is recorded: the violation is a failed proof obligation\n' + json.dumps(r.get('obligations'), indent=1))
            return 1
        try:
            PROPS[r['property']].run(r['case'])
        except Fail as e:
            print('violated:', e)
            return 1
        except Skip:
            pass
        print('the recorded case no longer violates the property')
        return 0
    p = PROPS[a.property]
    t0 = time.time()
    n = p.n[a.tier]
    fails, seen, samples, skipped, done, errors = [], set(), [], 0, 0, 0
    def report():
        json.dump({'evaluations': done, 'distinct': len(seen), 'skipped': skipped, 'errors': errors, 'failures': fails,
                   'samples': samples, 'wall': time.time() - t0}, open(a.out, 'w'))
    at = open(a.out + '.at', 'w')
    for i in range(a.start, n):
        at.seek(0)                                   # the case under way, in case XLA takes the process down
        at.write(f'{i:8}')
        at.flush()
        if i % 50 == 0 and i > a.start:
            report()
        if time.time() - t0 > a.budget:
            break
        rng = np.random.default_rng([zlib.crc32(a.property.encode()), a.seed if not hasattr(p, 'fixed') or i >= p.fixed else 0, i])
        case = p.gen(rng, i)
        key = json.dumps(case, sort_keys=True)
        msg = None
        try:
            p.run(case)
        except Skip:
            skipped += 1
        except Fail as e:
            msg = str(e)
        except Exception as e:     # the real code raised where the property promises a result
            errors += 1
            msg = 'unexpected ' + ''.join(traceback.format_exception(e))[-1500:]
        done += 1
        if key not in seen:
            seen.add(key)
            if len(samples) < 2:
                samples.append(case)
        if msg is not None:
            fails.append({'case': case, 'message': msg})
            report()
            if len(fails) >= 3:
                break
    report()
    at.close()
    os.remove(a.out + '.at')
    return 0


if __name__ == '__main__':
    sys.exit(main())
