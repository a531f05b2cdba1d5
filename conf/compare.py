"""Compares the contracts of vc/fakes.py with what the installed jax does: reads the lines of conf/cases.py, evaluates the same expressions symbolically
over tensors of known contents, and reports every difference.  Prints a JSON summary; exit 1 when there is a difference."""
import collections, itertools, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vc'))
import z3
import load
load.install()
import ast, builtins
import core, fakes, rtl, values as V


def code(expr):
    """The expression as the engine runs the code of the repository: in a function, through the same rewriting."""
    tree = load.transform('def f(tu, jax, t, s):\n    return ' + expr, 'conformance')
    b = dict(vars(builtins))
    b.update(rtl.BUILTINS)
    env = {'__builtins__': b, '__vc__': rtl}
    exec(compile(tree, '<vc>conformance', 'exec'), env)
    return env['f']


def constant(a):
    d = V.DTYPES[a['dtype']]
    if a['dtype'] == 'bool':
        vals = [z3.BoolVal(bool(x)) for x in a['data']]
    else:
        vals = [z3.RealVal(str(x)) for x in a['data']]
    shape = a['shape']
    norm = V.SymTuple([('c', n) for n in shape])
    keyed = [n for n in shape if n != 1]

    def elem(ix):
        assert len(ix) == len(keyed), (len(ix), shape)
        r = vals[-1]
        for pos in range(len(vals)):
            at, q = [], pos
            for n in reversed(keyed):
                at.insert(0, q % n)
                q //= n
            r = z3.If(z3.And(*[i == j for i, j in zip(ix, at)]), vals[pos], r) if keyed else vals[0]
        return z3.simplify(r)
    return V.SymTensor(norm, elem, d, False, False)


def dims(shape):
    out = []
    for it in shape.norm():
        if it[0] == 'rep':
            out += [1] * z3.simplify(it[2]).as_long()
        else:
            out.append(z3.simplify(V.int_term(it[1])).as_long())
    return out


def check(c, r, o):
    """None when equal, otherwise what differs."""
    k = o['kind']
    if k == 'bool':
        if isinstance(r, V.SymTensor):
            r = r.elem(())
        if isinstance(r, bool):
            return None if r == o['value'] else f'{r}'
        t = core.to_z3(r)
        t = t.z if hasattr(t, 'z') else t
        return None if c.provable(t == o['value']) else f'{t}'
    if k == 'int':
        return None if c.provable(V.int_term(r) == o['value']) else f'{r}'
    if k == 'tuple':
        got = dims(r)
        return None if got == o['value'] else f'{got}'
    if k == 'dtype':
        if not isinstance(r, V.SymDType):
            return type(r).__name__
        return None if c.provable(r.z == V.DTYPES[o['value']].z) else f'{r.z}'
    if not isinstance(r, V.SymTensor):
        r = fakes.as_t(r)
    got = dims(r.sshape)
    if got != o['shape']:
        return f'shape {got}'
    if not c.provable(r.dtype.z == V.DTYPES[o['dtype']].z):
        return f'dtype {r.dtype.z}'
    if o['weak'] != bool(r.weak) and o['dtype'] != 'bool':
        return f'weak {r.weak}'
    if any(isinstance(x, str) for x in o['data']):
        return 'special'
    weaker = None
    keyed = [n for n in got if n != 1]
    for at, want in zip(itertools.product(*[range(n) for n in keyed]), o['data']):
        e = r.elem(tuple(z3.IntVal(i) for i in at))
        e = V.num(e) if z3.is_bool(e) else e
        w = z3.RealVal(repr(want))
        tol = z3.RealVal('1/100') if o['dtype'] in ('float16', 'bfloat16') else z3.RealVal('1/100000')
        same = z3.And(e - w <= tol * (1 + abs(want)), w - e <= tol * (1 + abs(want)))
        v = z3.simplify(e)
        if 'int' in o['dtype'] and z3.is_rational_value(z3.simplify(z3.ToReal(v) if z3.is_int(v) else v)):
            bits, x = int(o['dtype'].split('int')[1]), float(z3.simplify(z3.ToReal(v) if z3.is_int(v) else v).as_fraction())
            low = 0 if o['dtype'][0] == 'u' else -2 ** (bits - 1)
            if not low <= x < low + 2 ** bits:
                return 'special'
        if c.provable(z3.Not(same)):
            return f'at {at}: {z3.simplify(e)} instead of {want}'
        if not c.provable(same):
            weaker = 'weaker'           # the contract leaves the value open
    return weaker


def given(x):
    """A container as the code under contract has it."""
    if isinstance(x, list):
        return V.SymList([('c', given(y)) for y in x])
    if isinstance(x, tuple):
        return tuple(given(y) for y in x)
    if isinstance(x, dict):
        d = V.SymDict()
        for k, y in x.items():
            d[k] = given(y)
        return d
    return x


def plain(x):
    if isinstance(x, (V.SymList, list)):
        return {'list': [plain(y) for y in (x.values() if isinstance(x, V.SymList) else x)]}
    if isinstance(x, tuple):
        return {'tuple': [plain(y) for y in x]}
    if isinstance(x, (V.SymDict, dict)):
        return {'dict': [[k, plain(x[k])] for k in sorted(x)]}
    if isinstance(x, V.SymBool):
        return core.ctx().branch(x.z)
    if isinstance(x, V.SymInt):
        return z3.simplify(x.z).as_long()
    return x


def main():
    res = collections.Counter()
    per = collections.defaultdict(collections.Counter)
    bad = []
    for line in sys.stdin:
        case = json.loads(line)
        got = []

        def run(c):
            V.dtype_axioms(c)
            if 'trees' in case:
                t, s = [given(eval(x)) for x in case['trees']]
                try:
                    r = code(case['expr'])(fakes.tree_util, fakes.jax, t, s)
                except core.Unsupported as e:
                    got.append(('gap', str(e)))
                    return
                except (TypeError, ValueError, KeyError, AttributeError, IndexError) as e:
                    got.append(('same', '') if case['out']['kind'] == 'error' else ('bad', f'{type(e).__name__}: {e}'))
                    return
                if case['out']['kind'] == 'error':
                    got.append(('bad', f"accepted, jax raises {case['out']['value']}"))
                    return
                try:
                    r = json.loads(json.dumps(plain(r)))
                except core.Unsupported as e:
                    got.append(('gap', str(e)))
                    return
                got.append(('same', '') if r == case['out']['value'] else ('bad', str(r)))
                return
            env = {'jnp': fakes.jnp, 'jax': fakes.jax, 'lax': fakes.lax}
            for n, a in case['args'].items():
                env[n] = constant(a) if not a['py'] else (bool if a['dtype'] == 'bool' else int if 'int' in a['dtype'] else float)(a['data'][0])
            try:
                r = eval(case['expr'], env)
            except core.Unsupported as e:
                got.append(('gap', str(e)))
                return
            except (TypeError, ValueError, IndexError) as e:
                got.append(('same', '') if case['out']['kind'] == 'error' else ('bad', f'{type(e).__name__}: {e}'))
                return
            if case['out']['kind'] == 'error':
                got.append(('bad', f"accepted, jax raises {case['out']['value']}"))
                return
            try:
                d = check(c, r, case['out'])
            except core.Unsupported as e:
                got.append(('gap', str(e)))
                return
            got.append(('same', '') if d is None else (d, '') if d in ('special', 'weaker') else ('bad', d))
        eng = core.Engine('conformance', timeout_ms=5000, deadline=None, dump=None, max_paths=40)
        try:
            eng.run(run)
        except Exception as e:
            got.append(('gap', 'engine error: ' + repr(e)[:200]))
        if eng.unsupported and not got:
            got.append(('gap', eng.unsupported[0]))
        worst = next((g for w in ('bad', 'gap', 'special', 'weaker', 'same') for g in got if g[0] == w), ('gap', 'nothing'))
        res[worst[0]] += 1
        per[case['expr']][worst[0]] += 1
        if worst[0] == 'bad' or worst[0] == 'gap' and '-v' in sys.argv:
            bad.append((worst, case))
    for w, case in bad[:400]:
        print(w[0], case['expr'], json.dumps(case.get('args', case.get('trees'))), '->', json.dumps(case['out']), '|', w[1], file=sys.stderr)
    print(json.dumps({'cases': sum(res.values()), 'agree': res['same'], 'differ': res['bad'], 'value left open': res['weaker'], 'outside of the contracts': res['gap'], 'not comparable (inf, nan, overflow)': res['special'],
                      'expressions compared': sum(1 for v in per.values() if v['same']), 'expressions outside': sorted(e for e, v in per.items() if not v['same'] and not v['weaker'])}))
    return 1 if res['bad'] else 0


sys.exit(main())
