"""Run-time library of the instrumented code: loops over collections of any size, built-in functions, displays."""
import builtins, sys
import z3
import values as V
from core import ctx, to_z3, Unsupported, PathEnd, Restart, VCStop
from values import (SymTensor, SymTuple, SymBool, SymInt, SymList, SymDict, SymTree, SymTreedef, SymName, SymDType, Group, LazySeq, SymView,
                    Opaque, as_list, mkint, int_term, F_nleaves)


class Havoc(Opaque):
    """A variable whose value depends on iterations that were not followed."""
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _no(self, *a, **k):
        raise Unsupported(f'use of {self._n} carried over iterations')

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        self._no()
    __bool__ = __call__ = __iter__ = __len__ = __getitem__ = __setitem__ = __add__ = __radd__ = __iadd__ = _no
    __sub__ = __rsub__ = __mul__ = __rmul__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __and__ = __or__ = __rand__ = __ror__ = __invert__ = _no
    __hash__ = object.__hash__


_FLAG_UNSET = object()


class Frame:
    """An open loop iteration."""
    def __init__(self, lid, key):
        c = ctx()
        self.lid, self.key = lid, key
        self.start_serial, self.start_dict = c.counter['list'], c.counter['dict']
        self.effects = []
        self.lists, self.reads = {}, {}

    def touch(self, obj, what, key=None):
        if isinstance(obj, SymDict):
            if what in ('set', 'del') and self.key is not None and _same_name(key, self.key):
                self.effects.append(('dict', obj, what))
                return
            raise Unsupported(f'a loop that changes a dict at another key ({what})')
        if what in ('append', 'extend'):
            if id(obj) in self.reads:
                raise Unsupported('a loop that reads the list it fills')
            if id(obj) not in self.lists:
                self.lists[id(obj)] = (obj, list(obj.segs))
            return
        raise Unsupported(f'a loop that changes a list by {what}')

    def seen(self, obj):
        """The list is read in this iteration."""
        if obj.serial <= self.start_serial:
            if id(obj) in self.lists:
                raise Unsupported('a loop that reads the list it fills')
            self.reads[id(obj)] = obj

    def signature(self):
        out = []
        for obj, before in self.lists.values():
            out.append(('list', obj.serial, len(obj.segs) - len(before) if builtins.all(s[0] == 'c' for s in obj.segs[len(before):]) else 'group'))
        for k, d, what in self.effects:
            out.append(('dict', d.serial, what))
        return tuple(sorted(set(out), key=str))


def _same_name(a, b):
    ta, tb = V.name_term(a), V.name_term(b)
    return ta is not None and tb is not None and (ta.eq(tb) or ctx().provable(ta == tb))


def foci(g):
    """The positions of interest inside a group, and how to show them: list of (key for memo, value, name or None)."""
    c = ctx()
    out = []
    if getattr(g, 'names', None) is not None:
        d = g.names.d
        for n in c.focus_names:
            if c.branch(d.has(SymName(n))):
                out.append((n, n))
        if not out:
            # is there any name at all?
            w = z3.Const(c.name('any_name'), V.NameS)
            if c.choose(2) == 0:
                d_empty(d)
                return None
            c.assume(d.has(SymName(w)))
            for n in c.focus_names:
                c.assume(w != n)
            c.witness(w)
            out.append((w, w))
        return out
    if not c.branch(g.length > 0):
        return None
    for k in c.focus(g):
        if c.branch(z3.And(k >= 0, k < g.length)):
            out.append((k, None))
    if not out:
        key = ('any_pos', g.length.sexpr())
        w = c.cache.get(key)
        if w is None:
            w = c.cache[key] = z3.Int(c.name('any_pos'))
            c.positions.append(w)
        c.assume(z3.And(w >= 0, w < g.length))
        out.append((w, None))
    return out


def d_empty(d):
    """Assume that a dict has no entries."""
    c = ctx()

    def u(w):
        c.assume(z3.Not(d.has(SymName(w)))) if w.sort() == V.NameS else None
    c.universal(u)


def other(g, done):
    """A position that is not one of those followed."""
    c = ctx()
    if getattr(g, 'names', None) is not None:
        w = z3.Const(c.name('other_name'), V.NameS)
        c.assume(g.names.d.has(SymName(w)))
        for n in c.focus_names:
            c.assume(w != n)
        c.witness(w)
        return w, w
    if c.scout is not None and not c.scout_used and builtins.any(k is c.scout for k, _ in done):
        # an arbitrary position that is followed from the start stands for the one that leaves
        c.scout_used = True
        c.positions.append(c.scout)
        return c.scout, None
    if c.scout is not None and not c.scout_used:
        raise PathEnd()          # covered by the paths on which the scout is that element
    w = z3.Int(c.name('other_pos'))
    c.positions.append(w)
    c.assume(z3.And(w >= 0, w < g.length))
    for k, _ in done:
        c.assume(w != k)
    return w, None


def value_at(g, k):
    v = g.names.value(k) if getattr(g, 'names', None) is not None else g.get(k)
    return v


class Loop:
    """One execution of a for statement."""
    def __init__(self, lid, it, names=()):
        self.lid, self.names = lid, names
        if isinstance(it, SymDict):
            it = it.keys()
        self.segs = as_list(it).segs
        self.plain = builtins.all(s[0] == 'c' for s in self.segs)
        self.entry, self.heads, self.headsegs, self.ends = {}, {}, {}, {}
        self.finished = False
        self.frame = None
        self.groups = []
        self.active = None
        self.ran = False
        self.rounds = 0

    def __iter__(self):
        c = ctx()
        for s in self.segs:
            if s[0] == 'c':
                yield s[1]
                continue
            if not self.plain and len(self.segs) > 1 and self.names:
                raise Unsupported('loop over a partly symbolic list')
            g = s[1]
            fs = foci(g)
            if fs is None:
                continue
            self.ran = True
            self.active = g
            if c.choose(2) == 1:
                # another element is the first to leave the loop
                w, nm = other(g, fs)
                self._open(nm, w)
                yield value_at(g, w)
                self._close(None)
                raise PathEnd()
            lists = {}
            for k, nm in fs:
                self._open(nm, k)
                yield value_at(g, k)
                self._close(lists, k)
            self._summarise(g, lists, fs)

    def _open(self, nm, k):
        self.rounds += 1
        self.frame = Frame(self.lid, SymName(nm) if nm is not None else None)
        self.pos = k
        ctx().loops.append(self.frame)

    def _close(self, lists, k=None):
        f = self.frame
        self.last = self.pos
        ctx().loops.remove(f)
        self.frame = None
        ctx().eng.signatures.setdefault(self.lid, set()).add(self._sig(f))
        if lists is None:
            return
        for obj, before in f.lists.values():
            grown = obj.segs[len(before):]
            lists.setdefault(id(obj), (obj, before, []))[2].append((k, grown))
            obj.segs = list(before)
        for kind, d, what in f.effects:
            lists.setdefault(('d', id(d)), (d, what, []))[2].append(k)

    def _sig(self, f):
        base = min([o.serial for o, _ in f.lists.values()] + [d.serial for _, d, _ in f.effects] + [10 ** 9])
        sig = f.signature()
        # serial numbers differ between paths: keep their order only
        order = {s: i for i, s in enumerate(sorted({x[1] for x in sig if x[0] == 'list'}))}
        dorder = {s: i for i, s in enumerate(sorted({x[1] for x in sig if x[0] == 'dict'}))}
        return tuple((x[0], (order if x[0] == 'list' else dorder)[x[1]], x[2]) for x in sig)

    def _summarise(self, g, lists, fs):
        for key, rec in lists.items():
            if isinstance(key, tuple):
                d, what, ks = rec
                # the other keys were treated alike
                fl = [k for k, nm in fs]
                writes = [w for w in d.log]
                idx = len(d.log)
                n = len(ks)
                # entries of this loop are the last ones of the log
                d.log.insert(len(d.log) - n, ('loop', g.names.d, what, fl))
                continue
            obj, before, grown = rec
            vals = {}
            for k, gr in grown:
                if len(gr) != 1 or gr[0][0] != 'c':
                    gr = self._flat(obj, before, grown, g)
                    obj.segs = list(before) + gr
                    vals = None
                    break
                vals[k] = gr[0][1]
            if vals is not None:
                obj.segs = list(before) + [('g', mapped_group(g, vals))]

    def _flat(self, obj, before, grown, g):
        h = getattr(g, 'concat', None)
        if h is None and getattr(g, 'tds', None):
            return td_concat(g, grown)
        if h is None:
            raise Unsupported('a loop that adds a varying number of items')
        return h(grown)

    # ---- hooks of the instrumented statement
    def head(self, name, v):
        if self.plain or self.frame is None:
            return v
        if self.rounds == 1:
            self.entry.setdefault(name, v)
        elif name not in self.entry:
            return Havoc(name)         # first assigned inside the loop
        if self.rounds > 1:
            self.ends.setdefault(name, []).append((self.last, v))
        v = self.entry[name]
        if isinstance(v, bool) or isinstance(v, SymBool):
            h = FlagHead(name)
        elif isinstance(v, (int, SymInt)):
            h = SymInt(z3.Int(ctx().name('head:' + name)))
        elif isinstance(v, SymList):
            h = self._list_head(name, v)
            if h is v:
                return v
        elif isinstance(v, SymTensor) and getattr(self.active, 'names', None) is None and self.active.owner == 'range':
            tpl = ctx().eng.memo.get(('rebound', self.lid, name))
            if tpl is None:
                return v
            h = apply_template({name: tpl}, {name: v}, self.pos)[name]
        else:
            hk = getattr(self.active, 'head', None)
            h = hk(self, name, v) if hk else None
            if h is None:
                h = Havoc(name)
        self.heads[name] = h
        if isinstance(h, SymList):
            self.headsegs[name] = list(h.segs)
        return h

    # A list that is rebound in a loop: either something is added at its end in each iteration; or, in a loop over the
    # children of a structure, as much is cut from its front as the children gone through have leaves.  Which of the two
    # is learnt in a first pass and verified in the next.
    def _list_head(self, name, v):
        tpl = ctx().eng.memo.get(('rebound', self.lid, name))
        if tpl is None:
            return v
        if tpl == 'grow':
            n = z3.Int(ctx().name('so far'))
            ctx().assume(n >= 0)

            def get(k):
                raise Unsupported(f'{name}: items of other iterations')
            return SymList([('g', Group(n, get, 'so far'))])
        if not getattr(self.active, 'tds', None):
            return v
        td = self.active.tds[tpl]
        V.child(td, self.pos)
        return SymList(cut(v.segs, V.T_off(td, self.pos)))

    def _learn(self, name, h, v):
        c, key = ctx(), ('rebound', self.lid, name)
        if not isinstance(v, SymList) or key in c.eng.memo:
            return
        if len(v.segs) > len(h.segs) and builtins.all(a is b or a[0] == b[0] and a[1] is b[1] for a, b in zip(v.segs, h.segs)):
            c.eng.memo[key] = 'grow'
            c.eng.relearn = True
            return
        d = z3.simplify(total(h.segs) - total(v.segs))
        for k, td in enumerate(getattr(self.active, 'tds', None) or ()):
            if c.provable(d == F_nleaves(V.child(td, self.pos))):
                c.eng.memo[key] = k
                c.eng.relearn = True
                return

    def _list_after(self, name, v):
        c = ctx()
        e, h = self.entry[name], self.heads[name]
        tpl = c.eng.memo.get(('rebound', self.lid, name))
        if tpl is None:
            self._learn(name, h, v)
            return Havoc(name)
        ends = self.ends.get(name, []) + [(self.last, v)]
        if tpl == 'grow':
            grown = []
            for k, x in ends:
                if not isinstance(x, SymList) or not x.segs or x.segs[0][0] != 'g' or x.segs[0][1].owner != 'so far':
                    raise Unsupported(f'{name} is rebound in a loop in a way without a summary')
                grown.append((k, x.segs[1:]))
            return SymList(list(e.segs) + self._added(e, grown))
        td = self.active.tds[tpl]
        want = cut(self.headsegs[name], F_nleaves(V.child(td, self.last)))
        j = z3.Int(c.name('any_element'))
        ok = isinstance(v, SymList) and c.provable(total(v.segs) == total(want))
        if ok and c.branch(z3.And(j >= 0, j < total(want))):
            ok = same_value(SymList(v.segs).at(j), SymList(want).at(j))
        if not ok:
            raise Unsupported(f'{name} is rebound in a loop in a way without a summary')
        return SymList(cut(e.segs, F_nleaves(td)))

    def _tensor_after(self, name, v):
        '''A tensor given as many unit dimensions in each iteration.'''
        e, tpl = self.entry[name], ctx().eng.memo[('rebound', self.lid, name)]
        for k, x in self.ends.get(name, []) + [(self.last, v)]:
            check_template({name: tpl}, {name: x}, apply_template({name: tpl}, {name: e}, z3.simplify(k + 1)))
        return apply_template({name: tpl}, {name: e}, self.active.length)[name]

    def _added(self, obj, grown):
        """What the loop adds in all, from what it adds at the positions followed."""
        g = self.active
        if builtins.all(builtins.len(gr) == 1 and gr[0][0] == 'c' for _, gr in grown):
            return [('g', mapped_group(g, {k: gr[0][1] for k, gr in grown}))]
        return self._flat(obj, obj.segs, grown, g)

    def done(self):
        self.finished = True

    def end(self):
        if self.frame is not None and self.frame in ctx().loops:
            ctx().loops.remove(self.frame)
            self.frame = None

    def exit(self):
        if not self.finished and not self.plain:
            raise Unsupported('break out of a loop over a symbolic collection')

    def after(self, name, v):
        if self.plain or not self.ran:
            return v
        if isinstance(v, SymList) and name in self.entry and self.entry[name] is v:
            return v
        if isinstance(v, SymList) and name not in self.heads and isinstance(self.entry.get(name), SymList):
            self._learn(name, self.entry[name], v)
            return Havoc(name)
        if name in self.heads:
            h = self.heads[name]
            if v is h and not isinstance(h, SymList):
                return self.entry[name]
            if isinstance(h, SymInt) and isinstance(v, (int, SymInt)) and not isinstance(v, bool):
                c = ctx()
                delta = z3.simplify(int_term(v) - h.z)
                e = int_term(self.entry[name])
                g = self.active
                sm = getattr(g, 'sum', None)
                if getattr(g, 'tds', None):
                    sm = lambda pos, d: td_sum(g, pos, d)
                if sm is not None:
                    r = sm(self.pos, delta)
                    if r is not None:
                        return mkint(e + r)
                if z3.is_int_value(delta) and getattr(g, 'names', None) is None:
                    return mkint(e + delta * g.length)
                return Havoc(name)
            if isinstance(h, FlagHead):
                return Havoc(name)
            if isinstance(h, SymList):
                return self._list_after(name, v)
            if isinstance(h, SymTensor):
                return self._tensor_after(name, v)
        elif isinstance(v, SymTensor) and isinstance(self.entry.get(name), SymTensor):
            c = ctx()
            tpl = learn({name: self.entry[name]}, {name: v})[name]
            if tpl[0] == 'ones':
                c.eng.memo[('rebound', self.lid, name)] = tpl
                c.eng.relearn = True
            return Havoc(name)
        hk = getattr(self.active, 'after', None)
        if hk:
            r = hk(self, name, v)
            if r is not None:
                return r
        return Havoc(name)


def total(segs):
    n = z3.IntVal(0)
    for s in segs:
        n = n + (s[1].length if s[0] == 'g' else 1)
    return z3.simplify(n)


def cut(segs, n):
    """The segments behind the first n items."""
    if builtins.len(segs) != 1 or segs[0][0] != 'g':
        if not segs:
            return []
        raise Unsupported('cutting a partly symbolic list')
    g = segs[0][1]
    n = z3.simplify(n)
    return [('g', Group(z3.simplify(z3.If(g.length > n, g.length - n, 0)), lambda k: g.get(z3.simplify(k + n)), g.owner))]


def same_value(a, b):
    if a is b:
        return True
    f = getattr(builtins.type(a), 'vc_same', None)
    return f is not None and f(a, b)


def td_sum(g, pos, delta):
    """The sum over all children of what is, for each, its number of leaves."""
    for td in g.tds:
        if ctx().provable(delta == F_nleaves(V.child(td, pos))):
            return F_nleaves(td)
    return None


def td_concat(g, grown):
    """The concatenation over all children of lists with one item for each of their leaves."""
    c = ctx()
    for td in g.tds:
        if builtins.all(c.provable(total(gr) == F_nleaves(V.child(td, k))) for k, gr in grown):
            def get(j, td=td):
                for k, gr in grown:
                    o = V.T_off(td, k)
                    if c.provable(z3.And(j >= o, j < o + F_nleaves(V.child(td, k)))):
                        return SymList(gr).at(z3.simplify(j - o))
                raise Unsupported('an item of a child that was not followed')
            return [('g', Group(F_nleaves(td), get, 'children'))]
    raise Unsupported('a loop that adds a varying number of items')


class FlagHead(Havoc):
    """The value of a flag at the start of an iteration."""


def mapped_group(g, vals):
    """The list of what an iteration over g produced, known at the positions in vals."""
    names = getattr(g, 'names', None)

    def get(k):
        for p, v in vals.items():
            if p is k or (p.sort() == k.sort() and (p.eq(k) or ctx().provable(p == k))):
                return v
        if r.again_if_same is not None:
            return r.again_if_same(k)
        raise Unsupported('an element of a list at a position that was not followed')
    if names is not None:
        r = Group(g.length, get, g.owner)
        r.again_if_same = None
        r.byname = (names.d, get)
        return r
    r = Group(g.length, get, g.owner)
    r.again_if_same = None
    r.sampled = list(vals)
    return r


def map_group(lid, f, g):
    """Segments of [f(x) for x in g]."""
    lp = Loop(lid, SymList([('g', g)]))
    out = SymList()
    for x in lp:
        out.append(f(x))
    lp.end()
    return out.segs if out.segs else []


# ------------------------------------------------------------------------------- comprehensions
def lazy(f, it, conds=()):
    """Segments of a generator expression, evaluated where it is looked at."""
    out = []
    for s in as_list(it.keys() if isinstance(it, SymDict) else it).segs:
        if s[0] == 'c':
            if builtins.all(bool(c(s[1])) for c in conds):
                out.append(('c', Thunk(lambda v=s[1]: f(v))))
        else:
            g = s[1]
            get0 = g.raw if isinstance(g, V.Filtered) else None
            src = (lambda g, get0: (lambda k: get0(k)) if get0 else (lambda k: value_at(g, k)))(g, get0)
            old = (lambda g: lambda k: g.cond(k))(g) if get0 else None
            if conds or get0:
                r = V.Filtered(g.n if get0 else g.length, (lambda src: lambda k: f(src(k)))(src), g.owner,
                               (lambda src, old: lambda k: (old is None or old(k)) and builtins.all(bool(c(src(k))) for c in conds))(src, old))
            else:
                r = Group(g.length, (lambda src: lambda k: f(src(k)))(src), g.owner)
            r.source = g
            out.append(('g', r))
    return out


class Thunk:
    def __init__(self, f):
        self.f = f


class GenExp(LazySeq):
    """A generator expression, not evaluated yet."""
    def __init__(self, lid, f, it, conds):
        self.parts = (lid, f, it, conds)

    @property
    def lst(self):
        return listcomp(*self.parts)

    def lazy(self):
        lid, f, it, conds = self.parts
        return lazy(f, it, conds)


def _again(f, again):
    '''The value of a comprehension at a position that was not followed, if what it reads is still what it was.'''
    def reads():
        r = []
        for c in f.__closure__ or ():
            try:
                v = c.cell_contents
            except ValueError:
                v = None
            r.append((v, tuple(v.segs) if isinstance(v, SymList) else None))
        return r
    before = reads()

    def get(k):
        now = reads()
        if builtins.any(a is not b or isinstance(a, (SymDict, dict, list)) or (x is not None and (builtins.len(x) != builtins.len(y) or builtins.any(i is not j for i, j in builtins.zip(x, y))))
                        for (a, x), (b, y) in builtins.zip(before, now)):
            raise Unsupported('an element of a list at a position that was not followed')
        try:
            return again(k)
        except (PathEnd, Unsupported):
            raise
        except Exception:
            raise PathEnd()         # the comprehension failed there: other paths follow that
    return get


def listcomp(lid, f, it, conds=()):
    if isinstance(it, SymDict):
        it = it.keys()
    if isinstance(it, GenExp):
        it = it.lst
    segs = as_list(it).segs
    out = []
    for s in segs:
        if s[0] == 'c':
            if builtins.all(bool(c(s[1])) for c in conds):
                out.append(('c', f(s[1])))
            continue
        g = s[1]
        if conds or isinstance(g, V.Filtered):
            r = lazy(f, SymList([s]), conds)
            if lid is not None and ctx().choose(2) == 1:
                # evaluating it fails at some item
                h, n = r[0][1], _names_of(g)
                w = z3.Const(ctx().name('other'), V.NameS if n is not None else z3.IntSort())
                ctx().assume(n.has(SymName(w)) if n is not None else z3.And(w >= 0, w < h.n))
                ctx().witness(w) if n is not None else ctx().positions.append(w)
                if h.cond(w):
                    h.raw(w)
                raise PathEnd()
            out += r
            continue
        lp = Loop(lid, SymList([s]))
        o = SymList()
        for x in lp:
            o.append(f(x))
        lp.end()
        for x in o.segs:
            if x[0] == 'g':
                seen = x[1].get
                x[1].source = g
                x[1].again = (lambda g: lambda k: f(value_at(g, k)))(g)
                x[1].again_if_same = _again(f, x[1].again)
            out.append(x)
    return SymList(out)


def dictcomp(lid, fk, fv, it, conds=()):
    if isinstance(it, SymDict):
        it = it.keys()
    if isinstance(it, GenExp):
        it = it.lst
    d = SymDict()
    lp = Loop(lid, it)
    if not lp.plain and conds:
        return _filtered(lp, fk, fv, conds)
    for x in lp:
        if builtins.all(bool(c(x)) for c in conds):
            d[fk(x)] = fv(x)
    lp.end()
    return d


def _filtered(lp, fk, fv, conds):
    '''{key: value for key in names if condition}: membership and values are computed where they are asked for.'''
    c = ctx()
    g = lp.segs[0][1] if len(lp.segs) == 1 else None
    if g is None or getattr(g, 'names', None) is None:
        raise Unsupported('filtered dict comprehension over a symbolic collection')
    src = g.names.d

    def keeps(t):
        x = value_at(g, t)
        return builtins.all(bool(k(x)) for k in conds)

    def val(t):
        x = value_at(g, t)
        key = fk(x)
        if not _same_name(key, SymName(t)):
            raise Unsupported('dict comprehension that renames')
        return fv(x)
    if c.choose(2) == 1:
        # evaluating it fails at some name
        w = z3.Const(c.name('other_name'), V.NameS)
        c.assume(src.has(SymName(w)))
        c.witness(w)
        if keeps(w):
            val(w)
        raise PathEnd()

    class Kept:
        label = f'filtered:{lp.lid}:{c.name("f")}'

        def has(self, t):
            e = z3.simplify(src.has(SymName(t)))
            if not c.branch(e):
                return z3.BoolVal(False)
            return z3.BoolVal(keeps(t))

        def val(self, t):
            key = ('filtered', self.label, t.sexpr())
            if key not in c.cache:
                c.cache[key] = val(t)
            return c.cache[key]

        def card(self):
            raise Unsupported('the size of a filtered dict')
    return SymDict(Kept())


def genexp(lid, f, it, conds=()):
    return GenExp(lid, f, it, conds)


# ------------------------------------------------------------------------------------ built-ins
def _segs(it):
    if isinstance(it, GenExp):
        return it.lazy()
    if isinstance(it, SymDict):
        it = it.keys()
    return as_list(it).segs


def _val(v):
    return v.f() if isinstance(v, Thunk) else v


def _get(g, k):
    f = getattr(g, 'again', None)
    if getattr(g, 'names', None) is not None:
        return value_at(g, k)
    if f is not None:
        try:
            return g.get(k)
        except Unsupported:
            return f(k)
    return g.get(k)


def _quant(it, univ):
    """all() and any()."""
    c = ctx()
    for s in _segs(it):
        if s[0] == 'c':
            if bool(_val(s[1])) != univ:
                return not univ
            continue
        g = s[1]
        cond = getattr(g, 'cond', None)
        byname = _names_of(g)
        size = g.n if cond is not None else g.length
        item = g.raw if cond is not None else (lambda k: _get(g, k))

        def hits(k):
            """Whether the element at k decides the matter."""
            if cond is not None and not cond(k):
                return False
            return bool(item(k)) != univ
        if c.choose(2) == 1:
            # some element decides
            if byname is not None:
                w = z3.Const(c.name('witness_name'), V.NameS)
                c.assume(byname.has(SymName(w)))
                if not hits(w):
                    raise PathEnd()
                c.witness(w)
            else:
                if c.scout is not None and not c.scout_used:
                    w, c.scout_used = c.scout, True      # the arbitrary second position stands for it
                else:
                    w = z3.Int(c.name('witness_pos'))
                c.positions.append(w)
                c.assume(z3.And(w >= 0, w < size))
                if not hits(w):
                    raise PathEnd()
            return not univ

        # none does
        def u(w):
            if byname is not None and w.sort() == V.NameS:
                if c.branch(byname.has(SymName(w))) and hits(w):
                    raise PathEnd()
        if byname is not None:
            c.universal(u)
        else:
            for k in c.focus(g):
                if c.branch(z3.And(k >= 0, k < size)) and hits(k):
                    raise PathEnd()
            src = getattr(g, 'source', g)
            hook = getattr(src, 'every', None)
            if hook is not None:
                hook(hits)
    return univ


def exists(g):
    """Whether any item of a filtered list remains."""
    h = V.Filtered(g.n, lambda k: True, g.owner, g.cond)
    h.source = g
    return _quant(SymList([('g', h)]), False)


def _member(l, x):
    '''x in l'''
    return any_(SymList(lazy(lambda v: v is x or (False if x is None and isinstance(v, (bool, int, float, str, SymBool, SymInt)) else v == x), l)))


V.MEMBER = _member


def star(v, before, after):
    '''The parts of a, *b, c = v.'''
    l = as_list(v)
    n = l.length()
    if not bool(n >= before + after):
        raise ValueError('not enough values to unpack')
    end = n - after
    return tuple(l[i] for i in builtins.range(before)) + (l[before:end] if after else l[before:],) + tuple(l[n - after + i] for i in builtins.range(after))


def _names_of(g):
    while g is not None:
        if getattr(g, 'names', None) is not None:
            return g.names.d
        if getattr(g, 'byname', None) is not None:
            return g.byname[0]
        g = getattr(g, 'source', None)
    return None


def all_(it):
    return _quant(it, True)


def any_(it):
    return _quant(it, False)


def len_(x):
    if isinstance(x, (SymTuple, V.RevTuple, V.SortedShape, SymList, SymDict, SymView)):
        return x.length()
    if isinstance(x, LazySeq):
        raise TypeError('object of type generator has no len()')
    if isinstance(x, SymTensor):
        return x.sshape.at(z3.IntVal(0))
    return builtins.len(x)


_CLASSES = {list: SymList, dict: SymDict, tuple: SymTuple}


def python_number(x):
    """Whether a scalar of the state is a python number or, in compiled code, a tensor."""
    return z3.Bool('python number: ' + x.elem(()).sexpr())


def isinstance_(x, t):
    if isinstance(t, tuple):
        return builtins.any([isinstance_(x, u) for u in t])
    if isinstance(x, SymTree) and t is SymTensor:
        return ctx().branch(z3.Function('is_leaf_tree', V.TDS, V.Bool)(x.td))
    if isinstance(x, Opaque):
        h = getattr(type(x), 'vc_isinstance', None)
        if h is not None:
            return h(x, t)
        if t is list:
            return isinstance(x, SymList)
        if t is dict:
            return isinstance(x, SymDict)
        if t is tuple:
            return isinstance(x, SymTuple)
        if t is int:
            return isinstance(x, (SymInt, SymBool))
        if t is bool:
            return isinstance(x, SymBool)
        if t is float:
            return isinstance(x, SymTensor) and x.static and (not x.traced or ctx().branch(python_number(x)))
        if t is str:
            return isinstance(x, SymName)
        if t is SymTensor:
            return isinstance(x, SymTensor) and (not x.static or x.traced and not ctx().branch(python_number(x)))
        if t in (set, frozenset, bytes, complex, type(None)):
            return False
        if isinstance(x, SymTree) and t not in (SymTree,):
            raise Unsupported('type of an arbitrary tree')
        return builtins.isinstance(x, t)
    return builtins.isinstance(x, t)


isinstance = builtins.isinstance


class _type(type):
    pass


def issubclass_(x, t):
    if hasattr(builtins.type(x), 'vc_subclass'):
        return x.vc_subclass(t)
    if isinstance(x, Opaque) or isinstance(t, Opaque):
        raise Unsupported('issubclass')
    return builtins.issubclass(x, t)


def type_(*a):
    if len(a) != 1:
        return builtins.type(*a)
    x = a[0]
    h = getattr(builtins.type(x), 'vc_type', None)
    if h is not None:
        return h(x)
    if isinstance(x, V.AllOf):
        return SymTensor
    if isinstance(x, SymList):
        return list
    if isinstance(x, SymDict):
        return dict
    if isinstance(x, SymTuple):
        return tuple
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymTree):
        raise Unsupported('type of an arbitrary tree')
    return builtins.type(x)


def zip_(*its, strict=False):
    if not its:
        return LazySeq(SymList())
    ls = [as_list(i.keys() if isinstance(i, SymDict) else i).segs for i in its]
    if builtins.all(builtins.all(s[0] == 'c' for s in l) for l in ls):
        if strict and len({len(l) for l in ls}) > 1:
            raise ValueError('zip() argument is shorter')
        return LazySeq(SymList([('c', tuple(x[1] for x in row)) for row in builtins.zip(*ls)]))
    if not strict and builtins.any(not l for l in ls):
        return LazySeq(SymList())
    if builtins.all(len(l) == 1 and l[0][0] == 'g' for l in ls):
        gs = [l[0][1] for l in ls]
        if builtins.any(_names_of(g) is not None for g in gs):
            b = [_names_of(g) for g in gs]
            if builtins.all(x is not None for x in b) and builtins.all(_same_dict(b[0], x) for x in b[1:]):
                r = Group(gs[0].length, lambda k: V._unsup('position in a dict'), 'dict')
                r.names = ZipView(b[0], gs)
                return LazySeq(SymList([('g', r)]))
            if builtins.all(getattr(g, 'names', None) is not None and isinstance(x, SymDict) for g, x in builtins.zip(gs, b)):
                t = z3.Const('any name', V.NameS)
                if builtins.all(ctx().provable(b[0].has(SymName(t)) == x.has(SymName(t))) for x in b[1:]):
                    r = Group(gs[0].length, lambda k: V._unsup('position in a dict'), 'dict')
                    r.names = OtherOrder(b, gs)
                    return LazySeq(SymList([('g', r)]))
            raise Unsupported('zip over dicts')
        n = gs[0].length
        for g in gs[1:]:
            if not ctx().branch(n == g.length):
                if strict:
                    raise ValueError('zip() argument is shorter')
                n = z3.If(n <= g.length, n, g.length)
        r = Group(n, lambda k: tuple(g.get(k) for g in gs), gs[0].owner)
        for attr in ('sum', 'concat', 'head', 'after', 'every'):
            for g in gs:
                if getattr(g, attr, None) is not None:
                    setattr(r, attr, getattr(g, attr))
        r.tds = [td for g in gs for td in getattr(g, 'tds', ())]
        zh = [getattr(g, 'zipped', None) for g in gs]
        if zh[0] is not None:
            zh[0](r, gs)
        return LazySeq(SymList([('g', r)]))
    # a mixture: cut the symbolic ones
    if builtins.all(ctx().provable(int_term(SymList(l).length()) == int_term(SymList(ls[0]).length())) for l in ls[1:]):
        pass
    raise Unsupported('zip over partly symbolic sequences')


def _same_dict(a, b):
    return a is b or (a.base is b.base and len(a.log) == len(b.log) and builtins.all(x is y or x == y for x, y in builtins.zip(a.log, b.log)))


class ZipView:
    def __init__(self, d, gs):
        self.d, self.gs = d, gs

    def value(self, t):
        return tuple(value_at(g, t) if getattr(g, 'names', None) is not None else g.byname[1](t) for g in self.gs)


class OtherOrder:
    """Dicts of the same keys, each in an order of its own."""
    def __init__(self, ds, gs):
        self.d, self.ds, self.gs = ds[0], ds, gs

    def value(self, t):
        if not isinstance(t, z3.ExprRef):
            t = V.name_term(t)
        c, out = ctx(), []
        for d, g in builtins.zip(self.ds, self.gs):
            m = t
            if not _same_dict(d, self.d):
                m = z3.Function(f'in the order of {id(self.d.base)} and {id(d.base)}', V.NameS, V.NameS)(t)
                c.add(z3.Implies(self.d.has(SymName(t)), d.has(SymName(m))))
            out.append(g.names.value(m))
        return builtins.tuple(out)


def enumerate_(it, start=0):
    l = as_list(it.keys() if isinstance(it, SymDict) else it)
    out, off = [], mkint(int_term(start))
    for s in l.segs:
        if s[0] == 'c':
            out.append(('c', (off, s[1])))
            off = off + 1
        else:
            g = s[1]
            if getattr(g, 'names', None) is not None:
                r = Group(g.length, g.get, g.owner)
                r.names = EnumView(g.names)
            else:
                o = int_term(off)
                r = Group(g.length, (lambda g, o: lambda k: (mkint(z3.simplify(k + o)), g.get(k)))(g, o), g.owner)
                for attr in ('sum', 'concat', 'head', 'after', 'every', 'tds'):
                    if getattr(g, attr, None) is not None:
                        setattr(r, attr, getattr(g, attr))
            out.append(('g', r))
            off = mkint(int_term(off) + g.length)
    return LazySeq(SymList(out))


class EnumView:
    def __init__(self, v):
        self.v, self.d = v, v.d

    def value(self, t):
        return (SymInt(z3.Int(ctx().name('nth'))), self.v.value(t))


def map_(f, *its):
    z = zip_(*its) if len(its) > 1 else None
    if z is None:
        it = its[0]
        return GenExp('map', f, it, ())
    return GenExp('map', lambda row: f(*row), z, ())


def filter_(f, it):
    return GenExp('filter', lambda x: x, it, (f if f is not None else bool,))


def range_(*a):
    if builtins.all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        lo, hi = z3.IntVal(0), int_term(a[0])
    elif len(a) == 2:
        lo, hi = int_term(a[0]), int_term(a[1])
    else:
        raise Unsupported('stepped symbolic range')
    n = z3.simplify(z3.If(hi > lo, hi - lo, 0))
    g = Group(n, lambda k: mkint(z3.simplify(k + lo)), 'range')
    if z3.is_int_value(lo) and lo.as_long() == 0:
        # an index of the children of a node
        tds = ctx().cache.get('children_of', [])
        g.tds = [td for td in tds if ctx().provable(n == V.T_m(td))]
    return SymList([('g', g)])


def list_(it=()):
    if isinstance(it, SymList):
        return SymList(it.segs)
    return SymList(as_list(it.keys() if isinstance(it, SymDict) else it).segs)


def tuple_(it=()):
    if isinstance(it, SymTuple):
        return it
    l = as_list(it.keys() if isinstance(it, SymDict) else it)
    if l.concrete():
        return tuple(l.values())
    return l.as_tuple()


def dict_(*a, **kw):
    d = SymDict()
    if a:
        o = a[0]
        if isinstance(o, SymDict):
            d = o.copy()
        elif isinstance(o, dict):
            d.update(o)
        else:
            if isinstance(o, GenExp):
                lid, f, it, conds = o.parts
                return dictcomp(lid, lambda x: f(x)[0], lambda x: f(x)[1], it, conds)
            if isinstance(o, SymView) and o.kind == 'items':
                return o.d.copy()
            l = as_list(o)
            if not l.concrete():
                if len(l.segs) == 1 and _names_of(l.segs[0][1]) is not None:
                    g = l.segs[0][1]
                    lp = Loop('dict', SymList([('g', _byname(g))]))
                    for k, v in lp:
                        d[k] = v
                    lp.end()
                    return d
                raise Unsupported('dict() of a symbolic sequence')
            for k, v in l.values():
                d[k] = v
    d.update(**kw)
    return d


def _byname(g):
    r = Group(g.length, g.get, g.owner)
    r.names = ZipView1(_names_of(g), g)
    return r


class ZipView1:
    def __init__(self, d, g):
        self.d, self.g = d, g

    def value(self, t):
        return _get(self.g, t)


def dict_fromkeys(it, value=None):
    return dictcomp('fromkeys', lambda k: k, lambda k: value, it)


dict_.fromkeys = dict_fromkeys


def min_(*a, **k):
    if len(a) == 1 and not k:
        a = as_list(a[0]).values()
    if not k and builtins.any(isinstance(x, V.SymTensor) for x in a):
        r = a[0]
        for x in a[1:]:
            if x < r:
                r = x
        return r
    if not k and builtins.any(isinstance(x, Opaque) for x in a):
        r = int_term(a[0])
        for x in a[1:]:
            r = z3.If(int_term(x) < r, int_term(x), r)
        return mkint(r)
    return builtins.min(*a, **k)


def max_(*a, **k):
    if len(a) == 1 and not k:
        a = as_list(a[0]).values()
    if not k and builtins.any(isinstance(x, V.SymTensor) for x in a):
        r = a[0]
        for x in a[1:]:
            if x > r:
                r = x
        return r
    if not k and builtins.any(isinstance(x, Opaque) for x in a):
        r = int_term(a[0])
        for x in a[1:]:
            r = z3.If(int_term(x) > r, int_term(x), r)
        return mkint(r)
    return builtins.max(*a, **k)


def sum_(it, start=0):
    r = start
    for s in _segs(it):
        if s[0] == 'c':
            r = r + _val(s[1])
            continue
        g = s[1]
        src = getattr(g, 'source', g)
        sm = getattr(src, 'sum', None)
        if getattr(src, 'tds', None):
            sm = lambda pos, d: td_sum(src, pos, d)
        if sm is None:
            raise Unsupported('sum over a symbolic collection')
        k = z3.Int(ctx().name('any_pos'))
        ctx().assume(z3.And(k >= 0, k < g.length))
        v = sm(k, int_term(g.get(k)))
        if v is None:
            raise Unsupported('sum over a symbolic collection')
        r = mkint(int_term(r) + v)
    return r


def sorted_(it, **k):
    if isinstance(it, SymTuple) and not k and V.numbers(it) is None:
        return V.SortedShape(it)
    if isinstance(it, SymList) and not k and len(it.segs) == 1 and getattr(it.segs[0][1], 'shape', None) is not None and V.numbers(it.as_tuple()) is None:
        return V.SortedShape(it.as_tuple())
    l = as_list(it.keys() if isinstance(it, SymDict) else it)
    if l.concrete() and not builtins.any(isinstance(x, Opaque) for x in l.values()):
        return SymList([('c', x) for x in builtins.sorted(l.values(), **k)])
    if len(l.segs) == 1 and getattr(l.segs[0][1], 'names', None) is not None:
        return SymList(l.segs)
    raise Unsupported('sorted')


def reversed_(it):
    l = as_list(it)
    if l.concrete():
        return LazySeq(SymList(l.segs[::-1]))
    out = []
    for s in l.segs[::-1]:
        if s[0] == 'g' and getattr(s[1], 'names', None) is None:
            g = s[1]
            s = ('g', Group(g.length, (lambda g: lambda k: g.get(z3.simplify(g.length - 1 - k)))(g), g.owner))
        out.append(s)
    return LazySeq(SymList(out))


def set_(it=()):
    l = as_list(it.keys() if isinstance(it, SymDict) else it)
    if l.concrete() and not builtins.any(isinstance(x, Opaque) for x in l.values()):
        return builtins.set(l.values())
    return V.KeySet.of(it if isinstance(it, (SymDict, SymView, V.KeySet)) else l)


def iter_(it, *a):
    if a:
        raise Unsupported('iter with a sentinel')
    l = as_list(it.keys() if isinstance(it, SymDict) else it)
    if l.concrete():
        return builtins.iter(l.values())
    return LazySeq(SymList(l.segs))


def next_(it, *default):
    if isinstance(it, LazySeq):
        raise Unsupported('next() on a symbolic sequence')
    return builtins.next(it, *default)


def int_(*a, **k):
    if a and isinstance(a[0], SymInt):
        return a[0]
    if a and isinstance(a[0], Opaque):
        raise Unsupported('int()')
    return builtins.int(*a, **k)


def float_(*a):
    if a and isinstance(a[0], SymTensor):
        if a[0].static:
            if a[0].traced:
                ctx().events.append(('content-branch', 'float() of a value of the state'))
            return a[0]
        raise Unsupported('float() of a tensor')
    return builtins.float(*a)


def bool_(*a):
    if a and isinstance(a[0], (SymBool,)):
        return bool(a[0])
    return builtins.bool(*a)


def is_(a, b):
    if b is None:
        return a.vc_resolve() is None if builtins.isinstance(a, V.Maybe) else a is None
    for x, y in ((a, b), (b, a)):
        h = getattr(builtins.type(x), 'vc_is', None)
        if h is not None:
            return h(x, y)
    V.identity(a, b)
    return a is b


def in_(a, b):
    if isinstance(a, SymName) and isinstance(b, (builtins.dict, builtins.set, builtins.frozenset, builtins.type({}.keys()))):
        return builtins.any(builtins.bool(a == x) for x in b)
    return a in b


def attr_(f, *args):
    """setattr and the like, bound or not; for an attribute of arbitrary name only the attempt is recorded."""
    if builtins.any(isinstance(x, SymName) for x in args):
        if 'setattr' in f.__name__ or 'delattr' in f.__name__:
            ctx().events.append(('attribute', [x for x in args if isinstance(x, SymName)][0]))
            return None
        raise Unsupported(f'{f.__name__} of an arbitrary attribute')
    return f(*args)


class Identity(Opaque):
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Identity) and is_(self.x, o.x)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return builtins.id(self.x)


def id_(x):
    return Identity(x)


class TypeProxy:
    """A built-in type used as a constructor and as a class."""


def displays_list(*parts):
    out = SymList()
    segs = []
    for kind, v in parts:
        if kind == 'v':
            segs.append(('c', v))
        else:
            segs += as_list(v.keys() if isinstance(v, SymDict) else v).segs
    out.segs = segs
    return out


def displays_tuple(*parts):
    segs = []
    for kind, v in parts:
        if kind == 'v':
            segs.append(('c', v))
        elif isinstance(v, SymTuple):
            segs += v.items
        else:
            segs += as_list(v).segs
    if builtins.all(s[0] == 'c' for s in segs):
        return tuple(s[1] for s in segs)
    if builtins.all(s[0] != 'g' for s in segs):
        return SymTuple(segs)
    return SymList(segs).as_tuple()


def displays_dict(*parts):
    d = SymDict()
    for k, v in parts:
        if k is STAR:
            d.update(v)
        else:
            d[k] = v
    return d


STAR = object()


# --------------------------------------------------------------------------------- while loops
def _decided(r):
    if isinstance(r, SymBool):
        z = z3.simplify(r.z)
        return z3.is_true(z) or z3.is_false(z)
    return not isinstance(r, Opaque)


def while_(lid, cond, body, names, live):
    """Runs `while cond(state): state = body(state)`; the state is a dict of the variables assigned in the body.

    Returns the state on exit, or ('return', value) when the body returned.
    """
    c = ctx()
    state = dict(live)
    r = cond(state)
    n = 0
    while _decided(r):
        if not bool(r):
            return state
        state = body(state)
        n += 1
        if n > 200:
            raise Unsupported('long while loop')
        r = cond(state)
    key = ('while', lid)
    tpl = c.eng.memo.get(key)
    if tpl is None:
        if not bool(r):
            return state
        nxt = body(dict(state))
        c.eng.memo[key] = learn(state, nxt)
        raise Restart()
    # an arbitrary number of iterations
    k = z3.Int(c.name('iterations'))
    if not bool(r):
        return state
    c.assume(k >= 1)
    if c.choose(2) == 1:
        # the template is inductive: from its k-th value, one iteration leads to its next value
        gen = apply_template(tpl, state, k)
        rr = cond(gen)
        if not bool(rr):
            raise PathEnd()
        nxt = body(dict(gen))
        want = apply_template(tpl, state, k + 1)
        check_template(tpl, nxt, want)
        raise PathEnd()
    # exit after exactly k iterations
    before = apply_template(tpl, state, z3.simplify(k - 1))
    if not bool(cond(before)):
        raise PathEnd()
    out = apply_template(tpl, state, k)
    if bool(cond(out)):
        raise PathEnd()
    return out


def learn(s0, s1):
    """Template of what one iteration does: each variable unchanged, counted up or down, or given unit dimensions."""
    tpl = {}
    for n, v0 in s0.items():
        v1 = s1.get(n)
        if v1 is v0:
            tpl[n] = ('same',)
        elif isinstance(v0, (int, SymInt)) and isinstance(v1, (int, SymInt)) and not isinstance(v0, bool):
            d = z3.simplify(int_term(v1) - int_term(v0))
            if not z3.is_int_value(d):
                raise Unsupported('while loop without a summary')
            tpl[n] = ('linear', d.as_long())
        elif isinstance(v0, SymTensor) and isinstance(v1, SymTensor):
            a, b = v0.sshape.norm(), v1.sshape.norm()
            d = z3.simplify(v1.sshape.rank() - v0.sshape.rank())
            if not z3.is_int_value(d) or d.as_long() <= 0:
                raise Unsupported('while loop without a summary')
            tpl[n] = ('ones', d.as_long())
        elif isinstance(v0, (SymTuple, tuple)) and isinstance(v1, (SymTuple, tuple)):
            d = z3.simplify(V.as_shape(v1).rank() - V.as_shape(v0).rank())
            if not z3.is_int_value(d) or d.as_long() <= 0:
                raise Unsupported('while loop without a summary')
            tpl[n] = ('tones', d.as_long())
        elif isinstance(v0, Unbound):
            tpl[n] = ('temp',)
        else:
            tpl[n] = ('temp',)
    for n in s1:
        tpl.setdefault(n, ('temp',))
    return tpl


class Unbound:
    pass


def apply_template(tpl, state, k):
    import fakes
    out = {}
    for n, t in tpl.items():
        v = state.get(n)
        if t[0] == 'same':
            out[n] = v
        elif t[0] == 'linear':
            out[n] = mkint(int_term(v) + t[1] * k)
        elif t[0] == 'ones':
            out[n] = fakes.mk(SymTuple(v.sshape.norm() + [('rep', 1, z3.simplify(k * t[1]))]), len(fakes.keyed(v.sshape.norm())),
                              (lambda v: lambda ix: v.elem(ix))(v), v.dtype, v.weak)
        elif t[0] == 'tones':
            out[n] = SymTuple(V.as_shape(v).items + [('rep', 1, z3.simplify(k * t[1]))])
        else:
            out[n] = Havoc(n)
    return out


def check_template(tpl, got, want):
    import fakes
    c = ctx()
    for n, t in tpl.items():
        a, b = got.get(n), want[n]
        if t[0] == 'temp':
            continue
        if t[0] == 'same':
            ok = a is b
        elif t[0] == 'linear':
            ok = isinstance(a, (int, SymInt)) and c.provable(int_term(a) == int_term(b))
        elif t[0] == 'tones':
            ok = isinstance(a, (tuple, SymTuple)) and same_items(V.as_shape(a), V.as_shape(b))
        else:
            ok = isinstance(a, SymTensor) and same_items(a.sshape, b.sshape)
            if ok:
                ix = V.focus_index(b.sshape)
                x, y = a.elem(ix), b.elem(ix)
                ok = x.sort() == y.sort() and c.provable(x == y) and c.provable(a.dtype.z == b.dtype.z)
        if not ok:
            raise Unsupported('while loop without a summary')


def same_items(a, b):
    x, y = a.norm(), b.norm()
    return len(x) == len(y) and builtins.all(V.same_item(p, q) for p, q in builtins.zip(x, y))


BUILTINS = {'len': len_, 'all': all_, 'any': any_, 'isinstance': isinstance_, 'type': type_, 'issubclass': issubclass_, 'zip': zip_, 'enumerate': enumerate_,
            'map': map_, 'filter': filter_, 'range': range_, 'min': min_, 'max': max_, 'sum': sum_, 'sorted': sorted_, 'reversed': reversed_,
            'iter': iter_, 'next': next_}


def concrete_test(r):
    if isinstance(r, Opaque) and not (isinstance(r, (SymBool,)) and (z3.is_true(z3.simplify(r.z)) or z3.is_false(z3.simplify(r.z)))):
        raise Unsupported('while loop with breaks over symbolic values')
    return r


def pick(loc, names):
    return {n: loc[n] for n in names if n in loc}


def flat(v, pat):
    if pat is None:
        return [v]
    if not isinstance(v, tuple):
        v = as_list(v).values()
    if len(v) != len(pat):
        raise ValueError('wrong number of values to unpack')
    out = []
    for x, p in builtins.zip(v, pat):
        out += flat(x, p)
    return out
