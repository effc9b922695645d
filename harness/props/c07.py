"""C07 memoisation of computations on tensors."""
import sys

from .. import core


def run(ctx):
    import torch

    sys.path.insert(0, core.REPO + "/projects/torch_vct")
    import utils.memoize as memo

    ctx.design("Memo")
    ctx.design("Memo", "Memo_verdesign.cfg")
    edges = ctx.graph("Memo", "Memo_graph.cfg")
    modified = ctx.graph("Memo", "Memo_ver.cfg")
    ev = []
    ran = []

    @memo.memoize
    def f1(x, *a, **k):
        ran.append(1)
        return ("f1", val(x), val(a), val(sorted(k.items())))

    @memo.memoize
    def f2(x, *a, **k):
        ran.append(2)
        return ("f2", val(x), val(a), val(sorted(k.items())))

    def val(x):
        if isinstance(x, torch.Tensor):
            return float(x.sum())
        if isinstance(x, (list, tuple)):
            return tuple(val(v) for v in x)
        if isinstance(x, dict):
            return tuple(sorted((k, val(v)) for k, v in x.items()))
        if type(x).__name__ == "_Cache":
            return "cache"
        return x

    F = {1: f1, 2: f2}

    def call(f, key, args, kwargs, c, caches, case):
        ran.clear()
        g = memo.bind(F[f], caches[c]) if not (c == 0 and len(ev) % 2) else F[f]
        ok, res, err = core.guarded(g, *args, **kwargs)
        want = (f"f{f}", val(args[0]), val(args[1:]), val(sorted(kwargs.items())))
        ev.append(dict(op="call", case=case, f=f, key=key, c=c, ok=ok, err=err, ran=bool(ran), res=repr(res), want=repr(want),
                       hits=int(F[f].get_total_cache_hits(caches[c])) if c else 0))

    inplace = [lambda x: x.add_(1), lambda x: x.mul_(3), lambda x: x.__setitem__(0, 50.0), lambda x: x[1:].add_(2), lambda x: x.copy_(x + 5)]
    for gi, (graph, limit) in enumerate(((edges, ctx.pick(4000, 12000)), (modified, ctx.pick(6000, 20000)))):
        walks = core.covering_walks(graph, dict(mem=[], ver=[0, 0]), rng=ctx.rng, limit=limit)
        for wi, walk in enumerate(walks):
            caches = {0: None, 1: memo.create_cache(), 2: memo.create_cache()}
            objs = {1: torch.ones(3), 2: torch.ones(3)} if wi % 2 == 0 else {1: torch.ones(2), 2: torch.full((2,), 4.0)}
            ev.append(dict(op="reset", case=f"g{gi}w{wi}"))
            for si, e in enumerate(walk):
                a = e["act"]
                ctx.replayed += 1
                if a["name"] == "modify":
                    ctx.rng.choice(inplace)(objs[a["a"]])
                    continue
                call(a["f"], f'{a["a"]}v{e["src"]["ver"][a["a"] - 1]}', (objs[a["a"]],), {}, a["c"], caches, f"g{gi}w{wi}.{si}")
    # ---- structured arguments: what distinguishes calls
    t, u = torch.ones(3), torch.full((3,), 7.0)
    args = {
        "t": ((t,), {}), "u": ((u,), {}), "tu": ((t, u), {}), "ut": ((u, t), {}), "[t]": (([t],), {}), "[t,u]": (([t, u],), {}),
        "[u,t]": (([u, t],), {}), "t|k=u": ((t,), {"k": u}), "t|k=t": ((t,), {"k": t}), "t|j=u": ((t,), {"j": u}),
        "t|k=1": ((t,), {"k": 1}), "t|k=2": ((t,), {"k": 2}), "dict": (({"a": t, "b": u},), {}), "dict2": (({"a": u, "b": t},), {}),
        "nest": (([t, [u, (t,)]],), {}), "nest2": (([t, [t, (u,)]],), {}), "t5": ((t, 5), {}), "t6": ((t, 6), {}), "str": (("x",), {}),
        "t|j=1,k=2": ((t,), {"j": 1, "k": 2}), "t|k=1,j=2": ((t,), {"k": 1, "j": 2}), "none": ((None,), {}), "t|k=None": ((t,), {"k": None}),
    }
    for trial in range(ctx.pick(3, 12)):
        caches = {0: None, 1: memo.create_cache(), 2: memo.create_cache()}
        ev.append(dict(op="reset", case=f"s{trial}"))
        seq = [(f, k, c) for f in F for k in args for c in (1, 2, 0)] * 2
        ctx.rng.shuffle(seq)
        for f, k, c in seq:
            call(f, k, args[k][0], args[k][1], c, caches, f"s{trial}-{k}-c{c}")
    # cache objects passed along do not distinguish calls; keyword order does not either
    caches = {0: None, 1: memo.create_cache(), 2: memo.create_cache()}
    ev.append(dict(op="reset", case="cacheargs"))
    for kw, key in (({"cache": caches[1], "j": 1, "k": 2}, "jk"), ({"k": 2, "j": 1, "cache": caches[1]}, "jk"), ({"j": 1, "k": 2, "cache": caches[1]}, "jk")):
        call(1, key, (t,), kw, 1, caches, "cacheargs")
    # ---- what a call returns: nothing, falsy values, exceptions, results of other memoised calls
    made = []

    def make(val):
        @memo.memoize
        def f(x):
            made.append(1)
            if isinstance(val, Exception):
                raise val
            return val
        return f

    for name, v in (("none", None), ("zero", 0), ("false", False), ("empty", []), ("str", ""), ("value", 3)):
        for c in (memo.create_cache(), None):
            f = make(v)
            made.clear()
            out = [core.guarded(memo.bind(f, c), t) for _ in range(3)]
            ev.append(dict(op="odd", case=f"returns-{name}-{'cached' if c else 'uncached'}", same=all(o[0] and o[1] is v for o in out),
                           runs=len(made), want=1 if c else 3, hits=int(f.get_total_cache_hits(c)) if c else 0, wanthits=2 if c else 0))
    c = memo.create_cache()
    f = make(ValueError("no"))
    made.clear()
    out = [core.guarded(memo.bind(f, c), t) for _ in range(3)]
    ev.append(dict(op="odd", case="raises-every-time", same=all(not o[0] and o[2] == "ValueError" for o in out), runs=0, want=0,
                   hits=int(f.get_total_cache_hits(c)), wanthits=0))
    # functions that share a name; methods of two objects
    c = memo.create_cache()
    g1, g2 = make("one"), make("two")
    out = [memo.bind(g, c)(t) for g in (g1, g2, g1, g2)]
    ev.append(dict(op="odd", case="same-name", same=out == ["one", "two", "one", "two"], runs=0, want=0,
                   hits=int(g1.get_total_cache_hits(c) + g2.get_total_cache_hits(c)), wanthits=2))

    class Obj:
        def __init__(self, v):
            self.v, self.cache = v, "mine"

        @memo.memoize
        def get(self, x, cache=None):
            made.append(1)
            return (self.v, val(x))

    o1, o2 = Obj(1), Obj(2)
    made.clear()
    out = [memo.bind(o.get, c)(x) for o in (o1, o2, o1, o2) for x in (t, u)]
    ev.append(dict(op="odd", case="methods", same=out == [(v, val(x)) for v in (1, 2, 1, 2) for x in (t, u)], runs=len(made), want=4,
                   hits=int(Obj.get.get_total_cache_hits(c)), wanthits=4))

    @memo.memoize
    def h(x, cache=None, k=None):
        made.append(1)
        return (val(x) if not isinstance(x, Obj) else x.v, "cache" if type(cache).__name__ == "_Cache" else cache, k)

    made.clear()
    b = memo.bind(h, memo.create_cache())
    out = [b(t, cache=1), b(t, cache=2), b(t, cache=1), b(o1), b(o2), b(o1), b(t, k=o1), b(t, k=o2)]
    ev.append(dict(op="odd", case="things-called-cache", same=out == [(val(t), 1, None), (val(t), 2, None), (val(t), 1, None), (1, None, None), (2, None, None),
                   (1, None, None), (val(t), None, o1), (val(t), None, o2)], runs=len(made), want=6, hits=0, wanthits=0))
    # equal tensors are different arguments only if their identity matters; scalars as tensors
    z = [torch.tensor(float(i)) for i in (1, 2, 1)]
    made.clear()
    b = memo.bind(h, memo.create_cache())
    out = [b(x) for x in z + z]
    ev.append(dict(op="odd", case="scalar-tensors", same=[o[0] for o in out] == [1.0, 2.0, 1.0] * 2, runs=0, want=0, hits=0, wanthits=0))
    mixed = [torch.tensor(1.0), 1.0, torch.tensor(0.0), 0.0, torch.tensor([1.0]), "1.0"]
    @memo.memoize
    def kind(x):
        return type(x).__name__
    b = memo.bind(kind, memo.create_cache())
    out = [b(x) for x in mixed + mixed]
    ev.append(dict(op="odd", case="tensor-or-number", same=out == [type(x).__name__ for x in mixed] * 2, runs=0, want=0, hits=0, wanthits=0))
    # arguments that are equal or look alike but are different things
    alike = [[1, 2], (1, 2), 1, True, 1.0, {1: 2}, [(1, 2)], ((1, 2),), {}, [], (), "", 0, False, None, {"a": [1]}, {"a": (1,)}, [[1, 2]], [(1.0, 2)]]

    @memo.memoize
    def look(x, k=None):
        made.append(1)
        return repr(x) + repr(k)

    for rnd in range(ctx.pick(2, 8)):
        ctx.rng.shuffle(alike)
        made.clear()
        b = memo.bind(look, memo.create_cache())
        out = [b(x) for x in alike] + [b(t_, k=x) for t_ in (0,) for x in alike] + [b(x) for x in alike]
        want = [repr(x) + "None" for x in alike] + ["0" + repr(x) for x in alike] + [repr(x) + "None" for x in alike]
        ev.append(dict(op="odd", case=f"alike{rnd}", same=out == want, runs=len(made), want=2 * len(alike), hits=0, wanthits=0))
    # a tensor modified in place between calls, directly, inside a structure, or through a view of it
    changes = dict(add=lambda x: x.add_(1), fill=lambda x: x.fill_(9), item=lambda x: x.__setitem__(0, 5.0), mul=lambda x: x.mul_(3),
                   view=lambda x: x[1:].add_(2), copy=lambda x: x.copy_(torch.full((3,), 8.0)), zero=lambda x: x.zero_())
    for name, ch in changes.items():
        for wrap in (lambda x: x, lambda x: [x], lambda x: {"a": (x, u)}):
            x = torch.tensor([1.0, 2.0, 4.0])
            c = memo.create_cache()
            b = memo.bind(f1, c)
            out, want = [], []
            for step in (None, None, ch, None):
                if step is not None:
                    step(x)
                out.append(b(wrap(x)))
                want.append(("f1", val(wrap(x)), (), ()))
            ev.append(dict(op="odd", case=f"modified-in-place-{name}", same=out == want, runs=0, want=0, hits=int(f1.get_total_cache_hits(c)), wanthits=2))
    # ---- nested memoised calls through the same cache
    @memo.memoize
    def outer(x, cache):
        made.append("o")
        return memo.bind(inner, cache)(x, cache=cache) + memo.bind(inner, cache)(x, cache=cache)

    @memo.memoize
    def inner(x, cache):
        made.append("i")
        return val(x)

    made.clear()
    c = memo.create_cache()
    out = [memo.bind(outer, c)(x, cache=c) for x in (t, u, t)]
    ev.append(dict(op="odd", case="nested", same=out == [2 * val(t), 2 * val(u), 2 * val(t)], runs=len(made), want=4,
                   hits=int(outer.get_total_cache_hits(c) + inner.get_total_cache_hits(c)), wanthits=3))
    # ---- expectations
    for expect in (True, False):
        for hit in (True, False):
            c = memo.create_cache()
            if hit:
                memo.bind(f1, c)(t)
            ok, _, err = core.guarded(memo.bind(f1, c, expect_cache_hit=expect), t)
            ev.append(dict(op="expect", case=f"expect{expect}-hit{hit}", expect=expect, hit=hit, raised=not ok))
    # ---- dead arguments, recycled identities
    c = memo.create_cache()
    b = memo.bind(f1, c)
    for i in range(ctx.pick(400, 4000)):
        x = torch.full((4,), float(i))
        ev.append(dict(op="fresh", case=f"fresh{i}", res=repr(b(x)), want=repr(("f1", float(4 * i), (), ()))))
        del x
    for i in range(ctx.pick(200, 2000)):
        ev.append(dict(op="fresh", case=f"fresh-nested{i}", res=repr(b([torch.full((2,), float(i))], k={"a": torch.full((2,), 1.0 + i)})),
                       want=repr(("f1", (2.0 * i,), (), (("k", (("a", 2.0 * (1.0 + i)),)),)))))
    lst, dct = [None, 0], {}
    for i in range(ctx.pick(200, 2000)):
        lst[0] = None
        lst[0] = torch.full((2,), float(i))
        ev.append(dict(op="fresh", case=f"reused-list{i}", res=repr(b(lst)), want=repr(("f1", (2.0 * i, 0), (), ()))))
        dct.clear()
        dct["a"] = [torch.full((2,), float(i))]
        ev.append(dict(op="fresh", case=f"reused-dict{i}", res=repr(b(0, k=dct)), want=repr(("f1", 0, (), (("k", (("a", (2.0 * i,)),)),)))))
    ctx.validate("MemoTrace", ev)
