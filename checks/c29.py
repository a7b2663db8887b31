"""C29 - every class built on the state tracking obeys its declared order of steps."""
import itertools
import warnings

from fsmc.core import expect
from flowstab.state_tracking import OrderedEnum, StateMeta

PROPERTY = "C29"
RULE = ("classes declared with the state tracking: every order in which 2-4 states with different values are defined, chains of steps "
        "(with and without return value, one that leads back, one that keeps the state), every assignment of up to 2 settings to "
        "states, with and without None as a value, settings before or after the steps; for every class every reachable state "
        "(current state x settings set) and in it every setter (value, None, failing) and every step (succeeding, failing), next to "
        "a second and third object of the class; a case is non-trivial when its model state is new")
ASSUMPTIONS = ["every state is the start or the result of a step, and each step leads from a state to one at most one higher",
               "settings and steps are declared in the order of their states"]
CHUNK = 2
register = StateMeta.register


def make_enum(values):
    return OrderedEnum("S", [(f"S{v}", v) for v in values])


class Boom(Exception):
    pass


def make_class(spec):
    """(class, steps [(name, minimal value, next value, return)], settings [(name, next value, ignore_none)])"""
    E = make_enum(spec["values"])
    order = sorted(spec["values"])
    st = [(f"go{i}", order[i], order[i + 1]) for i in range(len(order) - 1)]
    if spec["extra"] == "back":
        st.append(("reset", order[-1], order[0]))
    elif spec["extra"] == "stay":
        st.append(("stay", order[-1], order[-1]))
    ns_m, ns_p = {}, {}
    steps = []
    for i, (name, lo, hi) in enumerate(st):
        ret = [None, "self", 0][(i + spec["ret"]) % 3]

        def f(self, a, b=2, *, fail=False, _name=name, _ret=ret):
            """Documentation of a step."""
            if fail:
                raise Boom(_name)
            self.log.append((_name, a, b))
            return self if _ret == "self" else _ret
        f.__name__ = name
        ns_m[name] = register(minimal_state=E(lo), next_state=E(hi))(f)
        steps.append((name, lo, hi, ret))
    props = []
    for i, (at, ign) in enumerate(spec["props"]):
        name = f"p{i}"

        def get(self, _n="_" + name):
            """Documentation of a setting."""
            return getattr(self, _n, None)

        def put(self, v, _n="_" + name):
            """How to set it."""
            if v == "boom":
                raise Boom(_n)
            setattr(self, _n, v)
        get.__name__ = put.__name__ = name
        kw = {} if ign else dict(ignore_none=False)
        ns_p[name] = register(next_state=E(order[at]), **kw)(property(get).setter(put))
        props.append((name, order[at], ign))

    def init(self, x, *, y=3):
        self.log = [("init", x, y)]
    ns = dict(**ns_p, **ns_m) if spec["first"] == "props" else dict(**ns_m, **ns_p)
    ns = dict(__doc__="Example.", __init__=init, helper=lambda self: "helper", **ns)
    cls = StateMeta("Example", (), ns, states=E)
    return E, cls, steps, props


def specs(tier):
    orders = [p for n in (2, 3) for p in itertools.permutations([0, 2, 1][:n] if n == 3 else [0, 1])]
    orders += [(10, 5, 7, 1), (1, 5, 7, 10), (-1, 0, 1)]
    if tier == "thorough":
        orders += list(itertools.permutations((3, 1, 4, 2)))
    for values in orders:
        n = len(values)
        one = [((a, i),) for a in range(n) for i in (True, False)]
        two = [((a, i), (b, j)) for a in range(n) for b in range(a, n) for i in (True, False) for j in (True, False)]
        for k, props in enumerate([()] + one + two):
            for extra in (None, "back", "stay"):
                yield dict(values=list(values), props=[list(p) for p in props], extra=extra, ret=k % 3, first=("props", "steps")[k % 2])


def cases(tier):
    batch = list(specs(tier))
    for i in range(0, len(batch), 6):
        yield dict(kind="machine", specs=batch[i:i + 6])
    yield dict(kind="enum")


# model state: (current value, frozenset of set settings)

def model(steps, props, s, op):
    """(reaction, next state)"""
    cur, have = s
    kind, name, arg = op
    if kind == "set":
        p = next(p for p in props if p[0] == name)
        if arg == "boom":
            return "Boom", s
        have = have - {name} if arg is None and p[2] else have | {name}
        return "set", (min(cur, p[1]), have)
    st = next(x for x in steps if x[0] == name)
    if cur < st[1]:
        return "early", s
    if any(p[1] <= st[1] and p[0] not in have for p in props):
        return "missing", s
    if arg:
        return "Boom", s
    return "ran", (st[2], have)


def apply(obj, op, steps, props, s, what):
    kind, name, arg = op
    before = list(obj.log)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            if kind == "set":
                setattr(obj, name, arg)
                got, ret = "set", None
            else:
                ret = getattr(obj, name)(7, b=len(before), fail=arg)
                got = "ran"
        except Boom:
            got, ret = "Boom", None
    said = [str(w.message) for w in ws]
    if kind == "step" and got != "Boom":
        st = next(x for x in steps if x[0] == name)
        if said:
            got = "early" if s[0] < st[1] else "missing"
            expect(obj.log == before, f"{what}: warned {said} and ran all the same")
            expect(ret is None, f"{what}: warned and returned {ret!r}")
            if got == "missing":
                for p in props:
                    lacking = p[1] <= st[1] and p[0] not in s[1]
                    expect((p[0] in said[0]) == lacking, f"{what}: setting {p[0]} lacking: {lacking}, but the warning says {said[0]!r}")
            expect(name in said[0], f"{what}: warning does not name the step: {said[0]!r}")
        else:
            expect(obj.log == before + [(name, 7, len(before))], f"{what}: not executed once as called: {obj.log}")
            want = obj if st[3] == "self" else st[3]
            expect(ret is want, f"{what}: returned {ret!r} instead of {want!r}")
    elif kind == "set":
        expect(not said, f"{what}: warned {said}")
        if got == "set":
            expect(getattr(obj, name) == arg, f"{what}: reads back {getattr(obj, name)!r}")
    return got


def agree(E, obj, steps, props, s, what):
    cur, have = s
    st = obj.state
    expect(st.current is E(cur), f"{what}: state {st.current} instead of {E(cur)}")
    for p in props:
        expect(bool(st.properties_set[p[0]]) == (p[0] in have), f"{what}: setting {p[0]} set: {st.properties_set[p[0]]}")
    lack = [p[0] for p in props if p[1] <= cur and p[0] not in have]
    nxt = [x[0] for x in steps if x[1] <= cur][-1]
    expect(list(st.missing_parameters) == lack, f"{what}: missing settings {st.missing_parameters} instead of {lack}")
    miss, step = st.next
    expect(list(miss) == lack and step == nxt, f"{what}: next is {(miss, step)} instead of {(lack, nxt)}")


def machine(case, ctx):
    for spec in case["specs"]:
        E, cls, steps, props = make_class(spec)
        start = (min(spec["values"]), frozenset())
        ops = [("set", p[0], v) for p in props for v in (1, 0, None, "boom")] + [("step", x[0], f) for x in steps for f in (False, True)]
        bystander = cls(0)
        seen, todo = {start: []}, [start]
        while todo:
            s = todo.pop(0)
            ctx.state(repr((spec, s[0], sorted(s[1]))))
            for op in ops:
                what = f"class {spec}: after {seen[s]}: {op}"
                obj, cur = cls(1, y=2), start
                expect(obj.log == [("init", 1, 2)], f"{what}: constructor {obj.log}")
                agree(E, obj, steps, props, cur, f"{what}: new object")
                for o in seen[s]:
                    want, nxt = model(steps, props, cur, o)
                    got = apply(obj, o, steps, props, cur, what)
                    expect(got == want, f"{what}: {o}: {got} instead of {want}")
                    cur = nxt
                other = cls(5)
                agree(E, obj, steps, props, cur, f"{what}: before it, with another object made")
                want, n = model(steps, props, cur, op)
                got = apply(obj, op, steps, props, cur, what)
                expect(got == want, f"{what}: {got} instead of {want}")
                agree(E, obj, steps, props, n, what)
                agree(E, other, steps, props, start, f"{what}: another object")
                agree(E, bystander, steps, props, start, f"{what}: an older object")
                ctx.step()
                ctx.trace()
                ctx.outcome(repr((spec["values"], spec["extra"], s[0], op[0], want)))
                if n not in seen:
                    seen[n] = seen[s] + [op]
                    todo.append(n)
        obj = cls(1)
        expect(obj.helper() == "helper", f"class {spec}: other methods changed")
        for x in steps:
            f = getattr(cls, x[0])
            expect(f.__name__ == x[0] and f.__doc__ == "Documentation of a step.", f"class {spec}: documentation of {x[0]} lost")
            expect("Documentation of a step." in obj.state.info[x[0]], f"class {spec}: no information on {x[0]}")
        for p in props:
            expect(getattr(cls, p[0]).__doc__ == "Documentation of a setting.", f"class {spec}: documentation of {p[0]} lost")
            expect("Documentation of a setting." in obj.state.info[p[0]] and "How to set it." in obj.state.howto[p[0]],
                   f"class {spec}: no information on {p[0]}")


def enum(case, ctx):
    for values in itertools.permutations((3, -1, 2.5, 10)):
        E = make_enum(values)
        F = make_enum(values)
        for a, b in itertools.product(E, repeat=2):
            for name, got, want in (("<", a < b, a.value < b.value), ("<=", a <= b, a.value <= b.value), (">", a > b, a.value > b.value),
                                    (">=", a >= b, a.value >= b.value), ("==", a == b, a.value == b.value), ("!=", a != b, a.value != b.value)):
                expect(got is want, f"{a} {name} {b} is {got}")
            ctx.step()
            ctx.state(repr((values, a.value, b.value)))
        expect([m.value for m in sorted(E)] == sorted(values), f"states {values} are sorted as {sorted(E)}")
        expect(min(E).value == min(values) and max(E).value == max(values), f"states {values}: extremes")
        expect(len({*E}) == len(values) and {m: m.name for m in E}[E(3)] == "S3", f"states {values}: not usable as keys")
        for a in E:
            expect(a != F(a.value) and a.name in str(a) and str(a.value) in str(a), f"{a} compared with a state of another class or printed wrongly")
            try:
                a < F(3)
                expect(False, f"{a} ordered against a state of another class")
            except TypeError:
                pass
        ctx.trace()
        ctx.outcome(repr(values))


def check(case, ctx):
    globals()[case["kind"]](case, ctx)
