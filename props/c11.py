"""C11  Class-wide skip options and skip_none."""
from props.common import *
from symex.api import ReplayInputs

BOUNDS = ("every type shape of the universe as field of a class with skip_if_none / skip_if_default, "
          "the API option skip_none over every nesting position; unbounded symbolic leaf values "
          "(finite pools where values are hashed or parsed by C code)")
ASSUMPTIONS = ["TOML serialization itself is checked on values the format can express"]


def _mk(spec):
    return lambda: spec.draw(ReplayInputs(), "d")


def _class(label, th):
    """skip_if_default / skip_if_none of the class, per field overrides."""
    def build():
        spec = th()
        mk = _mk(spec)
        opt = isinstance(spec, (Opt,)) or spec is NONE
        ann = spec.py if opt or spec.py is typing.Any else typing.Optional[spec.py]
        fields = lambda: [  # noqa: E731
            F("v", spec, ann=ann, factory=mk), F("n", spec, ann=ann, default=None),
            F("e", spec, ann=ann, factory=mk, opts={"skip_if_default": False, "skip_if_none": False}),
            F("z", INT, default=7)]
        return spec, mk, [make_class("CD", fields(), skip_if_default=True),
                          make_class("CN", fields(), skip_if_none=True),
                          make_class("CB", fields(), skip_if_none=True, skip_if_default=True),
                          make_class("C0", fields())]

    def run(inp, env):
        from serde import from_dict, to_dict

        spec, mk, clss = env
        k = inp.choice("cls", 4)
        which = inp.pick("f", ["v", "n", "e"])
        val = spec.draw(inp, "v") if inp.flag("some") else None
        x = clss[k](z=inp.int("z"))
        setattr(x, which, val)
        sn = inp.flag("skip_none")
        d = to_dict(x, skip_none=sn)
        keys = []
        by_default, by_none = k in (0, 2), k in (1, 2)
        for n in ("v", "n", "e"):
            v = getattr(x, n)
            dv = None if n == "n" else mk()
            if n != "e" and by_default and bool(v == dv):
                continue
            if v is None and (sn or n != "e" and by_none):
                continue
            keys.append(n)
            check(same(d.get(n), None if v is None else spec.wire(v, WireOpts(skip_none=sn))) and n in d, f"{n} is written")
        if not (by_default and bool(x.z == 7)):
            keys.append("z")
            check(same(d["z"], x.z), "z is written")
        check(same(list(d), keys), "exactly None or default fields are omitted")
        if k == 0 and not sn and not isinstance(x.v, collections.Counter):  # Counter(k=0) == Counter()
            y = from_dict(clss[0], to_dict(x, reuse_instances=False, convert_sets=True),
                          reuse_instances=False)
            check(same(y, x) if which != "e" else same(y.e, x.e), "and come back")
        inp.reach("end")

    return Harness(f"class:{label}", build, run)


def _leafcls(**opts):
    return make_class("Leaf", [F("x", Opt(INT), default=None), F("y", Opt(STR), default=None)], **opts)


POS = {
    "direct": lambda c: (c, lambda v: v, lambda d: d),
    "list": lambda c: (list[c], lambda v: [v], lambda d: [d]),
    "dict": lambda c: (dict[str, c], lambda v: {"k": v}, lambda d: {"k": d}),
    "tuple": lambda c: (tuple[int, c], lambda v: (1, v), lambda d: (1, d)),
    "vtuple": lambda c: (tuple[c, ...], lambda v: (v, v), lambda d: (d, d)),
    "opt": lambda c: (typing.Optional[c], lambda v: v, lambda d: d),
    "deque": lambda c: (collections.deque[c], lambda v: collections.deque([v]), lambda d: [d]),
    "listlist": lambda c: (list[list[c]], lambda v: [[v]], lambda d: [[d]]),
    "optlist": lambda c: (typing.Optional[list[c]], lambda v: [v], lambda d: [d]),
    "dictlist": lambda c: (dict[str, list[c]], lambda v: {"k": [v]}, lambda d: {"k": [d]}),
    "listopt": lambda c: (list[typing.Optional[c]], lambda v: [v, None], lambda d: [d, None]),
    "dictopt": lambda c: (dict[str, typing.Optional[c]], lambda v: {"k": v, "n": None},
                          lambda d: {"k": d, "n": None}),
    "union": lambda c: (typing.Union[c, int], lambda v: v, lambda d: {"Leaf": d}),
    "union3": lambda c: (typing.Union[str, list[c], int], lambda v: [v], lambda d: [d]),
    "optunion": lambda c: (typing.Union[c, int, None], lambda v: v, lambda d: {"Leaf": d}),
    "listunion": lambda c: (list[typing.Union[c, int]], lambda v: [v, 1], lambda d: [{"Leaf": d}, 1]),
    "any": lambda c: (typing.Any, lambda v: v, lambda d: d),
    "seq": lambda c: (typing.Sequence[c], lambda v: [v], lambda d: [d]),
    "defaultdict": lambda c: (collections.defaultdict[str, c],
                              lambda v: collections.defaultdict(c, {"k": v}), lambda d: {"k": d}),
}


def _api(pos, kind):
    """skip_none reaches every nested instance, and only fields."""
    def build():
        leaf = _leafcls()
        host_opts = {}
        ann, up, wire = POS[pos](leaf)
        if kind == "kwhost":
            fs = [F("p", INT, ann=ann, opts={"kw_only": True}), F("q", Opt(INT), default=None)]
        elif kind == "generic":
            T = typing.TypeVar("T")
            g = make_class("GenH", [F("p", INT, ann=T), F("q", Opt(INT), default=None)],
                           bases=(typing.Generic[T],))
            return leaf, g, up, wire
        elif kind == "transparent":
            t = make_class("TrH", [F("t", INT, ann=ann)], transparent=True)
            return leaf, (make_class("OutH", [F("p", INT, ann=t), F("q", Opt(INT), default=None)]), t), \
                up, wire
        else:
            fs = [F("p", INT, ann=ann), F("q", Opt(INT), default=None)]
            if kind == "coerce":
                host_opts = {"type_check": __import__("serde").coerce}
            if kind == "camel":
                host_opts = {"rename_all": "pascalcase"}
        return leaf, make_class("HostN", fs, **host_opts), up, wire

    def run(inp, env):
        from serde import to_dict

        leaf, host, up, wire = env
        x = leaf(inp.int("x") if inp.flag("x?") else None, inp.str("y") if inp.flag("y?") else None)
        q = inp.int("q") if inp.flag("q?") else None
        sn = inp.flag("skip_none")
        if isinstance(host, tuple):
            h = host[0](host[1](up(x)), q)
        elif kind == "kwhost":
            h = host(p=up(x), q=q)
        else:
            h = host(up(x), q)
        w = {k: v for k, v in (("x", x.x), ("y", x.y)) if not (sn and v is None)}
        exp = {"p": wire(w)}
        if not (sn and q is None):
            exp["q"] = q
        if kind == "camel":
            exp = {k.upper(): v for k, v in exp.items()}
        check(same(to_dict(h, skip_none=sn), exp), "field of a class")
        if pos in ("direct", "list", "dict", "tuple", "vtuple", "deque", "listlist", "dictlist",
                   "listopt"):
            check(same(to_dict(up(x), skip_none=sn), wire(w)), "passed directly")
        inp.reach("end")

    return Harness(f"api:{kind}:{pos}", build, run)


def _tagging(tag):
    def build():
        import serde

        leaf = _leafcls()
        t = {"External": serde.ExternalTagging, "Internal": serde.InternalTagging("t"),
             "Adjacent": serde.AdjacentTagging("t", "c"), "Untagged": serde.Untagged}[tag]
        return leaf, t, make_class("TagH", [F("u", INT, ann=typing.Union[leaf, int]),
                                            F("l", INT, ann=list[typing.Union[leaf, None, int]])],
                                   tagging=t)

    def run(inp, env):
        from serde import to_dict

        leaf, t, cls = env
        x = leaf(inp.int("x") if inp.flag("x?") else None, None)
        sn = inp.flag("skip_none")
        w = {k: v for k, v in (("x", x.x), ("y", None)) if not (sn and v is None)}
        e = {"External": {"Leaf": w}, "Internal": {**w, "t": "Leaf"},
             "Adjacent": {"c": w, "t": "Leaf"}, "Untagged": w}[tag]
        check(same(to_dict(cls(x, [x, None]), skip_none=sn), {"u": e, "l": [e, None]}), "in unions")
        inp.reach("end")

    return Harness(f"tagging:{tag}", build, run)


def _toml():
    """to_toml omits None by default; to_json and the others write null by default."""
    def build():
        leaf = make_class("LeafT", [F("x", Opt(INT), default=None), F("s", Opt(STR), default=None)])
        host = make_class("HostT", [F("a", Opt(INT)), F("l", INT, ann=typing.Optional[leaf]),
                                    F("k", INT, ann=list[leaf]), F("m", INT, ann=dict[str, leaf]),
                                    F("u", INT, ann=typing.Union[leaf, int])])
        return leaf, host

    def run(inp, env):
        import json
        import tomllib

        import serde.json
        import serde.toml
        import serde.yaml
        from serde import to_dict

        leaf, host = env
        ps = [1, None]
        mk = lambda n: leaf(inp.pick(n + "x", ps), inp.pick(n + "s", ["a", None]))  # noqa: E731
        v = mk("v")
        h = host(inp.pick("a", ps), v if inp.flag("l?") else None, [v], {"k": v}, v)
        check(same(tomllib.loads(serde.toml.to_toml(h)), to_dict(h, skip_none=True)), "toml")
        full = to_dict(h)
        check(len(full) == 5 and len(full["k"][0]) == 2, "to_dict keeps None by default")
        check(same(json.loads(serde.json.to_json(h)), full), "json keeps None by default")
        check(same(json.loads(serde.json.to_json(h, skip_none=True)), to_dict(h, skip_none=True)),
              "json with skip_none")
        import yaml

        check(same(yaml.safe_load(serde.yaml.to_yaml(h)), full), "yaml")
        check(same(yaml.safe_load(serde.yaml.to_yaml(h, skip_none=True)),
                   to_dict(h, skip_none=True)), "yaml with skip_none")
        check(same(serde.toml.from_toml(host, serde.toml.to_toml(h)), h), "toml round trip")
        inp.reach("end")

    return Harness("toml", build, run)


def _inherit():
    """The option is per class: not inherited by undecorated options, not applied to siblings."""
    def build():
        base = make_class("IB", [F("x", Opt(INT), default=None)], skip_if_none=True)
        sub = make_class("IS", [F("y", Opt(INT), default=None)], bases=(base,))
        sub2 = make_class("IS2", [F("y", Opt(INT), default=None)], bases=(base,), skip_if_default=True)
        holder = make_class("IH", [F("b", INT, ann=base), F("s", INT, ann=sub), F("o", Opt(INT))])
        holder2 = make_class("IH2", [F("b", INT, ann=base), F("s", INT, ann=sub), F("o", Opt(INT))],
                             skip_if_none=True)
        return base, sub, sub2, holder, holder2

    def run(inp, env):
        from serde import to_dict

        base, sub, sub2, holder, holder2 = env
        a = inp.int("a") if inp.flag("a?") else None
        b = inp.int("b") if inp.flag("b?") else None
        s = sub(a, b)
        full = {"x": a, "y": b}
        cut = {k: v for k, v in full.items() if v is not None}
        check(same(to_dict(s), full), "a subclass has its own setting")
        check(same(to_dict(sub2(a, b)), cut), "its own setting")
        check(same(to_dict(base(a)), {} if a is None else {"x": a}), "the parent keeps its setting")
        o = {"b": {} if a is None else {"x": a}, "s": full}
        check(same(to_dict(holder(base(a), s, b)), {**o, "o": b}), "children keep their settings")
        check(same(to_dict(holder2(base(a), s, b)), o if b is None else {**o, "o": b}), "parent set")
        inp.reach("end")

    return Harness("inherit", build, run)


def harnesses(tier):
    u = [(l, t) for l, t in universe(tier) if "alias" not in l]
    if tier == "quick":
        u = [(l, t) for l, t in u if not l.startswith(("ss_I", "ss_P", "enum_I", "typing_"))
             and l.count("<") < 2]
    out = [_class(l, t) for l, t in u]
    for kind in ("plain", "coerce", "camel", "kwhost", "generic", "transparent"):
        for pos in POS:
            if kind == "generic" and ("union" in pos or "opt" in pos):
                continue
            out.append(_api(pos, kind))
    out += [_tagging(t) for t in ("External", "Internal", "Adjacent", "Untagged")]
    return out + [_toml(), _inherit()]
