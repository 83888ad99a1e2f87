"""C35  Recursive and forward-referenced classes behave like any others."""
import collections
import dataclasses
import datetime
import typing

from props.common import *

BOUNDS = ("classes referring to themselves or each other through 13 kinds of containers, unions of four taggings and "
          "generic arguments, defined in every order (string annotations, decorated later, either class first, one "
          "undecorated, stacked decorators, inherited), with 16 class and field options; object graphs of depth three "
          "(thorough: four) with up to two children; annotations of every universe type written as text; values symbolic")
ASSUMPTIONS = ["names used in annotations are defined when the decorator is applied (documented)",
               "a class nested before it is decorated keeps the strict check of its constructor (known finding of C26)",
               "recursive type aliases and flattened recursive fields are not supported (infinite types)"]

DAY = datetime.date(2020, 1, 2)


def _prog():
    import symex_programs

    symex_programs.__dict__.update(typing=typing, collections=collections, datetime=datetime, Optional=typing.Optional,
                                   Union=typing.Union, dataclasses=dataclasses)
    return symex_programs


# label: (annotation of a field holding nodes N, how to make it from children, which children counts, mapping over it)
def _ident(x, f):
    return f(x)


def _many(x, f):
    return [f(e) for e in x]


def _map(x, f):
    return {k: f(e) for k, e in x.items()}


CONT = {
    "opt": ("Optional[{0}]", lambda c: c[0] if c else None, lambda x, f: None if x is None else f(x)),
    "pipe": ("{0} | None", lambda c: c[0] if c else None, lambda x, f: None if x is None else f(x)),
    "list": ("list[{0}]", list, _many),
    "dict": ("dict[str, {0}]", lambda c: {f"k{i}": e for i, e in enumerate(c)}, _map),
    "vtup": ("tuple[{0}, ...]", tuple, lambda x, f: type(x)(_many(x, f))),
    "tup": ("tuple[int, Optional[{0}]]", lambda c: (len(c), c[0] if c else None),
            lambda x, f: type(x)([x[0], None if x[1] is None else f(x[1])])),
    "optlist": ("Optional[list[{0}]]", lambda c: list(c) if c else None, lambda x, f: None if x is None else _many(x, f)),
    "listopt": ("list[Optional[{0}]]", lambda c: [None, *c], lambda x, f: [None if e is None else f(e) for e in x]),
    "dictlist": ("dict[str, list[{0}]]", lambda c: {"k": list(c)}, lambda x, f: {k: _many(v, f) for k, v in x.items()}),
    "listlist": ("list[list[{0}]]", lambda c: [[e] for e in c], lambda x, f: [_many(e, f) for e in x]),
    "ddict": ("collections.defaultdict[str, list[{0}]]",
              lambda c: collections.defaultdict(list, {f"k{i}": [e] for i, e in enumerate(c)}),
              lambda x, f: {k: _many(v, f) for k, v in x.items()}),
    "deque": ("collections.deque[{0}]", collections.deque, _many),
    "seq": ("typing.Sequence[{0}]", list, _many),
}


def _fields(ann, o):
    return [F("v_v", INT, opts=o.get("v", {})), F("k_k", INT, ann=ann, opts=o.get("k", {})),
            F("t_t", STR, None if "t" not in o else o["t"], ann=typing.Optional[str]),
            F("d_d", INT, DAY, ann=datetime.date)]


def _decorate(how, kw):
    import serde

    if how == "stack":
        kw = {"reuse_instances_default": True, **kw}  # as "serde"
        dkw = {k: v for k, v in kw.items() if k in ("rename_all", "reuse_instances_default", "deny_unknown_fields",
                                                    "type_check", "tagging")}
        kw = {k: v for k, v in kw.items() if k != "deny_unknown_fields"}
        return lambda c: serde.serialize(serde.deserialize(c, **dkw), **kw)
    return lambda c: serde.serde(c, **kw)


def _define(how, ann, o, kw, tag=""):
    """Classes of the family (top, member): the member is what the top's k_k holds."""
    import serde

    _prog()
    deco = _decorate(how, kw)
    raw = lambda n, to, bases=(): make_class(n, _fields(ann.format(to), o), bases=bases, deco=dataclasses.dataclass)  # noqa: E731
    if how in ("self", "stack"):
        return [deco(raw("Node" + tag, "Node" + tag))] * 2
    a, b = raw("NodeA" + tag, "NodeB" + tag), raw("NodeB" + tag, "NodeA" + tag)
    if how == "ab":
        deco(a), deco(b)
    elif how == "ba":
        deco(b), deco(a)
    elif how == "child":
        # the recursive field is inherited and refers to the base class
        base = deco(raw("Node" + tag, "Node" + tag))
        c = deco(make_class("NodeC" + tag, [F("e_e", INT, 5)], bases=(base,), deco=dataclasses.dataclass))
        return [c, base]
    return [a, b]


WIDE = set(CONT) - {"opt", "pipe", "tup"}
HOWS = ("self", "stack", "ab", "ba", "child")


def _tree(inp, classes, cont, depth, n="n", level=0):
    """(value of the top class, nested description)"""
    cls = classes[level % 2] if classes[1] is not classes[0] and "NodeC" not in classes[0].__name__ \
        else classes[min(level, 1)]
    kids = inp.choice(n + ".kids", 3 if level == 0 and cont in (WIDE if depth > 2 else ("list", "dictlist")) else 2) if level < depth else 0
    v, t = inp.int(n + ".v"), (inp.pick(n + ".t", [None, "t"]) if level == 1 else None)
    c = [_tree(inp, classes, cont, depth, f"{n}.{i}", level + 1) for i in range(kids)]
    return cls(v_v=v, k_k=CONT[cont][1](c), t_t=t)


def _wire(x, cont, key=lambda k: k, v=lambda v: v, drop=lambda k, v: False, d=lambda d: d):
    w = {"v_v": v(x.v_v), "k_k": CONT[cont][2](x.k_k, lambda e: _wire(e, cont, key, v, drop, d)), "t_t": x.t_t,
         "d_d": d(x.d_d)}
    if hasattr(x, "e_e"):
        w["e_e"] = x.e_e
    return {key(k): e for k, e in w.items() if not drop(k, e)}


def _tuple(x, cont):
    return (x.v_v, CONT[cont][2](x.k_k, lambda e: _tuple(e, cont)), x.t_t, x.d_d) + \
        ((x.e_e,) if hasattr(x, "e_e") else ())


def _camel(k):
    a, b = k.split("_")
    return a + b.upper()


def _feature(name):
    """(class options, field options, arguments of _wire)"""
    import serde

    none = lambda k, v: v is None  # noqa: E731
    return {
        "plain": ({}, {}, {}),
        "camel": ({"rename_all": "camelcase"}, {}, {"key": _camel}),
        "skipnone": ({"skip_if_none": True}, {}, {"drop": none}),
        "skipdef": ({"skip_if_default": True}, {}, {"drop": lambda k, v: (k == "t_t" and v is None) or k in ("d_d", "e_e")}),
        "fieldser": ({}, {"v": {"serializer": lambda v: v + 1, "deserializer": lambda v: v - 1}}, {"v": lambda v: v + 1}),
        "skipif": ({}, {"v": {"skip_if": lambda v: v > 9, "default": 12}}, {"drop": lambda k, v: k == "v_v" and v > 9}),
        "rename": ({}, {"k": {"rename": "kids"}}, {"key": lambda k: "kids" if k == "k_k" else k}),
        "alias": ({}, {"v": {"alias": ["w"]}}, {}),
        "deny": ({"deny_unknown_fields": True}, {}, {}),
        "coerce": ({"type_check": serde.coerce}, {}, {}),
        "disabled": ({"type_check": serde.disabled}, {}, {}),
        "noreuse": ({"reuse_instances_default": False}, {}, {"d": lambda d: d.isoformat()}),
    }[name]


FEATURES = ("plain", "camel", "skipnone", "skipdef", "fieldser", "rename", "alias", "deny", "coerce", "disabled",
            "noreuse")


def _nodes(how, cont, feat, depth):
    def build():
        kw, o, w = _feature(feat)
        return _define(how, CONT[cont][0], o, kw), w

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        classes, w = env
        if feat == "skipdef" and cont not in ("opt", "pipe", "optlist"):
            pass
        x = _tree(inp, classes, cont, depth)
        cls = type(x)
        want = _wire(x, cont, **w)
        what = inp.pick("what", ["dict", "tuple", "direct", "data", "bad"])
        if what == "dict":
            d = to_dict(x)
            check(same(d, want) and list(d) == list(want), "written at every depth")
            check(same(from_dict(cls, d), x), "read at every depth")
        elif what == "tuple":
            if feat in ("plain", "camel", "alias", "deny", "rename"):
                t = to_tuple(x)
                check(same(t, _tuple(x, cont)), "tuple at every depth")
                check(same(from_tuple(cls, t), x), "read from the tuple")
        elif what == "direct":
            check(same(to_dict([x, x]), [want, want]), "in a list passed directly")
            y = from_dict(dict[str, cls], {"k": want})
            check(same(y, {"k": x}), "type argument passed directly")
            y = from_dict(typing.Optional[cls], want)
            check(same(y, x), "optional passed directly")
        else:
            # one changed node one level below the root
            sub = [0]

            def change(e):
                z = _wire(e, cont, **w)
                if sub[0] == 0:
                    key = w.get("key", lambda k: k)("v_v")
                    if what == "bad":
                        z[key] = bad
                    elif feat == "alias":
                        z["w"] = z.pop("v_v")
                    elif feat not in ("deny",):
                        z["zz"] = 1
                    z.pop(w.get("key", lambda k: k)("t_t"), None)
                    e.t_t = None
                sub[0] += 1
                return z
            bad = inp.pick("bad", [None, "x", "7"]) if feat != "fieldser" else None
            k_k = CONT[cont][2](x.k_k, change)
            inp.assume(sub[0] > 0)
            want[w.get("key", lambda k: k)("k_k")] = k_k
            if what == "bad" and feat == "fieldser":
                inp.reach("end")
                return
            ok, y = attempt(lambda: from_dict(cls, want))
            if what == "data":
                check(ok and same(y, x), "unknown keys, aliases, missing defaults one level below")
            elif feat == "disabled":
                check(ok, "stored unchecked")
            elif feat == "coerce" and bad == "7":
                check(ok, "converted")
            else:
                check(not ok, "rejected one level below")
        inp.reach("end")

    return Harness(f"nodes:{how}:{cont}:{feat}:{depth}", build, run)


def _unions(how, tagging, shape):
    """Recursion through unions."""
    ann = {"one": "Union[{0}, int]", "list": "list[Union[{0}, int]]", "opt": "Optional[Union[{0}, int]]",
           "dict": "dict[str, Union[int, {0}]]"}[shape]

    def build():
        import serde

        tg = {"ext": serde.ExternalTagging, "int": serde.InternalTagging("t"), "adj": serde.AdjacentTagging("t", "c"),
              "un": serde.Untagged}[tagging]
        return _define(how, ann, {"t": "d"}, {"tagging": tg})

    def tag(e, w):
        n = type(e).__name__
        return {"ext": lambda: {n: w}, "int": lambda: {"t": n, **w}, "adj": lambda: {"t": n, "c": w}, "un": lambda: w}[tagging]()

    def wire(x):
        def item(e):
            return tag(e, wire(e)) if dataclasses.is_dataclass(e) else e
        k = x.k_k
        k = _many(k, item) if type(k) is list else _map(k, item) if type(k) is dict else item(k)
        return {"v_v": x.v_v, "k_k": k, "t_t": x.t_t, "d_d": x.d_d} | ({"e_e": x.e_e} if hasattr(x, "e_e") else {})

    def run(inp, classes):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        def tree(n, level):
            cls = classes[min(level, 1)] if how in ("self", "stack", "child") else classes[level % 2]
            leaf = inp.int(n + ".i")
            m = level < 2 and inp.flag(n + ".more")
            e = tree(n + ">", level + 1) if m else leaf
            k = {"one": lambda: e, "list": lambda: [leaf, e], "opt": lambda: e if m or inp.flag(n + ".some") else None,
                 "dict": lambda: {"a": leaf, "b": e}}[shape]()
            return cls(inp.int(n + ".v"), k, "d")

        x = tree("n", 0)
        d = to_dict(x)
        check(same(d, wire(x)), "documented representation at every depth")
        check(same(from_dict(type(x), d), x), "read back")
        if how != "child":
            check(same(from_tuple(type(x), to_tuple(x)), x), "tuple round trip")
        if isinstance(x.k_k, dict) and dataclasses.is_dataclass(x.k_k["b"]) and tagging in ("int", "adj"):
            d["k_k"]["b"]["t"] = "Nope"
            check(not attempt(lambda: from_dict(type(x), d))[0], "unknown tag")
        inp.reach("end")

    return Harness(f"unions:{how}:{tagging}:{shape}", build, run)


def _generic(cont, style):
    """A generic class which refers to itself with its own variable."""
    def build():
        import serde

        prog = _prog()
        ann = CONT[cont][0].format("Tree[T]")
        T = typing.TypeVar("T")
        prog.T = T
        if style == "695":
            prog.serde = serde
            exec(compile(f"@dataclasses.dataclass\nclass Tree[T]:\n    v: T\n    k: {ann!r}\n", "<program>", "exec"), prog.__dict__)
            tree = serde.serde(prog.Tree)
        else:
            tree = serde.serde(make_class("Tree", [F("v", INT, ann=T), F("k", INT, ann=ann)],
                                          bases=(typing.Generic[T],) if style == "generic" else (),
                                          deco=dataclasses.dataclass))
        i = inner()
        return tree, i.cls, make_class("TreeHost", [F("a", INT, ann=tree[int]), F("b", INT, ann=tree[i.cls]),
                                                    F("c", INT, ann=list[tree[typing.Optional[str]]])])

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        tree, i, host = env

        def mk(n, val, level=0):
            more = level < 2 and inp.flag(n + ".more")
            return tree(val(f"{n}.v"), CONT[cont][1]([mk(n + ">", val, level + 1)] if more else []))

        def wire(x):
            v = x.v
            if dataclasses.is_dataclass(v):
                v = {"i": v.i, "s": v.s}
            return {"v": v, "k": CONT[cont][2](x.k, wire)}

        which = inp.pick("which", ["int", "cls", "opt", "host"])
        vals = {"int": inp.int, "cls": lambda n: i(inp.int(n), "s"), "opt": lambda n: inp.pick(n, [None, "s"])}
        if which == "host":
            x = host(mk("a", vals["int"]), mk("b", vals["cls"]), [])
            d = to_dict(x)
            check(same(d, {"a": wire(x.a), "b": wire(x.b), "c": []}), "written")
            check(same(from_dict(host, d), x), "read")
            check(same(from_tuple(host, to_tuple(x)), x), "tuple")
        else:
            x = mk("x", vals[which])
            arg = {"int": int, "cls": i, "opt": typing.Optional[str]}[which]
            d = to_dict(x)
            check(same(d, wire(x)), "written")
            check(same(from_dict(tree[arg], d), x), "read")
            check(same(from_tuple(tree[arg], to_tuple(x)), x), "tuple")
        inp.reach("end")

    return Harness(f"generic:{cont}:{style}", build, run)


def _text(label, th):
    """The annotation written as text (as with "from __future__ import annotations")."""
    def build():
        import serde

        prog = _prog()
        sp = th()
        prog.TextType = sp.py
        mk = lambda n, ann, **o: make_class(n, [F("a", INT), F("x", sp, ann=ann), F("o", NONE, None, ann="Optional[int]")], **o)  # noqa: E731
        return sp, mk("Text", "TextType"), mk("TextC", "TextType", rename_all="camelcase", skip_if_none=True)

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        sp, cls, cc = env
        v, a = sp.draw(inp, "x"), inp.int("a")
        x = cls(a, v, None)
        d = to_dict(x)
        check(same(d, {"a": a, "x": sp.wire(v), "o": None}), "written")
        check(same(to_dict(cc(a, v, 3)), {"a": a, "o": 3} if v is None else {"a": a, "x": sp.wire(v), "o": 3}),
              "written with options")
        check(same(from_dict(cls, d), x), "read")
        check(same(from_tuple(cls, to_tuple(x)), x), "tuple")
        check(not attempt(lambda: from_dict(cls, {"a": "z", "x": d["x"]}))[0], "checked")
        inp.reach("end")

    return Harness(f"text:{label}", build, run)


def harnesses(tier):
    out = []
    full = tier == "thorough"
    for h in HOWS:
        for i, c in enumerate(CONT):
            for j, f in enumerate(FEATURES):
                if f == "disabled" and h in ("ab", "ba"):
                    continue
                if full or (h == "self" and (f == "plain" or c in ("opt", "list"))) or (i * 3 + j + HOWS.index(h)) % 13 == 0:
                    out.append(_nodes(h, c, f, 3 if full else 2))
        out += [_unions(h, t, s) for t in ("ext", "int", "adj", "un") for s in ("one", "list", "opt", "dict")
                if full or h in ("self", "ab") or s == "one"]
    out += [_generic(c, s) for c in CONT for s in ("generic", "695") if full or c in ("opt", "list", "dict", "vtup", "tup", "deque")]
    return out + [_text(l, t) for l, t in universe("thorough" if full else "core")]
