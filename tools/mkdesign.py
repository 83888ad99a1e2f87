"""Writes DESIGN.md: design_head.md, one section per property (from the modules), design_tail.md
and the table of planted bugs (seeded/*/meta.json)."""
import ast
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[json.loads(l) for l in open(H+'/properties.jsonl')]
how={
"C01":("from_dict(to_dict(x)) vs x itself: equality plus identity of the type at every node, in each reuse/convert configuration, as field and passed directly","oracle: the drawn object"),
"C02":("from_tuple(to_tuple(x)) vs x; the tuple itself against a position model (serialized fields in declaration order)","oracle: drawn object; hand-written position model"),
"C03":("pyserde's own part of a text-format round trip is executed symbolically between two contract stubs: `encode` (keys become text, sequences lists, None dropped for TOML) and `decode`; each solver witness is also sent through the real json/yaml/tomli codec. Custom Serializer/Deserializer classes and keyword options are recorded by a stand-in and compared with the plain form","oracle: drawn object, C05's plain form"),
"C04":("as C03 for msgpack (named/positional, ext_dict with every code 0..127 symbolic) and pickle","oracle: drawn object"),
"C05":("to_dict vs an independent reference function `plain(type, value, reuse, convert)` written from the documentation (symex/specs.py)","oracle: reference plain form"),
"C06":("arbitrary plain data (symex/junk.py: every kind of node, structure chosen by the solver, leaves symbolic) into every type shape; if an instance results, `holds(type, value)` must be true on every path; well-typed data must be accepted","oracle: reference predicate `holds`"),
"C07":("arbitrary data shaped like the type with every node replaced by every kind of value; the only outcomes are an instance or SerdeError","oracle: the exception type"),
"C08":("a class whose constructor raises depending on a symbolic integer, in every position; `exc is raised`","oracle: object identity"),
"C09":("presence of every key is a solver decision, values (also None/falsy) symbolic; value used iff present, factories called exactly once per absence","oracle: presence model"),
"C10":("every skip option x every type x every other field feature; written keys must be exactly those the option's predicate allows on this path","oracle: predicate evaluated on the original value"),
"C11":("class-wide options and skip_none at every nesting depth","oracle: reference pruning of C05's plain form"),
"C12":("case conversions, per-field rename, precedence; the key the value arrives under is an unbounded symbolic string, which must be accepted iff it equals the documented key","oracle: key model"),
"C13":("presence of name and aliases symbolic; first present one wins; any other symbolic key is not accepted","oracle: first-match model"),
"C14":("one extra key = unbounded symbolic string; ignored, or rejected iff it is not a known wire name","oracle: membership in the documented key set"),
"C15":("flattened children/dicts at every position and depth; entries = union of the children's own entries, parent wins","oracle: merge of the children's own to_dict"),
"C16":("the documented representation of each tagging built from the member's own plain form; any string as tag; arbitrary data resolves to the first accepting member (acceptance = a class with one field of the member type accepts)","oracle: reference tagger and first-accepting-member model"),
"C17":("direct union calls against a class with one union field","oracle: differential"),
"C18":("coerce: declared_type(value) itself is the oracle; disabled: identity; strict: rejection","oracle: Python's constructors"),
"C19":("acceptance iff the symbolic value equals a listed one with the same type","oracle: membership"),
"C20":("value model of every enum kind; identical member back; any int/str accepted iff it is a value","oracle: enumeration of members"),
"C21":("the front ends receive data through a stand-in decoder; float-declared leaves are coerced, all others must be unchanged","oracle: declared type per leaf"),
"C22":("call-recording (de)serializers; exactly one call with exactly the value, result stored as is, siblings as without the option","oracle: call log and differential"),
"C23":("call-recording class/global (de)serializers in every position; calls = occurrences of the declared type","oracle: occurrence model"),
"C24":("transparent class vs its bare field type, in all positions and formats; every definition of up to 3 field kinds accepted or rejected","oracle: differential"),
"C25":("generic layouts vs the same class with arguments written out","oracle: differential and drawn object"),
"C26":("class pairs under every option pair, compared with the class defined alone; dataclass layouts against CPython's own dataclass","oracle: differential with a class defined alone"),
"C27":("every history of <= 2 (thorough 3) operations before a target call, in fresh caches; result = the one without history","oracle: differential; one inductive flavour: histories are prefixes of arbitrary operations"),
"C28":("deep snapshot (structure and identities) of the argument before and after, also on failing paths","oracle: snapshot"),
"C29":("C05's reference plain form with the effective options computed by the documented precedence","oracle: reference plain form"),
"C30":("one datum through up to 16 positions of the same type; all outcomes agree","oracle: mutual agreement"),
"C33":("the same class with other names; outcomes agree after renaming back","oracle: differential with neutral names"),
"C35":("recursive classes defined in every order and style; written form and acceptance of every level against a hand-written recursive reference","oracle: reference recursion over the object graph"),
"C34":("stacked decorators vs a class with only one of them","oracle: differential"),
}
out=[]
for p in P:
    i=p['id']
    f=f"{H}/props/{i.lower()}.py"
    if not os.path.exists(f): continue
    t=ast.parse(open(f).read()); d={}
    for n in t.body:
        if isinstance(n,ast.Assign) and isinstance(n.targets[0],ast.Name) and n.targets[0].id in('BOUNDS','ASSUMPTIONS'):
            d[n.targets[0].id]=ast.literal_eval(n.value)
    a,o=how[i]
    out.append(f"### {i}  {p['title']}\n\n*Decided by:* {a}.\n*{o[0].upper()+o[1:]}.*\n*Bounds:* {d['BOUNDS']}.\n"+(("*Assumed / outside:* "+"; ".join(d['ASSUMPTIONS'])+".\n") if d.get('ASSUMPTIONS') else "")+f"*Why tests cannot settle it:* {p['why_tests_cant']}.\n")
rows = []
for d in sorted(os.listdir(f"{H}/seeded")):
    m = json.load(open(f"{H}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
table = "| id | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
head, tail = (open(f"{H}/tools/design_{x}.md").read() for x in ("head", "tail"))
open(f"{H}/DESIGN.md", "w").write(head + "\n" + "\n".join(out) + "\n" + tail.replace("@SEEDS@", table))
