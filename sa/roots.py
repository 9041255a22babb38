"""Entry points the analysis starts from, found in the trait and path tables of the compiled crate."""
from terms import *
from facts import *
import engine
import lib
from engine import Engine, L


def await_root(E, st, data, v):
    """the root returned v: drive it when it is a future"""
    if v.op == "box" or v.op == "ref" or v.op == "agg" and v.a[0][0] == "cor" or is_nat(v):
        r = E.alloc(st, "root", v)
        return E.poll(st, v, None, (r, ()))
    return E.ret(st, v)


lib.THEN["await_root"] = await_root


def trait_fn(F, trait_suffix, method, self_suffix=None, targ=None):
    out = []
    for i in F.impls:
        if i["crate"] == "models" or not (i["trait"] or "").endswith(trait_suffix):
            continue
        if self_suffix and not (i["self"][1] or "").endswith(self_suffix):
            continue
        if targ and not any((t[1] or "").endswith(targ) for t in i["targs"][1:]):
            continue
        q = i["items"].get(method)
        if q in F.bodies:
            out.append(q)
    return sorted(out)


def path_fn(F, suffix):
    return sorted(p for p in F.bodies if p.endswith(suffix) and F.bodies[p].crate != "models")


class Missing(Exception):
    """an entry point is not there"""


def root_fns(F, name):
    kind, _, rest = name.partition(":")
    r = []
    if kind == "fn":
        r = path_fn(F, rest)
    elif kind == "send":
        r = trait_fn(F, "messages::MessageChannel", "send", "SubChannel", rest or None)
    elif kind == "manager":
        r = trait_fn(F, "ManageConnection", rest)
    elif kind == "handler":
        r = trait_fn(F, "handler::MessageArgsHandler", "handle", rest or None)
    elif kind == "drop":
        r = trait_fn(F, "core::ops::drop::Drop", "drop", rest)
    elif kind == "codec":
        m, _, t = rest.partition(":")
        r = trait_fn(F, "payloads::Codec", m, "::" + t if t else None)
    elif kind == "impl":
        tr, m, t = rest.split("/")
        r = trait_fn(F, tr, m, t or None)
    if not r:
        raise Missing(name)
    return r


def start(E, path, args=None, mem=None):
    b = E.F.bodies[path]
    E.argtypes = list(b.locals[1:b.argc + 1])
    a = args or [mk("sym", "arg%d" % i, 0, *([b.locals[i + 1][1]] if b.locals[i + 1][0] == "prim" and b.locals[i + 1][1] in RNG else [])) for i in range(b.argc)]
    st = E.start(b, a)
    st.stack = (("n", "then", ("await_root",)),) + st.stack
    st.mem = dict(mem or {})
    for i, x in enumerate(a):
        st.mem[L(1, i + 1)] = x
    return st


def engine_for(F, rules, opts=None, cancel=False, max_time=200, max_steps=400000):
    o = {"collapse": 450, "nonum": True, "summaries": lib.codec_summaries(F)}
    o.update(opts or {})
    return Engine(F, lib.B, lib.NAT, rules, cancel=cancel, max_time=max_time, max_steps=max_steps, opts=o)


def run_root(F, name, rules, opts=None, cancel=False, spawned=True, max_time=200, prep=None):
    E = engine_for(F, rules, opts, cancel, max_time)
    for p in root_fns(F, name):
        st = start(E, p)
        if prep:
            prep(E, st)
        E.run(p, st)
    if spawned:
        E.run_spawned()
    return E
