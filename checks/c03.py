"""C03: structural soundness of SFGs under construction and random edit histories."""
import copy
import sys
import warnings

from vh import boot

boot.install()
import b_asic as ba  # noqa: E402
from b_asic import SFG, Input, Output, Signal  # noqa: E402

from vh import edits  # noqa: E402
from vh.core import run_check, Skip  # noqa: E402
from vh.gen import REALS, random_net  # noqa: E402
from vh.sound import audit, fingerprint, parts  # noqa: E402

PROP = "C03"


def make(ctx, **kw):
    rng = ctx.rng
    d = dict(n_ops=rng.randint(1, 14 if ctx.thorough else 10), nested=rng.choice([0, 0, 1, 2]), names=rng.random() < 0.5,
             sinks=rng.random() < 0.3, ops=REALS)
    d.update(kw)
    net = random_net(rng, **d)
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    ctx.nontrivial = len(net.nodes) > 4
    return net


def kinds_of(net):
    """Multiset of operations reachable from inputs and outputs, as the SFG must contain them."""
    succ = {}
    for nid, n in net.nodes.items():
        for s in n["ins"]:
            succ.setdefault(s[0], []).append(nid)
    seen, todo = set(), list(net.inputs) + list(net.outputs)
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        todo += [s[0] for s in net.nodes[k]["ins"]] + succ.get(k, [])
    return seen


def matches(ctx, net, sfg, where):
    """The SFG contains exactly the operations and connections of the netlist."""
    keep = kinds_of(net)
    edges = sum(len(net.nodes[k]["ins"]) for k in keep)
    unused = [k for k in net.inputs if not any(s[0] == k for j in keep for s in net.nodes[j]["ins"])]
    n_sig = sum(isinstance(c, Signal) for c in sfg.components)
    ctx.check(n_sig == edges, "build.signals", lambda: f"{where}: {n_sig} signals for {edges} connections")
    want = {}
    for k in keep:
        want[net.nodes[k]["op"]] = want.get(net.nodes[k]["op"], 0) + 1
    got = {}
    for o in sfg.operations:
        got[type(o).__name__] = got.get(type(o).__name__, 0) + 1
    if unused:
        got["Input"] = max(got.get("Input", 0), want["Input"])
    ctx.check(got == want, "build.operations", lambda: f"{where}: {got}, expected {want}")
    cnt = sfg.operation_counter() if callable(getattr(sfg, "operation_counter", None)) else None
    if cnt is not None:
        tot = {}
        for o in sfg.operations:
            tot[o.type_name()] = tot.get(o.type_name(), 0) + 1
        ctx.check(dict(cnt) == tot, "counter", lambda: f"{where}: {dict(cnt)}, expected {tot}")
    # names survive
    got_names = sorted(str(o.name) for o in sfg.operations)
    want_names = sorted(net.nodes[k]["name"] for k in keep if k not in unused or True)
    if not unused:
        ctx.check(got_names == want_names, "build.names", lambda: f"{where}: {got_names}, expected {want_names}")
    # inputs and outputs in the declared order
    ctx.check([str(o.name) for o in sfg.input_operations] == [net.nodes[k]["name"] for k in net.inputs], "build.inputs",
              lambda: f"{where}: inputs {[o.name for o in sfg.input_operations]}")
    ctx.check([str(o.name) for o in sfg.output_operations] == [net.nodes[k]["name"] for k in net.outputs], "build.outputs",
              lambda: f"{where}: outputs {[o.name for o in sfg.output_operations]}")


def case_build(ctx):
    rng = ctx.rng
    net = make(ctx)
    ins, outs, made = net.build(rng, as_parts=True)
    how = rng.choice(["ops", "ops", "offset", "both"])
    before = {id(o): (str(o.name), [len(p.signals) for p in o.inputs], [len(p.signals) for p in o.outputs], str(o.graph_id))
              for o in made.values()}
    kw = {"id_number_offset": rng.randint(1, 9)} if how == "offset" else {}
    sfg = SFG(inputs=ins, outputs=outs, name=rng.choice(["", "top"]), **kw)
    audit(ctx, sfg, f"SFG({how})")
    matches(ctx, net, sfg, f"SFG({how})")
    mine = parts(sfg)
    ctx.check(not mine & {id(o) for o in made.values()}, "share.construction", "the SFG contains an operation it was built from")
    after = {id(o): (str(o.name), [len(p.signals) for p in o.inputs], [len(p.signals) for p in o.outputs], str(o.graph_id))
             for o in made.values()}
    ctx.check(before == after, "modify.construction", lambda: f"construction changed {[(before[k], after[k]) for k in before if before[k] != after[k]]}")
    # a second SFG from the same operations is equal and independent
    sfg2 = SFG(inputs=ins, outputs=outs, name=sfg.name, **kw)
    audit(ctx, sfg2, "second SFG")
    ctx.check(not parts(sfg2) & mine, "share.second", "two SFGs share components")
    ctx.check(fingerprint(sfg) == fingerprint(sfg2), "build.deterministic", "two SFGs built from the same operations differ")


def copies(rng, sfg):
    return [("sfg()", lambda: sfg()), ("copy()", lambda: sfg.copy()), ("copy.copy", lambda: copy.copy(sfg)), ("copy.deepcopy", lambda: copy.deepcopy(sfg)),
            ("flatten", lambda: sfg.flatten()), ("unfold", lambda: sfg.unfold(rng.choice([1, 2, 3]))),
            ("simplify", lambda: sfg.simplify_delay_element_placement())]


def case_copy(ctx):
    """Every way of getting a new SFG leaves the old one alone and shares nothing with it."""
    rng = ctx.rng
    net = make(ctx, n_ops=rng.randint(1, 8))
    sfg = net.build(rng, name=rng.choice(["", "top"]))
    fp = fingerprint(sfg)
    mine = parts(sfg)
    for desc, fn in copies(rng, sfg):
        if rng.random() < 0.4:
            continue
        if desc in ("copy.copy",):
            continue  # a shallow copy shares by definition
        ctx.note(desc)
        new = fn()
        audit(ctx, new, desc)
        ctx.check(fingerprint(sfg) == fp, "modify.copy", lambda: f"{desc} changed the original SFG")
        ctx.check(not parts(new) & mine, "share.copy", lambda: f"{desc} shares components with the original")
        if desc in ("sfg()", "copy()", "copy.deepcopy"):
            ctx.check(fingerprint(new, external=False)[1:] == fp[:1] + fp[1:-1] + (fingerprint(sfg, external=False)[-1],) or
                      fingerprint(new, external=False) == fingerprint(sfg, external=False), "copy.equal",
                      lambda: f"{desc} differs: {diff(fingerprint(sfg, external=False), fingerprint(new, external=False))}")
        # editing the copy must not reach the original
        for name in ("swap", "insert"):
            ops = [o for o in new.operations if not isinstance(o, (Input, Output))]
            if not ops:
                continue
            if name == "swap":
                sw = [o for o in ops if o.input_count == 2 and o.is_swappable]
                if sw:
                    new.swap_io_of_operation(rng.choice(sw).graph_id)
            else:
                o = rng.choice(ops)
                o.name = "changed"
                if o.type_name() == "cmul":
                    o.value = 77
                new.set_latency_of_type_name(o.type_name(), 9)
                new.set_execution_time_of_type_name(o.type_name(), 3)
        ctx.check(fingerprint(sfg) == fp, "modify.alias", lambda: f"changing the result of {desc} changed the original")
        ctx.count("copies")


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, list):
                return [(p, q) for p, q in zip(x, y) if p != q][:2] + [len(x), len(y)]
            return (x, y)


def case_history(ctx):
    """Random edit sequences, all kept versions re-audited afterwards."""
    rng = ctx.rng
    net = make(ctx, n_ops=rng.randint(1, 8))
    sfg = net.build(rng)
    audit(ctx, sfg, "start")
    versions = [(sfg, fingerprint(sfg))]
    pool = {**edits.KEEP, **edits.CHANGE}
    seen_parts = [parts(sfg)]
    for _ in range(rng.randint(2, 12 if ctx.thorough else 7)):
        cur = rng.choice(versions[-2:])[0]
        if len(cur.operations) > 50:
            break
        name = rng.choice(list(pool))
        if rng.random() < 0.08:
            J = rng.choice([1, 2, 3])
            e = (f"unfold({J})", lambda: cur.unfold(J), False, False)
        else:
            e = pool[name](rng, cur)
        if e is None:
            continue
        ctx.note(e[0])
        new, refused = edits.perform(e)
        ctx.check(fingerprint(cur) == next(f for s, f in versions if s is cur), "modify." + name,
                  lambda: f"{e[0]} changed the original: {diff(fingerprint(cur), next(f for s, f in versions if s is cur))}")
        if refused is not None:
            ctx.count("refused")
            continue
        ctx.count("edits")
        ctx.check(isinstance(new, SFG), "result." + name, lambda: f"{e[0]} returned {new!r}")
        audit(ctx, new, e[0])
        p = parts(new)
        ctx.check(not any(p & q for q in seen_parts), "share." + name, lambda: f"{e[0]}: result shares components with an earlier SFG")
        seen_parts.append(p)
        ctx.check(new.input_count == cur.input_count or "unfold" in e[0], "inputs." + name, lambda: f"{e[0]}: {cur.input_count} -> {new.input_count} inputs")
        ctx.check(new.output_count == cur.output_count or "unfold" in e[0], "outputs." + name, lambda: f"{e[0]}: {cur.output_count} -> {new.output_count} outputs")
        stable_ids(ctx, cur, new, name, e[0])
        versions.append((new, fingerprint(new)))
    for s, f in versions:
        ctx.check(fingerprint(s) == f, "modify.history", "an earlier SFG changed during later edits")
        audit(ctx, s, "version kept")
    ctx.nontrivial = len(versions) > 2


# replacing and removing may make other operations unreachable or rename them
LOCAL = {"insert_after": 0, "insert_before": 0, "insert_any": 0, "insert_wide": 0, "swap": 0, "copy_call": 0, "copy_copy": 0}


def stable_ids(ctx, old, new, name, desc):
    """A local edit leaves all other operations, their ids and parameters alone."""
    if name not in LOCAL or "unfold" in desc:
        return
    gone = 0
    for o in old.operations:
        c = new.find_by_id(o.graph_id)
        if c is None or type(c) is not type(o) or str(c.name) != str(o.name) or (not isinstance(o, SFG) and _par(c) != _par(o)
                                                                                 and not (name == "swap")):
            gone += 1
    ctx.check(gone <= LOCAL[name], "local." + name, lambda: f"{desc}: {gone} other operations lost or changed")


def _par(o):
    return sorted((k, repr(v)) for k, v in o.params.items())


def case_wire(ctx):
    """Low level connecting and disconnecting of ports and signals, against a model."""
    rng = ctx.rng
    ops = [rng.choice([lambda: ba.Addition(), lambda: ba.Negation(), lambda: ba.R2Butterfly(), lambda: ba.Input(), lambda: ba.Output(), lambda: ba.MAD()])()
           for _ in range(rng.randint(2, 6))]
    sigs = [Signal() for _ in range(rng.randint(1, 5))]
    model = {id(s): [None, None] for s in sigs}
    inp = [p for o in ops for p in o.inputs]
    out = [p for o in ops for p in o.outputs]
    if not inp or not out:
        raise Skip("no ports")
    hist = []
    by = {id(s): s for s in sigs}

    def drive(p):
        return [k for k, v in model.items() if v[1] is p]

    for _ in range(rng.randint(5, 30)):
        s = rng.choice(list(by.values()))
        m = model[id(s)]
        k = rng.randrange(12)
        p, q = rng.choice(inp), rng.choice(out)
        if k == 0:
            s.set_source(q); m[0] = q; hist.append("set_source")
        elif k == 1:
            if any(x != id(s) for x in drive(p)):
                try:
                    s.set_destination(p)
                except ValueError:
                    hist.append("set_destination refused")
                else:
                    ctx.fail("wire.second_driver", "set_destination accepted a second signal on an input port")
                # the refused signal is in an unspecified state: drop it
                s.remove_destination()
                m[1] = None
                continue
            s.set_destination(p); m[1] = p; hist.append("set_destination")
        elif k == 2:
            s.remove_source(); m[0] = None; hist.append("remove_source")
        elif k == 3:
            s.remove_destination(); m[1] = None; hist.append("remove_destination")
        elif k == 4:
            if drive(p):
                continue
            n = p.connect(q)
            by[id(n)] = n
            model[id(n)] = [q, p]
            hist.append("connect")
        elif k == 5:
            for x in drive(p):
                model[x][1] = None
            p.clear(); hist.append("input.clear")
        elif k == 6:
            for v in model.values():
                if v[0] is q:
                    v[0] = None
            q.clear(); hist.append("output.clear")
        elif k == 7:
            if m[0] is not None:
                m[0].remove_signal(s); m[0] = None; hist.append("remove_signal")
            elif m[1] is not None:
                m[1].remove_signal(s); m[1] = None; hist.append("remove_signal")
        elif k in (8, 9):
            if drive(p) or k == 9 and p.operation.input_count != 1:
                continue
            if k == 8:
                r = p
                r <<= rng.choice([q, q.operation]) if q.operation.output_count == 1 else q
                ctx.check(r is p, "wire.ilshift", "port <<= source did not give the port")
            else:
                r = p.operation
                r <<= q
                ctx.check(r is p.operation, "wire.ilshift", "operation <<= source did not give the operation")
            ctx.check(len(p.signals) == 1, "wire.ilshift", lambda: f"<<= made {len(p.signals)} signals after {hist}")
            n = p.signals[0]
            by[id(n)] = n
            model[id(n)] = [q, p]
            hist.append("<<=")
        elif k == 10:
            # a signal given as source is connected itself
            if drive(p) or m[1] is not None:
                continue
            ctx.check(p.connect(s) is s, "wire.connect_signal", "connecting a signal made another")
            m[1] = p
            hist.append("connect signal")
        elif k == 11:
            was = drive(p)
            k = rng.randint(0, 2)
            t = p.delay(k)
            chain, at = [], p
            for _ in range(k):
                ctx.check(len(at.signals) == 1 and id(at.signals[0]) not in by, "wire.delay", lambda: f"no new signal before delay after {hist}")
                n = at.signals[0]
                d = n.source.operation
                ctx.check(isinstance(d, ba.Delay) and d.initial_value == 0, "wire.delay", lambda: f"{d!r} inserted by delay()")
                by[id(n)] = n
                model[id(n)] = [d.output(0), at]
                at = d.input(0)
                inp.append(at)
                out.append(d.output(0))
            ctx.check(t is at, "wire.delay", lambda: f"delay({k}) gives another port than that of the first delay")
            for x in was:
                model[x][1] = at
            hist.append(f"delay {k}")
        for t in by.values():
            a, b = model[id(t)]
            ctx.check(t.source_operation is (a and a.operation) and t.destination_operation is (b and b.operation), "wire.operation",
                      lambda: f"operations of the signal differ after {hist}")
            ctx.check(t.source is a and t.destination is b, "wire.signal", lambda: f"signal ends differ after {hist}")
            ctx.check(t.dangling() == (a is None or b is None), "wire.dangling", lambda: f"dangling after {hist}")
        for r in inp:
            ctx.check(r.connected_source is next((v[0] for v in model.values() if v[1] is r), None), "wire.connected_source", lambda: f"after {hist}")
            ctx.check({id(t) for t in r.signals} == {k for k, v in model.items() if v[1] is r} and len(r.signals) <= 1, "wire.input",
                      lambda: f"input port lists {len(r.signals)} signals after {hist}")
        for r in out:
            ctx.check(sorted(id(t) for t in r.signals) == sorted(k for k, v in model.items() if v[0] is r), "wire.output",
                      lambda: f"output port lists {len(r.signals)} signals after {hist}")
            ctx.check(r.signal_count == len(r.signals), "wire.count", "signal_count")
        ctx.count("wirings")
    ctx.sig = repr(hist)
    ctx.nontrivial = len(hist) > 4


def case_reject(ctx):
    """Constructions that would give an unsound SFG are refused."""
    rng = ctx.rng
    k = rng.randrange(5)
    i, j = Input(), Input()
    a = ba.Addition(i, j)
    o = Output(a)
    ctx.sig = ctx.sample = f"reject {k}"
    ctx.nontrivial = True
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if k == 0:
                a.input(0).clear()
                s = SFG([i, j], [o])
            elif k == 1:
                s = SFG([i, j], [Output()])
            elif k == 2:
                s = SFG([i, i], [o])
                audit(ctx, s, "same input twice")
            elif k == 3:
                s = SFG([i, j], [o, o])
                audit(ctx, s, "same output twice")
            else:
                p, q = Input(), Input()
                s = SFG([p, q], [Output(p)])
                audit(ctx, s, "unused input")
        except (ValueError, TypeError):
            ctx.count("refused")
            ctx.check(True, "ok")
            return
    # whatever is accepted has to be sound
    if k in (0, 1):
        audit(ctx, s, f"construction {k}")


def case_lookup(ctx):
    """find_result_keys_by_name, used types and ids."""
    rng = ctx.rng
    net = make(ctx)
    sfg = net.build(rng)
    audit(ctx, sfg, "lookup")
    ops = sfg.operations
    names = {str(o.name) for o in ops}
    for n in names:
        ks = sfg.find_result_keys_by_name(n)
        want = sorted(f"{c.graph_id}" if c.output_count == 1 else f"{c.graph_id}.0" for c in sfg.find_by_name(n)
                      if not isinstance(c, Signal) and c.output_count)
        extra = sorted(str(k) for k in ks)
        ctx.check([k for k in extra if k in want] == want, "result_keys", lambda: f"find_result_keys_by_name({n!r}) = {extra}, expected {want}")
    ctx.check({str(t) for t in sfg.get_used_type_names()} == {str(c.type_name()) for c in sfg.operations}
              and len(set(sfg.get_used_type_names())) == len(sfg.get_used_type_names()), "used_type_names",
              lambda: f"{sfg.get_used_type_names()}")
    ctx.check(set(sfg.get_used_operation_types()) == {type(c) for c in sfg.operations}, "used_types", lambda: f"{sfg.get_used_operation_types()}")
    ids = {str(k) for k in sfg.get_used_graph_ids()}
    ctx.check(ids == {str(o.graph_id) for o in ops}, "used_ids", lambda: f"{ids} vs {sorted(str(o.graph_id) for o in ops)}")
    for t in {c.type_name() for c in sfg.components}:
        got = {id(c) for c in sfg.find_by_type_name(t)}
        ctx.check(got == {id(c) for c in sfg.components if c.type_name() == t}, "find_by_type_name", lambda: f"{t}")


KINDS = {
    "build": {"fn": case_build, "quick": 2800, "thorough": 32000},
    "copy": {"fn": case_copy, "quick": 1600, "thorough": 20000},
    "history": {"fn": case_history, "quick": 4800, "thorough": 60000},
    "wire": {"fn": case_wire, "quick": 1600, "thorough": 24000},
    "reject": {"fn": case_reject, "quick": 20, "thorough": 40},
    "lookup": {"fn": case_lookup, "quick": 1200, "thorough": 16000},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="random graphs (nesting, fan-out, duplicate and odd names, sinks) built through the API in random order, then random histories of edits and "
             "copies; after every step every component, port, signal and lookup table is audited, earlier versions are compared with their fingerprints and "
             "object identities are checked for sharing; random port/signal wirings are compared with a model; non-trivial: more than four nodes, or two edits",
        assumptions=["an Input that nothing uses may be missing from components and operations"],
        min_eval=300))
