"""C24: drawings, charts and printed tables show exactly the object they are made from."""
import io
import json
import logging
import re
import subprocess
import sys
import warnings
from collections import Counter
from contextlib import redirect_stdout

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from b_asic.architecture import Architecture, Memory  # noqa: E402
from b_asic.process import PlainMemoryVariable  # noqa: E402
from b_asic.resources import ProcessCollection  # noqa: E402
from matplotlib.collections import PathCollection, PolyCollection  # noqa: E402
from matplotlib.markers import MarkerStyle  # noqa: E402
from matplotlib.patches import PathPatch, Polygon, Rectangle  # noqa: E402

from checks import c15  # noqa: E402
from vh import lat  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402
from vh.gen import BASIC, LINEAR, REALS, random_net  # noqa: E402
from vh.job import Job, random_edit, random_schedule  # noqa: E402

PROP = "C24"


# --- Graphviz ---------------------------------------------------------------------------------------------------------------------------

class Drawing:
    """A drawing as Graphviz understands it: its nodes, edges and clusters."""

    def __init__(self, d, complaints):
        objs = d.get("objects", [])
        self.attr = d
        self.clusters = {}
        self.node = {}
        self.subs = []
        ids = {}
        for o in objs:
            if "nodes" in o or "subgraphs" in o or o["name"].startswith(("cluster", "%")):
                self.subs.append(o)
            else:
                ids[o["_gvid"]] = o["name"]
                self.node[o["name"]] = o
        for s in self.subs:
            s["members"] = [ids[g] for g in s.get("nodes", []) if g in ids]
        self.edges = [{**e, "tail": ids[e["tail"]], "head": ids[e["head"]]} for e in d.get("edges", [])]
        self.visible = [e for e in self.edges if e.get("style") != "invis"]
        self.complaints = complaints

    def label(self, n):
        s = self.node[n].get("label", "\\N")
        return n if s == "\\N" else s

    def ins(self, n):
        return [e for e in self.visible if e["head"] == n]

    def outs(self, n):
        return [e for e in self.visible if e["tail"] == n]


def drawn(ctx, dg):
    p = subprocess.run(["dot", "-Tdot_json"], input=dg.source, capture_output=True, text=True, timeout=60)
    ctx.check(p.returncode == 0 and p.stdout.strip(), "graphviz_refuses", lambda: f"dot does not accept the drawing: {p.stderr[:300]}\n{dg.source[:600]}")
    bad = [x for x in p.stderr.splitlines() if "unrecognized" in x or "syntax" in x]
    ctx.check(not bad, "missing_port", lambda: f"the drawing connects something that is not there: {bad[:3]}")
    ctx.count("drawings")
    return Drawing(json.loads(p.stdout), p.stderr)


def some_net(ctx, **kw):
    rng = ctx.rng
    d = dict(n_ops=rng.randint(1, 10), names=rng.random() < 0.4, nested=rng.choice([0, 0, 1]))
    d.update(kw)
    ops = d.pop("ops", None) or rng.choice([LINEAR, BASIC, REALS])
    net = random_net(rng, ops=ops, **d)
    sfg = net.build(rng)
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    ctx.nontrivial = len(net.nodes) > 3
    return net, sfg


def wires(sfg):
    """Every connection between two operations of an SFG, walked from the input ports."""
    out = []
    for o in sfg.operations:
        for p in o.inputs:
            for s in p.signals:
                out.append((s.source.operation, s.source.index, o, p.index, s))
    return out


def case_sfg(ctx):
    rng = ctx.rng
    info = rng.choice(["none", "id", "id", "l1-norm", "l2-norm"])
    if info.startswith("l"):
        net, sfg = some_net(ctx, ops=LINEAR, nested=0, n_delay=rng.choice([0, 0, 1, 2]), dangling=False)
        if not sfg.is_linear or sfg.loops or any(o.type_name() in ("c", "dontcare") for o in sfg.operations):
            info = "id"
    else:
        net, sfg = some_net(ctx)
    branch, numbers, params = rng.random() < 0.6, rng.random() < 0.7, rng.random() < 0.4
    direction = rng.choice(["LR", "LR", "TB"])
    kw = {}
    ios = {"input_order": sfg.input_operations, "output_order": sfg.output_operations}
    order = {}
    for k, ops in ios.items():
        order[k] = [str(o.graph_id) for o in ops]
        if rng.random() < 0.4:
            sub = rng.sample(list(ops), len(ops))
            order[k] = [str(o.graph_id) for o in sub]
            kw[k] = [str(o.name) if o.name and rng.random() < 0.4 and len(sfg.find_by_name(o.name)) == 1 and o.name not in {str(c.graph_id) for c in sfg.components} else o.graph_id for o in sub]
    if rng.random() < 0.3:
        kw["splines"] = rng.choice(["spline", "line", "polyline", "curved"])
    if rng.random() < 0.2:
        kw.update(size=(5, 3), force_size=rng.random() < 0.5)
    if rng.random() < 0.2:
        kw.update(fontname="Helvetica", fontsize=9)
    if rng.random() < 0.2:
        kw.update(ranksep=0.7, nodesep=0.1)
    what = f"sfg_digraph(signal_info={info}, branch_node={branch}, port_numbering={numbers}, show_op_params={params}, direction={direction}, {kw})"
    ctx.note(what)
    c = ctx.check
    dg = sfg.sfg_digraph(signal_info=info, branch_node=branch, port_numbering=numbers, show_op_params=params, direction=direction, **kw)
    D = drawn(ctx, dg)
    c(D.attr.get("rankdir") == direction, "sfg.direction", lambda: f"{what}: rankdir {D.attr.get('rankdir')}")
    points = {n for n, o in D.node.items() if o.get("shape") == "point"}
    ops = {str(o.graph_id): o for o in sfg.operations}
    c(set(D.node) - points == set(ops), "sfg.nodes", lambda: f"{what}: nodes {sorted(set(D.node) - points)}, operations {sorted(ops)}")
    c(branch or not points, "sfg.branch_drawn", lambda: f"{what}: branch nodes {points}")
    for g, o in ops.items():
        s = D.label(g)
        c(g in s and (not o.name or str(o.name) in s), "sfg.label", lambda: f"{what}: {g} named {o.name!r} is labelled {s!r}")
        if params:
            shown = s.split("\n", 1)[1] if "\n" in s else ""
            for k, v in o.params.items():
                if k in ("value", "value0", "value1", "initial_value") and v not in (0, None):
                    c(f"{k}={v}" in shown, "sfg.params", lambda: f"{what}: {g} has {k}={v}, labelled {s!r}")
            for k, v in re.findall(r"(\w+)=([^,]*)", shown.split(")\n")[-1]):
                c(k in o.params and (str(o.params[k]).startswith(v) or not v), "sfg.params_false", lambda: f"{what}: {g} has {o.params}, labelled {s!r}")
    norm = None
    if info.startswith("l"):
        norm = sfg.get_l1_norms(all_nodes=True) if info == "l1-norm" else sfg.get_l2_norms(all_nodes=True)
    want = Counter()
    fan = Counter()
    for a, i, b, k, s in wires(sfg):
        fan[str(a.graph_id), i] += 1
        text = ""
        if info == "id":
            text = str(s.graph_id)
        elif norm is not None:
            key = str(a.graph_id) if a.output_count == 1 else f"{a.graph_id}.{i}"
            v = 1.0 if a in sfg.input_operations else norm.get(key)
            text = "" if v is None else f"{v:.4g}"
        want[str(a.graph_id), str(i) if numbers and a.output_count > 1 else "", str(b.graph_id), str(k) if numbers and b.input_count > 1 else "", text] += 1
    got = Counter()
    seen = []
    for e in D.visible:
        if e["head"] in points:
            continue
        src, tl = e["tail"], e.get("taillabel", "")
        if src in points:
            into = D.ins(src)
            c(len(into) == 1 and into[0]["tail"] not in points, "sfg.branch_source", lambda: f"{what}: branch {src} is fed by {[x['tail'] for x in into]}")
            c(len(D.outs(src)) > 1, "sfg.branch_single", lambda: f"{what}: branch {src} has {len(D.outs(src))} ways out")
            src, tl = into[0]["tail"], into[0].get("taillabel", "")
            seen.append(e["tail"])
        got[src, tl, e["head"], e.get("headlabel", ""), e.get("label", "")] += 1
    c(got == want, "sfg.connections", lambda: f"{what}: drawn {dict(got - want)}, in the graph {dict(want - got)}")
    c(points == set(seen), "sfg.branch_dangling", lambda: f"{what}: {points - set(seen)}")
    if branch:
        c(len(points) == sum(1 for n in fan.values() if n > 1), "sfg.branch_count", lambda: f"{what}: {len(points)} branches, fan-outs {dict(fan)}")
    chains = [(e["tail"], e["head"]) for e in D.edges if e.get("style") == "invis"]
    exp = [p for o in order.values() if len(o) > 1 for p in zip(o, o[1:], strict=False)]
    c(Counter(chains) == Counter(exp), "sfg.io_order", lambda: f"{what}: order {chains}, asked {order}")
    for k, rank in (("input_order", "source"), ("output_order", "sink")):
        if len(order[k]) > 1:
            c(any(s.get("rank") == rank and set(s["members"]) == set(order[k]) for s in D.subs), "sfg.io_rank", lambda: f"{what}: {k}")
    ctx.count("connections", sum(want.values()))
    ctx.count("branches", len(points))
    # an operation of the wrong kind is refused
    inner = [g for g, o in ops.items() if o not in sfg.input_operations]
    if inner and rng.random() < 0.3:
        g = rng.choice(inner)
        try:
            sfg.sfg_digraph(input_order=[g])
            c(False, "sfg.io_order_accepts", f"{g} was accepted in input_order")
        except ValueError:
            ctx.count("refused")


def case_precedence(ctx):
    rng = ctx.rng
    net, sfg = some_net(ctx)
    c = ctx.check
    levels = sfg.get_precedence_list()
    if not levels:
        raise Skip("empty")
    D = drawn(ctx, sfg.precedence_graph)
    clusters = {s["label"]: s["members"] for s in D.subs if s["name"].startswith("cluster")}
    c(set(clusters) == {f"N{i}" for i in range(len(levels))}, "precedence.levels", lambda: f"levels {sorted(clusters)} for {len(levels)}")
    is_port = {n for m in clusters.values() for n in m}
    of = {}
    for i, ports in enumerate(levels):
        c(len(clusters[f"N{i}"]) == len(ports), "precedence.level_size", lambda: f"level {i}: {clusters[f'N{i}']} for {[p.name for p in ports]}")
        want, got = Counter(), Counter()
        for p in ports:
            o = p.operation
            lab = str(o.graph_id) if o.output_count == 1 else f"{o.graph_id}.{p.index}"
            want[lab, str(o.graph_id), tuple(sorted(str(s.destination.operation.graph_id) for s in p.signals))] += 1
        for n in clusters[f"N{i}"]:
            src = [D.label(e["tail"]) for e in D.ins(n)]
            c(len(src) == 1, "precedence.source", lambda: f"{n} comes from {src}")
            got[D.label(n), src[0], tuple(sorted(D.label(e["head"]) for e in D.outs(n)))] += 1
        c(got == want, "precedence.ports", lambda: f"level {i}: drawn {dict(got - want)}, in the graph {dict(want - got)}")
        ctx.count("ports", len(ports))
        for n in clusters[f"N{i}"]:
            of[n] = i
    others = set(D.node) - is_port
    shown = {D.label(n) for n in others}
    real = {str(p.operation.graph_id) for ports in levels for p in ports} | {str(s.destination.operation.graph_id) for ports in levels for p in ports for s in p.signals}
    c(shown == real, "precedence.operations", lambda: f"drawn {sorted(shown)}, graph {sorted(real)}")
    delays = {str(o.graph_id) for o in sfg.operations if o.type_name() == "t"}
    n_of = Counter(D.label(n) for n in others)
    c(all(n == 1 for g, n in n_of.items() if g not in delays), "precedence.twice", lambda: str(n_of))
    # time goes from left to right: nothing drawn leads back to an earlier level
    for n in others:
        for a in D.ins(n):
            for b in D.outs(n):
                c(of[a["tail"]] < of[b["head"]], "precedence.backwards", lambda: f"{D.label(n)} reads {a['tail']} of level {of[a['tail']]} for {b['head']} of level {of[b['head']]}")
    out = io.StringIO()
    with redirect_stdout(out):
        sfg.print_precedence_graph()
    rows = re.findall(r"^(\d+)\.(\d+) \tid: ([^,\s]+)", out.getvalue(), re.M)
    want = [(str(i), str(k), str(p.operation.graph_id)) for i, ports in enumerate(levels, 1) for k, p in enumerate(ports, 1)]
    c(rows == want, "precedence.printed", lambda: f"printed {rows}, list {want}\n{out.getvalue()[:400]}")


# --- architectures ------------------------------------------------------------------------------------------------------------------------

def table_ports(html):
    return re.findall(r'PORT="([^"]*)"', html)


def at(e, k):
    s = e.get(k, "")
    return s.split(":")[0] if s and s not in ("e", "w", "n", "s") else ""


def case_architecture(ctx):
    rng = ctx.rng
    j, s = c15.scheduled(ctx)
    pes, mems, direct = c15.manual(ctx, s)
    arch = Architecture(pes, mems, direct_interconnects=direct)
    draw(ctx, arch, rng)
    for _ in range(2):
        r = rng.choice([*arch.processing_elements, *arch.memories])
        dg = r._digraph()
        D = drawn(ctx, dg)
        ctx.check(set(D.node) == {r.entity_name}, "resource.node", lambda: f"{sorted(D.node)} for {r.entity_name}")
        ports(ctx, D, r)


def ports(ctx, D, r):
    got = Counter(table_ports(D.label(r.entity_name)))
    want = Counter([f"in{i}" for i in range(r.input_count)] + [f"out{i}" for i in range(r.output_count)])
    ctx.check(got == want, "architecture.ports", lambda: f"{r.entity_name} with {r.input_count} inputs and {r.output_count} outputs is drawn with {sorted(got)}")
    ctx.check(str(r.entity_name) in re.sub(r'PORT="[^"]*"', "", D.label(r.entity_name)), "architecture.name", lambda: D.label(r.entity_name))


def draw(ctx, arch, rng):
    c = ctx.check
    o = {k: rng.random() < p for k, p in (("branch_node", 0.6), ("cluster", 0.6), ("io_cluster", 0.6), ("multiplexers", 0.6), ("colored", 0.5), ("wire_labels", 0.5), ("mux_label", 0.5), ("show_edge_counts", 0.6))}
    o["orientation"] = rng.choice(["horizontal", "vertical"])
    what = f"architecture drawing {o}"
    ctx.note(what)
    D = drawn(ctx, arch._digraph(**o))
    res = {str(r.entity_name): r for r in (*arch.processing_elements, *arch.memories)}
    points = {n for n, x in D.node.items() if x.get("shape") == "point"}
    stubs = {n for n, x in D.node.items() if x.get("shape") == "plain"}
    muxes = {n for n in D.node if n not in points | stubs and n not in res}
    c(set(res) <= set(D.node), "architecture.resources", lambda: f"{what}: missing {set(res) - set(D.node)}")
    c(not points or o["branch_node"], "architecture.branch", what)
    c(not stubs or o["wire_labels"], "architecture.stub", what)
    c(not muxes or o["multiplexers"], "architecture.mux", lambda: f"{what}: {muxes}")
    for r in res.values():
        ports(ctx, D, r)

    def origin(e):
        """The resource and port an edge comes from."""
        n = e["tail"]
        if n in res:
            return n, at(e, "tailport")
        if n in points:
            into = D.ins(n)
            c(len(into) == 1, "architecture.branch_source", lambda: f"{what}: {into}")
            return origin(into[0])
        c(n in stubs, "architecture.strange", lambda: f"{what}: edge from {n}")
        same = [x for x in D.visible if x["head"] in stubs and D.label(x["head"]) == D.label(n)]
        c(len(same) == 1, "architecture.wire_name", lambda: f"{what}: wire {D.label(n)} is driven by {[x['tail'] for x in same]}")
        return origin(same[0])

    got = Counter()
    used = Counter()
    for e in D.visible:
        n = e["head"]
        if n in points or n in stubs or e["tail"] in muxes:
            continue
        src = origin(e)
        if n in muxes:
            out = D.outs(n)
            c(len(out) == 1 and out[0]["head"] in res and at(out[0], "tailport") == "out", "architecture.mux_out", lambda: f"{what}: {n} leads to {out}")
            used[n, at(e, "headport")] += 1
            dst = out[0]["head"], at(out[0], "headport")
        else:
            dst = n, at(e, "headport")
        got[src, dst, e.get("label", "")] += 1
    counts = Counter()
    exp = c15.expected(arch)
    for pe in arch.processing_elements:
        ins, outs = exp["pe", pe.entity_name]
        for i, d in enumerate(ins):
            for (r, k), n in d.items():
                counts[(str(r), f"out{k}"), (str(pe.entity_name), f"in{i}")] = n
        for i, d in enumerate(outs):
            for (r, k), n in d.items():
                counts[(str(pe.entity_name), f"out{i}"), (str(r), f"in{k}")] = n
    names = {str(m.entity_name) for m in arch.memories}
    for m in arch.memories:
        for r, n in exp["mem", m.entity_name][0].items():
            if str(r) in names:
                counts[(str(r), "out0"), (str(m.entity_name), "in0")] = n
    want = Counter({(a, b, str(n) if o["show_edge_counts"] else ""): 1 for (a, b), n in counts.items()})
    c(got == want, "architecture.connections", lambda: f"{what}: drawn {dict(got - want)}, in the architecture {dict(want - got)}")
    fan = Counter(b for _, b in counts)
    wide = {b: n for b, n in fan.items() if n > 1}
    if o["multiplexers"]:
        c(len(muxes) == len(wide), "architecture.mux_count", lambda: f"{what}: {muxes} for {wide}")
        for n in muxes:
            out = D.outs(n)[0]
            k = wide.get((out["head"], at(out, "headport")))
            ins = sorted(p for (m, p) in used if m == n)
            c(k is not None and set(ins) == {str(x) for x in range(k)} and all(v == 1 for (m, _), v in used.items() if m == n), "architecture.mux_inputs", lambda: f"{what}: {n} has inputs {ins}, sources {k}")
    if o["cluster"]:
        place = {n: s.get("label") for s in D.subs if s["name"].startswith("cluster") for n in s["members"]}
        for n, r in res.items():
            kind = "mem" if isinstance(r, Memory) else ("io" if r.processes[0].operation.type_name() in ("in", "out") else "pe")
            p = place.get(n)
            ok = {"mem": p in ("Memory", "Memories"), "pe": str(p).lower().startswith("processing"), "io": p in ("Inputs", "Outputs") if o["io_cluster"] else p is None}[kind]
            c(ok, "architecture.cluster", lambda: f"{what}: {n} is drawn in {p}")
    ctx.count("connections", sum(want.values()))
    ctx.count("multiplexers", len(muxes))
    ctx.count("branches", len(points))
    ctx.count("wires", len(stubs))


# --- schedules ----------------------------------------------------------------------------------------------------------------------------

def R(v):
    return round(float(v), 6) + 0.0


def shape(o, tm):
    """Outline of an operation from its latency offsets, bottom edge first, as the set of its corners."""
    a = [tm[f"in{i}"] for i in range(o.input_count)]
    b = [tm[f"out{i}"] for i in range(o.output_count)]
    pts = set()
    for side in (a, b):
        for i, x in enumerate(side):
            pts |= {(x, i / len(side)), (x, (i + 1) / len(side))}
    return pts


def case_schedule(ctx):
    rng = ctx.rng
    j = Job(ctx, ops=rng.choice([LINEAR, LINEAR, BASIC]), n_ops=rng.randint(1, 9), named=rng.random() < 0.5)
    s, _ = random_schedule(ctx, j, names=["asap", "alap", "list", "list"])
    for _ in range(rng.choice([0, 1, 4])):
        random_edit(ctx, s, j)
    if s.schedule_time < 1:
        raise Skip("zero schedule time")
    rows(ctx, s, rng)
    gap = rng.choice([0.5, 0.5, 0.2, 1.0])
    fig, ax = plt.subplots()
    s.plot(ax, operation_gap=gap)
    judge_schedule(ctx, s, ax, gap)
    for k in (0, 1, 2):
        slack_table(ctx, s, k, rng)
    if rng.random() < 0.2:
        svg = s._repr_svg_()
        ctx.check("<svg" in svg, "schedule.svg", svg[:100])
        ctx.count("svg")
    plt.close("all")


def rows(ctx, s, rng):
    """Move operations between rows: no two of them ever end up in the same row unless asked to."""
    ids = sorted(str(g) for g in s.start_times)
    n = rng.choice([0, 0, 1, 3, 6])
    if not n:
        return
    if rng.random() < 0.8:
        s.sort_y_locations_on_start_times()
        what = "sort"
    else:
        perm = rng.sample(range(len(ids)), len(ids))
        for g, y in zip(ids, perm, strict=True):
            s.set_y_location(g, y)
        what = f"set {perm}"
    for k in range(n):
        loc = {g: s.get_y_location(g) for g in ids}
        ctx.check(sorted(loc.values()) == list(range(len(ids))), "rows.distinct", lambda: f"{what}: rows {loc}")
        ctx.count("row_moves")
        if k == n - 1:
            break
        g, y = rng.choice(ids), rng.randint(0, len(ids) - 1)
        s.move_y_location(g, y, insert=True)
        new = {h: s.get_y_location(h) for h in ids}
        what = f"move {g} to row {y} from {loc}"
        rest = [h for h in sorted(ids, key=loc.get) if h != g]
        ctx.check([h for h in sorted(ids, key=new.get) if h != g] == rest, "rows.order", lambda: f"{what}: rows {new}")
        above = sum(loc[h] < y for h in rest)
        ctx.check(sorted(new.values()).index(new[g]) == above, "rows.target", lambda: f"{what}: rows {new}")


def judge_schedule(ctx, s, ax, gap):
    c = ctx.check
    T = s.schedule_time
    sfg = s._sfg if hasattr(s, "_sfg") else s.sfg
    ids = {str(g): t for g, t in s.start_times.items()}
    ops = {g: sfg.find_by_id(g) for g in ids}
    loc = {g: s.get_y_location(g) for g in ids}
    c(len(set(loc.values())) == len(loc) and all(isinstance(y, int) and y >= 0 for y in loc.values()), "schedule.rows", lambda: f"rows {loc}")
    y0 = {g: gap + y * (1 + gap) for g, y in loc.items()}
    # labels
    texts = [(t.get_text(), t.get_position() if not hasattr(t, "xy") else t.xy) for t in ax.texts]
    for g in ids:
        here = [p for t, p in texts if t == g and abs(p[0] - ids[g]) <= 0.5 and y0[g] <= p[1] <= y0[g] + 1]
        c(here, "schedule.label", lambda: f"{g} at {ids[g]} in row at {y0[g]}: labels {[(t, p) for t, p in texts if t == g]}")
    ticks = Counter((R(y), t.get_text()) for y, t in zip(ax.get_yticks(), ax.get_yticklabels(), strict=True))
    c(ticks == Counter((R(y0[g] + 0.5), str(ops[g].name)) for g in ids), "schedule.names", lambda: f"{ticks}")
    # outlines
    polys = [frozenset((R(x), R(y)) for x, y in p.get_xy()) for p in ax.patches if isinstance(p, Polygon)]
    left = Counter(polys)
    pos_in, pos_out = {}, {}
    for g, o in ops.items():
        fixed = not (o.input_count and o.output_count)
        off = o.latency_offsets
        if fixed:
            pts = set(o.get_plot_coordinates()[0])
        else:
            pts = shape(o, off)
        for k in range(o.input_count):
            pos_in[g, k] = (0 if fixed else off[f"in{k}"], (1 + 2 * k) / (2 * o.input_count))
        for k in range(o.output_count):
            pos_out[g, k] = (off["out0"] if fixed else off[f"out{k}"], (1 + 2 * k) / (2 * o.output_count))
        moved = lambda d: frozenset((R(x + ids[g] + d), R(y + y0[g])) for x, y in pts)  # noqa: B023, E731
        c(left[moved(0)] > 0, "schedule.outline", lambda: f"{g}: no outline {sorted(moved(0))} among {[sorted(p) for p in polys]}")  # noqa: B023
        left[moved(0)] -= 1
        over = max(x for x, _ in pts) + ids[g] > T
        if over and not fixed:
            c(left[moved(-T)] > 0, "schedule.outline_wrapped", lambda: f"{g} goes past {T} and has no outline at the left")
            ctx.count("wrapped_operations")
        if over and left[moved(-T)] > 0:
            left[moved(-T)] -= 1
        # busy times
        e = o.execution_time
        if not fixed and e is not None:
            boxes = [frozenset((R(x), R(y)) for x, y in ln.get_xydata()) for ln in ax.lines if len(ln.get_xydata()) > 2]
            box = lambda d: frozenset((R(x + ids[g] + d), R(y + y0[g])) for x in (0, e) for y in (0, 1))  # noqa: B023, E731
            c(box(0) in boxes, "schedule.busy", lambda: f"{g} is busy {e} from {ids[g]}")  # noqa: B023
            if e + ids[g] > T:
                c(box(-T) in boxes, "schedule.busy_wrapped", lambda: f"{g} is busy {e} from {ids[g]}, schedule time {T}")  # noqa: B023
    left = +left
    c(not left, "schedule.extra_outline", lambda: f"outlines of nothing: {[sorted(p) for p in left]}")
    n_busy = sum(1 for ln in ax.lines if len(ln.get_xydata()) > 2)
    limit = sum(1 + (ids[g] + (o.execution_time or 0) > T) for g, o in ops.items() if o.execution_time is not None or not (o.input_count and o.output_count))
    c(n_busy <= limit, "schedule.extra_busy", lambda: f"{n_busy} busy outlines, at most {limit} expected")
    # connections
    curves = Counter()
    for p in ax.patches:
        if isinstance(p, PathPatch) and not isinstance(p, (Polygon, Rectangle)):
            v = p.get_path().vertices
            curves[(R(v[0][0]), R(v[0][1])), (R(v[-1][0]), R(v[-1][1]))] += 1
    straight = Counter()
    for ln in ax.lines:
        d = ln.get_xydata()
        if len(d) == 2 and R(d[0][1]) == R(d[1][1]):
            straight[tuple(sorted((R(x), R(y)) for x, y in d))] += 1
    goes_in = Counter()      # (point) of lines that come from the left border
    goes_out = set()
    for (p, q), n in straight.items():
        if p[0] < 0 and q[0] < T + 0.05 and q[0] >= 0:
            goes_in[q] += n
        else:
            goes_out.add(p)
    want_curves, want_in, want_out, laps = Counter(), Counter(), set(), Counter()
    n = 0
    for a, i, b, k, sig in wires(sfg):
        ga, gb = str(a.graph_id), str(b.graph_id)
        if ga not in ids or gb not in ids:
            continue
        n += 1
        xs, xe = ids[ga] + pos_out[ga, i][0], ids[gb] + pos_in[gb, k][0]
        L = s.laps[sig.graph_id]
        xs = xs % T if xs > T else xs
        xe = xe % T if xe > T else xe
        p, q = (R(xs), R(y0[ga] + pos_out[ga, i][1])), (R(xe), R(y0[gb] + pos_in[gb, k][1]))
        if xe < xs or L > 0:
            want_in[q] += 1
            want_out.add(p)
            laps[f"{ga}: {L}", q[1]] += 1
        else:
            want_curves[p, q] += 1
    c(curves == want_curves, "schedule.connections", lambda: f"drawn {dict(curves - want_curves)}, in the schedule {dict(want_curves - curves)}")
    c(goes_in == want_in, "schedule.wrapped_arrivals", lambda: f"drawn {dict(goes_in)}, in the schedule {dict(want_in)}; schedule time {T}")
    c(goes_out == want_out, "schedule.wrapped_departures", lambda: f"drawn {goes_out}, in the schedule {want_out}; schedule time {T}")
    got = Counter((t, R(p[1])) for t, p in texts if ": " in t)
    c(got == laps, "schedule.laps", lambda: f"drawn {dict(got)}, in the schedule {dict(laps)}")
    x = sorted(R(ln.get_xdata()[0]) for ln in ax.lines if len(ln.get_xdata()) == 2 and list(ln.get_ydata()) == [0, 1] and ln.get_xdata()[0] == ln.get_xdata()[1])
    c({0.0, R(T)} <= set(x), "schedule.borders", lambda: f"vertical lines at {x}, schedule time {T}")
    lo, hi = ax.get_xlim()
    bot, top = ax.get_ylim()
    c(lo < 0 and hi > T and top <= min(y0.values()) and bot >= max(y0.values()) + 1, "schedule.window", lambda: f"{ax.get_xlim(), ax.get_ylim()} for {T}, rows {y0}")
    ctx.count("operations", len(ids))
    ctx.count("connections", n)
    ctx.count("wrapped_connections", sum(want_in.values()))


def slack_table(ctx, s, order, rng):
    sfg = s._sfg if hasattr(s, "_sfg") else s.sfg
    tn = rng.choice([None, None, *sorted({str(o.type_name()) for o in sfg.operations})])
    if tn is not None and rng.random() < 0.4:
        arg = type(next(o for o in sfg.operations if o.type_name() == tn))
    else:
        arg = tn
    out = io.StringIO()
    with redirect_stdout(out):
        s.print_slacks(order, arg)
    rows_ = [tuple(x.strip() for x in ln.split("|")) for ln in out.getvalue().splitlines()[2:]]
    big = lambda v: "oo" if v >= sys.maxsize else str(v)  # noqa: E731
    ops = [o for o in sfg.operations if tn is None or (isinstance(o, arg) if isinstance(arg, type) else o.type_name() == tn)]
    want = {str(o.graph_id): (s.backward_slack(o.graph_id), s.forward_slack(o.graph_id)) for o in ops}
    ctx.check(Counter(rows_) == Counter((g, big(b), big(f)) for g, (b, f) in want.items()), "slacks.rows", lambda: f"print_slacks({order}, {arg}): {rows_}, schedule {want}")
    if order:
        v = [want[r[0]][order - 1] for r in rows_]
        ctx.check(v == sorted(v), "slacks.order", lambda: f"print_slacks({order}, {arg}): {rows_}")
    else:
        v = [[int(t) if t.isdigit() else t for t in re.split(r"(\d+)", r[0])] for r in rows_]
        ctx.check(v == sorted(v), "slacks.order", lambda: f"print_slacks({order}, {arg}): {rows_}")
    ctx.count("slack_rows", len(rows_))


# --- process collections --------------------------------------------------------------------------------------------------------------------

def collection(ctx):
    rng = ctx.rng
    kind = rng.choice(["plain", "plain", "memory", "operations"])
    if kind == "plain":
        P = rng.randint(1, 12)
        procs = []
        for i in range(rng.randint(1, 10)):
            t = rng.randint(0, P - 1)
            reads = {k: rng.randint(0 if rng.random() < 0.1 else 1, P) for k in range(rng.randint(1, 3))}
            procs.append(PlainMemoryVariable(t, i, reads, name=rng.choice(["v", "var", "x_"]) + str(i)))
        rng.shuffle(procs)
        ctx.sig = (P, tuple(sorted((p.start_time, tuple(sorted(p.reads.values()))) for p in procs)))
        ctx.sample = {"P": P, "processes": [repr(p) for p in procs]}
        return ProcessCollection(procs, P, cyclic=rng.random() < 0.7)
    j = Job(ctx, ops=rng.choice([LINEAR, BASIC]), n_ops=rng.randint(1, 9))
    s, _ = random_schedule(ctx, j, names=["asap", "alap", "list"])
    if s.schedule_time < 1:
        raise Skip("zero schedule time")
    if kind == "memory":
        pc = s.get_memory_variables()
        return pc
    try:
        return s.get_operations()
    except ValueError:
        raise Skip("operation without execution time") from None


def natural(p):
    return [int(t) if t.isdigit() else t for t in re.split("([0-9]+)", str(p))]


def judge_rows(ctx, ax, T, content, names, markers, shift=0, what=""):
    """content: row -> processes drawn there."""
    c = ctx.check
    bars = {}
    for b in ax.collections:
        if isinstance(b, PolyCollection) and not isinstance(b, PathCollection):
            for p in b.get_paths():
                x, y = p.vertices[:, 0], p.vertices[:, 1]
                row = round((y.min() + y.max()) / 2 - 1)
                bars.setdefault(row, []).append((min(x), max(x)))
    for row, procs in content.items():
        want = set()
        for p in procs:
            want |= {(p.start_time + k) % T for k in range(min(p.execution_time, T))}
        got = {t for t in range(T) if any(a < t + 0.5 < b for a, b in bars.get(row, ()))}
        c(got == want, "chart.bars", lambda: f"{what} row {row}: drawn at {sorted(got)}, occupied {sorted(want)} by {[repr(p) for p in procs]}; schedule time {T}")
        c(all(-0.06 <= a and b <= T + 0.06 for a, b in bars.get(row, ()) if b > a), "chart.outside", lambda: f"{what} row {row}: {bars.get(row)}, schedule time {T}")
        ctx.count("slots", len(want))
    c(set(bars) <= set(content), "chart.extra_rows", lambda: f"{what}: rows {sorted(bars)}, expected {sorted(content)}")
    if markers:
        writes, reads = MarkerStyle("o"), MarkerStyle("X")
        key = lambda m: tuple(map(R, m.get_path().transformed(m.get_transform()).vertices.ravel()))  # noqa: E731
        kinds = {key(writes): "w", key(reads): "r"}
        got = Counter()
        for b in ax.collections:
            if isinstance(b, PathCollection):
                k = kinds.get(tuple(map(R, b.get_paths()[0].vertices.ravel())))
                for x, y in b.get_offsets():
                    c(0 <= x <= T, "chart.marker_outside", lambda: f"{what}: marker at {x}, schedule time {T}")  # noqa: B023
                    got[k, round(y) - 1, round(float(x)) % T] += 1
        want = Counter()
        for row, procs in content.items():
            for p in procs:
                want["w", row, p.start_time % T] += 1
                for r in p.read_times:
                    want["r", row, r % T] += 1
        c(got == want, "chart.markers", lambda: f"{what}: drawn {dict(got - want)}, accesses {dict(want - got)}")
    else:
        c(not any(isinstance(b, PathCollection) for b in ax.collections), "chart.markers_unwanted", what)
    got = Counter((t.get_text(), round(t.xy[1]) - 1) for t in ax.texts)
    want = Counter((str(p), row) for row, procs in content.items() for p in procs) if names else Counter()
    c(got == want, "chart.names", lambda: f"{what}: drawn {dict(got - want)}, expected {dict(want - got)}")
    c(ax.get_xlim() == (0, T), "chart.window", lambda: f"{what}: {ax.get_xlim()}, schedule time {T}")


def case_collection(ctx):
    rng = ctx.rng
    pc = collection(ctx)
    T = pc.schedule_time
    c = ctx.check
    ctx.nontrivial = len(pc) > 2
    names, markers = rng.random() < 0.8, rng.random() < 0.8
    excess = [p for p in pc if p.execution_time > T]
    row = rng.choice([None, None, None, rng.randint(0, 4)])
    what = f"plot(show_name={names}, show_markers={markers}, row={row})"
    ctx.note(what)
    order = sorted(pc, key=natural)
    if excess:
        ctx.count("excessive")
    if not len(pc):
        raise Skip("empty")
    fig, ax = plt.subplots()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pc.plot(ax, show_name=names, show_markers=markers, row=row, allow_excessive_lifetimes=True)
    content = {i: [p] for i, p in enumerate(order)} if row is None else {row: order}
    if row is None:
        lo, hi = ax.get_ylim()
        c(lo < 0.55 and hi > len(pc) + 0.45, "chart.height", lambda: f"{lo, hi} for {len(pc)} processes")
    judge_rows(ctx, ax, T, content, names, markers, what=what)
    ctx.count("processes", len(pc))
    # access charts
    fig, axes = plt.subplots(3, 1)
    pc.plot_port_accesses(axes)
    w = Counter(p.start_time % T for p in pc)
    r = Counter(t % T for p in pc for t in p.read_times)
    for a, want, title in zip(axes, (r, w, r + w), ("Read", "Write", "Total"), strict=True):
        got = bars_of(a)
        c(got == dict(want) and a.get_title().startswith(title), "accesses", lambda: f"{a.get_title()}: drawn {got}, counted {dict(want)}")  # noqa: B023
        window(ctx, a, T)
    fig, a = plt.subplots()
    pc.plot_total_execution_times(a)
    use = Counter((p.start_time + k) % T for p in pc for k in range(p.execution_time))
    got = bars_of(a)
    c(got == dict(use), "execution_times", lambda: f"drawn {got}, counted {dict(use)}")
    window(ctx, a, T)
    ctx.count("bars", len(use) + len(w) + len(r))
    plt.close("all")


def bars_of(a):
    return {round(p.get_x() + p.get_width() / 2): round(p.get_height()) for p in a.patches if isinstance(p, Rectangle) and p.get_height()}


def window(ctx, a, T):
    lo, hi = a.get_xlim()
    ctx.check(lo <= -0.4 and hi >= T - 0.6, "accesses.window", lambda: f"{lo, hi} for {T}")


def case_resources(ctx):
    """The content charts of the resources of an architecture."""
    rng = ctx.rng
    j, s = c15.scheduled(ctx)
    pes, mems, direct = c15.manual(ctx, s)
    T = s.schedule_time
    for r in rng.sample([*pes, *mems], min(5, len(pes) + len(mems))):
        names, markers = rng.random() < 0.8, rng.random() < 0.8
        fig, ax = plt.subplots()
        r.plot_content(ax, show_name=names, show_markers=markers)
        if r.is_assigned:
            content = {i: list(q) for i, q in enumerate(r.assignment)}
        else:
            content = {i: [p] for i, p in enumerate(sorted(r.collection, key=natural))}
        judge_rows(ctx, ax, T, content, names, markers, what=f"{r.entity_name}.plot_content")
        ctx.count("resources")
        plt.close("all")


def case_empty(ctx):
    """Charts of collections with nothing, or nothing of a kind, in them."""
    rng = ctx.rng
    T = rng.randint(1, 9)
    procs = [PlainMemoryVariable(rng.randint(0, T - 1), 0, {0: 0}, name=f"z{i}") for i in range(rng.randint(0, 2))]
    pc = ProcessCollection(procs, T, cyclic=True)
    ctx.sig = (T, tuple(p.start_time for p in procs))
    fig, axes = plt.subplots(3, 1)
    pc.plot_port_accesses(axes)
    ctx.check(bars_of(axes[1]) == dict(Counter(p.start_time % T for p in procs)), "empty.accesses", lambda: str(bars_of(axes[1])))
    fig, a = plt.subplots()
    pc.plot_total_execution_times(a)
    ctx.check(bars_of(a) == {}, "empty.execution_times", lambda: str(bars_of(a)))
    window(ctx, a, T)
    if not procs:
        fig, ax = plt.subplots()
        pc.plot(ax)
        judge_rows(ctx, ax, T, {}, True, True, what="empty")
    ctx.count("empty_charts")
    plt.close("all")


KINDS = {
    "sfg": {"fn": case_sfg, "quick": 300, "thorough": 6000, "timeout": 60},
    "precedence": {"fn": case_precedence, "quick": 200, "thorough": 4000, "timeout": 60},
    "architecture": {"fn": case_architecture, "quick": 200, "thorough": 4000, "timeout": 90},
    "schedule": {"fn": case_schedule, "quick": 250, "thorough": 5000, "timeout": 60},
    "collection": {"fn": case_collection, "quick": 150, "thorough": 3000, "timeout": 60},
    "resources": {"fn": case_resources, "quick": 80, "thorough": 1500, "timeout": 90},
    "empty": {"fn": case_empty, "quick": 8, "thorough": 40, "timeout": 30},
}


if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS, level="exploration",
        rule="One case = one random SFG, schedule, process collection or architecture which is drawn with random options; the monitor has Graphviz parse the drawing (or reads the artists on the Matplotlib axes, or the printed table), "
             "reconstructs every node, connection, label, bar and marker from it and compares with the object, walked independently. Seed VERIF_SEED, index 0..n-1 per kind.",
    ))
