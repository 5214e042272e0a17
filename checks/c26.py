"""C26: the scheduling GUI shows the schedule it edits, and its actions are the schedule's edits."""
import contextlib
import copy
import io
import logging
import os
import pickle
import shutil
import sys
import tempfile

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
import matplotlib.pyplot as plt  # noqa: E402
from b_asic import Delay  # noqa: E402
from b_asic.special_operations import Input, Output  # noqa: E402
from b_asic.utility_operations import DontCare, Sink  # noqa: E402

from checks.c10 import State  # noqa: E402
from checks.c23 import picture  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402
from vh.gen import BASIC, LINEAR  # noqa: E402
from vh.job import Job, random_edit, random_schedule  # noqa: E402

PROP = "C26"
INDENT, ROW, HEIGHT = 0.2, 1.0, 0.75
Q = {}


def qt():
    """Qt and the window classes, loaded in the worker process with settings in a folder of its own."""
    if Q:
        return Q
    Q["dir"] = tempfile.mkdtemp(prefix="vh_c26_")
    os.environ["XDG_CONFIG_HOME"] = Q["dir"]
    import atexit

    atexit.register(shutil.rmtree, Q["dir"], ignore_errors=True)
    with contextlib.redirect_stderr(io.StringIO()):
        from qtpy import QtCore, QtGui, QtWidgets

        QtCore.qInstallMessageHandler(lambda *a: None)
        QtCore.QSettings.setPath(QtCore.QSettings.Format.NativeFormat, QtCore.QSettings.Scope.UserScope, Q["dir"])
        Q["app"] = QtWidgets.QApplication.instance() or QtWidgets.QApplication(["verif"])
        from b_asic.scheduler_gui import main_window, operation_item, scheduler_item, signal_item, timeline_item
    Q.update(core=QtCore, gui=QtGui, wid=QtWidgets, mw=main_window, Op=operation_item.OperationItem, Sched=scheduler_item.SchedulerItem,
             Sig=signal_item.SignalItem, Time=timeline_item.TimelineItem, errors=[])
    sys.excepthook = lambda t, v, tb: Q["errors"].append((t, v, tb))
    return Q


class Stand:
    """Stand-ins for the dialogs: what the user picks, and what was offered."""

    def __init__(self):
        self.menu = self.int = self.item = self.file = None
        self.offered = []
        wid = Q["wid"]

        def run_menu(menu, *a):
            self.offered = [(x.text(), x.isEnabled()) for x in menu.actions() if x.text()]
            for x in menu.actions():
                if x.text() == self.menu and x.isEnabled():
                    x.trigger()
        self.old = [(wid.QMenu, "exec_", run_menu), (wid.QMenu, "exec", run_menu),
                    (wid.QInputDialog, "getInt", lambda *a, **k: self.int), (wid.QInputDialog, "getItem", self.pick),
                    (wid.QFileDialog, "getSaveFileName", lambda *a, **k: (self.file, "")),
                    (wid.QFileDialog, "getOpenFileName", lambda *a, **k: (self.file, "All" if self.file else "")),
                    (wid.QMessageBox, "warning", lambda *a, **k: None), (wid.QMessageBox, "exec_", lambda *a: None)]

    def pick(self, parent, title, label, items, *a, **k):
        self.offered = list(items)
        return (self.item, True) if self.item is not None else ("", False)

    def __enter__(self):
        self.saved = [(c, n, c.__dict__.get(n, self)) for c, n, _ in self.old]
        for c, n, f in self.old:
            setattr(c, n, f)
        return self

    def __exit__(self, *a):
        for c, n, f in self.saved:
            if f is self:
                delattr(c, n)
            else:
                setattr(c, n, f)


def state(s):
    x = State(s)
    return x.key()


def rows(s):
    return {str(g): s.get_y_location(g) for g in s.start_times}


NAMES = ("start times", "schedule time", "cyclic", "laps", "latencies", "latencies", "execution times", "connections", "parameters")


class Session:
    def __init__(self, ctx, j, s, plots=False):
        qt()
        self.ctx, self.j = ctx, j
        self.given, self.given_state = s, state(s)
        Q["core"].QSettings().clear()
        Q["errors"].clear()
        self.w = w = Q["mw"].ScheduleMainWindow()
        w.resize(1000, 800)
        w.show()
        w.view.setSceneRect(-50, -50, 250, 150)  # or the view scrolls below the mouse while things move
        self.stand = Stand()
        self.dir = tempfile.mkdtemp(prefix="case_", dir=Q["dir"])
        self.files = {}
        self.current = None
        self.selected = None
        self.plots = {}
        self.printed = ""

    def close(self):
        self.w.close()
        for x in self.w._execution_time_plot_dialogs.values():
            if x:
                x.close()
        self.w.deleteLater()
        Q["app"].processEvents()
        shutil.rmtree(self.dir, ignore_errors=True)

    def do(self, what, fn):
        """Run a user action, with everything it prints; errors in slots count."""
        self.ctx.note(what)
        out = io.StringIO()
        with self.stand, contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            fn()
            Q["app"].processEvents()
        if Q["errors"]:
            t, v, tb = Q["errors"][0]
            while tb.tb_next:
                tb = tb.tb_next
            Q["errors"].clear()
            self.ctx.check(False, "action_crashes", lambda: f"{what}: {t.__name__}: {v} ({os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno})")
        self.printed = out.getvalue()
        self.ctx.count("actions." + what.split()[0])

    # -- the schedule -------------------------------------------------------

    def reference(self):
        return copy.deepcopy(self.w.schedule)

    def expect(self, what, ref, order=True, printed=True, before=None):
        """The schedule after the action is the reference; so is what the printed commands give."""
        c, s = self.ctx.check, self.w.schedule
        for mech, r in (("edit", ref), ("printed_commands", before)):
            if r is None:
                continue
            if mech == "printed_commands":
                lines = [x for x in self.printed.splitlines() if x.startswith("schedule.")]
                try:
                    for x in lines:
                        exec(x, {"schedule": r})
                except Exception as e:
                    self.ctx.check(False, mech, lambda: f"{what}: printed {lines}: {e!r}")
            for name, a, b in zip(NAMES, state(s), state(r), strict=True):
                c(a == b, mech, lambda: f"{what}: {name} are {a}, expected {b}" + (f"; printed {self.printed!r}" if mech != "edit" else ""))
            if order:
                c(rows(s) == rows(r), mech + "_rows", lambda: f"{what}: rows {rows(s)}, expected {rows(r)}; printed {self.printed!r}")

    # -- what is shown ---------------------------------------------------------

    def look(self, what):
        ctx, w = self.ctx, self.w
        c = ctx.check
        scene = w.view.scene()
        graphs = [i for i in scene.items() if isinstance(i, Q["Sched"])]
        table = [tuple(w.info_table.item(r, k).text() if w.info_table.item(r, k) else "" for k in (0, 1)) for r in range(w.info_table.rowCount())]
        if w.schedule is None:
            c(not graphs and not [i for i in scene.items() if isinstance(i, (Q["Op"], Q["Sig"]))], "closed_still_shown", what)
            c(len(table) == 2, "closed_table", lambda: f"{what}: information shown {table}")
            return
        c(state(self.given) == self.given_state, "given_changed", lambda: f"{what}: the schedule handed in changed")
        c(len(graphs) == 1, "graphs", lambda: f"{what}: {len(graphs)} schedules in the scene")
        g, s = graphs[0], w.schedule
        c(g.schedule is s, "other_schedule", what)
        sfg, T = s._sfg, s.schedule_time
        ops = {str(i.graph_id): i for i in scene.items() if isinstance(i, Q["Op"])}
        n_ops = sum(isinstance(i, Q["Op"]) for i in scene.items())
        c(n_ops == len(ops) and set(ops) == set(map(str, s.start_times)), "operations", lambda: f"{what}: shown {sorted(ops)} ({n_ops} items), scheduled {sorted(s.start_times)}")
        ctx.count("operations_seen", len(ops))
        numbers = w.action_show_port_numbers.isChecked()
        port = {}
        for gid, item in ops.items():
            o = sfg.find_by_id(gid)
            at = (item.pos().x(), item.pos().y())
            want = (INDENT + s.start_times[gid], 0.25 + s.get_y_location(gid) * ROW)
            c(max(abs(a - b) for a, b in zip(at, want)) < 1e-6, "operation_position", lambda: f"{what}: {gid} shown at {at}, expected {want}; start {s.start_times[gid]} of {T}, row {s.get_y_location(gid)}")
            texts = [x for x in item.childItems() if isinstance(x, Q["wid"].QGraphicsSimpleTextItem)]
            label = [x.text() for x in texts if x.text() == gid]
            c(len(label) == 1, "operation_label", lambda: f"{what}: {gid} has texts {[x.text() for x in texts]}")
            rest = sorted(x.text() for x in texts if x.text() != gid)
            c(rest == sorted([str(i) for i in range(o.input_count)] + [str(i) for i in range(o.output_count)]), "port_numbers", lambda: f"{what}: {gid} {rest}")
            c(all(x.isVisible() == numbers for x in texts if x.text() != gid) or not rest, "port_numbers_shown", lambda: f"{what}: port numbers of {gid} visible {[x.isVisible() for x in texts if x.text() != gid]}, switched {'on' if numbers else 'off'}")
            for pre, ports, xs in (("in", o.inputs, o.get_input_coordinates()), ("out", o.outputs, o.get_output_coordinates())):
                for i, (p, (x, y)) in enumerate(zip(ports, xs, strict=True)):
                    c(x == p.latency_offset, "port_time", lambda: f"{what}: {pre}{i} of {gid} drawn at {x}, latency offset {p.latency_offset}")
                    loc = item.get_port_location(f"{pre}{i}")
                    port[gid, pre, i] = loc.x(), loc.y()
                    c(abs(loc.x() - want[0] - p.latency_offset) < 1e-6 and abs(loc.y() - want[1] - y * HEIGHT) < 1e-6, "port_position", lambda: f"{what}: {pre}{i} of {gid} at {loc.x(), loc.y()}")
            shapes = []
            for x in item.childItems():
                if isinstance(x, Q["wid"].QGraphicsPathItem):
                    p = x.path()
                    shapes.append(sorted({(round(p.elementAt(k).x, 6), round(p.elementAt(k).y, 6)) for k in range(p.elementCount())}))
            want_shapes = [sorted({(round(x, 6), round(y * HEIGHT, 6)) for x, y in q}) for q in o.get_plot_coordinates() if q]
            c(sorted(shapes) == sorted(want_shapes), "operation_shape", lambda: f"{what}: {gid} drawn as {shapes}, expected {want_shapes}")
        # connections
        want = {}
        laps = {str(k): v for k, v in s.laps.items()}
        for gid in ops:
            o = sfg.find_by_id(gid)
            for i, p in enumerate(o.inputs):
                sg = p.signals[0]
                u = str(sg.source.operation.graph_id)
                if u in ops:
                    late = s.start_times[u] + sg.source.latency_offset > T
                    want[gid, i] = (u, sg.source.index, laps.get(str(sg.graph_id), 0) + late)
        sigs = [i for i in scene.items() if isinstance(i, Q["Sig"])]
        c(len(sigs) == len(want), "connections", lambda: f"{what}: {len(sigs)} connections drawn, {len(want)} in the graph")
        warn = w.action_incorrect_execution_time.isChecked()
        left = dict(want)
        move = Q["gui"].QPainterPath.ElementType.MoveToElement
        paths = {}
        for k, (u, jx, d) in want.items():
            a, b = port[u, "out", jx], port[k[0], "in", k[1]]
            p = Q["gui"].QPainterPath()
            p.moveTo(*a)
            if d > 0 or b[0] - a[0] <= -0.1:
                p.lineTo(T + INDENT, a[1])
                p.moveTo(INDENT, b[1])
                p.lineTo(*b)
                paths[k] = elements(p)
            else:
                paths[k] = None
        for it in sigs:
            pts = elements(it.path())
            hit = []
            for k, (u, jx, _) in left.items():
                if paths[k] is not None:
                    ok = len(pts) == len(paths[k]) and all(near(p, q) and p[2] == q[2] for p, q in zip(pts, paths[k], strict=True))
                else:
                    ok = [q[2] == move for q in pts].count(True) == 1 and near(pts[0], port[u, "out", jx]) and near(pts[-1], port[k[0], "in", k[1]])
                if ok:
                    hit.append(k)
            c(hit, "connection_drawn", lambda: f"{what}: drawn {pts}, not drawn { {k: (v, port[v[0], 'out', v[1]], port[k[0], 'in', k[1]], paths[k]) for k, v in left.items()} }; schedule time {T}")
            best = hit[0]
            u, jx, d = left.pop(best)
            o, v = sfg.find_by_id(u), sfg.find_by_id(best[0])
            life = s.start_times[best[0]] + v.input(best[1]).latency_offset - s.start_times[u] - o.output(jx).latency_offset + d * T
            long = warn and life > T
            if len(hit) == 1 and not isinstance(o, DontCare):
                color = it.pen().color().name()
                ref = Q["mw"].__dict__
                from b_asic.scheduler_gui import _preferences as pref

                wc, nc = pref.SIGNAL_WARNING_COLOR_TYPE.DEFAULT.name(), pref.SIGNAL_COLOR_TYPE.DEFAULT.name()
                c(color == (wc if long else nc), "connection_warning", lambda: f"{what}: {u} to {best} has life time {life} of {T}, drawn in {color}, warnings {'on' if warn else 'off'}")
        ctx.count("connections_seen", len(sigs))
        # axes
        ax = g.axes
        c(ax.width == T, "axis_width", lambda: f"{what}: axis for {ax.width}, schedule time {T}")
        ox = ax.scenePos().x()
        lines = sorted(round(x.scenePos().x() - ox - INDENT, 3) for x in ax.childItems() if isinstance(x, Q["Time"]))
        c(len(lines) == T + 1 and all(abs(a - k) < 0.05 for k, a in enumerate(lines)), "axis_lines", lambda: f"{what}: lines at {lines}, schedule time {T}")
        handle = ax.event_items[0]
        c(abs(handle.scenePos().x() - ox - INDENT - T) < 0.05, "time_line", lambda: f"{what}: time line at {handle.scenePos().x() - ox - INDENT}, schedule time {T}")
        nums = sorted((int(x.text()), x.sceneBoundingRect().center().x() - ox - INDENT) for x in ax.childItems() if isinstance(x, Q["wid"].QGraphicsSimpleTextItem) and x.text().isdigit())
        c([k for k, _ in nums] == list(range(T + 1)) and all(abs(k - x) < 0.25 for k, x in nums), "axis_numbers", lambda: f"{what}: numbers {nums}, schedule time {T}")
        bottom = max(i.pos().y() for i in ops.values()) + HEIGHT
        c(ax.pos().y() >= bottom - 1e-6, "axis_position", lambda: f"{what}: axis at {ax.pos().y()}, operations down to {bottom}")
        tall = [x.line().length() for x in ax.childItems() if isinstance(x, Q["wid"].QGraphicsLineItem) and x.line().dx() == 0]
        c(any(abs(t - ax.pos().y()) <= ROW / 2 + 1e-6 for t in tall), "axis_height", lambda: f"{what}: vertical lines of lengths {tall}, horizontal axis at {ax.pos().y()}")
        # information
        head = [r[0] for r in table]
        c(head.count("Schedule Time") == 1 and dict(table)["Schedule Time"] == str(T), "table_schedule_time", lambda: f"{what}: {table}, schedule time {T}")
        c(head.count("Cyclic") == 1 and dict(table)["Cyclic"] == str(s.cyclic), "table_cyclic", lambda: f"{what}: {table}")
        k = head.index("Operator")
        got = table[k + 1:]
        if self.selected is None:
            c(not got, "table_left_over", lambda: f"{what}: nothing selected, shown {got}")
        else:
            o = sfg.find_by_id(self.selected)
            want = [("ID", str(o.graph_id))] + ([("Name", str(o.name))] if o.name else []) + [(a, str(b)) for a, b in o.params.items()]
            slack = lambda v: str(v) if v < sys.maxsize else "∞"  # noqa: E731
            want += [("Forward slack", slack(s.forward_slack(o.graph_id))), ("Backward slack", slack(s.backward_slack(o.graph_id)))]
            c(got == want, "table_operation", lambda: f"{what}: shown {got}, expected {want}")
        self.look_plots(what)
        ctx.count("views_checked")

    def look_plots(self, what):
        s, w = self.w.schedule, self.w
        for name, (dialog, draw) in list(self.plots.items()):
            n = 3 if name == "ports" else 1
            fig, axs = plt.subplots(n, 1, squeeze=False)
            try:
                draw(s, list(axs[:, 0]) if n == 3 else axs[0, 0])
                dia = dialog()
                self.ctx.check(dia is not None, "plot_window", lambda: f"{what}: no window for {name}")
                got = dia.axes if n == 3 else [dia.axes]
                for a, b in zip(got, axs[:, 0], strict=True):
                    ga, gb = marks(a), marks(b)
                    self.ctx.check(ga == gb, "plot_stale", lambda: f"{what}: {name} shows {ga}, expected {gb}")
                self.ctx.count("plots_checked")
            finally:
                plt.close(fig)


def marks(ax):
    return (sorted(t.get_text() for t in ax.texts), sorted(tuple(round(float(v), 6) for v in p.get_path().get_extents(p.get_patch_transform()).extents) for p in ax.patches),
            sorted(str([[round(float(v), 6) for v in q] for q in k.get_xydata()]) for k in ax.lines), len(ax.collections))


def elements(p):
    return [(p.elementAt(k).x, p.elementAt(k).y, p.elementAt(k).type) for k in range(p.elementCount())]


def near(a, b, tol=1e-3):
    return abs(a[0] - b[0]) < tol and abs(a[1] - b[1]) < tol


# --- user actions -----------------------------------------------------------------------------------------------------------------------

def mouse(w, kind, btn, btns, sp):
    v = w.view
    p = v.mapFromScene(sp)
    e = Q["gui"].QMouseEvent(kind, Q["core"].QPointF(p), Q["core"].QPointF(v.viewport().mapToGlobal(p)), btn, btns, Q["core"].Qt.KeyboardModifier.NoModifier)
    held = v.scene().mouseGrabberItem()
    if held is not None:
        held.sceneTransform()  # as painting does; Qt maps the position with the last one known
    Q["app"].sendEvent(v.viewport(), e)


def op_items(ses):
    its = [i for i in ses.w.view.scene().items() if isinstance(i, Q["Op"])]
    return sorted(its, key=lambda i: str(i.graph_id))


def grab(ses, point, btn):
    """Press at a point of the scene; the item that takes the mouse."""
    box = []

    def press():
        ses.w.view.centerOn(point)
        mouse(ses.w, Q["core"].QEvent.Type.MouseButtonPress, btn, btn, point)
        box.append(ses.w.view.scene().mouseGrabberItem())
    return press, box


def drag(ses):
    rng, w = ses.ctx.rng, ses.w
    qc = Q["core"]
    L, N = qc.Qt.MouseButton.LeftButton, qc.Qt.MouseButton.NoButton
    item = rng.choice(op_items(ses))
    r = [x for x in item.childItems() if isinstance(x, Q["wid"].QGraphicsPathItem)][0].sceneBoundingRect()
    start = qc.QPointF(r.left() + r.width() * rng.uniform(0.3, 0.7), r.top() + r.height() * rng.uniform(0.3, 0.7))
    press, box = grab(ses, start, L)
    before, ref = ses.reference(), ses.reference()
    dx = rng.choice([0, 0, 1, -1, 1, -1, 2, -2, 3, -3, rng.randint(-8, 8)])
    dy = rng.choice([0, 0, 0, 1, -1, 0.5, -0.5, 1.5, -1.5, 2, -2, 3, -3]) if rng.random() < 0.5 else 0
    if dx and rng.random() < 0.8:
        dy = 0
    back = rng.random() < 0.15
    path = [((k - e) * (1 if dx > 0 else -1), 0) for k in range(1, abs(dx) + 1) for e in (0.6, 0)]
    path += [(dx, k / 2 * (1 if dy > 0 else -1)) for k in range(1, int(2 * abs(dy)) + 1)]
    if back:
        path += [(x, y) for x, y in reversed(path[:-1])] + [(0, 0)]
    wrong = []

    def act():
        press()
        if not isinstance(box[0], Q["Op"]):
            return
        for x, y in path:
            mouse(w, qc.QEvent.Type.MouseMove, N, L, start + qc.QPointF(x, y))
            it = box[0]
            for sg in (i for i in w.view.scene().items() if isinstance(i, Q["Sig"])):
                p = sg.path()
                a, b = p.elementAt(0), p.elementAt(p.elementCount() - 1)
                wrong.append(((a.x, a.y), (b.x, b.y)))
            if len(wrong) > 400:
                wrong.clear()
        ends = {(round(q.x(), 3), round(q.y(), 3)) for i in op_items(ses) for k in ports(i) for q in [i.get_port_location(k)]}
        for sg in (i for i in w.view.scene().items() if isinstance(i, Q["Sig"])):
            p = sg.path()
            for e in (p.elementAt(0), p.elementAt(p.elementCount() - 1)):
                ses.ctx.check(near((e.x, 0), (INDENT, 0)) or (round(e.x, 3), round(e.y, 3)) in ends, "connection_left_behind", lambda: f"dragging {box[0].graph_id}: an end at {e.x, e.y} is at no port")
        x, y = path[-1] if path else (0, 0)
        mouse(w, qc.QEvent.Type.MouseButtonRelease, L, N, start + qc.QPointF(x, y))
    s = w.schedule
    ses.do(f"drag {item.graph_id} by {dx}, {dy}" + (" and back" if back else ""), act)
    if not isinstance(box[0], Q["Op"]):
        mouse(w, qc.QEvent.Type.MouseButtonRelease, L, N, start)
        ses.ctx.count("drags.missed")
        if ses.w.view.scene().mouseGrabberItem() is not None:
            box[0].ungrabMouse()
        ses.expect("press", ref, before=None)
        return
    gid = str(box[0].graph_id)
    ses.selected = gid
    what = f"drag of {gid} by {dx}, {dy}" + (" and back" if back else "")
    t0, T = before.start_times[gid], before.schedule_time
    o = before._sfg.find_by_id(gid)
    b, f = before.slacks(gid)
    t1 = w.schedule.start_times[gid]
    # how far it went, up to whole periods
    moved = [k for k in range(min(0, dx), max(0, dx) + 1) if (t0 + k - t1) % T == 0] if T else [0]
    ses.ctx.check(moved, "drag_distance", lambda: f"{what}: from {t0} to {t1}, schedule time {T}")
    if back:
        moved = [k for k in moved if k == 0] or moved
    inside = -b <= dx <= f and 0 <= t0 + dx and t0 + dx + (0 if before.cyclic else o.latency) <= T - (1 if before.cyclic and not isinstance(o, (Output, Sink)) else 0)
    try:
        copy.deepcopy(before).move_operation(gid, dx)
        refused = False
    except ValueError:
        refused = True
    if inside and not back and not refused:
        ses.ctx.check(dx in moved, "drag_stops", lambda: f"{what}: from {t0} to {t1} of {T}, slacks {b, f}")
        moved = [dx]
        ses.ctx.count("drags.full")
    elif not back:
        ses.ctx.count("drags.limited")
    lines = [x for x in ses.printed.splitlines() if "move_operation" in x]
    said = []
    for x in lines:
        with contextlib.suppress(Exception):
            said.append(int(x[x.rindex(",") + 1:x.rindex(")")]))
    if len(moved) > 1:
        moved = [k for k in moved if k == sum(said)] or moved
    if moved[0]:
        try:
            ref.move_operation(gid, moved[0])
        except ValueError as e:
            ses.ctx.check(False, "drag_refused", lambda: f"{what}: from {t0} to {t1} of {T}, refused by the schedule: {e}")
        ses.ctx.count("drags.moved")
    y0, y1 = before.get_y_location(gid), w.schedule.get_y_location(gid)
    if dx == 0 and dy and not back:
        y = y0 + dy
        ref.move_y_location(gid, max(-int(-y // 1), 0), y % 1 != 0 or y < 0)
        ses.ctx.count("drags.rows")
    elif rows(w.schedule) != rows(before):
        ref = None if dy else ref
    if ref is not None:
        ses.expect(what, ref)
    ses.expect(what, None, before=before)


def ports(item):
    o = item.operation
    return [f"in{i}" for i in range(o.input_count)] + [f"out{i}" for i in range(o.output_count)]


def timeline(ses):
    rng, w = ses.ctx.rng, ses.w
    qc = Q["core"]
    L, N = qc.Qt.MouseButton.LeftButton, qc.Qt.MouseButton.NoButton
    g = [i for i in w.view.scene().items() if isinstance(i, Q["Sched"])][0]
    handle = g.axes.event_items[0]
    top = handle.sceneBoundingRect()
    start = None
    for _ in range(6):
        p = qc.QPointF(handle.scenePos().x(), top.top() + top.height() * rng.random())
        under = [i for i in w.view.scene().items(p)]
        if not any(isinstance(i, Q["Op"]) for i in under):
            start = p
            break
    if start is None:
        return
    press, box = grab(ses, start, L)
    dx = rng.choice([1, 2, 3, -1, -2, -3, 1, -1])
    before, ref = ses.reference(), ses.reference()
    T = before.schedule_time

    def act():
        press()
        if box[0] is not handle:
            return
        for k in range(1, abs(dx) + 1):
            for e in (0.6, 0):
                mouse(w, qc.QEvent.Type.MouseMove, N, L, start + qc.QPointF((k - e) * (1 if dx > 0 else -1), 0))
        mouse(w, qc.QEvent.Type.MouseButtonRelease, L, N, start + qc.QPointF(dx, 0))
    ses.do(f"timeline by {dx}", act)
    if box[0] is not handle:
        if isinstance(box[0], Q["Op"]):
            ses.selected = str(box[0].graph_id)
        ses.ctx.count("timeline.missed")
        mouse(w, qc.QEvent.Type.MouseButtonRelease, L, N, start)
        if box[0] is not None and w.view.scene().mouseGrabberItem() is not None:
            box[0].ungrabMouse()
        return
    end = before.get_max_end_time()
    want = max(T + dx, min(T, end)) if dx < 0 or T + 1 >= end else T  # the line moves one step at a time
    if want != T:
        ref.set_schedule_time(want)
        ses.ctx.count("timeline.changed")
    ses.expect(f"time line by {dx} from {T}, last end {before.get_max_end_time()}", ref, before=before)


def menu(ses):
    rng, w = ses.ctx.rng, ses.w
    qc = Q["core"]
    R, N = qc.Qt.MouseButton.RightButton, qc.Qt.MouseButton.NoButton
    item = rng.choice(op_items(ses))
    start = [x for x in item.childItems() if isinstance(x, Q["wid"].QGraphicsPathItem)][0].sceneBoundingRect().center()
    press, box = grab(ses, start, R)
    ses.stand.menu = rng.choice(["Swap", "Move as soon as possible", "Move as late as possible", "Swap", "Move as soon as possible", "Move as late as possible", None])
    ses.stand.offered = []
    before, ref = ses.reference(), ses.reference()
    who = []

    def act():
        w.view.centerOn(start)
        scene = w.view.scene()
        old = Q["Op"]._open_context_menu

        def opened(it):
            who.append(str(it.graph_id))
            old(it)
        Q["Op"]._open_context_menu = opened
        try:
            mouse(w, qc.QEvent.Type.MouseButtonPress, R, R, start)
            mouse(w, qc.QEvent.Type.MouseButtonRelease, R, N, start)
        finally:
            Q["Op"]._open_context_menu = old
    ses.do(f"menu {item.graph_id} {ses.stand.menu}", act)
    if not who:
        ses.ctx.count("menu.missed")
        return
    gid = who[0]
    what = f"{ses.stand.menu} of {gid}"
    off = dict(ses.stand.offered)
    o = before._sfg.find_by_id(gid)
    b, f = before.slacks(gid)
    ses.ctx.check(off.get("Swap") == bool(o.is_swappable), "menu_swap", lambda: f"{what}: offered {off}")
    ses.ctx.check(off.get("Move as soon as possible") == (b > 0) and off.get("Move as late as possible") == (f > 0), "menu_moves", lambda: f"{what}: offered {off}, slacks {b, f}")
    pick = ses.stand.menu
    if not off.get(pick):
        ses.expect(what + " (not offered)", ref, before=before)
        return
    if pick == "Swap":
        ref.swap_io_of_operation(gid)
    elif pick.endswith("soon as possible"):
        ref.move_operation_asap(gid)
    else:
        ref.move_operation_alap(gid)
    ses.ctx.count("menu.done")
    ses.selected = None
    ses.expect(what, ref, before=before)


def toolbar(ses):
    rng, w = ses.ctx.rng, ses.w
    before, ref = ses.reference(), ses.reference()
    k = rng.choice(["forward", "backward", "increase", "decrease", "reorder", "numbers", "warnings", "cancel", "zoom"])
    what = f"toolbar {k}"
    if k in ("forward", "backward"):
        try:
            ref = ref.rotate_forward() if k == "forward" else ref.rotate_backward()
        except Exception as e:
            ses.ctx.note(repr(e))
            return
        ses.do(what, (w.actionRotateForward if k == "forward" else w.actionRotateBackward).trigger)
        ses.selected = None
        ses.expect(what, ref)
        ses.expect(what, None, order=False)
    elif k == "increase":
        f = rng.choice([1, 2, 2, 3])
        if before.schedule_time * f > 80:
            return
        ses.stand.int = (f, True)
        ses.do(f"{what} {f}", w.actionIncrease_time_resolution.trigger)
        if f > 1:
            ref.increase_time_resolution(f)
            ses.selected = None
        ses.expect(f"{what} {f}", ref, before=before)
    elif k == "decrease":
        fs = before.get_possible_time_resolution_decrements()
        f = rng.choice(fs)
        ses.stand.item = str(f)
        ses.do(f"{what} {f}", w.actionDecrease_time_resolution.trigger)
        ses.ctx.check(ses.stand.offered == [str(x) for x in fs], "offered_factors", lambda: f"{ses.stand.offered}, possible {fs}")
        if f > 1:
            ref.decrease_time_resolution(f)
            ses.selected = None
        ses.expect(f"{what} {f}", ref, before=before)
    elif k == "cancel":
        ses.stand.int, ses.stand.item = (2, False), None
        ses.do(what, rng.choice([w.actionIncrease_time_resolution, w.actionDecrease_time_resolution]).trigger)
        ses.expect(what, ref, before=before)
    elif k == "reorder":
        ses.do(what, w.actionReorder.trigger)
        ref.reset_y_locations()
        ref.sort_y_locations_on_start_times()
        ses.expect(what, ref)
    elif k == "numbers":
        ses.do(what, w.action_show_port_numbers.trigger)
        ses.expect(what, ref, before=before)
    elif k == "warnings":
        ses.do(what, w.action_incorrect_execution_time.trigger)
        ses.expect(what, ref, before=before)
    else:
        ses.do(what, rng.choice([w.actionZoom_to_fit, w.actionZoom_to_fit_ignore_aspect_ratio, w.actionToggle_full_screen, w.actionStatus_bar]).trigger)
        w.actionRestore_aspect_ratio.trigger()
        ses.expect(what, ref, before=before)


def contents(d):
    out = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            with open(p, "rb") as fh:
                out[f] = fh.read()
    return out


def files(ses):
    rng, w, ctx = ses.ctx.rng, ses.w, ses.ctx
    c = ctx.check
    k = rng.choice(["save_as", "save_as", "save", "open", "load", "recent", "cancel"])
    before = contents(ses.dir)
    ref = ses.reference()
    if k in ("save_as", "cancel"):
        name = rng.choice(["a", "b.bsc", "c d", "e.x"])
        path = os.path.join(ses.dir, name)
        ses.stand.file = path if k == "save_as" else ""
        ses.do(f"{k} {name}", w.menu_save_as.trigger)
        after = contents(ses.dir)
        new = {f for f in after if after[f] != before.get(f)}
        full = name if name.endswith(".bsc") else name + ".bsc"
        if k == "cancel":
            c(after == before, "cancelled_save", lambda: f"wrote {new}")
        else:
            c(new <= {full} and full in after, "saved_files", lambda: f"save as {name} wrote {new}")
            ses.current = full
            ses.files[full] = state(w.schedule)
            written(ses, full, f"save as {name}")
    elif k == "save":
        ses.stand.file = os.path.join(ses.dir, "new.bsc")
        had = ses.current
        ses.do("save", w.menu_save.trigger)
        after = contents(ses.dir)
        new = {f for f in after if after[f] != before.get(f)}
        full = had or "new.bsc"
        c(new <= {full} and full in after, "save_overwrites", lambda: f"save wrote {new}; the schedule came from {had or 'no saved file'}")
        ses.current = full
        ses.files[full] = state(w.schedule)
        written(ses, full, "save")
    elif k in ("open", "recent") and ses.files:
        f = rng.choice(sorted(ses.files))
        ses.stand.file = os.path.join(ses.dir, f)
        if k == "open":
            ses.do(f"open {f}", w.menu_open.trigger)
        else:
            acts = [a for a in w.menu_Recent_Schedule.actions() if a.isVisible() and a.text().endswith(os.sep + f)]
            if not acts:
                ctx.count("recent.gone")
                c(len([a for a in w.menu_Recent_Schedule.actions() if a.isVisible()]) >= min(4, len(ses.files)), "recent_missing", lambda: f"{f} is not among {[a.text() for a in w.menu_Recent_Schedule.actions()]}")
                return
            ses.do(f"recent {f}", acts[0].trigger)
        ses.selected, ses.current = None, f
        c(state(w.schedule) == ses.files[f], "opened_schedule", lambda: f"{f} opened as {state(w.schedule)}, saved {ses.files[f]}")
        c(contents(ses.dir) == before, "open_writes", f)
    elif k == "load":
        other = os.path.join(ses.dir, "data.pickle")
        with open(other, "wb") as fh:
            pickle.dump(ref, fh)
        path = os.path.join(ses.dir, "made.py")
        with open(path, "w") as fh:
            fh.write(f"import pickle\nwith open({other!r}, 'rb') as f:\n    sched = pickle.load(f)\n")
        before = contents(ses.dir)
        ses.stand.file = path
        sys.dont_write_bytecode = True
        ses.do("load made.py", w.menu_load_from_file.trigger)
        ses.selected, ses.current = None, None
        ses.expect("load from a Python file", ref, order=False)
        c(contents(ses.dir) == before, "load_writes", "the folder changed")


def written(ses, name, what):
    with open(os.path.join(ses.dir, name), "rb") as f:
        got = pickle.load(f)
    for n, a, b in zip(NAMES, state(got), state(ses.w.schedule), strict=True):
        ses.ctx.check(a == b, "saved_schedule", lambda: f"{what}: {n} in the file {a}, schedule {b}")
    ses.ctx.check(rows(got) == rows(ses.w.schedule), "saved_rows", lambda: f"{what}: {rows(got)}, {rows(ses.w.schedule)}")


def windows(ses):
    """Plot windows stay up to date with the schedule."""
    rng, w = ses.ctx.rng, ses.w
    k = rng.choice(["variables", "total_variables", "ports", "type", "total_type"])
    if k in ("type", "total_type"):
        m = w.menu_view_execution_times if k == "type" else w.menu_view_total_execution_times_of_type
        acts = {a.text(): a for a in m.actions()}
        ses.ctx.check(set(acts) == set(map(str, w.schedule.get_used_type_names())), "type_menu", lambda: f"{sorted(acts)}, types {w.schedule.get_used_type_names()}")
        t = rng.choice(sorted(acts))
        ses.do(f"plot {k} {t}", acts[t].trigger)
        if k == "type":
            ses.plots[k + t] = (lambda: w._execution_time_plot_dialogs[t], lambda s, ax: s.get_operations().get_by_type_name(t).plot(ax))
        else:
            ses.plots[k + t] = (lambda: w._total_execution_time_plot_dialogs[t], lambda s, ax: s.get_operations().get_by_type_name(t).plot_total_execution_times(ax))
    elif k == "variables":
        ses.do("plot variables", w.action_view_variables.trigger)
        ses.plots[k] = (lambda: w._execution_time_for_variables, lambda s, ax: s.get_memory_variables().plot(ax, allow_excessive_lifetimes=True))
    elif k == "total_variables":
        ses.do("plot total variables", w.action_total_execution_times_of_variables.trigger)
        ses.plots[k] = (lambda: w._total_execution_time_for_variables, lambda s, ax: s.get_memory_variables().plot_total_execution_times(ax))
    else:
        ses.do("plot ports", w.action_view_port_accesses.trigger)
        ses.plots[k] = (lambda: w._ports_accesses_for_storage, lambda s, ax: s.get_memory_variables().split_on_length()[1].plot_port_accesses(ax))


def shut(ses):
    w = ses.w
    ses.do("close", w.menu_close_schedule.trigger)
    ses.selected = None
    ses.ctx.check(w.schedule is None, "close", "the schedule is still there")
    ses.plots.clear()
    ses.look("close")
    acts = [a for a in (w.actionRotateForward, w.actionRotateBackward, w.actionReorder, w.actionIncrease_time_resolution, w.actionDecrease_time_resolution,
                        w.action_show_port_numbers, w.action_incorrect_execution_time, w.menu_save, w.menu_save_as, w.menu_close_schedule, w.action_view_variables,
                        w.action_view_port_accesses, w.action_total_execution_times_of_variables) if a.isEnabled()]
    ses.stand.int, ses.stand.item, ses.stand.file = (2, True), None, ""
    a = ses.ctx.rng.choice(acts)
    ses.do(f"nothing-open {a.objectName()}", a.trigger)
    ses.look("action on no schedule")


def graph(ctx):
    rng = ctx.rng
    j = Job(ctx, ops=rng.choice([LINEAR, BASIC]), named=rng.random() < 0.3)
    s, _ = random_schedule(ctx, j, names=["asap", "alap", "list", "recursive"])
    for _ in range(rng.choice([0, 0, 2, 5])):
        random_edit(ctx, s, j)
    if s.schedule_time > 40:
        raise Skip("long")
    return j, s


def session(ctx, weights, steps, plots=False):
    j, s = graph(ctx)
    ses = Session(ctx, j, s)
    try:
        ses.do("open schedule", lambda: ses.w.open(s))
        ses.look("open")
        ses.expect("open", s, order=False)
        acts = [drag, timeline, menu, toolbar, files, windows, shut]
        for _ in range(steps):
            if ses.w.schedule is None:
                ses.do("open schedule", lambda: ses.w.open(s))
                ses.current = ses.current if ses.current else None
            a = ctx.rng.choices(acts, weights)[0]
            if a is windows:
                # a new window of one kind replaces the earlier one
                pass
            a(ses)
            ses.look(ctx.trace[-1] if ctx.trace else "")
    finally:
        ses.close()


def case_moves(ctx):
    session(ctx, [8, 3, 0, 1, 0, 0, 0], ctx.rng.randint(4, 12))


def case_mixed(ctx):
    session(ctx, [4, 2, 4, 4, 0, 0, 0.3], ctx.rng.randint(4, 12))


def case_files(ctx):
    session(ctx, [2, 1, 1, 2, 6, 0, 0], ctx.rng.randint(4, 12))


def case_plots(ctx):
    session(ctx, [3, 2, 2, 3, 0, 5, 0], ctx.rng.randint(3, 6))


def case_start(ctx):
    """start_scheduler returns the edited schedule and leaves the given one alone."""
    j, s = graph(ctx)
    qt()
    wid, mw = Q["wid"], Q["mw"]
    before = state(s)
    got = {}
    Q["core"].QSettings().clear()
    Q["errors"].clear()

    def loop(*a):
        w = [x for x in wid.QApplication.topLevelWidgets() if isinstance(x, mw.ScheduleMainWindow) and x.isVisible()]
        got["n"] = len(w)
        if not w:
            return 0
        w = w[-1]
        with contextlib.suppress(Exception):
            for _ in range(ctx.rng.randint(0, 3)):
                (w.actionRotateForward if ctx.rng.random() < 0.5 else w.actionRotateBackward).trigger()
        got["w"] = w
        got["state"] = state(w.schedule)
        return 0
    old = {n: wid.QApplication.__dict__.get(n) for n in ("exec_", "exec")}
    try:
        for n in old:
            setattr(wid.QApplication, n, loop)
        with contextlib.redirect_stdout(io.StringIO()):
            r = mw.start_scheduler(s)
    finally:
        for n, f in old.items():
            if f is None:
                delattr(wid.QApplication, n)
            else:
                setattr(wid.QApplication, n, f)
        if got.get("w"):
            got["w"].close()
            got["w"].deleteLater()
            Q["app"].processEvents()
    ctx.check(got.get("n") == 1, "window", lambda: f"{got.get('n')} windows")
    ctx.check(state(r) == got["state"], "returned_schedule", lambda: f"{state(r)}, shown {got['state']}")
    ctx.check(state(s) == before, "given_changed", "start_scheduler changed the schedule given")


KINDS = {
    "moves": {"fn": case_moves, "quick": 150, "thorough": 6000, "timeout": 120},
    "mixed": {"fn": case_mixed, "quick": 150, "thorough": 6000, "timeout": 120},
    "files": {"fn": case_files, "quick": 80, "thorough": 3000, "timeout": 120},
    "plots": {"fn": case_plots, "quick": 40, "thorough": 1200, "timeout": 90},
    "start": {"fn": case_start, "quick": 20, "thorough": 300, "timeout": 120},
}

if __name__ == "__main__":
    sys.exit(run_check(PROP, KINDS, rule="at least 5 nodes"))
