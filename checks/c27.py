"""C27: the SFG editor shows the graph it holds, and creates, saves, loads and simulates what it shows."""
import contextlib
import io
import logging
import os
import re
import shutil
import sys
import tempfile
import time
import warnings

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
import numpy as np  # noqa: E402
import b_asic as ba  # noqa: E402
from b_asic.port import InputPort  # noqa: E402
from b_asic.special_operations import Input, Output  # noqa: E402

from vh.core import Skip, run_check  # noqa: E402
from vh.gen import LINEAR, close  # noqa: E402
from vh.simh import simulate, unique_names, usable_net  # noqa: E402

PROP = "C27"
SIZE, PORT, GAP, GRID = 57, 19, 19, 19
Q = {}


def qt():
    if Q:
        return Q
    Q["dir"] = tempfile.mkdtemp(prefix="vh_c27_")
    os.environ["XDG_CONFIG_HOME"] = Q["dir"]
    import atexit

    atexit.register(shutil.rmtree, Q["dir"], ignore_errors=True)
    with contextlib.redirect_stderr(io.StringIO()):
        from qtpy import QtCore, QtGui, QtWidgets
        from qtpy.QtTest import QTest

        QtCore.qInstallMessageHandler(lambda *a: None)
        QtCore.QSettings.setPath(QtCore.QSettings.Format.NativeFormat, QtCore.QSettings.Scope.UserScope, Q["dir"])
        Q["app"] = QtWidgets.QApplication.instance() or QtWidgets.QApplication(["verif"])
        from b_asic.sfg_gui import main_window
        from b_asic.sfg_gui.arrow import Arrow
    Q.update(core=QtCore, gui=QtGui, wid=QtWidgets, mw=main_window, Arrow=Arrow, test=QTest, errors=[], text=None, file=None)
    sys.excepthook = lambda t, v, tb: Q["errors"].append(repr(v))
    QtWidgets.QErrorMessage.showMessage = lambda self, m, *a: Q["errors"].append(m)
    QtWidgets.QInputDialog.getText = staticmethod(lambda *a, **k: (Q["text"] or "", Q["text"] is not None))
    QtWidgets.QFileDialog.getSaveFileName = lambda *a, **k: (Q["file"] or "", "All" if Q["file"] else "")
    QtWidgets.QFileDialog.getOpenFileName = lambda *a, **k: (Q["file"] or "", "All" if Q["file"] else "")
    return Q


def val(v):
    return repr(complex(v)) if isinstance(v, (int, float, complex)) and not isinstance(v, bool) else repr(v)


def par(o):
    d = {k: val(v) for k, v in o.params.items()}
    return (type(o).__name__, tuple(sorted(d.items())))


class Box:
    """What is known of one operation on the scene."""

    def __init__(self, button):
        self.b = button
        self.kind = par(button.operation)
        self.name = str(button.operation.name)
        self.lat = dict(button.operation.latency_offsets)
        self.flip = False
        self.pos = None  # unknown until placed
        self.sfg = None


class Session:
    def __init__(self, ctx):
        qt()
        self.ctx = ctx
        Q["core"].QSettings().clear()
        Q["errors"].clear()
        with contextlib.redirect_stdout(io.StringIO()):
            self.w = Q["mw"].SFGMainWindow()
        self.w.resize(1400, 1000)
        self.w.show()
        self.dir = tempfile.mkdtemp(prefix="case_", dir=Q["dir"])
        self.boxes = []
        self.edges = set()  # (source box, output, destination box, input)
        self.sfgs = {}  # name -> boxes
        self.log = []
        self.pump()

    def pump(self):
        Q["app"].processEvents()

    def close(self):
        self.w.close()
        self.w.deleteLater()
        self.pump()
        shutil.rmtree(self.dir, ignore_errors=True)

    def errors(self, what):
        if Q["errors"]:
            e = "; ".join(str(x).strip()[-300:] for x in Q["errors"])
            Q["errors"].clear()
            self.ctx.fail("error", f"{what}: {e}")

    # -- monitors --------------------------------------------------------------
    def audit(self, what):
        ctx, w = self.ctx, self.w
        self.pump()
        self.errors(what)
        ctx.count("pictures")
        at = {id(x.b): x for x in self.boxes}
        ctx.check(sorted(map(id, w._drag_buttons.values())) == sorted(at), "buttons", lambda: f"{len(w._drag_buttons)} buttons, expected {len(at)} after {what}")
        shown = [i.widget() for i in w._scene.items() if isinstance(i, Q["wid"].QGraphicsProxyWidget) and i.parentItem() is None]
        ctx.check(sorted(map(id, shown)) == sorted(at), "shown", lambda: f"{len(shown)} operations shown, expected {len(at)} after {what}")
        for op, b in w._drag_buttons.items():
            x = at[id(b)]
            ctx.check(b.operation is op, "operation", lambda: f"button of {x.kind} holds another operation after {what}")
            ctx.check(par(op) == x.kind, "parameters", lambda: f"{par(op)}, expected {x.kind} after {what}")
            ctx.check(str(op.name) == x.name, "name", lambda: f"name {op.name!r}, expected {x.name!r} after {what}")
            ctx.check(dict(op.latency_offsets) == x.lat, "latency", lambda: f"{x.kind}: {op.latency_offsets}, expected {x.lat} after {what}")
            ctx.check(b.is_flipped() == x.flip, "flip", lambda: f"{x.kind} {b.is_flipped()} after {what}")
            if x.pos is not None:
                item = w._drag_operation_scenes[b]
                ctx.check((b.x(), b.y()) == x.pos == (item.x(), item.y()), "position", lambda: f"{x.kind} at {(b.x(), b.y())}, expected {x.pos} after {what}")
            ports = list(op.inputs) + list(op.outputs)
            ctx.check([p.port for p in b.port_list] == ports and all(p.operation is op for p in b.port_list), "ports", lambda: f"ports of {x.kind} after {what}")
            for p in b.port_list:
                n = op.input_count if isinstance(p.port, InputPort) else op.output_count
                left = isinstance(p.port, InputPort) != x.flip
                y = (b.height() - PORT) // 2 if n == 1 else (PORT + GAP) * p.port.index
                ctx.check((p.x(), p.y()) == (0 if left else SIZE - PORT, y), "port_position", lambda: f"{x.kind} {p.port.name} at {(p.x(), p.y())} after {what}")
        arrows = [i for i in w._scene.items() if isinstance(i, Q["Arrow"])]
        ctx.check(sorted(map(id, arrows)) == sorted(map(id, w._arrow_ports)), "arrows_shown", lambda: f"{len(arrows)} shown, {len(w._arrow_ports)} held after {what}")
        got = []
        for a in arrows:
            s, d = at.get(id(a.source_operation_button)), at.get(id(a.destination_operation_button))
            ctx.check(s is not None and d is not None, "arrow_ends", lambda: f"an arrow of removed operations after {what}")
            got.append((s, a.source_port.index, d, a.destination_port.index))
            ctx.check(a.signal.source is a.source_port and a.signal.destination is a.destination_port, "arrow_signal",
                      lambda: f"the signal of an arrow {s.kind[0]} to {d.kind[0]} connects other ports after {what}")
            a.update_arrow()
            p = a.path()
            for k, (port, b) in ((0, (a.source_port_button, s.b)), (p.elementCount() - 1, (a.destination_port_button, d.b))):
                e = p.elementAt(k)
                left = isinstance(port.port, InputPort) != b.is_flipped()
                want = (b.x() + port.x() + (0 if left else PORT), b.y() + port.y() + PORT / 2)
                ctx.check((e.x, e.y) == want, "arrow_path", lambda: f"arrow end at {(e.x, e.y)}, port at {want} after {what}")
        ctx.check(len(got) == len(set(got)) and set(got) == self.edges, "arrows", lambda: f"{len(got)} arrows ({len(set(got))}), expected {len(self.edges)} after {what}")
        for x in self.boxes:
            for port in list(x.b.operation.inputs) + list(x.b.operation.outputs):
                n = sum(1 for e in self.edges if (e[2] is x and e[3] == port.index if isinstance(port, InputPort) else e[0] is x and e[1] == port.index))
                ctx.check(len(port.signals) == n, "signals", lambda: f"{x.kind[0]} {port.name} has {len(port.signals)} signals, {n} shown after {what}")
        ctx.check(set(w._sfg_dict) == set(self.sfgs), "sfgs", lambda: f"SFGs {sorted(w._sfg_dict)}, expected {sorted(self.sfgs)} after {what}")
        for name, boxes in self.sfgs.items():
            sfg = w._sfg_dict[name]
            ctx.check(str(sfg.name) == name, "sfg_name", lambda: f"{sfg.name!r} listed as {name!r} after {what}")
            ctx.check({id(o) for o in sfg.operations} == {id(x.b.operation) for x in boxes}, "sfg_operations",
                      lambda: f"SFG {name} has {[o.graph_id for o in sfg.operations]}, shown {[x.b.operation.graph_id for x in boxes]} after {what}")
            ctx.check({id(c) for c in sfg.components if isinstance(c, ba.Signal)} == {id(a.signal) for a in arrows if at[id(a.source_operation_button)] in boxes}, "sfg_signals", lambda: f"after {what}")
            ctx.check(all(x.b.toolTip() == name for x in boxes), "tooltip", lambda: f"{[x.b.toolTip() for x in boxes]} after {what}")

    # -- actions ---------------------------------------------------------------
    def place(self, x):
        """Drag an operation to a random place."""
        rng = self.ctx.rng
        b = x.b
        dx, dy = rng.randint(-300, 300), rng.randint(-300, 300)
        if abs(dx) + abs(dy) < 5:
            dx = 40
        old = (b.x(), b.y())
        M, E = Q["core"].Qt.MouseButton, Q["core"].QEvent.Type
        with_ = [y for y in self.boxes if y.b in self.w._pressed_operations] if b in self.w._pressed_operations else [x]
        olds = {y: (y.b.x(), y.b.y()) for y in with_}
        for t, pos, button, buttons in ((E.MouseButtonPress, (20, 4), M.LeftButton, M.LeftButton), (E.MouseMove, (20 + dx, 4 + dy), M.NoButton, M.LeftButton),
                                        (E.MouseButtonRelease, (20, 4), M.LeftButton, M.NoButton)):
            p = Q["core"].QPointF(*pos)
            Q["app"].sendEvent(b, Q["gui"].QMouseEvent(t, p, p, button, buttons, Q["core"].Qt.KeyboardModifier.NoModifier))
        for y in with_:
            q = (olds[y][0] + dx, olds[y][1] + dy)
            y.pos = (GRID * round(q[0] / GRID), GRID * round(q[1] / GRID)) if y is x else q
        self.log.append(f"drag {x.kind[0]} {old} by {(dx, dy)}")

    def click(self, widget, ctrl=False):
        K = Q["core"].Qt.KeyboardModifier
        Q["test"].mouseClick(widget, Q["core"].Qt.MouseButton.LeftButton, K.ControlModifier if ctrl else K.NoModifier, Q["core"].QPoint(8, 4))

    def add(self, name):
        w = self.w
        lists = [w._ui.core_operations_list, w._ui.special_operations_list, w._ui.utility_operations_list]
        items = [x for li in lists for x in li.findItems(name, Q["core"].Qt.MatchFlag.MatchExactly)]
        self.ctx.check(len(items) == 1, "listed", lambda: f"{name} is listed {len(items)} times")
        had = set(map(id, w._drag_buttons.values()))
        with contextlib.redirect_stdout(io.StringIO()):
            items[0].listWidget().itemClicked.emit(items[0])
        new = [b for b in w._drag_buttons.values() if id(b) not in had]
        self.ctx.check(len(new) == 1 and type(new[0].operation).__name__ == name, "added", lambda: f"clicking {name} made {new}")
        x = Box(new[0])
        self.boxes.append(x)
        self.log.append(f"add {name}")
        return x

    def port(self, x, out, i):
        return x.b.port_list[i + (x.b.operation.input_count if out else 0)]

    def drag_wire(self, a, b):
        """Press the mouse on one port, move, and release on another."""
        core, gui = Q["core"], Q["gui"]
        M, E, K = core.Qt.MouseButton, core.QEvent.Type, core.Qt.KeyboardModifier.NoModifier
        drop = []

        def run(drag, *args):
            p, act = core.QPointF(5, 5), core.Qt.DropAction
            mime = drag.mimeData()
            drop.append(1)
            for ev in (gui.QDragEnterEvent(core.QPoint(5, 5), act.CopyAction, mime, M.LeftButton, K), gui.QDropEvent(p, act.CopyAction, mime, M.LeftButton, K)):
                Q["app"].sendEvent(b, ev)
            return act.CopyAction
        old = gui.QDrag.__dict__.get("exec")
        gui.QDrag.exec = run
        try:
            p = core.QPointF(5, 5)
            for t, button, buttons in ((E.MouseButtonPress, M.LeftButton, M.LeftButton), (E.MouseMove, M.NoButton, M.LeftButton), (E.MouseButtonRelease, M.LeftButton, M.NoButton)):
                Q["app"].sendEvent(a, gui.QMouseEvent(t, p, p, button, buttons, K))
        finally:
            if old is None:
                del gui.QDrag.exec
            else:
                gui.QDrag.exec = old
        self.ctx.check(len(drop) == 1, "drag_wire", "no drag started")
        self.ctx.count("wires_dragged")

    def connect(self, s, o, dests):
        if len(dests) == 1 and self.ctx.rng.random() < 0.3:
            a, b = self.port(s, True, o), self.port(*dests[0][:1], False, dests[0][1])
            if self.ctx.rng.random() < 0.5:
                a, b = b, a
            self.drag_wire(a, b)
            self.wired(s, o, dests)
            return
        self.click(self.port(s, True, o))
        for d, i in dests:
            self.click(self.port(d, False, i), ctrl=True)
        want = [self.port(s, True, o)] + [self.port(d, False, i) for d, i in dests]
        self.ctx.check(self.w._pressed_ports == want and all(p.pressed for p in want), "selected_ports", lambda: f"{len(self.w._pressed_ports)} ports selected, {len(want)} clicked")
        if self.ctx.rng.random() < 0.5:
            self.w._shortcut_signal.activated.emit()
        else:
            want[0].connectionRequested.emit(want[0])
        self.wired(s, o, dests)

    def wired(self, s, o, dests):
        for d, i in dests:
            if any(e[2] is d and e[3] == i for e in self.edges):
                self.ctx.count("refused_connections")
                continue
            self.edges.add((s, o, d, i))
            self.invalidate(s, d)
        self.log.append(f"connect {s.kind[0]}.{o} to {[(d.kind[0], i) for d, i in dests]}")

    def invalidate(self, *boxes):
        for x in boxes:
            for n, bs in list(self.sfgs.items()):
                if x in bs:
                    del self.sfgs[n]

    def drop_edge(self, e):
        a = [a for a in self.w._arrow_ports if a.source_port_button is self.port(e[0], True, e[1]) and a.destination_port_button is self.port(e[2], False, e[3])]
        self.ctx.check(len(a) == 1, "arrow_of", lambda: f"{len(a)} arrows of a signal")
        a[0].remove()
        self.edges.discard(e)
        self.invalidate(e[0], e[2])
        self.log.append("delete arrow")

    def forget(self, x):
        for e in list(self.edges):
            if x in (e[0], e[2]):
                self.edges.discard(e)
        self.invalidate(x)
        self.boxes.remove(x)

    def delete(self, xs):
        if len(xs) == 1 and self.ctx.rng.random() < 0.5:
            xs[0].b.remove()
        else:
            self.select(xs)
            Q["test"].keyClick(self.w, Q["core"].Qt.Key.Key_Delete)
        for x in xs:
            # SFGs that lose a neighbour's signal are gone as well
            for e in self.edges:
                if x in (e[0], e[2]):
                    self.invalidate(e[0], e[2])
            self.forget(x)
        self.log.append(f"delete {[x.kind[0] for x in xs]}")

    def select(self, xs):
        if self.ctx.rng.random() < 0.2 and len(xs) == len(self.boxes):
            self.w._ui.select_all.trigger()
        else:
            for k, x in enumerate(xs):
                self.click(x.b, ctrl=k > 0)
                if x.pos is not None:  # releasing the button snaps to the grid
                    x.pos = tuple(GRID * round(v / GRID) for v in x.pos)
        got = self.w._pressed_operations
        self.ctx.check(sorted(map(id, got)) == sorted(id(x.b) for x in xs) and all(x.b.pressed == (x in xs) for x in self.boxes), "selection",
                       lambda: f"{len(got)} selected, {len(xs)} clicked; pressed {sum(x.b.pressed for x in self.boxes)}; {self.log}")
        self.ctx.count("selections")

    def component(self, x):
        seen = {x}
        todo = [x]
        while todo:
            y = todo.pop()
            for e in self.edges:
                for z in (e[0], e[2]):
                    if y in (e[0], e[2]) and z not in seen:
                        seen.add(z)
                        todo.append(z)
        return [y for y in self.boxes if y in seen]

    def sound(self, boxes):
        """Every input port driven, every Input used, at least one output."""
        for x in boxes:
            for i in range(x.b.operation.input_count):
                if not any(e[2] is x and e[3] == i for e in self.edges):
                    return False
            if x.kind[0] == "Input" and not any(e[0] is x for e in self.edges):
                return False
        return any(x.kind[0] == "Output" for x in boxes)

    def create(self, name, boxes):
        """Create an SFG of the I/O operations of a component."""
        ctx = self.ctx
        io_ = [x for x in boxes if x.kind[0] in ("Input", "Output")]
        ctx.rng.shuffle(io_)
        extra = [x for x in boxes if x not in io_ and ctx.rng.random() < 0.2]
        self.select(io_ + extra)
        order = [x for b in self.w._pressed_operations for x in self.boxes if x.b is b]
        Q["text"] = name
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.w.create_sfg_from_toolbar()
        Q["text"] = None
        self.errors(f"creating {name} after {self.log}")
        ctx.check(name in self.w._sfg_dict, "created", lambda: f"{name} was not created after {self.log}")
        sfg = self.w._sfg_dict[name]
        for kind, ops in (("Input", sfg.input_operations), ("Output", sfg.output_operations)):
            want = [x.b.operation for x in order if x.kind[0] == kind]
            ctx.check([id(o) for o in ops] == [id(o) for o in want], "io_order", lambda: f"{kind}s of {name} differ from those selected, in order")
        for n, bs in list(self.sfgs.items()):
            if n != name and set(bs) & set(boxes):
                # the other SFG is kept as it was, but its operations now belong to this one
                self.stale.add(n)
        self.sfgs[name] = boxes
        self.log.append(f"create {name}")
        ctx.count("created")

    stale = None

    def properties(self, x):
        rng, ctx = self.ctx.rng, self.ctx
        x.b.show_properties_window()
        self.errors(f"properties of {x.kind}")
        d = x.b._properties_window
        ctx.check(d is not None and d.isVisible(), "dialog", lambda: f"no properties window for {x.kind}")
        op = x.b.operation
        text = d._edit_name.text()
        ctx.check(text == (x.b.name or str(op.type_name())), "dialog_name", lambda: f"{text!r}")
        if rng.random() < 0.5:
            text = rng.choice(["a b", "foo", f"n{rng.randint(0, 99)}", text])
            d._edit_name.setText(text)
        new = dict(op.params)
        key = next((k for k in ("value", "initial_value") if hasattr(op, k)), None)
        if key and rng.random() < 0.6 and not isinstance(op, Input) and not isinstance(getattr(op, key), (tuple, list)):
            ctx.check(d._edit_constant.text() == str(getattr(op, key)), "dialog_value", lambda: d._edit_constant.text())
            integer = type(op).__name__ in ("LeftShift", "RightShift", "Shift")
            v = rng.randint(0, 4) if integer else rng.choice([0.5, 0.25, 0.75] if "Adaptor" in type(op).__name__ else [0.5, -1.25, 2, 3.0, -0.0625])
            d._edit_constant.setText(str(v))
            new[key] = v
        for p, f in d._latency_fields.items():
            want = op.latency_offsets[p]
            ctx.check(f.placeholderText() == str(-1 if want is None else want), "dialog_latency", lambda: f"{p}: {f.placeholderText()}, is {want}")
            if rng.random() < 0.4 and type(op).__name__ not in ("Input", "Output", "Delay", "Constant", "Sink", "DontCare"):
                v = rng.choice([0, 1, 2, 7, -1])
                f.setText(str(v))
                x.lat[p] = None if v < 0 else v
        show = rng.random() < 0.7
        d._check_show_name.setChecked(show)
        d._ok_button.click()
        self.errors(f"OK in the properties of {x.kind}")
        x.name = text
        x.kind = (x.kind[0], tuple(sorted((k, val(v)) for k, v in new.items())))
        ctx.check(x.b.label.toPlainText() == text and x.b.label.opacity() == (1 if show else 0), "label", lambda: f"{x.b.label.toPlainText()!r} {x.b.label.opacity()}")
        ctx.check(not d.isVisible(), "dialog_closed", "the properties window stays")
        self.log.append(f"properties of {x.kind[0]}")
        ctx.count("properties")

    def flip(self, x):
        x.b._flip()
        x.flip = not x.flip

    def save(self, name):
        Q["file"] = path = os.path.join(self.dir, f"f{len(os.listdir(self.dir))}.py")
        self.w.save_work()
        self.errors("save")
        d = self.w.sfg_widget
        self.ctx.check([d._sfg_combo_box.itemText(i) for i in range(d._sfg_combo_box.count())] == list(self.w._sfg_dict), "offered", "SFGs offered to save")
        d._sfg_combo_box.setCurrentText(name)
        d._ok_button.click()
        self.errors("save")
        Q["file"] = None
        self.ctx.check(os.path.exists(path), "saved", f"{name} was not saved")
        return path

    def key(self, boxes):
        """The picture of some operations, which all have different names."""
        inside = {x.name: (x.kind, tuple(sorted((k, v) for k, v in x.lat.items() if v is not None)), (x.b.x(), x.b.y()), x.flip) for x in boxes}
        return inside, sorted((e[0].name, e[1], e[2].name, e[3]) for e in self.edges if e[0] in boxes)

    def adopt(self, name):
        """Take over what a load added."""
        known = {id(x.b) for x in self.boxes}
        new = [Box(b) for b in self.w._drag_buttons.values() if id(b) not in known]
        at = {id(x.b): x for x in self.boxes + new}
        for x in new:
            x.flip = x.b.is_flipped()
            x.pos = (x.b.x(), x.b.y())
        self.boxes += new
        sfg = self.w._sfg_dict.get(name)
        self.ctx.check(sfg is not None, "loaded", lambda: f"{name} not among {sorted(self.w._sfg_dict)}")
        byop = {id(x.b.operation): x for x in new}
        self.ctx.check(set(byop) == {id(o) for o in sfg.operations}, "loaded_operations", f"the operations shown are not those of {name}")
        for s in [c for c in sfg.components if isinstance(c, ba.Signal)]:
            self.edges.add((byop[id(s.source_operation)], s.source.index, byop[id(s.destination_operation)], s.destination.index))
        self.sfgs[name] = new
        assert at
        return new

    def load(self, sfg, **kw):
        with contextlib.redirect_stdout(io.StringIO()):
            self.w._load_sfg(sfg, **kw)
        self.errors("load")
        self.log.append(f"load {sfg.name}")
        return self.adopt(str(sfg.name))

    def load_file(self, path, name, how="menu"):
        Q["file"] = path
        with contextlib.redirect_stdout(io.StringIO()):
            if how == "recent":
                a = [x for x in self.w._recent_files_actions if x.isVisible() and x.text() == path]
                self.ctx.check(len(a) == 1, "recent", lambda: f"{path} is not among recent files")
                a[0].trigger()
            else:
                self.w._ui.load_menu.trigger()
        Q["file"] = None
        self.errors("load from file")
        self.log.append("load file")
        return self.adopt(name)


def small_net(ctx, **kw):
    net, x, ys, _ = usable_net(ctx, n_ops=ctx.rng.randint(1, 8), n_iter=10, names=False, **kw)
    unique_names(net)
    return net, x, ys


def case_load(ctx):
    """Opening a graph shows it; moving, flipping, editing and deleting follow."""
    rng = ctx.rng
    net, x, ys = small_net(ctx)
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    sfg = net.build(rng, name="foo")
    pos = {o.graph_id: (rng.randint(-500, 500), rng.randint(-500, 500), rng.random() < 0.3) for o in sfg.operations if rng.random() < 0.8}
    s = Session(ctx)
    s.stale = set()
    try:
        bs = s.load(sfg, positions=pos)
        for b in bs:
            g = b.b.operation.graph_id
            if g in pos:
                ctx.check((b.b.x(), b.b.y(), b.flip) == pos[g], "load_position", lambda: f"{g} at {(b.b.x(), b.b.y(), b.flip)}, saved at {pos[g]}")
        s.audit("load")
        ctx.nontrivial = len(bs) > 4
        for _ in range(rng.randint(2, 8)):
            if not s.boxes:
                break
            k = rng.randrange(7)
            b = rng.choice(s.boxes)
            if k == 0:
                s.place(b)
            elif k == 1:
                s.flip(b)
            elif k == 2:
                s.properties(b)
            elif k == 3:
                s.select(rng.sample(s.boxes, rng.randint(1, min(4, len(s.boxes)))))
            elif k == 4:
                s.w._ui.select_all.trigger()
                ctx.check(len(s.w._pressed_operations) == len(s.boxes) and all(y.b.pressed for y in s.boxes), "select_all", lambda: f"{len(s.w._pressed_operations)} of {len(s.boxes)}")
                s.w._ui.unselect_all.trigger()
                ctx.check(not s.w._pressed_operations and not any(y.b.pressed for y in s.boxes), "unselect_all", lambda: f"{len(s.w._pressed_operations)} selected")
            elif k == 5 and rng.random() < 0.5:
                s.delete(rng.sample(s.boxes, rng.randint(1, min(3, len(s.boxes)))))
            elif k == 6 and s.edges and rng.random() < 0.5:
                s.drop_edge(rng.choice(sorted(s.edges, key=lambda e: (e[0].name, e[1], e[2].name, e[3]))))
            s.audit(str(s.log))
        if rng.random() < 0.3:
            s.w._clear_workspace()
            s.boxes, s.edges, s.sfgs = [], set(), {}
            s.audit("clear")
    finally:
        s.close()


OPS = ["Addition", "Subtraction", "Negation", "ConstantMultiplication", "Delay", "Multiplication", "AddSub", "SquareRoot", "Absolute", "Min", "MAD", "Constant",
       "LeftShift", "RightShift", "Sink"]


def grow(s, n_in, n_out, n_ops, tag):
    """Draw a complete graph by adding operations and connecting their ports."""
    rng = s.ctx.rng
    names = ["Input"] * n_in + ["Output"] * n_out + [rng.choice(OPS[:-1]) for _ in range(n_ops)]
    rng.shuffle(names)
    new = [s.add(n) for n in names]
    for k, x in enumerate(new):
        s.place(x)
    srcs = [x for x in new if x.b.operation.output_count]
    order = [x for x in new if x.kind[0] not in ("Input", "Output")]
    # a chain for the Inputs, so that everything is used
    need = [(x, i) for x in new for i in range(x.b.operation.input_count)]
    rng.shuffle(need)
    use = list(srcs)
    rng.shuffle(use)
    done = {x for x in new if x.kind[0] in ("Input", "Constant", "Delay")}
    dests = {}
    for x in order + [y for y in new if y.kind[0] == "Output"]:
        for i in range(x.b.operation.input_count):
            cands = [y for y in srcs if y in done] if x.kind[0] != "Delay" else srcs
            fresh = [y for y in cands if (y, 0) not in dests]
            y = rng.choice(fresh or cands)
            dests.setdefault((y, 0), []).append((x, i))
        done.add(x)
    for (y, o), ds in dests.items():
        while ds:
            k = rng.randint(1, len(ds))
            s.connect(y, o, ds[:k])
            ds = ds[k:]
    return new


def reference(sfg_boxes, s):
    """An SFG of its own, built from the picture."""
    made = {}
    for x in sfg_boxes:
        cls = type(x.b.operation)
        kw = {k: eval(v) for k, v in x.kind[1]}  # noqa: S307 - reprs of numbers and booleans
        kw = {k: (v.real if isinstance(v, complex) and v.imag == 0 else v) for k, v in kw.items()}
        for k in ("shift_output", "value"):
            if k in kw and cls.__name__ in ("Addition", "Subtraction", "AddSub", "LeftShift", "RightShift"):
                kw[k] = int(kw[k])
        made[x] = cls(**kw)
    for e in s.edges:
        if e[0] in made:
            made[e[2]].input(e[3]).connect(made[e[0]].output(e[1]))
    return made


def case_draw(ctx):
    """Graphs drawn by hand become the SFG drawn; save and load give the same picture."""
    rng = ctx.rng
    s = Session(ctx)
    s.stale = set()
    try:
        for t in range(rng.choice([1, 1, 2])):
            grow(s, rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 6), f"g{t}")
        s.audit("drawing")
        ctx.sig = str(sorted((e[0].kind[0], e[1], e[2].kind[0], e[3]) for e in s.edges))
        ctx.sample = s.log
        for _ in range(rng.randint(0, 5)):
            x = rng.choice(s.boxes)
            k = rng.randrange(3)
            (s.properties if k == 0 else s.flip if k == 1 else s.place)(x)
        # all different names, so that operations are known after loading
        for k, x in enumerate(s.boxes):
            x.b.show_properties_window()
            x.b._properties_window._edit_name.setText(f"n{k}")
            x.b._properties_window._ok_button.click()
            x.name = f"n{k}"
        s.audit("properties")
        n = 0
        for step in range(rng.randint(1, 5)):
            comps = []
            for x in s.boxes:
                if not any(x in c for c in comps):
                    c = s.component(x)
                    comps.append(c)
            good = [c for c in comps if s.sound(c)]
            k = rng.randrange(6) if step else 0
            if k <= 1 and good:
                c = rng.choice(good)
                # drawing over an SFG again is a new SFG; leave the first alone
                if any(set(c) & set(b) for b in s.sfgs.values()):
                    continue
                s.create(f"sfg {n}", c)
                n += 1
                check_sfg(s, c, s.w._sfg_dict[f"sfg {n - 1}"])
            elif k == 2 and s.edges:
                s.drop_edge(rng.choice(sorted(s.edges, key=lambda e: (e[0].name, e[1], e[2].name, e[3]))))
            elif k == 3 and len(s.boxes) > 2:
                s.delete(rng.sample(s.boxes, rng.randint(1, 2)))
            elif k == 4:
                a = [x for x in s.boxes if x.b.operation.output_count]
                d = [(x, i) for x in s.boxes for i in range(x.b.operation.input_count)]
                if a and d:
                    x, q = rng.choice(a), rng.choice(d)
                    s.connect(x, rng.randrange(x.b.operation.output_count), [q])
            elif k == 5:
                free = [(x, i) for x in s.boxes for i in range(x.b.operation.input_count) if not any(e[2] is x and e[3] == i for e in s.edges)]
                a = [x for x in s.boxes if x.kind[0] == "Input"]
                if free and a:
                    s.connect(rng.choice(a), 0, free[:2])
            s.audit(str(s.log[-4:]))
        if not s.sfgs:
            raise Skip("no SFG")
        ctx.nontrivial = len(s.edges) > 3
        name = rng.choice(sorted(s.sfgs))
        boxes = s.sfgs[name]
        want = s.key(boxes)
        path = s.save(name)
        s.audit("save")
        ctx.count("saves")
        t = Session(ctx)
        t.stale = set()
        try:
            if rng.random() < 0.3:
                # beside another
                o = Input(name="i")
                t.load(ba.SFG([o], [Output(ba.Negation(o, name="m"), name="o")], name="other"))
            new = t.load_file(path, name)
            t.audit("load")
            got = t.key(new)
            for g in sorted(set(want[0]) | set(got[0])):
                ctx.check(got[0].get(g) == want[0].get(g), "reloaded", lambda: f"{g} is {got[0].get(g)}, saved {want[0].get(g)}")
            ctx.check(got[1] == want[1], "reloaded_signals", lambda: f"{got[1]}, saved {want[1]}")
            check_sfg(t, new, t.w._sfg_dict[name])
            t.w._clear_workspace()
            t.boxes, t.edges, t.sfgs = [], set(), {}
            t.audit("clear")
            new = t.load_file(path, name, "recent")
            t.audit("load recent")
            ctx.check(t.key(new) == want, "reloaded", "another picture when loading again")
        finally:
            t.close()
    finally:
        s.close()


def check_sfg(s, boxes, sfg):
    """The SFG computes what the picture says."""
    ctx = s.ctx
    made = reference(boxes, s)
    byop = {id(x.b.operation): made[x] for x in boxes}
    x = [[ctx.rng.choice([0.5, 1, -0.75, 2, 0.25, -1]) for _ in range(6)] for _ in sfg.input_operations]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        ref = ba.SFG([byop[id(o)] for o in sfg.input_operations], [byop[id(o)] for o in sfg.output_operations])
        try:
            want = simulate(ref, x, 6)
        except (ArithmeticError, TypeError, ValueError):
            # Min of complex values and the like
            return
        got = simulate(sfg, x, 6)
    for a, b in zip(got, want):
        for p, q in zip(a, b):
            ctx.count("values")
            ctx.check(close(p, q, 1e-9) or p != p and q != q or p == q or not abs(q) < 1e9, "value", lambda: f"{p}, the picture gives {q} after {s.log}")


GENS = {"Constant": [("constant_input", ["1.0", "0.5", "-2", "1+2j"])], "Impulse": [("delay_spin_box", [0, 1, 3])], "Step": [("delay_spin_box", [0, 2, 5])],
        "Sinusoid": [("frequency_input", ["0.1", "0.25", "0.5"]), ("phase_input", ["0.0", "0.25", "-0.5"])],
        "ZeroPad": [("input_sequence", ["0.1, -0.2, 0.7", "1", "0.5, , 2", "1,,,-3", "1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13"])], "Gaussian": [("scale_input", ["1.0", "0.25"]), ("loc_input", ["0.0", "3", "-1.5"]), ("seed_spin_box", [0, 1, 77])],
        "Uniform": [("low_input", ["-1.0", "-0.25"]), ("high_input", ["1.0", "0.5"]), ("seed_spin_box", [0, 1, 77])], "FromFile": [("file", [[1, 2, 3, 4.5, -1]])]}


def formula(gen, a, n):
    if gen == "Constant":
        return [complex(a["constant_input"])] * n
    if gen in ("Impulse", "Step"):
        d = a["delay_spin_box"]
        return [1 if (k == d if gen == "Impulse" else k >= d) else 0 for k in range(n)]
    if gen == "Sinusoid":
        # phase and frequency in units of pi
        return [np.sin(np.pi * (float(a["frequency_input"]) * k + float(a["phase_input"]))) for k in range(n)]
    if gen == "Gaussian":
        r = np.random.default_rng(a["seed_spin_box"])
        return [r.normal(float(a["loc_input"]), float(a["scale_input"])) for _ in range(n)]
    if gen == "Uniform":
        r = np.random.default_rng(a["seed_spin_box"])
        return [r.uniform(float(a["low_input"]), float(a["high_input"])) for _ in range(n)]
    seq = [complex(v.strip() or 0) for v in a["input_sequence"].split(",")] if gen == "ZeroPad" else a["file"]
    return (list(seq) + [0] * n)[:n]


def case_simulate(ctx):
    """The simulation dialog simulates each SFG with the inputs chosen for it."""
    rng = ctx.rng
    s = Session(ctx)
    s.stale = set()
    try:
        graphs = {}
        for k in range(rng.choice([1, 1, 2, 3])):
            net, x, ys = small_net(ctx, n_in=rng.choice([1, 1, 2, 3]), cplx=False, ops=LINEAR)
            sfg = net.build(rng, name=f"g{k}")
            graphs[f"g{k}"] = (net.build(rng), net)
            s.load(sfg)
        if rng.random() < 0.25:
            # one without inputs
            c = [ba.Constant(0.5), ba.Constant(2)]
            s.load(ba.SFG([], [Output(c[0] + c[1])], name="noin"))
            c = [ba.Constant(0.5), ba.Constant(2)]
            graphs["noin"] = (ba.SFG([], [Output(c[0] + c[1])]), None)
        s.audit("load")
        ctx.sig = str([net and net.signature() for _, net in graphs.values()])
        ctx.nontrivial = True
        s.w.simulate_sfg()
        s.errors("simulate")
        d = s.w._simulation_dialog
        ctx.check({str(g.name) for g in d._input_fields} == set(graphs), "sim_offered", "")
        plan = {}
        for g, fields in d._input_fields.items():
            name = str(g.name)
            n = rng.randint(1, 12)
            fields["iteration_count"].setValue(n)
            plot = rng.random() < 0.75
            fields["show_plot"].setChecked(plot)
            seqs = []
            grid = fields["input_grid"]
            for i in range(g.input_count):
                box = grid.itemAtPosition(i, 1).widget()
                gen = rng.choice(sorted(GENS))
                box.setCurrentText(gen)
                lay = grid.itemAtPosition(i, 2)
                a = {}
                for w, options in GENS[gen]:
                    v = rng.choice(options)
                    a[w] = v
                    if w == "file":
                        p = os.path.join(s.dir, f"{name}{i}.csv")
                        with open(p, "w") as f:
                            f.write("\n".join(map(str, v)) + "\n")
                        lay.file_browser.setText(p)
                    elif isinstance(v, int):
                        getattr(lay, w).setValue(v)
                    else:
                        getattr(lay, w).setText(v)
                if gen == "FromFile":
                    n = min(n, len(a["file"]))
                    fields["iteration_count"].setValue(n)
                seqs.append((gen, a))
            plan[name] = (n, plot, seqs)
        d._simulate_btn.click()
        end = time.time() + 30
        want_n = sum(p for _, p, _ in plan.values())
        while time.time() < end and (len(s.w._plot) < want_n or any(t_running(t) for t in s.w._thread.values())):
            s.pump()
            time.sleep(0.002)
        s.errors(f"simulation of {plan}")
        ctx.check(len(s.w._plot) == want_n, "sim_plots", lambda: f"{len(s.w._plot)} result windows, {want_n} selected")
        for sim, win in s.w._plot.items():
            name = str(sim.sfg.name)
            n, plot, seqs = plan[name]
            ctx.check(plot, "sim_plot_unselected", name)
            x = [formula(g, a, n) for g, a in seqs]
            with np.errstate(all="ignore"):
                want = simulate(graphs[name][0], x, n) if x else [[2.5] * n]
            res = sim.results
            ctx.check(name in win.windowTitle(), "sim_title", win.windowTitle())
            for o, op in enumerate(sim.sfg.output_operations):
                got = res[op.graph_id]
                ctx.check(len(got) == n, "sim_length", lambda: f"{name}: {len(got)} samples, {n} selected")
                for k in range(n):
                    ctx.count("values")
                    ctx.check(close(got[k], want[o][k], 1e-7) or not abs(want[o][k]) < 1e9, "sim_value", lambda: f"{name} output {o} at {k}: {got[k]}, expected {want[o][k]} for {seqs}")
            check_plot(ctx, win, res, sim.sfg)
            win.close()
    finally:
        s.close()


def t_running(t):
    try:
        return t.isRunning()
    except RuntimeError:  # deleted when done
        return False


def check_plot(ctx, win, res, sfg):
    """The result window offers every result, and shows the outputs."""
    items = {win._checklist.item(i).text(): win._checklist.item(i).checkState() == Q["core"].Qt.CheckState.Checked for i in range(win._checklist.count())}
    outs = {str(o.graph_id) for o in sfg.output_operations}
    seen = set()
    for key, seq in res.items():
        seq = np.asarray(seq, dtype=complex)
        for suffix, f in (("", np.real), ("_re", np.real), ("_im", np.imag), ("_mag", np.abs), ("_ang", np.angle)):
            n = f"{key}{suffix}"
            if n in items:
                seen.add(n)
                y = np.asarray(win._lines[n].get_ydata())
                ctx.check(len(y) == len(seq) and np.allclose(y, f(seq), rtol=1e-9, atol=1e-12, equal_nan=True), "plot_line", lambda: f"{n} shows {y}, is {seq}")
                shown = win._lines[n] in win._plot_axes.get_lines()
                ctx.check(shown == items[n], "plot_shown", lambda: f"{n} shown {shown}, checked {items[n]}")
                if str(key) in outs and suffix in ("", "_re", "_im"):
                    ctx.check(items[n], "plot_output", lambda: f"output {n} is not shown")
        ctx.check(str(key) in items or f"{key}_re" in items, "plot_missing", lambda: f"{key} is not among {sorted(items)}")
        ctx.count("lines")


def case_palette(ctx):
    """Every operation listed can be added."""
    qt()
    s = Session(ctx)
    s.stale = set()
    try:
        w = s.w
        names = [li.item(i).text() for li in (w._ui.core_operations_list, w._ui.special_operations_list, w._ui.utility_operations_list) for i in range(li.count())]
        if ctx.rng.random() < 0.5:
            w._shortcut_refresh_operations.activated.emit()
            again = [li.item(i).text() for li in (w._ui.core_operations_list, w._ui.special_operations_list, w._ui.utility_operations_list) for i in range(li.count())]
            ctx.check(again == names, "refresh", lambda: f"{again} listed, was {names}")
        pick = ctx.rng.sample(names, 6)
        ctx.sig = str(pick)
        ctx.nontrivial = True
        for n in pick:
            x = s.add(n)
            s.place(x)
            if ctx.rng.random() < 0.5:
                s.flip(x)
            s.properties(x)
        s.audit("palette")
        for x in list(s.boxes):
            s.delete([x])
        s.audit("emptied")
    finally:
        s.close()


KINDS = {
    "load": {"fn": case_load, "quick": 400, "thorough": 9000, "timeout": 120},
    "draw": {"fn": case_draw, "quick": 320, "thorough": 4000, "timeout": 120},
    "simulate": {"fn": case_simulate, "quick": 150, "thorough": 1500, "timeout": 120},
    "palette": {"fn": case_palette, "quick": 60, "thorough": 300, "timeout": 120},
}

if __name__ == "__main__":
    sys.exit(run_check(PROP, KINDS, rule="at least 5 operations or 4 signals"))
