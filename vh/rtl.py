"""Generated VHDL under GHDL: own testbench, own stimulus, every output of every clock cycle recorded."""
import os
import re
import shutil
import subprocess
import tempfile
import warnings
from pathlib import Path

from b_asic.special_operations import Input, Output

from .core import Skip

GHDL = shutil.which("ghdl")
FLAGS = ["-frelaxed"]
# A run must not depend on the locale or on the tool settings of the caller.
ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LC_ALL": "C"}


class RtlError(Exception):
    """The generated description does not analyse, elaborate or run."""


class Workdir:
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.path = tempfile.mkdtemp(prefix="vhrtl_", dir=base)
        return Path(self.path)

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def ghdl(args, cwd, timeout=100):
    try:
        p = subprocess.run([GHDL, *args], cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise RtlError(f"no end of ghdl {' '.join(args)[:80]} within {timeout} s") from None
    return p.returncode, p.stdout


def analyse(cwd, files, std="93c"):
    rc, out = ghdl(["-a", f"--std={std}", *FLAGS, *files], cwd)
    if rc:
        raise RtlError("does not compile: " + out[:1500])


def simulate(cwd, top, std="93c", run=()):
    rc, out = ghdl(["--elab-run", f"--std={std}", *FLAGS, top, "--ieee-asserts=disable", *run], cwd)
    return rc, out


def bits(v, n):
    return format(v & ((1 << n) - 1), f"0{n}b")


TB = """library ieee;
use ieee.std_logic_1164.all;
use ieee.numeric_std.all;
use std.textio.all;

entity vhtb is end entity;

architecture sim of vhtb is
  signal clk : std_logic := '0';
  signal stim : std_logic_vector({ns} downto 0) := (others => '0');
  signal resp : std_logic_vector({nr} downto 0);
  function to_bit(c : character) return std_logic is
  begin
    if c = '1' then return '1'; else return '0'; end if;
  end function;
  function to_char(s : std_logic) return character is
  begin
    case s is
      when '0' | 'L' => return '0';
      when '1' | 'H' => return '1';
      when others => return 'X';
    end case;
  end function;
begin
  dut : entity work.{top} port map (
{maps}
  );
  process
    file fi : text open read_mode is "stim.txt";
    file fo : text open write_mode is "resp.txt";
    variable li, lo : line;
    variable s : string(1 to {ns1});
    variable r : string(1 to {nr1});
  begin
    while not endfile(fi) loop
      readline(fi, li);
      read(li, s);
      for i in s'range loop
        stim({ns1} - i) <= to_bit(s(i));
      end loop;
      wait for 4 ns;
      for i in r'range loop
        r(i) := to_char(resp({nr1} - i));
      end loop;
      write(lo, r);
      writeline(fo, lo);
      wait for 1 ns;
      clk <= '1';
      wait for 5 ns;
      clk <= '0';
    end loop;
    wait;
  end process;
end architecture;
"""


def drive(cwd, top, ins, outs, rows, std="93c"):
    """Run entity ``top``. ins/outs: [(formal port, width, is vector[, type])], first ``clk`` implied; rows: one bit string per cycle in the order of
    ``ins``. Returns one string of 0, 1, X per cycle, outputs in the order of ``outs``."""
    maps = ["    clk => clk"]
    for names, sig in ((ins, "stim"), (outs, "resp")):
        pos = sum(p[1] for p in names)
        for name, w, vec, *cast in names:
            part = f"{sig}({pos - 1}" + (f" downto {pos - w})" if vec else ")")
            if cast and cast[0]:
                if sig == "stim":
                    part = f"{cast[0]}({part})"
                else:
                    name = f"std_logic_vector({name})"
            maps.append(f"    {name} => {part}")
            pos -= w
    ns, nr = sum(p[1] for p in ins), sum(p[1] for p in outs)
    (cwd / "vhtb.vhdl").write_text(TB.format(ns=ns - 1, nr=nr - 1, ns1=ns, nr1=nr, top=top, maps=",\n".join(maps)))
    (cwd / "stim.txt").write_text("\n".join(rows) + "\n")
    analyse(cwd, ["vhtb.vhdl"], std)
    rc, out = simulate(cwd, "vhtb", std)
    resp = (cwd / "resp.txt").read_text().split() if (cwd / "resp.txt").exists() else []
    if rc or len(resp) != len(rows):
        raise RtlError(f"run stopped after {len(resp)} of {len(rows)} cycles: {out[:1200]}")
    return resp


def refine_dontcares(cwd, files, value):
    """Give the don't-cares of the description a value (a legal implementation of them)."""
    for f in files:
        p = cwd / f
        t = p.read_text()
        t = t.replace("'-'", f"'{value}'")
        t = re.sub(r'"(-+)"', lambda m: f'"{value * len(m.group(1))}"', t)
        p.write_text(t)


class Design:
    """An architecture together with the times at which its inputs and outputs are due."""

    def __init__(self, arch, schedule, dt):
        self.arch, self.dt = arch, dt
        self.T = schedule.schedule_time
        self.start = {str(g): t for g, t in schedule.start_times.items()}
        self.ins, self.outs = {}, {}
        for pe in arch.processing_elements:
            for p in pe.collection:
                g = str(p.operation.graph_id)
                if pe.operation_type is Input:
                    self.ins[g] = pe.entity_name
                elif pe.operation_type is Output:
                    self.outs[g] = pe.entity_name

    def print(self, cwd, vhdl_2008=False, **opts):
        from b_asic.code_printer import VhdlPrinter
        with warnings.catch_warnings():
            warnings.simplefilter("error", UserWarning)
            p = VhdlPrinter(self.dt, vhdl_2008=vhdl_2008)
            p.print(self.arch, path=cwd, **opts)
        return p.get_compile_order(self.arch)

    def run(self, cwd, x, n, rng, *, warm=1, stall=0.0, std="93c", enable_pin=True, in_reg=False, out_reg=False, resets=None):
        """x: {input: [bits or (bits, bits)]} -> {output: [(string, ...)]} of ``n`` samples, and the number of cycles observed."""
        cx, dt, T = self.dt.is_complex, self.dt, self.T
        parts = ("_re", "_im") if cx else ("",)
        ib, ob = dt.input_bits, dt.output_bits
        pin = sorted(set(self.ins.values()))
        pout = sorted(set(self.outs.values()))
        in_ports = [(f"{p}_0_in{s}", ib, True) for p in pin for s in parts]
        out_ports = [(f"{p}_0_out{s}", ob, True) for p in pout for s in parts]
        ctl = [("rst", 1, False)] + ([("en", 1, False)] if enable_pin else [])
        last = max([self.start[g] for g in self.outs] + [0]) + (n - 1) * T
        first = -warm * T
        due = {}
        for g, p in self.ins.items():
            for k in range(-warm - 2, (last // T) + 2):
                t = self.start[g] + k * T
                v = x[g][k] if 0 <= k < n else 0
                if (t, p) in due and due[(t, p)][0] != g:
                    raise Skip("two inputs on one pin at once")
                due[(t, p)] = (g, v)
        R = resets or rng.randint(2, 4)
        rows, phys = [], {}
        t = first

        def row(rst, en, now):
            r = str(rst) + (str(en) if enable_pin else "")
            for p in pin:
                v = due.get((now, p), (None, None))[1] if now is not None else None
                vs = (v if cx else (v,)) if v not in (None, 0) else ((0,) * len(parts) if v == 0 else None)
                for i, _ in enumerate(parts):
                    if vs is not None:
                        r += bits(vs[i], ib)
                    elif rst or now is None and t < 0 or now is not None and now < 0:
                        r += "0" * ib
                    else:
                        r += bits(rng.getrandbits(ib), ib)
            rows.append(r)
        for _ in range(R):
            row(1, 0, None)
        while t <= last:
            if enable_pin and rng.random() < stall:
                row(0, 0, None)
                continue
            phys[t] = len(rows)
            row(0, 1, t)
            t += 1
        for _ in range(3):
            row(0, 1, t)
            t += 1
        resp = drive(cwd, self.arch.entity_name, ctl + in_ports, out_ports, rows, std)
        res = {}
        for g, p in self.outs.items():
            pos = pout.index(p) * len(parts) * ob
            seq = []
            for k in range(n):
                r = resp[phys[self.start[g] + k * T] + in_reg + out_reg]
                seq.append(tuple(r[pos + i * ob: pos + (i + 1) * ob] for i in range(len(parts))))
            res[g] = seq
        return res, len(rows)
