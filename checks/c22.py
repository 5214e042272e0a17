"""C22: generated test benches pass on a correct design and fail on a design with one wrong output word."""
import logging
import os
import subprocess
import sys

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
import apytypes as apy  # noqa: E402
from b_asic import Simulation  # noqa: E402
from b_asic.architecture import Architecture  # noqa: E402
from b_asic.tb_printer import CocotbPrinter, VhdlTbPrinter  # noqa: E402

from checks import c16  # noqa: E402
from vh import rtl  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402

PROP = "C22"
WRAPPER = """library ieee;
use ieee.std_logic_1164.all;
use ieee.numeric_std.all;
use std.textio.all;

entity {name} is
  port (
{ports}
  );
end entity;

architecture fault of {name} is
  impure function setting(k : integer) return integer is
    file f : text open read_mode is "{file}";
    variable l : line;
    variable v : integer;
  begin
    for i in 0 to k loop
      readline(f, l);
      read(l, v);
    end loop;
    return v;
  end function;
  constant at_cycle : integer := setting(0);
  constant at_port : integer := setting(1);
  constant at_bit : integer := setting(2);
  constant at_delta : integer := setting(3);
  signal cycle : integer := 0;
{signals}
begin
  inner : entity work.{real} port map (
{maps}
  );
  process(clk) begin
    if rising_edge(clk) then
      if rst = '1' then
        cycle <= 0;
      elsif {en} then
        cycle <= cycle + 1;
      end if;
    end if;
  end process;
{faults}
end architecture;
"""


def wrapper(design, name, real, path, enable):
    """A design that behaves like the real one, but flips one output bit in one cycle."""
    ib, ob = design.dt.input_bits, design.dt.output_bits
    parts = ("_re", "_im") if design.dt.is_complex else ("",)
    ports, maps, signals, faults, outs = ["clk : in std_logic", "rst : in std_logic"], ["clk => clk", "rst => rst"], [], [], []
    if enable:
        ports.append("en : in std_logic")
        maps.append("en => en")
    for p in sorted(set(design.ins.values())):
        for s in parts:
            ports.append(f"{p}_0_in{s} : in std_logic_vector({ib - 1} downto 0)")
            maps.append(f"{p}_0_in{s} => {p}_0_in{s}")
    for p in sorted(set(design.outs.values())):
        for s in parts:
            q = f"{p}_0_out{s}"
            ports.append(f"{q} : out std_logic_vector({ob - 1} downto 0)")
            maps.append(f"{q} => i{len(outs)}")
            signals.append(f"  signal i{len(outs)} : std_logic_vector({ob - 1} downto 0);")
            faults.append(f"""  process(all) begin
    {q} <= i{len(outs)};
    if cycle = at_cycle and at_port = {len(outs)} then
      if at_bit < 0 then
        {q} <= std_logic_vector(unsigned(i{len(outs)}) + unsigned(to_signed(at_delta, {ob})));
      else
        for b in i{len(outs)}'range loop
          if b = at_bit then
            {q}(b) <= not i{len(outs)}(b);
          end if;
        end loop;
      end if;
    end if;
  end process;""".replace("(all)", f"(i{len(outs)}, cycle)"))
            outs.append(q)
    text = WRAPPER.format(name=name, real=real, ports=";\n".join("    " + p for p in ports), maps=",\n".join("    " + m for m in maps), signals="\n".join(signals),
                          faults="\n".join(faults), en="en = '1'" if enable else "true", file=path)
    return text, outs


def prepare(ctx, cocotb):
    """A design that is right when clocked by the harness's own driver, with its simulation results."""
    rng = ctx.rng
    dt = c16.data_type(rng, rng.random() < 0.4)
    if cocotb:
        dt.input_wl = dt.output_wl = dt.wl
    j, s = c16.scheduled(ctx, dt)
    arch, _ = c16.architecture(ctx, s)
    opts = c16.options(ctx, rng, arch)
    loop = c16.recursive(s.sfg)
    if cocotb:
        for k in (*c16.PIPED, "pipeline_pe_control"):
            opts.pop(k, None)
        opts["output_sync"] = rng.random() < 0.3
    elif loop:
        opts.pop("pipeline_pe_control", None)
        opts.pop("enable_pin", None)
        for k in c16.PIPED:
            opts.pop(k, None)
    warm = 0 if cocotb else c16.laps(rng, s, opts)
    n = rng.randint(2, 6)
    sfg = s.sfg
    cx = dt.is_complex
    hi = 1 << (dt.input_bits - 1)
    num = apy.APyCFixed if cx else apy.APyFixed
    ids = [str(o.graph_id) for o in sfg.input_operations]

    def word():
        return rng.choice([rng.randint(-hi, hi - 1), rng.randint(-hi, hi - 1), rng.choice([-hi, hi - 1, 0, 1, -1])])
    x = {g: [(word(), word()) if cx else word() for _ in range(n)] for g in ids}
    ii, fi = dt.input_wl
    sim = Simulation(sfg, [[num(v, int_bits=ii, frac_bits=fi).cast(int_bits=dt.int_bits, frac_bits=dt.frac_bits) for v in x[g]] for g in ids], data_type=dt)
    sim.run_for(n)
    return dt, s, arch, opts, loop, warm, n, x, sim


def printed(ctx, w, dt, s, arch, opts, loop, warm, n, x, sim):
    """Print the design as ``dut_real`` with a wrapper ``dut`` in which the fault is injected; what the outputs should be."""
    rng = ctx.rng
    real = Architecture(arch.processing_elements, arch.memories, "dut_real", direct_interconnects=arch.direct_interconnects)
    d = rtl.Design(real, s, dt)
    files = d.print(w, **opts)
    en = opts.get("enable_pin", True)
    in_reg = bool(opts.get("input_register") or opts.get("io_registers"))
    out_reg = bool(opts.get("output_register") or opts.get("io_registers"))
    rtl.refine_dontcares(w, files, "0")
    io, fo = dt.output_wl
    mode = {"quantization": dt.quantization_mode.to_apytypes(), "overflow": dt.overflow_mode.to_apytypes()}
    want = {str(o.graph_id): [v.cast(int_bits=io, frac_bits=fo, **mode) for v in sim.results[o.graph_id]] for o in s.sfg.output_operations}
    try:
        rtl.analyse(w, files, "08")
        got, cycles = d.run(w, x, n, rng, warm=warm, std="08", enable_pin=en, in_reg=in_reg, out_reg=out_reg, resets=1)
    except rtl.RtlError as e:
        raise Skip(f"the design is unusable: {str(e)[:200]}") from None
    if any(got[g][k] != tuple(rtl.bits(b, dt.output_bits) for b in c16.bits_of(y, dt.is_complex)) for g, seq in want.items() for k, y in enumerate(seq)):
        raise Skip("the design itself is wrong")
    text, ports = wrapper(d, "dut", "dut_real", f"{w}/fault.txt", en)
    # One file, named like the architecture, holds the design and the wrapper.
    (w / "dut.vhdl").write_text((w / "dut_real.vhdl").read_text() + "\n" + text)
    (w / "dut_real.vhdl").unlink()
    files = [f if f != "dut_real.vhdl" else "dut.vhdl" for f in files]
    ctx.count("clock_cycles", cycles)
    ctx.note(f"{dt.wl} in {dt.input_wl} out {dt.output_wl} complex={dt.is_complex} options {opts} warm={warm} n={n}; " + "; ".join(f"{g}@{t}" for g, t in s.start_times.items()) + f" T={s.schedule_time}")
    due = {(g, k): d.start[g] + k * s.schedule_time + in_reg + out_reg + warm * s.schedule_time for g in d.outs for k in range(n)}
    return d, files, ports, due, want


def fault(w, cycle=-1, port=0, bit=0, delta=0):
    (w / "fault.txt").write_text(f"{cycle}\n{port}\n{bit}\n{delta}\n")


def flags(opts):
    return {k: opts[k] for k in ("io_registers", "input_register", "output_register", "enable_pin") if k in opts}


def faults(ctx, d, dt, ports, due, want, count):
    """Wrong output words: first and last sample of some output, and random ones."""
    rng = ctx.rng
    parts = ("_re", "_im") if dt.is_complex else ("",)
    keys = sorted(due)
    last = max(k for _, k in keys)
    pick = [rng.choice([q for q in keys if q[1] == 0]), rng.choice([q for q in keys if q[1] == last])] + [rng.choice(keys) for _ in range(count)]
    rng.shuffle(pick)
    for g, k in pick[:count]:
        part = rng.randrange(len(parts))
        bit = rng.choice([0, dt.output_bits - 1, rng.randrange(dt.output_bits)])
        v = want[g][k]
        v = (v.real, v.imag)[part] if dt.is_complex else v
        yield g, k, due[(g, k)], ports.index(f"{d.outs[g]}_0_out{parts[part]}"), bit, float(v)


def c_vhdl(ctx):
    rng = ctx.rng
    dt, s, arch, opts, loop, warm, n, x, sim = prepare(ctx, False)
    tol = {}
    if rng.random() < 0.4:
        step = 2.0 ** -dt.output_wl[1]
        if rng.random() < 0.8:
            tol["abs_tol"] = (rng.choice([0, 1, 2, 4]) + 0.5) * step
        if rng.random() < 0.6 or not tol:
            tol["rel_tol"] = rng.choice([0.01, 0.3])
        if dt.output_bits > 31:
            raise Skip("too wide for integers")
    extra = rng.choice([0, 0, 1])
    with rtl.Workdir() as w:
        d, files, ports, due, want = printed(ctx, w, dt, s, arch, opts, loop, warm, n, x, sim)
        tb_arch = Architecture(arch.processing_elements, arch.memories, "dut", direct_interconnects=arch.direct_interconnects)
        VhdlTbPrinter(sim.results).print(tb_arch, dt, path=w, warmup_laps=warm + extra, **flags(opts), **tol)
        ctx.note(f"tolerance {tol} extra warm-up {extra}")
        fault(w)
        try:
            rtl.analyse(w, files, "08")
            rtl.analyse(w, ["tb.vhdl"], "08")
        except rtl.RtlError as e:
            ctx.fail("vhdl_testbench_unusable", str(e))

        def passes():
            rc, out = rtl.simulate(w, "tb", "08")
            return rc == 0 and "SUCCESS" in out, out[-600:]
        ok, out = passes()
        ctx.count("testbench_runs")
        ctx.check(ok, "vhdl_testbench_rejects_correct_design", out)
        for g, k, t, port, bit, v in faults(ctx, d, dt, ports, due, want, 4):
            dev = 2.0 ** (bit - dt.output_wl[1])
            bound = max(tol.get("abs_tol", 0.0), tol.get("rel_tol", 0.0) * abs(v)) if tol else 0.0
            delta, how = 0, f"bit {bit} of"
            if tol and rng.random() < 0.7:
                # A value close to the border of what is tolerated
                step, ob = 2.0 ** -dt.output_wl[1], dt.output_bits
                n_in = int(bound / step)
                both = int((tol.get("abs_tol", 0.0) + tol.get("rel_tol", 0.0) * abs(v)) / step)
                delta = rng.choice([n_in + 1, n_in + 1, n_in, both, max(both - 1, 1)]) * rng.choice([-1, 1])
                if not delta or abs(delta) >= 2 ** (ob - 1):
                    continue
                new = round(v / step) + delta
                new = (new + 2 ** (ob - 1)) % 2**ob - 2 ** (ob - 1)
                dev = abs(new - v / step) * step
                bit, how = -1, f"{delta} steps added, instead of a bit"
                ctx.count("faults_close_to_tolerance")
            if tol and abs(dev - bound) < 1e-6 * max(dev, bound):
                continue
            fault(w, t + extra * s.schedule_time, port, bit, delta)
            ok, out = passes()
            ctx.count("testbench_runs")
            ctx.count("injected_faults")
            if dev > bound:
                ctx.check(not ok, "vhdl_testbench_misses_wrong_output", f"{how} {ports[port]} flipped in cycle {t} (sample {k} of {g}: {v}), tolerance {tol}, is not reported")
            else:
                ctx.count("tolerated_deviations")
                ctx.check(ok, "vhdl_testbench_rejects_tolerated_output", f"{how} {ports[port]} flipped in cycle {t} (sample {k} of {g}: {v}), within {bound}: {out}")


def c_cocotb(ctx):
    rng = ctx.rng
    dt, s, arch, opts, loop, warm, n, x, sim = prepare(ctx, True)
    with rtl.Workdir() as w:
        d, files, ports, due, want = printed(ctx, w, dt, s, arch, opts, loop, warm, n, x, sim)
        tb_arch = Architecture(arch.processing_elements, arch.memories, "dut", direct_interconnects=arch.direct_interconnects)
        CocotbPrinter(sim.results).print(tb_arch, s, path=w, simulator="ghdl", csv=rng.random() < 0.3, **flags(opts))
        env = {k: v for k, v in os.environ.items() if not k.startswith(("COCOTB", "PYTEST", "GHDL"))}
        env["PYTHONPATH"] = os.pathsep.join(p for p in sys.path if p)

        def passes():
            try:
                p = subprocess.run([sys.executable, "tb.py", "-p", "no:cacheprovider", "-p", "no:xvfb"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100, errors="replace")
            except subprocess.TimeoutExpired:
                ctx.fail("cocotb_testbench_unusable", "no end within 100 s")
            return p.returncode == 0, p.stdout[-1500:]
        fault(w)
        ok, out = passes()
        ctx.count("testbench_runs")
        ctx.check(ok, "cocotb_testbench_rejects_correct_design", out)
        for g, k, t, port, bit, v in faults(ctx, d, dt, ports, due, want, 2):
            fault(w, t, port, bit)
            ok, out = passes()
            ctx.count("testbench_runs")
            ctx.count("injected_faults")
            ctx.check(not ok, "cocotb_testbench_misses_wrong_output", f"bit {bit} of {ports[port]} flipped in cycle {t} (sample {k} of {g}) is not reported: {out[-400:]}")


KINDS = {
    "vhdl": {"fn": c_vhdl, "quick": 240, "thorough": 3000, "timeout": 300},
    "cocotb": {"fn": c_cocotb, "quick": 40, "thorough": 400, "timeout": 500},
}
if __name__ == "__main__":
    raise SystemExit(run_check(PROP, KINDS, rule="a generated test bench passes on a design that computes the simulated words and fails when any one output bit of any checked sample is flipped"))
