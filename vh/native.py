"""Builds src/ of the tree under test with sanitizers into a scratch directory."""
import glob
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

from . import boot

SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def build(sanitize=True, debug_asserts=False):
    """Returns (directory with _b_asic.so, error text or None)."""
    src = os.path.join(boot.REPO, "src")
    out = tempfile.mkdtemp(prefix="vh_native_")
    import pybind11
    inc = ["-I" + pybind11.get_include(), "-I" + sysconfig.get_path("include")]
    files = sorted(glob.glob(os.path.join(src, "*.cpp")) + glob.glob(os.path.join(src, "*", "*.cpp")))
    flags = ["g++", "-std=c++17", "-O1", "-g1", "-fPIC", "-fvisibility=hidden", "-DFMT_HEADER_ONLY", "-w",
             "-D_GLIBCXX_ASSERTIONS"]
    if not debug_asserts:
        flags.append("-DNDEBUG")
    if sanitize:
        flags += SAN
    procs, objs = [], []
    for i, f in enumerate(files):
        o = os.path.join(out, f"{i}.o")
        objs.append(o)
        procs.append((f, subprocess.Popen(flags + inc + ["-c", f, "-o", o], stderr=subprocess.PIPE, text=True)))
    err = ""
    for f, p in procs:
        e = p.communicate(timeout=600)[1]
        if p.returncode:
            err += f"{f}: {e[-2000:]}\n"
    if not err:
        r = subprocess.run(["g++", "-shared", *(SAN if sanitize else []), *objs, "-o", os.path.join(out, "_b_asic.so"), ],
                           capture_output=True, text=True)
        if r.returncode:
            err = r.stderr[-2000:]
    for o in objs:
        if os.path.exists(o):
            os.unlink(o)
    return out, (err or None)


def libasan():
    # libstdc++ has to be there from the start, or the interceptors do not find __cxa_throw
    return " ".join(subprocess.run(["g++", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
                    for n in ("libasan.so", "libstdc++.so.6"))


def reexec_with_sanitizer(module):
    """Build, then run ``module`` again in a child with the sanitizer runtime preloaded."""
    d, err = build()
    try:
        if err:
            print("native build failed\n" + err)
            return None
        env = dict(os.environ, VH_NATIVE_DIR=d, PYTHONMALLOC="malloc", LD_PRELOAD=libasan(),
                   ASAN_OPTIONS=f"detect_leaks=0:abort_on_error=0:exitcode=99:halt_on_error=1:log_path={d}/asan:"
                                "allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS=f"print_stacktrace=1:halt_on_error=1:log_path={d}/ubsan")
        return subprocess.run([sys.executable, "-m", module, *sys.argv[1:]], env=env).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load():
    """Import the freshly built extension (inside the child)."""
    import importlib.machinery
    import importlib.util
    path = os.path.join(os.environ["VH_NATIVE_DIR"], "_b_asic.so")
    loader = importlib.machinery.ExtensionFileLoader("_b_asic", path)
    spec = importlib.util.spec_from_file_location("_b_asic", path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    return mod


def crash_report(pid):
    """Sanitizer report of a dead worker."""
    d = os.environ.get("VH_NATIVE_DIR", "")
    for f in glob.glob(os.path.join(d, f"*san.{pid}")):
        return open(f, errors="replace").read()
    return ""
