#!/usr/bin/env python3
"""RUSTC_WRAPPER: compiles the code under test (crates orx_*) and the interpreter (vsim_dst) with
LLVM's thread instrumentation, so that every memory access and atomic operation calls into the
simulator (vsim_rt) instead of the ThreadSanitizer runtime. LLVM's pass leaves atomic min/max
alone; those are rewritten here to calls of __vsim_rmwN, and the object is rebuilt from the IR.
Any atomic instruction that is still not hooked afterwards is an error."""
import os, re, subprocess, sys, tempfile, shutil

rustc, args = sys.argv[1], sys.argv[2:]

def val(name):
    for i, a in enumerate(args):
        if a == name and i + 1 < len(args):
            return args[i + 1]
        if a.startswith(name + "="):
            return a[len(name) + 1:]
    return None

name = val("--crate-name") or ""
lib = "lib" in [args[i + 1] for i, a in enumerate(args[:-1]) if a == "--crate-type"]
if not (lib and (name.startswith("orx_") or name == "vsim_dst")):
    # the binary links crates of both kinds on purpose
    os.execvp(rustc, [rustc] + args + (["-Cunsafe-allow-abi-mismatch=sanitizer"] if name == "vsim" else []))

emit_i = next((i for i, a in enumerate(args) if a.startswith("--emit=")), None)
links = emit_i is not None and "link" in args[emit_i]
extra = ["-Zsanitizer=thread", "-Zexternal-clangrt", "-Cunsafe-allow-abi-mismatch=sanitizer",
         "-Ccodegen-units=1", "-Zshare-generics=no", "-Cllvm-args=-tsan-instrument-func-entry-exit=0",
         "-Awarnings"]
a2 = list(args)
if links:
    a2[emit_i] += ",llvm-ir"
r = subprocess.run([rustc] + a2 + extra, close_fds=False)
if r.returncode != 0 or not links:
    sys.exit(r.returncode)

out = val("--out-dir")
suffix = ""
for i, a in enumerate(args):
    s = args[i + 1] if a == "-C" and i + 1 < len(args) else a[2:] if a.startswith("-C") else ""
    if s.startswith("extra-filename="):
        suffix = s.split("=", 1)[1]
ll = os.path.join(out, name + suffix + ".ll")
rlib = os.path.join(out, "lib" + name + suffix + ".rlib")
src = open(ll).read()

OPS = {"umax": 0, "umin": 1, "max": 2, "min": 3, "uinc_wrap": 4, "udec_wrap": 5, "usub_cond": 6, "usub_sat": 7}
MO = {"monotonic": 0, "acquire": 2, "release": 3, "acq_rel": 4, "seq_cst": 5}
pat = re.compile(r"^(\s*)(%\S+ = )?atomicrmw (?:volatile )?(\w+) ptr (\S+), i(8|16|32|64) (\S+?)"
                 r"(?: syncscope\(\"[^\"]*\"\))? (monotonic|acquire|release|acq_rel|seq_cst), align \d+(.*)$", re.M)
used = set()

def sub(m):
    ind, dst, op, p, n, v, mo, _rest = m.groups()
    if op not in OPS:
        return m.group(0)
    used.add(n)
    return f"{ind}{dst or ''}call i{n} @__vsim_rmw{n}(ptr {p}, i{n} {v}, i32 {OPS[op]}, i32 {MO[mo]})"

new = pat.sub(sub, src)
left = [l.strip() for l in new.splitlines()
        if re.match(r"\s*(?:%\S+ = )?(?:tail )?(atomicrmw|cmpxchg|load atomic|store atomic|fence)\b", l)
        and "syncscope(\"singlethread\")" not in l]
if left:
    sys.stderr.write(f"wrap.py: atomic instructions without a hook in {name}:\n" + "\n".join(left[:10]) + "\n")
    sys.exit(1)
if new != src:
    new += "\n" + "\n".join(f"declare i{n} @__vsim_rmw{n}(ptr, i{n}, i32, i32)" for n in sorted(used)) + "\n"
    with open(ll, "w") as f:
        f.write(new)
    sysroot = subprocess.check_output([rustc, "--print", "sysroot"], text=True).strip()
    bin_ = os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    objs = [o for o in subprocess.check_output([bin_ + "/llvm-ar", "t", rlib], text=True).split() if o.endswith(".o")]
    if len(objs) != 1:
        sys.stderr.write(f"wrap.py: expected one object in {rlib}, found {objs}\n")
        sys.exit(1)
    d = tempfile.mkdtemp(prefix="vsimwrap")
    try:
        o = os.path.join(d, objs[0])
        subprocess.check_call([bin_ + "/llc", "-filetype=obj", "-O1", "--relocation-model=pic", "-function-sections",
                               "-data-sections", ll, "-o", o])
        subprocess.check_call([bin_ + "/llvm-ar", "r", rlib, o])
    finally:
        shutil.rmtree(d)
os.remove(ll)
