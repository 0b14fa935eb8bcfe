#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--unit GLOB] [--build-only]

Builds /repo's current sources together with the controlled environment in
/verif/env and the harness of property ID, and runs it.
"""
import argparse, hashlib, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import groups as G
from checks import CHECKS

BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, ".build"))
BASE = ("-std=gnu++17 -g0 -fno-omit-frame-pointer -I{root}/env/include -I{root}/harness -I{gen} -I{src} "
        "-I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -I/usr/include/eigen3 "
        "-DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1 -DSPDLOG_FMT_EXTERNAL "
        "-DFMT_DEPRECATED_OSTREAM=1 -DSPU_BUILD -DSPU_VMC_HOOKS -w "
        "-Wno-enum-constexpr-conversion -pthread")
PROTOS = ["libspu/spu.proto",
          "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/service.proto"]
ENV = ["vmc.cc", "venv.cc", "venv_rpc.cc", "stubs.cc", "llvmstub.cc", "mlir.cc", "vh.cc"]


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def gen_protos(gen):
    os.makedirs(gen, exist_ok=True)
    tmp = gen + ".tmp"
    os.makedirs(tmp, exist_ok=True)
    subprocess.check_call(["protoc", "--cpp_out=" + tmp] + PROTOS, cwd=G.SRC)
    for p in PROTOS:
        for ext in (".pb.h", ".pb.cc"):
            rel = p[:-6] + ext
            with open(os.path.join(tmp, rel)) as f:
                s = f.read()
            if ext == ".pb.h":
                # newer protobuf takes string_view where 3.21 takes string
                s = re.sub(r"(// @@protoc_insertion_point\(class_scope:[^\n]*\n)",
                           "  bool ParseFromString(::std::string_view d) {\n"
                           "    return ParseFromArray(d.data(), "
                           "static_cast<int>(d.size()));\n  }\n  \\1", s)
                s = "#include <string_view>\n" + s
            dst = os.path.join(gen, rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            write_if_changed(dst, s)


def build(ids):
    os.makedirs(BUILD, exist_ok=True)
    gen = os.path.join(BUILD, "gen")
    gen_protos(gen)
    base = BASE.format(root=ROOT, gen=gen, src=G.SRC)
    lines = ["ninja_required_version = 1.5", "builddir = " + BUILD,
             "cxx = clang++",
             "rule cc", "  command = $cxx $flags -MD -MF $out.d -c -o $out $in",
             "  depfile = $out.d", "  deps = gcc", "  description = CC $out",
             "rule pch", "  command = $cxx $flags -MD -MF $out.d -Xclang -fmodules-codegen "
             "-x c++-header -fpch-instantiate-templates -fpch-codegen -o $out $in",
             "  depfile = $out.d", "  deps = gcc", "  description = PCH $out",
             "rule pcho", "  command = $cxx $opt -c -o $out $in",
             "rule ln", "  command = $cxx $ld -fuse-ld=lld -o $out $in -lfmt -lspdlog "
             "-lprotobuf -lboost_context -lcrypto -pthread",
             "  description = LINK $out", ""]
    emitted = set()

    def need_pch(opt):
        d = os.path.join(BUILD, "obj" + opt.replace(" ", ""))
        pch = os.path.join(d, "pch.pch")
        if pch not in emitted:
            emitted.add(pch)
            lines.append(f"build {pch}: pch {ROOT}/env/include/pch.h")
            lines.append(f"  flags = {base} {opt}")
            lines.append(f"build {d}/pch.o: pcho {pch}")
            lines.append(f"  opt = {opt}")
        return pch

    def obj(path, tag, opt, extra=""):
        d = os.path.join(BUILD, "obj" + opt.replace(" ", ""))
        name = tag.replace("/", "_")
        o = os.path.join(d, name + ".o")
        if o in emitted:
            return o
        emitted.add(o)
        pch = need_pch(opt)
        lines.append(f"build {o}: cc {path} | {pch}")
        lines.append(f"  flags = {base} {opt} -include-pch {pch} {extra}")
        return o

    targets = []
    for i in ids:
        c = CHECKS[i]
        objs = []
        dopt = c.get("opt", "-O1")
        over = c.get("opt_for", {})
        for rel in G.sources(c["groups"]):
            opt = dopt
            for k, v in over.items():
                if re.search(k, rel):
                    opt = v
            objs.append(obj(os.path.join(G.SRC, rel), rel, opt))
        for p in PROTOS:
            objs.append(obj(os.path.join(gen, p[:-6] + ".pb.cc"), "gen_" + p + ".cc", dopt))
        for e in ENV:
            objs.append(obj(os.path.join(ROOT, "env/src", e), "env_" + e, c.get("env_opt", "-O1")))
        for e in c.get("env", []):
            objs.append(obj(os.path.join(ROOT, "env/src", e), "env_" + e, dopt))
        for h in c["harness"]:
            objs.append(obj(os.path.join(ROOT, "harness", h), "h_" + h,
                            c.get("hopt", "-O1")))
        for d in sorted({os.path.dirname(x) for x in objs}):
            objs.append(os.path.join(d, "pch.o"))
        exe = os.path.join(BUILD, i)
        lines.append(f"build {exe}: ln {' '.join(objs)}")
        if "ld" in c:
            lines.append(f"  ld = {c['ld']}")
        targets.append(exe)
    nin = os.path.join(BUILD, "build-%s.ninja" % ("all" if len(ids) > 1 else ids[0]))
    write_if_changed(nin, "\n".join(lines) + "\n")
    r = subprocess.run(["ninja", "-f", nin] + targets, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("check: the tree does not build in the verification environment")
        sys.exit(2)
    return targets


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--unit")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    ids = a.ids or sorted(CHECKS)
    t0 = time.time()
    exes = build(ids)
    if a.build_only:
        return
    rc = 0
    for i, exe in zip(ids, exes):
        cmd = [exe, "--id", i, "--tier", a.tier,
               "--seed", os.environ.get("VERIF_SEED", "1"),
               "--root", ROOT, "--build-s", "%.1f" % (time.time() - t0),
               "--known", os.path.join(ROOT, "known_findings.txt"),
               "--replay-dir", os.path.join(BUILD, "replay"),
               "--evidence", os.path.join(ROOT, "evidence", i + ".json"),
               "--level", CHECKS[i].get("level", "exploration"),
               "--rule", CHECKS[i].get("rule", ""),
               "--assume", "\n".join(CHECKS[i].get("assume", []))]
        if a.unit:
            cmd += ["--unit", a.unit]
        if a.replay:
            cmd += ["--replay", a.replay]
        rc = max(rc, subprocess.call(cmd))
    sys.exit(rc)


if __name__ == "__main__":
    main()
