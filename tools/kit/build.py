#!/usr/bin/env python3
"""Builds demo.cc (beside this folder) with the listed sources of the tree in
the current directory and the stand-ins in kit/env, runs it in a scratch folder."""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
KIT = os.path.dirname(os.path.abspath(__file__))
HERE = os.path.dirname(KIT)
REPO = os.getcwd()
os.environ["VERIF_REPO"] = REPO
sys.path.insert(0, KIT)
sys.dont_write_bytecode = True
import groups as G
grp = open(os.path.join(HERE, "groups.txt")).read().split()
tmp = tempfile.mkdtemp(prefix="demo")
try:
    gen = os.path.join(tmp, "gen")
    os.makedirs(gen)
    protos = ["libspu/spu.proto",
              "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/service.proto"]
    subprocess.check_call(["protoc", "--cpp_out=" + gen] + protos, cwd=G.SRC)
    for p in protos:
        h = os.path.join(gen, p[:-6] + ".pb.h")
        s = open(h).read()
        s = re.sub(r"(// @@protoc_insertion_point\(class_scope:[^\n]*\n)",
                   "  bool ParseFromString(::std::string_view d) {\n    return ParseFromArray("
                   "d.data(), static_cast<int>(d.size()));\n  }\n  \\1", s)
        open(h, "w").write("#include <string_view>\n" + s)
    flags = ("-std=gnu++17 -g0 -O0 -w -pthread -I%s/env/include -I%s -I%s -I%s -I/usr/include/llvm-18 "
             "-I/usr/include/llvm-c-18 -I/usr/include/eigen3 -DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1 "
             "-DSPDLOG_FMT_EXTERNAL -DFMT_DEPRECATED_OSTREAM=1 -DSPU_BUILD "
             "-Wno-enum-constexpr-conversion" % (KIT, KIT, gen, G.SRC)).split()
    pch = os.path.join(tmp, "pch.pch")
    subprocess.check_call(["clang++"] + flags + ["-x", "c++-header", "-Xclang", "-fmodules-codegen",
                           "-fpch-instantiate-templates", "-fpch-codegen", "-o", pch,
                           os.path.join(KIT, "env/include/pch.h")])
    subprocess.check_call(["clang++", "-O0", "-c", "-o", os.path.join(tmp, "pch.o"), pch])
    src = [os.path.join(G.SRC, r) for r in G.sources(grp)]
    src += [os.path.join(gen, p[:-6] + ".pb.cc") for p in protos]
    src += sorted(glob.glob(os.path.join(KIT, "env/src/*.cc")))
    src += [os.path.join(HERE, "demo.cc")]
    objs = [os.path.join(tmp, "%d.o" % i) for i in range(len(src))]

    def cc(a):
        return subprocess.call(["clang++"] + flags + ["-include-pch", pch, "-c", "-o", a[1], a[0]])
    with ThreadPoolExecutor(8) as ex:
        order = sorted(zip(src, objs), key=lambda a: -os.path.getsize(a[0]))
        if any(ex.map(cc, order)):
            sys.exit("demo: does not compile")
    exe = os.path.join(tmp, "demo")
    subprocess.check_call(["clang++", "-fuse-ld=lld", "-o", exe] + objs + [os.path.join(tmp, "pch.o"),
                           "-lfmt", "-lspdlog", "-lprotobuf", "-lboost_context", "-lcrypto", "-pthread"])
    rc = subprocess.call(["timeout", "-s", "KILL", "100", exe, "--id", "demo", "--tier", "quick", "--seed", "1", "--root", tmp,
                          "--build-s", "0", "--known", "/dev/null", "--replay-dir", tmp,
                          "--evidence", os.path.join(tmp, "e.json"), "--level", "exploration",
                          "--rule", "", "--assume", ""], cwd=tmp)
    sys.exit(1 if rc else 0)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
