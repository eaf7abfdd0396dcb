#!/usr/bin/env python3
"""Write a build.ninja which compiles /repo's working tree (src/ and the
standalone helper_functions) together with the harnesses of /verif.

Flavours (object files are separate, sources are the same):
  plain : -O1 -g0, assertions on                     (behavioural oracles)
  asan  : + AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions
"""
import os, re, sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))

UBSAN = ("bool,bounds,enum,float-cast-overflow,integer-divide-by-zero,return,"
         "shift,signed-integer-overflow,unreachable,vla-bound,builtin,null,"
         "pointer-overflow,returns-nonnull-attribute,nonnull-attribute")
FLAVOURS = {
    "plain": "-O1",
    "asan": f"-O1 -g1 -fno-omit-frame-pointer -fsanitize=address "
            f"-fsanitize={UBSAN} -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
}
LINK = {"plain": "", "asan": f"-fsanitize=address -fsanitize={UBSAN}"}

# compiled by nobody (not in the project's CMake files)
def cmake_sources():
    """all .cpp below src that some CMakeLists.txt mentions"""
    out = []
    for cm in sorted((REPO / "src").rglob("CMakeLists.txt")):
        text = re.sub(r"#.*", "", cm.read_text(errors="replace"))
        for cpp in sorted(cm.parent.glob("*.cpp")):
            if re.search(r"(?<![\w/])" + re.escape(cpp.name) + r"(?!\w)", text):
                out.append(cpp)
    # sources referred to with a relative path
    known = set(out)
    for cm in sorted((REPO / "src").rglob("CMakeLists.txt")):
        for m in re.findall(r"[\w./-]+/[\w.-]+\.cpp", re.sub(r"#.*", "", cm.read_text(errors="replace"))):
            p = (cm.parent / m).resolve()
            if p.exists() and p not in known:
                out.append(p)
                known.add(p)
    return out


def main():
    builddir = Path(sys.argv[1]).resolve()
    builddir.mkdir(parents=True, exist_ok=True)
    inc = [VERIF / "shim", VERIF / "harness"]
    inc += sorted(p for p in (REPO / "src").rglob("include") if p.is_dir())
    incs = " ".join(f"-I{p}" for p in inc)
    sysinc = (f"-isystem /usr/include/eigen3 -I{REPO}/Randutils/include "
              "-isystem /usr/include/coin")
    o = []
    o.append("ninja_required_version = 1.5")
    o.append(f"builddir = {builddir}")
    o.append(f"common = -std=c++17 -w -pipe -DHAVE_CSTDDEF -DGRAZER_VERSION=verif {incs} {sysinc}")
    for f, flags in FLAVOURS.items():
        o.append(f"""
rule pch_{f}
  command = g++ $common {flags} -x c++-header -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = PCH[{f}] $in
rule cxx_{f}
  command = g++ $common {flags} $extra -include {builddir}/{f}/pch.hpp -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX[{f}] $in
rule link_{f}
  command = g++ {LINK[f]} -fuse-ld=gold $in -o $out -lipopt -lpthread $extra
  description = LINK[{f}] $out
rule ar_{f}
  command = rm -f $out && ar crs $out $in
  description = AR[{f}] $out""")
    srcs = cmake_sources()
    for f in FLAVOURS:
        objs = []
        (builddir / f).mkdir(exist_ok=True)
        (builddir / f / "pch.hpp").write_text("#include <iostream>\n#error precompiled header not used\n")
        o.append(f"build {f}/pch.hpp.gch: pch_{f} {VERIF}/pch/pch.hpp")
        mainobj = None
        for s in srcs:
            rel = s.relative_to(REPO)
            obj = f"{f}/{rel}.o"
            extra = ""
            if s.name == "Adaptor.cpp":
                extra = "-D'SetBoolValue(a,b)=SetStringValue(a,(b)?\"yes\":\"no\")'"
            o.append(f"build {obj}: cxx_{f} {s} | {f}/pch.hpp.gch")
            if extra:
                o.append(f"  extra = {extra}")
            if s.name == "grazer.cpp":
                mainobj = obj
            else:
                objs.append(obj)
        o.append(f"build {f}/libgrazer.a: ar_{f} {' '.join(objs)}")
        # circular references between the archives' members are no problem: one archive
        o.append(f"build {f}/grazer: link_{f} {mainobj} {f}/libgrazer.a")
        for h in sorted((VERIF / "harness").glob("*.cpp")):
            obj = f"{f}/harness/{h.name}.o"
            o.append(f"build {obj}: cxx_{f} {h} | {f}/pch.hpp.gch")
            o.append(f"build {f}/{h.stem}: link_{f} {obj} {f}/libgrazer.a")
        for h in sorted((REPO / "helper_functions").glob("*.cpp")):
            obj = f"{f}/helpers/{h.name}.o"
            o.append(f"build {obj}: cxx_{f} {h} | {f}/pch.hpp.gch")
            o.append(f"build {f}/helper_{h.stem}: link_{f} {obj} {f}/libgrazer.a")
            o.append("  extra = -lstdc++fs")
    text = "\n".join(o) + "\n"
    p = builddir / "build.ninja"
    if not p.exists() or p.read_text() != text:
        p.write_text(text)


main()
