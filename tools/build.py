#!/usr/bin/env python3
"""Builds one check executable from /repo's working tree.

build(name, variant) -> path.  Variants: plain, asan; race: source
files whose memory accesses are scheduling points (rt/race.cpp).  Everything goes to /verif/build/<variant>.
"""
import fcntl, glob, os, re, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMC_REPO", "/repo")
BUILD = os.environ.get("VMC_BUILD", os.path.join(VERIF, "build"))

COMMON = ["-std=gnu++17", "-g1", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-pie",
          "-include", "cstdint", "-fno-stack-protector", "-DVMC_BUILD"]
VAR = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
}
RACEFLAGS = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
LIBS = ["-lglog", "-lgflags", "-lssl", "-lcrypto", "-lpthread", "-ldl"]


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


def config_h():
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", cm[cm.index("project("):])
    a, b, c = m.groups()
    return f"""#pragma once
#include <fcntl.h>
#define WDT_VERSION_MAJOR {a}
#define WDT_VERSION_MINOR {b}
#define WDT_VERSION_BUILD {c}
#define WDT_VERSION_STR "{a}.{b}.{c}-vmc"
#define WDT_PROTOCOL_VERSION WDT_VERSION_MINOR
#define HAS_POSIX_FALLOCATE 1
#define HAS_SYNC_FILE_RANGE 1
#define HAS_POSIX_MEMALIGN 1
#define HAS_POSIX_FADVISE 1
#define WDT_SUPPORTS_ODIRECT 1
#define WDT_HAS_SOCKIOS_H 1
"""


def build(names, variant="plain", wdt=True, quiet=True, race=(), standalone=False):
    """names: {exe: [sources...]}; standalone: flags without the wdt_ prefix, as in the command line program"""
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    inc, gen = os.path.join(d, "inc"), os.path.join(d, "gen")
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, "wdt")
    if not os.path.islink(link) or os.readlink(link) != REPO:
        if os.path.lexists(link):
            os.unlink(link)
        os.symlink(REPO, link)
    write_if_changed(os.path.join(gen, "wdt", "WdtConfig.h"), config_h())
    flags = COMMON + VAR[variant]
    incs = ["-I" + os.path.join(VERIF, "shim"), "-I" + gen, "-I" + inc, "-I" + os.path.join(VERIF, "rt"),
            "-I" + os.path.join(VERIF, "checks"), "-I" + VERIF]
    out = ["ninja_required_version = 1.5",
           "rule cc", "  command = g++ $fl $incs -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
           "rule ar", "  command = rm -f $out && ar crsD $out $in",
           "rule ld", "  command = g++ -no-pie $lfl -o $out $in $libs",
           "incs = " + " ".join(incs)]
    objs = []
    if wdt:
        srcs = sorted(glob.glob(REPO + "/*.cpp") + glob.glob(REPO + "/util/*.cpp"))
        for s in srcs:
            if os.path.basename(s) == "wdtCmdLine.cpp":
                continue
            r = os.path.relpath(s, REPO)
            o = "wdt_" + r.replace("/", "_") + ".o"
            fl = flags
            if r in race:  # memory accesses become scheduling points (rt/race.cpp)
                o = "race_" + o
                fl = flags + RACEFLAGS
            if standalone and r == "util/WdtFlags.cpp":
                o = "sa_" + o
                fl = fl + ["-DSTANDALONE_APP"]
            out += [f"build {o}: cc {s}", "  fl = " + " ".join(fl)]
            objs.append(o)
    rt = []
    for s in sorted(glob.glob(os.path.join(VERIF, "rt", "*.cpp"))):
        if os.path.basename(s) == "race.cpp" and variant != "plain":
            continue  # the sanitizer declares the same functions
        o = "rt_" + os.path.basename(s) + ".o"
        fl = flags
        out += [f"build {o}: cc {s}", "  fl = " + " ".join(fl + ["-DVMC_VARIANT_" + variant.upper()])]
        rt.append(o)
    lfl = "-fsanitize=address" if variant == "asan" else ""
    seen = set()
    for exe, srcs in names.items():
        os_ = []
        for s in srcs:
            o = "chk_" + s.replace("/", "_") + ".o"
            if o not in seen:
                seen.add(o)
                p = s if s.startswith("/") else os.path.join(VERIF, s)
                out += [f"build {o}: cc {p}", "  fl = " + " ".join(flags)]
            os_.append(o)
        out += [f"build {exe}: ld " + " ".join(os_ + rt + objs), "  libs = " + " ".join(LIBS), "  lfl = " + lfl]
    f = os.path.join(d, "build.ninja." + "_".join(sorted(names))[:80])
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        write_if_changed(f, "\n".join(out) + "\n")
        r = subprocess.run(["ninja", "--quiet", "-C", d, "-f", f] + list(names), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        return None
    if not quiet:
        sys.stdout.write(r.stdout[-500:])
    return {e: os.path.join(d, e) for e in names}


if __name__ == "__main__":
    v = sys.argv[2] if len(sys.argv) > 2 else "plain"
    n = sys.argv[1]
    print(build({n: [f"checks/{n}.cpp"]}, v, quiet=False))
