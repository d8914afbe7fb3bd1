"""Builds the simulation binaries from /repo's current working tree (ninja, out of tree)."""
import glob, os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SCISIM_REPO", "/repo")
BUILD = os.environ.get("SCISIM_SIM_BUILD", os.path.join(VERIF, "build"))
SIMS = {"ball2d": "ball2d", "rb2d": "rigidbody2d", "rb3d": "rigidbody3d"}

FLAGS = ("-std=c++14 -O1 -fno-rtti -fopenmp -DNDEBUG -DEIGEN_DONT_PARALLELIZE -DCMAKE_DETECTED_GNU_COMPILER "
         "-DUSE_HDF5 -DUSE_PYTHON -DQL_FOUND -D_GLIBCXX_ASSERTIONS -isystem /usr/include/eigen3 "
         "-I%s/shim -I%s -w" % (VERIF, REPO))
EXTRA = os.environ.get("SCISIM_EXTRA_CXX", "")  # development only, e.g. --coverage
FLAGS += " " + EXTRA if EXTRA else ""


def sources(pats):
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, p))
    return sorted(f for f in out if "Ipopt" not in os.path.basename(f))


def uses_omp(path):
    with open(path, errors="replace") as f:
        return "#pragma omp" in f.read()


def obj(f):
    return "obj/" + os.path.relpath(f, "/").replace("/", "_") + ".o"


def write_ninja(targets):
    lines = ["ninja_required_version = 1.5",
             "rule cxx", "  command = g++ $flags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule pch", "  command = g++ $flags -x c++-header -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule link", "  command = g++ -rdynamic -o $out $in %s -lgomp -ldl -lpthread" % EXTRA, ""]
    done = set()
    # precompiled standard and Eigen headers, one per flag set; a source's own include lines still decide what it may use
    hdr = os.path.join(VERIF, "sim", "pch.h")
    for v, fl in (("plain", FLAGS), ("tsan", FLAGS + " -fsanitize=thread")):
        lines.append("build pch_%s/pch.h.gch: pch %s\n  flags = %s" % (v, hdr, fl))
        os.makedirs(os.path.join(BUILD, "pch_" + v), exist_ok=True)
        with open(os.path.join(BUILD, "pch_" + v, "pch.h"), "w") as f:
            f.write("/* replaced by the precompiled header */\n")

    def add(f, flags, pch=None):
        o = obj(f)
        if o not in done:
            done.add(o)
            dep = ""
            if pch:
                flags = "-include pch_%s/pch.h " % pch + flags
                dep = " | pch_%s/pch.h.gch" % pch
            lines.append("build %s: cxx %s%s\n  flags = %s" % (o, f, dep, flags))
        return o

    common = sources(["scisim/*.cpp", "scisim/*/*.cpp", "scisim/*/*/*.cpp", "scisim/*/*/*/*.cpp"])
    stub = [os.path.join(VERIF, "sim", s) for s in ("runtime.cpp", "hdf5_stub.cpp", "python_stub.cpp", "ql_stub.cpp")]
    # our own stubs must never be instrumented or asserted differently
    stub_flags = "-std=c++14 -O1 -fno-strict-aliasing -I%s/shim -I%s/sim -w" % (VERIF, VERIF)
    for t in targets:
        d = SIMS[t]
        own = sources([d + "/*.cpp", d + "/*/*.cpp", d + "/*/*/*.cpp", d + "utils/*.cpp"])
        cli = sources([d + "cli/*.cpp"])
        objs = [add(f, FLAGS + (" -fsanitize=thread" if uses_omp(f) else ""), "tsan" if uses_omp(f) else "plain") for f in common + own]
        objs += [add(f, FLAGS + " -Dmain=cli_main", "plain") for f in cli]
        objs += [add(f, stub_flags) for f in stub]
        lines.append("build sim_%s: link %s" % (t, " ".join(objs)))
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    text = "\n".join(lines) + "\n"
    name = "build_%s.ninja" % "_".join(sorted(targets))
    p = os.path.join(BUILD, name)
    old = open(p).read() if os.path.exists(p) else None
    if old != text:
        with open(p, "w") as f:
            f.write(text)
    return name


def build(targets):
    """Returns {target: binary path}; raises RuntimeError with the compiler output if the tree does not build."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        name = write_ninja(sorted(targets))
        r = subprocess.run(["ninja", "-C", BUILD, "-f", name, "-j", str(max(2, os.cpu_count() or 2))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("build failed:\n" + r.stdout[-6000:])
    return {t: os.path.join(BUILD, "sim_" + t) for t in targets}


if __name__ == "__main__":
    print(build(sys.argv[1:] or sorted(SIMS)))
