"""Builds the simulator around /repo's current working tree."""
import concurrent.futures as cf
import glob, os, subprocess, sys, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PASSGEN_REPO", "/repo")
COMMON = ["-DCMAKE_C_COMPILER=gcc", "-DBUILD_TESTING=OFF", "-DBUILD_TOOLS=ON", "-DBUILD_BENCH=OFF", "-DBUILD_DATA=OFF",
          "-DBUILD_GIT_INFO=OFF", "-DPASSGEN_SECCOMP=ON", "-DLIBPASSGEN_SHARED=OFF",
          "-DCMAKE_C_FLAGS=-fsanitize=address -fsanitize-coverage=trace-pc -fno-omit-frame-pointer -g1 -U_FORTIFY_SOURCE",
          "-DCMAKE_EXE_LINKER_FLAGS=-Wl,--unresolved-symbols=ignore-all",
          "-DCMAKE_C_FLAGS_DEBUG=-O1", "-DCMAKE_C_FLAGS_RELEASE=-O2 -DNDEBUG"]


TOOLS = {"wordlist": "tool_wordlist_main", "utf8-recode": "tool_utf8_recode_main", "tokenize": "tool_tokenize_main"}


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def configure(out, name):
    bd = os.path.join(out, name)
    run(["cmake", "-S", REPO, "-B", bd, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=" + name.capitalize()] + COMMON)
    return bd


def make(bd):
    run(["ninja", "-C", bd, "passgen-cli", "passgen-static"] + list(TOOLS))


def objects(bd):
    objs = [o for o in glob.glob(bd + "/src/**/*.o", recursive=True) if "CompilerId" not in o]
    lib = [o for o in objs if "/passgen-static.dir/" in o]
    cli = [o for o in objs if "/passgen-cli.dir/" in o]
    if not lib or not cli:
        raise BuildError("no objects found in " + bd)
    tools = []
    for name, main in TOOLS.items():    # each of them with only its main function visible
        parts = [o for o in objs if "/src/tools/CMakeFiles/%s.dir/" % name in o]
        if not parts:
            raise BuildError("no objects of %s found in %s" % (name, bd))
        whole = os.path.join(bd, main + ".merged")
        run(["ld", "-r", "-o", whole] + parts)
        run(["objcopy", "--redefine-sym=main=" + main, "--keep-global-symbol=" + main, whole])
        tools.append(whole)
    return lib + cli + tools


def compile_cpp(src, obj, inc):
    run(["g++", "-std=c++17", "-O1", "-g1", "-Wall", "-Wno-pedantic"] + inc + ["-c", src, "-o", obj])
    return obj


def link(out, name, bd, cpp):
    merged = os.path.join(out, name + ".merged.o")
    run(["ld", "-r", "-o", merged] + objects(bd))
    syms = run(["nm", "--defined-only", "-g"] + [o for o in cpp if o.endswith("kernel.o")])
    names = sorted({l.split()[-1][4:] for l in syms.splitlines() if l.split()[-1:] and l.split()[-1].startswith("sim_")})
    table = os.path.join(out, name + ".syms")
    with open(table, "w") as f:
        for n in names:
            f.write("%s sim_%s\n" % (n, n))
        f.write("main passgen_cli_main\n")
    hooked = os.path.join(out, name + ".hooked.o")
    run(["objcopy", "--redefine-syms=" + table, merged, hooked])
    exe = os.path.join(out, "sim_" + name)
    run(["g++", "-fsanitize=address", "-rdynamic", "-o", exe] + cpp + [hooked, "-lseccomp", "-lpthread", "-lm"])
    # everything that the code under test still takes from outside
    und = run(["nm", "-u", hooked])
    return exe, sorted({l.split()[-1] for l in und.splitlines() if l.split()})


def build(out, configs=("debug", "release")):
    """Returns {config: (executable, outside symbols)}."""
    os.makedirs(out, exist_ok=True)
    with cf.ThreadPoolExecutor(16) as ex:
        bds = dict(zip(configs, ex.map(lambda n: configure(out, n), configs)))
        inc = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + os.path.join(bds[configs[0]], "src"), "-I" + os.path.join(HERE, "sim")]
        srcs = sorted(glob.glob(HERE + "/sim/*.cpp"), key=lambda s: -os.path.getsize(s))
        jobs = [ex.submit(make, bd) for bd in bds.values()]
        cpp = [ex.submit(compile_cpp, s, os.path.join(out, os.path.basename(s)[:-4] + ".o"), inc) for s in srcs]
        for j in jobs:
            j.result()
        cpp = [c.result() for c in cpp]
        res = dict(zip(configs, ex.map(lambda n: link(out, n, bds[n], cpp), configs)))
    return res


if __name__ == "__main__":
    tmp = None
    if sys.argv[1] == "--setup":     # every check builds for itself, this only shows that it can
        tmp = tempfile.mkdtemp(prefix="passgen-sim-")
    try:
        r = build(tmp or sys.argv[1])
    except BuildError as e:
        sys.exit(str(e))
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    for k, v in r.items():
        print(k, v[0])
        print("  outside:", " ".join(v[1]))
