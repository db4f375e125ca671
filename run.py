#!/usr/bin/env python3
"""Builds the library from /repo's working tree and runs one check on it.

  run.py Pxx [--tier quick|thorough] [--deadline S] [--keep-going...]
  run.py Pxx --replay FILE      replays a recorded violation
  run.py --build-all            compiles everything (setup)

Exit 0: the property held on everything explored; 1: violated, with a line
"VIOLATION property=<id> replay=<path>"; 2: the check itself failed.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ARGOS_REPO", "/repo")
BUILD = os.environ.get("ARGOS_MC_BUILD", os.path.join(VERIF, "build"))
MC = os.path.join(VERIF, "mc")
CXX = "g++"
BASE = ["-std=c++20", "-g1", "-O1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
FLAVOURS = {"plain": [], "san": SAN, "races": ["-fsanitize=thread"]}
# Checks whose property is about lifetimes, bounds or undefined behaviour run
# on the sanitized build.
SANITIZED = {"P14", "P15", "P16", "P17", "P18", "P20", "P32", "P38"}
DEFINES = {"plain": [], "san": ["-DMC_SANITIZED"], "races": ["-DMC_RACES"]}
# Checks that run operations on several threads.
RACES = {"P40"}
LINK = ["-Wl,--wrap=ioctl"]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:20]


def tree_digest(*dirs):
    parts = []
    for d in dirs:
        for base, sub, files in os.walk(d):
            sub.sort()
            for f in sorted(files):
                p = os.path.join(base, f)
                parts += [os.path.relpath(p, d), read(p)]
    return digest(*parts)


def version():
    """The project version, as CMake would substitute it."""
    txt = read(os.path.join(REPO, "CMakeLists.txt")).decode()
    m = re.search(r"project\s*\(\s*Argos\s+VERSION\s+([0-9.]+)", txt, re.I)
    v = m.group(1) if m else "0.0.0"
    a = (v.split(".") + ["0", "0", "0"])[:3]
    return {"PROJECT_VERSION": v, "PROJECT_VERSION_MAJOR": a[0], "PROJECT_VERSION_MINOR": a[1],
            "PROJECT_VERSION_PATCH": a[2], "Argos_VERSION": v, "Argos_VERSION_MAJOR": a[0],
            "Argos_VERSION_MINOR": a[1], "Argos_VERSION_PATCH": a[2]}


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("command failed: " + " ".join(cmd) + "\n" + r.stdout[-6000:])


class BuildError(Exception):
    pass


class SingleSourceError(BuildError):
    """Only the single-file distribution does not compile (P33)."""


def compile_to(out, cmd):
    if os.path.exists(out):
        return
    tmp = out + ".tmp%d" % os.getpid()
    run(cmd + ["-o", tmp])
    os.replace(tmp, out)


def build(check, flavour):
    """Returns the path of the check's executable."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(REPO, "src", "Argos")
    inc = os.path.join(REPO, "include")
    flags = BASE + FLAVOURS[flavour]
    tree = tree_digest(src, inc)
    ver = version()
    key = digest(tree, json.dumps(ver, sort_keys=True), " ".join(flags), read(os.path.join(MC, "exit_hook.hpp")))
    libdir = os.path.join(BUILD, "lib-" + key)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(libdir):  # drop builds of other trees
            old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("lib-")),
                         key=os.path.getmtime)
            for d in old[:-5]:
                shutil.rmtree(d, ignore_errors=True)
        gen = os.path.join(libdir, "gen")
        os.makedirs(os.path.join(gen, "Argos"), exist_ok=True)
        tmpl = os.path.join(src, "ArgosVersion.hpp.in")
        if os.path.exists(tmpl):
            txt = read(tmpl).decode()
            txt = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda m: ver.get(m.group(1) or m.group(2), ""), txt)
            for p in (os.path.join(gen, "ArgosVersion.hpp"), os.path.join(gen, "Argos", "ArgosVersion.hpp")):
                if not os.path.exists(p) or read(p).decode() != txt:
                    with open(p, "w") as f:
                        f.write(txt)
        incs = ["-I" + inc, "-I" + gen, "-I" + src]
        jobs, objs, hobjs = [], [], []
        for f in sorted(os.listdir(src)):
            if f.endswith(".cpp"):
                out = os.path.join(libdir, f + ".o")
                objs.append(out)
                jobs.append((out, [CXX] + flags + incs + ["-I" + os.path.join(inc, "Argos"), "-include",
                                   os.path.join(MC, "exit_hook.hpp"), "-c", os.path.join(src, f)]))
        # harness
        heads = b"".join(read(os.path.join(d, f)) for d in (MC, os.path.join(MC, "checks"))
                         for f in sorted(os.listdir(d)) if f.endswith(".hpp"))
        extra = []
        if check == "P33":
            extra = single_source_jobs(libdir, flags, gen, heads, jobs)
        for f in ("real.cpp", "model.cpp", "engine.cpp", "checks/%s.cpp" % check):
            p = os.path.join(MC, f)
            out = os.path.join(libdir, "h-%s-%s.o" % (os.path.basename(f), digest(heads, read(p))))
            hobjs.append(out)
            # The harness itself is not instrumented, only the library.
            jobs.insert(0, (out, [CXX] + BASE + DEFINES[flavour] + ["-Wall", "-Wextra", "-Wno-unused-function"] + incs
                            + ["-I" + MC, "-c", p]))
        objs += hobjs + extra  # the instrumented templates come first
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            results = [(j, ex.submit(compile_to, *j)) for j in jobs]
        single = None
        for j, r in results:
            try:
                r.result()
            except BuildError as e:
                if j[0] not in extra:
                    raise
                single = e
        if single:  # everything else compiles
            raise SingleSourceError(str(single))
        exe = os.path.join(libdir, "%s-%s" % (check, digest(*objs)))
        compile_to(exe, [CXX] + flags + objs + LINK)
    return exe


def single_source_jobs(libdir, flags, gen, heads, jobs):
    """P33: the amalgamated distribution, with its namespace and public names
    renamed so that both libraries live in one process."""
    ss = os.path.join(REPO, "single_src", "Argos")
    drv = os.path.join(MC, "checks", "single_driver.inc")
    shim = os.path.join(MC, "checks", "single_shim.cpp")
    outs = []
    key = digest(tree_digest(ss), heads, read(drv) if os.path.exists(drv) else b"", read(shim))
    out = os.path.join(libdir, "single-%s.o" % key)
    jobs.insert(0, (out, [CXX] + flags + ["-I" + os.path.join(REPO, "single_src"), "-I" + gen, "-I" + MC,
                          "-Dargos=argos_single", "-include", os.path.join(MC, "exit_hook.hpp"), "-c", shim]))
    outs.append(out)
    return outs


def flavour_of(check, tier):
    if check in RACES:
        return "races"
    return "san" if check in SANITIZED or (check == "P36" and tier == "thorough") else "plain"


def fixed_layout():
    """ThreadSanitizer wants its address ranges free: no random layout, where
    that can be asked for."""
    import ctypes
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except (OSError, AttributeError):
        pass


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--build-all":
        for f in sorted(os.listdir(os.path.join(MC, "checks"))):
            if re.fullmatch(r"P\d\d\.cpp", f):
                build(f[:3], flavour_of(f[:3], "quick"))
        return 0
    check = a.pop(0)
    tier, replay, more = "quick", None, []
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--replay":
            replay = a.pop(0)
        else:
            more.append(x)
    try:
        exe = build(check, os.environ.get("ARGOS_MC_FLAVOUR") or flavour_of(check, tier))
    except SingleSourceError as e:
        print(e, file=sys.stderr)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        out = os.path.join(VERIF, "replays", check + ".json")
        with open(out, "w") as f:
            json.dump({"property": check, "family": "compile", "case": "", "tier": tier, "detail": str(e)[-4000:]}, f)
        if not replay:
            print("the single-file distribution does not have the library's interface: it does not compile")
            print("VIOLATION property=%s replay=%s" % (check, out))
        return 1
    except BuildError as e:
        print(e, file=sys.stderr)
        return 2
    env = dict(os.environ)
    env.pop("COLUMNS", None)
    before = fixed_layout if check in RACES else None
    known = os.path.join(VERIF, "known_findings.txt")
    if replay:
        r = json.loads(read(replay).decode())
        env.setdefault("ASAN_OPTIONS", "malloc_context_size=30")
        if r.get("sequence"):
            return subprocess.run([exe, "--tier", r["tier"], "--sequence", replay + ".sequence"], env=env, preexec_fn=before).returncode
        return subprocess.run([exe, "--tier", r["tier"], "--case", r["family"], r["case"]], env=env, preexec_fn=before).returncode
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    out = os.path.join(VERIF, "replays", check + ".json")
    cmd = [exe, "--tier", tier, "--replay-out", out, "--known", known] + more
    if "--family" not in more:
        cmd += ["--evidence", os.path.join(VERIF, "evidence", check + ".json")]
    if "--deadline" not in more:
        cmd += ["--deadline", "420" if tier == "quick" else "780"]
    rc = subprocess.run(cmd, env=env, preexec_fn=before).returncode
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (check, out))
        return 1
    return 0 if rc == 0 else 2


sys.exit(main())
