"""Content-addressed build of /repo's sources (+ a harness) per sanitizer variant.

Every object file is keyed by the hash of the *preprocessed inputs that can
influence it*: the source itself, every header under /repo (and /verif/harness
for harness files), the flags and the compiler version.  Nothing is reused
across a change of the code under test, whatever its mtime.
"""
import hashlib, os, subprocess, sys, glob, shutil, fcntl, uuid
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
HARNESS = os.path.join(VERIF, "harness")

COMMON = ["-std=c++17", "-g1", "-w", "-DNDEBUG", "-fno-omit-frame-pointer",
          "-DGFLAGS_IS_A_DLL=0", "-DGLOG_CUSTOM_PREFIX_SUPPORT",
          "-isystem", "/usr/include/opencv4", "-isystem", "/usr/include/eigen3"]
VARIANTS = {
    # what users run (Release, NDEBUG), a bit cheaper to compile than -O3
    "rel":  ["-O2"],
    # memory errors + undefined behaviour; preconditions of the libstdc++
    # containers and (_DEBUG) of the inline functions of OpenCV
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_DEBUG"],
    # data races
    "tsan": ["-O1", "-fsanitize=thread"],
    # automatic variables start with a byte pattern / with zeros: any output
    # difference between the two is a dependence on an uninitialised variable
    "pat":  ["-O1", "-ftrivial-auto-var-init=pattern"],
    "zero": ["-O1", "-ftrivial-auto-var-init=zero"],
}
# flags for the sources under test only: stage monitors hang on function entry/exit
LIB_EXTRA = {
    "hook": ["-finstrument-functions",
             "-finstrument-functions-exclude-file-list=/usr/,OptimizationCeres,point_refinement"],
}
VARIANTS["hook"] = VARIANTS["rel"]
# harnesses that run an application in process: its main is renamed, and the
# constructor and the solver are observed through the linker
EMBED = {
    "pipe": dict(app="calibrate", units=["scene_gen.cpp", "pipe_mon.cpp", "pipe_files.cpp"], wrap=[
        "_ZN7McCalib11CalibrationC1ERKNSt10filesystem7__cxx114pathE",
        "_ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE"]),
    "conf": dict(app="create_charuco_boards", units=["scene_gen.cpp", "pipe_mon.cpp"], wrap=[]),
    "photo": dict(app="calibrate", units=["scene_gen.cpp"], wrap=[]),
    "run": dict(app="calibrate", wrap=[]),
    "hostile": dict(units=["scene_gen.cpp", "pipe_mon.cpp"], wrap=[]),
    "twin": dict(units=["scene_gen.cpp", "pipe_mon.cpp"], wrap=[]),
    "detect": dict(units=["scene_gen.cpp", "pipe_mon.cpp"], wrap=["_ZN2cv6imreadERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEi"]),
}
LINK = ["-lopencv_aruco", "-lopencv_calib3d", "-lopencv_imgcodecs",
        "-lopencv_imgproc", "-lopencv_features2d", "-lopencv_flann",
        "-lopencv_highgui", "-lopencv_core", "-lceres", "-lglog",
        "-l:libboost_log.a", "-l:libboost_log_setup.a", "-l:libboost_thread.a",
        "-l:libboost_filesystem.a", "-l:libboost_chrono.a", "-l:libboost_regex.a",
        "-l:libboost_atomic.a", "-l:libboost_system.a", "-lpthread", "-lrt", "-ldl"]
CXX = "/usr/bin/g++"


class BuildError(Exception):
    pass


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def _tree(patterns):
    out = []
    for pat in patterns:
        for f in sorted(glob.glob(pat, recursive=True)):
            if os.path.isfile(f):
                out.append(f.encode() + b"\0" + open(f, "rb").read())
    return b"\1".join(out)


def repo_headers():
    return _tree([f"{REPO}/McCalib/**/*.h", f"{REPO}/McCalib/**/*.hpp",
                  f"{REPO}/apps/**/*.h", f"{REPO}/apps/**/*.hpp",
                  f"{REPO}/include/**/*.h*"])


def harness_headers():
    return _tree([f"{HARNESS}/*.hpp"])


_cxxv = None


def _ver():
    global _cxxv
    if _cxxv is None:
        _cxxv = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    return _cxxv


def _compile(src, flags, hdr, obj_dir):
    key = _h(src, open(src, "rb").read(), hdr, " ".join(flags), _ver())
    obj = os.path.join(obj_dir, key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%s.tmp" % uuid.uuid4().hex
    cmd = [CXX, *flags, "-I", f"{REPO}/McCalib/include", "-I", f"{REPO}/McCalib/src",
           "-I", HARNESS, "-c", src, "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (src, r.stderr[-6000:]))
    os.replace(tmp, obj)
    return obj


def build(targets):
    """targets: list of (variant, [main sources]); returns list of exe paths."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        obj_dir = os.path.join(BUILD, "obj")
        bin_dir = os.path.join(BUILD, "bin")
        os.makedirs(obj_dir, exist_ok=True)
        os.makedirs(bin_dir, exist_ok=True)
        rh, hh = repo_headers(), harness_headers()
        libsrc = sorted(glob.glob(f"{REPO}/McCalib/src/*.cpp"))
        if not libsrc:
            raise BuildError("no sources under %s/McCalib/src" % REPO)
        jobs = {}
        plan = []
        for variant, mains in targets:
            flags = COMMON + VARIANTS[variant]
            emb = EMBED.get(os.path.splitext(os.path.basename(mains[0]))[0]) \
                if mains[0].startswith(HARNESS) else None
            need = []
            srcs = [(s, []) for s in mains] + [(s, LIB_EXTRA.get(variant, [])) for s in libsrc]
            if emb:
                srcs += [(os.path.join(HARNESS, u), []) for u in emb.get("units", [])]
            if emb and "app" in emb:
                srcs.append((f"{REPO}/apps/{emb['app']}/src/{emb['app']}.cpp",
                             ["-Dmain=%s_app_main" % emb["app"]] + LIB_EXTRA.get(variant, [])))
            for s, extra in srcs:
                k = (" ".join(flags), s, " ".join(extra))
                jobs[k] = (s, flags + extra, rh + (hh if s.startswith(HARNESS) else b""), obj_dir)
                need.append(k)
            wrap = ["-Wl,--wrap=" + w for w in emb["wrap"]] if emb else []
            plan.append((variant, flags, need, mains, wrap))
        # biggest sources first: better packing
        order = sorted(jobs, key=lambda k: -_weight(k[1]))
        done = {}
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            futs = {k: ex.submit(_compile, *jobs[k]) for k in order}
            for k in order:
                done[k] = futs[k].result()
        exes = []
        links = []
        for variant, flags, need, mains, wrap in plan:
            objs = [done[k] for k in need]
            name = os.path.splitext(os.path.basename(mains[0]))[0]
            key = _h(variant, *objs, *wrap)
            exe = os.path.join(bin_dir, f"{name}-{variant}-{key[:12]}")
            exes.append(exe)
            if not os.path.exists(exe) and exe not in [l[0] for l in links]:
                links.append((exe, flags + wrap, objs))

        def link(l):
            exe, flags, objs = l
            san = [f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")
                   or f.startswith("-Wl,--wrap")]
            r = subprocess.run([CXX, *san, "-rdynamic", *objs, "-o", exe + ".tmp", *LINK],
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("link failed: %s\n%s" % (exe, r.stderr[-4000:]))
            os.replace(exe + ".tmp", exe)
        with ThreadPoolExecutor(max_workers=4) as ex:
            list(ex.map(link, links))
        _prune(obj_dir, bin_dir)
        return exes
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _weight(s):
    b = os.path.basename(s)
    return {"CameraGroup.cpp": 100, "Object3D.cpp": 80, "Camera.cpp": 80,
            "McCalib.cpp": 90, "geometrytools.cpp": 40, "logger.cpp": 45}.get(
        b, 95 if s.startswith(HARNESS) else 10)


def _prune(obj_dir, bin_dir, limit=3 << 30):
    files = []
    for d in (obj_dir, bin_dir):
        for f in os.listdir(d):
            p = os.path.join(d, f)
            try:
                st = os.stat(p)
                files.append((st.st_atime, st.st_size, p))
            except OSError:
                pass
    total = sum(f[1] for f in files)
    for at, sz, p in sorted(files):
        if total <= limit:
            break
        try:
            os.unlink(p)
            total -= sz
        except OSError:
            pass
