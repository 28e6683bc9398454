"""Builds the ElectionGuard library from /repo's current working tree, in one of
several variants, and links harness programs against it.

Objects are compiled outside /repo (in /verif/.build). Every object is looked up
by content (ccache when it is there), never by modification time, so that a run
always judges the sources as they are now.
"""
import concurrent.futures
import hashlib
import os
import re
import shutil
import subprocess
import sys
import threading

REPO = os.environ.get("EG_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("EG_BUILD", os.path.join(VERIF, ".build"))
JOBS = int(os.environ.get("EG_JOBS", os.cpu_count() or 8))

DEFS = ["-DLOG_DEBUG", "-DEXPORT_INTERNALS", "-DHACL_CAN_COMPILE_VEC128",
        "-DHACL_CAN_COMPILE_VEC256", "-DELECTIONGUARD_BUILD_SHARED"]

INC = ["include", "src", "src/electionguard", "src/karamel"]

# calls into code that is not instrumented: harness/sched.cpp notes what they access
WRAPPED = """memcpy memmove memset free Lib_Memzero0_memzero
_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_
_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_
_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm
_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm
_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_mutateEmmPKcm
_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4swapERS4_
Hacl_Bignum4096_add Hacl_Bignum4096_sub Hacl_Bignum4096_mul Hacl_Bignum4096_mod
Hacl_Bignum256_add Hacl_Bignum256_sub Hacl_Bignum256_mul Hacl_Bignum256_mod
Hacl_Bignum4096_mod_precomp Hacl_Bignum256_mod_precomp
Hacl_GenericField64_to_field Hacl_GenericField64_from_field Hacl_GenericField64_mul
Hacl_Bignum4096_mod_exp_consttime_precomp Hacl_Bignum4096_mod_exp_vartime_precomp
Hacl_Bignum256_mod_exp_consttime_precomp Hacl_Bignum256_mod_exp_vartime_precomp
Hacl_Bignum4096_lt_mask Hacl_Bignum256_lt_mask
Hacl_Bignum4096_bn_to_bytes_be Hacl_Bignum256_bn_to_bytes_be
Hacl_Streaming_SHA2_update_256 Hacl_Streaming_SHA2_finish_256""".split()

VARIANTS = {
    # the production configuration
    "std": dict(defs=["-DUSE_STANDARD_PRIMES"], cxx=["-O2"], c=["-O2"]),
    # the small group the project provides for tests
    "tiny": dict(defs=["-DUSE_TEST_PRIMES"], cxx=["-O1"], c=["-O2"]),
    # memory-checked production configuration
    "asan": dict(defs=["-DUSE_STANDARD_PRIMES"],
                 cxx=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                      "-fno-omit-frame-pointer"],
                 c=["-O2", "-fsanitize=address", "-fno-omit-frame-pointer"],
                 link=["-fsanitize=address,undefined"]),
    # every memory access and atomic of the C++ code goes through the schedule
    # explorer's runtime (harness/sched.cpp), which is linked instead of libtsan
    "sched": dict(defs=["-DUSE_STANDARD_PRIMES", "-D_GLIBCXX_ASSERTIONS"], cxx=["-O1", "-fsanitize=thread"],
                  c=["-O2"], link=["-rdynamic"] + ["-Wl,--wrap=" + w for w in WRAPPED]),
}


class BuildError(Exception):
    pass


def sources():
    text = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    text = re.sub(r"#[^\n]*", "", text)
    start = text.index("set(PROJECT_SOURCE_FILES")
    body = text[start:text.index(")", text.index("\n", start))]
    body = body.replace("${PROJECT_SOURCE_DIR}", REPO)
    files = re.findall(r"/[^\s]+\.(?:cpp|c)\b", body)
    if not files:
        raise BuildError("no sources found in src/CMakeLists.txt")
    return files


def _env():
    env = dict(os.environ)
    env.pop("CCACHE_DISABLE", None)
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env["CCACHE_MAXSIZE"] = "2G"
    env["CCACHE_NOHASHDIR"] = "1"
    return env


CCACHE = shutil.which("ccache")


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env())
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))


def _flags(variant, is_cxx):
    v = VARIANTS[variant]
    f = list(DEFS) + v["defs"] + ["-I" + os.path.join(REPO, i) for i in INC]
    f += ["-fPIC", "-w"]
    f += (["-std=c++17"] + v["cxx"]) if is_cxx else v["c"]
    return f


def _compile(src, obj, variant, extra=()):
    is_cxx = src.endswith(".cpp")
    cmd = (([CCACHE] if CCACHE else []) + (["g++"] if is_cxx else ["gcc"]) + _flags(variant, is_cxx)
           + list(extra) + ["-c", src, "-o", obj])
    _run(cmd)
    return obj


def build_many(jobs):
    """jobs: list of (src, obj, variant, extra)"""
    # biggest first
    jobs = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(_compile, *j) for j in jobs]
        errs = []
        for f in futs:
            try:
                f.result()
            except BuildError as e:
                errs.append(e)
    if errs:
        raise errs[0]


def lib_jobs(variant, exclude=()):
    out = os.path.join(BUILD, "obj", variant)
    os.makedirs(out, exist_ok=True)
    jobs = []
    for s in sources():
        if any(s.endswith(e) for e in exclude):
            continue
        obj = os.path.join(out, os.path.relpath(s, REPO).replace("/", "__") + ".o")
        jobs.append((s, obj, variant, ()))
    return jobs


def program(name, variant, srcs, extra=(), link=(), harness_variant=None):
    """Compile library variant + harness sources, return the path of the program."""
    jobs = lib_jobs(variant)
    libobjs = [j[1] for j in jobs]
    out = os.path.join(BUILD, "obj", "h_" + name + "_" + variant)
    os.makedirs(out, exist_ok=True)
    hobjs = []
    for s in srcs:
        plain = False
        if isinstance(s, tuple):
            s, plain = s
        path = s if os.path.isabs(s) else os.path.join(VERIF, "harness", s)
        obj = os.path.join(out, os.path.basename(s) + ".o")
        hv = variant
        ex = ["-I" + os.path.join(VERIF, "harness")] + list(extra)
        if plain:
            ex.append("-fno-sanitize=all")
        jobs.append((path, obj, hv, tuple(ex)))
        hobjs.append(obj)
    build_many(jobs)
    exe = os.path.join(BUILD, "bin", name + "_" + variant)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    cmd = ["g++", "-o", exe] + hobjs + libobjs + VARIANTS[variant].get("link", [])
    cmd += list(link) + ["-lfmt", "-lgmpxx", "-lgmp", "-lcrypto", "-lpthread", "-ldl"]
    _run(cmd)
    return exe


if __name__ == "__main__":
    import time
    for v in sys.argv[1:] or ["std"]:
        t = time.time()
        build_many(lib_jobs(v))
        print(v, "%.1fs" % (time.time() - t))
