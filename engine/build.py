"""Build configurations: /repo's current sources -> LLVM IR -> Program."""

import hashlib
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import irparse, ircomp
from .irparse import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SUPPORT = os.path.join(os.path.dirname(HERE), "support")

CODECS = ("avx2", "neon32", "neon64", "plain", "ssse3", "sse41", "sse42", "avx", "avx512")
DIRS = {c: c for c in CODECS}
DIRS["plain"] = "generic"
FLAG = {"avx2": 1, "neon32": 2, "neon64": 4, "plain": 8, "ssse3": 16, "sse41": 32, "sse42": 64, "avx": 128,
        "avx512": 256}
X86FLAGS = {"ssse3": ["-mssse3"], "sse41": ["-msse4.1"], "sse42": ["-msse4.2"], "avx": ["-mavx"],
            "avx2": ["-mavx2"], "avx512": ["-mavx512vl", "-mavx512vbmi"]}
X86 = ("ssse3", "sse41", "sse42", "avx", "avx2", "avx512")
HAVE = {"avx512": "AVX512", "avx2": "AVX2", "neon32": "NEON32", "neon64": "NEON64", "ssse3": "SSSE3",
        "sse41": "SSE41", "sse42": "SSE42", "avx": "AVX"}


class Config:
    def __init__(self, name, target, simd, cflags=(), wrap=(), sysinc=None, defs=(), omp=0):
        self.name = name
        self.target = target          # clang triple or None for the host
        self.simd = simd              # codecs compiled in (besides plain)
        self.cflags = list(cflags)
        self.wrap = wrap              # codecs compiled through the no-asm wrapper
        self.sysinc = sysinc
        self.defs = list(defs)
        self.omp = omp

    def codecs(self):
        return tuple(self.simd) + ("plain",)


NOASM = ["-DBASE64_%s_USE_ASM=0" % c for c in ("SSSE3", "SSE41", "SSE42", "AVX", "AVX2")]

CONFIGS = {
    "x64": Config("x64", None, X86),
    "x64-noasm": Config("x64-noasm", None, X86, NOASM),
    "i686": Config("i686", "i686-linux-gnu", X86, sysinc="/usr/i686-linux-gnu/include"),
    "aarch64": Config("aarch64", "aarch64-linux-gnu", ("neon64",), sysinc="/usr/aarch64-linux-gnu/include"),
    "aarch64-noasm": Config("aarch64-noasm", "aarch64-linux-gnu", ("neon64",), wrap=("neon64",),
                            sysinc="/usr/aarch64-linux-gnu/include"),
    "armhf": Config("armhf", "arm-linux-gnueabihf", ("neon32",), ["-march=armv7-a", "-mfpu=neon"],
                    sysinc="/usr/arm-linux-gnueabihf/include"),
    "armhf-noasm": Config("armhf-noasm", "arm-linux-gnueabihf", ("neon32",), ["-march=armv7-a", "-mfpu=neon"],
                          wrap=("neon32",), sysinc="/usr/arm-linux-gnueabihf/include"),
    "s390x": Config("s390x", "s390x-linux-gnu", (), sysinc="/usr/s390x-linux-gnu/include"),
    # big endian, 32 bit: the plain 32-bit codec in its other byte order
    "ppc32": Config("ppc32", "powerpc-linux-gnu", (), sysinc="/usr/s390x-linux-gnu/include"),
    "x64-omp": Config("x64-omp", None, X86, omp=1),
    "i686-omp": Config("i686-omp", "i686-linux-gnu", X86, sysinc="/usr/i686-linux-gnu/include", omp=1),
}


class BuildError(Exception):
    pass


_WORK = None


def workdir():
    global _WORK
    if _WORK is None:
        _WORK = tempfile.mkdtemp(prefix="verif-b64-")
        import atexit
        pid = os.getpid()

        def clean(d=_WORK):
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _WORK


def write_config(cfg, d):
    os.makedirs(d, exist_ok=True)
    out = []
    for c, m in HAVE.items():
        out.append("#define HAVE_%s %d\n" % (m, 1 if c in cfg.simd else 0))
    out.append('#ifndef BASE64_WITH_%s\n#endif\n' % "X")
    with open(os.path.join(d, "config.h"), "w") as f:
        f.writelines(out)
    return d


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return r.returncode, r.stdout, r.stderr.decode("utf8", "replace")


def cc_args(cfg, codec, confdir):
    a = []
    if cfg.target:
        a += ["--target=" + cfg.target]
    if cfg.sysinc:
        a += ["-isystem", cfg.sysinc]
    a += ["-I", confdir, "-I", os.path.join(REPO, "include")]
    a += cfg.cflags
    if codec in X86FLAGS and cfg.target is not None and "64" not in cfg.target or codec in X86FLAGS:
        a += X86FLAGS.get(codec, [])
    return a


def to_ir(src, args, opt=True, passes=None):
    """C file -> IR text"""
    cmd = ["clang", "-std=gnu11", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-stack-protector", "-w", "-S", "-emit-llvm",
           "-fno-discard-value-names", src, "-o", "-"] + args
    rc, out, err = run(cmd)
    if rc:
        raise BuildError("clang: " + err[:2000])
    p = passes or "always-inline,function(sroa,early-cse)"
    r = subprocess.run(["opt", "-S", "-passes=" + p, "-o", "-", "-"], input=out, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if r.returncode:
        raise BuildError("opt: " + r.stderr.decode()[:2000])
    return r.stdout.decode()


def wrapper_tu(codec, d):
    """TU that builds a codec without GNU inline assembly (as a non-GNU compiler would)"""
    p = os.path.join(d, "noasm_%s.c" % codec)
    with open(p, "w") as f:
        f.write("#include <stdint.h>\n#include <stddef.h>\n#include <string.h>\n#include <arm_neon.h>\n"
                "#undef __GNUC__\n#undef __clang__\n"
                '#include "%s/lib/arch/%s/codec.c"\n' % (REPO, DIRS[codec]))
    return p


def modules(cfg, codecs=None, lib=True, tables=True, extra=()):
    """Compile the library of a configuration; returns list of irparse.Module."""
    d = os.path.join(workdir(), "c-" + cfg.name)
    write_config(cfg, d)
    jobs = []
    if lib:
        a = cc_args(cfg, None, d) + list(cfg.defs)
        if cfg.omp:
            a += ["-I", SUPPORT, "-fopenmp", "-DBASE64_VERIF_OMP_THRESHOLD=%d" % cfg.omp]
        jobs.append(("lib", os.path.join(REPO, "lib/lib.c"), a, None))
        jobs.append(("codec_choose", os.path.join(REPO, "lib/codec_choose.c"), cc_args(cfg, None, d), None))
    if tables:
        jobs.append(("tables", os.path.join(REPO, "lib/tables/tables.c"), cc_args(cfg, None, d), None))
    for c in (CODECS if codecs is None else codecs):
        src = os.path.join(REPO, "lib/arch", DIRS[c], "codec.c")
        args = cc_args(cfg, c if c in cfg.simd else None, d)
        if c in cfg.wrap:
            src = wrapper_tu(c, d)
        jobs.append((c, src, args, None))
    for name, src, args in extra:
        jobs.append((name, src, cc_args(cfg, None, d) + list(args), None))

    def one(j):
        return irparse.Module(to_ir(j[1], j[2], passes=j[3]), j[0])
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))


def program(cfg, builtins=None, extern_globals=None, **kw):
    if isinstance(cfg, str):
        cfg = CONFIGS[cfg]
    ms = modules(cfg, **kw)
    p = ircomp.Program(ms, builtins, extern_globals, cfg.name)
    p.cfg = cfg
    return p
