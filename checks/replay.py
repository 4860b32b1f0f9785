"""Real builds of /repo's current tree, and execution of replay scripts on them."""

import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
from engine import build
from engine.build import CONFIGS, CODECS, X86FLAGS, REPO, SUPPORT

CC = {None: ("gcc", []), "i686-linux-gnu": ("i686-linux-gnu-gcc", None),
      "aarch64-linux-gnu": ("aarch64-linux-gnu-gcc", ["qemu-aarch64"]),
      "arm-linux-gnueabihf": ("arm-linux-gnueabihf-gcc", ["qemu-arm"]),
      "s390x-linux-gnu": ("s390x-linux-gnu-gcc", ["qemu-s390x"])}

_built = {}


class NoReplay(Exception):
    pass


def _cc(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise build.BuildError(" ".join(cmd[:3]) + ": " + r.stdout.decode("utf8", "replace")[:1500])


def runner(cfg):
    """how binaries of the configuration are started: [] natively"""
    if cfg.target not in CC:
        raise NoReplay("no cross compiler for " + str(cfg.target))
    cc, run = CC[cfg.target]
    if run is None:
        run = []
    return cc, run


def lib_objects(cfg, defs=(), opt="-O2", tag=""):
    """compile the library; returns list of object files"""
    cc, _ = runner(cfg)
    d = os.path.join(build.workdir(), "r-" + cfg.name + tag)
    os.makedirs(d, exist_ok=True)
    build.write_config(cfg, d)
    base = [cc, "-std=c99", opt, "-w", "-I", d, "-I", os.path.join(REPO, "include")] + list(cfg.cflags) + list(defs)
    jobs = []
    omp = ["-fopenmp"] if cfg.omp else []
    jobs.append((os.path.join(REPO, "lib/lib.c"), omp))
    jobs.append((os.path.join(REPO, "lib/codec_choose.c"), []))
    jobs.append((os.path.join(REPO, "lib/tables/tables.c"), []))
    for c in CODECS:
        src = os.path.join(REPO, "lib/arch", build.DIRS[c], "codec.c")
        if c in cfg.wrap:
            src = build.wrapper_tu(c, d)
        jobs.append((src, X86FLAGS.get(c, []) if c in cfg.simd else []))
    outs = []

    def one(k):
        src, extra = jobs[k]
        o = os.path.join(d, "o%d.o" % k)
        std = ["-std=gnu99"] if src.startswith(d) else []
        _cc(base + std + extra + ["-c", src, "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, range(len(jobs))))
    return d, outs


def driver(cfgname, defs=()):
    """command that runs the driver built against the real library"""
    key = (cfgname, tuple(defs))
    if key in _built:
        return _built[key]
    cfg = CONFIGS[cfgname]
    cc, run = runner(cfg)
    tag = "".join(c if c.isalnum() else "_" for c in "".join(defs))
    d, objs = lib_objects(cfg, defs, tag=tag)
    exe = os.path.join(d, "driver")
    _cc([cc, "-std=gnu11", "-O1", "-w", "-static", "-I", os.path.join(REPO, "include"), "-o", exe,
         os.path.join(SUPPORT, "driver.c")] + list(cfg.cflags) + objs + (["-fopenmp"] if cfg.omp else []))
    _built[key] = run + [exe]
    return _built[key]


def run_script(cfgname, ops, defs=(), env=None, timeout=90):
    cmd = driver(cfgname, defs)
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, input=("\n".join(ops) + "\n").encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, timeout=timeout, env=e)
    return r.stdout.decode().split("\n")[:-1] + ([] if r.returncode == 0 else ["EXIT %d" % r.returncode])


def matches(got, want):
    """first difference or None; None entries in want are not compared; a tuple lists alternatives"""
    for i, w in enumerate(want):
        g = got[i] if i < len(got) else "<nothing>"
        if g.startswith("SIGNAL"):
            return "step %d: expected %r, the real build died with %s" % (i, w, g)
        if w is None:
            continue
        if isinstance(w, (tuple, list)):
            if g not in w:
                return "step %d: expected one of %r, real build printed %r" % (i, w, g)
        elif g != w:
            return "step %d: expected %r, real build printed %r" % (i, w, g)
    if len(got) != len(want):
        return "expected %d lines, got %r" % (len(want), got[len(want):len(want) + 3])
    return None


def confirm(sc):
    """replay a scenario; returns (status, text), status in confirmed / not-confirmed / impossible"""
    try:
        got = run_script(sc["cfg"], sc["ops"], sc.get("defs", ()), sc.get("env"))
    except NoReplay as e:
        return "impossible", str(e)
    if any(g == "SIGNAL 4" for g in got):
        return "impossible", "this CPU cannot execute the codec"
    d = matches(got, sc["expect"])
    if d is None:
        return "not-confirmed", "real build prints what was expected"
    return "confirmed", d
