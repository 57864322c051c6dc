"""C29: results do not depend on the environment.

Every configuration of the interpreter, of torch and of the process, every module
as first import, and all pairs of a set of settings: the operations run in a fresh
interpreter with that configuration and have to give the results of the plain one."""
from __future__ import annotations

import itertools
import json
import os
import pickle
import pkgutil
import subprocess
import sys
import tempfile

from .. import harness
from ..harness import Violation

PROPERTY = "C29"
LEVEL = "exploration"
RULE = (
    "Each configuration is one fresh interpreter that runs all operations; every result is compared with the one of the plain configuration. Distinct: configuration x operation."
)
BOUNDS = {
    "quick": "interpreter options (-O, -OO, -B, -E, -s, -X dev, -X utf8, warnings as errors, 12 hash seeds, locales, umask), torch settings (threads 1-8, default types, deterministic, anomaly detection, default device, grad and inference mode, print options, denormals), "
    "process (directories with look-alike files, missing HOME and TMPDIR, standard streams closed, small recursion limit, garbage collection at every allocation, import and use in a thread), each module of the package as first import x 3 import modes; all pairs of 14 of the settings; every environment variable and file the package asks for, with 10 values or 4 contents each; 47 operations and 8 groups that cover the whole public interface each, forwards and backwards",
    "thorough": "additionally all triples of the 14 settings and 40 hash seeds",
}
CHUNK = 1
SKIP = {"e_defdouble"}
EXTRA = ["x_sizes", "x_shapes", "x_names", "x_tables", "x_lookups", "x_energies", "x_derivatives", "x_pieces"]
_BASE: dict = {}


def ops():
    from ..histops import OPS

    return [n for n in OPS if n not in SKIP] + EXTRA


def modules():
    """All modules of the package (found in the source tree, nothing imported)."""
    root = os.path.join(harness.REPO, "src", "tad_dftd4")
    out = ["tad_dftd4"]
    for d, _, fs in sorted(os.walk(root)):
        if "__pycache__" in d:
            continue
        pk = "tad_dftd4" + d[len(root):].replace(os.sep, ".")
        for f in sorted(fs):
            if f.endswith(".py"):
                out.append(pk if f == "__init__.py" else f"{pk}.{f[:-3]}")
    return sorted(set(out))


SET = {
    "plain": {},
    "optimised": dict(flags=["-O"]),
    "optimised2": dict(flags=["-OO"]),
    "dev": dict(flags=["-X", "dev"]),
    "noenv": dict(flags=["-E"]),
    "nosite": dict(flags=["-s"]),
    "utf8": dict(flags=["-X", "utf8"]),
    "werror": dict(flags=["-W", "error"]),
    "locale C": dict(env=dict(LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")),
    "locale POSIX": dict(env=dict(LC_ALL="POSIX", PYTHONUTF8="0", PYTHONIOENCODING="ascii", PYTHONCOERCECLOCALE="0")),
    "cwd root": dict(cwd="/"),
    "cwd decoy": dict(cwd="decoy"),
    "nohome": dict(env=dict(HOME=None, TMPDIR=None, USER=None, PATH="/usr/bin:/bin")),
    "umask": dict(early="os.umask(0o777)"),
    "nostdin": dict(early="os.close(0)"),
    "nostdout": dict(early="sys.stdout = None; sys.stderr = None"),
    "argv": dict(early="sys.argv[:] = ['', '--help']"),
    "thread": dict(thread=True),
    "recursion": dict(post="sys.setrecursionlimit(400)"),
    "gc": dict(post="import gc; gc.set_threshold(1, 1, 1)"),
    "gc off": dict(early="import gc; gc.disable()"),
    "double": dict(pre="torch.set_default_dtype(torch.double)"),
    "double later": dict(post="torch.set_default_dtype(torch.double)"),
    "half while importing": dict(pre="torch.set_default_dtype(torch.half)", post="torch.set_default_dtype(torch.float32)"),
    "deterministic": dict(pre="torch.use_deterministic_algorithms(True)"),
    "anomaly": dict(post="torch.autograd.set_detect_anomaly(True)"),
    "cpu device": dict(pre="torch.set_default_device('cpu')"),
    "printoptions": dict(pre="torch.set_printoptions(precision=2, sci_mode=False, profile='short')"),
    "denormals": dict(pre="torch.set_flush_denormal(True)"),
    "rng": dict(post="torch.manual_seed(1234)"),
    "matmul": dict(pre="torch.set_float32_matmul_precision('highest')"),
    "no jit": dict(env=dict(PYTORCH_JIT="0")),
    "import no_grad": dict(mode="no_grad"),
    "import inference": dict(mode="inference"),
    "numpy first": dict(early="import numpy"),
    "single-threaded autograd": dict(post="torch.autograd.set_multithreading_enabled(False)"),
    "mkldnn off": dict(pre="torch.backends.mkldnn.enabled = False"),
    "logging": dict(early="import logging; logging.basicConfig(level=logging.DEBUG)"),
    "tracing": dict(post="sys.settrace(lambda *a: None)"),
    "floating-point errors": dict(early="import numpy; numpy.seterr(all='raise')"),
}
for k in range(12):
    SET[f"hash {k}"] = dict(env=dict(PYTHONHASHSEED=str(k * 7919 + 1)))
for k in (2, 3, 4, 8):
    SET[f"threads {k}"] = dict(env=dict(OMP_NUM_THREADS=str(k), MKL_NUM_THREADS=str(k)), post=f"torch.set_num_threads({k})")
PAIR = [
    "optimised", "dev", "locale C", "cwd decoy", "thread", "gc", "double", "double later", "deterministic", "anomaly", "import inference", "import no_grad", "threads 3", "hash 5",
]
MODES = ["null", "inference", "double"]


def merge(*names):
    c = {}
    for n in names:
        for k, v in SET[n].items():
            if k == "env":
                c["env"] = {**c.get("env", {}), **v}
            elif k == "files":
                c["files"] = {**c.get("files", {}), **v}
            elif k == "flags":
                c["flags"] = c.get("flags", []) + v
            elif k in ("pre", "post", "early"):
                c[k] = c.get(k, "") + v + "\n"
            else:
                c[k] = v
    return c


def launch(cfg, reverse=False):
    with tempfile.TemporaryDirectory() as tmp:
        cfg = dict(cfg, root=harness.ROOT, repo=harness.REPO, ops=ops()[:: -1 if reverse else 1])
        if cfg.get("cwd") == "decoy":
            cfg["cwd"] = os.path.join(tmp, "decoy")
            os.makedirs(os.path.join(cfg["cwd"], "tad_dftd4"))
            for f in ("d3.toml", "d4.toml", "params.toml", "parameters.toml", "defaults.toml", ".tad_dftd4.toml", "setup.cfg", ".env"):
                open(os.path.join(cfg["cwd"], f), "w").write("[default]\nd4 = ['bj-eeq-two']\n[parameter.pbe]\n")
        for f, (base, text) in cfg.get("files", {}).items():  # stand-ins for files the package looks for
            base = {"cwd": tmp, "home": os.path.join(tmp, "home")}[base]
            os.makedirs(os.path.dirname(os.path.join(base, f)), exist_ok=True)
            open(os.path.join(base, f), "w").write(text)
        p = os.path.join(tmp, "cfg.json")
        json.dump(cfg, open(p, "w"))
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME=os.path.join(tmp, "home"))
        for k, v in cfg.get("env", {}).items():
            env.pop(k, None)
            if v is not None:
                env[k] = v
        r = subprocess.run([sys.executable, *(["-W", "ignore"] if "error" not in cfg.get("flags", []) else []), *cfg.get("flags", []), os.path.join(harness.ROOT, "mc", "envrun.py"), p], env=env, capture_output=True, timeout=280, cwd=tmp)
    try:
        return pickle.loads(r.stdout)
    except Exception:
        return f"exit code {r.returncode}: {r.stderr.decode(errors='replace')[-600:]}"


def space(tier):
    r = launch({})
    rec = launch({"record": True})
    if isinstance(r, str):
        raise Violation(f"plain configuration: {r}")
    r.pop("_seen")
    bad = {n: v for n, v in r.items() if isinstance(v, str)}
    if bad:
        raise Violation(f"plain configuration: {bad}")
    _BASE.update(r)
    if isinstance(rec, str):
        raise Violation(f"plain configuration: {rec}")
    out = [("set", (n,)) for n in SET]
    # everything the package asks for, with values it could react to
    pkg = os.path.realpath(os.path.join(harness.REPO, "src"))
    for k in rec["_seen"]["env"]:
        for v in ("", "0", "1", "2", "7.5", "true", "False", "float32", "d4s", "/"):
            SET[f"variable {k}={v}"] = dict(env={k: v})
            out.append(("set", (f"variable {k}={v}",)))
    for f in rec["_seen"]["file"]:
        if os.path.realpath(f).startswith((pkg, sys.prefix, sys.base_prefix, "/proc", "/sys", "/dev")):
            continue
        where = ("home", f.split("/home/", 1)[1]) if "/home/" in f else ("cwd", os.path.basename(f)) if os.path.isabs(f) else ("cwd", f)
        for v in ("", "1", "{}", "[default]\nd4 = ['bj-eeq-two']\n"):
            SET[f"file {where[1]} {v!r}"] = dict(files={where[1]: [where[0], v]})
            out.append(("set", (f"file {where[1]} {v!r}",)))
    out += [("set", p) for p in itertools.combinations(PAIR, 2)]
    out += [("first", m, k) for m in modules() for k in MODES]
    if tier == "thorough":
        out += [("set", p) for p in itertools.combinations(PAIR, 3)]
        for k in range(12, 40):
            SET[f"hash {k}"] = dict(env=dict(PYTHONHASHSEED=str(k * 7919 + 1)))
            out.append(("set", (f"hash {k}",)))
    return out


def evaluate(case, res):
    from ..histops import compare

    if case[0] == "set":
        cfg = merge(*case[1])
        i = len(case[1]) + list(SET).index(case[1][-1])
    else:
        cfg = merge(*dict(null=[], inference=["import inference"], double=["double"])[case[2]])
        cfg["first"] = f"import {case[1]}"
        i = len(case[1])
    both = case[0] == "set" and len(case[1]) == 1 and not case[1][0].startswith(("hash", "threads"))
    for rev in (False, True) if both else (i % 2 == 1,):
        r = launch(cfg, rev)
        if isinstance(r, str):
            raise Violation(f"{case}: {r}")
        for n in ops():
            a, b = r[n], _BASE[n]
            if isinstance(a, str) or isinstance(b, str):
                msg = None if a == b else f"{str(a)[:300]} instead of {str(b)[:300]}"
            else:
                msg = compare(a, b)
            if msg:
                raise Violation(f"{case} {'backwards ' if rev else ''}{n}: {msg}")
            res.see(str(case), n)
