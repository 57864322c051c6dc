"""Runs operations of histops.py in one environment (child of C29): envrun.py CONFIG.json -> pickled results on stdout."""
import contextlib
import json
import os
import pickle
import sys

cfg = json.load(open(sys.argv[1]))
out = os.fdopen(os.dup(1), "wb")
os.dup2(2, 1)  # nothing else writes into the result
sys.dont_write_bytecode = True
sys.path.insert(0, cfg["root"])
sys.path.insert(0, os.path.join(cfg["repo"], "src"))
if cfg.get("cwd"):
    os.chdir(cfg["cwd"])
# what the package asks the environment for: variables and files outside of it
seen = {"env": set(), "file": set()}
PKG = os.path.realpath(os.path.join(cfg["repo"], "src", "tad_dftd4")) + os.sep


def asks():
    f = sys._getframe(2)
    for _ in range(8):
        if f is None:
            return False
        if os.path.abspath(f.f_code.co_filename).startswith(PKG):
            return True
        if f.f_code.co_filename.startswith("<frozen importlib") or "site-packages" in f.f_code.co_filename:
            return False  # imports and dependencies have their own settings
        f = f.f_back
    return False


if cfg.get("record"):
    _get, _stat = os._Environ.__getitem__, os.stat

    def getitem(self, key):
        if isinstance(key, str) and asks():
            seen["env"].add(key)
        return _get(self, key)

    def stat(path, *a, **k):
        if isinstance(path, (str, os.PathLike)) and asks():
            seen["file"].add(os.fspath(path))
        return _stat(path, *a, **k)

    def hook(event, args):
        if event == "open" and isinstance(args[0], str) and asks():
            seen["file"].add(args[0])

    os._Environ.__getitem__, os.stat = getitem, stat
    sys.addaudithook(hook)
exec(cfg.get("early", ""))
import torch  # noqa: E402

# the dependencies keep tables in the default type of the moment they are imported in: not under test
import tad_mctc.batch, tad_mctc.convert, tad_mctc.data, tad_mctc.math, tad_mctc.ncoord, tad_mctc.typing  # noqa: E401, E402, F401
import tad_multicharge  # noqa: E402, F401

CTX = dict(no_grad=torch.no_grad, inference=torch.inference_mode, enable_grad=torch.enable_grad, null=contextlib.nullcontext)


def load():
    with CTX[cfg.get("mode", "null")]():
        exec(cfg.get("pre", ""))
        if cfg.get("first"):
            exec(cfg["first"], {})
        import mc.histops  # noqa: F401


if cfg.get("thread"):
    import threading

    t = threading.Thread(target=load)
    t.start()
    t.join()
else:
    load()
exec(cfg.get("post", ""))
from mc.envops import EXTRA, flat  # noqa: E402
from mc.histops import OPS, World, normalise  # noqa: E402

import tad_dftd4  # noqa: E402

if not os.path.realpath(tad_dftd4.__file__).startswith(os.path.realpath(cfg["repo"])):
    raise SystemExit("wrong package")
res = {}


def work():
    for n in cfg["ops"]:
        try:
            res[n] = normalise(flat(EXTRA[n]()) if n in EXTRA else OPS[n](World()))
        except Exception as e:
            res[n] = f"{type(e).__name__}: {e}"


if cfg.get("thread"):
    t = threading.Thread(target=work)
    t.start()
    t.join()
else:
    work()
res["_seen"] = {k: sorted(v) for k, v in seen.items()}
out.write(pickle.dumps(res))
out.close()
os._exit(0)
