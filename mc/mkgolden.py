"""One-off: freeze the reference data of the pinned tree as the golden copy.

Run only by hand (never by a check): the checks compare the tree under test
against these frozen numbers.
"""
import json, os
import numpy as np, torch, tomli
import tad_dftd4
from tad_dftd4 import data
from tad_dftd4.reference import d4 as ref
from tad_dftd4.reference.d4.charge_eeq import clsq, clsh
from tad_dftd4.reference.d4.charge_gfn2 import refq, refh
from tad_dftd4.data.wfpair import WFPAIR
from tad_mctc.data import VDW_PAIRWISE

D = torch.double
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "golden")
out = dict(
    refcovcn=ref.refcovcn.to(D), refalpha=ref.refalpha.to(D),
    refascale=ref.refascale.to(D), refscount=ref.refscount.to(D),
    refsys=ref.refsys.long(), refc=ref.refc.long(),
    secscale=ref.secscale.to(D), secalpha=ref.secalpha.to(D),
    clsq=clsq.to(D), clsh=clsh.to(D), gfnq=refq.to(D), gfnh=refh.to(D),
    zeff=data.ZEFF().to(D), gam=data.GAM(dtype=D), r4r2=data.R4R2(dtype=D),
    wfpair=WFPAIR(dtype=D), rvdw=VDW_PAIRWISE(dtype=D),
)
for k, v in out.items():
    print(k, tuple(v.shape), v.dtype)
np.savez_compressed(os.path.join(here, "tables.npz"), **{k: v.numpy() for k, v in out.items()})
base = os.path.join(os.path.dirname(tad_dftd4.__file__), "damping/parameters")
tab = {m: tomli.load(open(f"{base}/{m}.toml", "rb")) for m in ("d3", "d4")}
for m in tab:
    tab[m] = {"default": tab[m]["default"], "parameter": {f: v.get(m) for f, v in tab[m]["parameter"].items()}}
json.dump(tab, open(os.path.join(here, "params.json"), "w"), sort_keys=True, indent=0)
