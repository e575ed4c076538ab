"""Symbolic choice of a checkpointing configuration."""
import numpy as np

from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import (
    PyrevolveCheckpointer,
)


def checkpointer_choice(ctx, family, N, nmax, prefix=""):
    """(class, options, label); the choice and the number of checkpoints are symbolic."""
    kinds = {
        "all": ["AllCheckpointer", "SingleLevel", "Memory"],
        "revolve": ["SingleLevel", "Memory", "MultiLevel"],
        "everything": ["AllCheckpointer", "SingleLevel", "Memory", "MultiLevel"],
        "store": ["AllCheckpointer"],
        "any": ["NoCheckpointer", "AllCheckpointer", "SingleLevel", "Memory", "MultiLevel"],
    }[family]
    kind = ctx.choice(prefix + "checkpointer", kinds)
    if kind == "AllCheckpointer":
        return AllCheckpointer, {}, kind
    if kind == "NoCheckpointer":
        return NoCheckpointer, {}, kind
    ro = {}
    if kind == "MultiLevel":
        ncp = int(ctx.int(prefix + "ncp", 1, 2))
        # pyrevolve's multi level scheduler itself only supports some combinations (the
        # project warns about it); every step in level one is always supported
        ro["storage_list"] = {"Numpy": {"n_ckp": int(N) + ncp, "dtype": np.float64}}
    elif kind == "SingleLevel":
        ro["n_checkpoints"] = int(ctx.int(prefix + "ncp", 1, max(1, nmax)))
    else:
        k = int(ctx.int(prefix + "ncp", 0, 2))
        if k:
            ro["n_checkpoints"] = k
    return PyrevolveCheckpointer, {"revolver_type": kind, "revolver_options": ro}, kind
