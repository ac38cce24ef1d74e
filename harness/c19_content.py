"""text of a run, for comparison"""
import json, hashlib

DERIVED = {"target_frequencies", "FDTD_grid_scaling", "material_collection", "N_materials", "out_features"}


def canon(v):
    """value -> comparable text"""
    import torch, numpy as np
    if isinstance(v, torch.nn.Module):
        return ["module", type(v).__name__, [[k, canon(t)] for k, t in v.state_dict().items()]]
    if isinstance(v, torch.Tensor):
        return ["tensor", str(v.dtype), list(v.shape), hashlib.md5(v.detach().cpu().numpy().tobytes()).hexdigest()]
    if isinstance(v, np.ndarray):
        return ["array", str(v.dtype), list(v.shape), hashlib.md5(v.tobytes()).hexdigest()]
    if hasattr(v, "items"):
        return ["map", [[str(k), canon(x)] for k, x in sorted(v.items(), key=lambda t: str(t[0]))]]
    if isinstance(v, (list, tuple)):
        return ["list", [canon(x) for x in v]]
    if isinstance(v, (int, float, str, bool, complex, type(None))) or isinstance(v, np.generic):
        return repr(v)
    if hasattr(v, "epsilon_matrix"):
        return ["collection", canon(v.epsilon_matrix), canon(list(v.material_names))]
    return ["object", type(v).__name__]


def content(run, derived=True):
    return json.dumps([[k, canon(run[k])] for k in sorted(run.keys()) if derived or k not in DERIVED])
