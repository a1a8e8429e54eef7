from .common import REG, Prob, vec, mat, blend
from . import em, static, pf, layered, lists


def build(cfg):
    return REG[cfg["phys"]](cfg)
