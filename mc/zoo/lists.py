"""Finite configuration alphabets, per physics.

``core`` is one or two representative configurations per physics (used where every
configuration is multiplied by operation sequences); ``full(tier)`` enumerates the
formulation x source x receiver x invertible-property products completely.
"""

from itertools import product

OR3 = ["x", "y", "z", "vec"]
RI = ["real", "imag"]


def fdem_full(tier):
    out = []
    srcs_eb = ["raw_e", "raw_m", "raw", "magdip", "magdip_x", "magdip_vec", "magdip_mu",
               "magdip_b", "loop", "line", "line_open", "primsec"]
    srcs_hj = ["raw_e", "raw_m", "raw", "magdip", "magdip_x", "magdip_mu", "magdip_b", "loop", "line",
               "line_open"]
    rx = {
        "e": ["e", "b", "h", "j", "bs"],
        "b": ["e", "b", "h", "j", "bs"],
        "h": ["e", "b", "h", "j"],
        "j": ["e", "b", "h", "j"],
    }
    for form in "ebhj":
        # every source kind with every receiver field, real/imag mixed
        for s in srcs_eb if form in "eb" else srcs_hj:
            for inv in ["sigma", "sigma+mu"] if tier == "quick" else [
                "sigma", "rho", "mu", "mui", "sigma+mu", "rho+mui"]:
                if inv != "sigma" and s in ("line", "line_open") and False:
                    continue
                rxs = [[r, OR3[i % 4], RI[i % 2]] for i, r in enumerate(rx[form])]
                out.append(dict(phys="fdem", form=form, inv=inv, src=[s], rx=rxs, freqs=[0.9e3]))
        # orientation x component product
        for o in OR3:
            for c in RI:
                rxs = [[r, o, c] for r in rx[form]]
                out.append(dict(phys="fdem", form=form, inv="rho", src=["raw"], rx=rxs, freqs=[2e3], one=1))
        # several sources per frequency, several frequencies
        for inv in ["sigma", "rho", "mu", "mui"]:
            for ss in (["raw_e", "raw_m"], ["magdip", "line"], ["raw", "loop", "magdip_x"]):
                rxs = [[r, OR3[(i + 1) % 4], RI[(i + 1) % 2]] for i, r in enumerate(rx[form][:4])]
                for rev in (0, 1):
                    out.append(dict(phys="fdem", form=form, inv=inv, src=list(ss), rx=rxs, reverse=rev))
        for mesh in ["tree", "cyl"]:
            o1 = "y" if form in "eb" else "x"
            rxs = (
                [["e", "x", "real"], ["b", "z", "imag"], ["h", "x", "real"]]
                if mesh == "tree"
                else ([["e", "y", "real"], ["b", "z", "imag"], ["b", "x", "real"]] if form in "eb"
                      else [["h", "y", "real"], ["j", "z", "imag"], ["j", "x", "real"]])
            )
            for s in (["raw"] if mesh == "cyl" else ["raw", "magdip"]):
                for inv in ["sigma", "rho", "mu"]:
                    out.append(dict(phys="fdem", form=form, inv=inv, src=[s], rx=rxs, mesh=mesh))
        if form in "eb":
            for mesh in ["cyl"]:
                out.append(dict(phys="fdem", form=form, inv="sigma", src=["magdip", "loop"],
                                rx=[["b", "z", "real"], ["e", "y", "imag"]], mesh=mesh))
    for s in ["raw", "magdip"]:
        for c in RI:
            for form in "eh":
                out.append(dict(phys="fdem", form=form, inv="sigma", src=[s], rx=[["e", "x", c], ["h", "y", c]],
                            permittivity=1, freqs=[1e5]))
    return out


def tdem_full(tier):
    out = []
    # the E and J formulations do not offer the undifferentiated b / h fields
    rx = {"e": ["e", "j", "dbdt", "dhdt"], "j": ["e", "j", "dbdt", "dhdt"]}
    rx["b"] = rx["h"] = ["e", "b", "dbdt", "h", "j", "dhdt"]
    waves = ["stepoff", "rampoff", "rampoff_late", "raw", "trap", "tri", "qsin", "hsin", "vtem", "pwl", "exp"]
    for form in "ebhj":
        for r in rx[form]:
            for o in OR3:
                for t in ["mid", "late", "all"]:
                    if tier == "quick" and (o, t) not in (("x", "mid"), ("vec", "all")):
                        continue
                    out.append(dict(phys="tdem", form=form, inv="sigma", src=["magdip"], rx=[[r, o]],
                                    times=t, steps="var"))
        srcs = ["magdip", "magdip_y", "loop", "line", "line_open"] + (["raw_g"] if form in "hj" else [])
        third = "dbdt" if form in "hj" else "dhdt"
        for s in srcs:
            for w in (["stepoff", "trap"] if tier == "quick" else waves):
                if form == "b" and s in ("line_open", "raw_g") and w in ("stepoff", "rampoff", "rampoff_late", "exp"):
                    continue  # grounded sources with initial current are not implemented there
                rxs = [["e", "x"], ["dbdt" if form in "eb" else "dhdt", "z"], [third if form in "ej" else "b", "y"]]
                out.append(dict(phys="tdem", form=form, inv="sigma", src=[s], rx=rxs, wave=[w],
                                times="mid", steps="var"))
        for w in waves:
            out.append(dict(phys="tdem", form=form, inv="rho", src=["magdip", "line"],
                            rx=[["b" if form in "bh" else "dbdt", "z"], ["j", "x"],
                                ["dbdt" if form in "eb" else "dhdt", "y"]],
                            wave=[w, "stepoff"], times="all", steps="alt"))
        for inv in ["sigma", "rho"]:
            for st in ["var", "uni", "alt"]:
                out.append(dict(phys="tdem", form=form, inv=inv, src=["magdip", "line"],
                                rx=[["e", "x"], ["h" if form in "bh" else "dhdt", "vec"]],
                                wave=["stepoff", "trap"], steps=st, times="late"))
        if form in "eb":
            out.append(dict(phys="tdem", form=form, inv="sigma", src=["magdip", "loop"],
                            rx=[["e", "y"], ["b" if form == "b" else "dbdt", "z"], ["dbdt", "x"]], mesh="cyl", steps="var"))
    return out


def nsem_full(tier):
    out = []
    comps = ["real", "imag", "apparent_resistivity", "phase"]
    for o in ["xx", "xy", "yx", "yy"]:
        for c in comps:
            for k in ["Z", "Z2"]:
                out.append(dict(phys="nsem3d", rx=[[k, o, c]]))
        for c in RI:
            out.append(dict(phys="nsem3d", rx=[["Y", o, c]]))
    for o in ["zx", "zy", "xx", "xy", "yx", "yy"]:
        for c in RI:
            for k in ["T", "T2"] if o[0] == "z" else ["T2"]:
                out.append(dict(phys="nsem3d", rx=[[k, o, c]]))
    for o in ["zx", "zy"]:
        for c in RI:
            out.append(dict(phys="nsem3d", rx=[["Y", o, c]]))
    out.append(dict(phys="nsem3d", rx=[["S", "", ""]]))
    out.append(dict(phys="nsem3d", rx=[["Z", "xy", "phase"], ["T2", "zy", "imag"], ["S", "", ""], ["Y", "yx", "real"]]))
    for form in ["1de", "1dm"]:
        for o in ["xy", "yx"]:
            for c in comps:
                for inv in ["sigma", "rho"]:
                    out.append(dict(phys="nsem1d", form=form, inv=inv, rx=[["Z", o, c]]))
        out.append(dict(phys="nsem1d", form=form, rx=[["Z", "xy", c] for c in comps]))
    for inv in ["sigma", "rho", "sigma+thicknesses", "rho+thicknesses"]:
        for c in comps:
            out.append(dict(phys="nsem1d", form="1dr", inv=inv, rx=[["Z", "xy", c]]))
        out.append(dict(phys="nsem1d", form="1dr", inv=inv, rx=[["Z", "xy", "real"], ["Z", "yx", "imag"]]))
    for inv in ["sigma", "sigma+mu"]:
        for c in comps:
            for k in ["Z", "Z2"]:
                out.append(dict(phys="nsem2d", form="2de", inv=inv, rx=[[k, "xy", c]]))
                out.append(dict(phys="nsem2d", form="2dm", inv=inv, rx=[[k, "yx", c]]))
        for c in RI:
            out.append(dict(phys="nsem2d", form="2de", inv=inv, rx=[["Y", "yx", c], ["Z", "xy", c]]))
            out.append(dict(phys="nsem2d", form="2dm", inv=inv, rx=[["Y", "xy", c], ["T", "zx", c]]))
    return out


DCS = [
    [["d", ["d", "p"]], ["p", ["d"]], ["m", ["p", "d"]]],
    [["p", ["p"]], ["d2", ["d", "d"]]],
    [["d", ["shared"]], ["p", ["shared", "p"]], ["d2", ["shared"]]],
]


def static_full(tier):
    out = []
    for form in ["CC", "N"]:
        for bc in ["Robin", "Neumann", "Dirichlet"] if form == "CC" else ["Robin", "Neumann"]:
            for inv in ["sigma", "rho", "sigma_lin"]:
                for s in range(3):
                    if bc == "Neumann" and s != 2 and False:
                        continue
                    src = DCS[s] if bc != "Neumann" else [["d", ["d", "d"]], ["d2", ["shared"]]]
                    if bc == "Neumann" and s:
                        continue
                    for storeJ in (False, True):
                        out.append(dict(phys="dc3d", form=form, bc=bc, inv=inv, src=src, storeJ=storeJ))
                        out.append(dict(phys="dc2d", form=form, bc=bc, inv=inv, src=src, storeJ=storeJ))
        for s in range(3):
            for d in ("dc3d", "dc2d"):
                out.append(dict(phys=d, form=form, src=DCS[s], mini=True))
                out.append(dict(phys=d, form=form, src=DCS[s], mini=True, storeJ=True))
        for d in ("dc3d", "dc2d"):
            out.append(dict(phys=d, form=form, src=DCS[0][:2], dtype=["apparent_resistivity", "volt"]))
            out.append(dict(phys=d, form=form, src=DCS[0][:2], dtype="apparent_resistivity", inv="rho", space="wholespace"))
            out.append(dict(phys=d, form=form, src=DCS[2], dtype="apparent_resistivity", storeJ=True))
            out.append(dict(phys=d, form=form, src=DCS[0][:2], dtype="apparent_resistivity", mini=True))
            out.append(dict(phys=d, form=form, src=DCS[0], mesh="tree"))
            for nk in (3, 4):
                if d == "dc2d":
                    out.append(dict(phys=d, form=form, src=DCS[0], nky=nk))
    for s in ([["d", ["d", "p"]], ["p", ["d"]]], [["p", ["p"]], ["d2", ["d", "d"]]]):
        for inv in ["rho", "sigma", "rho+thicknesses", "sigma+thicknesses", "thicknesses"]:
            out.append(dict(phys="dc1d", src=s, inv=inv))
        out.append(dict(phys="dc1d", src=s, inv="rho", dtype="apparent_resistivity"))
        out.append(dict(phys="dc1d", src=s, inv="rho+thicknesses", dtype=["apparent_resistivity", "volt"]))
    for form in ["3CC", "3N", "2CC", "2N"]:
        for s in (DCS[0][:2], DCS[1], DCS[2]):
            for inv in ["eta", "eta2"]:
                for bg in ["sigma", "rho"]:
                    for st in (False, True):
                        out.append(dict(phys="ip", form=form, src=s, inv=inv, bg=bg, storeJ=st))
        out.append(dict(phys="ip", form=form, src=DCS[0][:2], dtype="apparent_chargeability"))
        out.append(dict(phys="ip", form=form, src=DCS[2], dtype="apparent_chargeability", storeJ=True))
    for form in ["3CC", "3N", "2CC", "2N"]:
        for inv in ["eta", "eta+taui", "eta+tau", "eta+taui+c"]:
            for same in (1,):
                for st in (False, True):
                    if form[0] == "2" and st:
                        continue
                    out.append(dict(phys="sip", form=form, inv=inv, src=[["d", ["d", "p"]], ["p", ["d"]]],
                                    sametimes=same, storeJ=st))
    for inv in ["lin", "exp", "cd", "hh"]:
        for bc in ["Robin", "Dirichlet"]:
            for st in (False, True):
                out.append(dict(phys="sp", inv=inv, bc=bc, storeJ=st))
    return out


GC = ["gx", "gy", "gz", "gxx", "gxy", "gxz", "gyy", "gyz", "gzz", "guv"]
MC = ["tmi", "bx", "by", "bz", "bxx", "bxy", "bxz", "byy", "byz", "bzz", "tmi_x", "tmi_y", "tmi_z"]


def pf_full(tier):
    out = []
    for eng, store in [("geoana", "ram"), ("geoana", "forward_only"), ("choclo", "ram"), ("choclo", "forward_only")]:
        for inv in ["id", "exp", "blend"]:
            out.append(dict(phys="grav", rx=[GC[:5], GC[5:], ["gz"]], engine=eng, store=store, inv=inv))
            out.append(dict(phys="grav", rx=[["gz"]], engine=eng, store=store, inv=inv))
        out.append(dict(phys="grav", rx=[["gz", "gx"], ["gyz"]], engine=eng, store=store, mesh="tree"))
        if True:
            out.append(dict(phys="grav", rx=[["gz", "gx"], ["gy"]], engine=eng, store=store, layer=1))
        mc = MC if eng == "choclo" else [c for c in MC if not c.startswith("tmi_")]
        for mt in ["scalar", "vector"]:
            for inv in ["id", "exp", "blend"] + (["sph"] if mt == "vector" else []):
                out.append(dict(phys="mag", rx=[mc[:5], mc[5:], ["tmi"]], engine=eng, store=store, inv=inv, mtype=mt))
            out.append(dict(phys="mag", rx=[["tmi", "bx"], ["byz"]], engine=eng, store=store, mtype=mt, mesh="tree"))
            out.append(dict(phys="mag", rx=[["bx", "by", "bz"]], engine=eng, store=store, mtype=mt, amp=True))
            out.append(dict(phys="mag", rx=[["bx", "by", "bz"]] * 2, engine=eng, store=store, mtype=mt, amp=True, inv="blend"))
            out.append(dict(phys="mag", rx=[["tmi", "bx"], ["bz"]], engine=eng, store=store, mtype=mt, layer=1))
    for inv in ["mu", "rem", "mu+rem"]:
        for rx in ([["tmi"]], [["bx", "by", "bz"]], [["tmi", "bx"], ["bz", "by"]]):
            for st in (False, True):
                out.append(dict(phys="magpde", rx=rx, inv=inv, storeJ=st))
    out.append(dict(phys="magpde", rx=[["tmi", "bz"]], inv="mu", rem=1))
    return out


def layered_full(tier):
    out = []
    for inv in ["sigma", "rho", "mu", "thicknesses", "sigma+thicknesses", "sigma+mu+thicknesses", "h", "sigma+h"]:
        for s in (["magdip"], ["loop"], ["magdip_x"], ["line"], ["magdip", "loop"]):
            for c in ("real", "imag", "both"):
                line = "line" in s
                if line and "h" in inv.split("+"):
                    continue
                kinds = [["hs", "z", c, "field"]]
                if not line:
                    kinds += [["hs", "z" if "loop" in s else "x", c, "ppm"]]
                    if "loop" not in s:
                        kinds += [["h", "z", c, "field"]]
                out.append(dict(phys="fdem1d", inv=inv, src=s, rx=kinds))
    for s in ("magdip", "magdip_x", "magdip_y"):
        for o in ("x", "y", "z", "vec"):
            out.append(dict(phys="fdem1d", inv="sigma", src=[s], rx=[["hs", o, "both", "field"]]))
    for extra in ("ip", "vrm", "mu"):
        for c in ("real", "imag"):
            d = dict(phys="fdem1d", inv="sigma", src=["magdip"], rx=[["hs", "z", c, "field"]])
            d[extra] = 1
            out.append(d)
    for inv in ["sigma", "rho", "mu", "thicknesses", "sigma+thicknesses", "h", "sigma+h"]:
        for s in (["magdip"], ["loop"], ["line"], ["magdip", "loop"]):
            if "line" in s and "h" in inv.split("+"):
                continue
            for rx in ([["b", "z"]], [["dbdt", "z"], ["h", "z"]]):
                for multi in (0, 1):
                    out.append(dict(phys="tdem1d", inv=inv, src=s, rx=rx, multi=multi))
    for w in ["rampoff", "trap", "tri", "qsin", "hsin", "pwl"]:
        for s in ("magdip", "line"):
            out.append(dict(phys="tdem1d", inv="sigma", src=[s], rx=[["b", "z"], ["dbdt", "z"]], wave=w))
    for extra in ("ip", "vrm", "mu"):
        d = dict(phys="tdem1d", inv="sigma", src=["magdip"], rx=[["dbdt", "z"], ["b", "z"]])
        d[extra] = 1
        out.append(d)
    for w in ["sq", "arb", "arbp"]:
        for ft in ["h", "b", "dhdt", "dbdt"]:
            for k in ["p", "s"]:
                out.append(dict(phys="vrm", src=["dip", "line"], rx=[[k, ft, "z"], [k, ft, "x"]], wave=w))
    for s in ["dip", "loop", "line"]:
        for o in "xyz":
            for inv in ["lin", "id", "exp"]:
                out.append(dict(phys="vrm", src=[s], rx=[["p", "dbdt", o], ["s", "dbdt", o]], inv=inv, wave="off"))
    for ref in (0, 1, 2):
        out.append(dict(phys="vrm", src=["dip", "loop"], rx=[["p", "dbdt", "z"]], ref=ref, dist=[1.5, 3.0][:ref] or []))
    out.append(dict(phys="vrm", src=["dip", "line"], rx=[["p", "dbdt", "z"], ["p", "b", "y"]], interval=[5e-4, 1e-2]))
    for inv in ["id", "slow"]:
        out.append(dict(phys="tomo", inv=inv))
    for k in ["linear", "exps"]:
        for inv in ["id", "exp"]:
            out.append(dict(phys="linear", kind=k, inv=inv))
    return out


def full(tier):
    return (
        fdem_full(tier) + tdem_full(tier) + nsem_full(tier) + static_full(tier)
        + pf_full(tier) + layered_full(tier)
    )


def core():
    """Representatives: every physics and formulation once, mixed sources/receivers."""
    out = []
    for form in "eb":
        out.append(dict(phys="fdem", form=form, inv="sigma+mu", src=["magdip", "line"],
                        rx=[["e", "x", "real"], ["b", "vec", "imag"]]))
    for form in "hj":
        out.append(dict(phys="fdem", form=form, inv="rho", src=["raw", "magdip"],
                        rx=[["j", "x", "real"], ["h", "vec", "imag"]]))
    for form in "ebhj":
        out.append(dict(phys="tdem", form=form, inv="sigma", src=["magdip", "line"],
                        rx=[["e", "x"], ["b" if form in "bh" else "dbdt", "vec"]], wave=["stepoff", "trap"], steps="var"))
    out.append(dict(phys="nsem3d", rx=[["Z", "xy", "real"], ["T", "zx", "imag"]]))
    out.append(dict(phys="nsem1d", form="1de", rx=[["Z", "xy", "phase"], ["Z", "yx", "real"]]))
    out.append(dict(phys="nsem1d", form="1dm", rx=[["Z", "xy", "phase"], ["Z", "yx", "real"]]))
    out.append(dict(phys="nsem1d", form="1dr", inv="sigma+thicknesses", rx=[["Z", "xy", "phase"], ["Z", "yx", "real"]]))
    out.append(dict(phys="nsem2d", form="2de", rx=[["Z", "xy", "real"], ["Y", "yx", "imag"]]))
    out.append(dict(phys="nsem2d", form="2dm", rx=[["Z", "yx", "real"], ["T", "zx", "imag"]]))
    for form in ("CC", "N"):
        for st in (False, True):
            out.append(dict(phys="dc3d", form=form, src=DCS[0], storeJ=st))
            out.append(dict(phys="dc2d", form=form, src=DCS[0], storeJ=st))
    out.append(dict(phys="dc3d", form="CC", src=DCS[2], mini=True, inv="rho"))
    out.append(dict(phys="dc2d", form="N", src=DCS[2], mini=True, inv="rho"))
    out.append(dict(phys="dc1d", src=DCS[0][:2], inv="rho+thicknesses"))
    for form in ("3CC", "3N", "2CC", "2N"):
        for st in (False, True):
            out.append(dict(phys="ip", form=form, src=DCS[0][:2], inv="eta", storeJ=st))
        out.append(dict(phys="sip", form=form, inv="eta+taui", src=[["d", ["d", "p"]], ["p", ["d"]]], sametimes=1))
    out.append(dict(phys="sp", inv="exp", storeJ=False))
    out.append(dict(phys="sp", inv="exp", storeJ=True))
    for eng, store in [("geoana", "ram"), ("geoana", "forward_only"), ("choclo", "ram"), ("choclo", "forward_only")]:
        out.append(dict(phys="grav", rx=[["gz", "gx"], ["gyz"]], engine=eng, store=store, inv="exp"))
        out.append(dict(phys="mag", rx=[["tmi", "bx"], ["byz"]], engine=eng, store=store, inv="exp"))
        out.append(dict(phys="mag", rx=[["tmi", "bx"], ["byz"]], engine=eng, store=store, inv="sph", mtype="vector"))
        out.append(dict(phys="mag", rx=[["bx", "by", "bz"]], engine=eng, store=store, inv="exp", amp=True))
        out.append(dict(phys="grav", rx=[["gz", "gx"], ["gz"]], engine=eng, store=store, layer=1))
        out.append(dict(phys="mag", rx=[["tmi", "bx"], ["bz"]], engine=eng, store=store, layer=1))
    out.append(dict(phys="magpde", rx=[["tmi", "bx"], ["bz"]], inv="mu+rem"))
    out.append(dict(phys="magpde", rx=[["tmi", "bx"], ["bz"]], inv="mu+rem", storeJ=True))
    out.append(dict(phys="fdem1d", inv="sigma+thicknesses", src=["magdip", "line"], rx=[["hs", "z", "both", "field"]]))
    out.append(dict(phys="tdem1d", inv="sigma+thicknesses", src=["magdip", "line"], rx=[["b", "z"], ["dbdt", "z"]]))
    out.append(dict(phys="vrm", src=["dip", "line"], rx=[["p", "dbdt", "z"], ["s", "h", "x"]], inv="exp"))
    out.append(dict(phys="tomo", inv="slow"))
    out.append(dict(phys="linear", kind="linear", inv="exp"))
    out.append(dict(phys="linear", kind="exps", inv="exp"))
    return out
