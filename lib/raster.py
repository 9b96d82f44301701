"""Shared knowledge about the raster class: fields, headers, member look-up."""
RC = "ccgl::data_raster::clsRasterData"
NROWS = ("f2i", ("mapval", ("fld", ("this",), "headers_"), ("str", "NROWS")))
NCOLS = ("f2i", ("mapval", ("fld", ("this",), "headers_"), ("str", "NCOLS")))


def fld(name):
    return ("ld", ("fld", ("this",), name))


NCELLS, NLYRS = fld("n_cells_"), fld("n_lyrs_")
ARRAYS = ("raster_", "raster_2d_", "pos_data_", "pos_idx_")


def members(prog, name=None, inst="<int, int>"):
    """member functions of the raster class (one template instance)"""
    out = []
    for f in prog.project():
        q = prog.q(f.name)
        if q.startswith(RC + "::") and ("clsRasterData" + inst) in f.dem.split("(")[0]:
            if name is None or q == RC + "::" + name:
                out.append(f)
    return out


def uparams(f):
    """user parameters (argument index, name, DI type), without this/sret"""
    out = []
    di = list(f.dity[1:])  # first is the return type
    k = 0
    for n, p in enumerate(f.params):
        if "sret" in p:
            continue
        if p["n"] == "this":
            k += 1
            continue
        ty = di[k] if k < len(di) else ""
        k += 1
        out.append((n, p["n"], ty))
    return out
