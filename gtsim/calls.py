"""Every public way of interpolating, as data: a JSON description that can be generated, run and compared.

A call has inputs (arrays the caller owns), is invoked on them (as numpy arrays or in lazy containers) and gives a list of
arrays; 'geo' results are (longitude, latitude) pairs, all others plain values.
"""
import numpy as np

from gtsim import data
from gtsim.data import gen_modis, gen_place, ground, lay_out, modis_arrays, rand_array, split_chunks

MODIS = ("a250", "a500", "a5to1", "a5to500", "a5to250", "s250", "s500")
MODIS_W = [("a250", 2), ("a500", 3), ("a5to1", 4), ("a5to500", 2), ("a5to250", 1.5), ("s250", 3), ("s500", 3)]
GRID = ("sgrid", "mgrid", "ggrid", "sspl", "mspl", "gspl")
LEGACY = ("l250", "l500", "l5to1", "metop", "gen5")
OBJECT = ("interp", "ginterp", "mlin", "basic")
HELPER = ("conv",)
VII = ("vtie", "vgeo")
EAGER = MODIS + GRID + LEGACY + OBJECT + VII
RES = {"a250": (1000, 250), "a500": (1000, 500), "a5to1": (5000, 1000), "a5to500": (5000, 500), "a5to250": (5000, 250),
       "s250": (1000, 250), "s500": (1000, 500)}


def is_geo(kind):
    return kind in MODIS + ("ggrid", "gspl", "ginterp", "l250", "l500", "l5to1", "metop", "vgeo")


def must_work(spec):
    """Is the call well-formed for sure?  (Grids and splines reject some of the options that are generated.)"""
    return spec["kind"] not in GRID


# ---- generating ------------------------------------------------------------------------------------------------------
def gen_call(rng, kinds=EAGER, max_scans=2, nan_p=0.25, layouts=True):
    kind = rng.pick(kinds) if isinstance(kinds[0], str) else rng.weighted(kinds)
    spec = {"kind": kind}
    if kind in MODIS:
        spec["swath"] = gen_modis(rng, RES[kind][0], max_scans, nan_p=nan_p)
        if kind[0] == "s" and rng.chance(0.12):      # part of the lines
            low = rng.randint(0, data.WIDTH - 2)
            spec["swath"]["columns"] = [low, low + rng.logint(2, data.WIDTH - low)]
    elif kind in GRID:
        spec.update(gen_grid(rng, kind))
    elif kind in LEGACY:
        spec.update(gen_legacy(rng, kind, max_scans))
    elif kind in VII:
        spec.update(gen_vii(rng, kind))
    elif kind == "mlin":
        d = rng.pick([1, 2, 2, 3, 3, 4])
        spec.update(d=d, orders=[rng.randint(2, {1: 12, 2: 8, 3: 5, 4: 4}[d]) for _ in range(d)],
                    nv=rng.pick([1, 1, 2, 3]), ns=rng.logint(1, 300), seed=rng.getrandbits(31),
                    dtype=rng.pick(["f8", "f8", "f4"]), outside=rng.chance(0.3),
                    at=rng.pick(["", "", "nodes", "repeated", "sorted"]))
        if rng.chance(0.25):
            spec["via"] = "grid"
        if rng.chance(0.12):
            spec["orders"][rng.randint(0, d - 1)] = 1      # flat along one dimension
    elif kind == "conv":
        spec.update(op=rng.weighted([("l2x", 2), ("x2l", 2.5), ("splits", 1)]), place=gen_place(rng), ny=rng.randint(1, 8), nx=rng.randint(1, 40),
                    step_km=rng.pick([1, 40, 200]), dtype=rng.pick(["f4", "f8"]),
                    opts={k: v for k, v in (("radius", rng.pick([6378137.0, 6400000.0, 1.0])), ("thr", rng.pick([0.1, 0.5, 0.99])),
                                            ("low_lat_z", False)) if rng.chance(0.5)},
                    splits=[rng.randint(1, 40) * 10, 10, rng.randint(1, 8)])
        if rng.chance(0.4):       # damage of each array on its own
            spec["damage"] = [[rng.randint(0, 2), rng.random(), rng.random(), rng.pick(["nan", "nan", "inf", "zero"])]
                              for _ in range(rng.pick([1, 1, 2, 3]))]
    elif kind == "basic":
        spec.update(place=gen_place(rng), ny=rng.randint(2, 6), nx=rng.randint(2, 6), step=rng.randint(2, 5),
                    seed=rng.getrandbits(31), dtype=rng.pick(["f4", "f8"]))
    else:
        spec.update(gen_interp(rng, kind))
    if rng.chance(0.3 if kind in MODIS else 0.5):
        spec["texture"] = gen_texture(rng, kind)
    if is_geo(kind) and rng.chance(0.08):
        spec["texture"] = [{"how": "360", "args": [0], "seed": 0, "step": 1.0}] + spec.get("texture", [])
    if rng.chance(0.25):
        spec["form"] = gen_form(rng, kind)
    if kind in GRID:
        if rng.chance(0.15):
            spec["tie_list"] = True
        if rng.chance(0.2):
            spec["via"] = rng.pick(["numpy", "slices"] if kind in ("sgrid", "sspl") else ["shape"])
    if layouts:
        spec["layout"] = [rng.pick(data.LAYOUTS) if rng.chance(0.4) else "C" for _ in range(4)]
    return spec


def gen_form(rng, kind):
    """What the arrays are when they are not plain arrays."""
    forms = ["memmap", "subclass", "masked", "partly masked"]
    if kind in ("sspl", "mspl", "gspl", "interp", "ginterp") + LEGACY:
        forms.append("xr")
    if kind in ("ggrid", "gspl"):
        forms += ["definition"] * 2
    if kind in VII:
        forms = ["coords", "coords", "memmap", "subclass"]
    return rng.pick(forms)


class Swath(np.ndarray):
    """Somebody's own kind of array."""


def dress(spec, arrs):
    """The arguments in the form asked for; they share the memory of the arrays."""
    form = spec.get("form")
    if not form or form in ("definition", "coords") or not all(isinstance(a, np.ndarray) for a in arrs):
        return arrs
    if form == "memmap":
        return [a.view(np.memmap) for a in arrs]
    if form == "subclass":
        return [a.view(Swath) for a in arrs]
    if form == "xr":
        import xarray as xr
        return [xr.DataArray(a, dims=("y", "x")) if a.ndim == 2 else a for a in arrs]
    masks = [np.zeros(a.shape, dtype=bool) for a in arrs]
    if form == "partly masked":
        for i, m in enumerate(masks):
            m[np.random.default_rng(i).random(m.shape) < 0.05] = True
    return [np.ma.MaskedArray(a, mask=m, copy=False, keep_mask=False) for a, m in zip(arrs, masks)]


def gen_texture(rng, kind):
    """Regularities of real data: repeated scans and lines, coarse steps, constants, fill values."""
    return [{"how": how, "args": rng.pick([[0, 1, 2], [0, 1, 2], [0], [1], [2], [0, 1]]), "seed": rng.getrandbits(31),
             "step": rng.pick([0.01, 0.25, 1.0])}
            for how in rng.sample(["scans", "rows", "rows", "row starts", "columns", "steps", "constant", "level part", "fill", "fill", "round", "360"],
                                  rng.pick([1, 1, 2]))]


def add_texture(spec, arrs, textures):
    """Give the arrays these regularities."""
    per_scan = {5000: 2, 1000: 10}[spec["swath"]["res"]] if "swath" in spec else spec.get("alt", spec.get("rows", 2))
    for t in textures:
        rng = np.random.default_rng(t["seed"])
        ny, nx = arrs[0].shape
        hit = rng.random(ny) < 0.5
        some_cols = rng.random(nx) < 0.5
        box = [slice(lo, lo + 1 + int(rng.integers(n))) for lo, n in ((int(rng.integers(n)), n) for n in (ny, nx))]
        for i in t["args"]:
            if i >= len(arrs):
                continue
            a, how = arrs[i], t["how"]
            if how == "scans":          # the same in every scan (viewing angles often are), or nearly
                for y in range(per_scan, ny):
                    a[y] = a[y % per_scan]
            elif how == "rows":         # a line delivered twice
                for y in range(1, ny):
                    if hit[y]:
                        a[y] = a[y - 1]
            elif how == "row starts":   # lines that only begin alike
                a[1:, 0][hit[1:]] = a[0, 0]
            elif how == "columns":
                for x in range(1, nx):
                    if some_cols[x]:
                        a[:, x] = a[:, x - 1]
            elif how in ("steps", "round"):
                step = t["step"] if how == "steps" else 1.0
                a[...] = np.round(a / step) * step
            elif how == "constant":
                a[...] = a[ny // 2, nx // 3]
            elif how == "level part":
                a[tuple(box)] = a[0, 0]
            elif how == "fill":
                a[tuple(box)] = -999.0
            elif how == "360" and i == 0 and is_geo(spec["kind"]):
                a[...] = np.where(a < 0, a + 360, a)
    return arrs


def gen_grid(rng, kind, big=False):
    ny, nx = rng.randint(4, 10), rng.randint(4, 12)
    if rng.chance(0.12):
        ny, nx = rng.randint(20, 50), rng.randint(20, 60)
    spec = {"ny": ny, "nx": nx, "dtype": rng.weighted([("f4", 3), ("f8", 6), ("i2", 0.5), ("i4", 1)]), "seed": rng.getrandbits(31),
            "place": gen_place(rng), "step_km": rng.pick([5, 10, 20, 50]), "tie_seed": rng.getrandbits(31),
            "tie": rng.pick(["even", "even", "uneven"]), "tie_step": rng.pick([1, 2, 5, 10]), "tie_off": rng.pick([0, 0, 2, -3]),
            "tie_dtype": rng.pick(["i8", "f8", "f8"])}
    if kind in ("sgrid", "sspl"):
        spec["n"] = 1
    elif kind in ("mgrid", "mspl"):
        spec["n"] = rng.pick([1, 2, 3])
    if kind.endswith("grid"):
        spec["init"] = {}
        if rng.chance(0.5):
            spec["init"]["method"] = rng.pick(["linear", "nearest", "slinear", "cubic", "pchip"])
        if rng.chance(0.8):
            spec["init"].update(bounds_error=False, fill_value=None if rng.chance(0.8) else rng.pick(["nan", -999.0]))
        spec["call"] = {"method": rng.pick(["linear", "nearest", "slinear"])} if rng.chance(0.3) else {}
        if spec["init"].get("method") == "pchip" or spec["call"].get("method") == "pchip":
            spec["dtype"] = "f8"
    else:
        spec["init"] = {"kx": rng.pick([1, 1, 2, 3]), "ky": rng.pick([1, 2, 3, 3])}
        if rng.chance(0.3):
            spec["init"]["s"] = 0
        spec["call"] = {}
        if rng.chance(0.15) and kind != "gspl":
            spec["call"] = {"dx": rng.pick([0, 1]) if spec["init"]["kx"] > 1 else 0,
                            "dy": rng.pick([0, 1]) if spec["init"]["ky"] > 1 else 0}
    if kind.endswith("grid") and spec["dtype"][0] == "f" and rng.chance(0.2):
        spec["holes"] = gen_holes(rng)
        for opts in (spec["init"], spec["call"]):       # the others need finite values
            if opts.get("method", "linear") not in ("linear", "nearest"):
                del opts["method"]
    spec["fine"] = [gen_fine(rng, kind.endswith("grid")) for _ in range(2)]
    if rng.chance(0.08):
        for fine in spec["fine"]:
            fine["how"] = "ties"
    return spec


def gen_holes(rng):
    """Missing values."""
    return [[rng.random(), rng.random(), rng.random()] for _ in range(rng.pick([1, 1, 2, 5]))]


def make_holes(spec, arrs):
    for u, v, w in spec.get("holes", ()):
        a = arrs[int(w * len(arrs))]
        a[int(u * a.shape[0]), int(v * a.shape[1])] = np.nan
    return arrs


def gen_fine(rng, any_order=True):
    kinds = [("arange", 2), ("offset", 2), ("float", 2), ("random", 2), ("list", 1), ("dense", 1), ("ties", 0.7)]
    if any_order:
        kinds += [("descending", 1), ("shuffled", 1), ("repeated", 0.5)]
    return {"how": rng.weighted(kinds), "n": rng.logint(1, 40), "seed": rng.getrandbits(31), "beyond": rng.chance(0.15)}


def fine_points(spec, ties):
    """The fine coordinates along one dimension."""
    lo, hi, n, how = float(ties[0]), float(ties[-1]), spec["n"], spec["how"]
    rng = np.random.default_rng(spec["seed"])
    if how == "long":
        return np.linspace(lo, hi, n)
    if how == "arange":
        return np.arange(int(hi) + 1 if int(hi) >= 0 else 1)[:max(n, 3)]
    if how == "offset":
        start = int(np.ceil(lo)) + int(rng.integers(0, max(1, int((hi - lo) / 2))))
        return np.arange(start, min(int(hi) + 1, start + n)) if start <= hi else np.array([hi])
    if how == "dense":
        return np.linspace(lo, hi, n * 2 + 1)
    if how == "ties":
        return np.array(ties)
    pts = np.sort(rng.uniform(lo, hi, n))
    if spec["beyond"]:
        pts = pts * 1.2 - 0.1 * (hi - lo)
    if how == "float":
        return np.linspace(lo + 0.25, hi - 0.25, n)
    if how == "list":
        return [float(p) for p in pts]
    if how == "descending":
        return pts[::-1].copy()
    if how == "shuffled":
        rng.shuffle(pts)
    if how == "repeated":
        pts = np.repeat(pts, 2)
    return pts


def gen_legacy(rng, kind, max_scans):
    if kind == "metop":
        return {"place": gen_place(rng), "lines": rng.randint(1, 6), "dtype": rng.pick(["f4", "f8"])}
    spec = {"swath": gen_modis(rng, 5000 if kind in ("l5to1", "gen5") else 1000, max_scans, nan_p=0)}
    spec["swath"]["width"] = 271
    if kind == "gen5":
        spec["n"] = rng.pick([1, 2, 3])
    return spec


def gen_interp(rng, kind):
    return {"family": rng.pick(["fine", "fine", "coarse5", "plain", "lines", "lines"]), "scans": rng.randint(1, 3),
            "rows": rng.randint(2, 5), "k": rng.pick([2, 4]), "nx": rng.randint(5, 12), "kx": 1, "ky": rng.pick([1, 3]),
            "place": gen_place(rng), "seed": rng.getrandbits(31), "dtype": rng.pick(["f4", "f8"]), "n": rng.pick([1, 2, 3]),
            "fill": rng.pick([["y", "x"], ["y", "x"], ["x", "y"], ["y"], ["x"]]), "singly": rng.chance(0.3),
            "geodef": rng.chance(0.15)}


def gen_vii(rng, kind):
    spec = {"scans": rng.randint(1, 3), "alt": rng.randint(2, 5), "act": rng.randint(3, 12), "factor": rng.pick([1, 2, 3, 4, 8, 8]),
            "place": gen_place(rng), "step_km": rng.pick([4, 20, 60]), "dtype": rng.pick(["f4", "f8"]), "seed": rng.getrandbits(31),
            "dims": rng.pick([["y", "x"], ["num_tie_points_alt", "num_tie_points_act"], ["a", "b"]]),
            "n": rng.pick([1, 2, 3])}
    if rng.chance(0.15):
        spec["holes"] = gen_holes(rng)
    if kind == "vgeo":
        spec["opts"] = {} if rng.chance(0.6) else {"lat_threshold_use_cartesian": rng.pick([0.0, 30.0, 60.0, 91.0]),
                                                   "z_threshold_use_xy": rng.pick([0.5, 0.8])}
        if rng.chance(0.4):
            spec["close"] = rng.pick([0, 0, 1, 2, 5])     # threshold so that this many latitudes are above it
    if rng.chance(0.2):
        spec["bump"] = [rng.random(), rng.random(), rng.pick([2.0, 10.0, 25.0])]     # one tie point sticks out
        if kind == "vgeo":
            spec["close"] = rng.pick([0, 1, 1])
    return spec


# ---- inputs ----------------------------------------------------------------------------------------------------------
class GeoDef:
    """What the interpolators use of a pyresample definition."""

    def __init__(self, lons, lats):
        self.lons, self.lats = lons, lats

    def get_cartesian_coords(self):
        lon, lat = np.deg2rad(self.lons), np.deg2rad(self.lats)
        return np.stack([6371228.0 * np.cos(lat) * np.cos(lon), 6371228.0 * np.cos(lat) * np.sin(lon),
                         6371228.0 * np.sin(lat)], axis=-1)


def patch(place, ny, nx, step_km, dtype, bow=0):
    """A regular patch of ground."""
    along = (np.arange(ny) * step_km / 6371.0)[:, None]
    across = ((np.arange(nx) - nx / 2.3) * step_km / 6371.0)[None, :]
    return [np.ascontiguousarray(a.astype(dtype)) for a in ground(place, along + 0 * across, across + 0 * along)]


def tie_vector(spec, n, which):
    if spec["tie"] == "even":
        pts = np.arange(n) * spec["tie_step"] + spec["tie_off"]
    else:
        rng = np.random.default_rng(spec["tie_seed"] + which)
        pts = np.cumsum(rng.integers(1, 2 * spec["tie_step"] + 1, n)) + spec["tie_off"]
    return pts.astype(spec["tie_dtype"])


def interp_grid(spec):
    """(tie rows, tie cols), (fine rows, fine cols), chunk size of an Interpolator call."""
    s, m, k, nx = spec["scans"], spec["rows"], spec["k"], spec["nx"]
    if spec["family"] == "fine":       # like 1 km to 500/250 m
        n = s * m
        return (np.arange(n), np.arange(nx)), ((np.arange(n * k) - (k - 1) / 2.0) / k, np.arange(nx * k) / float(k)), m * k
    if spec["family"] == "coarse5":    # like 5 km to 1 km
        lines, width = s * 10, nx * 5
        return (np.arange(2, lines, 5) / 5.0, np.arange(2, width, 5) / 5.0), (np.arange(lines) / 5.0, np.arange(width) / 5.0), 10
    if spec["family"] == "lines":      # like metop
        n = s * m
        return (np.arange(n), np.arange(nx) * k), (np.arange(n), np.arange((nx - 1) * k + 1)), 0
    n = s * m                          # tie points out to the borders
    return (np.arange(n) * k, np.arange(nx) * k), (np.arange((n - 1) * k + 1), np.arange((nx - 1) * k + 1)), 0


def raw_inputs(spec):
    """Arrays of a call, contiguous."""
    arrs = plain_inputs(spec)
    if "texture" in spec:
        if spec["kind"] == "mlin":
            add_texture(spec, arrs[2:3], [t for t in spec["texture"] if t["how"] in ("steps", "constant")])
        else:
            add_texture(spec, arrs, spec["texture"])
    return make_holes(spec, arrs)


def plain_inputs(spec):
    kind = spec["kind"]
    if kind in MODIS:
        arrs = modis_arrays(spec["swath"])
        return arrs if kind.startswith("a") else arrs[:2]
    if kind in GRID:
        if kind in ("ggrid", "gspl"):
            return patch(spec["place"], spec["ny"], spec["nx"], spec["step_km"], spec["dtype"])
        arrs = [rand_array(spec["seed"] + i, (spec["ny"], spec["nx"])) for i in range(spec["n"])]
        return [(a * 50 if spec["dtype"][0] == "i" else a).astype(spec["dtype"]) for a in arrs]
    if kind == "metop":
        return patch(spec["place"], spec["lines"], 105, 20, spec["dtype"])
    if kind == "gen5":
        lon, lat, satz = modis_arrays(spec["swath"])
        return [satz, lat, lon][:spec["n"]]
    if kind in LEGACY:
        return modis_arrays(spec["swath"])[:2]
    if kind in VII:
        if kind == "vtie":
            arrs = [rand_array(spec["seed"] + i, (spec["scans"] * spec["alt"], spec["act"]), spec["dtype"]) for i in range(spec["n"])]
        else:
            arrs = patch(spec["place"], spec["scans"] * spec["alt"], spec["act"], spec["step_km"], spec["dtype"])
        if "bump" in spec:
            u, v, by = spec["bump"]
            a = arrs[-1]
            at = int(u * a.shape[0]), int(v * a.shape[1])
            a[at] = np.copysign(min(88.0, abs(a[at]) + by), a[at])
        return arrs
    if kind == "mlin":
        rng = np.random.default_rng(spec["seed"])
        lo = rng.uniform(-2, 0, spec["d"])
        hi = lo + rng.uniform(0.5, 3, spec["d"])
        if spec.get("at") == "nodes":
            lo, hi = np.round(lo), np.round(lo) + np.maximum(np.array(spec["orders"]) - 1, 1)
        s = lo[:, None] + rng.uniform(-0.2 if spec["outside"] else 0, 1.2 if spec["outside"] else 1,
                                      (spec["d"], spec["ns"])) * (hi - lo)[:, None]
        if spec.get("at") == "nodes":         # on the grid, where weights are zero
            steps = np.maximum(np.array(spec["orders"]) - 1, 1)[:, None]
            s = lo[:, None] + np.round((s - lo[:, None]) / (hi - lo)[:, None] * steps) / steps * (hi - lo)[:, None]
        elif spec.get("at") == "repeated":
            s = s[:, np.sort(rng.integers(0, max(1, spec["ns"] // 2), spec["ns"]))]
        elif spec.get("at") == "sorted":
            s = np.sort(s, axis=1)
        return [lo.astype(spec["dtype"]), hi.astype(spec["dtype"]),
                rng.normal(0, 5, (spec["nv"], int(np.prod(spec["orders"])))).astype(spec["dtype"]), s.astype(spec["dtype"])]
    if kind == "basic":
        return patch(spec["place"], spec["ny"], spec["nx"], 10, spec["dtype"])
    if kind == "conv":
        lon, lat = patch(spec["place"], spec["ny"], spec["nx"], spec["step_km"], "f8")
        arrs = [lon, lat]
        if spec["op"] == "x2l":
            r, lon, lat = spec["opts"].get("radius", 6370997.0), np.deg2rad(lon), np.deg2rad(lat)
            arrs = [r * np.cos(lat) * np.cos(lon), r * np.cos(lat) * np.sin(lon), r * np.sin(lat)]
        for i, y, x, what in spec.get("damage", ()):
            a = arrs[i % len(arrs)]
            a[int(y * a.shape[0]), int(x * a.shape[1])] = {"nan": np.nan, "inf": np.inf, "zero": 0.0}[what]
        return [a.astype(spec["dtype"]) for a in arrs]
    (rows, cols), _, _ = interp_grid(spec)
    if kind == "ginterp":
        return patch(spec["place"], len(rows), len(cols), 5, spec["dtype"])
    return [rand_array(spec["seed"] + i, (len(rows), len(cols)), spec["dtype"]) for i in range(spec["n"])]


def inputs(spec):
    """Arrays of a call, in the memory layouts asked for."""
    layouts = spec.get("layout") or ["C"] * 8
    return [lay_out(a, layouts[i % len(layouts)]) if a.ndim == 2 else a for i, a in enumerate(raw_inputs(spec))]


# ---- invoking --------------------------------------------------------------------------------------------------------
def modis_function(kind):
    from geotiepoints import modisinterpolator as mi, simple_modis_interpolator as si
    return {"a250": mi.modis_1km_to_250m, "a500": mi.modis_1km_to_500m, "a5to1": mi.modis_5km_to_1km,
            "a5to500": mi.modis_5km_to_500m, "a5to250": mi.modis_5km_to_250m,
            "s250": si.modis_1km_to_250m, "s500": si.modis_1km_to_500m}[kind]


def _num(value):
    return np.nan if value == "nan" else value


def aux_arrays(spec):
    """Coordinate vectors of a call: also the caller's."""
    kind = spec["kind"]
    if kind in GRID:
        ties = [tie_vector(spec, spec["ny"], 0), tie_vector(spec, spec["nx"], 1)]
        return ties + [fine_points(f, t) for f, t in zip(spec["fine"], ties)]
    if kind == "basic":
        return [np.arange(spec["ny"]) * spec["step"], np.arange(spec["nx"]) * spec["step"]]
    if kind in ("interp", "ginterp"):
        ties, fine, _ = interp_grid(spec)
        return [*ties, *fine]
    return []


def grid_interpolator(spec, arrs, aux=None):
    """Build a grid or spline interpolator; return it with its fine points and call options."""
    from geotiepoints import geointerpolator as gi, interpolator as it
    klass = {"sgrid": it.SingleGridInterpolator, "mgrid": it.MultipleGridInterpolator, "ggrid": gi.GeoGridInterpolator,
             "sspl": it.SingleSplineInterpolator, "mspl": it.MultipleSplineInterpolator,
             "gspl": gi.GeoSplineInterpolator}[spec["kind"]]
    aux = aux or aux_arrays(spec)
    arrs = [GeoDef(*arrs)] if spec.get("form") == "definition" else dress(spec, arrs)
    ties = tuple(t.tolist() for t in aux[:2]) if spec.get("tie_list") else tuple(aux[:2])
    obj = klass(ties, *arrs, **{k: _num(v) for k, v in spec["init"].items()})
    return obj, tuple(aux[2:]), dict(spec["call"])


def as_list(result):
    """Results as a list of arrays, whatever they came in."""
    if isinstance(result, np.ndarray) or hasattr(result, "dask") or hasattr(result, "dims"):
        result = [result]
    return result if isinstance(result, list) else list(result)


def prepare(spec, arrs, aux=None):
    """Build the object of a call; return a function without arguments that interpolates."""
    import geotiepoints
    kind = spec["kind"]
    if kind in MODIS:
        func = modis_function(kind)
        arrs = dress(spec, arrs)
        return lambda: as_list(func(*arrs))
    if kind in GRID:
        obj, fine, opts = grid_interpolator(spec, arrs, aux)
        shape = tuple(len(f) for f in fine)
        via = spec.get("via")
        if via == "shape":
            return lambda: as_list(obj.interpolate_to_shape(shape, **opts))
        if via == "slices":
            return lambda: as_list(obj.interpolate_slices(tuple(slice(n // 3, n) for n in shape), **opts))
        if via == "numpy":
            return lambda: as_list(obj.interpolate_numpy(fine, **opts))
        return lambda: as_list(obj.interpolate(fine, **opts))
    if kind in VII:
        return lambda: vii(spec, arrs)
    arrs = dress(spec, arrs)
    if kind == "mlin":
        from geotiepoints.multilinear import MultilinearInterpolator
        dtype = np.dtype(spec["dtype"]).type
        if spec.get("via") == "grid":
            # as the documentation of the class does it
            def from_grid():
                obj = MultilinearInterpolator(arrs[0], arrs[1], spec["orders"], dtype=dtype)
                grid = obj.grid
                obj.set_values(arrs[2] + np.sqrt(np.abs(grid)).sum(axis=0))
                return [obj(arrs[3]), grid]
            return from_grid
        obj = MultilinearInterpolator(arrs[0], arrs[1], spec["orders"], arrs[2], dtype=dtype)
        return lambda: [obj(arrs[3])]
    if kind == "conv":
        from geotiepoints import get_scene_splits
        from geotiepoints.geointerpolator import lonlat2xyz, xyz2lonlat
        if spec["op"] == "splits":
            return lambda: [np.array(get_scene_splits(*spec["splits"]))]
        func = lonlat2xyz if spec["op"] == "l2x" else xyz2lonlat
        opts = {k: v for k, v in spec["opts"].items() if k == "radius" or spec["op"] == "x2l"}
        return lambda: as_list(func(*arrs, **opts))
    if kind == "basic":
        from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
        rows, cols = aux or aux_arrays(spec)
        obj = BasicSatelliteInterpolator(cols, rows, arrs[1], arrs[0])
        return lambda: [np.asarray(a) for a in obj.interpolate()]
    if kind == "gen5":
        from geotiepoints.interpolator import generic_modis5kmto1km
        return lambda: as_list(generic_modis5kmto1km(*arrs))
    if kind in LEGACY:
        func = {"l250": geotiepoints.modis1kmto250m, "l500": geotiepoints.modis1kmto500m,
                "l5to1": geotiepoints.modis5kmto1km, "metop": geotiepoints.metop20kmto1km}[kind]
        return lambda: as_list(func(*arrs))
    obj = interp_object(spec, arrs, aux)
    fill(spec, obj)
    return lambda: as_list(obj.interpolate())


def fill(spec, obj):
    """Extrapolate to the borders as asked for."""
    if spec["family"] in ("fine", "coarse5"):
        dims = spec.get("fill", ["y", "x"])
        for group in [[d] for d in dims] if spec.get("singly") else [dims]:
            obj.fill_borders(*group)


def interp_object(spec, arrs, aux=None):
    from geotiepoints.geointerpolator import GeoInterpolator
    from geotiepoints.interpolator import Interpolator
    ties, fine, chunk = interp_grid(spec)
    if aux:
        ties, fine = tuple(aux[:2]), tuple(aux[2:])
    arrs = dress(spec, arrs)
    if spec["kind"] == "ginterp":
        geo = GeoDef(*arrs) if spec["geodef"] else tuple(arrs)
        return GeoInterpolator(geo, ties, fine, spec["kx"], spec["ky"], chunk)
    return Interpolator(arrs if isinstance(arrs, list) else list(arrs), ties, fine, spec["kx"], spec["ky"], chunk_size=chunk)


def extra(spec, shape):
    """What else a DataArray carries."""
    if spec.get("form") != "coords":
        return {}
    y, x = spec["dims"]
    return {"attrs": {"units": "degrees"}, "name": "tie", "coords": {y: np.arange(shape[0]) * 3 + 1, x: np.arange(shape[1]) - 7.5,
                                                                    "scan": (y, np.arange(shape[0]) // spec["alt"])}}


def vii(spec, arrs, compute=True):
    """Call the VII functions on arrays (numpy or dask)."""
    import xarray as xr
    from geotiepoints import viiinterpolator as vi
    das = [a if hasattr(a, "dims") else xr.DataArray(a, dims=spec["dims"], **extra(spec, a.shape)) for a in dress(spec, arrs)]
    if spec["kind"] == "vtie":
        out = vi.tie_points_interpolation(das, spec["alt"], spec["factor"])
    else:
        opts = dict(spec["opts"])
        if "close" in spec:
            lats = np.sort(np.abs(raw_inputs(spec)[1]), axis=None)
            lats = lats[np.isfinite(lats)]
            opts["lat_threshold_use_cartesian"] = float(lats[max(0, len(lats) - 1 - spec["close"])])
        out = vi.tie_points_geo_interpolation(das[0], das[1], spec["alt"], spec["factor"], **opts)
    if not compute:
        return list(out)
    for o in out:
        if o.dims != tuple(spec["dims"]):
            raise AssertionError("dims %r" % (o.dims,))
    return [o.values for o in out]


def run(spec, arrs=None):
    """Do the whole call."""
    return prepare(spec, inputs(spec) if arrs is None else arrs)()


def oracle(state, spec):
    """The call in a pristine process (for Zygote.once)."""
    return run(spec)


def compare(spec, got, ref, eps=None):
    """None, or what differs."""
    if len(got) != len(ref):
        return "%d results instead of %d" % (len(got), len(ref))
    if is_geo(spec["kind"]):
        return data.cmp_geo(got, ref, eps)
    if spec["kind"] == "conv":
        eps = 2e-3 if spec["dtype"] == "f4" else 1e-7      # inverse sines and cosines near the ends lose half the digits
    for i, (a, b) in enumerate(zip(got, ref)):
        problem = data.cmp_values(a, b, eps, "result %d: " % i)
        if problem:
            return problem
    return None


# ---- lazy calls ------------------------------------------------------------------------------------------------------
CONTAINERS = [("da", 4), ("xr", 3), ("np", 0.7), ("xrnp", 0.5)]


def gen_containers(rng, shape, n, uniform=False, per_scan=0):
    """One container per argument; at least one is lazy."""
    base = {"kind": rng.pick(["da", "xr"]), "chunks": [split_chunks(rng, shape[0]), gen_cols(rng, shape[1])],
            "dims": rng.pick([["y", "x"], ["lines", "pixels"]]), "source": rng.chance(0.6), "ro": rng.chance(0.3),
            "coords": rng.chance(0.3)}
    if per_scan and shape[0] > per_scan and rng.chance(0.3):      # whole scans
        base["chunks"][0] = [k * per_scan for k in split_chunks(rng, shape[0] // per_scan)]
        if rng.chance(0.6):
            base["chunks"][1] = [shape[1]]
    base["again"] = rng.chance(0.5)
    out = [dict(base) for _ in range(n)]
    if not uniform and rng.chance(0.45):
        for cont in out[0 if rng.chance(0.5) else 1:]:
            if rng.chance(0.6):
                cont["kind"] = rng.weighted(CONTAINERS)
            if rng.chance(0.25):      # as many blocks, cut elsewhere
                cont["chunks"] = [shifted(rng, sizes) for sizes in base["chunks"]]
            elif rng.chance(0.6):
                cont["chunks"] = [split_chunks(rng, shape[0]), gen_cols(rng, shape[1])]
        if all(c["kind"] in ("np", "xrnp") for c in out):
            out[-1]["kind"] = "da"
    return out


def shifted(rng, sizes):
    """As many pieces of the same whole, of other sizes."""
    sizes = list(sizes)
    for i in range(len(sizes) - 1):
        by = rng.randint(1 - sizes[i], sizes[i + 1] - 1)
        sizes[i], sizes[i + 1] = sizes[i] + by, sizes[i + 1] - by
    return sizes


def gen_cols(rng, n):
    return [n] if rng.chance(0.6) else split_chunks(rng, n, rng.pick(["random", "even"]))[:] if n < 40 else _few(rng, n)


def _few(rng, n):
    cuts = sorted({rng.randint(1, n - 1) for _ in range(rng.randint(1, 3))})
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


def wrap(arr, cont, name="src"):
    """Put an array in its container."""
    import dask.array as da
    import xarray as xr
    from gtsim.dasksim import SimSource
    if cont["kind"] == "np":
        return arr
    more = {}
    if cont.get("coords"):
        y, x = cont["dims"]
        more = {"coords": {y: np.arange(arr.shape[0]) * 2.0, "time": (y, np.arange(arr.shape[0]) // 10), x: np.arange(arr.shape[1])},
                "attrs": {"units": "degrees"}, "name": name}
    if cont["kind"] == "xrnp":
        return xr.DataArray(arr, dims=cont["dims"], **more)
    if cont.get("source", True):
        lazy = da.from_array(SimSource(name, arr, cont.get("ro", False), cont.get("again", False)), chunks=tuple(map(tuple, cont["chunks"])),
                             asarray=False, meta=np.empty((0, 0), arr.dtype))
    else:
        lazy = da.from_array(arr, chunks=tuple(map(tuple, cont["chunks"])))
    return xr.DataArray(lazy, dims=cont["dims"], **more) if cont["kind"] == "xr" else lazy


def many_scans(rng, spec):
    """A granule of many scans in as many blocks: numbers with two digits, more blocks than workers."""
    swath, kind = spec["swath"], spec["kind"]
    per_scan, most = (2, 26 if kind == "a5to1" else 14) if swath["res"] == 5000 else (10, 13)
    swath["scans"] = rng.randint(11, most)
    spec["conts"] = gen_containers(rng, modis_shape(spec), 3 if kind.startswith("a") else 2)
    for cont in spec["conts"]:
        cont["chunks"] = [[per_scan] * swath["scans"], [sum(cont["chunks"][1])]]
    return spec


def gen_lazy_call(rng, kinds, max_scans=3, nan_p=0.25, many=0, **kw):
    """A call with lazy result: containers or chunks."""
    kind = rng.pick(kinds) if isinstance(kinds[0], str) else rng.weighted(kinds)
    spec = gen_call(rng, (kind,), max_scans, nan_p, layouts=False)
    if kind in MODIS and many and rng.chance(many):
        return many_scans(rng, spec)
    if kind in MODIS:
        spec["conts"] = gen_containers(rng, modis_shape(spec), 3 if kind.startswith("a") else 2, per_scan=2 if RES[kind][0] == 5000 else 10, **kw)
    elif kind in VII:
        shape = (spec["scans"] * spec["alt"], spec["act"])
        spec["conts"] = [{"kind": "da", "chunks": [split_chunks(rng, shape[0]), split_chunks(rng, shape[1])],
                          "source": rng.chance(0.6), "ro": rng.chance(0.3)} for _ in range(spec.get("n", 2))]
        if kind == "vgeo":
            spec["conts"] = spec["conts"][:1] * 2 if rng.chance(0.6) else (spec["conts"] * 2)[:2]
    else:
        spec["chunks"] = gen_chunks(rng)
        if spec.get("via") in ("numpy", "slices"):
            spec["via"] = "dask"
    return spec


def gen_chunks(rng):
    """A chunk specification for the grid interpolators; resolved against the shape when used."""
    how = rng.weighted([("int", 3), ("pair", 2), ("irregular", 3), ("auto", 0.5), ("minus", 0.7), ("dict", 0.5)])
    return {"how": how, "a": rng.logint(1, 30), "b": rng.logint(1, 30), "seed": rng.getrandbits(31)}


def resolve_chunks(spec, shape):
    from gtsim.rng import Rng
    how = spec["how"]
    most = spec.get("most", 24)                                             # never more than that many blocks each way
    a, b = (max(spec[name], -(-n // most)) for name, n in zip("ab", shape))
    if how == "int":
        return max(a, -(-shape[1] // most))
    if how == "pair":
        return (a, b)
    if how == "auto":
        return "auto"
    if how == "minus":
        return (-1, b)
    if how == "dict":
        return {0: a, 1: -1}
    rng = Rng(spec["seed"])
    return tuple(fewer(split_chunks(rng, n, "random"), most) for n in shape)


def fewer(sizes, most):
    """Join neighbouring blocks until there are at most so many."""
    sizes = list(sizes)
    while len(sizes) > most:
        sizes = [sum(sizes[i:i + 2]) for i in range(0, len(sizes), 2)]
    return tuple(sizes)


def modis_shape(spec):
    sw = spec["swath"]
    low, high = sw.get("columns", (0, data.WIDTH))
    return (sw["scans"] * 2, sw["width"]) if sw["res"] == 5000 else (sw["scans"] * 10, high - low)


def build_lazy(spec, arrs=None, wrapped=None):
    """Do the call lazily; return the list of dask arrays or DataArrays."""
    kind = spec["kind"]
    if arrs is None:
        arrs = inputs(spec)
    if kind in MODIS:
        args = wrapped or [wrap(a, c, "%s-%d" % (kind, i)) for i, (a, c) in enumerate(zip(arrs, spec["conts"]))]
        return as_list(modis_function(kind)(*args))
    if kind in VII:
        args = wrapped or [wrap(a, c, "%s-%d" % (kind, i)) for i, (a, c) in enumerate(zip(arrs, spec["conts"]))]
        return vii(spec, args, compute=False)
    obj, fine, opts = grid_interpolator(spec, arrs)
    return grid_lazy(spec, obj, fine, opts)


def grid_lazy(spec, obj, fine, opts):
    """Ask an interpolator for a lazy result."""
    shape = tuple(len(f) for f in fine)
    chunks = resolve_chunks(spec["chunks"], shape)
    if spec.get("via") == "shape":
        return as_list(obj.interpolate_to_shape(shape, chunks=chunks, **opts))
    if spec.get("via") == "dask":
        return as_list(obj.interpolate_dask(fine, chunks, **opts))
    return as_list(obj.interpolate(fine, chunks=chunks, **opts))
