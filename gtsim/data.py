"""Swaths, arrays in all memory layouts, and comparing geolocation as precisely as the arithmetic allows."""
import numpy as np

from gtsim.rng import Rng

R, H = 6370.997, 709.0
WIDTH = 1354


# ---- swaths ----------------------------------------------------------------------------------------------------------
def gen_place(rng):
    """Where a swath starts and where the satellite is heading (degrees)."""
    kind = rng.weighted([("any", 4), ("pole", 1.5), ("dateline", 2), ("greenwich", 1), ("equator", 1), ("lat53", 1)])
    lon, lat = rng.uniform(-180, 180), rng.uniform(-75, 75)
    if kind == "pole":
        lat = rng.pick([-1, 1]) * rng.uniform(78, 89.9)
    elif kind == "dateline":
        lon = 180 + rng.uniform(-8, 8)
    elif kind == "greenwich":
        lon = rng.uniform(-8, 8)
    elif kind == "equator":
        lat = rng.uniform(-3, 3)
    elif kind == "lat53":     # where the latitude formula changes
        lat = rng.pick([-1, 1]) * rng.uniform(51, 55)
    return {"lon": round(lon, 4), "lat": round(lat, 4), "head": round(rng.uniform(0, 360), 3)}


def _frame(place):
    lon, lat, head = (np.deg2rad(place[k]) for k in ("lon", "lat", "head"))
    up = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
    east = np.array([-np.sin(lon), np.cos(lon), 0.0])
    north = np.cross(up, east)
    ahead = north * np.cos(head) + east * np.sin(head)
    return up, ahead, np.cross(up, ahead)


def ground(place, along, across):
    """Longitudes and latitudes at angular distances along and across the track (radians, broadcast)."""
    up, ahead, side = _frame(place)
    along, across = np.broadcast_arrays(along, across)
    p = (np.cos(along) * np.cos(across))[..., None] * up + (np.sin(along) * np.cos(across))[..., None] * ahead \
        + np.sin(across)[..., None] * side
    return np.rad2deg(np.arctan2(p[..., 1], p[..., 0])), np.rad2deg(np.arcsin(np.clip(p[..., 2], -1, 1)))


def modis_1km(place, scans, noise_seed=None, width=WIDTH):
    """A MODIS-like swath with bow-tie scans: lon, lat, satellite zenith angle (float64)."""
    cols = np.arange(width)
    look = np.deg2rad((cols - (width - 1) / 2) * 110.0 / WIDTH)
    zen = np.arcsin(np.clip((R + H) / R * np.sin(look), -1, 1))
    across = zen - look
    slant = (np.cos(look) * (R + H) - np.sqrt(np.maximum(R ** 2 - ((R + H) * np.sin(look)) ** 2, 0))) / H
    rows = np.arange(scans * 10)
    along = ((rows // 10) * 10 + 4.5)[:, None] + (rows % 10 - 4.5)[:, None] * slant[None, :]
    lon, lat = ground(place, along / R, across[None, :])
    satz = np.broadcast_to(np.rad2deg(np.abs(zen)), lon.shape).copy()
    if noise_seed is not None:
        rng = np.random.default_rng(noise_seed)
        satz += rng.normal(0, 2e-3, satz.shape)
        satz = np.abs(satz)
        lat += rng.normal(0, 1e-3, lat.shape)
    return lon, lat, satz


def modis_5km(place, scans, noise_seed=None, width=271):
    """The same, subsampled to 5 km."""
    return [a[2::5, 2::5][:, :width] for a in modis_1km(place, scans, noise_seed)]


def gen_modis(rng, res=1000, max_scans=4, dtypes=("f4", "f8"), nan_p=0.3):
    """Describe a MODIS swath."""
    scans = rng.weighted([(n, 1.0 / n ** 0.5) for n in range(1, max_scans + 1)])
    spec = {"place": gen_place(rng), "scans": scans, "dtype": rng.pick(dtypes), "res": res,
            "noise": rng.getrandbits(31) if rng.chance(0.8) else None, "nan": []}
    if res == 5000:
        spec["width"] = rng.pick([270, 271, 271])
    if rng.chance(nan_p):
        spec["nan"] = [[rng.random(), rng.random(), rng.random()] for _ in range(rng.pick([1, 2, 5]))]
    return spec


def modis_arrays(spec):
    """Make lon, lat, satz of a swath."""
    if spec["res"] == 5000:
        arrs = modis_5km(spec["place"], spec["scans"], spec["noise"], spec["width"])
    else:
        arrs = [a[:, slice(*spec.get("columns", (0, WIDTH)))] for a in modis_1km(spec["place"], spec["scans"], spec["noise"])]
    arrs = [np.ascontiguousarray(a.astype(spec["dtype"])) for a in arrs]
    for fy, fx, fs in spec["nan"]:
        y, x = int(fy * arrs[0].shape[0]), int(fx * arrs[0].shape[1])
        h, w = 1 + int(fs * 3), 1 + int(fs * fs * 50)
        for a in arrs:
            a[y:y + h, x:x + w] = np.nan
    return arrs


# ---- layouts ---------------------------------------------------------------------------------------------------------
LAYOUTS = ("C", "F", "strided", "reversed", "offset")


def lay_out(arr, layout):
    """The same values in another memory layout."""
    if layout == "F":
        return np.asfortranarray(arr)
    if layout == "strided":
        big = np.full(tuple(2 * n for n in arr.shape), -7777, dtype=arr.dtype)
        view = big[tuple(slice(None, None, 2) for _ in arr.shape)]
        view[...] = arr
        return view
    if layout == "reversed":
        return np.ascontiguousarray(arr[::-1])[::-1]
    if layout == "offset":
        flat = np.empty(arr.size + 3, dtype=arr.dtype)
        view = flat[3:].reshape(arr.shape)
        view[...] = arr
        return view
    return arr


def split_chunks(rng, n, style=None):
    """Cut n into chunk sizes."""
    style = style or rng.weighted([("one", 1), ("even", 3), ("random", 4), ("tiny", 1)])
    if style == "one" or n <= 1:
        return [n]
    if style == "even":
        size = rng.logint(1, n)
    elif style == "tiny":
        size = max(1, rng.logint(1, max(1, n // 4)))
    else:
        out, left = [], n
        while left:
            k = min(left, rng.logint(1, max(1, n // 2)))
            if len(out) >= 24:
                k = left
            out.append(k)
            left -= k
        rng.shuffle(out)
        return out
    size = max(size, -(-n // 24))
    out = [size] * (n // size)
    if n % size:
        out.append(n % size)
    return out


# ---- comparing -------------------------------------------------------------------------------------------------------
def fine_eps(dtype, k=8.0):
    return k * (6e-8 if np.dtype(dtype).itemsize == 4 else 1.2e-16)


def cmp_geo(got, ref, eps=None, label=""):
    """Compare (lon, lat) pairs; return None or what differs."""
    for name, a, b in (("lon", got[0], ref[0]), ("lat", got[1], ref[1])):
        problem = _cmp_meta(a, b, label + name)
        if problem:
            return problem
    lon_a, lat_a, lon_b, lat_b = (np.asarray(v) for v in (got[0], got[1], ref[0], ref[1]))
    if np.array_equal(lon_a, lon_b, equal_nan=True) and np.array_equal(lat_a, lat_b, equal_nan=True):
        return None
    dtype = lon_b.dtype
    lon_a, lat_a, lon_b, lat_b = (v.astype(np.float64) for v in (lon_a, lat_a, lon_b, lat_b))
    e = eps or fine_eps(dtype)
    for name, a, b in (("lon", lon_a, lon_b), ("lat", lat_a, lat_b)):
        if not np.array_equal(np.isnan(a), np.isnan(b)):
            return "%s%s: NaN at different places: %s" % (label, name, _where(np.isnan(a) != np.isnan(b), a, b))
    with np.errstate(all="ignore"):
        cl = np.maximum(np.cos(np.deg2rad(lat_b)), e)
        ecl = e / cl
        tol = np.rad2deg(np.minimum(ecl / np.maximum(np.abs(np.sin(np.deg2rad(lon_b))), 1e-300),
                                    np.sqrt(2 * ecl) * 1.5)) + 4 * np.spacing(np.abs(lon_b).astype(dtype)).astype("f8")
        tol = np.where(ecl > 0.05, 360.0, tol)
        diff = np.abs(lon_a - lon_b)
        diff = np.minimum(diff, np.abs(360 - diff))
        bad = diff > tol
        if bad.any():
            return "%slon: %s" % (label, _where(bad, lon_a, lon_b))
        bad = np.abs(lat_a - lat_b) > np.rad2deg(e) * 2.5 + 4e-16
        if bad.any():
            return "%slat: %s" % (label, _where(bad, lat_a, lat_b))
    return None


def cmp_values(got, ref, eps=None, label=""):
    """Compare two arrays of values; return None or what differs."""
    problem = _cmp_meta(got, ref, label)
    if problem:
        return problem
    a, b = np.asarray(got), np.asarray(ref)
    if a.dtype.kind not in "fc":
        bad = np.abs(a.astype("f8") - b.astype("f8")) > 1      # rounding may tip an integer over
        return label + _where(bad, a, b) if bad.any() else None
    if np.array_equal(a, b, equal_nan=True):
        return None
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return "%sNaN at different places: %s" % (label, _where(np.isnan(a) != np.isnan(b), a, b))
    scale = float(np.nanmax(np.abs(b[np.isfinite(b)]))) if np.isfinite(b).any() else 1.0
    e = eps or fine_eps(b.dtype, 32)
    with np.errstate(all="ignore"):
        bad = ~((a == b) | (np.abs(a.astype("f8") - b.astype("f8")) <= e * scale) | (np.isnan(a) & np.isnan(b)))
    if bad.any():
        return label + _where(bad, a, b)
    return None


def _cmp_meta(a, b, label):
    if not hasattr(a, "shape"):
        return "%s: not an array but %s" % (label, type(a).__name__)
    if a.shape != b.shape:
        return "%s: shape %s instead of %s" % (label, a.shape, b.shape)
    if a.dtype != b.dtype:
        return "%s: dtype %s instead of %s" % (label, a.dtype, b.dtype)
    return None


def _where(bad, a, b):
    idx = tuple(int(i) for i in np.argwhere(bad)[0])
    rows = np.unique(np.argwhere(bad)[:, 0])
    return "%d of %d elements differ, rows %d..%d, first at %s: %r instead of %r" % (
        int(bad.sum()), bad.size, rows[0], rows[-1], idx, a[idx].item(), b[idx].item())


def rand_array(seed, shape, dtype="f8", kind="smooth"):
    """Values on a grid."""
    rng = np.random.default_rng(seed)
    if kind == "noise":
        return rng.normal(0, 10, shape).astype(dtype)
    out = np.zeros(shape)
    for axis, n in enumerate(shape):
        pos = np.arange(n).reshape([-1 if k == axis else 1 for k in range(len(shape))])
        out = out + rng.normal(0, 3) * pos + 5 * np.sin(pos * rng.uniform(0.1, 0.9) + rng.uniform(0, 6))
    return out.astype(dtype)


__all__ = ["Rng", "gen_place", "gen_modis", "modis_arrays", "ground", "lay_out", "LAYOUTS", "split_chunks", "cmp_geo",
           "cmp_values", "rand_array", "WIDTH"]
