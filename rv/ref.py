"""Independent reference models, written from the published definitions
(Radiance file formats and view types, Shirley & Chiu 1997, Guth/Iwata/Kim
position index, Wienold DGP, CIE UGR, Hirning UGP, Ijspeert 1993, Vissenberg
2021, Watson 2014).  Nothing here imports raytools."""
import math
import re

import numpy as np

PI = math.pi


# ------------------------------------------------------------------ RGBE files
def rgbe_decode(px):
    """(…,4) uint8 -> (…,3) float as Radiance colr_color"""
    px = np.asarray(px).astype(np.int64)
    e = px[..., 3]
    f = np.where(e > 0, np.ldexp(1.0, (e - 136).astype(int)), 0.0)
    return (px[..., :3] + 0.5) * f[..., None]


def rgbe_encode(rgb):
    """(…,3) float -> (…,4) uint8"""
    rgb = np.asarray(rgb, float)
    d = rgb.max(-1)
    m, e = np.frexp(d)
    ok = d > 1e-32
    sc = np.where(ok, m * 255.9999 / np.where(ok, d, 1), 0)
    out = np.zeros(rgb.shape[:-1] + (4,), np.uint8)
    out[..., :3] = np.where(ok[..., None], rgb * sc[..., None], 0)
    out[..., 3] = np.where(ok, e + 128, 0)
    return out


def _rle_channel(row):
    """one channel of a new style RLE scanline"""
    out = bytearray()
    n = len(row)
    i = 0
    while i < n:
        j = i
        while j < n and j - i < 127 and row[j] == row[i]:
            j += 1
        if j - i >= 4:
            out += bytes((128 + j - i, int(row[i])))
            i = j
            continue
        k = i
        while k < n and k - i < 128:
            if k + 4 <= n and row[k] == row[k + 1] == row[k + 2] == row[k + 3]:
                break
            k += 1
        out.append(k - i)
        out += bytes(int(q) for q in row[i:k])
        i = k
    return bytes(out)


def write_hdr(path, px, header=(), rle=True):
    """px: (height, width, 4) uint8, top row first"""
    h, w = px.shape[:2]
    with open(path, "wb") as f:
        f.write(b"#?RADIANCE\n")
        for line in header:
            f.write(line.encode() + b"\n")
        f.write(b"FORMAT=32-bit_rle_rgbe\n\n")
        f.write(b"-Y %d +X %d\n" % (h, w))
        for row in px:
            if rle and 8 <= w <= 32767:
                f.write(bytes((2, 2, w >> 8, w & 255)))
                for c in range(4):
                    f.write(_rle_channel(row[:, c]))
            else:
                f.write(row.tobytes())


def read_hdr(path_or_bytes):
    """own decoder: header lines (raw), (height, width, 4) uint8"""
    if isinstance(path_or_bytes, bytes):
        b = path_or_bytes
    else:
        with open(path_or_bytes, "rb") as f:
            b = f.read()
    end = b.index(b"\n\n")
    lines = b[:end].decode("utf-8", "surrogateescape").split("\n")
    nl = b.index(b"\n", end + 2)
    m = re.match(rb"-Y\s+(\d+)\s+\+X\s+(\d+)\s*$", b[end + 2:nl])
    if m is None:
        raise ValueError(f"orientation {b[end + 2:nl]!r}")
    h, w = int(m.group(1)), int(m.group(2))
    p = nl + 1
    out = np.zeros((h, w, 4), np.uint8)
    for y in range(h):
        if 8 <= w <= 32767 and b[p:p + 2] == b"\x02\x02" and b[p + 2] < 128:
            assert (b[p + 2] << 8) + b[p + 3] == w
            p += 4
            for c in range(4):
                x = 0
                while x < w:
                    k = b[p]
                    p += 1
                    if k > 128:
                        out[y, x:x + k - 128, c] = b[p]
                        p += 1
                        x += k - 128
                    else:
                        out[y, x:x + k, c] = np.frombuffer(b[p:p + k], np.uint8)
                        p += k
                        x += k
                assert x == w
        else:
            x = 0
            shift = 0
            while x < w:
                q = b[p:p + 4]
                assert len(q) == 4
                p += 4
                if q[:3] == b"\x01\x01\x01":
                    n = q[3] << shift
                    out[y, x:x + n] = out[y, x - 1]
                    x += n
                    shift += 8
                else:
                    out[y, x] = np.frombuffer(q, np.uint8)
                    x += 1
                    shift = 0
    return lines, out


def hdr_values(path_or_bytes):
    """(3, x, y) values with y up, exposure undone (only active header lines)"""
    lines, px = read_hdr(path_or_bytes)
    v = rgbe_decode(px)
    for ln in lines:
        if ln.startswith("EXPOSURE="):
            v = v / float(ln.split("=", 1)[1])
        if ln.startswith("COLORCORR="):
            v = v / np.array([float(q) for q in ln.split("=", 1)[1].split()])
    return np.transpose(v, (2, 1, 0))[:, :, ::-1]


RAD_LUM = (0.26507413, 0.67011463, 0.06481124)


# ------------------------------------------------------------------ geometry
def unit(v):
    v = np.asarray(v, float)
    return v / np.sqrt(np.sum(v * v, -1, keepdims=True))


def angle(a, b):
    """accurate angle between unit vectors (broadcast)"""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    c = np.cross(np.broadcast_to(a, np.broadcast_shapes(a.shape, b.shape)), b)
    return np.arctan2(np.sqrt(np.sum(c * c, -1)), np.sum(a * b, -1))


def view_basis(vd, tol=1e-7):
    """right, up, forward of a Radiance view (vu = z, or y when looking along
    z)"""
    vd = unit(vd)
    if abs(vd[0]) < tol and abs(vd[1]) < tol:
        vu = np.array((0., 1., 0.))
    else:
        vu = np.array((0., 0., 1.))
    h = unit(np.cross(vd, vu))
    v = np.cross(h, vd)
    return h, v, vd


def fisheye_rays(vd, va, xy):
    """equiangular fisheye, xy in -1..1 (…,2) right and up"""
    h, v, d = view_basis(vd)
    xy = np.asarray(xy, float)
    r = np.sqrt(np.sum(xy * xy, -1))
    th = r * va * PI / 360
    with np.errstate(all="ignore"):
        s = np.where(r > 0, np.sin(th) / np.where(r > 0, r, 1), va * PI / 360)
    return (np.cos(th)[..., None] * d + (xy[..., :1] * h + xy[..., 1:] * v) *
            s[..., None])


def pixel_grid(res):
    """pixel centers of a square image in -1..1, [x, y, 2], y up"""
    c = (np.arange(res) + .5) / res * 2 - 1
    return np.stack(np.meshgrid(c, c, indexing="ij"), -1)


def fisheye_xy(vd, va, xyz):
    """inverse of fisheye_rays"""
    h, v, d = view_basis(vd)
    xyz = np.asarray(xyz, float)
    x, y, z = xyz @ h, xyz @ v, xyz @ d
    s = np.hypot(x, y)
    th = np.arctan2(s, z)
    with np.errstate(all="ignore"):
        f = np.where(s > 0, th / np.where(s > 0, s, 1), 0) / (va * PI / 360)
    return np.stack((x * f, y * f), -1)


def pixel_omega(res, half):
    """exact solid angle of square pixels of an equiangular fisheye, evaluated
    at the center with sub pixel quadrature. half: half angle (radians) at the
    edge of the image"""
    n = 4
    c = (np.arange(res * n) + .5) / (res * n) * 2 - 1
    x, y = np.meshgrid(c, c, indexing="ij")
    th = np.hypot(x, y) * half
    sinc = np.sinc(th / PI)
    d = sinc * (2 * half / (res * n)) ** 2
    return d.reshape(res, n, res, n).sum((1, 3))


# ------------------------------------------------------------------ Shirley Chiu
def sc_disk(u, v):
    """concentric map of the unit square to the unit disk: r, phi (r may be
    negative as published)"""
    a, b = 2 * u - 1, 2 * v - 1
    if a == 0 and b == 0:
        return 0.0, 0.0
    if abs(a) > abs(b):
        return a, PI / 4 * b / a
    return b, PI / 2 - PI / 4 * a / b


def sc_xy(u, v):
    r, p = sc_disk(u, v)
    return r * math.cos(p), r * math.sin(p)


def sc_xyz(u, v):
    """upper hemisphere, equal area"""
    r, p = sc_disk(u, v)
    s = r * math.sqrt(max(0.0, 2 - r * r))
    return s * math.cos(p), s * math.sin(p), 1 - r * r


def sc_uv(x, y, z):
    """inverse of sc_xyz for unit vectors with z >= 0"""
    r = math.hypot(x, y) / math.sqrt(1 + z)
    if r == 0:
        return .5, .5
    p = math.atan2(y, x)
    if p < -PI / 4:
        p += 2 * PI
    if p < PI / 4:
        a, b = r, r * p / (PI / 4)
    elif p < 3 * PI / 4:
        a, b = -r * (p - PI / 2) / (PI / 4), r
    elif p < 5 * PI / 4:
        a, b = -r, -r * (p - PI) / (PI / 4)
    else:
        a, b = r * (p - 3 * PI / 2) / (PI / 4), -r
    return (a + 1) / 2, (b + 1) / 2


def quad_omega(a, b, c, d):
    """solid angle of the spherical quads abcd (unit vectors, last axis)"""
    def tri(p, q, r):
        n = np.abs(np.sum(p * np.cross(q, r), -1))
        m = 1 + np.sum(p * q, -1) + np.sum(q * r, -1) + np.sum(r * p, -1)
        return 2 * np.arctan2(n, m)
    return tri(a, b, c) + tri(a, c, d)


# ------------------------------------------------------------------ position index
def guth(vd, vec):
    """Guth above, Iwata below the line of sight (evalglare), per ray"""
    h, v, d = view_basis(vd)
    out = np.empty(len(vec))
    for i, p in enumerate(unit(vec)):
        x, y, z = float(p @ h), float(p @ v), float(p @ d)
        sigma = math.degrees(math.atan2(math.hypot(x, y), z))
        n = math.hypot(x, y)
        if n < 1e-12:
            out[i] = 1.0 if z > 0 else 16.0
            continue
        if z < 0:
            out[i] = 16.0
            continue
        if y < 0:
            tau = 90.0
            sigma = math.degrees(math.atan2(math.hypot(x, 1.15 * y), z))
        else:
            tau = math.degrees(math.acos(max(-1.0, min(1.0, y / n))))
        q = ((35.2 - 0.31889 * tau - 1.22 * math.exp(-2 * tau / 9)) * 1e-3 * sigma +
             (21 + 0.26667 * tau - 0.002963 * tau ** 2) * 1e-5 * sigma ** 2)
        out[i] = min(16.0, math.exp(min(q, 50)))
    return out


def kim(vd, vec):
    h, v, d = view_basis(vd)
    out = np.empty(len(vec))
    for i, p in enumerate(unit(vec)):
        x, y, z = float(p @ h), float(p @ v), float(p @ d)
        sigma = math.degrees(math.atan2(math.hypot(x, y), z))
        n = math.hypot(x, y)
        if n == 0:
            out[i] = 1.0
            continue
        tau = math.degrees(math.acos(max(-1.0, min(1.0, y / n))))
        out[i] = math.exp((sigma - (-0.000009 * tau ** 3 + 0.0014 * tau ** 2 +
                                    0.0866 * tau + 21.633)) /
                          (-0.000009 * tau ** 3 + 0.0013 * tau ** 2 +
                           0.0853 * tau + 8.772))
    return out


# ------------------------------------------------------------------ metrics
def metrics(vd, vec, omega, lum, view_area, scale=179., threshold=2000.,
            tradius=30., lowlight=False, useguth=True):
    """all glare metrics of in view rays, straight from the formulas"""
    vec = unit(vec)
    vd = unit(vd)
    omega = np.asarray(omega, float)
    L = np.asarray(lum, float) * scale
    ct = np.clip(vec @ vd, -1, 1)
    pi = guth(vd, vec) if useguth else kim(vd, vec)
    pw = omega / pi ** 2
    m = {}
    with np.errstate(all="ignore"):
        m["illum"] = np.sum(ct * L * omega)
        m["avglum"] = np.sum(L * omega) / view_area
        m["gcr"] = (np.sum(L * L * omega) / view_area / m["avglum"] ** 2
                    if m["avglum"] > 0 else 1.0)
        m["loggcr"] = np.log10(m["gcr"])
        m["pwavglum"] = np.sum(L * pw) / np.sum(pw)
        m["pwgcr"] = (np.sum(L * L * pw) / np.sum(pw) / m["pwavglum"] ** 2
                      if m["pwavglum"] > 0 else 1.0)
        m["logpwgcr"] = np.log10(m["pwgcr"])
        m["density"] = len(omega) / view_area
        m["avgraylum"] = np.mean(L)
        m["maxlum"] = np.max(L)
        m["view_area"] = view_area
        task = angle(vec, vd) * 180 / PI < tradius
        m["tasklum"] = np.sum((L * omega)[task]) / np.sum(omega[task])
        m["threshold"] = threshold if threshold > 100 else threshold * m["tasklum"]
        src = L > m["threshold"]
        m["srcillum"] = np.sum((ct * L * omega)[src])
        m["srcarea"] = np.sum(omega[src])
        m["pwsl2"] = np.sum((L * L * omega / pi ** 2)[src])
        m["backlum"] = (m["illum"] - m["srcillum"]) / PI
        m["backlum_true"] = (np.sum((L * omega)[~src]) / np.sum(omega[~src]))
        m["dgp_t1"] = 5.87e-5 * m["illum"]
        m["log_gc"] = np.log10(1 + m["pwsl2"] / m["illum"] ** 1.87)
        m["dgp_t2"] = 9.18e-2 * m["log_gc"]
        ll = 1.0
        if lowlight and m["illum"] < 500:
            x = math.exp(0.024 * m["illum"] - 4)
            ll = x / (1 + x)
        m["dgp"] = np.minimum(1.0, ll * (m["dgp_t1"] + m["dgp_t2"] + 0.16))
        g = 0.25 * m["pwsl2"] / m["backlum"]
        m["ugr"] = max(0.0, 8 * np.log10(g)) if g > 0 else (
            0.0 if g == 0 else float("nan"))
        m["ugp"] = (1 + 2 / 7 * 10 ** (-(m["ugr"] + 5) / 40)) ** -10
    return m


class Ambiguous(Exception):
    """rounding decides: not judged"""


def chord_half(va):
    """half angle (radians) of the mapper's view: the view angle, for narrow views
    scaled by the chord factor (known finding of C17)"""
    a = va * PI / 360
    if va >= 180:
        return PI / 2
    return a * (2 ** .5 / (PI / 2)) / (2 * math.sin(a / 2) / a)


def lens(a, b, d):
    """overlap of two circles of radius a, b with centers d apart"""
    if d >= a + b:
        return 0.0
    if d <= abs(a - b):
        return PI * min(a, b) ** 2
    # two circular segments cut by the common chord
    h2 = (a + b - d) * (d + a - b) * (d - a + b) * (d + a + b) / (4 * d * d)
    y = math.sqrt(max(0.0, h2))
    out = 0.0
    for r, x in ((a, (d * d + a * a - b * b) / (2 * d)),
                 (b, (d * d + b * b - a * a) / (2 * d))):
        p = math.atan2(y, x)
        out += r * r * ((p - math.sin(2 * p) / 2) if p > .05 else
                        (2 * p) ** 3 / 12 * (1 - (2 * p) ** 2 / 20 +
                                             (2 * p) ** 4 / 840))
    return out


def clip_view(vd, va, vec, omega, lum, correct, tol=1e-9):
    """rays of a view: keep (mask), vec, omega (of the kept), view_area

    bright rays which straddle the border of the view count with the part inside;
    with correct (and more than 100 rays) the rays at the border absorb the
    difference to the solid angle of the view"""
    vd, vec = unit(vd), unit(vec)
    omega = np.array(omega, float)
    lum = np.asarray(lum, float)
    ang = angle(vd, vec)
    half, a = chord_half(va), va * PI / 360
    if np.any(np.abs(ang - half) < tol):
        raise Ambiguous
    keep = ang < half
    vec = vec.copy()
    avg = np.mean(lum)
    if avg > 0:
        for i in np.flatnonzero(~keep & (lum > avg * 10 * (1 - 1e-9))):
            off = abs(math.degrees(ang[i]) - va / 2)
            if off > 1.002:
                continue
            if va < 180:
                # inside of the view angle, outside of the mapper's view
                raise Ambiguous
            if off > .9999 or lum[i] < avg * 10 * (1 + 1e-9):
                raise Ambiguous
            b, d = math.sqrt(omega[i] / PI), ang[i]
            if min(abs(d - a - b), abs(d - a + b)) < tol:
                raise Ambiguous
            if a - b < d < a + b:
                omega[i] = lens(a, b, d)
                x = (a * a - b * b + d * d) / (2 * d)
                side = unit(vec[i] - (vec[i] @ vd) * vd)
                vec[i] = math.cos(x) * vd + math.sin(x) * side
                keep[i] = True
    vec, omega = vec[keep], omega[keep]
    if not correct or len(vec) <= 100:
        return keep, vec, omega, float(np.sum(omega))
    area = 2 * PI * (1 - math.cos(a))
    side = np.sqrt(omega)
    ang = angle(vd, vec)
    excess = np.sum(omega) - area
    while True:
        if np.any(np.abs(ang - a + side) < tol):
            raise Ambiguous
        edge = ang > a - side
        tot = np.sum(omega[edge])
        f = 1 - excess / tot if tot > 0 else 1
        if abs(f) < 1e-9:
            raise Ambiguous
        if f >= 0:
            break
        side = side * 1.1
    omega = np.where(edge, omega * f, omega)
    return keep, vec, omega, area
