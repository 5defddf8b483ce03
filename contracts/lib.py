"""specification-side geometry"""
REL = 1e-9
DEG = [{"deg": True}, {"deg": False}]


def dot(a, b):
    s = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        s = s + x * y
    return s


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def sub3(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add3(a, b):
    return tuple(x + y for x, y in zip(a, b))


def transpose(m):
    return tuple(tuple(m[j][i] for j in range(3)) for i in range(3))


def matmul(a, b):
    return tuple(tuple(dot(a[i], [b[k][j] for k in range(3)]) for j in range(3)) for i in range(3))


def matvec(a, v):
    return tuple(dot(r, v) for r in a)


def basis(M, lat, lon, deg):
    """geometric East, North, Up unit vectors"""
    if deg:
        lat, lon = M.rad(lat), M.rad(lon)
    sl, cl, so, co = M.sin(lat), M.cos(lat), M.sin(lon), M.cos(lon)
    z = M.q(0)
    return (-so, co, z), (-sl * co, -sl * so, cl), (cl * co, cl * so, sl)


def mat_eq(ck, label, got, want, tol):
    for i in range(3):
        for j in range(3):
            ck.eq(f"{label}{i}{j}", got[i][j], want[i][j], tol=tol)


def apart(lat1, lon1, lat2, lon2, deg, lo=1e-6, hi=179.0):
    """central angle (degrees, spherical) between lo and hi"""
    import math
    r = math.radians if deg else float
    a, b, c = r(lat1), r(lat2), r(lon2) - r(lon1)
    x = (math.cos(a) * math.sin(b) - math.sin(a) * math.cos(b) * math.cos(c), math.cos(b) * math.sin(c))
    s = math.degrees(math.atan2(math.hypot(*x), math.sin(a) * math.sin(b) + math.cos(a) * math.cos(b) * math.cos(c)))
    return lo < s < hi
