"""C32 command line: main() calls the chosen function with exactly the given arguments and prints exactly its results"""
import contextlib
import inspect
import io
import json
import math
import re
import sys
from pyvc.contract import contract, Skip
from contracts.table import ROWS, PLAIN, row

COMMANDS = """aer2dca aer2ecef aer2eci aer2enu aer2geodetic aer2ned aer2nwu aer2sez authalic2geodetic azel2radec body2ecef body2ecefv body2enu body2enu_matrix
body2geodetic body2ned body2ned_matrix body2nwu body2nwu_matrix body2sez body2sez_matrix body_matrix conformal2geodetic datetime2sidereal dca2aer dca2ecef
dca2enu dca2geodetic dca2ned ecef2aer ecef2body ecef2bodyv ecef2dca ecef2eci ecef2eci_state ecef2enu ecef2enu_matrix ecef2enuv ecef2geodetic ecef2ned
ecef2ned_matrix ecef2nedv ecef2nvector ecef2nwu ecef2nwu_matrix ecef2nwuv ecef2sez ecef2sez_matrix ecef2sezv eci2aer eci2ecef eci2ecef_state eci2geodetic
enu2aer enu2body enu2body_matrix enu2dca enu2ecef enu2ecef_matrix enu2ecefv enu2geodetic enu2uvw geoc2geod geocentric2geodetic geocentric_radius geod2geoc
geodetic2aer geodetic2authalic geodetic2body geodetic2conformal geodetic2dca geodetic2ecef geodetic2eci geodetic2enu geodetic2geocentric geodetic2isometric
geodetic2ned geodetic2nvector geodetic2nwu geodetic2parametric geodetic2rectifying geodetic2sez geodetic2spherical greenwichsrt isometric2geodetic meridian
ned2aer ned2body ned2body_matrix ned2dca ned2ecef ned2ecef_matrix ned2geodetic nvector2ecef nvector2geodetic nvector_cross_track_distance nvector_distance
nvector_interpolate nvector_intersection nvector_mean nwu2aer nwu2body nwu2body_matrix nwu2ecef nwu2ecef_matrix nwu2ecefv nwu2geodetic parallel
parametric2geodetic radec2azel rectifying2geodetic sez2aer sez2body sez2body_matrix sez2ecef sez2ecef_matrix sez2ecefv sez2geodetic spherical2geodetic str2dt
transverse uvw2enu""".split()
TIMES = {"t", "time"}
TEXT = {"sequence": "xyz", "frame": "nwu"}


class Tok(str):
    """a numeric argument as typed: its text stands for an arbitrary number; text operations that change nothing keep it"""
    def __new__(cls, text, sym):
        s = str.__new__(cls, text)
        s.sym = sym
        return s


def _keep(name):
    op = getattr(str, name)

    def f(self, *a, **k):
        r = op(self, *a, **k)
        if isinstance(r, str) and r == str.__str__(self):
            return self
        if isinstance(r, (list, tuple)):
            return type(r)(self if x == str.__str__(self) else x for x in r)
        return r
    return f


for _n in "strip lstrip rstrip lower upper casefold replace split rsplit partition rpartition removeprefix removesuffix splitlines translate expandtabs __str__ __add__ __getitem__".split():
    if _n not in ("__str__",):
        setattr(Tok, _n, _keep(_n))


def command(main, argv):
    """-> (exit status or None, printed text)"""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["pymap3d"] + list(argv)
    status = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                main()
            except SystemExit as e:
                status = e.code
    finally:
        sys.argv = old
    return status, out.getvalue()


MARK = re.compile(r"\u00ab([^|\u00bb]*)\|([^\u00bb]*)\u00bb")


@contract("C32", "dispatch", params=[{"cmd": c} for c in COMMANDS], mode="proof", prune=False)
def dispatch(L, I, ck, M, cmd):
    """every command with arbitrary numbers: the functions are replaced by recorders with the same signature (caller checked against the callee's interface)"""
    from pyvc import symlib as sl, term as tm
    pm = L.top
    main = getattr(L, "__main__")
    calls = []
    sigs = {}
    real = {n: getattr(pm, n) for n in pm.__all__ if callable(getattr(pm, n, None)) and not inspect.isclass(getattr(pm, n))}
    if cmd not in real:
        ck.true("available", I.cfg == "std", cmd)
        raise Skip()
    shape = I.choice("shape", ["one", "three", "list", "matrix"])
    outs = [I.real(f"result{i}") for i in range(4)]
    result = {"one": outs[0], "three": tuple(outs[:3]), "list": outs[:2], "matrix": (tuple(outs[:2]), tuple(outs[2:]))}[shape]
    used = {"one": outs[:1], "three": outs[:3], "list": outs[:2], "matrix": outs}[shape]

    def recorder(n):
        sig = inspect.signature(real[n])

        def rec(*a, **k):
            b = sig.bind(*a, **k)
            if n == "str2dt" and isinstance(b.arguments["time"], str):
                return ("instant", b.arguments["time"])
            calls.append((n, b.arguments))
            return result
        rec.__signature__ = sig
        rec.__doc__ = real[n].__doc__
        rec.__name__ = n
        return rec
    how = I.choice("options", ["none", "all", "ellipsoid"])
    output = I.choice("output", ["plain", "precision", "json"])
    sig = inspect.signature(real[cmd])
    pos, opt, expect = [], [], {}
    for i, (n, p) in enumerate(sig.parameters.items()):
        if n == "ell":
            expect[n] = "ell"
        elif p.default is inspect.Parameter.empty:
            if n in TIMES:
                text = "2021-03-04T05:06:07"
                pos.append(text)
                expect[n] = ("time", text)
            else:
                x = I.real(n)
                pos.append(Tok(f"{i + 7}.25", x))
                expect[n] = ("real", x)
        elif isinstance(p.default, bool):
            v = p.default
            if how == "all":
                v = not v
                opt.append(("--" if v else "--no-") + n.replace("_", "-"))
            expect[n] = ("same", v)
        elif how == "all":
            if n in TEXT:
                opt += ["--" + n.replace("_", "-"), TEXT[n]]
                expect[n] = ("same", TEXT[n])
            else:
                x = I.real(n)
                opt += ["--" + n.replace("_", "-"), Tok(f"{i + 7}.25", x)]
                expect[n] = ("real", x)
        else:
            expect[n] = ("same", p.default)
    argv = {"plain": [], "precision": ["--precision", "3"], "json": ["--output", "json"]}[output]
    model = "wgs84"
    if how == "ellipsoid":
        model = I.choice("model", ["mars", "clarke1866", "grs80"])
        argv += ["--ellipsoid", model]
    argv += [cmd] + opt + pos
    try:
        for n in real:
            setattr(pm, n, recorder(n))
        sl.CTX.marks = True
        status, text = command(main.main, argv)
    finally:
        sl.CTX.marks = False
        for n, f in real.items():
            setattr(pm, n, f)
    ck.true("status", status in (None, 0), (status, argv))
    ck.true("one-call", len(calls) == 1 and calls[0][0] == cmd, [c[0] for c in calls])
    if len(calls) != 1:
        return
    got = calls[0][1]
    for n, e in expect.items():
        if e == "ell":
            want = pm.Ellipsoid.from_name(model)
            g = got.get(n)
            if g is None and model == "wgs84":
                continue
            ck.eq("semimajor", g.semimajor_axis, want.semimajor_axis)
            ck.eq("semiminor", g.semiminor_axis, want.semiminor_axis)
        elif e[0] == "time":
            ck.true(f"argument-{n}", got.get(n) in (("instant", e[1]), e[1]), got.get(n))
        elif e[0] == "same":
            g = got.get(n, sig.parameters[n].default)
            ck.true(f"argument-{n}", (g is e[1]) or isinstance(g, type(e[1])) and g == e[1], (g, e[1]))
        else:
            ck.eq(f"argument-{n}", got[n], e[1])
    names = [tm.show(x.t, 6) for x in used]
    if output == "json":
        got = json.loads(text)
        want = {"one": names[0] if names else None, "three": names[:3], "list": names[:2], "matrix": [names[:2], names[2:]]}[shape]
        flat = json.dumps(got).encode().decode("unicode_escape")
        ck.true("json", json.loads(MARK.sub(lambda m: m.group(2), flat)) == want and all(m.group(1) == "" for m in MARK.finditer(flat)), (text, want))
        return
    marks = MARK.findall(text)
    ck.true("printed", [m[1] for m in marks] == names, (text, names))
    ck.true("precision", all(m[0] == (".3f" if output == "precision" else "") for m in marks), text)
    ck.true("nothing-else", re.fullmatch(r"[\s()\[\],]*", MARK.sub("", text)) is not None, text)


# ---------------------------------------------------------------- end to end on the real program
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|nan|inf)")
BYNAME = {}
for _k in list(ROWS) + list(PLAIN):
    _f = _k.split(":")[0].split(".")[1]
    if ":" not in _k:
        BYNAME[_f] = _k


def typed(x):
    return f"{x!r}" if not hasattr(x, "item") else f"{float(x)!r}"


def value(I, n, deg):
    """an argument by its name"""
    s = n.lower()
    if "lat" in s:
        return I.lat(n, deg)
    if "lon" in s:
        return I.lon(n, deg)
    if s in ("az", "heading", "yaw", "pitch", "roll", "az_deg", "ra_deg"):
        return I.angle(n, deg)
    if s in ("el", "elev", "el_deg", "dec_deg"):
        return I.lat(n, deg)
    if s in ("h", "h0", "alt", "alt0", "alt_m"):
        return I.alt(n)
    if s in ("srange", "slantrange"):
        return I.real(n, 0, 1e6)
    if s in ("radius", "geocentric_distance"):
        return I.real(n, 6.4e6, 9e6)
    if re.fullmatch(r"n[1-4p]s?_?[123]?|np_[123]|n[123]", s):
        return I.real(n, -1, 1)
    if s == "fraction":
        return I.real(n, 0, 1)
    if s == "jdate":
        return I.real(n, 2.4e6, 2.5e6)
    if s in ("delta_ut1", "xp", "yp"):
        return I.real(n, -0.8, 0.8)
    return I.length(n)


def nested(r):
    if isinstance(r, (tuple, list)):
        return [y for x in r for y in nested(x)]
    return [float(x) for x in r.reshape(-1)] if getattr(r, "shape", ()) != () else [r]


@contract("C32", "end to end", params=[{"cmd": c} for c in COMMANDS], mode="bounded", weight=0.3)
def endtoend(L, I, ck, M, cmd):
    """the printed numbers are those of the direct call"""
    import datetime
    pm = L.top
    f = getattr(pm, cmd, None)
    if f is None:
        ck.true("available", I.cfg == "std", cmd)
        raise Skip()
    main = getattr(L, "__main__").main
    sig = inspect.signature(f)
    kw, pos, opt = {}, [], []
    deg = I.choice("deg", [True, True, False]) if "deg" in sig.parameters else True
    for n, p in sig.parameters.items():
        if n == "ell":
            continue
        if p.default is inspect.Parameter.empty:
            if n in TIMES:
                t = I.instant(n)
                kw[n] = t
                pos.append(t.isoformat() if I.choice("sep", ["T", " "]) == "T" else t.isoformat(" "))
            elif cmd == "nvector_mean":
                v = [I.real(f"{n}{i}", -1, 1) for i in range(2)]
                kw[n] = v
                pos.append(",".join(map(typed, v)))
            else:
                x = value(I, n, deg)
                kw[n] = x
                pos.append(typed(x))
        elif n == "deg":
            if not deg:
                opt.append("--no-deg")
                kw[n] = False
            elif I.choice("say", [True, False]):
                opt.append("--deg")
        elif isinstance(p.default, bool):
            if I.choice("f" + n, [True, False]):
                opt.append("--" + n.replace("_", "-"))
                kw[n] = True
        elif I.choice("give" + n, [True, False]):
            if n in TEXT:
                kw[n] = I.choice(n, ["zyx", "xyz", "zxy"] if n == "sequence" else ["ned", "enu", "nwu", "sez"])
                opt += ["--" + n.replace("_", "-"), kw[n]]
            else:
                x = kw[n] = value(I, n, deg)
                opt += [f"--{n.replace('_', '-')}={typed(x)}"]
    pre = []
    if "ell" in sig.parameters or I.choice("model", [False, True]):
        m = I.choice("ellipsoid", [None, "wgs84", "mars", "clarke1866", "jupiter", "grs80"])
        if m:
            pre += ["--ellipsoid", m]
            if "ell" in sig.parameters:
                kw["ell"] = pm.Ellipsoid.from_name(m)
    prec = I.choice("precision", [None, 0, 3, 9])
    js = I.choice("json", [True, False])
    if prec is not None:
        pre += ["--precision", str(prec)]
    if js:
        pre += ["--output", "json"]
    try:
        want = f(**kw)
    except (ValueError, ArithmeticError, TypeError, AssertionError):
        raise Skip()
    status, text = command(main, pre + [cmd] + opt + ["--"] + pos)
    ck.true("status", status in (None, 0), status)
    if isinstance(want, datetime.datetime):
        ck.true("printed", text.strip() == (json.dumps(want.isoformat()) if js else str(want)), text)
        return
    w = nested(want)
    if js:
        g = json.loads(text)
        shape = [list(want.shape)] if hasattr(want, "shape") else None
        ck.true("list", isinstance(g, list) == (isinstance(want, (tuple, list)) or getattr(want, "shape", ()) != ()), text)
        g = nested(g)
    else:
        g = [float(x) for x in NUMBER.findall(text.replace("float64", ""))]
    ck.true("count", len(g) == len(w), f"{text!r} for {want!r}")
    arrays = hasattr(want, "shape") and want.shape != () or isinstance(want, (tuple, list)) and any(getattr(x, "shape", ()) != () for x in want)
    for i, (x, y) in enumerate(zip(g, w)):
        y = float(y)
        if y != y or math.isinf(y):
            ck.true(f"value{i}", x == y or x != x and y != y, (x, y))
            continue
        tol = 0.0 if js or prec is None and not arrays else 0.5001 * 10.0 ** -prec if prec is not None else 1e-7 * max(map(abs, w)) + 1e-8
        ck.true(f"value{i}", abs(x - y) <= tol + 4e-16 * abs(y) * (not js), (x, y, text))
    if prec is not None and not js:
        ck.true("digits", all(len(t.partition(".")[2]) == prec for t in NUMBER.findall(text) if t not in ("nan", "inf", "-nan", "-inf")), text)


@contract("C32", "errors", params=[{}], mode="bounded", fixed_n=60)
def errors(L, I, ck, M):
    """unknown commands, models, options and missing arguments end with a non-zero status"""
    main = getattr(L, "__main__").main
    argv = I.choice("argv", [[], ["nosuch"], ["geodetic2ecef"], ["geodetic2ecef", "1", "2"], ["--ellipsoid", "nosuch", "geodetic2ecef", "1", "2", "3"],
                             ["--output", "xml", "geodetic2ecef", "1", "2", "3"], ["--precision", "x", "geodetic2ecef", "1", "2", "3"], ["geodetic2ecef", "1", "2", "3", "4"],
                             ["Ellipsoid"], ["geodetic2ecef", "1", "2", "3", "--nosuch"], ["aer2enu", "1", "2"], ["geodetic2aer", "1", "2", "3", "4", "5"]])
    status, text = command(main, argv)
    ck.true("status", status not in (None, 0), (status, argv))
    ck.true("nothing-printed", text == "", text)
