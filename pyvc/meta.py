"""static descriptions used in the evidence files and in MANIFEST.json (tools/mkmanifest.py)"""
TRUSTED = [
    "pyvc (this verifier): loader rewrite, path explorer, exact algebra (pyvc/*.py)",
    "z3 4.x / sympy 1.x as decision procedures",
    "real-number semantics of math/numpy elementary functions as modelled in pyvc/symlib.py",
    "CPython and the numpy object-array machinery that the rewritten sources run on",
]
REAL = "machine floats are treated as mathematical reals in the proof; rounding only in the bounded monitor"
META: dict = {}


def m(pid, level, functions, note, assumptions=(), technique=None):
    META[pid] = dict(level=level, functions=functions.split(), note=note, assumptions=list(assumptions),
                     technique=technique or ("contracts on the real source, symbolic execution + SMT/algebraic discharge (pyvc); run-time contract monitor replays counterexamples"
                                             if level == "proof" else "run-time contract monitor on the real code (bounded stand-in for the deductive check)"))


m("C01", "proof", "ecef.geodetic2ecef ellipsoid.Ellipsoid", "every obligation discharged for all real inputs and ellipsoids in both configurations; " + REAL)
m("C03", "proof", "enu.ecef2enu_matrix enu.enu2ecef_matrix ned.* nwu.* sez.* ecef.ecef2enuv ecef.uvw2enu ecef.enu2uvw enu.enu2ecefv ned.ecef2nedv nwu.ecef2nwuv nwu.nwu2ecefv sez.ecef2sezv sez.sez2ecefv",
  "every obligation discharged for all real inputs; " + REAL)
m("C04", "proof", "ecef.ecef2enu ecef.enu2ecef enu.geodetic2enu enu.enu2geodetic ecef.uvw2enu ecef.enu2uvw", "every obligation discharged; ecef2geodetic by its contract (deterministic, scale-homogeneous function); " + REAL,
  ["ecef2geodetic enters by contract only (C02, C28)"])
m("C05", "proof", "ned.* nwu.* sez.*", "every obligation discharged; ecef2geodetic by contract; " + REAL, ["ecef2geodetic enters by contract only (C02, C28)"])
m("C06", "proof", "enu.enu2aer enu.aer2enu aer.ecef2aer aer.geodetic2aer aer.aer2ecef aer.aer2geodetic", "every obligation discharged; callees ecef2geodetic and (in the composition contracts) enu2aer by contract; " + REAL,
  ["ecef2geodetic enters by contract only (C02, C28)"])
m("C07", "proof", "dca.*", "every obligation discharged; ecef2geodetic by contract; " + REAL, ["ecef2geodetic enters by contract only (C02, C28)"])
m("C02", "proof", "ecef.ecef2geodetic", "polar axis, equatorial plane, whole surface and every point when the ellipsoid is a sphere: proved for all reals; other off-surface points: bounded round trip against the sharp truncation bound of the closed form; " + REAL,
  ["off-surface, off-axis points of a true ellipsoid are only covered by the bounded round trip (labelled bounded)"])
m("C18", "proof", "spherical.geodetic2spherical spherical.spherical2geodetic", "geodetic2spherical proved (Cartesian identity); spherical2geodetic proved on spheres, bounded round trip otherwise; " + REAL,
  ["spherical2geodetic on non-spheres is bounded only"])
m("C33", "proof", "utils.cart2pol utils.pol2cart utils.cart2sph utils.sph2cart", "every obligation discharged for all reals; " + REAL)
m("C08", "proof", "body.*", "every obligation discharged for all yaw/pitch/roll, frames and vectors; ecef2geodetic by contract; " + REAL, ["ecef2geodetic enters by contract only (C02, C28)"])
m("C14", "proof", "haversine.anglesep haversine.anglesep_meeus haversine.haversine", "every obligation discharged; the astropy branch of anglesep is only monitored; " + REAL,
  ["astropy.coordinates.angular_separation is external (monitored only)"])
m("C15", "proof", "latitude.geodetic2geocentric latitude.geocentric2geodetic latitude.geodetic2parametric latitude.parametric2geodetic latitude.geodetic2isometric latitude.geodetic2conformal",
  "every obligation discharged; isometric defined for cos(lat) > 1e-8; " + REAL)
m("C17", "proof", "rcurve.* rsphere.*", "every obligation discharged (vdist azimuth by contract inside euler); the upper/lower bounds of the authalic radius are monitored only; " + REAL,
  ["vdist azimuth enters rsphere.euler by contract only (C21)"])
m("C26", "proof", "ellipsoid.Ellipsoid ellipsoid.resolve_ellipsoid ellipsoid.clear_ellipsoid_caches", "parameters proved for all a >= b > 0; the finite table of named models is decided completely; " + REAL)
m("C19", "proof", "los.lookAtSpheroid aer.aer2enu ecef.enu2uvw ecef.geodetic2ecef",
  "every obligation discharged for all real inputs and ellipsoids (hit: on the ray, on the ellipsoid, first root; miss: the forward ray provably avoids the ellipsoid); ecef2geodetic by contract; " + REAL,
  ["ecef2geodetic enters by contract only (C02, C28)"])
m("C09", "proof", "earth_orientation.eci_to_ecef_matrix earth_orientation.precession_matrix earth_orientation.nutation_matrix earth_orientation.polar_motion_matrix eci.eci2ecef eci.ecef2eci ecef.eci2geodetic ecef.geodetic2eci aer.eci2aer aer.aer2eci",
  "every obligation discharged for all instants, orientation parameters, vectors; Julian date and leap seconds by their contracts (C11); Astropy branch outside the property; " + REAL,
  ["juliandate/leap_seconds enter by contract (C11)", "ecef2geodetic, enu2aer by contract inside the composed conversions (C02, C06)", "microsecond rounding of datetime.timedelta not modelled"])
m("C10", "proof", "eci.eci2ecef_state eci.ecef2eci_state earth_orientation.eci_to_ecef_matrix_rate",
  "every obligation discharged; the rotation by its contract (C09: a proper rotation, function of instant and parameters); the rate is the central difference over one second, compared with the analytic derivative in the monitor only; " + REAL,
  ["central difference vs. analytic derivative: monitored, not proved"])
m("C11", "proof", "earth_orientation.juliandate earth_orientation.leap_seconds earth_orientation.utc_to_tt earth_orientation.utc_with_offset earth_orientation.ensure_utc sidereal.juliandate",
  "Julian date proved for every year 1..9999, month, day and time of day (linear integer arithmetic with floors); leap seconds proved for every instant; ISO strings bounded; " + REAL,
  ["datetime arithmetic of the standard library (stand-in pyvc/faketime.py)", "str2dt is monitored only"])
m("C12", "proof", "earth_orientation.greenwich_mean_sidereal_time earth_orientation.nutation_short earth_orientation.mean_obliquity earth_orientation.equation_of_equinoxes earth_orientation.greenwich_apparent_sidereal_time sidereal.datetime2sidereal sidereal.datetime2sidereal_vallado sidereal.greenwichsrt",
  "every obligation discharged; juliandate and leap_seconds by contract (C11); " + REAL, ["juliandate/leap_seconds enter by contract (C11)"])
m("C13", "proof", "vallado.azel2radec vallado.radec2azel azelradec.azel2radec azelradec.radec2azel",
  "every obligation discharged; sidereal time by contract (C12); " + REAL, ["datetime2sidereal enters by contract (C12)"])
m("C20", "proof", "nvector.*", "every obligation discharged for all vectors (interpolation: all pairs with angle in [0, pi), fraction in [0,1]; fractions outside are monitored); ecef2geodetic by contract; " + REAL,
  ["ecef2geodetic enters by contract only (C02, C28)"])
m("C22", "proof", "vincenty.track2",
  "composition (point k is the direct solution at k/(n-1) of the inverse solution's distance) and rejection of antipodal ends / fewer than two points proved for all inputs (n = 3, 4, 7 in the composition); the points themselves monitored against an independent geodesic solver (bounded); " + REAL,
  ["vdist and vreckon enter by contract inside track2 (C21, bounded)", "array operations of track2 executed symbolically for n = 3, 4, 7 points; other n monitored"])
m("C21", "exploration", "vincenty.vdist vincenty.vreckon",
  "rejection of bad latitudes and negative ranges proved for all inputs; there-and-back, symmetry, shift, reflection, range and the geodesic value are run-time contracts on 500-700 generated inputs per instance (thousands in thorough), within Vincenty's own convergence region; ",
  ["near-antipodal pairs, where the iteration is documented not to converge, are outside the checked domain"])
m("C16", "proof", "latitude.geodetic2rectifying latitude.rectifying2geodetic latitude.geodetic2authalic latitude.authalic2geodetic latitude.conformal2geodetic latitude.isometric2geodetic latitude.geoc2geod",
  "the differential equation that defines each latitude is discharged coefficient by coefficient through the published order (n^4, e^7, e^9, f^2) for every latitude; oddness, fixed points, units, inverse pairs proved for all inputs; the size of the remainder is monitored against the defining integrals (bounded); " + REAL,
  ["size of the truncation remainder is monitored, not proved"])
m("C23", "proof", "lox.meridian_dist lox.meridian_arc lox.loxodrome_inverse lox.loxodrome_direct lox.departure lox.meanm",
  "every obligation discharged for all points with |cos azimuth| outside (or deep inside) the code's parallel threshold, auxiliary latitudes by contract (C15, C16); the threshold band, poles, arrays and the exact rhumb line (elliptic integrals) are monitored; " + REAL,
  ["geodetic2rectifying, rectifying2geodetic, geodetic2isometric, geodetic2authalic by contract (C15, C16)", "meanm for 1, 2 and 3 points in the proof, arrays of numpy only", "two points at the same pole are outside the checked domain (azimuth undefined)"])
m("C24", "proof", "karney._AngNormalize karney._AngRound karney._sum_error karney._AngDiff karney._sincosd karney._atan2d karney._norm2 karney._SinCosSeries karney._A1m1f karney._C1f karney._C1pf karney._A2m1f karney._C2f karney._Geodesic._A3f karney._Geodesic._C3f karney._Geodesic.__init__",
  "angle reduction, Clenshaw sums, ellipsoid constants and all five series (through their published order, for every sigma and ellipsoid) are discharged; the assembled direct and inverse problems, whose Newton iteration has no closed form, are run-time contracts (bounded) on thousands of generated pairs in every special position, against an independent implementation and against each other; " + REAL,
  ["convergence of the inverse iteration is monitored, not proved", "size of the series remainder is monitored, not proved"])
m("C25", "proof", "karney.geodesic_line karney.geodesic_area",
  "lines of 1, 2, 3, 4, 7, 12 points and perimeters of 3, 4, 6 vertices are composed exactly from the two problems' contracts for all inputs; other counts monitored; the enclosed area is a known finding; " + REAL,
  ["geodesic_inverse and geodesic_direct by contract (C24), distance symmetric in the two points", "the number of points is fixed per proof instance"])
m("C27", "proof", "every-public-function-with-a-deg-switch:contracts/table.py:ROWS",
  "both modes run on the same symbolic inputs and compared output by output for every function with a deg switch, in both configurations; the iterative solvers (vdist, vreckon, track2, geodesic_inverse, geodesic_direct, spherical2geodetic) are run-time contracts (bounded); " + REAL,
  ["ecef2geodetic (itself proved here), the earth rotation and, in the rhumb and observer groups, the auxiliary latitudes and enu2aer enter by contract", "iterative solvers: bounded"])
m("C28", "proof", "every-public-function-with-an-ell-argument:contracts/table.py:ROWS-minus-NO_ELL enu.enu2aer",
  "omitted / None / WGS-84 by name give identical results, and scaling ellipsoid and lengths by any k > 0 scales length results by k and leaves everything else (the scale factor cancels term by term), for every function, both configurations; the iterative solvers are run-time contracts (bounded); " + REAL,
  ["ecef2geodetic (itself proved here, away from the 1e-8 m axis/focal-disc test of numpy), earth rotation, auxiliary latitudes, enu2aer and vdist enter by contract in the functions that call them", "iterative solvers: bounded"])
m("C29", "proof", "every-public-function-that-takes-arrays:contracts/c_rel.py:ARRAYS",
  "array call on two arbitrary elements (numpy object arrays through the real numpy mask code) against the two scalar calls, also with one observer for all points; lengths 0..6, two-dimensional shapes, special elements and repeated elements: run-time contract (bounded); iterative solvers bounded; " + REAL,
  ["arrays of two elements in the proof, other lengths and shapes bounded", "ecef2geodetic itself: elements at least 1e-6 m from the border between axis/focal disc and the rest, results defined",
   "rsphere.euler, lox.loxodrome_inverse, nvector_cross_track_distance: elements with defined results", "callees of the composed functions enter by contract", "iterative solvers: bounded"])
m("C30", "proof", "every-public-function:contracts/table.py:ROWS+PLAIN",
  "every argument (and every element of an array argument, and the ellipsoid's fields) is term-identical before and after the call, and a second identical call returns identical terms, for every function in both configurations; 0..4-element and two-dimensional arrays, an interposed other call, lists of points or of times and the iterative solvers: run-time contract (bounded)",
  ["one-element arrays in the proof, larger ones bounded", "ecef2geodetic (itself proved here), earth rotation, auxiliary latitudes, enu2aer, vdist and sidereal time enter by contract in the functions that call them", "iterative solvers and list arguments: bounded"])
m("C31", "proof", "every-public-function:contracts/table.py:ROWS+PLAIN-minus-track2",
  "the sources are loaded twice, with and without numpy, and executed on the same symbolic inputs: same terms, same kind of error; where math raises ZeroDivisionError or a domain error the NumPy result is NaN or infinite; the iterative solvers: run-time contract over both real imports (bounded)",
  ["scalar arguments", "astropy blocked on both sides", "real cos(pi/2) = 0: inputs where only the math side divides by an exact zero and numpy goes on to a finite limit (poles of three latitude conversions, due-east rhumb lines) are left to the bounded layer",
   "ecef2geodetic: points at least 1e-6 m from the border between axis, focal disc and the rest", "callees of the composed functions enter by contract", "iterative solvers: bounded"])
m("C32", "proof", "__main__.main __main__.* every-command-of-the-registry",
  "for every command the real registry offers, main() runs on symbolic number tokens with the library functions replaced by recorders: exactly one call, of the function with the command's name, every token in its own parameter, options forwarded, and the printed text made of exactly the returned values; the processes' real output against the library call, and rejected input: run-time contract (bounded)",
  ["argparse itself runs concretely on symbolic tokens (trusted)", "float(token) and str/format/json of a float are the standard library's", "end-to-end text: bounded"])
