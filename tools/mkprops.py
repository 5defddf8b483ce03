#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
S = "src/pymap3d/"
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files], mechanism=[dict(name=n, where=S+w) for n, w in mech],
                     observe_at=list(observe) or ["return values of the public functions"], hook_needed=None)))

FEW = "The tests sample a handful of hand-picked points; the property quantifies over every real input (and ellipsoid), including poles, the antimeridian and negative angles, which no finite table reaches."

p("C01", "Geodetic to ECEF places the point on the ellipsoid normal at the given height",
  "For every latitude in [-90,90], longitude, height and reference ellipsoid, converting geodetic coordinates to Earth-centred Cartesian ones gives a point that for height 0 lies on the ellipsoid surface, and for any height equals that surface point plus height times the outward unit normal (cos lat cos lon, cos lat sin lon, sin lat). That normal is perpendicular to the ellipsoid there, so latitude 90 is on the polar axis at distance b+height and latitude 0 is in the equatorial plane at distance a+height.",
  "every latitude, longitude, height, ellipsoid with a>=b>0, scalars and arrays, degrees or radians", FEW,
  ["ecef.py", "ellipsoid.py"], [("prime-vertical radius and closed form", "ecef.py:geodetic2ecef")])
p("C02", "ECEF to geodetic is the inverse of geodetic to ECEF everywhere outside the core",
  "For every ellipsoid and every point outside the deep interior (height from about -50 km for Earth-size bodies up to deep space, including the poles, the equator, the polar axis and points exactly on the surface), converting Cartesian coordinates to geodetic returns latitude in [-90,90], longitude in (-180,180] and the signed height (negative inside the ellipsoid) such that converting back reproduces the point to better than a millimetre per Earth radius of distance. On the surface, on the polar axis and in the equatorial plane the result is exact up to rounding.",
  "every Cartesian point outside the deep interior, every ellipsoid, scalars and arrays", FEW,
  ["ecef.py"], [("ellipsoidal-harmonic start, one correction step, axis special cases", "ecef.py:ecef2geodetic")])
p("C03", "Local tangent-plane axes are the true East, North and Up directions",
  "At every latitude and longitude (degrees or radians) the ECEF-to-ENU, -NED, -NWU and -SEZ rotation matrices are orthonormal with determinant +1 and their rows are the geometric East, North, Up (or Down, West, South) unit vectors of that place; the companion matrices are their transposes. Every vector-only conversion between ECEF and a local frame equals multiplication with the corresponding matrix, so lengths and angles are preserved and the inverse conversion undoes it.",
  "every latitude, longitude and vector", FEW, ["frames.py", "ecef.py", "enu.py", "ned.py", "nwu.py", "sez.py"],
  [("rotation matrices", "frames.py"), ("ecef2enuv, uvw2enu, enu2uvw, enu2ecefv", "ecef.py, enu.py")])
p("C04", "Local position conversions are mutually inverse and centred on the observer",
  "For every observer (latitude, longitude, height), target and ellipsoid, converting a position from ECEF or geodetic coordinates to ENU gives the ECEF difference between target and observer expressed in the observer's East/North/Up axes; the observer itself maps to the origin and the conversion preserves Euclidean distance. Converting back to ECEF returns the original point, and the geodetic variants agree with composing with the geodetic/ECEF conversions.",
  "every observer, target, ellipsoid", FEW, ["ecef.py", "enu.py"],
  [("ecef2enu/enu2ecef/geodetic2enu/enu2geodetic", "ecef.py, enu.py")])
p("C05", "NED, NWU and SEZ results are axis relabellings of ENU, for every conversion",
  "For every input, each NED, NWU or SEZ conversion (to and from ECEF, geodetic and azimuth/elevation/range, positions and vectors) returns exactly what the ENU conversion returns after the axis relabelling north=n, east=e, down=-u, west=-e, south=-n, z=u, with observer, ellipsoid and angle unit passed through.",
  "every input of every NED/NWU/SEZ conversion, every observer, ellipsoid, angle unit", FEW,
  ["ned.py", "nwu.py", "sez.py"], [("relabelling wrappers", "ned.py, nwu.py, sez.py")])
p("C06", "Azimuth/elevation/range is the polar form of the local vector, in range",
  "For every East/North/Up vector, the slant range is its length, elevation is in [-90,90] measured from the horizontal plane and azimuth is in [0,360) measured clockwise from North, with components smaller than one millimetre treated as zero; converting back returns the vector (within that millimetre). Every conversion between azimuth/elevation/range and ECEF, geodetic or ECI coordinates equals the composition of this polar form with the corresponding ENU position conversion for the same observer, ellipsoid and time.",
  "every vector, observer, target, ellipsoid", FEW, ["enu.py", "aer.py"],
  [("enu2aer/aer2enu with 1 mm deadband", "enu.py"), ("compositions", "aer.py")])
p("C07", "Downrange/crossrange/above is ENU rotated by the heading",
  "For every heading, downrange is the horizontal component along the heading (clockwise from North), crossrange the horizontal component to the left of it and above the Up component; the conversions to and from ENU are mutually inverse and preserve length. The NED, ECEF, geodetic and azimuth/elevation/range variants agree with composing through ENU for every observer and ellipsoid.",
  "every vector, heading, observer, ellipsoid", FEW, ["dca.py"], [("heading rotation", "dca.py")])
p("C08", "Body-frame rotations are proper yaw-pitch-roll rotations, alike in all frames",
  "For every yaw, pitch and roll, the NED-to-body matrix is the intrinsic z-y-x (yaw, then pitch, then roll) rotation: orthonormal, determinant +1, body x-axis pointing along azimuth yaw and elevation pitch. The ENU, SEZ and NWU variants are that same physical rotation expressed from the relabelled local frame, each body-to-frame matrix is the transpose, and the ECEF and geodetic position and vector conversions equal the local-frame conversion followed by that rotation and are undone by their inverse; an unsupported sequence or frame name is rejected with ValueError.",
  "every attitude, frame name, observer, target, ellipsoid", FEW, ["body.py", "frames.py"],
  [("_ned2body_rotation and relabellings", "frames.py"), ("frame dispatch", "body.py")])
p("C09", "ECI/ECEF conversion is a rotation in time honouring the orientation data",
  "For every instant and orientation parameters, the built-in (non-Astropy) ECI-to-ECEF conversion multiplies by one proper rotation matrix (polar motion x sidereal rotation x nutation x precession) that depends only on the time, UT1 offset and pole coordinates; ECEF-to-ECI is its exact inverse and lengths are preserved. Every composed ECI conversion (geodetic, azimuth/elevation/range) uses the same rotation with the caller's UT1 offset and pole coordinates and the caller's angle unit.",
  "every point, instant, UT1 offset, pole coordinates", FEW, ["eci.py", "earth_orientation.py", "ecef.py", "aer.py"],
  [("eci_to_ecef_matrix", "earth_orientation.py"), ("apply/compose", "eci.py, ecef.py, aer.py")], over=("inputs", "configurations"))
p("C10", "State-vector conversion is consistent with the position rotation and its rate",
  "For every state vector and time, the built-in ECI/ECEF state conversion rotates the position exactly as the position conversion does, and the velocity is the rotated velocity plus the time derivative of the rotation applied to the position. Converting ECEF state back to ECI recovers the original position and velocity, for scalars and for arrays of states alike.",
  "every state vector, instant, orientation parameters, array length", FEW, ["eci.py", "earth_orientation.py"],
  [("_apply_state_rotation", "eci.py"), ("central-difference matrix rate", "earth_orientation.py")])
p("C11", "Julian dates, leap seconds and time zones are exact for every date",
  "For every date from 1900 to 2100 and beyond in the proleptic Gregorian calendar, the Julian date equals the true day count plus the fraction of day (midnight 2000-01-01 is 2451544.5), consecutive days differ by exactly 1 and it never decreases with time. Time-zone aware instants give the result of the same UTC instant and naive ones are taken as UTC; TAI-UTC equals the published leap-second table at every instant, Terrestrial Time is UTC + leap seconds + 32.184 s, and date strings are parsed as ISO 8601.",
  "every datetime, naive or aware, in any time zone", "The tests check a few dates; month/leap-year/century/leap-second boundaries are unbounded in number.",
  ["earth_orientation.py", "sidereal.py", "timeconv.py"], [("juliandate, leap_seconds, ensure_utc", "earth_orientation.py"), ("str2dt", "timeconv.py")])
p("C12", "Sidereal time follows the IAU-1982 formula and is a wrapped angle",
  "For every Julian date the Greenwich mean sidereal time equals the IAU 1982 polynomial (with the apparent time adding the equation of the equinoxes) reduced to [0, 2 pi), and advances by one sidereal turn per sidereal day. The built-in local apparent sidereal time equals Greenwich apparent sidereal time at the UT1 instant plus the east longitude modulo 2 pi, for scalars and for lists element by element.",
  "every Julian date, longitude, UT1 offset", FEW, ["earth_orientation.py", "sidereal.py"],
  [("greenwich_mean_sidereal_time, nutation_short", "earth_orientation.py"), ("datetime2sidereal", "sidereal.py")])
p("C13", "Horizontal and equatorial sky coordinates are inverse spherical rotations",
  "For every observer latitude strictly between the poles, longitude, time and direction, the built-in (non-Astropy) conversion from azimuth/elevation to right ascension/declination is the spherical rotation by latitude and local sidereal time, with right ascension in [0,360) and declination in [-90,90]; the opposite conversion inverts it with azimuth in [0,360). The celestial pole appears at azimuth 0 and elevation equal to latitude, and latitudes beyond 90 degrees are rejected with ValueError.",
  "every direction, observer, time", FEW, ["vallado.py", "azelradec.py"], [("azel2radec, radec2azel", "vallado.py")])
p("C14", "Angular separation is the great-circle angle",
  "For every pair of directions the angular separation is the angle between the two unit vectors: in [0,180] degrees, zero only for coincident directions, symmetric, invariant under a common longitude shift and 180 degrees for antipodes. The haversine formula and the selectable library implementation agree, in degrees and radians.",
  "every pair of directions", FEW, ["haversine.py"], [("anglesep, anglesep_meeus, haversine", "haversine.py")])
p("C15", "Closed-form auxiliary latitudes obey their definitions and invert each other",
  "For every latitude in [-90,90] and every ellipsoid, the geocentric, parametric, conformal and isometric latitudes equal their textbook definitions; they keep the sign of the input, fix the equator, and map a pole to itself (the isometric latitude of a pole is infinite with its sign). Converting to parametric or to geocentric latitude on the surface and back returns the original latitude, and for a sphere geocentric, parametric and conformal latitude equal the geodetic latitude.",
  "every latitude, height, ellipsoid; scalars and arrays", FEW, ["latitude.py"],
  [("geodetic2geocentric, geodetic2parametric, geodetic2conformal, geodetic2isometric", "latitude.py")])
p("C16", "Series auxiliary latitudes match their defining integrals to stated order",
  "For every ellipsoid of moderate flattening, rectifying and authalic latitudes, the inverse conformal and inverse isometric latitudes and the geocentric-distance-to-geodetic latitude series agree with their defining integrals or exact inverses up to the truncation order of the series in the flattening or eccentricity (below a nanodegree-scale error for Earth-like ellipsoids in the conformal and rectifying cases). They are odd in the latitude, fix equator and poles, and each forward/inverse pair undoes the other to that order.",
  "every latitude and ellipsoid of small flattening", FEW, ["latitude.py"],
  [("Fourier series coefficients", "latitude.py")])
p("C17", "Radii of curvature and mean radii equal their geometric definitions",
  "For every latitude and ellipsoid, the meridional, transverse, parallel and geocentric radii equal the radii of the ellipsoid geometry (transverse at least meridional, both equal a squared over b at the poles, parallel radius equal to the distance from the axis), Euler's radius and the Gaussian and mean local radii follow from them, and the biaxial, triaxial, authalic, rectifying and equal-volume radii equal their definitions, all lying between the semi-axes and equal to the radius for a sphere; unknown methods raise ValueError.",
  "every latitude, azimuth, ellipsoid, method", FEW, ["rcurve.py", "rsphere.py"],
  [("radii of curvature", "rcurve.py"), ("mean radii", "rsphere.py")])
p("C18", "Geodetic and geocentric-spherical coordinates describe the same point",
  "For every geodetic position and ellipsoid, the geocentric spherical coordinates (latitude, longitude, radius) denote the same Cartesian point as the geodetic ones, and converting spherical coordinates back to geodetic recovers latitude, longitude and height for every point outside the deep interior. Longitude passes through unchanged and on a sphere latitude is unchanged and height is radius minus a.",
  "every position outside the deep interior, every ellipsoid", FEW, ["spherical.py"],
  [("Vermeille closed form", "spherical.py")])
p("C19", "Line of sight returns the nearest visible ellipsoid point along the ray",
  "For every observer at height >= 0 above any ellipsoid and every viewing direction, the returned position lies on that ellipsoid and on the viewing ray at exactly the returned slant range, and is the first intersection; straight down returns the observer's own latitude, longitude and height. If the ray misses the ellipsoid the slant range and coordinates are NaN, and a negative observer height raises ValueError; array elements are handled independently.",
  "every observer, direction, ellipsoid", FEW, ["los.py"], [("ray/ellipsoid quadratic", "los.py")])
p("C20", "n-vector operations are the exact unit-sphere geometry",
  "For every input, the n-vector of a latitude/longitude is the unit outward normal and converting back is exact; distance is radius times the angle between vectors, interpolation moves along the great circle at that fraction of the angle and stays of unit length, the mean is the normalised sum, cross-track distance is radius times the signed angle to the great-circle plane (positive on its left), and the intersection lies on both great circles on the side nearest the given points. The ECEF variants agree with the geodetic/ECEF conversions for any ellipsoid.",
  "every unit vector, fraction, radius, ellipsoid", FEW, ["nvector.py"], [("vector algebra", "nvector.py")])
p("C21", "Vincenty direct and inverse geodesics invert each other",
  "For every pair of non-antipodal points on any ellipsoid, the inverse solution returns a non-negative geodesic distance and a forward azimuth in [0,360) such that the direct solution from the first point reaches the second one (to about a millimetre and the corresponding angle), swapping the points keeps the distance, shifting both longitudes changes nothing, and coincident points are at distance zero. The direct solution returns latitude within [-90,90] and longitude in [0,360); latitudes beyond the poles and negative ranges raise ValueError.",
  "every pair of points, azimuth, range, ellipsoid; scalars and arrays", FEW, ["vincenty.py"],
  [("fixed-point iterations", "vincenty.py:vdist, vreckon")], over=("inputs",))
p("C22", "Sampled geodesic tracks start, end and progress correctly",
  "For every pair of distinct, non-antipodal end points, a track of n points has exactly n points, starts at the first and ends at the second point, and its points lie on the geodesic at equal distance steps. Fewer than two points, or antipodal end points between which intermediate points are asked for, raise ValueError; degrees and radians describe the same track.",
  "every pair of end points, number of points, ellipsoid", FEW, ["vincenty.py"], [("track2", "vincenty.py")])
p("C23", "Rhumb-line distances, azimuths and departures obey the loxodrome equations",
  "For every pair of points on any ellipsoid, the rhumb line's tangent of azimuth is the longitude difference over the isometric latitude difference, its length is the meridian arc over the cosine of azimuth (or the parallel's departure when both latitudes agree), and the direct solution started with that distance and azimuth reaches the second point. Departure is the parallel radius times the shorter longitude difference, meridian arc is non-negative, symmetric and zero for equal latitudes, the geographic mean of points is the authalic-sphere mean, and invalid latitudes or negative ranges raise ValueError.",
  "every pair of points, azimuth, range, ellipsoid; scalars and arrays", FEW, ["lox.py"],
  [("loxodrome_inverse, loxodrome_direct, departure, meridian_arc, meanm", "lox.py")])
p("C24", "Karney geodesic direct and inverse problems are accurate and mutually inverse",
  "For every pair of points on any oblate ellipsoid or sphere, including nearly antipodal, equatorial, meridional, polar and coincident pairs, the inverse geodesic returns the shortest distance and the azimuths at both ends to nanometre-scale accuracy relative to the series order, is symmetric under swapping the points and under longitude shifts and hemisphere reflection, and never fails to converge. The direct problem started with that azimuth and distance reaches the second point with the same final azimuth, negative or very long distances included.",
  "every pair of points, azimuth, distance, ellipsoid", FEW, ["karney.py"],
  [("series coefficients, Newton/bisection on longitude", "karney.py")])
p("C25", "Geodesic lines and polygons are built from the geodesic primitives",
  "A geodesic line of n points starts at the first point, ends at the second and its points are equally spaced along the geodesic between them. A polygon's perimeter is the sum of the geodesic distances between consecutive vertices including the closing edge, is independent of starting vertex and orientation, and fewer than three vertices raise ValueError; its signed area is the ellipsoidal area enclosed, positive for counter-clockwise order.",
  "every list of vertices, number of points, ellipsoid", FEW, ["karney.py"], [("geodesic_line, geodesic_area", "karney.py")])
p("C26", "Ellipsoid parameters are mutually consistent and lookups are stable",
  "Every constructed or named ellipsoid has flattening (a-b)/a, third flattening (a-b)/(a+b) and eccentricity sqrt(2f-f^2) consistent with its axes in metres, a >= b > 0, and oblate-only construction is enforced. Looking up a name repeatedly, from any order of calls, gives equal parameters, the default is WGS-84 (a=6378137, 1/f=298.257223563), and cached geodesic data never leaks from one ellipsoid to another, also after clearing caches.",
  "every (a,b), every model name, every order of lookups, cache clears and geodesic calls", "Tests check one altitude per model; cache histories and parameter consistency over all axes are unbounded.",
  ["ellipsoid.py", "karney.py"], [("Ellipsoid.__init__, catalogue, caches", "ellipsoid.py")], over=("inputs", "histories"))
p("C27", "Degrees and radians modes are the same function up to unit conversion",
  "For every public function with an angle-unit switch and every input, the radians mode given the inputs in radians returns the degrees-mode results with angle outputs converted to radians and all non-angle outputs (lengths, unit vectors, matrices) identical, for every argument that is an angle and for composed functions at every depth.",
  "every function with a deg switch, every input", "Tests run the radians mode on a few points of a few functions.",
  ["ecef.py", "enu.py", "aer.py", "latitude.py", "rcurve.py", "spherical.py", "vincenty.py", "lox.py", "karney.py", "body.py", "dca.py", "los.py", "nvector.py"],
  [("radians()/degrees() at entry and exit", "every module")], over=("inputs", "configurations"))
p("C28", "The ellipsoid argument is honoured everywhere and defaults to WGS-84",
  "For every function that accepts an ellipsoid, omitting it or passing none gives exactly the WGS-84 result, and passing one makes every step use it: scaling both semi-axes and all input lengths by a factor scales output lengths by that factor and leaves angles unchanged. No hidden default ellipsoid is used when another is requested.",
  "every function with an ellipsoid argument, every ellipsoid and scale", "Tests use WGS-84 nearly everywhere.",
  ["ecef.py", "enu.py", "aer.py", "ned.py", "nwu.py", "sez.py", "dca.py", "body.py", "latitude.py", "rcurve.py", "rsphere.py", "spherical.py", "los.py", "lox.py", "vincenty.py", "karney.py", "nvector.py"],
  [("ell parameter threading", "every module")], over=("inputs", "configurations"))
p("C29", "Array inputs give element-wise the scalar results",
  "For every function that accepts arrays, calling it with arrays (of any length, with ordinary and special elements such as poles, coincident points, the antimeridian or sub-millimetre offsets mixed in any order) gives for each element exactly what the scalar call gives for that element, with the input's shape; one element never influences another.",
  "every array content, length and order", "Tests pass arrays of one repeated or all-ordinary points.",
  ["ecef.py", "enu.py", "latitude.py", "vincenty.py", "lox.py", "los.py", "eci.py", "rcurve.py", "spherical.py"],
  [("mask assignment branches", "ecef.py, enu.py, latitude.py, vincenty.py, lox.py, los.py"), ("row loop", "eci.py")])
p("C30", "Conversions never modify their inputs",
  "No public function changes the arrays or lists the caller passes in, in degrees or radians mode, for any values including sub-millimetre components, poles and longitudes beyond a full turn; calling a function twice with the same arguments gives the same result.",
  "every function, every array argument", "Tests do not compare inputs after the call.",
  ["enu.py", "vincenty.py", "lox.py", "los.py", "ecef.py", "latitude.py"], [("in-place masks act on fresh arrays only", "enu.py, vincenty.py, lox.py, los.py, latitude.py")], over=("inputs", "histories"))
p("C31", "Standard-library and NumPy installations compute the same results",
  "For every scalar input, every function available without NumPy returns the same values (to rounding) and raises the same kind of error as it does with NumPy installed (except that where the math module itself raises a division-by-zero or domain error, NumPy answers NaN, infinity or the limit), including at poles, zero vectors and out-of-range arguments; fallback math helpers (sign, linspace, minimum, cube root, power) agree with their NumPy counterparts.",
  "every function, every scalar input, both installations", "Each suite runs the same few points separately and never compares the two.",
  ["mathfun.py", "ecef.py", "enu.py", "latitude.py", "vincenty.py", "lox.py", "los.py", "eci.py"],
  [("try/except fallbacks", "mathfun.py and numpy/scalar branches")], over=("inputs", "configurations"))
p("C32", "The command line prints exactly what the function returns",
  "For every exposed function, options and numeric arguments, the command-line program calls the function of that name with the given arguments, chosen ellipsoid and switches, and prints its result in the order returned (text with the requested precision, or JSON with the same values); an option left out means the function's own default. Unknown commands, models or missing arguments end with a non-zero status.",
  "every command, argument list, option combination", "There are no CLI tests.", ["__main__.py"],
  [("signature-driven argparse", "__main__.py")], over=("inputs", "configurations"))
p("C33", "Cartesian, polar and spherical helper conversions are exact inverses",
  "For every vector, the polar and spherical helper conversions return the length, the azimuth from +x towards +y in (-180,180] and the elevation from the xy-plane in [-90,90] (in radians), and the opposite conversions return the original vector.",
  "every vector / angle pair", FEW, ["utils.py"], [("cart2pol, pol2cart, cart2sph, sph2cart", "utils.py")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        print(q["id"], len(q["title"])) if len(q["title"])>80 else None
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
