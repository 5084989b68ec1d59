NA = {}
BASE = "Every obligation is generated from /repo's current source on each run and proved for all inputs over exact real arithmetic; rounding is not modelled unless stated. "
NOTE = {
 "C01": BASE + "Assumes the Singh-Guptasarma theorem (sum over faces equals the attraction) and Girard's formula; edges, face and body functions are proved equal to it.",
 "C02": BASE + "The tensor is proved equal to the symbolic derivative of the gravity contract.",
 "C03": BASE + "Trace of a face's tensor is proved to be rho*G*1e9*omega; that the solid angles of a closed surface sum to 0 or -4*pi is assumed (Gauss).",
 "C04": BASE,
 "C05": BASE,
 "C06": BASE + "scipy's ConvexHull is a stub that returns any facet list satisfying its documented contract; that assumption is listed in the evidence.",
 "C07": BASE,
 "C08": BASE + "Norms and dot products are havoc'd by any relative rounding, so that domain errors caused by rounding are covered.",
 "C09": BASE + "The geoid models are assumed contracts: one unknown function of latitude and longitude per vertical datum; the wrapping of longitudes is computed by the code itself.",
 "C10": BASE + "pymap3d's geodetic/ECEF/ENU formulas are assumed contracts: unknown functions keyed on the ellipsoid's axes and on the origin, with mutually inverse pairs; Ellipsoid is pymap3d's real source.",
 "C11": BASE + "Same assumed contracts as C10.",
 "C12": BASE + "The configuration views are confuse's own source executed by the verifier; every letter-case spelling of every documented name is enumerated, unknown names are an unknown string.",
 "C13": BASE + "Lists, files, grids and body lists have any length; pandas.read_csv and numpy.mgrid are assumed contracts; confuse is its own source.",
 "C14": BASE + "The whole command runs symbolically on any number of bodies, points per body and observation points; Polyhedron is replaced by its contract (an unknown field per body), pymap3d and geoids by the contracts of C09-C11, pandas and the file system by recording stand-ins.",
 "C15": BASE + "confuse is its own source over a virtual file system; reading a YAML file is an assumed contract; presence of a parameter in each source is enumerated, values are opaque.",
 "C16": BASE + "The output path is an unknown string, existence of files and directories is decided both ways; pandas to_csv is an assumed contract.",
}
