"""The property table: properties.jsonl and MANIFEST.json are generated from it by tools/meta.py."""
NOTE = ("Randomised search: shows the absence of violations only on the generated cases (counts and samples in the "
        "evidence file). Trusts numpy/scipy/astropy/galpy as reference and the stated tolerances. ")
NA = {}
PROPS = [
 dict(id="P01", title="Unit conversions preserve the physical state along any path",
  statement="Converting a cluster between its unit systems (pckms, kpckms, pcmyr, kpcgyr, nbody, galpy, WDunits, amuse), in any sequence and through methods, functions or to_units, multiplies every position, velocity, mass, time, centre and orbit value by exactly the factor between the two unit systems and leaves the physical state unchanged. The units label always names the system the numbers are in, and converting away and back restores the original numbers to rounding.",
  over=["inputs", "histories", "configurations"],
  q="all star sets, centre offsets, orbital positions, ages, solar/N-body scale parameters, all sequences of conversions between the eight systems",
  why="The tests convert one fixed cluster along a handful of hand-picked routes and mostly compare back with itself; ordered pairs, longer routes, non-default ro/vo/zmbar and non-zero centres are not reached.",
  files=["clustertools/cluster/operations.py", "clustertools/cluster/cluster.py", "clustertools/util/units.py"],
  mech=[("to_pckms, to_pcmyr, to_kpckms, to_kpcgyr, to_nbody, to_galpy, to_WDunits, to_amuse, to_units", "clustertools/cluster/operations.py")],
  tech="Hypothesis histories of conversions vs an independent factor table (reference model, round trip)", note=NOTE + "Factors from IAU constants, 1e-8 relative."),
 dict(id="P02", title="Sky coordinates equal the astronomical transformation and lose nothing",
  statement="Taking a cluster with an orbital position to the sky gives every star, the orbit and the centre the RA, Dec, distance, proper motions and radial velocity of its current Galactocentric position for the cluster's own solar parameters (right ascensions treated modulo 360 degrees, the centre as an offset from the orbit); offsets from the centre on the sky, plain or in an orthographic/Van de Ven projection, equal the standard formulae. Leaving the sky frame for any Cartesian units and origin restores the Cartesian state, in any history of frame changes, and star or orbit data changed in between are what is transformed.",
  over=["inputs", "histories", "configurations"],
  q="all clusters with an orbit (including next to the RA=0 meridian), solar parameters, and sequences of unit/origin/sky changes, new orbits, new centres and moved stars",
  why="The tests transform one cluster in one direction far from RA=0 with default solar parameters and compare the package with itself or galpy with default parameters.",
  files=["clustertools/cluster/operations.py", "clustertools/cluster/cluster.py", "clustertools/analysis/orbits.py", "clustertools/util/coordinates.py"],
  mech=[("to_radec, from_radec, to_sky, to_centre/to_cluster with centre_method, initialize_orbit(s)", "clustertools/cluster/operations.py")],
  tech="Hypothesis frame-change histories vs astropy Galactocentric/ICRS oracle", note=NOTE + "Agreement to 2e-7 deg, 2e-6 mas/yr; clusters closer than 0.3 kpc to the Sun or the Galactic centre and poles are outside the domain."),
 dict(id="P03", title="Moving between origins is a lossless shift along any path",
  statement="Changing origin between cluster, centre and galaxy, in any sequence mixed with unit conversions, shifts every star by exactly the stored orbit and centre vectors and nothing else; masses, ids and their order are untouched. Saving the frame and returning to it (default or explicit) restores units, origin and coordinates.",
  over=["inputs", "histories"],
  q="all star sets, orbit and centre vectors, unit systems and sequences of origin changes, unit changes, save and return, via methods, functions and the American spelling",
  why="Tests shift one cluster along a few fixed routes with mostly zero velocities; histories mixing units, origins and save/return are not sampled.",
  files=["clustertools/cluster/operations.py", "clustertools/cluster/cluster.py"],
  mech=[("to_cluster, to_centre, to_center, to_galaxy, to_origin, save_cluster, return_cluster", "clustertools/cluster/operations.py")],
  tech="Hypothesis histories vs a reference frame model", note=NOTE + "1e-9 relative to the largest vector involved."),
 dict(id="P04", title="Derived quantities and orderings always describe the current stars",
  statement="After any change of a cluster's stars, masses, luminosities, frame or centre that re-analyses it, total and mean mass, mean and maximum radii, half-mass, 10% and half-light radii (3D and projected), star radii/speeds and velocity components equal brute-force values computed from the current star arrays. The radial orderings are permutations that sort the current radii whenever sorting was requested.",
  over=["inputs", "histories"],
  q="all star sets and histories of unit/origin/sky changes, additions, luminosity and mass changes, moves, rotation, virialisation and re-analysis with either sorting flag",
  why="Tests check the derived values once after construction; stale orderings and quantities only appear after particular change sequences.",
  files=["clustertools/cluster/cluster.py", "clustertools/cluster/operations.py", "clustertools/analysis/functions.py"],
  mech=[("StarCluster.analyze, sortstars, key_params", "clustertools/cluster/cluster.py")],
  tech="Hypothesis histories with a brute-force invariant after every step", note=NOTE),
 dict(id="P05", title="Analyses change nothing and do not depend on the analyses before them",
  statement="Calling any analysis, profile, orbit, tail, coordinate, subset, overlap, output or plotting function leaves the cluster - every array, scalar, frame, unit, order and stored result - and the caller's masks, id lists, bins, paths and second cluster as they were; the corresponding methods change only the attributes documented to hold the result. Therefore each result of any sequence of such calls equals what the same call gives on a fresh, identical cluster, and a call that works on its own works after any others.",
  over=["inputs", "histories", "configurations"],
  q="all sequences of analyses with any keywords on any cluster in any units (AMUSE included) and origin",
  why="Tests build a new cluster for each call, so a frame, mask or order left behind is not noticed.",
  files=["clustertools/analysis/functions.py", "clustertools/analysis/profiles.py", "clustertools/analysis/orbits.py", "clustertools/tidaltail/tails.py", "clustertools/cluster/operations.py", "clustertools/util/coordinates.py", "clustertools/cluster/cluster.py"],
  mech=[("save_cluster, return_cluster around every analysis", "clustertools/cluster/operations.py")],
  tech="Hypothesis sequences of analyses; differential test against fresh clusters and whole-state snapshots", note=NOTE + "Results that change when the stars move by parts in 1e13 (ties, orbits through a centre) are left out; rcore may find a centre when none is known; sky coordinates and orbits made on the way may be kept."),
 dict(id="P06", title="Adding stars and binaries keeps every per-star array aligned",
  statement="However stars are added (one or many calls, arrays, lists or scalars, given or default ids, masses, initial masses and populations, singles or binaries, with or without stellar-evolution data), every per-star array has one entry per star, in the documented order (binary components first, in the order of their centres of mass), with exactly the given values, and the star count is their length. Binary centres of mass carry the summed mass and mass-weighted position and velocity of their components.",
  over=["inputs", "histories"],
  q="all sequences of add_stars/add_binary_stars/add_sse calls with any mixture of defaulted and given columns",
  why="Tests add one fixed population once; alignment breaks only across several additions with different column sets.",
  files=["clustertools/cluster/cluster.py"],
  mech=[("add_stars, add_binary_stars, add_sse, add_bse", "clustertools/cluster/cluster.py")],
  tech="Hypothesis stateful histories vs a list-of-records model", note=NOTE),
 dict(id="P07", title="Binary-star data convert consistently between unit systems",
  statement="Binary semi-major axes, periods, masses, radii and spins are stored one entry per binary as given, and converting them between N-body, solar (sudays) and astronomical (audays) units multiplies each by exactly the factor between the systems, in any sequence, with the label naming the current system.",
  over=["inputs", "histories"],
  q="all binary sets, N-body scales, starting units and conversion sequences, added in one or more steps",
  why="Tests convert one binary set once per direction.",
  files=["clustertools/cluster/operations.py", "clustertools/cluster/cluster.py"],
  mech=[("to_audays, to_sudays, add_bse, add_nbody6", "clustertools/cluster/operations.py")],
  tech="Hypothesis conversion histories vs independent constants", note=NOTE + "1e-9 relative."),
 dict(id="P08", title="Subsets contain exactly the stars that satisfy every criterion",
  statement="Selecting stars by radius, mass, speed, energy, stellar type, population and mask, in 3D or in projection, selects exactly the stars whose current values lie inside every given inclusive bound and leaves the caller's mask and cluster untouched. A sub-cluster holds exactly those stars with every per-star value (and energies, stellar evolution data, bookkeeping, frame, centre, orbit and scales) as in the parent, re-centred or reset only where asked; overlap_cluster and reset_cluster follow the same rule.",
  over=["inputs", "configurations"],
  q="all star sets, frames, combinations of criteria including bounds exactly at a star's value, empty selections, masks, and the options of sub_cluster",
  why="Tests select with one criterion at a time on one cluster and check one or two columns of the result.",
  files=["clustertools/cluster/cluster.py", "clustertools/cluster/operations.py"],
  mech=[("StarCluster.subset, sub_cluster, overlap_cluster, reset_cluster", "clustertools/cluster/cluster.py")],
  tech="Hypothesis-generated selections vs brute-force masks, whole-state comparison with the parent", note=NOTE),
 dict(id="P09", title="Energies equal direct summation for every star, serially or in parallel",
  statement="Kinetic, potential and total energies equal brute-force direct summation over pairs (3D or projected, softened or not, total or specific, for the whole cluster or a subset), whether evaluated serially, pairwise or in parallel; the virial ratio follows from them, and converting units multiplies them by exactly the energy unit. Stored energies are the ones returned, aligned with the stars.",
  over=["inputs", "configurations", "schedules"],
  q="all star sets, unit systems, softening lengths, subsets, serial and parallel evaluation",
  why="Tests evaluate one N=100..1000 cluster serially; a data race or a mis-shaped subset shows only for other sizes and options.",
  files=["clustertools/analysis/functions.py", "clustertools/cluster/cluster.py"],
  mech=[("energies, _potential_energy*, StarCluster.energies/add_energies", "clustertools/analysis/functions.py")],
  tech="Hypothesis differential test vs direct summation, unit equivariance, repeated parallel runs", note=NOTE + "1e-9 relative."),
 dict(id="P10", title="Virialising, rotating and rescaling do exactly what they state",
  statement="virialize scales every velocity relative to the cluster by the one factor that brings the (current, as asked) virial ratio to the requested value and changes nothing else. add_rotation flips azimuthal velocities of the requested fraction of stars to one sense and preserves every position, mass and speed. reset_nbody_scale recomputes zmbar, rbar, vbar and tbar from the current mass and requested radius so that G=1 in N-body units, leaving the state and frame as they were.",
  over=["inputs", "histories", "configurations"],
  q="all star sets in any units and origin, fractions, virial ratios, scaling options and histories mixing them",
  why="Tests apply each to one cluster in one frame.",
  files=["clustertools/cluster/operations.py", "clustertools/cluster/cluster.py"],
  mech=[("virialize, add_rotation, reset_nbody_scale", "clustertools/cluster/operations.py")],
  tech="Hypothesis histories vs brute-force energies and invariants", note=NOTE),
 dict(id="P11", title="Centres are those of the method asked for, in any frame",
  statement="find_centre and its methods (iterative clipping, centre of mass, highest-density kernel, Casertano density centre) return the position and velocity their definitions give on the stars selected by the subset options, equal under translation of the cluster and (for scale-free methods) change of units, and find a planted clump. They store it, in the cluster's frame, only as requested and leave stars, units, origin and the caller's mask as they were.",
  over=["inputs", "configurations"],
  q="all star sets and planted clumps, frames, subset options, methods and parameters",
  why="Tests check that a centred, smooth cluster has its centre near zero.",
  files=["clustertools/analysis/functions.py", "clustertools/cluster/cluster.py"],
  mech=[("find_centre, find_centre_of_mass, find_centre_of_density, find_centre_casertano", "clustertools/analysis/functions.py")],
  tech="Hypothesis star sets vs reference implementations of the definitions, metamorphic translation/units, planted clumps", note=NOTE),
 dict(id="P12", title="Lagrange and virial radii are what their definitions say",
  statement="rlagrange returns, for every requested mass fraction, the smallest star radius about the cluster's centre that encloses it (3D or projected, any number of radii, fractions up to 1). virial_radius is the harmonic-mean pair separation weighted by mass, or the radius where the mean density crosses the overdensity times the critical density for the given H. Results are in the cluster's current units in any frame, are stored by the methods, and leave the cluster as it was.",
  over=["inputs", "configurations"],
  q="all star sets, units (AMUSE included), origins, mass fractions, numbers of Lagrange radii, projections, Hubble constants and overdensities",
  why="Tests check one smooth cluster in one frame with ten Lagrange radii.",
  files=["clustertools/analysis/functions.py", "clustertools/cluster/cluster.py"],
  mech=[("rlagrange, virial_radius, virial_radius_inverse_distance, virial_radius_critical_density", "clustertools/analysis/functions.py")],
  tech="Hypothesis star sets vs brute-force definitions", note=NOTE + "Critical density to 1e-5, otherwise 1e-6 or better."),
 dict(id="P13", title="The closest star is the closest star",
  statement="closest_star returns for every star, in the order of the stars, the distance to its nearest neighbour (3D, projected or on the sky) in the cluster's units and, when asked, that neighbour's index; the methods store exactly what is returned, and nothing else changes.",
  over=["inputs", "configurations"],
  q="all star sets of at least two stars, units (AMUSE included), origins, sky and projected modes",
  why="Tests use a handful of hand-placed stars in one frame.",
  files=["clustertools/analysis/functions.py", "clustertools/cluster/cluster.py"],
  mech=[("closest_star", "clustertools/analysis/functions.py")],
  tech="Hypothesis star sets vs brute-force pair distances", note=NOTE),
 dict(id="P14", title="Relaxation times follow their formulae in the cluster's time unit",
  statement="relaxation_time (within the half-mass or a given radius), half_mass_relaxation_time and core_relaxation_time equal their published formulae evaluated on the current stars about the cluster's centre (3D or projected, for the given Coulomb parameter), expressed in the cluster's current time unit, whatever the units and origin; methods store them and leave the cluster unchanged.",
  over=["inputs", "configurations"],
  q="all star sets, unit systems including AMUSE, origins, radii, Coulomb parameters and projections",
  why="Tests compare against the same formula in one unit system and frame.",
  files=["clustertools/analysis/functions.py", "clustertools/cluster/cluster.py"],
  mech=[("relaxation_time, half_mass_relaxation_time, core_relaxation_time", "clustertools/analysis/functions.py")],
  tech="Hypothesis star sets and unit systems vs independent formulae", note=NOTE + "2e-3 relative (value of G)."),
 dict(id="P15", title="Mass functions and mass-dependent kinematics fit the selected stars",
  statement="mass_function, tapered_mass_function, eta_function, meq_function and ckin bin exactly the selected stars (radius, mass, speed, type, population, mask, projection; optional completeness weights) into the requested mass bins, return per-bin mean mass, counts, dN/dm or velocity dispersion, and the least-squares parameters with their errors; too few stars give the documented marker with the same number of values. Inputs, units and frame stay as they were.",
  over=["inputs", "configurations"],
  q="all star sets, selections, numbers and kinds of mass bins, completeness corrections, frames and units",
  why="Tests fit one large power-law cluster and compare with itself or the known slope.",
  files=["clustertools/analysis/functions.py", "clustertools/cluster/cluster.py", "clustertools/util/recipes.py"],
  mech=[("mass_function, tapered_mass_function, eta_function, meq_function, ckin", "clustertools/analysis/functions.py")],
  tech="Hypothesis selections vs brute-force binning and fits; best-fit residual comparison", note=NOTE + "Non-linear fits compared through their residual."),
 dict(id="P16", title="Radial density, mass and circular-velocity profiles bin the right stars",
  statement="rho_prof and m_prof put exactly the selected stars (radius, mass, speed, energy, type, population, mask, projection) into equal-number, equal-width or the caller's radial bins about the cluster's centre and return per bin the radius, the mass per volume (or per area in projection), the mass (or cumulative mass) and the number of stars. vcirc_prof returns sqrt(G M(<r)/r) of the selected stars and its maximum. Normalised radii are divided by the half-mass radius only. The caller's bins and mask, and the cluster, stay as they were.",
  over=["inputs", "configurations"],
  q="all star sets, selections, radial bins (the user's own included), units (AMUSE included), origins, projections",
  why="Tests bin one smooth cluster with default options.",
  files=["clustertools/analysis/profiles.py", "clustertools/util/recipes.py"],
  mech=[("rho_prof, m_prof, vcirc_prof", "clustertools/analysis/profiles.py")],
  tech="Hypothesis selections and bins vs brute-force binning", note=NOTE + "A selection within rounding of a limit is skipped."),
 dict(id="P17", title="Kinematic and mass-segregation profiles are those of each bin's stars",
  statement="sigv_prof, v_prof, v2_prof and beta_prof return, per radial bin of the selected stars, the standard deviation, mean, mean square (of the speed, or of the Cartesian, spherical or - in projection - cylindrical component named) and the anisotropy. alpha_prof, eta_prof and meq_prof return the mass-function slope, the sigma-m slope and the equipartition mass of each bin's stars, with the least-squares gradient against ln(r/rm), its error and intercept. Inputs and the cluster stay as they were.",
  over=["inputs", "configurations"],
  q="all star sets, selections, radial and mass bins, velocity components, units (AMUSE included), origins, projections",
  why="Tests evaluate one smooth cluster with default options.",
  files=["clustertools/analysis/profiles.py", "clustertools/analysis/functions.py"],
  mech=[("sigv_prof, v_prof, v2_prof, beta_prof, alpha_prof, eta_prof, meq_prof", "clustertools/analysis/profiles.py")],
  tech="Hypothesis selections and bins vs brute-force statistics and fits", note=NOTE + "The default velocity is the speed."),
 dict(id="P18", title="Binning, fitting, smoothing and sampling recipes do what they state",
  statement="nbinmaker, binmaker and their roaming versions return bins that hold equal numbers / have equal (or equal logarithmic) widths, with the values' counts, means or centres and sums; no value in range is lost or counted twice, and bin_index agrees. dx_function, tapered_dx_function and x_hist count in those or the caller's bins and return dN/dx with the least-squares slope and errors; mean_prof and smooth return each bin's mean or median, dispersion and extremes; interpolate, distance, minimum_distance are exact; power_law_distribution_function draws from x^alpha between its limits for every alpha.",
  over=["inputs", "configurations"],
  q="all data sets (repeated values, one or many bins, negative values), bin kinds, user bins, slopes alpha and limits",
  why="Tests bin evenly spaced or random smooth data where edge effects do not show.",
  files=["clustertools/util/recipes.py"],
  mech=[("nbinmaker, binmaker, roaming_*, dx_function, x_hist, mean_prof, smooth, interpolate, power_law_distribution_function", "clustertools/util/recipes.py")],
  tech="Hypothesis data sets vs brute-force binning and fits; Kolmogorov-Smirnov distance for samples", note=NOTE + "The tapered fit is checked for bins and bounds only."),
 dict(id="P19", title="Spherical, cylindrical and sky coordinates follow their definitions",
  statement="cart_to_sphere and cart_to_cyl return (r, phi, theta, v_r, v_phi, v_theta) and (R, phi, z, v_R, v_phi, v_z) - projections on the local unit vectors, theta the polar angle - for arrays and scalars, and sphere_to_cart, cyl_to_cart invert them; cart_to_sky gives right ascension, declination, distance, proper motions and radial velocity for the given solar position and motion. sphere_coords, cyl_coords and sky_coords return the same for every star of a cluster in order, from any units and frame, and leave it as it was.",
  over=["inputs", "configurations"],
  q="all phase-space points off the axis, units (AMUSE included), origins (sky included) and solar parameters",
  why="Tests convert a few points with the same formula.",
  files=["clustertools/util/coordinates.py"],
  mech=[("cart_to_sphere, sphere_to_cart, cart_to_cyl, cyl_to_cart, cart_to_sky, sphere_coords, cyl_coords, sky_coords", "clustertools/util/coordinates.py")],
  tech="Hypothesis points and clusters vs unit-vector projections and astropy; round trips", note=NOTE + "Points on the axis are excluded; sky to 1e-3."),
 dict(id="P20", title="Physical results do not depend on the units or frame a cluster is in",
  statement="The same stars written down in any unit system (pckms, kpckms, pcmyr, kpcgyr, WDunits, nbody with G=1, galpy, AMUSE) and in the cluster, centre or galaxy frame give the same physical result from every analysis call - radii, profiles, energies, relaxation times, mass and velocity-dispersion functions - expressed in the cluster's own units of length, velocity, mass, time or density. The package's unit-conversion helpers for those dimensions are exact for every pair of systems.",
  over=["inputs", "configurations"],
  q="all star sets, scales, pairs of unit systems and origins, analysis calls, 3D or projected",
  why="Tests evaluate one unit system against a reference value computed in the same units.",
  files=["clustertools/util/units.py", "clustertools/analysis/functions.py", "clustertools/analysis/profiles.py"],
  mech=[("_convert_length, _convert_velocity, _convert_square_velocity, _convert_time, _convert_mass, _convert_density", "clustertools/util/units.py")],
  tech="Hypothesis clusters written in two frames; metamorphic equality of physical results; helpers vs exact factors", note=NOTE + "N-body scales have G=1 in the metamorphic case; eta_function speeds are those of the current frame; results of non-linear fits (meq, ckin) are left to P15 and P17."),
 dict(id="P21", title="Reading and writing star data keeps every star, value, order and unit",
  statement="snapout, gyrout, fortout and sseout write one row per star, in the cluster's order, with the documented columns in the documented units, and leave cluster and arguments unchanged. load_cluster returns exactly the stars of a file, astropy table, AMUSE particle set or galpy orbit set - values, order and ids exact, single stars included - in the requested units and origin, for any column order, delimiter, header, file name pattern and directory; caller's tables and mappers stay as they were. What is written and read back is the same cluster; a missing file gives an empty one.",
  over=["inputs", "configurations"],
  q="all clusters (units, origins, optional data), output options, column layouts, directories, table column names, AMUSE units and orbit sets",
  why="Tests read a few fixed files in one layout and compare lengths.",
  files=["clustertools/util/output.py", "clustertools/io/snapshot.py", "clustertools/io/gyrfalcon.py", "clustertools/io/load.py", "clustertools/io/astropy_table.py", "clustertools/io/amuse.py", "clustertools/io/galpydf.py"],
  mech=[("snapout, gyrout, fortout, sseout", "clustertools/util/output.py"), ("load_cluster", "clustertools/io/load.py")],
  tech="Hypothesis clusters and files: round trips and independently parsed output vs a reference unit table", note=NOTE + "Ids in text files up to 2^53."),
 dict(id="P22", title="Stepping through a simulation visits every snapshot once, with its own orbit",
  statement="load_cluster followed by advance_cluster returns the snapshots of a series - numbered files from any first number, naming pattern, directory and column layout, continued in cont/, the snapshots in one gyrfalcon/nemo file in either reader, or a user's load function - each once, in order, with exactly its own stars, ids, extra columns and time, in the initial units and origin whatever was done to the previous snapshot, and paired with its own line of the orbit file (in any orbit units and columns) or its own point on a galpy orbit. After the last snapshot an empty cluster is returned.",
  over=["inputs", "histories", "configurations"],
  q="all series of snapshots, first numbers, file layouts, units, origins, orbit files and orbits, and operations between steps",
  why="Tests advance one fixed series once or twice and check counts.",
  files=["clustertools/io/load.py", "clustertools/io/snapshot.py", "clustertools/io/gyrfalcon.py", "clustertools/io/orbit.py"],
  mech=[("load_cluster, advance_cluster", "clustertools/io/load.py"), ("_get_cluster_orbit", "clustertools/io/orbit.py")],
  tech="Hypothesis snapshot series written by an independent writer; model of the series", note=NOTE + "Options documented as needing to be repeated (orbit units, columns, give) are repeated; snapshots evenly spaced in time for new_gyrfalcon."),
 dict(id="P23", title="Orbits are those the cluster and its stars have, in any units and frame",
  statement="add_orbit stores the same physical position, velocity and time whatever the units they are given in and the cluster is in. initialize_orbit(s) make galpy orbits that start where the cluster (or its centre, or each star, or each star about the cluster) is, seen from the Sun with the cluster's or the given solar parameters. interpolate_orbit(s) (and the legacy names) move the cluster - its stars with it - or every star to where the equations of motion in the given potential take them after tfinal, with radii and star order belonging to the new coordinates; orbital_path is the orbit from tfinal ago to tfinal ahead, in Cartesian or sky coordinates. A cluster loaded with a galpy orbit is where that orbit is at its time. Everything is in the cluster's own units, and nothing else about the cluster changes.",
  over=["inputs", "configurations", "histories"],
  q="all orbits, units (AMUSE and sky coordinates included), origins, solar parameters (own and explicit), centres, times of either sign and potentials",
  why="Tests integrate one orbit with galpy itself and compare in one or two unit systems with the default solar parameters.",
  files=["clustertools/analysis/orbits.py", "clustertools/cluster/cluster.py", "clustertools/io/load.py"],
  mech=[("initialize_orbit(s), interpolate_orbit(s), orbital_path", "clustertools/analysis/orbits.py"), ("StarCluster.add_orbit, interpolate_orbit(s)", "clustertools/cluster/cluster.py"), ("_add_galpy_orbit", "clustertools/io/load.py")],
  tech="Hypothesis clusters and orbits vs an independent DOP853 integration with analytic accelerations and astropy's sky transformation", note=NOTE + "Integrations agree to 2e-4 (3e-3 over 12 Gyr). Explicit ro/vo for a cluster in natural units, and interpolate_orbits of sky coordinates about the cluster (unsupported by the package), are left out."),
 dict(id="P24", title="Stars are matched to orbital and tail paths; tail paths average them",
  statement="orbital_path_match gives each star the time of the nearest point of the (given or own) path, the arc length from there to the cluster, and its distance to that point or to the path, signed by the side of the orbital plane; in three dimensions, projected, or on the sky (across right ascension 0 too). tail_path gives the mean positions and velocities of the stars matched within dmax to each stretch of the orbit, in separate or overlapping bins of equal width or number; tail_path_match matches to that path. to_tail is one length- and angle-preserving rotation of all positions and velocities. All in the cluster's units, leaving the cluster as it was.",
  over=["inputs", "configurations"],
  q="all streams, orbits, paths, units (AMUSE and sky coordinates included), origins, solar parameters, bins and options",
  why="Tests put stars on a circular orbit and compare to a 10% tolerance.",
  files=["clustertools/analysis/orbits.py", "clustertools/tidaltail/tails.py", "clustertools/cluster/cluster.py"],
  mech=[("orbital_path_match", "clustertools/analysis/orbits.py"), ("to_tail, tail_path, tail_path_match", "clustertools/tidaltail/tails.py")],
  tech="Hypothesis streams vs brute-force matching to independently integrated paths, and brute-force bin means", note=NOTE + "Stars equidistant from two path points, at dmax or at a bin edge are left out. The sign of projected distances is not specified and not checked. The direction of to_tail is a recorded finding."),
 dict(id="P25", title="NBODY6 and NBODY6++ output is read completely and in order",
  statement="Loading NBODY6 (OUT3, OUT33, fort.82, fort.83) or NBODY6++ (conf.3 with bev.82 and sev.83, or HDF5 snap.40) output gives a cluster in N-body units with one entry per binary - its centre of mass, total mass and first id - followed by the single stars, each with its own mass, position, velocity, id, stellar type, luminosity and radius (binaries: total luminosity, larger radius), every binary's own parameters and components, densities and energies where the files have them, the time, centre and scales of the simulation, and the orbit line of that output. advance_cluster visits every output once, in order, whatever was done to the previous one, through all files, steps, directories and restarts in cont/, keeping the scales, and ends with an empty cluster.",
  over=["inputs", "histories", "configurations"],
  q="all outputs (numbers of stars and binaries, with or without stellar evolution, HDF5 or not), steps between outputs, directories, restarts and operations between steps",
  why="Tests read two sample conf.3 files without binaries or stellar evolution and check little more than array lengths; OUT3, fort.8x, bev/sev and HDF5 output are never read.",
  files=["clustertools/io/nbody6.py", "clustertools/io/nbody6pp.py", "clustertools/io/load.py", "clustertools/cluster/cluster.py"],
  mech=[("_get_nbody6", "clustertools/io/nbody6.py"), ("_get_nbody6pp", "clustertools/io/nbody6pp.py"), ("load_cluster, advance_cluster", "clustertools/io/load.py")],
  tech="Hypothesis-generated simulations written by an independent binary/HDF5 writer; model of the run", note=NOTE + "File layouts are those the package reads (agreeing with its sample conf.3 files); NaN entries of binaries are left out."),
 dict(id="P26", title="Tidal, limiting and core radii are what their definitions say",
  statement="rtidal returns galpy's tidal radius of the (selected) mass at the cluster's - or its centre's, or the given - place in the host, iterated on the stars inside until the requested convergence. rlimiting returns the radius where the cluster's binned density first falls to the host's local density (0 or the outermost bin when it never does). rcore returns the Casertano & Hut density-weighted radius, or where the density first drops to 1/3 (1/2 in projection) of the central value. Results are in the cluster's units in any frame, stored by the methods; caller's masks and the cluster stay as they were.",
  over=["inputs", "configurations"],
  q="all star sets, units (AMUSE included), origins, orbital positions, host potentials, masks, iteration limits, bins, neighbours",
  why="Tests compare one cluster to a loose tolerance.",
  files=["clustertools/analysis/functions.py", "clustertools/cluster/cluster.py"],
  mech=[("rtidal, rlimiting, rcore", "clustertools/analysis/functions.py")],
  tech="Hypothesis clusters vs galpy's rtide/density, reference binning and brute-force neighbours", note=NOTE + "galpy's potentials are the reference for the host; coincident stars and profiles that never drop to the threshold are excluded for rcore."),
 dict(id="P27", title="limepy and Galactic globular cluster models are the stars limepy draws",
  statement="load_cluster('limepy') holds exactly the stars limepy samples for the requested model - a model object, or W0/phi0, g, M, a scale radius (rt, rv, rh/rm, r0/rc), anisotropy or mass components - with the requested number of stars (N, or M/mbar), ids 1..N, units and origin, and the given orbit or orbit file. With gcname, any catalogued name or alias in any case gives the de Boer et al. (2019) model when there is one (unless Harris is asked for), else the Harris (1996) King model, on galpy's orbit of that cluster, in every unit system and origin. c_to_w0 and w0_to_c are monotonic, mutually inverse and agree with King models.",
  over=["inputs", "configurations"],
  q="all models, scalings, numbers of stars, catalogued clusters, names, sources, units, origins and orbits; concentrations for W0 in 0.3-18.5",
  why="Tests load one model and two clusters.",
  files=["clustertools/io/limepydf.py", "clustertools/io/load.py", "clustertools/io/data/deBoer2019.dat", "clustertools/io/data/harris2010.dat"],
  mech=[("_get_limepy, _sample_limepy, _get_cluster, c_to_w0", "clustertools/io/limepydf.py"), ("load_cluster", "clustertools/io/load.py")],
  tech="Hypothesis models and catalogue entries vs limepy.sample (deterministic) and an independent catalogue reader", note=NOTE + "limepy and galpy's orbits are the reference; 14 Harris clusters galpy cannot place offline are left out."),
 dict(id="P28", title="Plots show the numbers that are returned and change nothing",
  statement="With plot=True every analysis, profile, orbit and tail function returns what it returns without, in any units (AMUSE included), frame and option, draws exactly those numbers (profiles as returned, or their documented logarithm; fits with the returned slope; radii at the returned radius where the drawn profile meets the threshold; the tidal radius as a circle about the cluster; stars and paths at their coordinates) labelled with the cluster's length unit, on the current figure when overplotting, and writes a picture to the given file and to no other. starplot and skyplot draw exactly the stars' coordinates (positions, or sky positions or proper motions), the centre, limits and options asked for. The cluster is left as it was.",
  over=["inputs", "configurations"],
  q="all plotting functions, keywords, clusters, units and origins",
  why="Tests run a few plots and check nothing that is drawn.",
  files=["clustertools/util/plots.py", "clustertools/analysis/functions.py", "clustertools/analysis/profiles.py", "clustertools/analysis/orbits.py", "clustertools/tidaltail/tails.py"],
  mech=[("starplot, skyplot, _plot, _lplot", "clustertools/util/plots.py"), ("plot=True branches", "clustertools/analysis/functions.py")],
  tech="Hypothesis clusters and options; matplotlib artists read back and compared to the data and to the results without plotting", note=NOTE + "Orbital and tail paths are drawn in kpc by the path functions, the critical-density profile in pc. ckin has no plot."),
 dict(id="P29", title="Methods of a cluster give and store what the functions give",
  statement="Every analysis, orbit, tail, centre, unit, origin and operation method of StarCluster returns what the function of the same name returns for the same keywords on the same cluster (with projected taken from the cluster where the method's default says so), passes every keyword on, stores the result in the documented attribute (trelax, trh, trc, kin/pot/etot, dclosest, rn, rv, alpha, eta, meq, ck, rc, rt, rl, orbit, orbits, paths, matches, tails, centre, scales, qv, qrot, indx), fails only when the function fails, and leaves the cluster as the function does.",
  over=["inputs", "configurations", "histories"],
  q="all methods, keywords, clusters, units (AMUSE included) and origins; sequences of operations",
  why="Tests call most methods once with default keywords; a dropped or swapped keyword in a wrapper shows in none of them.",
  files=["clustertools/cluster/cluster.py"],
  mech=[("StarCluster analysis methods", "clustertools/cluster/cluster.py")],
  tech="Hypothesis clusters, keywords and operation sequences; differential test of method against function on identical clusters", note=NOTE + "The functions themselves are decided by the other properties."),
]
