"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None, state=None, na=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note,
                  observe=observe, state=state, na=na))


B = "cosmic_profiles/"
BASE = B + "common/cosmic_base_class.pyx"
PR = B + "common/python_routines.py"
DA, DC, DT = B + "dens_profs/dens_profs_algos.pyx", B + "dens_profs/dens_profs_classes.pyx", B + "dens_profs/dens_profs_tools.py"
SA, SC, ST = B + "shape_profs/shape_profs_algos.pyx", B + "shape_profs/shape_profs_classes.pyx", B + "shape_profs/shape_profs_tools.py"
HC = B + "cython_helpers/helper_class.pyx"
CF, CA, CT = B + "common/config.py", B + "common/caching.py", B + "common/cosmo_tools.py"
RF, RG, RS, GC = B + "gadget/read_fof.py", B + "gadget/readgadget.py", B + "gadget/readsnap.py", B + "gadget/gen_catalogues.pyx"
MH = B + "mock_tools/mock_halo_gen.py"

prop("C01", "Result caching behaves as a transparent bounded LRU store under concurrency",
     "For every sequence and every interleaving of calls, cache resets and statistics queries, a cached function returns exactly what the uncached function would return for those arguments (same values, shapes and data types, exceptions included and not stored). A bounded cache never holds more entries than its limit, evicts the least recently used entry first, counts each call once as a hit or a miss, and stays internally consistent (no entry lost, duplicated or unreachable; no deadlock) whichever thread is suspended at whichever point.",
     ["histories", "schedules", "configurations"], "all operation sequences up to a depth over colliding keys for every cache mode (unbounded, disabled, bounded, memory-limited), and all interleavings of 2-3 threads up to a preemption bound",
     "No test calls the cache directly or from two threads; the numerical tests make a handful of calls with distinct arguments.",
     [CA], [("per-mode wrappers with a linked list and a lock", CA + ": lru_cache"), ("array arguments flattened into hashable keys and restored", CA + ": np_cache_factory")],
     "explicit-state search over operation sequences plus preemption-bounded enumeration of all thread interleavings of the real cache under a controlled scheduler, against a reference LRU",
     "All operation sequences to the stated depth and all interleavings to the stated preemption bound, at source-line granularity; trusts the reference LRU and CPython's atomicity of single bytecode lines inside the lock-free fast paths.")

prop("C02", "Queries are pure: no call history changes a later answer",
     "Whatever sequence of other queries (densities, shapes, masses and centres, fits, concentrations, plots, histograms) was made before on the same or on another object built from the same or other data, a query on unchanged data and settings returns the same result as on a freshly built object. No query changes the caller's input arrays or the catalogue it works on.",
     ["histories"], "all sequences up to a depth over an alphabet of public queries with differing selections and settings, on one or two live objects",
     "Tests call each method in one fixed order and never repeat or interleave queries.",
     [BASE, SC, DC, CA], [("no query writes to the object's state", BASE), ("subset catalogues are copies", PR + ": getSubSetIdxCat"), ("cached readers hand out arrays that callers rescale by copying", RF)],
     "exhaustive enumeration of query histories on the real objects, differential against a fresh object",
     "Every history over the alphabet up to the stated depth; values outside the alphabet are not covered.")

prop("C03", "Parallel results do not depend on thread count or scheduling",
     "Densities, shapes, velocity shapes, masses and centres are the same for every number of worker threads and for every way in which the run time hands objects (or radii) to threads and interleaves them.",
     ["schedules", "configurations"], "every assignment of loop iterations to 1..T threads in every order for catalogues of up to 4 objects, and every interleaving of conflicting memory accesses within them",
     "Tests run with whatever schedule the machine happens to produce and do not compare schedules.",
     [DA, SA, GC], [("one scratch row per thread, one output row per object", SA), ("dynamic work sharing over objects", DA)],
     "stateless model checking of the compiled code: an own OpenMP run time enumerates all iteration-to-thread assignments, and instrumented memory accesses decide independence (partial-order reduction)",
     "All schedules at iteration granularity; iterations whose recorded memory accesses do not conflict commute, conflicting ones are interleaved explicitly. LAPACK internals are not instrumented.")

prop("C04", "An object's result depends only on that object's own data",
     "The result reported for an object is the same whichever other objects are in the catalogue or selected with it, in whichever order they are listed and wherever their particles sit in the input arrays; row i of a result belongs to the i-th selected object. Particles that belong to no object never influence a result.",
     ["inputs", "configurations"], "all ordered selections of catalogues of up to 4 objects, all catalogue orders, all particle storage orders of a family, with objects of very different sizes, failed objects and shared particles",
     "Tests always select the same leading objects of one catalogue and never permute anything.",
     [BASE, PR, DA, SA], [("offsets from cumulative object sizes", SA), ("subset extraction", PR + ": getSubSetIdxCat"), ("scratch reuse across objects of different size", SA)],
     "exhaustive enumeration of selections, catalogue permutations and storage permutations on the real code, differential against single-object runs",
     "Every selection and permutation within the stated bound gives bit-close results to the isolated object.")

prop("C05", "Periodic boundaries are invisible",
     "Translating all particles of a periodic box by any vector and wrapping them back leaves masses, density profiles, concentrations and shapes unchanged and moves centres by that vector modulo the box, for objects smaller than half the box. Reported centres always lie inside the box.",
     ["inputs"], "all translations on a lattice of shifts that put an object across every face, edge and corner of the box, for each storage order of its particles, centre definition and quantity",
     "Test objects sit in the middle of the box, so the wrapping code never acts.",
     [PR, HC, DA, SA], [("unwrapping relative to one reference particle", PR + ": respectPBCNoRef"), ("same in compiled code", HC + ": respectPBCNoRef"), ("centres put back into the box", PR + ": recentreObject")],
     "exhaustive enumeration of translations and reference particles on the real code against the unwrapped reference",
     "All shifts of the lattice, all choices of the first particle, both centre definitions; objects must be smaller than half the box.")

prop("C06", "Spherical density profiles account for every particle exactly once",
     "With direct binning, the density in each radial bin is the summed mass of the object's particles whose distance from the object's centre falls in that bin divided by the bin's volume, in the chosen output units; bins are contiguous from the centre to the largest requested radius, with edges halfway between neighbouring radii. So the mass within the last radius is conserved and empty bins are zero.",
     ["inputs", "configurations"], "all placements of up to three particle pairs over the radial slots around every bin edge and all mass assignments of an alphabet, plus catalogues of 1-5 objects with all selections, centre definitions, unit systems and radial grids",
     "Tests only run the estimator on one mock halo and check nothing about its values.",
     [DA, HC, BASE], [("brute-force shell membership", HC + ": calcDensProfBruteForceSph"), ("bin edges", DA + ": calcDensProfsSphDirectBinning"), ("unit conversion of the result", BASE + ": _estDensProfsBase")],
     "bounded exhaustive enumeration of particle placements and configurations on the real code against a reference model",
     "Every placement and configuration of the bound agrees with an independent double-precision reference; numbers within 2e-6 of a bin edge are left open.")

prop("C07", "Ellipsoidal density profiles follow the measured shapes",
     "With ellipsoidal binning, the density in a bin is the mass of the particles between two consecutive ellipsoids divided by the volume between them, where the ellipsoids' semi-axes and orientation are the object's own local shape profile interpolated to the bin edges and bin radii. A bin without particles is undefined (NaN), and requests with fewer than three radii are rejected.",
     ["inputs", "configurations"], "all combinations of object families, shape settings, radial grids, centre definitions, unit systems and selections of a bound",
     "Tests run the estimator without checking any value, and only for one object.",
     [DA, HC, BASE], [("interpolation of shape profiles", DA + ": calcDensProfsEllDirectBinning"), ("principal-frame shell membership", HC + ": calcDensProfBruteForceEll")],
     "bounded exhaustive enumeration of configurations on the real code against a reference model",
     "Agreement with an independent reference on the whole bounded family; bins decided by rounding are left open.")

prop("C08", "Kernel density estimates equal the documented kernel sum",
     "The kernel-based profile at radius r is the mass-weighted sum over the object's particles of the spherically averaged Gaussian kernel with the documented distance-dependent width, at every requested radius independently, in the chosen output units.",
     ["inputs", "configurations"], "all combinations of object families, radial grids (single radii, subsets, permutations), centre definitions, unit systems and selections of a bound",
     "Tests only call the estimator for one halo.",
     [DA, HC], [("kernel", HC + ": calcKTilde"), ("per-object widths and distances", DA + ": calcDensProfsKernelBased")],
     "bounded exhaustive enumeration of configurations on the real code against a reference model",
     "Agreement within the single-precision error bound of the kernel on the whole bounded family.")

prop("C09", "Shape profiles are the fixed point of the documented iteration",
     "For every object and radius, axis ratios and axes are those of the mass-weighted (optionally inverse-square-radius weighted) tensor of the particles inside the ellipsoid or shell that the tensor itself defines, iterated from a sphere until the axis ratios change by less than the tolerance; local and overall shapes follow the same rule. Results that need more iterations than allowed or run below the minimum particle number are reported as not converged with undefined values, never as numbers; converged results satisfy 0 < s <= q <= 1 with orthonormal axes ordered major, intermediate, minor.",
     ["inputs", "configurations"], "all combinations of particle clouds, tolerances, iteration limits, minimum particle numbers, weighting and shell modes, radii, centre definitions and unit systems of a bound",
     "Tests run the algorithm on one mock halo and check no value; failure and limit paths are not reached.",
     [SA, HC, BASE, SC], [("iteration", SA + ": runEllAlgo, runShellAlgo"), ("tensor", HC + ": calcShapeTensor"), ("failure marking", SA + ": calcMorphLocal, calcMorphGlobal")],
     "bounded exhaustive enumeration of clouds and settings on the real code against a reference state machine of the iteration",
     "Every case of the bound follows the reference iteration step for step in its outcome; decisions within 2e-6 of a tie and degenerate (flat) sets are left open.")

prop("C10", "Velocity-dispersion shapes use the particles' velocities",
     "Velocity shapes are obtained by the same iteration as position shapes with the tensor built from the velocities of the selected particles about the object's mean velocity, so they do not change when a constant velocity is added to all particles, and equal the position shapes' selection rule in space. Snapshot velocities are converted to peculiar velocities and to the chosen units.",
     ["inputs", "configurations"], "all combinations of velocity fields, bulk velocities, shape settings, object types and selections of a bound",
     "No test inspects velocity shapes; the global variant was never called successfully.",
     [SA, SC, BASE], [("iteration", SA + ": runEllVDispAlgo, runShellVDispAlgo"), ("velocity scaling", SC + ": DensShapeProfsGadget")],
     "bounded exhaustive enumeration of velocity fields and settings on the real code against the reference iteration",
     "Every case of the bound agrees with the reference; near ties left open.")

prop("C11", "Unit systems convert consistently through any history of changes",
     "After any sequence of accepted and rejected unit-system changes, inputs are interpreted in the last accepted input system and results are expressed in the last accepted output system; dimensionless results do not change, and dimensional ones scale by exactly the ratio of the units (for objects built under the same little h). A rejected change has no effect at all.",
     ["histories", "configurations"], "all sequences up to a depth over accepted and rejected unit changes and object constructions and queries",
     "Tests use one unit system.",
     [CF, BASE, DC, SC], [("unit tables", CF + ": getAdmissibleLMV"), ("update functions", CF + ": updateInUnitSystem, updateOutUnitSystem"), ("conversions at the public boundary", BASE)],
     "explicit-state exploration of all unit-change histories on the real code against a reference model",
     "Every history to the stated depth over the alphabet; states are the reference model's unit settings.")

prop("C12", "A dumped shape catalogue reads back as the shapes that were dumped",
     "After shape catalogues are dumped, the same shape query answers with the dumped values to the written precision, for local, overall and velocity shapes, any number of objects and radii, converged or not; dumps of different kinds, particle types, snapshots and folders do not interfere. Dimensional columns are written in output units.",
     ["histories", "configurations"], "all sequences up to a depth of dumps and queries over kinds, snapshots, selections and radii",
     "Tests dump once and never read back.",
     [BASE, SC], [("writers", BASE + ": _dumpShapeCatLocalBase and siblings"), ("readers", BASE + ": _getShapeCatLocalBase and siblings")],
     "explicit-state exploration of all dump/query histories on the real code and file system against a reference model of the folder",
     "Every history to the stated depth; the catalogue folder is a scratch folder.")

prop("C13", "An interrupted dump never leaves a catalogue that answers wrongly",
     "If writing a shape catalogue stops at any point (crash, full disk, I/O error), later queries either compute the shapes afresh or return a complete catalogue, the previous or the new one; they never return mixed, truncated or partial data, and never fail. A new dump repairs whatever was left.",
     ["crash_points", "fault_sequences", "histories"], "every crash point between two file-system operations and every truncation of a file being written, in first and repeated dumps of each kind",
     "No test interrupts anything.",
     [BASE], [("completion marker written last and renamed into place", BASE + ": saveShapeCat"), ("marker tested before reading", BASE)],
     "exhaustive enumeration of crash points and torn writes of the real dump path",
     "All crash points at file-system-call granularity and all torn prefixes of the stated granularity; assumes rename is atomic and earlier completed writes persist.")

prop("C14", "Catalogue construction and selections admit exactly the valid objects",
     "Exactly the objects with at least the minimum number of particles are kept, in their original order, each with its own particles and overdensity radius. A selection is accepted if and only if it is a non-empty list or array of distinct non-negative integers below the number of kept objects; every query rejects any other selection with a ValueError and without side effects.",
     ["inputs", "configurations"], "all catalogues of up to 5 objects over sizes around the minimum, and all selections up to length 3 over valid, negative, repeated, fractional and too large entries, for every public query",
     "Tests only use valid selections and one minimum.",
     [SC, PR, BASE], [("size filter", SC + ": DensShapeProfs.__init__"), ("selection check", PR + ": isValidSelection")],
     "bounded exhaustive enumeration of catalogues and selections on the real code against a reference predicate",
     "Complete for the stated alphabet and lengths.")

prop("C15", "Halo-finder tables map to the right particles and radii",
     "From a halo-finder catalogue, the objects are exactly the halos that own a central subhalo with at least the minimum number of particles of the chosen type; each object's particles are the central subhalo's run starting at the sum of the sizes of all preceding halos, and its radius is the chosen overdensity radius in internal units. This holds for every distribution of halos over files, every particle type and either radius definition, and for the files as they are when the analysis is built, whatever was read from the same folder before. The printed catalogue information counts the same halos, subhalos and objects.",
     ["inputs", "configurations"], "all tables of up to 4 halos with subhalo counts and sizes around the minimum, all splits over up to 3 files including empty ones, all particle types and radius definitions",
     "Tests read one bundled catalogue.",
     [RF, GC, SC], [("table assembly over files", RF + ": getFoFSHData"), ("object catalogue", GC + ": calcObjCat")],
     "bounded exhaustive enumeration of tables and file splits on the real reader against a reference model",
     "Complete for the stated table sizes and splits.")

prop("C16", "Snapshot reading is independent of file format, layout and precision",
     "The same particle data give the same positions, velocities, masses, identifiers and header values whether stored in binary format I or II of either byte order or in HDF5, in single or double precision, with 32- or 64-bit identifiers, with masses per particle or per type, in one file or split over several with types missing from some, for every requested set of particle types, and whatever was read under the same name before.",
     ["inputs", "configurations"], "all combinations of format, byte order, precision, identifier width, mass convention, type population and split into up to 3 files, for every block and type set",
     "Tests read one bundled HDF5 snapshot.",
     [RG, RS], [("block search", RS + ": find_block"), ("binary block reader", RS + ": read_block"), ("multi-file assembly", RG + ": read_field, read_block")],
     "bounded exhaustive enumeration of file layouts on the real reader, differential against the written data",
     "Complete for the stated layout dimensions with up to 4 particles per type and file.")

prop("C17", "Loading gives the same catalogue on any number of processes",
     "However many processes load a snapshot, and however the files are distributed over them, the leading process ends up with all files' particles once each in file order and answers every query as a single process would; the other processes take part without failing or deadlocking.",
     ["schedules", "configurations"], "all pairs of process counts and file counts up to a bound, with every delivery order of messages",
     "Tests run on one process.",
     [RF, RG, SC, BASE], [("distribution of files over ranks", RF), ("gathering on rank 0", RG)],
     "exhaustive enumeration of (processes, files) configurations and message orders on the real code over a simulated communicator",
     "Complete for the stated counts; the communicator model replaces the MPI library.")

prop("C18", "Density fits honour the data, the model and the fixed parameters",
     "A profile drawn from a supported model is recovered by fitting that model wherever the chosen minimiser converges from the start values, each object independently of the others, with parameters in output units and the concentration equal to the overdensity radius over the fitted scale radius. Parameters the user fixes keep their value, profiles without any usable bin are reported as not converged, unusable bins are ignored, and invalid fit requests are rejected.",
     ["inputs", "configurations"], "all combinations of model, fixed-parameter subset, minimiser, unit system, pattern of empty or undefined bins and object order of a bound",
     "Tests fit one noisy profile per model and check nothing about the result.",
     [DT, BASE, DC], [("objective and start values", DT + ": fitDensProf"), ("fan-out over objects", DT + ": fitDensProfHelper"), ("validation", PR + ": checkDensFitMethod")],
     "bounded exhaustive enumeration of fit configurations on the real code against the generating model",
     "Every configuration of the bound recovers the generating parameters within the minimiser's tolerance.")

prop("C19", "Mock halos and geometry helpers put mass where they say",
     "A mock halo has equal-mass particles whose shell-by-shell numbers reproduce the chosen density model integrated over the chosen ellipsoidal shells, all particles inside their shell, and the requested total resolution up to rounding; the shells are concentric about the origin. Point sets on spheres and ellipsoids lie exactly on the surface, and uniform draws from an ellipsoid or shell lie inside it in the requested number.",
     ["inputs", "configurations"], "all combinations of models, resolutions, shell counts, axis ratios and dimensions of a bound",
     "Tests generate one halo and use it as input only.",
     [MH, PR], [("shell masses", MH + ": genHalo"), ("uniform draws", PR + ": drawUniformFromEllipsoid, drawUniformFromShell")],
     "bounded exhaustive enumeration of generator configurations against analytic shell masses and geometry",
     "Complete for the stated configuration grid; per-point statements are exact, the distribution inside a shell is not tested.")

prop("C20", "Mass bins partition the objects and plots show them all",
     "Splitting objects into mass bins assigns every object to exactly one bin in order of mass with bins of equal size except the last; the profiles and histograms that are plotted for all objects and per bin are the medians and counts over exactly those objects, converged ones where shapes are concerned (at the converged radius next to the one asked for), in the labelled units, and every figure goes to the folder chosen for figures.",
     ["inputs", "configurations"], "all mass patterns (including ties) of up to 6 objects, all numbers of bins, all selections of a bound",
     "Tests only check that plots can be produced.",
     [CT, DT, ST], [("mass split", CT + ": M_split"), ("density plots", DT + ": drawDensProfs"), ("shape plots", ST + ": getShapeProfs")],
     "bounded exhaustive enumeration of mass patterns and bin counts on the real code with a recording plot backend, against a reference partition",
     "Complete for the stated number of objects and bins.")

prop("C21", "Object masses and centres are the object's own",
     "The reported mass of an object is the sum of its particles' masses, and its centre is the mass-weighted mean or the densest point found by the documented shrinking-sphere rule, in output units and inside the box; shape and density profiles use the same centre rule.",
     ["inputs", "configurations"], "all sizes from one particle up to a bound, mass patterns, centre definitions, unit systems and orders of a bound",
     "Tests never look at masses or centres.",
     [DA, PR], [("masses and centres", DA + ": calcMassesCenters"), ("centre rules", PR + ": calcCoM, calcMode")],
     "bounded exhaustive enumeration of catalogues on the real code against a reference model",
     "Complete for the stated sizes and configurations.")

prop("C22", "Snapshots and in-memory arrays give the same answers",
     "Building the analysis from a snapshot and halo-finder catalogue on disk gives the same objects, masses, centres, densities, shapes, fits and concentrations as handing over the same particles, indices and radii as arrays, for every particle type, box and unit system. Arrays give the same answers in whatever memory layout, byte order or number type they are handed over.",
     ["inputs", "configurations"], "all combinations of particle type, file split, unit system, radius definition, centre rule and query of a bound",
     "The two front ends are never compared by tests.",
     [SC, RF, RG, GC], [("snapshot front end", SC + ": DensShapeProfsGadget"), ("array front end", SC + ": DensShapeProfs")],
     "bounded exhaustive enumeration of configurations, differential between the two front ends on the real code",
     "Complete for the stated configurations.")

prop("C23", "Exported helpers compute what their definitions say",
     "Scientific-notation strings are turned into the same number in superscript notation for every mantissa and every exponent of the documented range (-19 to 19); the NFW, Hernquist, Einasto and alpha-beta-gamma density functions equal their definitions for every parameter set and radius, scalar or array, in any order, and leave their parameters alone; particle mass, critical density and virial overdensity follow from box, resolution, redshift and cosmology as defined; equal-scale 3D axes keep their centres and span the largest range; the statistics helpers give the chi-square and Kolmogorov-Smirnov statistics, means, medians, standard errors and modes of their definitions, with no number where there is no data; the box helpers return the same points of the box (next to the first point, or inside the box), centres of mass and the particles within a fraction of R200, and leave their arguments alone.",
     ["inputs", "configurations"], "all mantissas with two decimals and all exponents of the documented range in both letter cases; all combinations of stated parameter values; all combinations and inversions of three axis ranges; all contingency tables, samples and point sets of a bound for the statistics, all arrangements of up to four (five) points on a lattice of the box for the geometry",
     "Tests call each of these with one input or none.",
     [PR, DT, "cosmic_profiles/common/cosmo_tools.py"], [("number formatting", PR + ": eTo10"), ("density models", DT + ": getEinastoProf"), ("cosmology", PR + ": getDelta")],
     "bounded exhaustive enumeration of inputs on the real code against reference definitions",
     "Complete for the stated input alphabet; exponents outside the documented range are not claimed.")

prop("C24", "Settings are validated, spelling-independent and never altered",
     "Shape settings lacking a field or with a non-boolean flag or scalar radii, fit models with an unknown profile, minimiser or parameter, profiles whose number differs from the selection, and catalogues that are not lists or do not match are rejected with an error before any file is written, by every query that takes them. Settings that are equal give equal answers however they are written: list, tuple or array, any float or integer type, any order of keys, or left out where there is a published default. Neither the caller's settings nor the published defaults are ever modified.",
     ["inputs", "configurations"], "all sets of up to two missing or invalid fields and all equivalent spellings of the shape settings, for every query taking them; all subsets of the model parameters for each valid and invalid profile and minimiser; all row counts and numbers of radii of a bound",
     "Tests only pass one valid setting of each kind.",
     [PR, BASE, SC, DC], [("shape settings", PR + ": checkKatzConfig"), ("fit models", PR + ": checkDensFitMethod")],
     "bounded exhaustive enumeration of argument combinations on the real code against a reference validity predicate and a reference spelling",
     "Complete for the stated alphabet of settings; numerical plausibility of valid types is not judged.")


def main():
    done = set(open(os.path.join(V, "lib", "claimed.txt")).read().split())
    reasons = {}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    man = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
           "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/lib/mc.py %s quick" % p["id"], "thorough_cmd": "python3 /verif/lib/mc.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": "fault_enumeration" if p["id"] == "C13" else "model_checking",
                       "level_note": p["note"]} for p in P if p["id"] in done],
           "not_applicable": [{"property": p["id"], "reason": p["na"] or "no check registered yet (work in progress)"} for p in P if p["id"] not in done],
           "notes": "Checks build /repo's working tree into a scratch folder under /tmp and remove it. No hooks in /repo."}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
