# what is enumerated and compared, beyond BOUNDS and ASSUMPTIONS
P = {
"C01": "Every DEM is filled by the Python and the native implementation, in five memory layouts in turn, and compared exactly with a priority flood (Barnes) reference; input unchanged; fill(fill(dem)) = fill(dem). The spaces contain all arrangements of pits, sills and outlets that fit 3x3 ... 5x5 interiors; corridors and serpentines need up to 500 sweep rounds, thin rasters have 70000 columns (counter widths).",
"C02": "The same spaces with fixed increment pairs and the library's own. The reference is the least fixpoint computed by relaxation from the edge (Dijkstra). The strict descent and 'not below the filled surface' clauses are checked on the result.",
"C03": "All surfaces of a 3x3 neighbourhood (only the order and near-ties of eight differences matter to one cell), so the local rule is decided completely for the alphabet; any of the equally steep directions is accepted. Global drainage is checked by walking all paths on the whole chain for every DEM of the C01 spaces.",
"C04": "All forests (acyclic direction rasters) of small grids, counted by walking every path; long paths and fans push counters beyond 2^8, 2^15, 2^16, 2^24 (float32 mantissa).",
"C05": "All forests x label placements; reference walks down to the first label.",
"C06": "All masks and depth rasters; reference flood fill with 8-connectivity; IDs are compared up to renumbering but must be 1..n; filter predicates evaluated by independent lambdas; thresholds hit exactly and nearly.",
"C07": "All sentences up to four comparisons over the atoms, each evaluated on 27 bluespots by an independent recursive descent evaluator; all insertions of foreign tokens/characters at every position must be rejected before anything is executed (monitor: builtins, audit events, a name that records being called).",
"C08": "All basins of small interiors through the real chain (fill, no-flats, directions, labels); pour point cell, coordinates, and every attribute are recalculated.",
"C09": "All forests x placements: node set, junction rules, downstream relation and every vertex of every stream line are recomputed by walking paths. The funnels concentrate many confluences in one raster (three or more interleaved confluences).",
"C10": "All forests of up to 5 nodes x capacities x inputs x orders of adding, all histories of adding nodes and calculating; leaves-first mass balance as reference; large trees for recursion and cost. Tiny volumes (5e-7 m3) have their own alphabet.",
"C11": "All ID rasters x rain patterns (negative, fractional, constant, sparse) x units; direct sums as reference. Nodes already carrying the output attribute included.",
"C12": "All DEMs over elevations on and off bin boundaries, negative, wide apart; direct counting.",
"C13": "All multisets of cell elevations; the exact level for a volume is computed by sorting; monotonicity over the enumerated volumes.",
"C14": "Cellwise max(level - terrain, 0); all combinations of requested outputs.",
"C15": "All arrays of extreme values per type, written and read; GDAL directly as the independent reader/writer.",
"C16": "All small feature sets x formats, all sequences of layer writes into one datasource (a history exploration: after every write every layer is re-read through the library and through OGR).",
"C17": "All label rasters; regions by flood fill; polygons rasterised back by a point-in-polygon test of every cell centre, plus area. All rasters one or two cells wide or high are included.",
"C18": "Differential: native against Python on every state; all toggle histories, after each of which functions must be those of a fresh process.",
"C19": "State space exploration of the process chain. A state is the set of executed steps and the hash of all files; every enabled step is executed from every reachable state, so all topological orders are covered by induction; final states compared with `complete`.",
"C20": "All small DEMs through the `complete` command with cross-checks between all outputs (IDs, areas, mass balance, georeference). Directories that are not empty: all kinds of content, which must be untouched.",
"C21": "Metamorphic: all storage variants of a DEM must give the results of the float32 base variant (scaled where the property says so).",
"C22": "All label rasters x data rasters over small alphabets, all pairs of types; direct statistics as reference.",
"C23": "Crash and fault point enumeration on real commands: write operation number n fails (EIO once / ENOSPC from then on) or the process dies before or halfway in it, for every n; file size limits in steps. Afterwards: exit code 0 implies outputs equal to those of an undisturbed run; earlier files and layers are read back and must be unchanged.",
"C24": "Configuration space exploration: each function and command x each argument x each kind of wrong input, and all pairs. The oracle is simple: refused (exception, non-zero exit) and nothing existing changed. A native out of bounds access shows as a wrong acceptance, a crash or a foreign result.",
"C25": "The tools are executed on every permutation of the features of each layer they read (DEM basins, all funnels of C09, all small forests of C10, all small label rasters), each in one of four disguises (new FIDs, further attributes, left over attributes), and the results per ID compared with those of the original order. The subcommands run the whole chain with each layer (and all layers) rewritten by OGR between the steps in GeoPackage, shapefile, GeoJSON and CSV.",
"C26": "Every direction raster of 2x2, 2x3, 1x5 (all codes, cyclic ones too) gives the upstream cells of every cell; every acyclic raster up to 3x3 (4x4) is traced from every cell, with every placement of up to two labels, and its leaves are accumulated in all orders; each against a definition coded on sets of cells. Edge cells are compared for all shapes up to 9x9. Snakes of up to 9000 cells decide that no depth of recursion limits it.",
"C27": "Two real commands are started as processes under the interposed layer, which stops a process before or after its n-th operation on files and lets the other one go on. For each pair (13 pairs, in both orders, GeoPackage or separate outputs) and each stop the second command runs to its end and the first one goes on; further schedules also stop the second one. After each schedule the exit codes, the integrity of each GeoPackage, all layers and rasters (against those of commands run alone) and the temporary directory are compared. Waiting for locks takes no real time (sleeps are interposed), so the outcome does not depend on the speed of the machine.",
"C28": "About a hundred operations, each with a reference result from a process of its own. Every ordered pair is executed in one process and the second result (and the inputs, and the result of the first, hashed again after the second) compared with the references; then with a switch of the speedups before, between and after. Operations include readers and writers that are used twice, tools processed twice, commands with refused arguments, and ones which overwrite the arrays they were given by an earlier call (so that a result that is shared with a cache or an input is found). Also: array functions called again with the same arrays holding other data, and networks which grow and change between events, compared with new ones.",
"C29": "The chain of C19 is executed from scratch with a mapping of all file and layer names (all of them by one scheme, and one at a time), in 50 places, and from other working directories; the files that appear must be exactly the mapped ones and their contents those of the plain chain. Names that GDAL alone cannot write and read back are left out. Each command is executed with its options in all orders (up to four, otherwise rotations, reversals and exchanges), verbosities at both levels (messages are really produced, in case producing them has an effect), and other spellings of numbers and formats. Environments are tried on real processes for complete and the steps.",
"C30": "For each option of each format there is a probe which looks at the file (sqlite_master, header bytes, side files) and must say 'effect' exactly when the option was given; contents are compared with the plain GeoPackage. Found: -dsco and -lco could not be used at all, and attribute names longer than ten characters lost their values in shapefiles (the default format). Options given repeatedly with different values, and options of layers given for datasources (and the reverse), are compared with GDAL called directly.",
"C31": "The chain is run on a terrain and on its image under each of 24 changes of frame (turns and mirrors of the data, of the georeference, datum, units) and all results compared after the inverse change. All frames are exact in the number types used, so rasters are compared exactly and sums nearly. Terrains are enumerated as in C01 and made tie free by fixed patterns, since between equal neighbours the direction is a choice. Found: terrain below -999 m was flooded.",
"C32": "For each terrain the amounts of rain at which something happens (a bluespot becomes full from its own watershed, or with what flows in) are calculated, and the chain is run on, just below and above each of them, so all regimes of the piecewise linear system are visited; monotonicity is checked between neighbouring amounts. For rain rasters each cell is raised alone. Filters are a chain of thresholds: IDs are matched by cells. Found: with a filter, dropped bluespots counted as capacity of the background, where water then vanished.",
"C33": "Small terrains are run alone and together with others, separated by cells without data, and the windows of the common results compared with those of their own. The large members put the terrains after tens of thousands of others and behind tens of thousands of rows and columns, so narrow IDs, counters and offsets show.",
}
