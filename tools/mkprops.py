"""Writes properties.jsonl (the texts live here)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


A = "malstroem/algorithms/"
p("C01", "Filled DEM is the lowest depressionless surface above the terrain",
  "For every DEM (at least 2x2 cells, finite elevations) filling yields exactly the lowest surface which is nowhere below the DEM and from every cell of which a path of non-increasing elevation through 8-neighbours leads to the raster edge; edge cells keep their elevation. The input DEM is not modified, and filling a filled DEM changes nothing. This holds with the native speedups and without them, for any size, shape and memory layout of the raster.",
  ["inputs", "configurations"], "all DEMs; native speedups on and off; all memory layouts",
  "Tests fill one real 1 km DEM and a handful of small arrays and compare with stored values; whether the sweeps stop too early depends on the order of pits, corridors and outlets in the raster.",
  [A + "fill.py", A + "speedups/_fill.pyx"], [("iterated directional sweeps until no change", A + "fill.py:fill_terrain"), ("native sweep", A + "speedups/_fill.pyx:_fill_terrain")],
  ["return value of malstroem.algorithms.fill.fill_terrain", "output of the filled command"])
p("C02", "No-flats fill descends strictly to the edge by the minimum increments",
  "For every DEM and positive increments the no-flats filled surface is the unique surface with: edge cells equal to the DEM, and every interior cell equal to the maximum of its terrain elevation and the lowest neighbour surface elevation plus the increment (one increment for side neighbours, another for diagonal ones). With the increments the library itself calculates as safe for the DEM, every interior cell therefore has a strictly lower neighbour, and the surface is nowhere below the ordinary filled surface. This holds with and without native speedups; the DEM is not modified.",
  ["inputs", "configurations"], "all DEMs and increments; native speedups on and off",
  "Tests check one DEM for the absence of flat cells; premature termination or wrong diagonal/side increments only show for particular corridor geometries and elevation magnitudes.",
  [A + "fill.py", A + "speedups/_fill.pyx"], [("no-flats sweeps", A + "fill.py:fill_terrain_no_flats"), ("safe increments", A + "fill.py:minimum_safe_short_and_diag")],
  ["return value of fill_terrain_no_flats and minimum_safe_short_and_diag"])
p("C03", "Flow follows the steepest descent and always drains off the raster",
  "Every interior cell is assigned a direction of steepest downward slope among its eight neighbours (diagonal distances count as the square root of two), or 'no direction' exactly when no neighbour is lower; edge cells flow straight off the raster (corners diagonally), or get 'no direction' if outward edge flow is switched off. For the flow directions calculated from any DEM, every cell's flow path therefore leaves the raster without visiting a cell twice, and inside a depression it never climbs above the water surface of the filled DEM. This holds with and without native speedups.",
  ["inputs", "configurations"], "all elevation surfaces and all DEMs; native speedups on and off",
  "Tests compare flow directions of one DEM with a stored raster; global acyclicity is a property of the whole surface for each of infinitely many surfaces.",
  [A + "flow.py", A + "speedups/_flow.pyx", "malstroem/dem.py", "malstroem/scripts/dem.py"],
  [("D8 choice", A + "flow.py:terrain_flowdirection"), ("outward edges", A + "flow.py:set_edges_flow_outward"), ("no-flats fill before D8", "malstroem/dem.py:DemTool.process")],
  ["flow direction array/raster (up=0 clockwise to up-left=7, none=8)"])
p("C04", "Accumulated flow counts exactly the upstream cells",
  "For every acyclic flow direction raster the accumulated flow of a cell is the number of cells whose flow path passes through it, the cell itself included; in particular the values of all cells where flow leaves the raster or stops add up to the number of cells. Flow paths may be arbitrarily long and may end in cells without direction. This holds with and without native speedups, and the flow directions are not modified.",
  ["inputs", "configurations"], "all acyclic flow direction rasters, including inward flowing edges and cells without direction",
  "Tests use one DEM's flow directions, where edges flow outward and every cell has a direction; order-of-resolution errors need particular confluences.",
  [A + "flow.py", A + "speedups/_flow.pyx"], [("trace from leaves until an unresolved confluence", A + "flow.py:accumulated_flow")],
  ["return value of accumulated_flow", "output of the accum command", "accum.tif of complete"])
p("C05", "Watershed of a cell is the first bluespot met downstream",
  "After watershed assignment every cell that carried a label still carries it, and every unlabelled cell which drains off the raster carries the label of the first labelled cell on its flow path, or stays unlabelled when there is none. This holds for every placement of labels, every integer label type and every value chosen to mean 'unlabelled', with and without native speedups. The flow directions are not modified.",
  ["inputs", "configurations"], "all flow forests draining off the raster and all label placements; label data types; unassigned values; speedups on/off",
  "Tests check one bluespot raster and a few hand made arrays; the result depends on the interleaving of labels along flow paths.",
  [A + "flow.py", A + "speedups/_flow.pyx", "malstroem/bluespots.py", "malstroem/scripts/bluespot.py"],
  [("upstream walk from every edge cell with an explicit stack", A + "flow.py:watersheds_from_labels")],
  ["label array after watersheds_from_labels", "output of the wsheds command", "watersheds.tif"])
p("C06", "Bluespots are the 8-connected wet areas, numbered 1..n, filtered as a whole",
  "Two cells get the same bluespot ID if and only if both have non-zero depth and are joined by a chain of 8-neighbouring cells with non-zero depth; cells with zero depth get ID 0 and the IDs are exactly 1..n. Filtering removes exactly the bluespots whose own area, maximum depth and volume fail the filter, leaves the cells of all others unchanged and renumbers them 1..m. The statistics used by the filter are those of the complete bluespot: cell count times cell area, largest depth, and sum of depths times cell area.",
  ["inputs", "configurations"], "all depth rasters, all filters, all cell sizes",
  "Tests label one raster and one 4-label array; connectivity and keep/drop errors depend on the exact arrangement of regions.",
  [A + "label.py", "malstroem/bluespots.py", "malstroem/scripts/bluespot.py"],
  [("connected components", A + "label.py:connected_components"), ("keep/drop", A + "label.py:keep_labels, malstroem/bluespots.py:filterbluespots")],
  ["bluespots raster of bspots/complete/BluespotTool"])
p("C07", "Filter expressions mean what they say and nothing else is ever executed",
  "A filter made of the words area, maxdepth and volume, unsigned decimal numbers, comparison operators, parentheses and the operators and/or evaluates with the usual precedence (comparisons before and, and before or) on the bluespot's area, maximum depth and volume; no filter keeps everything. Any expression containing anything else - other words, arithmetic or logical operator characters, brackets, quotes, function names, assignment of names - is rejected with an error before any of it is evaluated.",
  ["inputs", "programs"], "all expressions of the filter language up to a bounded number of tokens, and all expressions with one foreign token",
  "Tests use a single filter. The expression is rewritten textually and handed to an evaluator, so any slip changes the meaning of, or opens, the language for particular combinations only.",
  ["malstroem/scripts/_utils.py", "malstroem/bluespots.py"], [("whitelist of words and characters", "malstroem/scripts/_utils.py:check_filter"), ("translation", "malstroem/scripts/_utils.py:parse_filter")],
  ["malstroem.scripts._utils.parse_filter", "-filter option of bspots and complete"])
p("C08", "Each bluespot has one pour point: its outlet, rightly placed and described",
  "Exactly one pour point is produced for the background and for each bluespot, in the order of their IDs 0..n, located on a cell of that bluespot and at the world coordinates of that cell's centre; it is the cell of lowest no-flats surface, or of largest accumulated flow if accumulated flow is used, and the flow from it leaves the bluespot at once. Its attributes are the bluespot's largest depth, area, volume, local watershed area and the millimetres of rain on that watershed that fill it (1000 x volume / watershed area), in the units of the raster's cell size; those of the background are without depth and volume, also where the filter drops bluespots.",
  ["inputs", "configurations"], "all DEMs, both pour point methods, all cell sizes, origins and raster orientations",
  "Tests check the number of pour points and a few attributes of one DEM.",
  ["malstroem/bluespots.py", A + "label.py", A + "speedups/_label.pyx", "malstroem/vector.py", "malstroem/scripts/bluespot.py"],
  [("zonal arg-min / arg-max", A + "label.py:label_min_index, label_max_index"), ("attribute assembly", "malstroem/bluespots.py:assemble_pourpoints")],
  ["pourpoints layer of pourpts/complete/BluespotTool"])
p("C09", "The stream network is a forest that follows the flow directions",
  "Every pour point becomes one node; its downstream neighbours lead, through junction nodes only, to the next other bluespot met along its flow path, or to nowhere if the path leaves the raster first. Node ids are unique, junction ids are larger than every bluespot ID, junction nodes have at least two inflows, no bluespot, no volume and no area, and following downstream ids never cycles. Each node's stream line starts in its own cell, moves to the flow-direction neighbour at every step and ends in the downstream node's cell (or in the first cell of the downstream bluespot, or the last cell in the raster), and no two stream lines share a step of the flow path.",
  ["inputs"], "all flow forests, label placements and pour points up to the bounds; streams with more than a thousand successive junctions",
  "Tests build the network of one DEM and two hand made cases; the insertion of junctions works recursively on groups of common flow, where errors need three or more interleaved confluences or very long streams.",
  [A + "net.py", "malstroem/streams.py", "malstroem/vector.py"],
  [("trace to next label", A + "net.py:next_downstream_label"), ("junction insertion", A + "net.py:_untangle")],
  ["nodes and streams layers of network/complete/StreamTool", "geometric_pourpoint_network"])
p("C10", "Final state conserves water: fill up to capacity, spill the rest downstream",
  "In the final state every node holds exactly min(own input + spill from its direct upstream nodes, capacity) and spills exactly the surplus, and its fill percentage is 100 x volume / capacity (undefined for zero capacity). Hence input equals stored volume plus what spills from nodes without downstream node, whatever the order in which the nodes are given, the shape of the network or the length of a stream. Calculating again on the same network, with the same or another volume attribute, gives the same result as calculating on a fresh one.",
  ["inputs", "histories"], "all forests of nodes up to the bound with all volume/capacity combinations, all insertion orders, all sequences of repeated events; chains of many thousand nodes",
  "Tests only run the calculation on one network and check that values exist.",
  ["malstroem/network.py", "malstroem/scripts/finalstate.py"], [("leaf-to-root accumulation", "malstroem/network.py:Network"), ("attribute copying", "malstroem/network.py:FinalStateCalculator")],
  ["finalvolumes/finalstate layer (spillv, v, pctv)", "Network.rain_event"],
  [("event values", "per node spill, volume, percentage of the current event", "malstroem/network.py:Network")])
p("C11", "Initial volumes: rain times watershed area, or the sum of the rain raster per ID",
  "With evenly distributed rain every node's initial volume is millimetres / 1000 x its local watershed area, so volumes add up to rain on the whole raster. With a rain raster it is the sum of the raster over all cells carrying the node's ID in the ID raster supplied, converted to cubic metres by the stated unit (mm: / 1000 x cell area, l: / 1000, m3: as is), and a uniform rain raster used as documented gives the volumes of evenly distributed rain. Junctions get 0, every node is kept with all its attributes, and the volume is written to the requested attribute.",
  ["inputs", "configurations"], "all node sets, rain rasters of all data types, ID rasters, units, cell sizes",
  "Tests check only signs and the ratio of units on one raster.",
  ["malstroem/rain.py", "malstroem/scripts/initvolume.py", A + "label.py"], [("watershed area scaling", "malstroem/rain.py:SimpleVolumeTool"), ("zonal sum", "malstroem/rain.py:RasterVolumeTool")],
  ["initvolumes layer"])
p("C12", "Hypsometry counts every bluespot cell exactly once between true bounds",
  "For every bluespot, DEM and bin width the histogram has one count per bin of that width, its bounds contain the bluespot's true lowest and highest terrain elevation (also when negative or exactly on a bin boundary), its counts add up to the bluespot's number of cells, and every cell is counted in the bin its elevation lies in. Lowest and highest elevation are those of the terrain, and everything survives writing to and reading back from the output layer unchanged; the pour point attributes are passed through.",
  ["inputs", "configurations"], "all bluespot shapes, elevations (sign, magnitude, data type), bin widths, output formats",
  "Tests use positive elevations of one DEM.",
  ["malstroem/hyps.py", "malstroem/scripts/hyps.py"], [("bin bounds", "malstroem/hyps.py:histogram_bins"), ("collection of cell values per label", A + "label.py:label_data")],
  ["hyps layer (hist_counts, hist_num_bins, hist_lower_bound, hist_upper_bound, hist_resolution, zmin, zmax)"])
p("C13", "Approximate water level follows the volume within the histogram resolution",
  "For every bluespot the approximate level is the terrain minimum when empty, the full level when full, never decreases when the volume increases, and differs from the exact level at which the bluespot's cells hold the volume by at most twice the histogram bin width (plus 0.01% of the full depth). The reported maximum depth is the level minus the lowest terrain elevation, and levels are reported for every pour point node and for no junction.",
  ["inputs"], "all small bluespot hypsometries, all volumes on a lattice from empty to full, bin widths finer and coarser than the relief",
  "Tests evaluate a few volumes of two bluespots.",
  ["malstroem/approx.py", "malstroem/scripts/finalstate.py"], [("interpolation in cumulative bin volumes", "malstroem/approx.py:approx_water_level_io")],
  ["finallevels layer (approx_z, approx_dmax)"])
p("C14", "Final depth and extent rasters are exactly the water above the terrain",
  "In the final depths raster each cell of a bluespot holds its water level minus terrain elevation where that is positive and 0 otherwise, and every other cell holds 0. In the final bluespots raster a cell keeps its bluespot ID exactly where the water level is not below the terrain, and is 0 elsewhere. Whichever of the two rasters is requested, the values are the same, and the input rasters are left unmodified.",
  ["inputs", "configurations"], "all label rasters, DEMs and water levels up to the bound; each choice of outputs",
  "Tests check one DEM for plausibility.",
  ["malstroem/approx.py", A + "label.py"], [("label to level lookup, clipping", "malstroem/approx.py:approx_bluespots_io, approx_bluespots")],
  ["finaldepths / finalbluespots rasters"])
p("C15", "Raster files round-trip values, georeference and nodata exactly",
  "An array of any supported number type, written to a raster file and read back, has identical values, shape and - for the types GDAL knows directly - data type, whatever its size, memory layout and values; other integer types are stored in a type that holds all values, never a truncated one. Geotransform, coordinate reference system and nodata value are preserved. On reading, if and only if substitution is requested, exactly the cells equal to the file's nodata value (zero and NaN included) are replaced by the substitute, also in unsigned rasters, and all other cells are unchanged.",
  ["inputs", "configurations"], "all dtypes, shapes around the tile size, extreme values, nodata values and substitutes",
  "Tests write one float array with one nodata value.",
  ["malstroem/io.py"], [("type selection", "malstroem/io.py:RasterWriter.write"), ("nodata masking", "malstroem/io.py:RasterReader.read")],
  ["files written by RasterWriter", "arrays returned by RasterReader.read"])
p("C16", "Vector layers round-trip and never disturb other layers",
  "Features written to a layer are read back in the same order with the same geometry and attribute values (nulls included), in every supported format up to that format's number precision; attributes which occur in only some features, empty feature sets, any number of features and missing coordinate systems included. Writing another layer into an existing multi-layer datasource leaves every layer already there byte-for-byte readable as before, in whatever order layers are written; a reader can be read repeatedly with the same result.",
  ["inputs", "histories"], "all sequences of layer writes and reads up to the bound; feature sets; formats",
  "Tests write one layer once.",
  ["malstroem/io.py"], [("open-or-create datasource, transaction per layer", "malstroem/io.py:VectorWriter"), ("reading", "malstroem/io.py:VectorReader")],
  ["layers written by VectorWriter and read by VectorReader or any OGR client"],
  [("datasource", "set of layers with features", "OGR file")])
p("C17", "Polygons cover exactly the labelled cells, one per connected region",
  "Polygonising an ID raster yields exactly one polygon for each 8-connected region of cells sharing an ID, carrying that ID, covering exactly the area of the region's cells in world coordinates (holes left out) and nothing of the nodata background. Area sums, coordinate system and requested layer are right, and layers already in the output datasource stay intact.",
  ["inputs", "configurations"], "all ID rasters up to the bound, all geotransforms",
  "Tests polygonise one raster and count features.",
  ["malstroem/vector.py", "malstroem/scripts/bluespot.py"], [("GDAL polygonize with 8-connectedness and nodata mask", "malstroem/vector.py:vectorize_labels_file, vectorize_labels_file_io")],
  ["bluespots/watersheds/finalbluespots layers", "output of polys"])
p("C18", "Native speedups are transparent and can be toggled at any time",
  "Every accelerated operation returns the same values with the speedups enabled and disabled, for all number types and memory layouts both versions accept (where two flow directions are equally steep, either may be picked). After any sequence of enabling and disabling, repeated or not, the state reported is the state requested last, and the results are the same as in a fresh process; disabling completely restores the original functions.",
  ["inputs", "histories", "configurations"], "all toggle sequences up to the bound x all operations x small inputs",
  "Tests compare the versions of a few functions on one DEM and never toggle more than once.",
  [A + "speedups/__init__.py", A + "speedups/_fill.pyx", A + "speedups/_flow.pyx", A + "speedups/_label.pyx"],
  [("function replacement", A + "speedups/__init__.py:enable, disable")], ["results of fill, flow and label functions", "speedups.enabled"],
  [("enabled", "whether native versions are installed", A + "speedups/__init__.py")])
p("C19", "Step by step subcommands give the result of complete, in any order",
  "Running the individual subcommands on a DEM, in any order their inputs allow, produces the same rasters and layers (values, not file names) as the complete command with the same options, whichever of the optional steps are included. Input files are never modified by any command, repeating a step with a new output gives the same output again, and several rain scenarios calculated from one network, in any order, do not influence each other.",
  ["histories", "inputs"], "all dependency-respecting orders of subcommands, repeated steps, scenario interleavings, small DEMs",
  "Tests run each subcommand once on stored intermediate files.",
  ["malstroem/scripts/cli.py", "malstroem/scripts/complete.py", "malstroem/scripts/dem.py", "malstroem/scripts/bluespot.py", "malstroem/scripts/stream.py", "malstroem/scripts/initvolume.py", "malstroem/scripts/finalstate.py", "malstroem/scripts/hyps.py"],
  [("subcommands exchanging files", "malstroem/scripts")], ["output files of all commands"])
p("C20", "complete gives a consistent, water-conserving result for every DEM",
  "For every DEM, rain, filter and option combination complete exits successfully with all promised rasters and layers, which agree with each other: rasters share size and georeference, IDs match between rasters and layers, watershed areas add up to the raster area, depths equal filled minus DEM, and rain on the raster equals the volumes stored plus the volume spilled off the raster. It refuses an output directory which is not empty with an error, and then leaves everything in it untouched.",
  ["inputs", "configurations"], "all option combinations x a catalogue of DEMs including DEMs without bluespots and filters which remove everything",
  "Tests run one DEM with two filters and look at the existence of files.",
  ["malstroem/scripts/complete.py", "malstroem/dem.py", "malstroem/bluespots.py", "malstroem/streams.py", "malstroem/rain.py", "malstroem/network.py", "malstroem/approx.py"],
  [("pipeline of tools", "malstroem/scripts/complete.py:process_all")], ["contents of the output directory, exit code"])
p("C21", "Results depend on the elevations, not on how the DEM file stores them",
  "The same elevations stored with another number type, with nodata cells coded by another value (which count as -999), in another tiling, with or without coordinate system, or with the raster shifted in the world, give the same filled DEM, depths, flow directions, bluespots, watersheds, pour points (shifted accordingly) and volumes; scaling the cell size scales areas and volumes and nothing else.",
  ["inputs", "configurations"], "a catalogue of DEMs x all storage types, nodata codings, georeferences and cell sizes, via complete and via the subcommands",
  "Tests only use a float32 DEM with one nodata value and one coordinate system.",
  ["malstroem/io.py", "malstroem/dem.py", "malstroem/scripts/dem.py", "malstroem/scripts/bluespot.py", "malstroem/bluespots.py"],
  [("nodata substitution", "malstroem/io.py:RasterReader.read"), ("cast to the DEM type", "malstroem/dem.py:DemTool.process")], ["outputs of all commands"])
p("C22", "Zonal statistics are exact for every label",
  "For every label from 0 to the largest, zonal statistics report the number of cells, minimum, maximum and sum of the data over exactly the cells with that label; the arg-minimum and arg-maximum are a cell of that label holding that extreme value; collected data are exactly the values of the cells of each label, the background excluded; counts and label-to-value mapping address the right label. This holds for every combination of data type and label type (integers except uint64, which is rejected with an error), any number of labels, labels without cells, and with or without native speedups; inputs are not modified.",
  ["inputs", "configurations"], "all label/value arrays up to the bound, all dtype pairs, more than 65536 labels, empty labels",
  "Tests cover two dtype pairs on one raster.",
  [A + "label.py", A + "speedups/_label.pyx"], [("single pass over cells", A + "label.py:label_stats, label_min_index, label_max_index, label_data, label_count, set_label_to_value")],
  ["return values of the label functions"])
p("C23", "A failing write is reported, never passed off as success",
  "If an output cannot be written completely - the disk gets full at any byte, or any write operation fails at any point - the command ends with an error and a non-zero exit code; if it exits with 0 its outputs are complete and readable. Likewise a tool of the library raises when one of its readers or writers does. In every case, and also when the process is killed at any point, input files and layers and files written by earlier commands stay readable and unchanged.",
  ["fault_sequences", "crash_points"], "every single failing write operation, disk full from every write operation on, every file size limit (in steps) and a crash before and in the middle of every write operation, for each command",
  "Tests never let an operation fail.",
  ["malstroem/io.py", "malstroem/vector.py", "malstroem/scripts"], [("GDAL exceptions enabled", "malstroem/io.py: gdal.UseExceptions"), ("written files are flushed and checked", "malstroem/io.py:RasterWriter.write, VectorWriter.close")], ["exit code, output files, input files"])
p("C24", "Inputs which are missing or do not fit together are refused",
  "A library function or tool given rasters of different dimensions (as data and labels, DEM and flow directions, bluespots and depths, labels and rain, ...) raises an error, with and without native speedups, and writes no output. A command given an input raster, datasource or layer which is missing, unreadable, damaged or of the wrong kind, rasters of different dimensions, cells which are not square (complete) or of different size in two rasters (hyps), a layer without the attributes it needs, an illegal filter or number, or which misses a required option, exits with a non-zero code. A refused call leaves every file and layer that existed before unchanged. Zero rain is a legal amount of rain.",
  ["inputs", "configurations"], "every command x every input argument x every way of being wrong; all pairs of wrong arguments; all pairs of different raster shapes for each function",
  "Tests only give inputs which fit.",
  ["malstroem/scripts", "malstroem/io.py", A + "label.py", A + "flow.py", A + "net.py", "malstroem/approx.py", A + "_raster_utils.py"],
  [("dimension checks", A + "_raster_utils.py:check_same_shape, malstroem/hyps.py, malstroem/rain.py"), ("readers open their file on construction", "malstroem/io.py:RasterReader, VectorReader")],
  ["exceptions", "exit codes", "files and layers which existed before"])
p("C25", "Results do not depend on the order of the features in a layer",
  "Every tool which reads a layer (pour points, nodes, initial volumes, final volumes, hypsometry, levels) uses what its features say: with the features in any order, with other FIDs, with further attributes, or with left over attributes of the names the tool itself writes, each bluespot, node and stream gets the same results (in any order; junctions, which have no ID of their own, may be numbered differently). IDs are those in the features.",
  ["inputs", "histories"], "every order of the features of each layer (all permutations of few, rotations, reversals and exchanges of many) x disguise of the features, for DEM families, stream networks and label rasters, in all of the process chain",
  "Tests use layers as the tools wrote them; users sort, edit and convert them between steps.",
  ["malstroem/streams.py", A + "net.py", "malstroem/network.py", "malstroem/rain.py", "malstroem/hyps.py", "malstroem/approx.py", "malstroem/io.py"],
  [("indexes by ID", "malstroem/streams.py:StreamTool.process, malstroem/hyps.py:bluespot_hypsometry_io, malstroem/approx.py, malstroem/network.py:FinalStateCalculator"), ("pour point IDs", A + "net.py:_pourpoint_enumerator")],
  ["features and rasters written by each tool and command"])
p("C26", "Flow is followed downstream and upstream without losing or adding a cell",
  "For any raster of flow directions (0..7 clockwise from up, 8 no flow, any integer type) the neighbour in a direction is the one the codes define; the cells directly upstream of a cell are exactly its neighbours which point to it, cells outside the raster never included. Tracing downstream from a cell gives each cell of its flow path once and in order, down to the cell without flow or the raster edge; tracing to the next label gives the label of the first labelled cell on the path after leaving the starting cell's own label, or none. Assigning the watershed upstream of a cell gives each background cell whose flow passes it the first label its flow reaches, and changes nothing else. Adding the accumulated flow of the leaves one by one gives the accumulated flow of the whole raster in whatever order. Edge cells are exactly the cells at the raster edge, each once. Inputs are not modified, paths may be longer than any recursion limit.",
  ["inputs", "histories"], "all direction rasters of small shapes (cyclic ones for neighbours), all start cells, label placements and orders of leaves; all raster shapes up to a size",
  "Tests follow a few paths of one raster.",
  [A + "flow.py", A + "_raster_utils.py", A + "net.py"],
  [("neighbours and tracing", A + "flow.py:upstream_cells, trace_downstream, assign_watersheds_upstream, trace_accumulated_flow"), ("raster edge", A + "_raster_utils.py:edge_cell_indexes")],
  ["return values", "label and accumulation rasters"])
p("C27", "Commands running at the same time do not disturb each other",
  "When two commands which do not need each other's output run at the same time, with the same working and temporary directory, and write to the same GeoPackage or to files of their own, then whatever the schedule: a command which exits with 0 has produced the same output as if it had run alone; every layer and file which existed before is unchanged and readable; at least one of them succeeds, and both do if they write different files; neither crashes nor hangs nor leaves temporary files. A datasource which is locked by another process is never replaced.",
  ["schedules", "histories"], "pairs of commands x points at which the first is stopped x (the second running to its end or to one of its points) x one GeoPackage or separate files",
  "Tests run one command at a time.",
  ["malstroem/io.py", "malstroem/vector.py", "malstroem/scripts"],
  [("datasource opened or created", "malstroem/io.py:open_or_create_datasource"), ("temporary files", "malstroem/io.py:VectorWriter.write_geojson_features"), ("transactions", "malstroem/io.py:VectorWriter")],
  ["exit codes", "all files and layers after both commands"])
p("C28", "A call gives the same result whatever was called before it",
  "Every operation - a library function, a tool object (new or used again), a reader, a writer, a command, with or without native speedups, one that fails or is refused - gives the same results after any history of other operations in the same process as it gives in a fresh process, and switching speedups on or off in between changes nothing. It leaves its inputs (arrays, feature lists, files and layers it reads) unchanged, and results that were returned earlier are not changed by later calls.",
  ["histories", "inputs"], "all ordered pairs (thorough: triples of a core) of about a hundred operations in one process, with a toggle of the speedups at each position; one tour of all operations",
  "Tests call each function once in a given order.",
  [A + "fill.py", A + "flow.py", A + "label.py", A + "net.py", A + "speedups/__init__.py", "malstroem"],
  [("process wide state", A + "speedups/__init__.py:enable, disable"), ("objects that keep state", "malstroem/network.py, malstroem/streams.py, malstroem/io.py, malstroem/dem.py"), ("arrays handed on", A + "label.py, malstroem/approx.py, malstroem/hyps.py")],
  ["return values", "files", "input arrays and files"])
p("C29", "Names, places, option order and environment do not influence results",
  "Every command gives the same results whatever files, directories and layers are called (any name GDAL itself can write: blanks, quotes, dots, other alphabets, words and marks with a meaning elsewhere) and wherever they are (relative, absolute, through links, in other directories, any working directory), in whatever order its options are given, however numbers are spelled, whatever verbosity, and whatever the hash seed, locale, temporary and home directory, umask, optimization level and standard streams of the process are. Only the named outputs are written, nothing is left in the temporary directory.",
  ["inputs", "configurations"], "all names, places, orders of options and environments of bounded alphabets x the whole process chain, all at once and one at a time",
  "Tests use plain names in temporary directories and one environment.",
  ["malstroem/scripts", "malstroem/io.py", "malstroem/vector.py"],
  [("paths and layer names handed to GDAL", "malstroem/io.py:RasterReader, RasterWriter, VectorReader, VectorWriter, malstroem/vector.py:vectorize_labels_file_io"), ("output directory", "malstroem/scripts/complete.py"), ("options", "malstroem/scripts")],
  ["exit codes", "all files and layers written"])
p("C30", "Commands honour the output format and creation options they are given",
  "Each command which writes vector data writes the same features and attribute values in whichever format is asked for (as file, directory or layer in an existing datasource; up to what the format can hold), and each layer and datasource creation option (lco, dsco) given has its documented effect (of repeated ones, that which GDAL uses) and none that is not given has. Left out options have their documented defaults: the documented chain of commands gives the same results with formats and layer names left out. Initial volumes are found under the attribute name given to initvolumes and finalvolumes, and several amounts in one layer do not mix.",
  ["inputs", "configurations"], "commands x formats x subsets and orders of creation options; subsets of left out options of the chain; pairs of attribute names",
  "Tests write two formats without options.",
  ["malstroem/scripts", "malstroem/io.py", "malstroem/vector.py", "malstroem/rain.py", "malstroem/network.py"],
  [("options handed to writers", "malstroem/scripts/bluespot.py, stream.py, hyps.py, initvolume.py, finalstate.py"), ("creation of datasources and layers", "malstroem/io.py:VectorWriter, malstroem/vector.py:vectorize_labels_file_io")],
  ["files, tables and metadata of the outputs", "features"])
p("C31", "Turning, mirroring, raising or rescaling the terrain does so to the results",
  "malstroem knows no direction, datum or unit. For every terrain without ties (no two cells of the same elevation, no two bluespots with the same spill level), running the whole chain (as tools in memory or as commands) on the terrain turned by a multiple of 90 degrees or mirrored, raised or lowered by a constant, with elevations in another unit, with cells of another size, or placed elsewhere on the map (also south up or east to left) gives the same bluespots, watersheds, network, histograms, water volumes, levels and depths up to that change: rasters turn, elevations and levels are raised, heights (depths, millimetres of rain, resolution of the histogram) and lengths scale, IDs may be renumbered. Splitting each cell into equal smaller cells changes no lake, volume, depth or level.",
  ["inputs", "configurations"], "terrains without ties x the eight turns and mirrors, shifts, units, cell sizes, places; filters, both pour point methods, rain as number and raster, speedups on and off",
  "Tests run one terrain in one place, in metres above zero, north up. An error in one of eight directions, at elevations below zero or in one sign of the geotransform shows on another orientation only.",
  ["malstroem/algorithms", "malstroem/bluespots.py", "malstroem/streams.py", "malstroem/network.py", "malstroem/hyps.py", "malstroem/approx.py", "malstroem/io.py"],
  [("the directional sweeps and neighbour lists", A + "fill.py, flow.py, label.py, net.py and speedups"), ("cell area and coordinates", "malstroem/bluespots.py:assemble_pourpoints, malstroem/streams.py, malstroem/io.py"), ("levels and depths", "malstroem/hyps.py, malstroem/approx.py")],
  ["all rasters and layers of the chain"])
p("C32", "More rain, or fewer bluespots to hold it, never means less water anywhere",
  "For every terrain: raising the amount of rain, be it everywhere (mm) or on some cells of a rain raster, never lowers the initial or final volume, the spilled volume, the fraction filled, the water level, the depth or the extent of any bluespot, nor the flow through any junction and out of the terrain; no bluespot ever holds more than its capacity, it spills only when it is full, and all rain is either held in a bluespot or leaves the terrain. With enough rain every bluespot is full to its spill level and the final depths are the bluespot depths. With a stricter filter the remaining bluespots are the same ones, of the same size, and hold no less, spill no less in total, and bluespots which are dropped hold nothing; without rain all is dry.",
  ["inputs", "histories"], "terrains x ladders of rain amounts on both sides of each filling amount; rain rasters x each cell raised; chains of filters from loose to strict",
  "Tests calculate one rain amount on one DEM and do not compare runs; the thresholds at which bluespots become full lie between tested amounts.",
  ["malstroem/rain.py", "malstroem/network.py", "malstroem/approx.py", "malstroem/bluespots.py", "malstroem/hyps.py"],
  [("initial volumes", "malstroem/rain.py:SimpleVolumeTool, RasterVolumeTool"), ("spill", "malstroem/network.py:Network.rain_event, FinalStateCalculator"), ("water levels", "malstroem/approx.py:approx_water_level"), ("filter, capacities", "malstroem/bluespots.py:filterbluespots, assemble_pourpoints")],
  ["nodes of finalvolumes, finallevels, final depths and extent"])
p("C33", "What happens in one place does not depend on terrain elsewhere",
  "Wherever terrains share nothing but the raster (they are separated by cells without data, across which no water flows between them) each gives in the common raster the same filled terrain, bluespots, watersheds, network, volumes, levels and depths as in a raster of its own, up to renumbering and position. This holds for any number of terrains and wherever they are: at the far end of rasters with very many rows or columns, after many thousand other bluespots, on any side.",
  ["inputs", "configurations"], "pairs and larger sets of terrains x arrangements; up to tens of thousands of bluespots, rows and columns; filters, both pour point methods, speedups on and off",
  "Tests have rasters of some hundred cells to one thousand a side with some hundred bluespots; IDs, offsets and counters become large only elsewhere.",
  ["malstroem/algorithms", "malstroem/bluespots.py", "malstroem/streams.py", "malstroem/network.py", "malstroem/hyps.py", "malstroem/approx.py", "malstroem/rain.py"],
  [("labels and their statistics", A + "label.py and speedups/_label.pyx"), ("sweeps until no change", A + "fill.py"), ("network", "malstroem/streams.py, malstroem/network.py"), ("IDs in layers and rasters", "malstroem/bluespots.py, malstroem/approx.py, malstroem/hyps.py")],
  ["all rasters and layers of the chain"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
