"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs:
        d["anchors"]["observe_at"] = obs
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)
DC, FD, SU = "dany/dem_conditioning.py", "dany/flow_directions.py", "dany/stream_util.py"
GRID = "every structured, vertex and unstructured grid (holes, triangles, hanging nodes, shuffled numbering)"

p("C01", "Sink filling never lowers a cell and leaves no undrained cell",
  "For a NaN-free DEM and no stream mask, fill_sinks (priority, complete or drain) never lowers a cell, leaves every cell on the grid's edge (a cell with a face no other cell shares) at its elevation, and returns the input's shape without changing the input. With eps > 0 every other cell ends strictly above at least one of its neighbors, so it can drain to the edge; with eps = 0 or 'complete' every other cell ends no lower than at least one neighbor on a non-rising path to the edge.",
  ["inputs", "configurations"], "every NaN-free DEM (nested pits, flats, plateaus, any numeric dtype and offset), eps, method, and " + GRID,
  "fill tests use one 5x5 structured DEM and compare one array; no unstructured grid, integer DEM, nested pit or tie is ever filled",
  [DC], [("priority flood / Planchon-Darboux", DC + ":fill_sinks,_priority_flood,_flood_and_drain_fill"), ("edge seeds", DC + ":_identify_edge_nodes")])
p("C02", "Sink filling raises cells exactly as far as needed",
  "'complete' raises each cell exactly to its spill elevation (the lowest, over all paths to the edge, of the highest cell on the path) and 'drain' exactly to the smallest surface in which each non-edge cell is at least eps above its lowest neighbor. 'priority' ends between the spill elevation and spill elevation plus eps per cell of the grid, each raised cell is exactly eps above one of its neighbors, and when eps is small compared with the DEM's elevation differences a cell that already lies on a strictly descending path to the edge is left unchanged.",
  ["inputs", "configurations"], "every NaN-free DEM, eps >= 0, method, and " + GRID,
  "the only oracle in the tests is a stored array for a single DEM",
  [DC], [("heap order and eps raise", DC + ":_priority_flood"), ("iterate to fixpoint", DC + ":_inner_flood_and_drain_fill")])
p("C03", "A stream mask seeds the fill and keeps mapped streams lowest",
  "With a stream mask, filling (any method name; 'drain' is replaced by priority) starts from the mask's cells instead of the grid's edge: mask cells, taken in order of elevation, are raised only if they then have at least two mask neighbors that are all higher, to exactly eps (0 for 'complete') above the lowest of them; no cell is lowered, every non-mask cell connected to the mask ends above (eps > 0) or no lower than (eps = 0) a neighbor, on a path of such neighbors that reaches a mask cell, a raised one exactly eps ('complete': 0) above a neighbor and, when no mask cell is raised, at most eps per cell of the grid above the lowest highest point of its paths to the mask. Cells not connected to any mask cell, or all cells if the mask is empty, are unchanged.",
  ["inputs", "configurations"], "every NaN-free DEM, every mask, eps, method and " + GRID,
  "no test passes a stream mask",
  [DC], [("mask as flood seed", DC + ":fill_sinks"), ("stream pit fill and stream-aware raise", DC + ":_priority_flood")])
p("C04", "NaN filling keeps data and fills every reachable void",
  "fill_nan_values never changes a cell that has data, never changes its input, and fills every NaN cell connected through neighbors to a cell with data; NaN cells with no such connection stay NaN, and the call always returns. Each filled value is the mean, median, minimum or maximum (the method requested, any letter case) of exactly those neighbors that had a value when the cell was filled, in some order of filling; an unknown method is rejected when there is something to fill.",
  ["inputs", "configurations"], "every pattern of NaN cells, DEM, method and " + GRID,
  "no test has a NaN in a DEM", [DC], [("NaN stack", DC + ":fill_nan_values")])
p("C05", "Every cell flows to a steepest-descent neighbor",
  "For a DEM with a unique minimum, flow_directions assigns each cell with data, other than terminal cells, either a cell sharing a vertex with it that has data and whose slope (elevation change over cell-centre distance) is minimal among its neighbors, or -2 (unresolved sink); upslope differences below burn_threshold count as zero. A cell whose minimal slope is attained by one neighbor and is downhill always flows to that neighbor, and a cell is -2 only if steps to steepest neighbors that do not flow back to the cell they are taken from lead to no terminal cell and to no cell with a single steepest neighbor; no cell is left unassigned, and the call always returns.",
  ["inputs", "configurations"], "every DEM with a unique minimum, ties, flats, pits and NaN cells included, burn_threshold, and " + GRID,
  "tests compare one Freyberg array", [FD], [("slopes", FD + ":_calculate_slopes"), ("flow cell selection and flat resolution", FD + ":_calculate_flowcell,_resolve_flats")],
  [("flow directions", "downstream cell per cell, -2 unresolved", FD + ":flow_directions")])
p("C06", "Flow paths on a conditioned DEM are loop-free and end at a terminal",
  "When every data cell that is not a terminal cell has a strictly lower neighbor (a conditioned DEM), following flow directions from any cell strictly descends, never repeats a cell and ends at a terminal cell, and no cell is -2, however many neighbors tie for steepest. In particular, this holds for the output of fill_sinks with eps > 0 and a stream mask whose unraised cells are the terminal cells.",
  ["inputs", "configurations"], "every conditioned DEM, with any number of ties, terminal cells and " + GRID,
  "tests check one array on one grid; ties and multi-terminal domains are not reached", [FD], [("tie handling", FD + ":_calculate_flowcell"), ("flow trace", FD + ":_resolve_flats")])
p("C07", "Exactly the outlet, requested terminals and void cells are terminal",
  "The cells that flow to themselves are exactly the lowest cell, the cells passed as terminal_cells (cell numbers on any grid, or (row, column) pairs on a structured grid) and cells without data, however steep their surroundings or tied their neighbors. A DEM whose minimum is attained more than once is rejected with AssertionError unless check_elevations is False, in which case every such cell is terminal; (row, column) terminals on other grids are rejected.",
  ["inputs", "configurations"], "every DEM, terminal list form and content, check_elevations and " + GRID,
  "no test passes terminal_cells, has NaN cells or a tied minimum", [FD], [("terminal assignment", FD + ":flow_directions"), ("outlet check", FD + ":__init__")])
p("C08", "Flow accumulation conserves area",
  "flow_accumulation gives each cell its own area (or 1 with as_cells) plus the accumulation of exactly the cells that flow into it, on every flow direction field: for a loop-free field each cell's value is the total area of the cells whose path passes through it and the terminal cells' values add up to the domain's area; where a field has loops or unresolved sinks every cell not on a loop is still exact. Repeating the call, in either mode, gives the same array and get_nidp is the number of cells flowing into each cell.",
  ["inputs", "histories"], "every flow direction field the package can produce, including confluences of many branches, loops and -2 cells, and " + GRID,
  "tests compare one Freyberg array", [FD], [("NIDP walk", FD + ":flow_accumulation,get_nidp")])
p("C09", "A watershed is exactly the cells that drain to its pour point",
  "get_watershed_boundary marks with 1 exactly the cells whose flow path reaches the cell containing the pour point (that cell included) and every other cell with 0, for every accepted form of point and after any earlier watershed, subbasin or flow direction call on the object. It always returns, also on fields with loops and unresolved sinks, and a point with other than two coordinates is rejected with AssertionError.",
  ["inputs", "histories"], "every flow direction field, pour point location and form, call history and " + GRID,
  "tests compare two stored arrays for one basin", [FD], [("reverse flow directions", FD + ":_reverse_flow_directions"), ("upstream search", FD + ":get_watershed_boundary")])
p("C10", "Subbasins partition the watershed by nearest downstream pour point",
  "get_subbasins labels each cell with the subbasin of the first pour point on its flow path (its own cell included) and 0 when there is none, whatever the order of the points. Labels are 1..k for k distinct pour point cells and an upstream subbasin always has a smaller label than the subbasin it drains to. Points with other than two coordinates are rejected with AssertionError (several pour points on one circular flow path have no first one and are not covered).",
  ["inputs"], "every flow direction field, set, order and form of pour points (nested, repeated, in cell 0, on the outlet) and " + GRID,
  "tests use one set of points in one order", [FD], [("subbasin ordering", FD + ":get_subbasins"), ("topological sort", SU + ":Topology")])
p("C11", "Delineated streams are exactly the cells at or above the threshold",
  "delineate_streams returns 1 exactly where the flow accumulation of the flow direction object is at least the threshold (a number, or an array compared cell by cell) and the basin boundary, if given, is non-zero, and 0 elsewhere, in the grid's shape; stream_array returns the same as an independent copy. Threshold and custom stream arrays of the wrong size are rejected and leave the streams as they were, a custom stream array is used as given, and the inputs are not modified.",
  ["inputs", "configurations"], "every accumulation field, scalar or array threshold including equality, boundary mask and " + GRID,
  "tests use one scalar threshold without boundary", [SU], [("binarize", SU + ":delineate_streams,set_stream_array")])
p("C12", "MODFLOW 6 reach network mirrors the flow directions, upstream first",
  "get_stream_connectivity without segment grouping (Sfr6, PrmsStreams) numbers the n stream cells 1..n one to one, and maps each reach to the reach of the cell it flows to, to 0 when that cell is not a stream cell or it is unresolved, and to itself when the cell is terminal. On loop-free flow directions every reach number is smaller than that of the reach it flows to.",
  ["inputs", "configurations"], "every stream array (any subset of cells, any dtype, gaps, isolated cells, many branches) over every flow direction field, and " + GRID,
  "tests compare one Freyberg network", [SU], [("reach graph", SU + ":_mf6_stream_connectivity"), ("Kahn sort", SU + ":Topology")])
p("C13", "SFR6 connectiondata and packagedata agree with the reach network",
  "connectiondata has one row per reach in order, listing zero-based each upstream reach as positive and the downstream reach as negative, each connection appearing in both rows and nothing else. packagedata has one row per reach with the reach's own cell id, 1.5 x centre distance to its downstream reach as length (1.5 x its mean cell face length at an outlet), the DEM elevation as top, the drainage-path slope / 1.5 as gradient, and a connection count equal to connectiondata's.",
  ["inputs", "histories"], "every stream array and flow field, argument form (stored or explicit arrays, binary or numbered, explicit graph, detuple) and " + GRID,
  "tests compare one Freyberg network", [SU], [("connection block", SU + ":connectiondata"), ("package block", SU + ":packagedata")])
p("C14", "MODFLOW-2005 segments are the unbranched runs of the stream network",
  "With group_segments, segments partition the stream cells into connected downstream runs in which a new segment starts exactly at headwaters, at cells with two or more stream inflows (a terminal cell's flow to itself counts) and at isolated terminal cells; otherwise each stream cell is a segment. Segments are numbered 1..n over all stream cells, each maps to the segment of the cell its last cell flows to, or 0 when that is not a stream cell (a terminal cell's segment maps to itself when grouped, to 0 otherwise), and on loop-free flow directions no segment flows to a smaller number. Streams with a closed ring of cells into which no other stream cell flows have no segments there and are not covered when grouped.",
  ["inputs", "configurations"], "every stream array over every flow direction field, both groupings and " + GRID,
  "tests compare Freyberg networks, one of them grouped", [SU], [("segment starts and runs", SU + ":_mf2005_stream_connectivity")])
p("C15", "reach_data and segment_data describe the segments cell by cell",
  "On structured grids reach_data has exactly one row per stream cell, ordered by segment and within it in flow direction with ireach 1..m, with the cell's node, row and column, its segment, DEM elevation, 1.5 x centre distance to the next cell downstream as rchlen and elevation drop over rchlen as slope (1.5 x mean of the cell's row and column width, and 0.0001, where there is no next stream cell), and consecutive reachIDs. segment_data has one row per segment with its outflow segment.",
  ["inputs", "histories"], "every stream array over every flow field on structured grids with any row and column widths, group_segments, stored or explicit array and call history",
  "tests compare two Freyberg tables", [SU], [("reach table", SU + ":reach_data"), ("segment table", SU + ":segment_data")])
p("C16", "irunbnd sends each cell to the first stream segment downstream",
  "irunbnd gives each cell the number of the segment of the first stream cell on its flow path (a stream cell has its own segment), and 0 when the path meets no stream cell. This holds for both groupings, stored or explicit arrays and any order of cell numbering.",
  ["inputs", "histories"], "every stream array over every flow field, grouping and " + GRID,
  "no test calls irunbnd", [SU], [("upstream traversal", SU + ":irunbnd")])
p("C17", "Many-to-one cascades are exactly the flow directions within the basin",
  "get_cascades (many-to-one) links each cell inside the basin that has a flow direction, with fraction 1, to exactly the cell it flows to, or to itself when that cell lies outside the basin or it is terminal, each link appearing once; cells outside the basin appear in no link. Each link's stream segment is the number of the reach or segment in the downstream cell and 0 if that is not a stream cell.",
  ["inputs", "histories"], "every flow field, basin boundary, stream array, numbering, call history and " + GRID,
  "tests compare one Freyberg cascade set without boundary", [SU], [("cascade links", SU + ":_build_many_to_one_cascades"), ("segment lookup", SU + ":get_cascades")])
p("C18", "Many-to-many cascades split flow by slope and conserve it",
  "With many2many every cell outside streams and inside the basin is linked to exactly its strictly lower in-basin neighbors that carry more than 1% of its summed downhill slope, with fractions proportional to slope that sum to 1; cells with no such neighbor, and cells outside the basin, have no outgoing link. Each in-basin stream cell has a single link with fraction 1 to the cell it flows to (itself when that is outside the basin), and stream segments are those of the downstream cells.",
  ["inputs", "histories"], "every NaN-free DEM, basin boundary, stream array, numbering and " + GRID,
  "no test uses many2many", [SU], [("cascade links", SU + ":_build_many_to_many_cascades")])
p("C19", "Stream vectors trace each segment down to the next",
  "create_stream_vectors returns, for each segment that has at least two points, the centres of its cells in flow order followed by the centre of the first cell of the segment it flows to, keyed by the segment's number; every stream cell that flows to another stream cell appears. This holds for both groupings, stored or explicit arrays (NaN meaning no stream); keys are the segment numbers 1..n, and streams with a closed ring of cells into which no other stream cell flows are not covered.",
  ["inputs", "histories"], "every stream array over every flow field, grouping and " + GRID,
  "no test calls create_stream_vectors", [SU], [("vector walk", SU + ":create_stream_vectors")])
p("C20", "Control points lower the threshold along their main upstream stem",
  "threshold_from_control_points returns the given threshold everywhere except at each control point's cell and the cells reached from it by repeatedly going upstream to the inflowing neighbor with the largest accumulation, where the value is accumulation - 5, so delineate_streams marks every such cell whatever its accumulation. It always returns, for any set of points and flow field, and rejects points with other than two coordinates with AssertionError.",
  ["inputs"], "every flow and accumulation field, set of control points, threshold and " + GRID,
  "no test calls it", [SU], [("main stem walk", SU + ":threshold_from_control_points")])
p("C21", "Stream products depend on the current streams, not on the call history",
  "Whatever sequence of calls preceded it on a stream object, each product (connectivity, connectiondata, packagedata, reach_data, segment_data, irunbnd, cascades, vectors) equals what a new object gives for the same streams and grouping. The streams are those most recently delineated, set or passed explicitly; connectivity of earlier streams is never used with new ones, creating vectors or thresholds does not change the current connectivity, other objects on the same grid change nothing, and a product asked for before there are any streams is rejected with AssertionError.",
  ["histories"], "every sequence of public calls on Sfr6, Sfr2005 and PrmsStreams objects with changing stream arrays and groupings",
  "each test makes at most three calls on a fresh object with one stream array", [SU], [("cached graphs", SU + ":StreamBase"), ("cache use", SU + ":connectiondata,packagedata,reach_data,segment_data,irunbnd,get_cascades")],
  [("current streams", "stream locations or numbering", SU + ":StreamBase"), ("graphs", "connectivity computed for the current streams", SU + ":StreamBase")])
p("C22", "Flow results depend on DEM and options, not on earlier calls",
  "Results of fill_sinks, fill_nan_values and of each FlowDirections product (directions, accumulation, watersheds, subbasins, slope, aspect) equal those of a fresh grid and object with the same DEM and options, whatever neighbors the grid object has already computed (rook or queen), whatever flow direction, accumulation or watershed calls were made before on the object, and whatever other objects share the grid. No call modifies the DEM, mask, terminal, boundary, point or stream array objects passed to it.",
  ["histories"], "every sequence of public calls on a grid and on FlowDirections objects, with changing terminals and thresholds",
  "tests always start from a fresh grid and object and never re-run flow_directions", [FD, DC], [("neighbor cache reset", FD + ":__init__"), ("reverse direction cache", FD + ":flow_directions,_reverse_flow_directions")])
p("C23", "The same mesh gives the same results as any grid class",
  "The same cells described as a StructuredGrid, VertexGrid or UnstructuredGrid (polygons open or closed, clockwise or not) give the same edge-seeded 'complete' and 'drain' fill, flow directions, accumulation, areas, watersheds, streams, reach and segment networks and cascades, in arrays of that grid's shape, whenever no neighbors tie for steepest. Only cell ids in the packagedata differ in form: (layer, row, column), (layer, cell) and (node,).",
  ["configurations", "inputs"], "every mesh expressible in the three grid classes and every DEM without ties",
  "tests only use structured grids", [FD, SU, DC], [("grid type switches", FD + ":__init__,_fill_irregular_neighbor_array"), ("shapes", SU + ":StreamBase"), ("cell ids", SU + ":packagedata")])
p("C24", "Cell geometry (area, slope, aspect, vectors, length) is exact",
  "area is each polygon's area; slope is the elevation drop to the downstream cell over centre distance (0 for terminal cells, unresolved sinks and positive drops under 1e-6), aspect is the counter-clockwise angle in [0, 360) from east of the direction to the downstream cell, and vectors are its cosine and sine (aspect 0 where there is no downstream cell). hru_len of a non-terminal cell is twice the mean distance from its centre to the shared vertices (or middle of the shared vertices) with its downstream cell and each cell flowing into it.",
  ["inputs", "configurations"], "every mesh (polygons of any orientation, vertex count, open or closed), flow field and elevation",
  "tests compare one aspect and slope array on one uniform grid", [FD], [("shoelace", FD + ":_shoelace_area"), ("slope and aspect", FD + ":slope,aspect,vectors"), ("shared vertices", FD + ":_calculate_hru_len")])
p("C25", "pyGSFLOW builder objects carry the same products and survive saving",
  "The Sfr2005 builder object holds the object's reach_data, segment_data and irunbnd (or those passed in), unchanged without apply_defaults and otherwise with defaults applied: each reach's slope is the drop over centre distance to the next reach downstream, limited to [min_slope, max_slope] (default_slope where there is none), and default or keyword values fill the reach and segment fields, unknown keywords being rejected in either case. The PrmsStreams builder object holds exactly get_cascades' links, the cells' slope, aspect and area, the numbers of segments and stream cells and the cascade flag (1 many-to-one, 0 many-to-many), and write then read gives an equal object.",
  ["inputs", "configurations", "histories"], "every stream network, grouping, boundary, keyword set and call history",
  "tests only check one Prms object's array lengths; the Sfr2005 builder is never called", [SU], [("builder objects", SU + ":get_pygsflow_builder_object"), ("pickle", SU + ":PygsflowCompatBase")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
