"""Property texts (properties.jsonl) and claims (MANIFEST.json).  `python meta.py` regenerates both files."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROOF_NOTE = ("Obligations generated from /repo's current source on every run and discharged by z3/cvc5 for all sizes and "
              "values; floats as reals, numpy functions by assumed contracts (cross-checked against real numpy); plus a "
              "bounded companion run on the real code.")


def P(id, title, statement, over, text, why, files, mech, level="proof", note=None, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                             **({"observe_at": observe} if observe else {}))), level, note or PROOF_NOTE


PROPS = [
    P("C01", "Time lookup brackets the requested time with the right weight",
      "For any increasing time axis and any requested time inside it, the index and weight returned satisfy: the "
      "requested time lies between the record before the index and the record at the index, the weight lies in [0, 1], and linear "
      "interpolation with it reproduces the requested time exactly. A time outside an axis of several records is refused unless "
      "extrapolation was asked for, in which case the nearest end record is used alone (weight 0 or 1); a single-record "
      "axis serves every time.",
      ["inputs"], "every strictly increasing axis of any length, every requested time, both extrapolation settings",
      "Tests sample a few axes and a few times; the guarantee is over every axis length, spacing and requested time, "
      "including times equal to a record and times just outside.",
      ["gridded/time.py"], [("Time.index_of / Time.interp_alpha / Time.valid_time", "gridded/time.py")]),
    P("C02", "Time axis construction: origin, displacement, ordering, caller data untouched",
      "A time axis built from any list or array of datetimes holds exactly those instants, shifted rigidly by the "
      "requested displacement and change of timezone offset and moved so that the first record equals a requested origin; differences "
      "between records are preserved and unordered or duplicate times are refused. The caller's array, or the time object it was built "
      "from, is never altered.",
      ["inputs", "histories"], "every axis length and content, every displacement, offset and origin, repeated construction from the same source",
      "Tests check a handful of three-record axes and never re-use the source array after construction.",
      ["gridded/time.py"], [("Time.__init__ / data setter / _check_timeseries", "gridded/time.py")]),
    P("C03", "Fixed-level depth lookup brackets each depth and honours boundary conditions",
      "For any increasing or decreasing list of depth levels and any set of points, each point's index and weight bracket its own depth "
      "so that linear interpolation between the two levels reproduces the depth exactly, with the weight in [0, 1]. Points "
      "above the first or below the last level are masked or held at the end level exactly as the surface and bottom "
      "boundary conditions say, independently of every other point; a depth exactly on a level uses that level alone, the last stored level counting as outside.",
      ["inputs", "configurations"], "every number of levels and points, every depth value, every combination of boundary conditions given per call or as defaults",
      "Tests use two or three fixed level lists; neither exact hits on each level, nor mixtures of in-range and out-of-range "
      "points under all boundary-condition combinations are covered.",
      ["gridded/depth.py"], [("L_Depth.interpolation_alphas", "gridded/depth.py"), ("L_Depth._apply_boundary_conditions", "gridded/depth.py")]),
    P("C04", "Terrain-following depth lookup uses each point's own water column",
      "For terrain-following coordinates in either vertical ordering, with data on levels or on layers, the index and weight returned for a point bracket "
      "its depth in that point's own column and reproduce it exactly under linear interpolation. A point is masked exactly when its column is masked "
      "(off the horizontal grid), or it is above the surface or at or below the sea floor of its column with masking requested; with extrapolation it is held at the end of its column. Data that fits neither levels nor layers is refused.",
      ["inputs", "configurations"], "every number of points and levels, every strictly monotone column per point, every off-grid pattern, every boundary-condition combination",
      "Tests use a few synthetic columns; mixtures of different columns, off-grid points, layer data and boundary conditions are combinatorial.",
      ["gridded/depth.py"], [("S_Depth.interpolation_alphas", "gridded/depth.py"), ("S_Depth._apply_boundary_conditions", "gridded/depth.py")]),
    P("C05", "Depth profiles are the published sigma transforms of each point's column",
      "For any bathymetry, free surface, stretching curves and critical depth, the depth profile of a point equals the published transform of its ocean model "
      "(either ROMS vertical transform, or FVCOM sigma interpolated from the nodes of the point's own element) evaluated with the water depth and the free surface at that point and time. "
      "With data on levels the profile starts at zero at the surface, ends at the total water depth at the bottom and is strictly monotone in between; whether levels or layers are returned is decided by the shape of the data. "
      "Points off a curvilinear grid have masked profiles, and bathymetry or free surface given at cell centres of a ROMS file is averaged to the nodes.",
      ["inputs", "configurations"], "every number of points and levels, every admissible bathymetry, free surface, stretching and critical depth, both transforms, levels and layers",
      "Tests compare a few stored profiles at a couple of points; the formula has to hold for every point, time and parameter set.",
      ["gridded/depth.py"], [("ROMS_Depth._L_S_curve / get_depth_profile / get_s_coordinate", "gridded/depth.py"), ("FVCOM_Depth.get_depth_profile", "gridded/depth.py")]),
    P("C06", "Vertical interpolation treats every point on its own levels",
      "The value of a variable with a depth dimension at each point equals the linear blend, with that point's own depth weight, of the horizontally interpolated "
      "values of the two levels around the point; a point on or beyond an end level takes the end level alone. "
      "A point is masked exactly when its depth is masked or its horizontal value is masked. The other points of the same query, their number and their order never change a point's value.",
      ["inputs"], "every number of points and levels, every assignment of levels, weights and masks to the points, both vertical orderings, level and layer data",
      "Tests query a handful of points at once; the defect class (rows of one level mixed up with rows of another) depends on the combination of points in one batch.",
      ["gridded/variable.py"], [("Variable._depth_interp", "gridded/variable.py")]),
    P("C07", "Time interpolation of variables and layout of the results",
      "The value of a time-dependent variable at a point is the linear blend of the horizontally interpolated values of the two records around the requested time, and of a single record at or (with extrapolation) beyond "
      "the ends; a time outside the series is refused unless extrapolation was requested or there is one record only. "
      "The result has one row per point in the order given and one column per component, each column being that component's own value, masked where that component is masked; asking for unmasked results replaces masked values by the variable's fill value. "
      "This holds for points given as lists, arrays, with or without depth, or separate longitudes and latitudes, and the query leaves its arguments alone.",
      ["inputs", "configurations"], "every number of points, records and components, every increasing time axis and requested time, every mask pattern, every accepted form of the arguments",
      "Tests use fixed files with few records; the guarantee is over every axis, time and point set.",
      ["gridded/variable.py", "gridded/time.py"], [("Variable.at / Variable._time_interp", "gridded/variable.py"), ("VectorVariable.at", "gridded/variable.py")]),
    P("C08", "Interpolation on triangular meshes is the blend of the containing element",
      "A node value interpolated to a point inside a triangular mesh is the barycentric blend of the three nodes of the face that contains the point: weights sum to one, reproduce the point's own coordinates, "
      "and therefore reproduce every field that is linear in space; cell-centred data gives the value of the containing face. "
      "A point outside the mesh gets zero, whatever the last face or node holds, and an extra leading index (time, level) or trailing components is applied before the blend. "
      "The value at one point never depends on the other points of the query.",
      ["inputs"], "every mesh of non-degenerate triangles in either orientation, every number of points, every assignment of faces to points, every field and leading index",
      "Tests interpolate one or two fields on a mesh of two triangles; the guarantee is over every mesh, field and batch of points.",
      ["gridded/pyugrid/ugrid.py"], [("UGrid.interpolation_alphas", "gridded/pyugrid/ugrid.py"), ("UGrid.interpolate_var_to_points", "gridded/pyugrid/ugrid.py")]),
    P("C09", "Interpolation on curvilinear grids follows the point's own cell and logical position",
      "The logical coordinates of a point inside a cell are the unique pair in the unit square that the cell's bilinear map takes to the point, for convex cells of any shape and orientation; node data gives the bilinear "
      "blend of the four nodes of that cell, edge data the linear blend of its two opposite edges, cell-centred data the value of the cell, whatever the padding of the data, the leading indices and the other points of the query. "
      "Masked values count as zero (or as the chosen mask behaviour says), edges between land and water count as masked, "
      "and a point off the grid, or with nothing but masked values around it, is masked or gets the fill value.",
      ["inputs"], "every grid shape, every convex cell, every position in it, every padding, mask and number of points",
      "Tests interpolate on unit squares and one real file; the guarantee is over all cell shapes, paddings and masks.",
      ["gridded/pysgrid/sgrid.py"], [("SGrid.x_to_l / geo_to_logical", "gridded/pysgrid/sgrid.py"), ("SGrid.interpolate_var_to_points", "gridded/pysgrid/sgrid.py"), ("SGrid.compute_interpolant", "gridded/pysgrid/sgrid.py")]),
    P("C10", "Rectangular grids: cell lookup and bilinear interpolation",
      "On a rectangular grid a point strictly inside the extents is located in the cell that contains it and a point outside gets -1 for both indices, for ascending and for descending axes, whatever other points are in the query. "
      "The interpolated value of node data at a point within the extents is the bilinear blend of the four node values of the cell around the point, zero outside, with masked data counting as zero, the latitudes paired with the latitude axis and the longitudes with the longitude axis whichever order the data have; square data without dimension names are refused. "
      "Queries leave their arguments and the grid alone and do not depend on earlier queries.",
      ["inputs"], "every number of points, every strictly monotone pair of axes, every array of data, record and level selection, both data layouts, masked and netCDF data",
      "Tests use one small grid; the orientation logic and the treatment of the ends depend on shapes and directions they do not sample.",
      ["gridded/grids.py"], [("Grid_R.locate_faces", "gridded/grids.py"), ("Grid_R.interpolate_var_to_points / lonlat_to_yx", "gridded/grids.py")]),
    P("C11", "Structured grids: cell lookup with land masks",
      "On a curvilinear grid a point strictly inside a cell is located in that cell, and a point off the grid, in a cell that the land mask removes, or in a cell with missing node coordinates gets the masked index pair (-1, -1), whatever other points are in the query or were asked about before. "
      "A center mask removes exactly the cells it marks as land, its padding rows and columns left out of account; without a center mask a node mask removes every cell that touches a masked node; with use_mask=False neither removes any. "
      "Masks are read alike from every accepted encoding (boolean arrays, CF flag_values / flag_meanings in any case or order and as arrays or strings, option_0 / option_1): only values that mean water or lake are not land.",
      ["inputs"], "every grid size and geometry, every mask, every padding, every mask encoding, every set of points",
      "Tests use two small masks; the renumbering of the nodes and cells that remain depends on the position of every masked cell.",
      ["gridded/pysgrid/sgrid.py", "gridded/utilities.py"], [("SGrid.build_celltree / locate_faces", "gridded/pysgrid/sgrid.py"), ("convert_mask_to_numpy_mask", "gridded/utilities.py")]),
    P("C12", "Unstructured meshes: edges, neighbours, boundaries and coordinates derived from the faces",
      "For a mesh whose faces all have the same number of nodes and whose edges belong to at most two faces: build_edges gives every edge of every face exactly once (lower node first) and no other; entry (f, j) of the face-face connectivity is the face on the other side of the edge from node j to node j + 1 of face f, -1 if there is none; build_boundaries gives exactly the edges without a neighbour, each once and in the direction of its face. "
      "Entry (f, j) of the face-edge connectivity is the number of the edge that joins nodes j and j + 1 of face f, whatever the order and direction of the edges; the coordinates of faces, edges and boundary segments are the averages of their nodes, and get_lines gives the end points of the edges. "
      "They are derived from the faces the mesh has at that moment, in any order of the calls, and leave nodes, faces and the arrays of the caller unchanged.",
      ["inputs", "histories"], "every number of faces and nodes, every numbering and orientation of the faces, every order of the calls",
      "Tests use meshes of two or three triangles; an edge is matched with an edge met any number of faces earlier, so the claim is an induction over the faces.",
      ["gridded/pyugrid/ugrid.py"], [("UGrid.build_edges / build_face_face_connectivity / build_boundaries", "gridded/pyugrid/ugrid.py"), ("UGrid.build_face_edge_connectivity / build_*_coordinates / get_lines", "gridded/pyugrid/ugrid.py")]),
    P("C13", "Unstructured meshes: construction, index base and replacement of nodes and faces",
      "Faces given when a mesh is built or assigned later are taken as they are if their node numbers lie in -1 ... N - 1 for N nodes, are renumbered by minus one as a whole if the highest is N and the lowest at least 1, and are refused with ValueError otherwise; the array of the caller keeps its contents, and nodes given as pairs or as separate longitudes and latitudes give the same mesh. "
      "After any history of queries and assignments to nodes or faces, cell lookups, nearest nodes, interpolation weights, interpolated values and boundaries are those of a mesh built anew from the nodes and faces it has now.",
      ["inputs", "histories"], "every number of nodes and faces, every set of node numbers, every history of assignments and queries",
      "Tests cover four arrays of faces; the remembered search trees and results must be dropped after every assignment.",
      ["gridded/pyugrid/ugrid.py"], [("UGrid.__init__ / nodes / faces (setters and deleters)", "gridded/pyugrid/ugrid.py"), ("UGrid._clear_search_structures", "gridded/pyugrid/ugrid.py")]),
    P("C14", "Meshes in files: what was saved is what is loaded, in every layout the conventions allow",
      "A mesh saved by UGrid.save, UGrid.save_as_netcdf or Dataset.save, in the format that was asked for, and loaded again has the same mesh name, nodes, faces, edges, boundaries, face-face and face-edge connectivity and coordinates of faces, edges and boundaries, each part present exactly if it was there, and saving changes no part of the mesh; variables saved with it have their values, location and attributes. "
      "A UGRID file gives the same mesh whether its node numbers start at 0 or 1 (start_index, or for faces, edges and boundaries without it: one-based exactly if the last node number equals the number of nodes), keeps the flag value of missing neighbours, whether the faces are stored as rows or as columns (told by the dimension that the mesh names, or by the shape), whichever of longitude and latitude comes first, and whether standard names or units tell them apart. "
      "Grid_U from a file that is no UGRID file finds nodes and faces by their usual names, or by the names of grid_topology. Meshes whose faces all have the same number of nodes are meant.",
      ["inputs", "configurations"], "every number of nodes and faces, every set of parts, every index base, order and naming that the conventions allow",
      "Tests load a dozen files and save four small meshes; which parts are there, their sizes and the layout are free.",
      ["gridded/pyugrid/ugrid.py", "gridded/pyugrid/read_netcdf.py", "gridded/grids.py", "gridded/utilities.py", "gridded/gridded.py"],
      [("UGrid.save / UGrid.from_nc_dataset / load_grid_from_nc_dataset", "gridded/pyugrid/read_netcdf.py"), ("Grid_U._find_required_grid_attrs / Grid.from_netCDF", "gridded/grids.py"), ("get_writable_dataset", "gridded/utilities.py"), ("Dataset.save", "gridded/gridded.py")]),
    P("C15", "Structured grids in files: coordinates, masks and paddings are those of the file, and survive saving",
      "SGrid.load_grid (and Grid.from_netCDF, which makes a Grid_S of it) of a file with one SGRID topology gives exactly the coordinates of nodes, faces and edges that the file names, for every location the mask that lies on its dimensions with its metadata, the angles, and the paddings of faces and edges as written, each present exactly if it is in the file and whatever the variables are called. "
      "Variables on the dimensions of faces or edges are located there, and their slicing for averages to cell centers cuts off exactly the padding: low the first, high the last, both the first and last. "
      "SGrid.save_as_netcdf of a loaded grid writes a file that gives all this again, and changes no part of the grid. "
      "Files are meant that name their coordinates in the topology variable and write dimensions as in 'xi: xi_node (padding: low)'; masks belong to locations with coordinates.",
      ["inputs", "configurations"], "every size of the grid, every padding, every set of locations with coordinates and masks",
      "Tests load six files with one padding each; the paddings, sizes, names and what is there are free.",
      ["gridded/pysgrid/sgrid.py", "gridded/pysgrid/read_netcdf.py", "gridded/pysgrid/utils.py", "gridded/pysgrid/variables.py", "gridded/grids.py"],
      [("SGrid.load_grid / SGrid.save_as_netcdf / SGridAttributes", "gridded/pysgrid/sgrid.py"), ("parse_padding", "gridded/pysgrid/read_netcdf.py"), ("determine_variable_slicing / infer_avg_axes / infer_variable_location", "gridded/pysgrid/utils.py"), ("SGridVariable.create_variable", "gridded/pysgrid/variables.py")]),
    P("C16", "One answer for each point, however the points are given",
      "Variable.at and VectorVariable.at give a result with one row for each point, in the order of the points, and one column for each component, and row k depends on the coordinates of point k alone in the same way for every layout of the points: "
      "a list, tuple or array with one row of two or three coordinates for each point; the same as columns, if there are more than three points; a single point as a flat sequence, a row or a column; axes of length one; separate lons and lats (ignored if points are given). "
      "Arrays between 2x2 and 3x3 are taken as rows. Two long axes, flat sequences of other lengths and data that are not numbers are refused. _align_results_to_spatial_data turns results with a row for each point exactly if the points were given as columns. The caller's points are not changed.",
      ["inputs"], "every number of points and all coordinates, each allowed layout; lists up to seven points",
      "Tests give a few arrays; the number of points decides how a layout is read.",
      ["gridded/utilities.py", "gridded/variable.py"],
      [("_reorganize_spatial_data / _align_results_to_spatial_data", "gridded/utilities.py"), ("Variable.at / VectorVariable.at", "gridded/variable.py")]),
    P("C17", "Data belong to the part of the grid that they fit, and paddings trim and shift alike",
      "infer_location gives for a mesh: nodes, else faces, else boundaries, whichever has as many elements as the last dimension of the data; for a structured grid: the first of nodes, centers, first and second edges whose coordinates have the shape of the last two dimensions; for a regular grid: the location attribute, else nodes if there is one value for each latitude and longitude, centers if there is one less or one more of both; and None if nothing fits or there are too few dimensions. "
      "A Variable keeps a location that is given, infers it otherwise, and refuses with ValueError, changing nothing, an unknown location, data that fit nowhere and data whose first dimension differs from the time axis; replacing data or time drops remembered results. A Dataset loaded from a file has exactly the variables that lie on its grid (sizes being distinct). "
      "Paddings of a structured grid that are not given are told from the shapes of faces and nodes, edges without their own use those of the faces; trimming an array by get_padding_slices leaves one element for each cell, and it is the one that apply_padding_to_idxs points to.",
      ["inputs", "configurations"], "every size of grid and data, every padding, every set of locations",
      "Tests infer the location of a few arrays; sizes of grid and data are free.",
      ["gridded/grids.py", "gridded/pysgrid/sgrid.py", "gridded/pyugrid/ugrid.py", "gridded/variable.py", "gridded/gridded.py"],
      [("UGrid.infer_location", "gridded/pyugrid/ugrid.py"), ("SGrid.infer_location / face_padding / get_padding_by_location / get_padding_slices / apply_padding_to_idxs", "gridded/pysgrid/sgrid.py"), ("Grid_R.infer_location", "gridded/grids.py"), ("Variable.data / Variable.time / Variable.location (setters)", "gridded/variable.py"), ("Dataset._variables_from_netCDF", "gridded/gridded.py")]),
    P("C18", "Nearest points of a grid, and whether a point is in a polygon",
      "UGrid.locate_nodes gives for each point the number of the nearest node, SGrid.locate_nearest the row and column, within the coordinates of the location that was asked for, of the nearest of them, and SGrid.nearest_var_to_points the value there, of the given record, masked exactly if that value is masked; whatever was asked before, for every size of the grid and number of points. "
      "point_in_tri is True for every point in a triangle or on its outline and False for every point outside by more than 0.001 % of the triangle, in either orientation. points_in_polys tells for every point, by the parity of the crossings of the sides, whether it is in its own polygon: True strictly inside, False strictly outside. "
      "UGrid.locate_faces(method='simple') finds a face that contains the point if there is one.",
      ["inputs"], "every point, triangle and polygon; every number of points and size of the grid",
      "Tests try one triangle, one rectangle and the diagonal of one grid; points and shapes are free.",
      ["gridded/pyugrid/util.py", "gridded/pyugrid/ugrid.py", "gridded/pysgrid/utils.py", "gridded/pysgrid/sgrid.py"],
      [("point_in_tri", "gridded/pyugrid/util.py"), ("points_in_polys", "gridded/pysgrid/utils.py"), ("UGrid.locate_nodes / UGrid.locate_faces", "gridded/pyugrid/ugrid.py"), ("SGrid.locate_nearest / build_kdtree / nearest_var_to_points / get_efficient_slice / get_variable_at_index", "gridded/pysgrid/sgrid.py")]),
    P("C19", "Times, variables and datasets read from files are those of the file",
      "Time.from_netCDF gives the instants that the units of the file say, in the offset to UTC that they state (UTC if none) or that is given, moved to another offset, origin or by a displacement if asked to. "
      "The time axis of a variable is the dimension that its time attribute names, else its first dimension if that is one of time, else it has a single time. "
      "Variable.from_netCDF has the data, units, attributes, location, times and depth of the variable of that name (else of the first default name, standard name or long name that is in the file) unless others are given; VectorVariable.from_netCDF has such components in the order of their names, all on one grid, time axis and depth. "
      "Dataset.from_netCDF has exactly the variables that are on the grid and are not part of its description, each under its name in the file and named after its long name; get_variables_by_attribute gives exactly those whose attribute has that value, in order.",
      ["inputs", "configurations"], "every length of the time axes and size of the grid, all values; each combination of dimensions, attributes and arguments of a list",
      "Tests read a few files; sizes and values are free, and the combinations of what the file has and what is asked for are many.",
      ["gridded/time.py", "gridded/variable.py", "gridded/gridded.py", "gridded/utilities.py"],
      [("Time.from_netCDF / parse_time_offset / locate_time_var_from_var", "gridded/time.py"), ("Variable.from_netCDF / _gen_varname", "gridded/variable.py"), ("VectorVariable.from_netCDF / _gen_varnames", "gridded/variable.py"), ("Dataset._variables_from_netCDF / get_variables_by_attribute", "gridded/gridded.py")]),
    P("C20", "Vectors on structured grids: averages at cell centers, rotation, speed and direction",
      "For data on the edges of an SGRID grid, whether the edges have dimensions of their own or share those of faces and nodes, with any padding and leading dimensions, trimming by the center_slicing and averaging (avg_to_cell_center) along the center_axis that the grid names for the variable gives one value for each cell, the mean of the values on the two edges of that very cell, masked exactly if one of them is. "
      "vector_sum is the length of each vector; rotate_vectors turns each by its own angle counter-clockwise (so keeps its length); both are masked exactly where a component is. "
      "The angles of a grid whose file has none give for each center, counter-clockwise from east, the direction in which the great circle to the next center of its row starts, the last column repeated. None of them changes its arguments.",
      ["inputs", "configurations"], "every size of the grid, all values and masks; each combination of paddings, edges with or without own dimensions, up to two leading dimensions",
      "Tests average one small array; which edge belongs to which cell depends on the padding, the layout of the dimensions and the size.",
      ["gridded/pysgrid/processing_2d.py", "gridded/pysgrid/utils.py", "gridded/pysgrid/variables.py", "gridded/pysgrid/sgrid.py"],
      [("avg_to_cell_center / rotate_vectors / vector_sum", "gridded/pysgrid/processing_2d.py"), ("determine_variable_slicing / infer_avg_axes / infer_variable_location / pair_arrays / calculate_bearing / calculate_angle_from_true_east", "gridded/pysgrid/utils.py"), ("SGridVariable.create_variable", "gridded/pysgrid/variables.py"), ("SGridAttributes.get_angles", "gridded/pysgrid/sgrid.py")]),
    P("C21", "Depth axes read from files are those of the file",
      "Depth.from_netCDF gives an axis of fixed levels for a file with such a variable, one of ROMS or FVCOM for a file with all of their terms and bathymetry (the free surface may be missing), refuses files with more than one of these, and otherwise gives the surface only, with the surface index that is asked for. "
      "Each term is the variable of the data file with the first of its names, else the one with its standard or long name; only if there is none, that of the grid file. "
      "Levels are those of the file with the shallowest moved to the surface. For ROMS and FVCOM the terms, the bathymetry and the free surface are those of the file, values at cell centers averaged to the nodes between them, on the grid and with the times of the free surface of the file (0 and a single time if it has none), unless others are given, which are then kept. "
      "Surface and bottom index and the numbers of levels and layers follow from the terms; reading does not change the file.",
      ["inputs", "configurations"], "every number of levels, times, nodes and size of the grid, all values; each combination of terms present or missing, named by name or standard name, in one or two files, on nodes or centers, given or not, of a list",
      "Tests read a few ROMS files with everything in place; which variable stands for a term depends on all that is in both files, and the averages on where the file has its values.",
      ["gridded/depth.py", "gridded/utilities.py"],
      [("Depth.from_netCDF / DepthBase.from_netCDF / L_Depth.from_netCDF / S_Depth.from_netCDF / _can_create_from_netCDF", "gridded/depth.py"), ("search_netcdf_vars / can_create_class / merge_var_search_dicts", "gridded/utilities.py")]),
    P("C22", "Grids of files without conventions: which kind of grid it is and where its parts are",
      "Grid.from_netCDF gives the kind of grid that is asked for by one of its words (in any case; other words are refused), else that of the description it is given, else that of the topology variable of the file, else what its variables say: a triangular mesh if it has coordinates of nodes and faces, a rectangular grid if the coordinates of the nodes have one dimension, a curvilinear one if they have two; refused if it has none. "
      "Coordinates of nodes, centers and edges and their masks are those of the variables with the first of the known names that the grid file has, whatever their case, or of the variables that the description names; parts that it does not have are missing.",
      ["inputs", "configurations"], "every size of the grid and all values; each kind of grid, name, combination of parts and masks and way of asking of a list",
      "Tests load a few files; which variable is taken depends on all names that are in the file.",
      ["gridded/grids.py"],
      [("Grid.from_netCDF / Grid._get_grid_type / Grid._find_topology_var", "gridded/grids.py"), ("GridBase / Grid_U / Grid_S / Grid_R ._find_required_grid_attrs", "gridded/grids.py")]),
]
NOT_APPLICABLE = []
PY = "/opt/venv/bin/python"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in PROPS:
            f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd=f"{PY} setup_check.py", checks=[], not_applicable=NOT_APPLICABLE,
             notes="No hooks: /repo is loaded as it is. check.py runs the proof layer (pyvc over /repo's source) and the "
                   "bounded companion.")
    for p, level, note in PROPS:
        i = p["id"]
        m["checks"].append(dict(
            property=i, quick_cmd=f"{PY} check.py {i} quick", thorough_cmd=f"{PY} check.py {i} thorough",
            technique="contract-based deductive verification (symbolic WP over the real source, z3/cvc5)"
            if level == "proof" else "bounded stand-in for a contract (stated bound)", level=level, level_note=note))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
