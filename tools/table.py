prop("C01", "Index fields are laid out exactly and written independently",
  "Reading the mode, resolution, base cell, reserved bits, high bit or any digit of an index returns exactly the bits the published 64-bit layout assigns to it. Writing one of them changes that field only, and building an index yields mode 1, the given resolution and base cell, the given digit at every used position and 7 at every unused one.",
  ["inputs"], "all 2^64 bit patterns, all field values in range, all digit positions 1..15 and resolutions 0..15",
  "2^64 patterns times every field; tests touch a handful of literals",
  ["src/h3_index.rs"], [("bit masks and offsets, accessor and setter functions", "src/h3_index.rs"), ("setH3Index", "src/h3_index.rs")],
  ABS, "proof", "Every case of the partition is compared exactly; no bound. " + BASE)
prop("C02", "Cell validity is decided exactly; pentagons are recognised exactly",
  "An index is reported valid exactly when its high bit and reserved bits are 0, its mode is 1, its base cell is below 122, digits up to its resolution are 0 to 6 and later ones are 7, and, on the twelve pentagonal base cells, the first non-zero digit is not 1. A valid cell is reported a pentagon exactly when its base cell is one of those twelve and all its digits are 0.",
  ["inputs"], "all 2^64 bit patterns (validity); all valid cells of all 16 resolutions (pentagon test)",
  "existing tests check one valid cell per resolution and no invalid pattern",
  ["src/h3_index.rs", "src/base_cells.rs"], [("isValidCell, isPentagon", "src/h3_index.rs"), ("pentagon flags of the base-cell table", "src/base_cells.rs")],
  ABS, "proof", "Exact over all patterns, no bound. " + BASE)
prop("C03", "The number of children is exact for every cell and depth",
  "For a valid cell and a resolution between its own and 15 the reported number of children is 7^n for a hexagon and 1+5(7^n-1)/6 for a pentagon, n being the number of levels. Any other resolution is refused with the resolution-domain error.",
  ["inputs"], "all valid cells of all resolutions, all 32-bit values of the requested resolution",
  "tests request at most two levels; the 32-bit overflow at 12 levels went unnoticed",
  ["src/h3_index.rs"], [("cellToChildrenSize", "src/h3_index.rs")],
  ABS, "proof", "Exact, including the absence of arithmetic overflow; no bound. " + BASE)
prop("C04", "Child enumeration yields every child exactly once, in order",
  "Enumerating the children of a valid cell at any resolution between its own and 15 yields exactly its descendants at that resolution, each once and in increasing index order, and then ends: all 7^n digit extensions for a hexagon, and for a pentagon those whose first non-zero added digit is not 1. For a coarser resolution or one beyond 15 nothing is yielded.",
  ["inputs"], "all valid cells of all 16 resolutions, every finer resolution, every step of the enumeration; all 32-bit values of an unusable resolution",
  "up to 7^15 children per cell; tests count the children of a few cells one or two levels down",
  ["src/iterators.rs", "src/h3_index.rs"], [("IterCellsChildren and its constructor", "src/iterators.rs"), ("cellToChildren", "src/h3_index.rs"), ("_zeroIndexDigits", "src/h3_index.rs")],
  ABS, "proof", "Complete lists for up to two levels (three in the thorough tier), and induction over the iterator state (start, every step, end) for all depths; if the iterator's representation is not recognised, lists up to three levels only, and the evidence says so. " + BASE)
prop("C05", "A child's position determines that child exactly",
  "For a valid parent, a resolution between its own and 15 and a position from 0 up to the number of children, the child at that position is the one with exactly that many children of the parent before it in index order. A negative or too large position gives the domain error, a resolution outside 0 to 15 the resolution-domain error, and a resolution coarser than the parent's the resolution-mismatch error.",
  ["inputs"], "all valid parents of all 16 resolutions, all finer resolutions, all 64-bit positions, all 32-bit resolutions",
  "up to 7^15 positions per parent; tests sample none of the deep ones",
  ["src/h3_index.rs"], [("childPosToCell, validateChildPos", "src/h3_index.rs")],
  ABS, "proof", "Exact, no bound: the position is a symbolic mixed-radix number over the child's digits. " + BASE)
prop("C06", "Directed edges encode, decode and validate consistently",
  "A bit pattern is a valid directed edge exactly when its mode is 2, its direction is 1 to 6, its origin (same bits, mode 1, direction 0) is a valid cell and it does not point along the deleted direction of a pentagon; its origin, destination and pair of cells are that cell and the cell one step away in that direction, and other modes are refused. The edges of an origin are the six directions in order, with a null first entry for a pentagon. The edge between two cells carries the direction whose step from the first cell leads to the second, and if there is none the not-neighbours error is given.",
  ["inputs"], "all 2^64 bit patterns (validity, origin); edges of all valid cells of all 16 resolutions; every destination index",
  "tests visit the edges of a couple of cells",
  ["src/directed_edge.rs", "src/algos.rs"], [("directed edge functions", "src/directed_edge.rs"), ("directionForNeighbor", "src/algos.rs")],
  ABS, "proof", "Exact, no bound. For the edge between two cells the step function is replaced by arbitrary distinct step results (what it computes is C14). " + BASE)
prop("C07", "Index rotation permutes digits and respects the deleted sequence",
  "Rotating a cell index by 60 degrees, in either direction, applies the fixed six-cycle of directions to every digit and changes nothing else. The pentagon variants rotate once more exactly when the result would start with the deleted direction, so they map valid cells of a pentagonal base cell to valid cells of the same base cell.",
  ["inputs"], "all valid cells of all 16 resolutions",
  "7^15 digit strings per base cell; tests rotate only what a few conversions happen to rotate",
  ["src/h3_index.rs", "src/coord_ijk.rs"], [("_h3Rotate60ccw/cw, _h3RotatePent60ccw/cw", "src/h3_index.rs"), ("_rotate60ccw/cw", "src/coord_ijk.rs")],
  ABS, "proof", "Exact, no bound. " + BASE)
prop("C08", "Lattice arithmetic is exact in normal form",
  "Coordinates on the hexagonal lattice name the same point when they differ by a multiple of (1,1,1); the normal form is the non-negative representative with a zero component. Normalising, adding, subtracting, scaling, stepping in a direction, turning by 60 degrees, moving to the centre child in either orientation and finding the parent in either orientation all give exactly the point the algebra of the lattice defines, and a unit vector is recognised as its direction and nothing else is.",
  ["inputs"], "all coordinates with components up to 2^26 in size (the largest on a face is below 2^24), all digits",
  "all of the plane at all resolutions; tests never call these functions directly",
  ["src/coord_ijk.rs"], [("normalise, rotate, add, subtract, scale, up and down functions", "src/coord_ijk.rs")],
  ABS, "proof", "Exact for every coordinate up to 2^26; i32-to-double conversions are exact there, and the divisions by 7 are proved to round to the right integer as rationals. " + BASE)
prop("C09", "A cell's place on its face encodes back to that cell",
  "For every valid cell of a hexagonal base cell, at every resolution, decoding the cell to its planar address (face, lattice coordinate) and encoding that address at the same resolution gives exactly that cell back, whether or not the cell lies beyond the edge of its base cell's home face; neither direction fails.",
  ["inputs"], "all valid cells of the 110 hexagonal base cells at all 16 resolutions",
  "110 times 7^15 cells; the tests' few conversions seldom cross the edge of a face",
  ["src/h3_index.rs", "src/face_ijk.rs", "src/coord_ijk.rs", "src/base_cells.rs"], [("_h3ToFaceIjk", "src/h3_index.rs"), ("_faceIjkToH3", "src/h3_index.rs"), ("_adjustOverageClassII", "src/face_ijk.rs"), ("base cell and face tables", "src/base_cells.rs")],
  ABS, "proof", "Needs no reference: both directions are the crate's own. Cells of pentagonal base cells are left out (their repeated face changes are not resolved finely enough; C11 and C12 decide each direction for them against the reference). Lattice operations that are decided equal to their definitions in the same run are used by their meaning. " + BASE)
prop("C10", "Base cells are classified, listed and located exactly",
  "Exactly the twelve pentagonal base cells are classified as pentagons, and exactly 4 and 117 as polar ones; no other number is. The base cell at each of the 27 resolution 0 positions of each of the 20 faces, its rotation there, and the faces on which a pentagon's missing sequence is turned clockwise are those of the H3 grid, and the list of resolution 0 cells holds the 122 base cells in order.",
  ["inputs"], "all 32-bit base cell numbers (classification), all faces and positions",
  "540 table positions; tests touch a few of them",
  ["src/base_cells.rs"], [("face and base cell tables and their accessors", "src/base_cells.rs"), ("getRes0Cells", "src/base_cells.rs")],
  ABS, "proof", "Exact, no bound; the tables are part of the reference. " + BASE)
prop("C11", "A planar address is encoded as the index that addresses it",
  "A position on a face of the icosahedron, given by face, resolution and lattice coordinates, is encoded as the cell whose digits lead down to that position from the base cell found at its resolution 0 ancestor, turned into that base cell's orientation and, for a pentagon, out of the deleted direction. Positions whose ancestor is outside the face's range of base cells give the null index.",
  ["inputs"], "all 20 faces, all 16 resolutions, all base positions of a face, every digit string and every equivalent coordinate triple",
  "up to 7^15 positions per base position and face; tests convert a handful",
  ["src/h3_index.rs", "src/coord_ijk.rs", "src/base_cells.rs"], [("_faceIjkToH3", "src/h3_index.rs"), ("up and down functions", "src/coord_ijk.rs"), ("face table", "src/base_cells.rs")],
  ABS, "proof", "Exact over all digit strings; normalisation is used by its meaning, which C08 decides. " + BASE)
prop("C12", "A cell is located on the right face at the right lattice position",
  "The planar address of a valid cell is found by following its digits from its base cell's home position and, where that leads beyond the home face, moving to the neighbouring face across the right edge with that edge's turn and translation, repeatedly around pentagons, and skipping the deleted sequence. Moving a coordinate to the face it lies on is exact for every coordinate, and an index with a base cell beyond 121 is refused as an invalid cell.",
  ["inputs"], "all valid cells of all 16 resolutions; all coordinates up to 2^26, all faces, all grids and both special modes of the face change",
  "122 times 7^15 cells; tests convert a handful, few of them across a face edge",
  ["src/h3_index.rs", "src/face_ijk.rs", "src/coord_ijk.rs", "src/base_cells.rs"], [("_h3ToFaceIjk, _h3ToFaceIjkWithInitializedFijk", "src/h3_index.rs"), ("_adjustOverageClassII and its tables", "src/face_ijk.rs"), ("home positions of base cells", "src/base_cells.rs")],
  ABS, "proof", "The face change is decided on its own for every coordinate; in the conversion it may answer anything on the grid it was given, at most four changes in a row. Lattice steps and normalisation are used by their meaning, which C08 decides. " + BASE)
prop("C13", "A point of the plane is quantised to the nearest lattice point",
  "Every point of a face's plane is assigned the lattice point, in normal form, whose centre is nearest to it; no neighbouring lattice point is closer. The centre of a lattice point is its position on the hexagonal grid with unit spacing, the first axis along x.",
  ["inputs"], "all points of the plane with coordinates up to 2^25 in size, all lattice coordinates up to 2^26",
  "an unbounded plane of points; the regions of the case distinction are slivers around each hexagon's corners, in every quadrant and row parity, which a few conversions never meet",
  ["src/coord_ijk.rs"], [("_hex2dToCoordIJK, _ijkToHex2d", "src/coord_ijk.rs"), ("M_SIN60, M_SQRT3_2", "src/constants.rs")],
  ABS, "proof", "Decided in real arithmetic, with a margin of 1e-6 of the spacing: rounding of doubles is not modelled, and a point closer than that to a cell boundary may be given to either cell. " + BASE)
prop("C14", "One grid step is exact for every cell, direction and rotation",
  "For every valid cell, direction and incoming rotation, one grid step returns the neighbouring cell and the rotation of its coordinate frame that the H3 grid defines: digit carries per aperture-7 level, the base-cell adjacency and rotation tables, and the distortions around the twelve pentagons. A step from a pentagon finer than resolution 0 along its deleted direction gives the pentagon error, a step along an invalid direction the failure error.",
  ["inputs"], "all valid cells of all 16 resolutions, directions 0 to 7, rotations 0 to 5",
  "122 times 7^15 cells per direction and rotation; tests walk rings around a few cells",
  ["src/algos.rs", "src/base_cells.rs", "src/h3_index.rs", "src/coord_ijk.rs"], [("h3NeighborRotations and the carry tables", "src/algos.rs"), ("base-cell neighbour and rotation tables", "src/base_cells.rs")],
  ABS, "proof", "Exact over all 16 resolutions, no bound; the tables are part of the reference. " + BASE)
prop("C15", "Fast disks and rings walk the grid in order or refuse at pentagons",
  "The fast disk for k lists the origin and then ring by ring every cell met when walking the rings counter-clockwise with single grid steps, each with its ring number; the fast ring for k lists the k-th ring alone. If the walk meets a pentagon, or the ring does not close on its start, the answer is the pentagon error and not a list of wrong cells, and any error of a step is passed on.",
  ["inputs"], "whatever the single steps answer (all cells, resolutions, rotations and failures at once), for k up to 5 (8 in the thorough tier)",
  "every origin next to or away from a pentagon, at every resolution, with any starting rotation; tests check a few origins",
  ["src/algos.rs"], [("gridDiskDistancesUnsafe, gridRingUnsafe", "src/algos.rs")],
  ABS, "other", "The step function is left uninterpreted (what it computes is C14), so origins are unbounded; k is bounded by 5 (thorough: 8). " + BASE)
prop("C16", "A safe disk lists each cell within k steps once, with its distance",
  "The safe disk for k returns every cell that can be reached from the origin in at most k grid steps, each exactly once and with the least number of steps, also when the disk contains a pentagon. A step error other than the pentagon one is passed on.",
  ["inputs"], "hexagonal neighbourhoods and neighbourhoods around one pentagon at every position, arbitrary cell identifiers (hence hash collisions), for k up to 3 (4 in the thorough tier)",
  "tests check a few origins; collisions in the open hash table depend on the bits of every cell in the disk",
  ["src/algos.rs"], [("gridDiskDistances and its hash-table recursion", "src/algos.rs")],
  ABS, "other", "The step function is replaced by an abstract neighbourhood with one pentagon at most; k is bounded by 3 (thorough: 4). " + BASE)
prop("C17", "A point is projected onto its nearest face at the right place",
  "Every point of the sphere, whatever its longitude's winding, is projected onto the face of the icosahedron whose centre is nearest, to its gnomonic position on that face in cells of the resolution asked for, turned for odd resolutions. The index of a point is the cell at that position. A resolution outside 0 to 15 gives the resolution error and a coordinate that is not finite the coordinate error, before anything else.",
  ["inputs"], "all latitudes and longitudes up to 10 radians in size, all 16 resolutions; every resolution number; every combination of non-finite coordinates",
  "a sphere of points, twenty faces and their edges; tests convert four points and some extremes",
  ["src/face_ijk.rs", "src/h3_index.rs", "src/lat_lng.rs", "src/vec3d.rs"], [("_geoToHex2d, _geoToClosestFace and the face tables", "src/face_ijk.rs"), ("latLngToCell", "src/h3_index.rs"), ("_geoAzimuthRads", "src/lat_lng.rs")],
  REAL, "other", REALNOTE + BASE)
prop("C18", "The centre of a cell is the point under its place on its face",
  "The point under a planar position on a face is the one found at the gnomonic distance and in the direction of that position from the face's centre, at every resolution and on the finer substrate grids, with the latitude between the poles and the longitude between -pi and pi. The centre of a cell is the point under the centre of its lattice coordinate on its face, and an index that has no such coordinate gives the error of that conversion.",
  ["inputs"], "all planar positions up to 10^10, all lattice coordinates up to 2^27, 20 faces, 16 resolutions, both grids",
  "20 faces by 16 resolutions of planes with poles and the antimeridian in them; tests locate four cells",
  ["src/face_ijk.rs", "src/h3_index.rs", "src/lat_lng.rs", "src/vec2d.rs"], [("_hex2dToGeo, _faceIjkToGeo and the face tables", "src/face_ijk.rs"), ("cellToLatLng", "src/h3_index.rs"), ("_geoAzDistanceRads, constrainLng", "src/lat_lng.rs")],
  REAL, "other", REALNOTE + BASE)
prop("C19", "The disk size bound is exact for every k",
  "For every k the maximum disk size is 3k(k+1)+1, or the number of cells of the finest resolution where that would be smaller, without arithmetic overflow.",
  ["inputs"], "all 32-bit values of k",
  "tests use a handful of small k; the overflow for large k went unnoticed",
  ["src/algos.rs"], [("maxGridDiskSize", "src/algos.rs")],
  ABS, "proof", "Exact over all 32-bit k, including the absence of overflow. " + BASE)
prop("C20", "Results depend on the arguments alone",
  "Every operation gives the same answer for the same arguments, whatever was called before, on which thread, on which machine and in which environment. No operation keeps state between calls or has an effect besides its result.",
  ["histories", "schedules", "configurations"], "all sequences of calls from any number of threads, all environments",
  "a test sees one history in one process; a stale cache needs the right two calls in the right order",
  ["src/lib.rs", "src/algos.rs", "src/h3_index.rs", "src/face_ijk.rs", "src/iterators.rs"], [("all functions of the crate", "src/lib.rs")],
  "effect analysis over the compiler's resolved call graph (monomorphic MIR) and the statics it refers to", "other",
  "Judges what the code can reach: a cache that is provably harmless would still be reported. Tables with random keys may be used as sets, not iterated. Trusts rustc's MIR and the MIR dumper; generic functions are analysed through the instances the crate uses.")
prop("C21", "Angles and spherical coordinates are computed as defined",
  "Angles are brought into one turn from 0, latitudes below the north pole and longitudes between -pi and pi by whole turns or half turns; degrees become radians; two points are almost equal exactly when both coordinates differ by less than the threshold; azimuth, the point at a distance and azimuth (with the poles at longitude 0), the position in space and distances are those of spherical trigonometry.",
  ["inputs"], "all finite inputs of a few turns in size",
  "real-valued functions of up to five arguments; tests do not call them directly",
  ["src/lat_lng.rs", "src/vec2d.rs", "src/vec3d.rs"], [("angle and point helpers", "src/lat_lng.rs"), ("_v2dMag", "src/vec2d.rs"), ("_geoToVec3d, _pointSquareDist", "src/vec3d.rs")],
  REAL, "other", REALNOTE + BASE)

prop("C24", "Malformed indexes are refused or pass through without a crash",
  "No 64-bit pattern, however malformed, makes an operation on it panic or overflow: testing validity or pentagons, counting children, rotating, stepping to a neighbour in any direction with any rotation, and reading the origin, the destination, the cells or the edges of it. A step from an index whose base cell is beyond 121, or whose digit at its own resolution is the unused marker 7, is refused with the invalid-cell error.",
  ["inputs"], "all 2^64 patterns, all directions and rotations, all 32-bit child resolutions",
  "malformed patterns are not tested at all; the guards matter only when a carry reaches the malformed digit",
  ["src/algos.rs", "src/h3_index.rs", "src/directed_edge.rs", "src/base_cells.rs"], [("h3NeighborRotations guards", "src/algos.rs"), ("isPentagon, cellToChildrenSize, rotations", "src/h3_index.rs"), ("edge functions", "src/directed_edge.rs")],
  ABS, "proof", "Panics include arithmetic overflow (an overflow-checked build) and table bounds. Enumerating the children of a malformed index and locating it are not included. " + BASE)

na("C22", "Every point lies in the cell it is given",
  "The cell computed for a point of the sphere is the one whose centre, among all cells of that resolution, is nearest to the point on its face, and the centre of every cell is given that very cell back when computed as doubles.",
  ["inputs"], "all pairs of doubles, all resolutions",
  "needs the rounding of every double operation between a coordinate and its cell",
  ["src/h3_index.rs", "src/face_ijk.rs"], [("latLngToCell, cellToLatLng", "src/h3_index.rs")],
  "C13, C17 and C18 decide both conversions as functions on the reals and C09, C11, C12 the integer part exactly; the round trip in doubles depends on the accumulated rounding of some forty libm calls whose error no static argument in reach bounds tightly enough at resolution 15.")
na("C23", "Disk sizes and ring lengths beyond the analysed radius",
  "Fast and safe disks, and rings, are complete and ordered for every radius k up to the bound of 32 bits.",
  ["inputs"], "all k",
  "the number of visited cells grows with the square of k",
  ["src/algos.rs"], [("gridDiskDistances, gridDiskDistancesUnsafe, gridRingUnsafe", "src/algos.rs")],
  "C15 and C16 unroll the walk for the radii they name; an invariant for all k would need the geometry of the whole grid (which cells two spirals share), a global runtime quantity no dataflow fact of the loop carries.")
