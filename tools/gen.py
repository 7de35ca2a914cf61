#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
I, S, T = "delynoi/include/delynoi/", "delynoi/src/", "triangle"
TESTS = "The existing programs run nine fixed domains end to end and assert nothing about the result; "
P = []
def p(id, title, statement, over, text, why, files, mech, observe, technique, note, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, claimed=claimed, reason=reason))

p("V01", "Voronoi cells tile the domain minus its holes",
  "For every simple domain, with or without interior or boundary-crossing holes, and every set of seed points inside it, the cells of the generated Voronoi mesh are counterclockwise polygons that do not cross themselves and cover the domain minus its holes exactly once: no gap, no overlap, nothing outside.",
  ["inputs"], "All domains, holes and seed sets (explored: every simple polygon of the 3x3 lattice with every small seed set, 4x4 lattice polygons under rotations and scalings, curated domains with all seed grids, all hole positions of a lattice, large grids).",
  TESTS + "a gap or overlap appears only for particular combinations of corner angles, holes and seed positions.",
  [S+"voronoi/DelaunayToVoronoi.cpp", S+"voronoi/TriangleDelaunayGenerator.cpp", S+"models/Region.cpp", S+"models/hole/PolygonalHole.cpp", I+"voronoi/lib/triangle.c"],
  [("walk around every Delaunay vertex joining circumcenters", S+"voronoi/DelaunayToVoronoi.cpp"), ("hole carving from the hole's center", S+"voronoi/TriangleDelaunayGenerator.cpp")],
  ["TriangleVoronoiGenerator::getMesh()"],
  "bounded exhaustive enumeration of scenarios executed on the real code, tiling oracle",
  "Every scenario of the listed finite spaces is executed on the real library and checked by a complete tiling criterion (directed-edge matching plus area). Seeds closer than 1e-3 to (but not on) the boundary are outside the claim.")

p("V02", "One Voronoi cell per site, made of the points nearest to it",
  "The Voronoi mesh has exactly one cell for every vertex of the accompanying triangulation, among which are every given seed point and every corner of the domain and of its holes. The cell of a site contains the site and consists of the points of the domain that are at least as near to it as to any other site they can see.",
  ["inputs"], "All domains, holes and seed sets of the scenario spaces (as V01).",
  TESTS + "no test relates a cell to its site.",
  [S+"voronoi/DelaunayToVoronoi.cpp", S+"voronoi/TriangleVoronoiGenerator.cpp", S+"voronoi/TriangleDelaunayGenerator.cpp", S+"models/polygon/Triangle.cpp"],
  [("cells are circumcenter rings of conforming Delaunay vertices", S+"voronoi/DelaunayToVoronoi.cpp")],
  ["TriangleVoronoiGenerator::getMesh()", "TriangleVoronoiGenerator::getTriangulation()"],
  "bounded exhaustive enumeration of scenarios executed on the real code, nearest-site oracle",
  "Every cell's corners, edge midpoints and centroid are tested against every visible site; every interior edge must be equidistant from the two sites it separates; cells and sites are matched one to one.")

p("V03", "Adjacency records of generated meshes match their elements",
  "In every Voronoi and Delaunay mesh the segment records hold exactly the edges of the elements, each with the two elements that share it or with one element and -1 on the border, and the point records hold exactly the corners of the elements, each with exactly the elements that use it. Mesh points are pairwise distinct, elements refer to them by valid indexes, and looking up a segment, present or absent, does not change the mesh.",
  ["inputs"], "All generated meshes of the scenario spaces (Voronoi, its triangulation, conforming and constrained Delaunay), and every edge and every absent segment of each.",
  TESTS + "the neighbour maps are never read.",
  [I+"models/Mesh.h", S+"models/neighbourhood/SegmentMap.cpp", S+"models/neighbourhood/PointMap.cpp", S+"models/neighbourhood/NeighboursBySegment.cpp", S+"voronoi/DelaunayToVoronoi.cpp", I+"voronoi/TriangleDelaunayGenerator.h"],
  [("both maps are filled while the elements are built", S+"voronoi/DelaunayToVoronoi.cpp")],
  ["Mesh::getSegments", "Mesh::getPointMap", "Mesh::getNeighbours"],
  "bounded exhaustive enumeration of scenarios executed on the real code, adjacency recomputed from the elements",
  "Complete comparison of both maps with the adjacency recomputed from the element corner lists for every mesh of the spaces; repeated entries in a point's list are not distinguished from single ones.")

p("V04", "Mesh points know whether they are in the boundary",
  "In every Voronoi and Delaunay mesh, however obtained and copied, a point that an element uses is reported to be in the boundary exactly when it lies on the border of the mesh: on the outline of the domain or of one of its holes. Corners, points added on the outline, seeds and circumcenters that happen to lie on it belong to it; restricted segments inside of the domain do not.",
  ["inputs"], "All generated meshes of the scenario spaces (Voronoi, its triangulation, conforming, constrained and restricted Delaunay) and their copies, and every point of each.",
  TESTS + "no test reads the flag, on which users impose boundary conditions.",
  [S+"voronoi/DelaunayToVoronoi.cpp", S+"voronoi/TriangleDelaunayGenerator.cpp", I+"models/basic/Point.h", S+"models/basic/Point.cpp", I+"voronoi/lib/triangle.c"],
  [("flags set from the markers of Triangle", S+"voronoi/TriangleDelaunayGenerator.cpp"), ("border midpoints and corners flagged when cells are closed", S+"voronoi/DelaunayToVoronoi.cpp")],
  ["Point::isInBoundary", "Mesh::getPoint", "Mesh::getPoints"],
  "bounded exhaustive enumeration of scenarios executed on the real code, border recomputed from the elements",
  "The flag of every used point is compared with the ends of the edges that have one element only, and with the distance to the outline of the domain and its holes.")

p("T01", "The conforming Delaunay mesh is conforming and Delaunay",
  "The conforming Delaunay mesh has every given seed and every corner of the domain and its holes as a vertex, any further vertex lies on the boundary of the domain or of a hole, and its non-degenerate counterclockwise triangles cover the domain minus its holes exactly once. Every triangle is Delaunay: no vertex lies strictly inside its circumcircle when seen across an edge, and its circumcenter lies in the closed domain.",
  ["inputs"], "All domains, holes and seed sets of the scenario spaces.",
  TESTS + "Delaunay-ness depends on near-degenerate and cocircular seed positions no test has.",
  [S+"voronoi/TriangleDelaunayGenerator.cpp", I+"voronoi/lib/triangle.c", I+"voronoi/TriangleDelaunayGenerator.h"],
  [("Triangle called with conforming-Delaunay switches", S+"voronoi/TriangleDelaunayGenerator.cpp")],
  ["TriangleDelaunayGenerator::getConformingDelaunayTriangulation", "TriangleVoronoiGenerator::getTriangulation"],
  "bounded exhaustive enumeration of scenarios executed on the real code, tiling and in-circle oracles",
  "Every mesh of the spaces is checked for tiling, vertex set, local Delaunay property at every interior edge and location of every circumcenter.")

p("T02", "The constrained Delaunay mesh keeps its segments and adds no vertex",
  "The constrained Delaunay mesh has exactly the given seeds and the corners of the domain and its holes as vertices, its non-degenerate counterclockwise triangles cover the domain minus its holes exactly once, and every boundary segment and every restricted segment is a chain of edges of the mesh. Across every edge that is not part of those segments the two triangles are locally Delaunay.",
  ["inputs"], "All domains, holes, seed sets and sets of non-crossing restricted segments of the spaces, including all small integer point sets scaled so that the predicates are nearly degenerate.",
  TESTS + "only one of them asks for a constrained triangulation and none gives restricted segments.",
  [S+"voronoi/TriangleDelaunayGenerator.cpp", I+"voronoi/lib/triangle.c"],
  [("segments passed to Triangle as constraints", S+"voronoi/TriangleDelaunayGenerator.cpp"), ("exact adaptive predicates", I+"voronoi/lib/triangle.c")],
  ["TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation"],
  "bounded exhaustive enumeration of scenarios executed on the real code, exact integer in-circle oracle",
  "As T01, plus restricted segments; on integer inputs the Delaunay criterion is decided in exact 128 bit arithmetic.")

p("T03", "A Delaunay generator answers every query like a fresh one",
  "Whatever sequence of conforming, constrained and restricted-segment queries one Delaunay generator receives, each query returns the mesh that a newly created generator returns for it, and the meshes it returned before stay as they were.",
  ["histories"], "All query sequences up to the depth bound, over several regions and seed sets.",
  TESTS + "no test queries a generator twice.",
  [S+"voronoi/TriangleDelaunayGenerator.cpp", I+"voronoi/TriangleDelaunayGenerator.h", I+"models/Mesh.h"],
  [("every query starts from empty members and a new segment map", S+"voronoi/TriangleDelaunayGenerator.cpp")],
  ["TriangleDelaunayGenerator"],
  "exhaustive enumeration of API call histories on the real code against a fresh instance",
  "All histories over the query alphabet to the stated depth on every configuration; equality is of the complete observable mesh.")

p("H01", "Meshing is deterministic and leaves its inputs alone",
  "Generating a mesh gives the same mesh, numbering included, whatever was generated, configured and restored, or destroyed before in the same process. It changes neither the region nor the list of seeds it is given, and repeated seed points change neither the set of cells nor their shape.",
  ["histories"], "All sequences up to the depth bound over an alphabet of scenarios and mesh kinds, in one process.",
  TESTS + "each runs one sequence in its own process.",
  [S+"voronoi/TriangleDelaunayGenerator.cpp", I+"voronoi/lib/triangle.c", S+"voronoi/DelaunayToVoronoi.cpp", S+"config/DelynoiConfig.cpp", "lib/utilities/include/utilities/UniqueList.h"],
  [("no state outlives a generator except the configuration", S+"voronoi/TriangleDelaunayGenerator.cpp")],
  ["TriangleVoronoiGenerator", "TriangleDelaunayGenerator"],
  "exhaustive enumeration of call histories on the real code against a fresh process",
  "All sequences of scenarios to the stated depth, each result compared with the result of the same call as the first one of its process.")

p("R01", "A region keeps exactly the seeds inside it, whatever its history",
  "After every sequence of adding seeds (directly, from a file or from a generator), adding and clearing holes, replacing the outline, clearing the seeds and copying, a region's seed list is, in order of insertion, exactly the seeds added and not lost before: adding only appends the points that lie in the region and in no interior hole (the border of the region belongs to it, the border of a hole to the hole), and changing the outline or adding an interior hole drops exactly the seeds no longer inside. Clearing holes keeps the seeds, clearing the seeds keeps the rest, and copies are complete and independent.",
  ["histories"], "All operation sequences up to the depth bound over an alphabet of outlines, holes, seed batches and copies.",
  TESTS + "each adds seeds once to a new region.",
  [S+"models/Region.cpp", I+"models/Region.h", I+"models/hole/Hole.h", S+"models/polygon/Polygon.cpp", S+"models/generator/PointGenerator.cpp"],
  [("clean() after every change", S+"models/Region.cpp")],
  ["Region"],
  "exhaustive enumeration of API call histories on the real code against a reference model",
  "All histories to the stated depth, compared after every step with an independently written model of regions, holes and seeds.")

p("R02", "addHole carves exactly the hole out of the domain",
  "Adding a hole that lies inside the domain records it and leaves the outline as it is; adding one that crosses the outline leaves a region whose outline encloses exactly the old domain minus the hole, to within the resolution of the clipping scale; adding one that lies outside leaves the enclosed domain unchanged. This holds at every position and size of the coordinates and for every sequence of holes that keep clear of each other.",
  ["inputs", "histories"], "All placements of the hole shapes on a lattice around every domain of the list, under translations and scalings, and pairs of holes.",
  TESTS + "two tests use one or two hole positions each.",
  [S+"models/Region.cpp", S+"models/hole/clipper/lib/clipper.cpp", S+"models/hole/PolygonalHole.cpp", S+"models/hole/CircularHole.cpp"],
  [("polygon difference in scaled integers", S+"models/Region.cpp")],
  ["Region::addHole", "Region::getRegionPoints", "Region::getHoles"],
  "bounded exhaustive enumeration of hole placements executed on the real code, area and membership oracle",
  "The region is compared with domain minus hole by exact area and by membership of a lattice of points, for every placement of the spaces. Holes that cut the domain in two and interior holes that overlap each other are known findings.")

p("R03", "Point location in polygons, regions and holes is exact",
  "A polygon, region or hole contains a point exactly when the point lies in its interior or on its border, and a point is reported to lie on its edges, with the right edge, exactly when it lies on the border. The answer does not depend on the direction or the starting corner in which the outline is given, nor on repeated corners or on earlier questions, and follows every change of the outline.",
  ["inputs"], "Every simple polygon of the 3x3 and 4x4 lattices, in both directions and from every starting corner, with every point of the refined lattice around it, under several placements.",
  TESTS + "they call none of these functions themselves and would not notice a wrong answer.",
  [S+"models/polygon/Polygon.cpp", S+"models/Region.cpp", I+"models/hole/Hole.h", S+"models/basic/Segment.cpp", S+"models/basic/IndexSegment.cpp"],
  [("ray casting, then a search for an edge containing the point", S+"models/polygon/Polygon.cpp")],
  ["Polygon::containsPoint", "Polygon::inEdges", "Polygon::containerEdge", "Region::containsPoint", "Region::inEdges", "Hole::containsPoint"],
  "bounded exhaustive enumeration of polygons and points executed on the real code, exact integer oracle",
  "All polygon/point pairs of the lattices, decided by exact integer orientation; placed copies only for points on corners or clearly off the border.")

p("R04", "Self-intersecting outlines are rejected, simple ones accepted",
  "Creating a polygon, region or polygonal hole from a list of points, or replacing its outline, throws when the outline crosses or touches itself away from consecutive edges, and succeeds for every simple outline, in either direction, from any starting corner, with straight corners or immediately repeated points.",
  ["inputs"], "Every closed sequence of up to seven distinct points of the 3x3 lattice and up to five of the 4x4 lattice, in every placement of the list.",
  TESTS + "none gives an invalid outline.",
  [S+"models/polygon/Polygon.cpp", S+"models/Region.cpp", S+"models/hole/PolygonalHole.cpp", S+"models/basic/Segment.cpp"],
  [("pairwise test of non-consecutive edges", S+"models/polygon/Polygon.cpp")],
  ["Polygon(points)", "Region(points)", "PolygonalHole(points)", "Polygon::mutate", "Region::mutate"],
  "bounded exhaustive enumeration of point sequences executed on the real code, exact integer oracle",
  "All point sequences of the lattices; outlines whose only contact is collinear overlap of parallel edges are not claimed to be rejected. Polygons given by index lists are not checked by the library (known finding).")

p("G01", "Polygon measures are exact and follow every change",
  "Area, signed area, diameter, greatest vertex distance, centroid, vertex average, convexity, direction, sides, segments, corner and edge membership of a polygon are those of its current outline, whatever was asked before and after any sequence of replacing the outline, reversing it to counterclockwise and copying; likewise circumcenters of triangles and bounding boxes of regions.",
  ["inputs", "histories"], "Every simple polygon of the lattices in every direction and placement, and all short histories of queries and changes.",
  TESTS + "no test queries a measure twice or after a change.",
  [S+"models/polygon/Polygon.cpp", S+"models/polygon/Triangle.cpp", S+"models/polygon/BoundingBox.cpp", S+"utilities/geometryFunctions.cpp", S+"utilities/convexHull.cpp", S+"models/basic/Point.cpp"],
  [("cached area, diameter and centroid, reset on change", S+"models/polygon/Polygon.cpp"), ("rotating calipers", S+"utilities/convexHull.cpp")],
  ["Polygon", "Triangle", "BoundingBox", "Region::getBox"],
  "bounded exhaustive enumeration of polygons and query histories on the real code against direct formulas",
  "All lattice polygons against exact formulas; all histories of queries and mutations to the stated depth against a fresh polygon.")

p("G02", "Polygon triangulators split every polygon exactly",
  "Ear and Delaunay triangulation split every simple polygon, in either direction, into triangles whose corners are corners of the polygon and that cover it exactly once without degenerate triangles, turning in the direction of the polygon (Delaunay triangles always counterclockwise); the center scheme does the same for every strictly convex polygon with one added point, the average of the corners, and throws for non-convex ones. The triangles refer to the list of points given by the caller, whose existing points stay unchanged, also when the polygon uses only some of them.",
  ["inputs"], "Every simple polygon of the 3x3 lattice and up to seven corners of the 4x4 lattice, in both directions, with index lists that are the identity or not.",
  TESTS + "only the center scheme is reached, if at all.",
  [S+"triangulation/EarTriangulationGenerator.cpp", S+"triangulation/CenterTriangulationGenerator.cpp", S+"triangulation/DelaunayTriangulationGenerator.cpp"],
  [("ears are convex corners whose triangle holds no other corner", S+"triangulation/EarTriangulationGenerator.cpp")],
  ["EarTriangulationGenerator::triangulate", "CenterTriangulationGenerator::triangulate", "DelaunayTriangulationGenerator::triangulate"],
  "bounded exhaustive enumeration of polygons executed on the real code, exact tiling oracle",
  "All polygons of the lattices with an exact tiling check; the ear scheme is claimed for polygons without straight corners.")

p("G03", "Segment and orientation predicates decide exactly",
  "Whether a segment contains a point, whether two segments meet and where, whether points are collinear, the orientation of three points, the middle, length and angle of a segment are right for all positions, do not depend on the order of the end points, and agree between segments given by points and by indexes.",
  ["inputs"], "Every pair of segments and every segment/point pair of the 4x4 lattice, under several placements.",
  TESTS + "the predicates are never called with known answers.",
  [S+"models/basic/Segment.cpp", S+"models/basic/IndexSegment.cpp", S+"models/basic/PointSegment.cpp", S+"models/basic/Point.cpp", S+"utilities/geometryFunctions.cpp", S+"utilities/delynoi_utilities.cpp"],
  [("parametric intersection with a tolerance", S+"models/basic/Segment.cpp")],
  ["IndexSegment", "PointSegment", "geometry_functions", "delynoi_utilities"],
  "bounded exhaustive enumeration of lattice configurations executed on the real code, exact integer oracle",
  "All configurations of the lattice against exact integer predicates. Meeting of parallel collinear segments is not claimed.")

p("S01", "A unique list has set semantics with stable indexes",
  "Through every sequence of operations a unique list holds each value it was given once, in order of first insertion; pushing returns the index of the value, also when it was there already; membership, index lookup, equality, common elements and size agree with its contents after deletions, removal from the front, clearing and copying. Points closer than the tolerance in both coordinates count as the same value.",
  ["histories"], "All operation sequences up to the depth bound over small value sets, for integers and for points including near-equal ones.",
  TESTS + "only pushing is ever exercised.",
  ["lib/utilities/include/utilities/UniqueList.h", S+"models/basic/Point.cpp"],
  [("a vector in step with an index map", "lib/utilities/include/utilities/UniqueList.h")],
  ["UniqueList"],
  "exhaustive enumeration of API call histories on the real code against a reference model",
  "All histories to the stated depth compared with a plain vector model after every operation.")

p("S02", "Neighbourhood maps record exactly what is inserted",
  "A segment map associates each undirected segment with up to two elements, inserted in any order and direction, or with the pair that replaced them; a point map associates each point, within the tolerance, with the list of all elements inserted for it. Lookups, sizes and membership tests agree with the insertions, whatever the indexes.",
  ["histories"], "All insertion and lookup sequences up to the depth bound over a set of segments and points with colliding hashes and near-equal coordinates.",
  TESTS + "the maps are only filled.",
  [S+"models/neighbourhood/SegmentMap.cpp", S+"models/neighbourhood/PointMap.cpp", S+"models/neighbourhood/NeighboursBySegment.cpp", S+"models/neighbourhood/NeighboursByPoint.cpp", I+"voronoi/structures/mapdata.h", S+"models/basic/IndexSegment.cpp", S+"models/neighbourhood/EdgeData.cpp"],
  [("hash maps on unordered index pairs", I+"voronoi/structures/mapdata.h")],
  ["SegmentMap", "PointMap", "NeighboursBySegment", "NeighboursByPoint", "EdgeData"],
  "exhaustive enumeration of API call histories on the real code against a reference model",
  "All histories to the stated depth compared with a plain model after every operation.")

p("I01", "Meshes, regions and seeds survive being written and read",
  "A printed mesh lists its points, edges and elements completely and with the configured number of decimals, and reading it back, with the start index it was written with, gives the same points to that precision, the same elements and the same adjacency. Elements read into a mesh that has some already are appended to it, with the right adjacency. Region files list every point, seed and segment, seed files are read completely and in order, and a file that does not exist, or that ends before everything it announces, is reported by an exception.",
  ["inputs", "configurations"], "All meshes of a scenario space crossed with every output precision and start index; all small seed files.",
  TESTS + "they print meshes and never look at the files; the program for reading one does not compile.",
  [I+"models/Mesh.h", S+"models/Region.cpp", S+"models/neighbourhood/PointMap.cpp", S+"models/neighbourhood/SegmentMap.cpp", S+"config/DelynoiConfig.cpp", "lib/utilities/src/utilities.cpp"],
  [("line oriented text format", I+"models/Mesh.h")],
  ["Mesh::printInFile", "Mesh::createFromFile", "Region::printInFile", "Region::addSeedsFromFile", "SegmentMap::printInFile", "PointMap::printInFile"],
  "bounded exhaustive enumeration of meshes and configurations, round trip on the real code with an independent parser",
  "Every mesh of the space is written, parsed independently, read back and compared, for every precision and start index.")

p("C01", "Circles and arcs are discretized as configured",
  "A circular hole has exactly the configured number of corners, all at the radius from the center, equally spaced, distinct and in counterclockwise order starting on the positive x axis, with its segments closing the ring; an arc has one point more than the configured number, equally spaced from the first to the last angle. Setting a configuration value changes exactly that value, for every later use.",
  ["inputs", "configurations"], "Every discretization grade in the range, with all radii, centers and angle pairs of a grid; all setter sequences up to the depth bound.",
  TESTS + "only the default grade is used.",
  [S+"models/polygon/Circle.cpp", S+"models/hole/CircularHole.cpp", S+"utilities/delynoi_utilities.cpp", S+"config/DelynoiConfig.cpp"],
  [("angle computed from the index and the grade", S+"models/polygon/Circle.cpp")],
  ["Circle::discretizeCircle", "CircularHole", "delynoi_utilities::generateArcPoints", "DelynoiConfig"],
  "bounded exhaustive enumeration of configurations executed on the real code",
  "Every grade of the range with every parameter of the grid.")

p("C02", "Seed generators produce the grid their rules define",
  "A point generator appends exactly nX*nY points, row by row, each obtained by applying its rules to the regular grid spanned by the bounding box, both extremes included: constant keeps, uniform scales, sine and cosine follow their curve, displacement and constant-alternating shift alternate points and alternate rows; with one free variable the rule displaces the other coordinate. Random rules stay within their limits (whole numbers for the integer rules), and noise changes the value of its rule by a magnitude within its limits, whatever the random source delivers.",
  ["inputs", "schedules"], "All grid sizes up to the bound, boxes, rules and pairs of rules, and for random rules every choice of the random engine from a covering set at every draw.",
  TESTS + "random rules are drawn once and never compared with their limits.",
  [S+"models/generator/PointGenerator.cpp", S+"models/generator/functions/FunctorClasses.cpp", S+"models/generator/functions/functions.cpp", S+"models/generator/noise/RandomDoubleNoise.cpp", S+"models/generator/noise/RandomIntegerNoise.cpp", S+"models/generator/functions/RandomDouble.cpp", S+"models/generator/functions/RandomInteger.cpp"],
  [("functors applied to grid coordinates", S+"models/generator/PointGenerator.cpp")],
  ["PointGenerator::generate", "Region::generateSeedPoints", "functions", "noise"],
  "exhaustive enumeration of grids and of the random engine's choices on the real code",
  "The random engine is replaced by one driven by the explorer, which enumerates its outputs; deterministic rules are compared with their definition on every grid.")

p("E01", "Equality and order of polygons, points and segments are consistent",
  "Two polygons are equal exactly when they have the same set of corners, regardless of direction and starting corner, polygon order is a strict total order on distinct polygons, segments are equal regardless of direction and ordered in agreement with that, and points are equal within the tolerance; equal objects find each other as keys of the containers the library provides hashes and orders for.",
  ["inputs"], "All pairs and triples of polygons with corners from a set of indexes chosen to collide, all segments over it, all points of a lattice with offsets around the tolerance.",
  TESTS + "no test compares polygons.",
  [S+"models/polygon/Polygon.cpp", S+"models/basic/IndexSegment.cpp", S+"models/basic/PointSegment.cpp", S+"models/basic/Point.cpp", I+"voronoi/structures/mapdata.h", "lib/utilities/include/utilities/Pair.h"],
  [("hash as a fast path only", S+"models/polygon/Polygon.cpp")],
  ["Polygon::operator==", "Polygon::operator<", "IndexSegment::operator==", "Point::operator<"],
  "bounded exhaustive enumeration of object pairs and triples on the real code",
  "All pairs and triples of the sets.")

p("M01", "No operation sequence corrupts memory",
  "Creating, copying, assigning, querying, printing, reading and destroying regions, holes, generators and meshes in any order never reads or writes memory outside live objects, never uses uninitialised or freed memory in a way that changes results, and never executes undefined behaviour; objects stay usable after the objects they came from are gone.",
  ["histories"], "All sequences of operations up to the depth bound over pools of regions, generators and meshes, and all scenarios of the mesh spaces, under address and undefined-behaviour monitors.",
  TESTS + "they run one straight-line history each without monitors.",
  [S+"voronoi/TriangleDelaunayGenerator.cpp", S+"voronoi/TriangleVoronoiGenerator.cpp", I+"models/Mesh.h", S+"models/Region.cpp", I+"voronoi/lib/triangle.c", S+"models/hole/clipper/lib/clipper.cpp"],
  [("value semantics; neighbour maps shared between copies and never freed", I+"models/Mesh.h")],
  ["the whole public API"],
  "exhaustive enumeration of API call histories on the real code with address and undefined-behaviour monitors",
  "All histories to the stated depth with every load and store monitored; leaks are not claimed.")

p("X01", "A refused operation leaves everything as it was",
  "An operation that is refused with an exception leaves every object as it was: an outline that crosses itself given to a polygon or region, a hole around the whole region or with a crossing outline, seeds or a mesh from a file that is missing or cut short, a triangulation from the center of a polygon that is not convex, a generator without a rule it needs. The region, polygon, list of points, seeds and meshes involved answer everything afterwards, and take part in every later operation, as if it had never been attempted.",
  ["histories"], "All histories up to the depth bound over an alphabet of accepted operations with every refused operation at every position; all crossing outlines, holes, non-convex polygons and point lists of lattices.",
  TESTS + "no test provokes a refusal.",
  [S+"models/polygon/Polygon.cpp", S+"models/Region.cpp", S+"models/hole/PolygonalHole.cpp", S+"triangulation/CenterTriangulationGenerator.cpp", I+"models/Mesh.h", "lib/utilities/src/utilities.cpp"],
  [("checks come before changes", S+"models/Region.cpp"), ("a rejected outline is taken back", S+"models/polygon/Polygon.cpp")],
  ["Polygon::mutate", "Region::mutate", "Region::addHole", "Region::addSeedsFromFile", "CenterTriangulationGenerator::triangulate", "Mesh::createFromFile"],
  "exhaustive enumeration of API call histories with one refused call at every position, compared with the history without it, on the real code",
  "Every history is executed twice, with and without the refused call, and both objects are compared in everything they answer.")

def main():
    src = lambda i: os.path.exists(os.path.join(V, "src", i + ".cpp"))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]], "observe_at": q["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        if q["claimed"] and src(q["id"]):
            checks.append({"property": q["id"], "quick_cmd": "./check %s --tier quick" % q["id"], "thorough_cmd": "./check %s --tier thorough" % q["id"],
                           "evidence_file": "evidence/%s.json" % q["id"], "technique": q["technique"], "level": "model_checking", "level_note": q["note"]})
        else: na.append({"property": q["id"], "reason": q["reason"] or "the explorer for it is not built yet"})
    json.dump({"version": 1, "setup_cmd": "./check --prebuild", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: every check compiles the library from /repo's working tree and drives its public API. See DESIGN.md."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
