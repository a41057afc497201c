P("C01", "Point, vector and direction algebra; equality and parallelism tolerances",
  "Points, vectors and directions obey their algebra for every operand: a displacement between two points carries one onto the other, scalar and cross products have their textbook values and symmetries, directions have unit length and the sense of the vector they come from, and operations leave their operands unchanged. "
  "Two points are equal exactly when they are closer than the tolerance, and this test is reflexive and symmetric. "
  "Vectors are reported parallel whenever one is a multiple of the other, whatever the sign of the factor, and never when they enclose a clearly visible angle.",
  ["inputs"], "all points and vectors with coordinates up to 100 (20 for products of three), all scale factors up to 50, lengths from 1e-3, all tolerances",
  "The tests evaluate a handful of literal vectors with integer coordinates; opposite-sense parallel vectors, oblique directions and tolerances near the limit are never sampled.",
  [G+"point.hh", G+"vector.hh", G+"direction.hh", "frackit/common/math.hh"],
  [("component-wise operators", G+"vector.hh VectorBase, PointBase"), ("isParallel", G+"vector.hh"), ("crossProduct, boxProduct, makeOrthogonalVector", "frackit/common/math.hh, "+G+"vector.hh")],
  ["coordinates of the returned points, vectors and directions", "boolean queries"])
P("C02", "Lines, segments and planes: orthogonal projection, frames, containment",
  "Projecting a point onto a line or a plane yields the closest point of that line or plane: the result lies in it, the offset is orthogonal to it, and projecting twice changes nothing; projecting a line or segment onto a plane projects its points and keeps its sense. "
  "A plane carries a right-handed orthonormal frame, and a plane through three points contains them with the normal given by the right-hand rule. "
  "A line, plane or segment contains a point exactly when the point is within the tolerance, a segment never beyond its ends, and segment parameters run linearly from source to target.",
  ["inputs"], "all lines, planes and segments in arbitrary position and orientation with coordinates up to 100, segment lengths from 0.01, tolerances from 1e-6 to 5",
  "Tests use a few axis-aligned lines and planes and a fixed tolerance; oblique orientations, reversed senses and points just inside or outside the tolerance are infinite in number.",
  [G+"line.hh", G+"segment.hh", G+"plane.hh"],
  [("projection", G+"line.hh, "+G+"plane.hh"), ("contains", G+"line.hh, "+G+"segment.hh, "+G+"plane.hh"), ("three-point constructor", G+"plane.hh")],
  ["projected points, basis vectors", "contains() answers"])
P("C03", "Containment in boxes, spheres, cylinders, cylinder surfaces and disks",
  "A box, sphere, cylinder, hollow cylinder, cylinder surface or disk contains every point of the set it represents and every point that deviates by less than the given tolerance, and excludes every point that deviates by more, in any position and orientation. "
  "The default tolerance accepts the points of the set itself and rejects points clearly outside. "
  "Skipping the plane check of a disk leaves its in-plane test intact.",
  ["inputs"], "all shapes with sizes from 0.1 to 50 in arbitrary position and orientation, all query points up to 120, tolerances from 1e-6 to 5",
  "Tests probe a few hand-picked points of unit-sized, mostly axis-aligned shapes; the tolerance band and rotated shapes form a continuum.",
  [G+"box.hh", G+"sphere.hh", G+"cylinder.hh", G+"hollowcylinder.hh", G+"cylindersurface.hh", G+"disk.hh", G+"ellipticalgeometry.hh"],
  [("contains", G+"box.hh, "+G+"sphere.hh, "+G+"cylinder.hh, "+G+"hollowcylinder.hh, "+G+"cylindersurface.hh, "+G+"disk.hh")],
  ["contains() answers"])
P("C04", "Triangles, quadrilaterals and polygons: area, centroid, convexity, containment",
  "For every convex planar ring of corners, the area, the centroid and the supporting plane (normal by the right-hand rule of the corner order) are those of the spanned region, and the edges join consecutive corners around the boundary. "
  "Such a shape contains each point of the region and excludes points off its plane or outside its boundary by more than the tolerance, also with the default tolerance. "
  "A quadrilateral or polygon with a reflex corner, at whichever position, is reported as not convex; a polygon then refuses area and containment queries, and fewer than three corners are refused.",
  ["inputs"], "all convex rings of up to five corners with local coordinates up to 10, in arbitrary position and orientation; rings with one reflex corner at every position; tolerances from 1e-3 to 0.5",
  "Tests check a square and one or two fixed polygons; which corner is reflex, the orientation of the plane and points near the boundary are not covered.",
  [G+"triangle.hh", G+"quadrilateral.hh", G+"polygon.hh", G+"triangulation.hh"],
  [("area and centre from a triangulation", G+"quadrilateral.hh, "+G+"polygon.hh"), ("sub-triangle area containment test", G+"triangle.hh, "+G+"quadrilateral.hh, "+G+"polygon.hh"), ("determineConvexity_", G+"quadrilateral.hh, "+G+"polygon.hh")],
  ["area(), center(), supportingPlane(), isConvex(), contains()"],
  [("isConvex_", "whether all corners turn the same way", G+"polygon.hh")])
P("C05", "Circles, ellipses, arcs and disks: parametrisation, angles and containment",
  "Circles, ellipses and elliptical arcs are parametrised by angle about their centre in their own right-handed frame: the point at an angle lies on the curve at that angle, parameters are fractions of the full turn, and the angle of a point on an ellipse is recovered uniquely in [0,2pi), while points off the ellipse are refused. "
  "A circle or ellipse contains its points and excludes points off its plane or off the curve; an arc contains exactly the points met when turning counter-clockwise from its source to its target, its ends included, and an arc whose ends coincide is the full ellipse. "
  "A disk lies between its centre and its bounding ellipse, and its parametrised points belong to it.",
  ["inputs"], "all circles, ellipses, arcs and disks with axis lengths from 0.1 to 20 in arbitrary position and orientation, all angles and parameters, all points of their planes, tolerances from 1e-6 to 0.5",
  "Tests evaluate a few angles of axis-aligned unit circles and two arcs; arcs crossing angle zero, eccentric rotated ellipses and points close to the curve or the arc ends are not covered.",
  [G+"circle.hh", G+"ellipse.hh", G+"ellipsearc.hh", G+"disk.hh", G+"ellipticalgeometry.hh"],
  [("getAngle, getParam, getPoint, getPointFromAngle", G+"ellipse.hh, "+G+"circle.hh, "+G+"ellipsearc.hh, "+G+"disk.hh"), ("contains", G+"ellipse.hh, "+G+"ellipsearc.hh, "+G+"circle.hh"), ("arc angles and full-ellipse flag", G+"ellipsearc.hh")],
  ["points, angles, parameters and contains() answers"])
P("C06", "Derived geometry and magnitudes: boxes, cylinders, hollow cylinders, spheres",
  "The faces, edges and corners of a box are exactly those of the rectangular solid between its bounds; the base disks, rims, lateral surface, centre segment and axis of a cylinder, cylinder surface or hollow cylinder are those of the solid with the given radius (radii) and height standing on its base, in any orientation. "
  "Lengths, areas and volumes agree with the closed formulas, whether asked from the shape or through the magnitude functions; points have magnitude zero and the length of an ellipse lies between those of its inscribed and enclosing circles. "
  "Degenerate input is refused: boxes with an upper bound below the lower one, cylinders on a non-circular base, hollow cylinders with outer radius below the inner one.",
  ["inputs"], "all boxes with bounds in [-100,100], all cylinders, surfaces and hollow cylinders with radii and heights from 0.1 to 20 in arbitrary position and orientation",
  "Tests use one box and a few cylinders standing on the origin; each face, edge and rim depends on its own set of coordinates, and orientation is continuous.",
  [G+"box.hh", G+"cylinder.hh", G+"cylindersurface.hh", G+"hollowcylinder.hh", G+"sphere.hh", "frackit/magnitude/magnitude.hh", "frackit/magnitude/area.hh", "frackit/magnitude/length.hh", "frackit/magnitude/volume.hh"],
  [("corner, edge, face", G+"box.hh"), ("bottomFace, topFace, lateralFace, lowerBoundingCircle, upperBoundingCircle, centerSegment", G+"cylinder.hh, "+G+"cylindersurface.hh, "+G+"hollowcylinder.hh"), ("computeMagnitude and its parts", "frackit/magnitude/")],
  ["derived shapes, magnitudes, exceptions"])
P("C07", "Distances between geometries and to boundaries; points on boundaries",
  "Distances are never negative and symmetric in their arguments: the distance of two points, of a point and a line and of a point and a segment is that to the closest point, the distance to several geometries is the smallest one, and the distance to a variant is that to its content. "
  "The boundary of a disk or cylinder surface is its rim(s), of a quadrilateral, polygon or box all of its edges or faces, of a shape its outer wire or shell, and the distance to a boundary is that to its closest part. "
  "A point lies on a boundary exactly when it is closer to it than the tolerance given; the default tolerance accepts the points of the boundary. "
  "What cannot be computed is refused with an error instead of a number.",
  ["inputs"], "all points and shapes with coordinates up to 80 relative to each other, sizes from 0.1 to 50, tolerances from 1e-2 to 2",
  "Tests compute a few distances between literal shapes; which edge or rim is closest and where the tolerance lies are continuous choices.",
  ["frackit/distance/distance.hh", "frackit/distance/distancetoboundary.hh", "frackit/distance/pointonboundary.hh", "frackit/distance/pointongeometry.hh"],
  [("computeDistance overloads", "frackit/distance/distance.hh"), ("computeDistanceToBoundary", "frackit/distance/distancetoboundary.hh"), ("pointOnGeometryBoundary", "frackit/distance/pointonboundary.hh")],
  ["returned distances, boolean answers, exceptions"])
P("C08", "Boundary representations, bounding boxes, overlap tests, geometry dispatch",
  "Converting a geometry to its boundary representation keeps it: the vertex, edge, wire, face or solid of a point, segment, circle, ellipse, arc, disk, quadrilateral, polygon, box, cylinder or cylinder surface has its position, sense, extent and parts, and converting back returns the original values. "
  "The bounding box of a geometry contains all of it and touches it on every side. "
  "Two boxes, or two intervals, are reported to overlap exactly when they do within the tolerance, in either order. "
  "A geometry handed around through its abstract interface or a variant is recovered with its own type, name and dimension, and nothing else is accepted in its place.",
  ["inputs"], "all geometries with coordinates up to 20 and sizes from 0.1 to 50 in arbitrary position and orientation (cylinders and boxes around round shapes: three frames), all pairs of boxes and intervals",
  "Tests convert one instance of some of the geometries and count sub-shapes; which side of a box a rotated geometry touches, arcs crossing angle zero, and boxes that overlap in only some of the directions are not covered.",
  ["frackit/occ/breputilities.hh", "frackit/occ/gputilities.hh", "frackit/geometryutilities/getboundingbox.hh", "frackit/intersection/bboxintersection.hh", "frackit/geometryutilities/applyongeometry.hh", "frackit/geometryutilities/assign.hh", "frackit/common/math.hh"],
  [("getShape, point, vector, direction, getVertices/Edges/Wires/Faces", "frackit/occ/breputilities.hh, frackit/occ/gputilities.hh"), ("getBoundingBox", "frackit/geometryutilities/getboundingbox.hh"), ("doBoundingBoxesIntersect", "frackit/intersection/bboxintersection.hh"), ("applyOnGeometry, assign, geometryName", "frackit/geometryutilities/")],
  ["coordinates of the sub-shapes and boxes", "boolean answers, recovered geometries and names"])
P("C09", "Intersections of planes, lines and segments",
  "Two planes intersect in the line they share (a point of both, along the cross product of the normals), in nothing when they are parallel and apart, and in the plane itself when they coincide; a plane and a line meet in the common point, in nothing when parallel and apart, and in the line itself when it lies in the plane. "
  "Two segments that cross intersect in the crossing point; collinear segments in exactly their common stretch, or the one point in which they touch; segments that miss each other do not intersect. "
  "The result does not depend on the order of the arguments, the default tolerance is the smaller one of the two geometries, and combinations that are not implemented are refused.",
  ["inputs"], "all planes, lines and segments within 30 of each other, lengths from 0.5 to 40, angles of at least 0.01 rad or exactly zero, crossing segments at four angles, tolerances from 1e-6 to 1",
  "Tests intersect a few literal planes, lines and segments; the relative position along which collinear segments overlap, senses, and the position of the tolerance are a continuum.",
  ["frackit/intersection/intersect.hh", "frackit/intersection/algorithms/algo_plane_plane.hh", "frackit/intersection/algorithms/algo_plane_line.hh", "frackit/intersection/algorithms/algo_segment_segment.hh", "frackit/precision/defaultepsilon.hh"],
  [("intersect overloads", "frackit/intersection/intersect.hh"), ("intersect_plane_plane, intersect_plane_line, intersect_segment_segment", "frackit/intersection/algorithms/")],
  ["kind and coordinates of the intersection, exceptions"])
P("C10", "Intersections of disks, quadrilaterals and polygons",
  "A line in the plane of a disk, quadrilateral or convex polygon cuts its chord out of it, touches it in a corner or a tangent point, or misses it; a line through the plane meets the face in the point where it pierces it, if that point belongs to the face. "
  "Two such faces in crossing planes intersect in the stretch their chords along the common line share, in a point if they only touch, and in nothing otherwise; parallel faces apart never intersect. "
  "The result does not depend on the order of the arguments, coplanar faces and polygons that are not convex are refused.",
  ["inputs"], "disks, quadrilaterals and polygons of four shapes in sizes from 0.5 to 20 at any position; pairs at two angles with any offset along the common line and several heights; chords and gaps of at least 1e-2 or exact touching",
  "Tests intersect a handful of pairs in fixed positions; the offsets for which chords overlap, nest, touch or miss, and which corner or rim touches, form a continuum.",
  ["frackit/intersection/algorithms/algo_planargeom_planargeom.hh", "frackit/intersection/algorithms/algo_planargeom_line.hh", "frackit/intersection/algorithms/algo_disk_disk.hh", "frackit/intersection/algorithms/algo_disk_line.hh", "frackit/intersection/algorithms/algo_quadrilateral_quadrilateral.hh", "frackit/intersection/algorithms/algo_polygon_polygon.hh"],
  [("intersect_planarGeometry_planarGeometry", "frackit/intersection/algorithms/algo_planargeom_planargeom.hh"), ("intersect_planarGeometry_line", "frackit/intersection/algorithms/algo_planargeom_line.hh"), ("characteristic lengths", "frackit/intersection/algorithms/algo_*.hh")],
  ["kind and coordinates of the intersection, exceptions"])
P("C11", "Intersections of cylinder surfaces with planar faces",
  "A disk, quadrilateral or convex polygon across a cylinder cuts its lateral surface in the ellipse of its plane when it covers the whole cross section, in the arcs that lie on the face when it covers part of it, and in the straight generators within both when it stands parallel to the axis; a face that only touches the surface meets it in the point or segment of contact, and a face inside or beside it does not intersect it. "
  "The result does not depend on the order of the arguments, and polygons that are not convex are refused.",
  ["inputs"], "cylinder surfaces in several orientations and any position, faces of the three kinds at four tilts, at any height and extent along the axis, tolerances from 1e-6 to 1e-4",
  "Tests intersect a few literal faces with one cylinder; where the outline crosses the section, which side of it counts, partial overlap along the axis and touching are a continuum.",
  ["frackit/intersection/algorithms/algo_cylsurface_planargeom.hh", "frackit/intersection/intersect.hh"],
  [("intersect_cylinderSurface_planarGeometry", "frackit/intersection/algorithms/algo_cylsurface_planargeom.hh"), ("intersect overloads", "frackit/intersection/intersect.hh")],
  ["kind and coordinates of the intersection, exceptions"])
P("C12", "Intersections of arbitrary faces; boolean operations on shapes",
  "The intersection of two faces consists of the faces common to both, of the edges of the first face that lie on the second one outside of those common faces, and of the points in which the outline of one face merely touches the other; every part is reported once, points are not repeated when they belong to an edge or face already found or to an earlier point within the tolerance, and the intersection is empty exactly when there is no such part. "
  "A disk, quadrilateral, polygon or cylinder surface is intersected with a face through its own shape, in either order, with the tolerance given or the smaller default one, and faces whose bounding boxes are apart do not intersect. "
  "Cutting, intersecting, fragmenting, fusing and translating shapes applies to exactly the shapes given with the tolerance given, a failed operation is an error, and the edges two shapes share are those contained in both.",
  ["inputs"], "all outcomes of the boolean operations with up to two common faces, two remaining pieces, two edges and three candidate points at any distance of each other, tolerances from 1e-6 to 1",
  "Tests intersect a few cylinder surfaces and faces; which candidate points coincide with which other parts within the tolerance, and which edges border a common face, depends on the shapes.",
  ["frackit/intersection/algorithms/algo_face_face_3d.hh", "frackit/intersection/algorithms/algo_cylsurface_face.hh", "frackit/intersection/intersect.hh", "frackit/occ/breputilities.hh"],
  [("intersect_face_face_3d", "frackit/intersection/algorithms/algo_face_face_3d.hh"), ("intersect overloads with TopoDS_Face", "frackit/intersection/intersect.hh"), ("cut, intersect, fragment, fuse, translate, getOverlapEdges", "frackit/occ/breputilities.hh")],
  ["parts of the intersection", "arguments of the boolean operations", "exceptions"])
P("C13", "Constraints between entities",
  "Two entities are admissible exactly when every active constraint holds: entities that do not intersect are at least the minimum distance apart; where they intersect, no part of the intersection has the dimension of the entities unless that is allowed, every part other than points has at least the minimum magnitude, the intersection angle is at least the minimum angle, and the parts keep the minimum distance to the boundaries of both entities, where points on a boundary are exempt. "
  "Constraints take effect when set, with the latest value, and none when dropped; without active constraints everything is admissible; a tolerance that was set is used for the intersection and the default one otherwise. "
  "An entity is admissible with respect to a set when it is for all its members, and entities known only through the abstract interface are judged like the geometries themselves.",
  ["inputs", "histories"], "all thresholds, distances, magnitudes, angles and boundary distances, all combinations of active constraints and histories of three settings, intersections of up to two parts of all kinds, sets of up to three entities",
  "Tests set one constraint at a time for a few pairs of disks, quadrilaterals and cylinders; combinations, parts on either side of a threshold, and parts touching one boundary but close to the other are not covered.",
  ["frackit/entitynetwork/constraints.hh", "frackit/entitynetwork/constraints_impl/admissibledimension.hh", "frackit/entitynetwork/constraints_impl/admissiblemagnitude.hh", "frackit/entitynetwork/constraints_impl/distancetoboundary.hh"],
  [("EntityNetworkConstraints::evaluate", "frackit/entitynetwork/constraints.hh"), ("isAdmissibleDimension, isAdmissibleMagnitude, isAdmissibleDistanceToBoundary", "frackit/entitynetwork/constraints_impl/")],
  ["answers of evaluate()"], [("useMin..._ flags and thresholds", "which constraints are active", "frackit/entitynetwork/constraints.hh")])
P("C14", "Constraint matrices and entity sets of several geometries",
  "A constraint matrix applies to an entity of a set exactly the constraints defined between the id of that set and other ids: the entity is admissible when it is so for all entities of every such set, sets that do not exist do not count, an id without any constraints and a relation defined twice are refused. "
  "Entity sets hold under each id the entities added to it, in order and with their own type, whether added directly or through the abstract interface; an entity of another type than its set, or of a type the sets are not made for, is refused and changes nothing; counts agree with the contents, functions are applied once to the set asked for, and export passes on exactly the entities of the sets asked for to the sub-domain given.",
  ["histories", "inputs"], "all histories of up to three definitions of one or two relations among three ids with arbitrary outcomes of the constraints; all histories of three to four additions over three types and three ids",
  "No test uses the constraint matrix or entity sets of several geometries.",
  ["frackit/entitynetwork/constraintsmatrix.hh", "frackit/entitynetwork/multigeometryentityset.hh", "frackit/common/id.hh", "frackit/common/idpair.hh", "frackit/geometryutilities/assign.hh"],
  [("addConstraints, evaluate", "frackit/entitynetwork/constraintsmatrix.hh"), ("addEntity, applyOnSet, numEntities, exportEntitySets", "frackit/entitynetwork/multigeometryentityset.hh")],
  ["answers, contents of the sets, exceptions"], [("constraintsIndexMap_, relations_", "constraints per pair of ids", "frackit/entitynetwork/constraintsmatrix.hh"), ("entitySetGeometries_", "type of the set of an id", "frackit/entitynetwork/multigeometryentityset.hh")])
P("C15", "Sampling status",
  "The status of a sampling procedure counts for every id what was accepted and overall what was rejected; an id is finished exactly when its count reached its target, and the procedure when all ids with a target are; counting or resetting one id does not affect others, asking for or resetting an unknown id changes nothing, asking whether an unknown id is finished is an error. "
  "A surpassed target, or a new target below the current count, is warned about. Printing the status never fails, shows the accepted and rejected counts, the acceptance ratio and the progress of the present state, and the header once after construction or reset or when asked for.",
  ["histories", "inputs"], "all histories of three to four operations over three ids with any targets up to 1000, loops up to any target up to 40, status lines for up to 1200 samples",
  "The test counts one literal id up to its target; whether interleaved ids, resets and unknown ids leave the status consistent is a question about histories.",
  ["frackit/sampling/status.hh", "frackit/common/id.hh"],
  [("SamplingStatus", "frackit/sampling/status.hh")],
  ["counts, finished, exceptions, text printed"], [("count_, targetCount_", "accepted samples and targets per id", "frackit/sampling/status.hh")])
P("C16", "Sampling strategies and samplers of several geometries",
  "The sequential strategy returns the ids it was given in turn, in the order in which they were first added and starting over after the last one, also when ids are added in between; an id added twice counts once, and without ids asking for the next one is an error. "
  "A sampler of several geometries samples from exactly the sampler registered for the id its strategy chooses, returns this id and a new geometry of the type of the sampler on each call, keeps its own copy of samplers and strategy, and refuses ids already taken and ids without a sampler.",
  ["histories", "inputs"], "all histories of four to six calls with any ids, samplers of three types, default, sequential and user-defined strategies",
  "The tests and examples use two samplers with literal ids; the order of turns after additions, ids taken, and the types of the geometries for any history are not covered.",
  ["frackit/sampling/samplingstrategy.hh", "frackit/sampling/sequentialsamplingstrategy.hh", "frackit/sampling/multigeometrysampler.hh", "frackit/common/id.hh"],
  [("addId, hasId, getNextId", "frackit/sampling/sequentialsamplingstrategy.hh"), ("addGeometrySampler, operator()", "frackit/sampling/multigeometrysampler.hh")],
  ["ids, geometries, exceptions"], [("idList_, curIdx_", "ids and whose turn it is", "frackit/sampling/sequentialsamplingstrategy.hh"), ("samplers_", "samplers and their ids per type", "frackit/sampling/multigeometrysampler.hh")])
P("C17", "Samplers of points and disks; rotations",
  "The point samplers made for boxes, cylinders and hollow cylinders draw the coordinates over exactly the extent of the geometry (squared radius, angle and height for the cylinders), return the point with these coordinates in the frame of the geometry, and with uniform distributions always a point of the geometry. "
  "The disk sampler returns the disk around a sampled center with the axis lengths drawn, drawing again those that are not positive and never a minor axis longer than the major one, and with the frame that results from turning the coordinate axes about x, y and z by the angles drawn. "
  "Rotating one or several vectors about an axis turns them by the angle in the right-handed sense, and angles are converted between degrees and radians.",
  ["inputs"], "boxes and cylinders of any extent, position and axis, all draws, up to two rejected draws per length, all rotation angles",
  "The tests draw some thousand points of a few literal geometries; the mapping from draws to points, and the axes for every combination of angles, hold for all draws only if shown symbolically.",
  ["frackit/sampling/boxpointsampler.hh", "frackit/sampling/cylinderpointsampler.hh", "frackit/sampling/makepointsampler.hh", "frackit/sampling/makeuniformpointsampler.hh", "frackit/sampling/uniformpointsamplertraits.hh", "frackit/sampling/disksampler.hh", "frackit/common/math.hh"],
  [("makePointSampler", "frackit/sampling/makepointsampler.hh"), ("DiskSampler::operator()", "frackit/sampling/disksampler.hh"), ("rotate", "frackit/common/math.hh")],
  ["points, disks, ranges of the distributions"])
P("C18", "Samplers of polygons and quadrilaterals",
  "The polygon sampler returns a convex polygon with the number of corners drawn, in the plane given by the strike and dip angle drawn, which extends over at most, and at least eight tenths of, the lengths drawn in dip and in strike direction, and whose bounding box is centred at the sampled point; the quadrilateral sampler does so with four corners in the order of a quadrilateral. "
  "Lengths that are not positive and numbers of corners below three are drawn again, and distributions that keep yielding them are an error. The former quadrilateral sampler returns a quadrilateral in the same plane around the sampled point with the edge lengths drawn, all at least the minimum.",
  ["inputs"], "all angles, lengths, centers; several sets of draws and any draws along one direction for three and four corners; up to 99 unusable draws",
  "The tests print a few hundred sampled polygons without checking them; convexity depends on the order of edges for all draws.",
  ["frackit/sampling/polygonsampler.hh", "frackit/sampling/quadrilateralsampler.hh"],
  [("PolygonSampler::sampleCorners", "frackit/sampling/polygonsampler.hh"), ("QuadrilateralSampler::operator()", "frackit/sampling/quadrilateralsampler.hh")],
  ["corners of the polygons, exceptions"])
P("C19", "Entity networks consist of the pieces of the entities",
  "The network built from entities consists of exactly the pieces into which the entities are divided by each other and by the sub-domains, each piece once, and every piece is known to come from its entity: the index of an entity is its position among those added to its sub-domain, counted across sub-domains without two entities sharing an index. "
  "Networks that are confined to their sub-domain consist of the pieces inside it only, others are kept whole; the sub-domains of a contained network are fragmented together with their networks, while a plain network contains no sub-domains. "
  "Building again, with further entities, after changes of tolerance or after clearing, gives the network of the entities then present and nothing of earlier builds.",
  ["inputs", "histories"], "all combinations of sub-domains and confinement with up to four entities, and all outcomes of the boolean operations with up to two pieces per entity and step, split, removed or shared between entities",
  "Tests build a handful of networks of literal quadrilaterals; how pieces are traced back when entities are split twice, removed, or share pieces, and what a second build keeps, depends on the combination.",
  ["frackit/entitynetwork/networkbuilder.hh", "frackit/entitynetwork/entitynetwork.hh", "frackit/entitynetwork/containedentitynetwork.hh", "frackit/entitynetwork/entitynetworkinterface.hh", "frackit/entitynetwork/containedentitynetworkinterface.hh", "frackit/occ/breputilities.hh"],
  [("confineNetworks_, fragmentNetworks_", "frackit/entitynetwork/networkbuilder.hh"), ("build", "frackit/entitynetwork/networkbuilder.hh"), ("entityFragments, entityFragmentsIndexMap, subDomainFragments", "frackit/entitynetwork/containedentitynetwork.hh")],
  ["fragments, sub-domains and index maps of the networks", "arguments of the boolean operations"],
  [("networks_, networkFragmentMaps_", "entities per sub-domain and the pieces they became", "frackit/entitynetwork/networkbuilder.hh")])
P("C20", "Network builders: refusals, tolerance, failures",
  "A builder refuses sub-domains and entities whose dimensions do not fit together, and ids that are already taken for a sub-domain, and a refused call changes nothing; entities added without an id belong to id zero, sets of entities are added in their order, and geometries are converted to their shapes. "
  "The tolerance used is the one set, and otherwise the smallest default one of the sub-domains, or of the entities when there are no sub-domains. "
  "A boolean operation that fails makes building fail with an error, no network is handed out before one was built, and the user is warned of networks whose sub-domain does not exist.",
  ["histories", "inputs", "faults"], "all histories of up to three additions of shapes of any dimension with two ids; failure of any one of up to three boolean operations; sub-domains and entities of any size, any tolerance",
  "No test exercises refusals, failing operations or the choice of the tolerance.",
  ["frackit/entitynetwork/networkbuilder.hh", "frackit/precision/defaultepsilon.hh"],
  [("addConfiningSubDomain, addSubDomain, addSubDomainEntity, addEntity", "frackit/entitynetwork/networkbuilder.hh"), ("setEpsilon, getEpsilon_", "frackit/entitynetwork/networkbuilder.hh")],
  ["exceptions, tolerance of the boolean operations, terminal"], [("entityDimension_, domainDimension_, epsilonIsSet_", "what was added so far and the tolerance", "frackit/entitynetwork/networkbuilder.hh")])
P("C21", "Intersection angles",
  "The angle in which two geometries intersect is the acute angle between their tangent planes: that of the planes of planar geometries, symmetric and zero for parallel ones (rounding never yields an undefined number); for cylinder surfaces and general faces that at the place of the intersection, the smallest one along an intersection that is a curve; geometries that share a face enclose no angle. "
  "Of several intersections the smallest angle counts. What has no angle, an empty intersection above all, is refused with an error.",
  ["inputs"], "planes opened by any angle at any position, planar geometries of four types, cylinder surfaces of any radius, height and position, sections in three tilts, arcs, faces with any tangent planes at the intersection",
  "Tests compare a few angles of literal geometries; symmetry, acuteness and the minimum along a curve are claims over all positions.",
  ["frackit/intersection/intersectionangle.hh"],
  [("IntersectionAngle::operator()", "frackit/intersection/intersectionangle.hh")],
  ["angles, exceptions"])
P("C22", "Files written for entity networks",
  "The geometry file of a network contains every fragment, sub-domain fragment and shared edge or vertex once. The mesh description groups in it the surfaces of each entity, the lines in which surfaces of entities meet, and the volumes of each sub-domain, with the numbers these shapes have in the geometry file, every such shape in exactly one group, groups numbered without two sharing a number and no group empty. "
  "The mesh sizes asked for are assigned to the points of the domain, then of the entities, and the description refers to the geometry file by its name. Networks of dimensions that are not supported are refused.",
  ["inputs"], "all networks of up to three fragments of up to three entities sharing up to two edges in any orientation, two sub-domains with up to two solids each, fragments and edges on boundaries, all mesh sizes",
  "Tests write files but do not read them back; whether each piece ends up in its group depends on how edges are shared and oriented.",
  ["frackit/io/gmshwriter.hh", "frackit/io/brepwriter.hh"],
  [("GmshWriter::write", "frackit/io/gmshwriter.hh"), ("makeSubShapeMaps_, findEntityIntersectionShapes_, makeCompound_", "frackit/io/brepwriter.hh")],
  ["text of the .geo file, shape written to the .brep file"], [("fmap_, emap_, vmap_", "numbers of the sub-shapes", "frackit/io/brepwriter.hh"), ("allEntitiesIndexMap_, domainToSolidsMap_", "groups", "frackit/io/brepwriter.hh")])
P("C23", "Magnitudes of shapes and within domains; default tolerances",
  "The length of an edge or wire is that of its trimmed curve(s), the area of a face or shell that of its face(s), the volume of a solid its own, and the magnitude of a shape is the one of its dimension. "
  "The magnitude of a geometry inside a domain is the total length or area of what the geometry and the domain have in common, however this is divided into parts and whatever touches the domain in a lower dimension; it is zero when nothing remains and for points, and it is the same for a geometry known only through its abstract interface. "
  "The default tolerance is the precision of the CAD kernel times a characteristic size of the geometry: the length of a segment, the radius of a circle or sphere, the mean axis length of an ellipse or disk, half the root of the area of a quadrilateral or polygon, the mean of radius and height of a cylinder surface, the diagonal of a box or of the bounding box of a shape, and one for others.",
  ["inputs"], "edges of any length, trimmed at any parameter, wires and shells of up to two edges and four faces, any part of a geometry remaining in a domain with up to three pieces, geometries of any size",
  "Tests compute the contained magnitude of a few disks; pieces of any number, trimmed curves and the scaling of tolerances with size are not covered.",
  ["frackit/magnitude/length.hh", "frackit/magnitude/area.hh", "frackit/magnitude/volume.hh", "frackit/magnitude/magnitude.hh", "frackit/magnitude/containedmagnitude.hh", "frackit/precision/defaultepsilon.hh"],
  [("computeLength, computeArea, computeMagnitude for shapes", "frackit/magnitude/"), ("computeContainedMagnitude", "frackit/magnitude/containedmagnitude.hh"), ("defaultEpsilon", "frackit/precision/defaultepsilon.hh")],
  ["magnitudes and tolerances"])
