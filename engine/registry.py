"""Which harnesses decide which property, with their bounds."""
_t = __import__("os").environ.get("SYM_TIME")
TIME = dict(quick=int(_t or 420), thorough=int(_t or 3000))
DEFAULTS = dict(
    quick=dict(feas_t=3, assert_t=25, refute_t=20, max_paths=6000, max_steps=400000, max_conc=64),
    thorough=dict(feas_t=10, assert_t=120, refute_t=60, max_paths=60000, max_steps=2000000, max_conc=128))
ASSUME = [
    "double arithmetic is exact real arithmetic (rounding is outside the claim; assertions carry tolerances)",
    "sin/cos/acos/sqrt/division are characterised by their defining real equations",
    "memory allocation succeeds; one thread",
]
BOUNDS = {}
PROPS = {}


def bounds(prop, entry):
    return BOUNDS.get(entry, PROPS[prop].get("bounds", ""))


def prop(id, groups, **kw):
    PROPS[id] = dict(groups=groups, **kw)


def G(src, *entries, stubs=(), fake="", io=False):
    """fake: "both" = OpenCascade stand-ins in the encoding and in the native replay (harnesses that install
    hooks or read the recorded calls); "ir" = stand-ins in the encoding, real OpenCascade in the replay.
    io: shadow iostreams in the encoding"""
    ents = []
    for e in entries:
        if isinstance(e, tuple):
            ents.append((e[0], e[1]))
        else:
            ents.append((e, {}))
    return dict(src=src, entries=ents, stubs=list(stubs), fake=fake, io=io)


T = dict(thorough=True)

prop("C01", [G("c01.cc", "c01_points", "c01_equal", "c01_equal_default", "c01_vectors", "c01_cross", "c01_direction",
               "c01_lowdim", "c01_parallel", "c01_not_parallel", "c01_orthogonal")],
     bounds="coordinates in [-100,100] ([-20,20] for triple products), scale factors in [-50,50], |v| >= 1e-3")
prop("C02", [G("c02.cc", "c02_line", "c02_line_contains", "c02_plane", "c02_plane_projection", "c02_plane_line", "c02_plane3",
               "c02_segment", "c02_segment_contains", "c02_segment_online")],
     bounds="coordinates in [-100,100], tolerances in [1e-6,5], segment lengths in [0.01,100]")
prop("C03", [G("c03.cc", "c03_box", "c03_sphere", "c03_cylinder", "c03_cylinder_disk", "c03_hollow", "c03_hollow_axis", "c03_tilt", "c03_skew",
               "c03_surface", "c03_surface_on", "c03_disk", "c03_disk_in")],
     bounds="coordinates in [-120,120], sizes in [0.1,50], tolerances in [1e-6,5]; the band where the documented tolerance leaves the answer open is excluded")
prop("C04", [G("c04.cc", "c04_triangle", "c04_triangle_plane", "c04_triangle_contains", "c04_triangle_off", "c04_quad_default", "c04_poly_default", "c04_quad",
               "c04_quad_contains", "c04_quad_off", "c04_quad_concave", "c04_poly3", "c04_poly4", "c04_poly5", "c04_poly4_contains",
               ("c04_poly5_contains", T), "c04_poly_off", "c04_poly_off_default", "c04_poly4_concave", "c04_poly5_concave", "c04_poly_few"), G("c04d.cc", "c04_triangle_default")],
     bounds="polygons of up to 5 corners with local coordinates in [-10,10], every corner triple at least 0.05 off collinear, arbitrary "
            "position and orientation, tolerances in [1e-3,0.5]")
prop("C05", [G("c05.cc", "c05_circle", "c05_circle_contains", "c05_ellipse", "c05_ellipse_contains", "c05_angle", "c05_angle_refuses",
               "c05_arc_contains", "c05_arc_default", "c05_arc_points", "c05_arc_full", "c05_arc_off", "c05_disk")],
     bounds="axis lengths in [0.1,20] (major >= minor), centres in [-20,20], arbitrary orientation, tolerances in [1e-6,0.5]; arc containment "
            "with free ends in the canonical frame and clear of the axes by 1e-3 rad, with 56 concrete pairs of ends elsewhere")
prop("C06", [G("c06.cc", "c06_box", "c06_box_edges", "c06_box_faces", "c06_box_refuse", "c06_cylinder_disk", "c06_cylinder_circle", "c06_cylinder_z",
               "c06_cylinder_refuse", "c06_surface", "c06_tangent", "c06_hollow", "c06_hollow_z", "c06_magnitude")],
     bounds="bounds in [-100,100], radii and heights in [0.1,20] (magnitudes: [0.1,50]), arbitrary position and "
            "orientation (tangent planes: horizontal axes)")
prop("C07", [G("c07.cc", "c07_points", "c07_line", "c07_segment", "c07_vector", "c07_variant", "c07_quad", "c07_polygon", "c07_box", "c07_disk",
               "c07_cylinder", "c07_on_quad", "c07_on_quad_default", "c07_on_rim", "c07_on_rim_default", fake="ir"),
             G("c07f.cc", "c07_brep", "c07_refuse", fake="both")],
     bounds="coordinates relative to the shape in [-80,80], sizes in [0.1,50], tolerances in [1e-2,2]; quick: quadrilateral and polygon boundaries of "
            "one trapezoid and one pentagon at any position, thorough: trapezoids and pentagons of any proportions",
     stubs_note=["OpenCascade distances: exact point-vertex/edge/circle/wire/convex face distances; all other pairs: arbitrary value, arguments recorded"])
prop("C08", [G("c08.cc", "c08_points", "c08_segment", "c08_ellipse", "c08_circle", "c08_arc", "c08_ring", "c08_cylinder", "c08_box", "c08_bbox_points", "c08_bbox_round",
               "c08_boxes", "c08_boxes_default", "c08_intervals", "c08_dispatch", "c08_names", fake="ir")],
     bounds="coordinates in [-20,20], sizes in [0.1,50], arbitrary frames (cylinders and bounding boxes of round shapes: three frames)",
     stubs_note=["OpenCascade primitives: topology and curves of edges, wires, faces, boxes and cylinders; bounding boxes exact up to 1e-7"])
prop("C09", [G("c09.cc", "c09_planes", "c09_plane_line", "c09_segments", "c09_collinear", "c09_default", "c09_refuse", fake="ir")],
     bounds="positions within 30, lengths in [0.5,40], tolerances in [1e-6,1] (segments: [1e-5,1e-2]); planes and lines at least 0.01 rad off parallel or exactly parallel; "
            "crossing segments at four angles, clear of each other's ends by 5 tolerances or exactly touching",
     stubs_note=["OpenCascade: exact line of two planes, point of line and plane, fragmentation of two straight edges; bounding boxes exact up to 1e-7"])
prop("C10", [G("c10.cc", "c10_disk_line", "c10_disk_pierce", "c10_quad_line", "c10_quad_pierce", "c10_quad_quad", "c10_poly_poly", "c10_quad_disk", "c10_poly_disk", "c10_disk_disk", "c10_touch", "c10_refuse", fake="ir")],
     bounds="positions within 30, disks with half axes in [0.5,20], quadrilaterals and polygons of four shapes in sizes from 0.5 to 10 (pairs: fixed sizes, three angles); chords and "
            "gaps of at least 1e-2 or exact touching, tolerances in [1e-6,1e-3]",
     stubs_note=["OpenCascade: exact line of two planes, point of line and plane, common part and difference of a straight edge and a planar face (convex polygon or ellipse), fragmentation of two "
                 "straight edges; bounding boxes exact up to 1e-7"])
prop("C11", [G("c11.cc", "c11_ellipse", "c11_disk_ellipse", "c11_arc", "c11_strip", "c11_upright", "c11_touch", "c11_inside", "c11_apart", "c11_refuse", fake="ir")], bounds="cylinder surfaces of radius 300 and height 2000 on two axis families (turned about the axis) at any position within 10; sections at four tilts through heights within 100 of "
            "the middle, faces that cover, halve, strip or cut the section, upright faces at four distances with any vertical extent, touching edges and corners, gaps from 0.01; tolerances in [1e-6,1e-4]",
     stubs_note=["OpenCascade: common part of the face with the solid cylinder and of its outline with the lateral face given per scenario by exact geometry (the native replay uses the real library); bounding boxes by a covering box"])
prop("C12", [G("c12.cc", "c12_edges", "c12_points", "c12_kinds", "c12_operations", "c12_translate", "c12_overlap", fake="both")],
     bounds="up to two common faces, two remaining pieces with up to two wires and two candidate edges; up to three candidate points anywhere along a line with an edge or face already found; tolerances in [1e-6,1]; "
            "boolean operations over up to three shapes; up to three edges per face",
     stubs_note=["OpenCascade boolean operations: arbitrary consistent outcomes given per scenario; the arguments, operation and tolerance are checked"])
prop("C13", [G("c13.cc", "c13_single", "c13_arc", "c13_parts", "c13_settings", "c13_sets", fake="ir"), G("c13s.cc", "c13_abstract", "c13_abstract_refuse", fake="ir")],
     bounds="entities of dimension one and two with an arbitrary intersection of up to two parts (points, segments, arcs, ellipses, edges, faces) at any distance within 22 from plane boundaries, distances in [0,10], angles in [0,1.6]; "
            "thresholds in [0.01,30], every combination of active constraints, histories of three settings; sets of up to three and two entities",
     stubs_note=["entities of the harness: intersection, distance, angle and boundary distance are arbitrary functions (those of the library are the subject of C07, C09-C12 and C21)", "OpenCascade: curves and vertices of edges, mass of one face, distance of parallel faces"])
prop("C14", [G("c14.cc", "c14_matrix", "c14_sets", "c14_export", "c14_unknown", "c14_ids", fake="ir")],
     bounds="matrices from up to three calls defining one or two relations among three ids each, with arbitrary answers of the constraints; histories of three (thorough: four) additions over three types and three ids")
prop("C15", [G("c15.cc", "c15_history", "c15_many", "c15_print", fake="ir", io=True)],
     bounds="histories of three (thorough: four) operations on three ids with targets in [0,1000]; counters run up to targets in [0,40]; status lines for up to two ids with four targets and up to 1200 samples",
     stubs_note=["standard output: text kept as written, numbers beside it"])
prop("C16", [G("c16.cc", "c16_strategy", "c16_multi", "c16_custom", fake="ir")],
     bounds="histories of six (thorough: eight) calls with any ids; samplers of three geometry types, histories of five (thorough: six) additions and samples, any ids, default, sequential and user-defined strategies")
prop("C17", [G("c17.cc", "c17_box", "c17_box_uniform", "c17_cylinder", "c17_cylinder_uniform", "c17_hollow", "c17_hollow_uniform", "c17_disk", "c17_disk_default", "c17_rotate", "c17_degrees", fake="ir")],
     bounds="boxes and cylinders of extents in [0.1,50] at any position within 50, cylinders with any axis (hollow ones: axes in the coordinate planes); all draws; disk lengths up to 20 with up to two rejected draws each, all rotation angles",
     stubs_note=["random numbers: the draws are arbitrary within the support of the distribution"])
prop("C18", [G("c18.cc", "c18_polygon_size", "c18_quad_size", "c18_center", "c18_retries", "c18_polygon", "c18_triangle_draws", "c18_quad_draws", "c18_quad_draws_x", "c18_quad_edges", "c18_default", fake="ir")],
     bounds="lengths in [0.5,30], all strike and dip angles, any center; quick: five sets of draws from the unit interval (three to seven corners), and any draws along one direction (in three orders, at least 0.03 apart) for "
            "one triangle and two quadrilaterals; up to 99 unusable draws and 150 for the error; former quadrilateral sampler: edge lengths up to 20, minimum in [0.01,5]",
     stubs_note=["random numbers: the draws are arbitrary within the support of the distribution"])
prop("C19", [G("c19.cc", "c19_confine", "c19_confine_contained", "c19_fragments", "c19_fragments_contained", "c19_shared", "c19_shared_contained", "c19_again", "c19_again_contained", fake="both", io=True)],
     bounds="up to four entities in networks of up to three sub-domains, all combinations of sub-domain settings; up to two pieces per entity and step (none, unchanged, split, shared between entities) in any combination; tolerances in [1e-9,1]",
     stubs_note=["OpenCascade boolean operations: arbitrary outcomes per argument (unchanged, removed, modified, generated, shared); the arguments, operation and tolerance are checked"])
prop("C20", [G("c20.cc", "c20_history", "c20_history_contained", "c20_failures", "c20_failures_contained", "c20_tolerance", "c20_tolerance_contained", "c20_sets", fake="both", io=True)],
     bounds="histories of two or three additions of shapes of any dimension (three: from dimension one) with two ids; any one of up to three boolean operations fails; up to two sub-domains and two entities of any size in [0.1,1000], tolerances in [1e-9,1]; up to three disks",
     stubs_note=["OpenCascade boolean operations succeed without changes, or fail at one step; bounding boxes of any size along one direction"])
prop("C21", [G("c21.cc", "c21_planes", "c21_parallel", "c21_planar", "c21_cylinder", "c21_cylinder_planar", "c21_ellipse", "c21_arc", "c21_several", "c21_refuse", fake="ir"),
             G("c21f.cc", "c21_face_point", "c21_face_edge", "c21_face_face", fake="both")],
     bounds="planes opened by any angle about any line parallel to a coordinate plane, at any position; planar geometries of four types; cylinder surfaces with axes in the coordinate directions, radii in [0.5,20], heights in [1,50] and any position; sections at three tilts, arcs between eight positions; "
            "faces with any tangents at the intersection point, edges whose smallest angle is at one of five positions; parallel planes: eight concrete normals in double arithmetic",
     stubs_note=["OpenCascade: surfaces of the harness with arbitrary parameters and tangents; straight edges"])
prop("C22", [G("c22.cc", "c22_network", "c22_orientation", "c22_boundary", "c22_domains", "c22_refuse", fake="both", io=True)],
     bounds="up to three fragments of up to three entities sharing up to two edges in any combination and orientation; up to two sub-domains with up to two solids and two fragments each, fragments and edges on the boundary; mesh sizes in [0.1,9]",
     stubs_note=["OpenCascade: topology of the shapes; BRepTools::Write records the shape and file name", "files: text kept as written, numbers beside it"])
prop("C23", [G("c23.cc", "c23_edges", "c23_faces", "c23_contained_lines", "c23_contained_faces", "c23_contained_points", "c23_tolerance", fake="both")],
     bounds="wires of up to two edges (straight ones at any position, circular arcs of any radius and three opening angles), shells of up to four faces of any area; up to two edges or three faces of any size inside domains of three kinds; geometries of any size in [0.01,100]",
     stubs_note=["OpenCascade: areas and volumes of single faces and solids, the part of a shape inside another (any result), bounding boxes"])
