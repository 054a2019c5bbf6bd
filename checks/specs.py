import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")
SPECS = {}
SPECS["P01"] = dict(harness="p01_ccd.cpp", sources=["scisim/CollisionDetection/*.cpp"],
  entries=[dict(name="ccd_solve_moving", covers=["hit","miss","end"]), dict(name="ccd_solve_static", covers=["hit","miss","end"]), "ccd_coeffs", "ccd_compose_a","ccd_compose_b",dict(name="ccd_compose", budget=150, thorough_only=True)],
  bounds="quadratic coefficients in [-1000,1000] (c2>=0), positions in [-100,100]^2, radii in (0,100]; doubles as exact reals", outside="rounding, overflow, larger magnitudes")
SPECS["P02"] = dict(harness="p02_serial.cpp", sources=["scisim/StringUtilities.cpp","scisim/Utilities.cpp","scisim/Math/MathUtilities.cpp"],
  entries=["rt_string","rt_string_vector","rt_pod","rt_vectors","rt_bools","rt_custom","rt_dense",dict(name="rt_sparse")],
  bounds="strings <=4 bytes (6 thorough), <=3 strings, vectors/matrices <=4 entries per dimension, sparse <=3x2 with every sparsity pattern; every byte / scalar value", outside="longer data, truncated or corrupted streams, foreign endianness")
SPECS["P03"] = dict(harness="p03_strings.cpp", sources=["scisim/StringUtilities.cpp"],
  entries=["tokenize_join","split_last","chars_right","trims","remove_ws","trim_char","pad"],
  bounds="every text of <=5 bytes (6 thorough), every delimiter byte, pad width <=7", outside="longer texts, non-C locales")
CORE = ["scisim/Constraints/*.cpp","scisim/UnconstrainedMaps/*.cpp","scisim/Math/MathUtilities.cpp","scisim/Utilities.cpp","scisim/StringUtilities.cpp"]
B2 = CORE + ["ball2d/Constraints/*.cpp","ball2d/StaticGeometry/*.cpp"]
R2 = CORE + ["rigidbody2d/*Constraint.cpp","rigidbody2d/RigidBody2DStaticPlane.cpp"]
R3 = CORE + ["rigidbody3d/Constraints/*Constraint.cpp","rigidbody3d/Constraints/FrictionUtilities.cpp","rigidbody3d/StaticGeometry/*.cpp"]
K2 = ["ball","teleported","kicked","drum","plane"]
KR2 = ["circles","bodies","teleported","kicked","scripted","planebody","planecircle"]
KR3 = ["spheres","bodies","teleported","planebody","planebox","planesphere","cylsphere","cylbody","scriptedbody","scriptedsphere"]
def contact_mods(b2, r2, r3):
    out = []
    if b2: out.append(dict(harness="contacts_ball2d.cpp", sources=B2, entries=b2))
    if r2: out.append(dict(harness="contacts_rb2d.cpp", sources=R2, entries=r2))
    if r3: out.append(dict(harness="contacts_rb3d.cpp", sources=R3, entries=r3))
    return out
SPECS["P07"] = dict(modules=contact_mods(["b2_frame_"+k for k in K2], ["r2_frame_"+k for k in KR2], ["r3_frame_"+k for k in KR3]+["r3_stick_"+k for k in KR3]))
SPECS["P08"] = dict(modules=contact_mods(["b2_vel_"+k for k in K2], ["r2_vel_"+k for k in KR2], ["r3_vel_"+k for k in KR3]+["r3_disk_"+k for k in KR3[:7]]))
SPECS["P09"] = dict(modules=contact_mods(["b2_cons_"+k for k in K2], ["r2_cons_"+k for k in KR2], ["r3_cons_"+k for k in KR3]))
SPECS["P10"] = dict(modules=contact_mods(["b2_imp_ball","b2_imp_teleported","b2_imp_kicked","b2_energy_ball"], [], ["r3_imp_spheres","r3_imp_planesphere","r3_energy_spheres"]))
SPECS["P04"] = dict(modules=contact_mods(["b2_gap_ball","b2_gap_plane","b2_gap_drum"], ["r2_gap","r2_gap_teleported","r2_gap_plane"], ["r3_gap_spheres","r3_gap_plane","r3_gap_cylinder","r3_overlap"]))

REAL = "doubles as exact reals; "
for k, b in dict(P07="any unit normal (cylinders: in-plane normals when sticking), sliding speed 0 or in [1e-4,100], any normal speed", P08="2-3 bodies, positions/velocities in [-100,100], any unit normal (3D: any rotation), radii in (0,10], scripted velocities in [-10,10]", P09="2-3 bodies, positions in [-100,100], any unit normal, radii in (0,10]", P10="2-3 bodies, masses in (0,1000], restitution in [0,1], velocities in [-100,100], any unit normal (energy in 3D: in-plane normals)", P04="positions in [-100,100], radii in (0,10], any unit normal, boundary sizes up to 100").items():
    SPECS[k]["bounds"] = REAL + b
    SPECS[k]["outside"] = "rounding, more bodies, larger magnitudes; divisors the code divides by are assumed nonzero"
OV = lambda n: dict(name=n, covers=["end","overlap","apart"])
SPECS["P05"] = dict(modules=[
  dict(harness="p05_ball2d.cpp", sources=["ball2d/SpatialGridDetector.cpp"], entries=[OV("b2_broad_x"),OV("b2_broad_y"),OV("b2_broad_xy"),OV("b2_broad3_x"),OV("b2_broad3_y"),OV("b2_broad_tall_x"),OV("b2_broad_tall_y"),"b2_allpairs"]),
  dict(harness="p05_rb2d.cpp", sources=["rigidbody2d/SpatialGrid.cpp"], entries=[OV("r2_broad_x"),OV("r2_broad_y"),OV("r2_broad_xy"),OV("r2_broad3_x"),OV("r2_broad3_y"),OV("r2_broad_tall_x"),OV("r2_broad_tall_y"),"r2_trial"]),
  dict(harness="p05_rb3d.cpp", sources=["rigidbody3d/SpatialGridDetector.cpp"], entries=[OV("r3_broad_x"),OV("r3_broad_y"),OV("r3_broad_z"),OV("r3_broad3_z"),OV("r3_broad_tall_x"),OV("r3_broad_tall_y"),OV("r3_broad_tall_z"),"r3_allpairs"])])
SPECS["P05"]["bounds"] = "2 boxes (widths 0.25..3.5) with every placement along one axis within +-4 (both axes in 2D within +-1.5), 3 boxes along one axis, other axes overlapping or apart, a box ten units long with a unit box anywhere along it among six; every grid layout the code derives from them; doubles as exact reals"
SPECS["P05"]["outside"] = "more boxes, zero boxes, larger extents, rounding at cell borders"

SB2 = ["ball2d/*.cpp","ball2d/Constraints/*.cpp","ball2d/StaticGeometry/*.cpp","ball2d/Portals/*.cpp","ball2d/Forces/*.cpp","scisim/Constraints/*.cpp","scisim/UnconstrainedMaps/*.cpp","scisim/CollisionDetection/*.cpp","scisim/Utilities.cpp","scisim/StringUtilities.cpp","scisim/Math/*.cpp","scisim/ConstrainedMaps/ImpactMaps/ImpactMap.cpp","scisim/ConstrainedMaps/ImpactFrictionMap.cpp"]
SR2 = ["rigidbody2d/*.cpp","scisim/Constraints/*.cpp","scisim/UnconstrainedMaps/*.cpp","scisim/CollisionDetection/*.cpp","scisim/Utilities.cpp","scisim/StringUtilities.cpp","scisim/Math/*.cpp","scisim/ConstrainedMaps/ImpactMaps/ImpactMap.cpp","scisim/ConstrainedMaps/ImpactFrictionMap.cpp"]
SR3 = ["rigidbody3d/*.cpp","rigidbody3d/*/*.cpp"] + SR2[1:]
def sysm(b2=(), r2=(), r3=()):
    return [dict(harness=h, sources=s, entries=list(e)) for h, s, e in (("sys_ball2d.cpp", SB2, b2), ("sys_rb2d.cpp", SR2, r2), ("sys_rb3d.cpp", SR3, r3)) if e]
C = lambda n, *c: dict(name=n, covers=list(c))
HM, MS, AO = ("hit","miss"), ("miss","seam","direct"), ("apart","touch")
SPECS["P06"] = dict(modules=sysm(["b2_bbox"], ["r2_aabb_circle","r2_aabb_box","r2_bbox"]), bounds="1-3 bodies, positions in [-100,100], sizes in (0,50], any orientation", outside="rounding, more bodies")
SPECS["P07"]["modules"] += sysm(["b2_bases"], ["r2_bases"])
SPECS["P14"] = dict(modules=sysm(["b2_cache"], ["r2_cache"]), bounds="5-6 contacts of every cacheable kind over 3 bodies and 2 boundaries, every subset stored, two insertion orders, every impulse value", outside="more bodies and boundaries")
PORT = [x for x in "static plain wrap motion inside step stepmoving".split()]
SPECS["P15"] = dict(modules=sysm(["b2_portal_"+x for x in PORT]+["b2_portal_stepimpact","b2_portal_stepfriction",C("b2_portal_touch",*AO),C("b2_active_portal",*MS),C("b2_active_moving",*MS)], ["r2_portal_"+x for x in PORT]+["r2_portal_stepimpact","r2_portal_stepfriction",C("r2_portal_touch",*AO),C("r2_active_portal",*MS),C("r2_active_moving",*MS)]),
  bounds="any two portal planes (any unit normals), any portal speed, lateral shifts within two periods, 2 bodies in a domain of width 6-20 for whole steps", outside="several portals, more bodies, lateral shifts over many periods, boxes at portals")
SPECS["P16"] = dict(modules=sysm(["b2_gravity",C("b2_penalty2","apart","overlap"),C("b2_penalty25","apart","overlap"),C("b2_penalty3","apart","overlap"),"b2_penalty_three","b2_penalty_sum"], ["r2_gravity"]), bounds="2-3 bodies, positions in [-100,100], masses in (0,1000], penalty powers 2, 2.5 and 3", outside="other penalty powers, more bodies")
SPECS["P17"] = dict(modules=sysm(["b2_euler","b2_verlet","b2_verlet_rev","b2_flow_euler","b2_flow_verlet","b2_linear"], ["r2_euler","r2_verlet","r2_verlet_rev","r2_flow_euler","r2_flow_verlet","r2_linear"]), bounds="one step (two for reversal) of 2-3 bodies with any diagonal mass and any affine force, step size in [1e-4,1], every choice of scripted bodies", outside="nonlinear forces, rounding drift over many steps")
SPECS["P19"] = dict(modules=sysm(["b2_energy","b2_mass"], ["r2_energy","r2_mass","r2_inertia"]), bounds="2-3 bodies, positions and velocities in [-100,100], masses in (0,1000], densities in (0,100], sizes in (0,50]", outside="rounding, more bodies")
SPECS["P23"] = dict(modules=sysm(["b2_checkpoint","b2_copy","b2_mapio"], ["r2_checkpoint","r2_copy","r2_mapio"]), bounds="2 bodies with every scalar value, every force kind, integrator, boundary and portal kind present, cached impulses", outside="file system errors, truncated checkpoints, triangle meshes, more bodies")
SPECS["P24"] = dict(modules=sysm([C("b2_active_swept",*HM),C("b2_active_plane2",*HM),"b2_active_three","b2_active_bounds"], [C("r2_active_swept","hit","miss","scripted"),C("r2_active_rest",*HM),"r2_active_three",C("r2_active_plane","box","circle")]),
  bounds="2-3 bodies of fixed radii: motion along one axis, or resting anywhere in the plane, within +-2; one body against two planes anywhere", outside="more bodies, oblique motion through the grid, larger domains")
SPECS["P27"] = dict(modules=sysm(["b2_push"], ["r2_add","r2_remove","r2_removegeo"]), bounds="up to 4 bodies and 4 shapes, every subset removed in two orders, every scalar value", outside="more bodies")
for k in "P06 P14 P15 P16 P17 P19 P24 P27".split(): SPECS[k]["bounds"] = REAL + SPECS[k]["bounds"]

def more(k, r3, b=None, o=None):
    SPECS[k]["modules"] += sysm(r3=r3)
    if b: SPECS[k]["bounds"] += "; " + b
    if o: SPECS[k]["outside"] += ", " + o
more("P06", ["r3_aabb","r3_aabb_mesh","r3_aabb_staple","r3_bbox",C("r3_boundary","in","out","end")], "3D boxes and spheres in any orientation; 3-vertex meshes and staples turned about z or by quarter turns", "meshes and staples in general position")
more("P07", ["r3_bases"])
more("P14", ["r3_cache"])
more("P15", ["r3_portal_frame","r3_portal_teleport",C("r3_portal_touch",*AO),"r3_portal_step","r3_portal_stepimpact","r3_portal_stepfriction",C("r3_active_portal",*MS)], "3D portal normals in a coordinate plane, every sign pattern", "3D portal normals in general position or within 26 degrees of -y")
more("P16", ["r3_gravity"])
more("P19", ["r3_energy","r3_mass","r3_inertia","r3_inertia_staple"], "3D bodies in any orientation")
more("P23", ["r3_checkpoint","r3_copy","r3_mapio"])
SPECS["P23"]["outside"] = "file system errors, truncated checkpoints, staples (not supported by the code), more bodies"
more("P24", [C("r3_active_pair",*HM),"r3_active_three",C("r3_active_bounds","box","sphere"),C("r3_active_cyl",*HM)], "3D spheres displaced along one axis; one 3D sphere or box (turned about z or by quarter turns) with two planes, one sphere with two cylinders", "3D boxes against boxes (separate property), meshes, staples")
ROT3 = ["rot_linear","rot_split_lin","rot_split_turn","rot_split_turned","rot_dmv_lin","rot_dmv","rot_projected","rot_sim_step"]
SPECS["P18"] = dict(modules=[dict(harness="rot3d.cpp", sources=SR3, entries=ROT3)], bounds=REAL + "one step of 1-2 bodies, positions and velocities in [-100,100], any orientation and step size in [1e-4,1] for splitting and prediction; Moser-Veselov and projected Euler with 5 spins, 3 inertias, 6 orientations (constants rounded as doubles), everything linear free", outside="other spins for the iterative updates (Moser-Veselov has no solution beyond about one radian per step), nonlinear forces, many steps")

IMP = ["scisim/ConstrainedMaps/ImpactMaps/%s.cpp" % x for x in "ImpactMap ImpactOperator ImpactOperatorUtilities GaussSeidelOperator GROperator GRROperator LCPOperatorQL".split()] + ["scisim/Math/QL/QLUtilities.cpp","scisim/ScriptingCallback.cpp"] + CORE
HI = ("hit","idle")
SPECS["P11"] = dict(modules=[dict(harness="impact.cpp", sources=IMP, entries=["imp_step_"+x for x in "none pair wall chain mixed 3d".split()] + ["imp_ql_"+x for x in "one two chain".split()] + [C("imp_newton","push","idle")] + [C("imp_gs_"+x,*HI) for x in "one wall two chain".split()] + [C("imp_gr_two",*HI),C("imp_gr_chain",*HI),C("imp_grr","zero","one","between"),"imp_mixed_cor"])],
  bounds=REAL+"1-3 bodies, 0-2 simultaneous contacts (in 2D and 3D), any directions, levers and masses for single contacts, fixed ones for two; velocities in [-100,100], restitution in [0,1] per contact; iterative solvers up to two sweeps", outside="more contacts, rounding, convergence of long iterations, the third-party quadratic program solver itself (its inputs and the use of its output are checked)")
QP = ["scisim/ConstrainedMaps/ImpactMaps/%s.cpp" % x for x in "ImpactOperator ImpactOperatorUtilities LCPOperatorAPGD MinMapImpact FischerBurmeisterImpact NonNegativeProjection".split()] + ["scisim/ConstrainedMaps/FrictionMaps/%s.cpp" % x for x in "FischerBurmeisterBoundConstrained FischerBurmeisterSmooth BoundConstrainedMDPOperatorQL LinearMDPOperatorQL FrictionOperator FrictionOperatorUtilities".split()] + ["scisim/Math/QL/QLUtilities.cpp","scisim/Math/QPSolvers/*.cpp","scisim/ConstrainedMaps/QPTerminationOperator.cpp","scisim/ScriptingCallback.cpp"] + CORE
SU = ("solved","unsolved")
SPECS["P12"] = dict(modules=[dict(harness="qp.cpp", sources=QP, entries=["err_minmap",C("err_impact_one",*SU),C("err_impact_two",*SU),C("err_bound",*SU),C("err_bound_two",*SU),C("err_disc_inside",*SU),C("err_disc_edge",*SU),C("err_disc_outside","unsolved"),C("err_disc_none","solved"),"err_disc_three","err_bound_three","err_impact_three"])],
  bounds=REAL+"1-2 contacts (3 for combining residuals), any symmetric problem matrix, impulses and offsets in [-100,100], any friction bound including zero", outside="more contacts, rounding, the size of the error away from solutions beyond being positive")
SPECS["P13"] = dict(modules=[dict(harness="qp.cpp", sources=QP, entries=[C("apgd_one","success"),C("apgd_one_neg","success"),C("apgd_one_single","failure"),C("apgd_two","failure"),C("apgd_two_steps","success","failure"),"apgd_limit_zero",C("apgd_two_ones","success"),C("apgd_rise","failure"),dict(C("apgd_rise_long","failure"),thorough_only=True),C("apgd_squeezed","success")])],
  bounds=REAL+"problems with 1-2 unknowns, iteration limits 0-3", outside="larger problems, convergence of long iterations, rounding")
SPECS["P25"] = dict(modules=[dict(harness="qp.cpp", sources=QP, entries=["fric_basis_2d","fric_basis_3d","fric_disk","fric_bound_ql","fric_linear_ql"])],
  bounds=REAL+"1-2 contacts in 2D and 3D, any contact frames, friction coefficients in [0,10], normal impulses in [0,100]", outside="more contacts, rounding, the third-party quadratic program solver itself (its inputs and the use of its output are checked)")

CM = "scisim/ConstrainedMaps/"
FRI = [CM+"%s.cpp" % x for x in "GeometricImpactFrictionMap StabilizedImpactFrictionMap SymplecticEulerImpactFrictionMap StaggeredProjections GRRFriction ImpactFrictionMap FrictionSolver ImpactMaps/ImpactOperator ImpactMaps/ImpactOperatorUtilities FrictionMaps/FrictionOperator FrictionMaps/FrictionOperatorUtilities".split()] + ["scisim/ScriptingCallback.cpp"] + CORE
SPECS["P26"] = dict(modules=[dict(harness="friction.cpp", sources=FRI, entries=[C(a+"_"+b,"end") for a in ("geo","stab") for b in "none pair mixed 3d".split()] + [C("sym_"+b,"end") for b in "none pair mixed stab".split()] + [C("sym_3d","deep","end"),C("sym_3d_force","turned","end"),C("sym_3d_force_two","turned","end")] + [C("stag_"+b,"early","limit","end") for b in "pair wall mixed 3d".split()] + [C("stag_zero","limit","end")] + [C("grr_"+b,"end") for b in "smooth linear wall".split()])],
  bounds=REAL+"0-2 simultaneous contacts in 2D and 3D among 2-3 bodies, any contact frames, levers, masses, velocities in [-100,100], any answers of the solvers, iteration limits 0-3, every caching mode", outside="more contacts, rounding, the coupled third-party solver itself")
SOB = [CM+"Sobogus.cpp", CM+"FrictionSolver.cpp", "scisim/ScriptingCallback.cpp"]
SPECS["P28"] = dict(modules=[dict(harness="sobogus_%s.cpp" % h, sources=SOB+s, entries=[C(p+"_sobogus","end"),C(p+"_judge","end")]) for h, s, p in (("ball2d",B2,"b2"),("rb2d",R2,"r2"),("rb3d",R3,"r3"))],
  bounds=REAL+"4 bodies of which 2 touch, 2-3 contacts of real kinds, any block-diagonal masses, contact frames, velocities, coefficients and answers of the solver", outside="more contacts, rounding, the third-party solver itself (its inputs and the use of its output are checked)")
IO = [CM+"%s.cpp" % x for x in "ConstrainedMapUtilities GeometricImpactFrictionMap StabilizedImpactFrictionMap SymplecticEulerImpactFrictionMap StaggeredProjections GRRFriction ImpactFrictionMap FrictionSolver Sobogus QPTerminationOperator".split()] + [CM+"ImpactMaps/%s.cpp" % x for x in "ImpactMap ImpactOperator ImpactOperatorUtilities GaussSeidelOperator GROperator GRROperator LCPOperatorQL LCPOperatorAPGD MinMapImpact FischerBurmeisterImpact NonNegativeProjection".split()] + [CM+"FrictionMaps/%s.cpp" % x for x in "FrictionOperator FrictionOperatorUtilities LinearMDPOperatorQL BoundConstrainedMDPOperatorQL".split()] + ["scisim/Math/QL/QLUtilities.cpp","scisim/Math/QPSolvers/*.cpp","scisim/ScriptingCallback.cpp"] + CORE
SPECS["P29"] = dict(modules=[dict(harness="opsio.cpp", sources=IO, defs=["-DQL_FOUND"], entries=[C(x,"end") for x in "io_impact io_friction io_solver copy_impact copy_friction io_map io_scheme".split()])],
  bounds="every contact solver, friction solver and time-stepping scheme that can be stored, every value of its parameters, one and two objects in sequence", outside="solvers whose storing is documented as not implemented, Ipopt solvers (library absent), truncated checkpoints")
SPECS["P20"] = dict(modules=[dict(harness="narrow2d.cpp", sources=["rigidbody2d/BoxBoxTools.cpp","rigidbody2d/CircleBoxTools.cpp"]+CORE, entries=[C("cb_%d"%i,"apart","outside","inside") for i in range(5)] + [C("bb_"+x,"apart","one","two") for x in ("00","01")] + [dict(C("bb_32","apart","one","two"), budget=300)] +
    [dict(C("bb_"+x,"apart","one","two"), thorough_only=True, budget=300) for x in ("02","34")])] + sysm(r2=[C("r2_active_boxcircle","hit","miss","scripted"),C("r2_active_boxes","hit","miss")]),
  bounds=REAL+"one disc and one box, or two boxes, with any half-widths and radii in [0.01,10] and positions in [-20,20]; 5 orientations and 5 pairs of orientations (exact rational turns, aligned and oblique)", outside="other orientations, contact point positions for boxes thinner than their overlap")
N3 = ["rigidbody3d/Constraints/%sUtilities.cpp" % x for x in "BoxBox Collision StapleStaple".split()] + ["rigidbody3d/Geometry/RigidBody%s.cpp" % x for x in "Box Staple Geometry".split()] + ["scisim/Utilities.cpp","scisim/StringUtilities.cpp"]
AF = ("apart","face")
SPECS["P21"] = dict(modules=[dict(harness="narrow3d.cpp", sources=N3, entries=[C("bb3_aligned",*AF)] + [C("bb3_%s_%d" % (a,o),*AF) for a in "zx" for o in range(8)] +
    [dict(C("bb3_gen_%d" % o,"apart","face","edge"), thorough_only=True, budget=300) for o in range(8)] + [C("seg_"+x,"start","stop","inner") for x in "cross skew blunt same opposed point2".split()] + [C("seg_point1","start"),C("seg_points","start")] +
    [C("bs_%d" % i,"apart","touch") for i in range(3)] + [C("staple_plane_%d" % i,"apart","touch") for i in range(2)] + [C("staples_%d" % i,"apart","touch") for i in range(2)])] + sysm(r3=[C("r3_active_boxes","hit","miss","scripted")]),
  bounds=REAL+"two boxes of fixed sizes at any relative position within 8, 3-4 relative orientations; segments at any positions in 8 pairs of directions (crossing, skew, parallel, degenerate); a sphere and a box of any sizes in 3 orientations", outside="other relative orientations and box sizes, sphere centres inside a box and contacts between spheres and boxes or staples (reported as unsupported by the code)")
M3 = ["rigidbody3d/Constraints/MeshMeshUtilities.cpp","rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp","rigidbody3d/Geometry/RigidBodyGeometry.cpp","scisim/Utilities.cpp","scisim/StringUtilities.cpp","scisim/Math/MathUtilities.cpp"]
IO2 = ("inside","outside")
SPECS["P22"] = dict(modules=[dict(harness="mesh3d.cpp", sources=M3, entries=[C("mesh_"+x,*IO2) for x in "cell cell_a cell_b end_x end_y end".split()] + [C("mesh_outside","in","out"),C("mesh_pair_0","hit","miss"),C("mesh_pair_1","hit","miss"),C("mesh_plane","apart","touch"),C("mesh_drum","apart","touch")]),
    dict(harness="moments.cpp", sources=["rigidbody3d/Geometry/MomentTools.cpp"], defs=["-include",LIB+"/fake_eigs.h"], entries=["mom_tet_all","mom_two","mom_two_34"]+["mom_tet_%d" % i for i in range(4)])],
  bounds=REAL+"distance fields of up to 3x2x4 points with any values, any query point (in two cells, on far faces and outside); two meshes with 3 surface samples at any relative position in 2 relative orientations; tetrahedra with all vertices free, bipyramids with two", outside="larger fields and meshes, zero gradients, the eigenvalue solver (its input and the use of its output are checked), reading mesh files")
RAT = ["scisim/Math/MathUtilities.cpp","scisim/StringUtilities.cpp","scisim/Utilities.cpp"]
SPECS["P32"] = dict(harness="rational.cpp", sources=RAT, entries=[C(x,"end") for x in "rat_reduce rat_unreduce rat_add rat_sub rat_mul rat_div rat_scale rat_double rat_text_decimal rat_text_spaces rat_text_fraction rat_text_bad rat_text_junk".split()],
  bounds="numerators in [-9,9] with denominators in [-4,4], operands of arithmetic in [-4,4] over 1..3; decimals of <=1+2 digits (<=2+3 thorough) with every sign and fractions of <=2/1 digits, every digit; one stray character anywhere", outside="integer overflow of very long numbers")
SPECS["P33"] = dict(harness="rational.cpp", sources=RAT, entries=[C(x,"end") for x in "mat_identity mat_symmetric mat_frame2 mat_frame3 mat_frame3_each mat_columns num_digits cross_2d".split()],
  bounds=REAL+"matrices up to 2 by 2 (identity, symmetry) and 2 by 3 (columns, every choice of up to 3) with every sparsity pattern, every unsigned 32-bit integer, every 2D frame, 6 rotations in 3D", outside="larger matrices, tolerances above 1/2")
ALLS = ["scisim/*.cpp","scisim/Math/*.cpp","scisim/Math/Q*/*.cpp","scisim/Constraints/*.cpp","scisim/UnconstrainedMaps/*.cpp","scisim/ConstrainedMaps/*.cpp","scisim/ConstrainedMaps/*Maps/*.cpp","scisim/CollisionDetection/*.cpp"]
PARSE = dict(defs=["-DQL_FOUND","-include",LIB+"/fakefile.h"])
SOLV = lambda p: [C(p+x,"end","refused") for x in "impact restitution sobogus step end portals".split()] + [C(p+x,"broken") for x in "missing junk impact_bad sobogus_bad".split()] + [C(p+"together","end")]
SPECS["P30"] = dict(modules=[
  dict(PARSE, harness="scene_ball2d.cpp", sources=["ball2dutils/*.cpp","ball2d/*.cpp","ball2d/*/*.cpp"]+ALLS, entries=SOLV("sc2_")+[C("sc2_world","end"),C("sc2_stag","end","refused"),C("sc2_stag_bad","broken"),C("sc2_portals_bad","broken")]),
  dict(PARSE, harness="scene_rb2d.cpp", sources=["rigidbody2dutils/*.cpp","rigidbody2d/*.cpp"]+ALLS, entries=SOLV("scr2_")+[C("scr2_world","end"),C("scr2_range","end","refused"),C("scr2_bare","end"),C("scr2_portals_bad","broken")]),
  dict(PARSE, harness="scene_rb3d.cpp", sources=["rigidbody3dutils/*.cpp","rigidbody3d/*.cpp","rigidbody3d/*/*.cpp"]+ALLS, entries=SOLV("scr3_")+[C("scr3_world","end","refused"),C("scr3_bodies","end","refused"),C("scr3_shapes","end","refused"),C("scr3_shapes_bad","broken"),C("scr3_turn","end"),C("scr3_portal_pair","end","refused")])],
  bounds="scenes of every element kind with up to 3 bodies, 3 shapes, 5 planes, 2 portals and one contact solver; every value of every number, flag and index; any one attribute missing or unreadable", outside="other element orders and counts, triangle meshes (HDF5), Ipopt solvers, malformed XML, the XML library itself")
CLI = lambda p, imp: [C(p+"run","end","refused"),C(p+"step_mixed","end","plain")] + [C(p+x,"end") for x in "resume settings refused override help step_friction".split()] + ([C(p+"resume_impact","end","met")] if imp else [])
SPECS["P31"] = dict(modules=[
  dict(PARSE, harness="cli_ball2d.cpp", sources=["ball2dutils/*.cpp","ball2d/*.cpp","ball2d/*/*.cpp"]+ALLS, entries=CLI("cli2_",1)),
  dict(PARSE, harness="cli_rb2d.cpp", sources=["rigidbody2dutils/*.cpp","rigidbody2d/*.cpp"]+ALLS, entries=CLI("clir2_",0)),
  dict(PARSE, harness="cli_rb3d.cpp", sources=["rigidbody3dutils/*.cpp","rigidbody3d/*.cpp","rigidbody3d/*/*.cpp"]+ALLS, entries=CLI("clir3_",1))],
  bounds=REAL+"runs of up to 5 steps of one body with any state, or two colliding bodies of any mass; any end time up to 2.25, save rates of every step and every second step, resuming from each snapshot, 3 kinds of solver", outside="longer runs, other scenes, HDF5 state and force output, the option parser of the C library (replaced), fsync and partial writes")
H5 = ["-DUSE_HDF5"]
CLIH = [("ball2d","cli2_",["ball2dutils/*.cpp","ball2d/*.cpp","ball2d/*/*.cpp"]),("rb2d","clir2_",["rigidbody2dutils/*.cpp","rigidbody2d/*.cpp"]),("rb3d","clir3_",["rigidbody3dutils/*.cpp","rigidbody3d/*.cpp","rigidbody3d/*/*.cpp"])]
SPECS["P34"] = dict(modules=[dict(harness="hdf_core.cpp", sources=["scisim/HDF5File.cpp"], defs=H5, entries=[C("hdf_"+x,"end") for x in "scalars long tables sparse text groups open".split()]),
    dict(harness="hdf_ball2d.cpp", sources=["scisim/HDF5File.cpp"]+SB2, defs=H5, entries=[C("hdf_ball2d","end")]),
    dict(harness="hdf_rb2d.cpp", sources=["scisim/HDF5File.cpp"]+SR2, defs=H5, entries=[C("hdf_rb2d","end"),C("hdf_rb2d_portals","end"),C("hdf_rb2d_planes","end")]),
    dict(harness="hdf_rb3d.cpp", sources=["scisim/HDF5File.cpp"]+SR3, defs=H5, entries=[C("hdf_rb3d","end"),C("hdf_rb3d_walls","end"),C("hdf_mesh","end")])]+
    [dict(harness="clih_%s.cpp" % n, sources=src+ALLS, defs=PARSE["defs"]+H5, entries=[C(p+"h5_run","whole","end"),C(p+"h5_resume","end"),C(p+"h5_refused","end")]) for n, p, src in CLIH],
  bounds=REAL+"2D balls, 2D and 3D bodies with up to 3 bodies, 3 shapes, planes, portals, cylinders and one small mesh, every value of every number; runs of up to 5 steps of one body, resumed from each frame; HDF5File: every supported type, tables up to 3 by 2", outside="the HDF5 library itself (a model of it in memory is used), staples, larger scenes and runs")
SPECS["P35"] = dict(modules=[dict(harness="hdf_forces.cpp", sources=FRI+["scisim/HDF5File.cpp"]+["scisim/ConstrainedMaps/ImpactMaps/%s.cpp" % x for x in "ImpactMap ImpactSolution".split()], defs=H5, entries=[C("force_"+x,"end") for x in "geo geo_3d stab stab_3d sym sym_3d impact impact_3d".split()])]+
    [dict(harness="clih_%s.cpp" % n, sources=src+ALLS, defs=PARSE["defs"]+H5, entries=[C(p+"h5_forces",*(["met"] if n != "rb2d" else []),"end"),C(p+"h5_friction","end")]) for n, p, src in CLIH],
  bounds=REAL+"0-2 contacts among 3 bodies in 2D, 2 in 3D, any frames, velocities and answers of the solvers; every friction map and the impact map; runs of 3 steps of the programs", outside="the HDF5 library itself (a model of it in memory is used), more contacts")
