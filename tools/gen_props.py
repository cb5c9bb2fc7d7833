"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,title)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
NOSOLVE="The stable tests never run a solver step, a transfer or a force: they only construct laws and point sets."
S="hydraxmpm/solvers/"; U=S+"usl.py"; A=S+"usl_asflip.py"
prop("C01","Mass is conserved by every transfer and by every step",
 "For any set of material points that lies inside the grid, the total mass found on the background grid during a step equals the total mass of the points, every node carries exactly the kernel-weighted share of the points around it, and no grid mass is negative. No step, however many follow each other, changes the mass of any point. This holds for both schemes, all three kernels, 2D and 3D, and any number of bodies sharing a grid.",
 ["inputs","configurations","histories"],"all point placements relative to the cells (on nodes, on faces, at kernel knots, interior), masses, schemes x kernels x dimensions, several bodies per grid, every step of a history",
 NOSOLVE,[U,A,"hydraxmpm/shapefunctions/mapping.py"],[("particle-to-grid transfer",U),("affine particle-to-grid transfer",A)],["grid arrays seen by a user force during the step","point masses after the step"])
prop("C02","Linear momentum changes only by external impulses",
 "In every step, the grid momentum gathered from the points equals the points' total momentum, stresses inside the bodies contribute zero net force whatever their values, and external point forces arrive on the grid in full; with a uniform transfer blend the points' total momentum therefore changes by exactly the external impulse. This holds for both schemes, all kernels, 2D and 3D, arbitrary stress and affine state, and any number of bodies sharing a grid.",
 ["inputs","configurations"],"all combinations of placements, velocities, stresses, affine matrices, blends, schemes, kernels, dimensions within the alphabet",
 NOSOLVE,[U,A],[("internal force from stress and kernel gradients",U),("affine momentum term",A),("grid integration",U)],["grid momentum and force seen by a user force","point velocities after the step"])
prop("C03","A body in uniform translation stays in uniform translation",
 "Unstressed points that all move with the same velocity keep exactly that velocity, move by velocity times the time step, see a zero velocity gradient, and keep their deformation, volume and stress, over any number of steps and wherever they are in the grid interior. Uniform gravity adds exactly gravity times the time step to every velocity per step and causes no deformation.",
 ["inputs","configurations","histories"],"all placements, velocities, gravity vectors, blends, schemes, kernels and dimensions in the alphabet, over multi-step histories crossing cell boundaries",
 NOSOLVE,[U,A,"hydraxmpm/forces/gravity.py"],[("grid-to-particle transfer",U),("grid-to-particle transfer",A)])
prop("C04","Affine motion is transported exactly and angular momentum is kept",
 "When the points carry a velocity field that is affine in position together with its affine matrix, the affine scheme puts exactly that field on the grid nodes, returns exactly its gradient (compression positive) and, apart from nodes outside the grid, loses neither linear nor angular momentum in the transfer. With B-spline kernels the transferred affine matrix of both of its update formulas reproduces the field it came from.",
 ["inputs","configurations"],"all velocity gradients, placements, kernels, dimensions and update formulas in the alphabet",
 NOSOLVE,[A],[("affine matrix update",A),("affine velocity in particle-to-grid",A)])
prop("C05","Deformation, volume and density always describe the same motion",
 "After every step, each point's deformation gradient is the previous one advanced by that step's velocity gradient (identity minus gradient times dt, compression positive), its volume is the initial volume times the determinant, and density times volume equals its mass; in 2D the out-of-plane stretch stays one. Laws that discard shear history keep the determinant unchanged, an optional stored deformation keeps the full history, and all of this holds for one point as for many.",
 ["inputs","configurations","histories"],"all velocity gradients, schemes, kernels, laws with and without shear reset, one to several points, 2D and 3D, over multi-step histories",
 NOSOLVE,[U,A,"hydraxmpm/constitutive_laws/constitutive_law.py","hydraxmpm/material_points/material_points.py"],[("deformation update in grid-to-particle",U),("same",A),("shear removal","hydraxmpm/constitutive_laws/constitutive_law.py")])
prop("C06","Velocity transfer never creates kinetic energy",
 "In a step without stresses, external forces or affine velocity, the total kinetic energy of the points does not increase when all points share a transfer blend between its two limits; the pure-difference limit of the blend returns every point its own velocity, the pure-interpolation limit returns the interpolated grid velocity, and intermediate blends return exactly the weighted mean of the two. The affine scheme's support-dependent blending only ever lowers the share of the difference part.",
 ["inputs","configurations"],"all small point sets, velocity assignments, masses, blends, schemes, kernels and dimensions in the alphabet",
 NOSOLVE,[U,A],[("blend of velocity updates",U),("dynamic blend",A)])
prop("C07","The affine scheme never exceeds its velocity limit",
 "After every step of the affine scheme no point is faster than the configured fraction of a cell per time step, a point below the limit is left untouched, and a limited point keeps its direction of motion.",
 ["inputs","configurations","histories"],"speeds below, at and far above the limit, all directions in the alphabet, limits, cell sizes, time steps, kernels, dimensions",
 NOSOLVE,[A],[("velocity clamp",A)])
prop("C08","A step is a pure, repeatable function and histories compose",
 "Advancing a state returns a new state whose time and step counter have advanced by exactly one step and leaves the given state untouched. The result depends on nothing but the given state: repeating it, compiling it, running it inside a compiled loop, batching it, rebuilding the scene, or interleaving it with other simulations gives the same history, and a state reached midway continues exactly like the uninterrupted run.",
 ["histories","schedules"],"all interleavings of step operations on several simulations up to a depth, all execution modes (eager, compiled, loop, batch), all time-step choices in the alphabet",
 NOSOLVE,[U,A,"hydraxmpm/common/simstate.py"],[("step entry point",U)])
prop("C09","Steps commute with the symmetries of the grid",
 "Translating a whole scene by grid cells, mirroring it, permuting its axes or reordering its points, and then stepping gives the same result as stepping first, for every kernel, scheme, law and dimension. There is no preferred axis, direction, cell or point index.",
 ["inputs","configurations"],"all 8 symmetries of the square grid and 48 of the cubic grid, cell translations, all point orders, for all scenes in the alphabet",
 NOSOLVE,[U,A,"hydraxmpm/shapefunctions/mapping.py","hydraxmpm/constitutive_laws"],[("hashing of node indices","hydraxmpm/shapefunctions/mapping.py"),("transfers",U)])
prop("C10","Each scheme performs the explicit MPM step it documents",
 "One step of each scheme equals the explicit update-stress-last step: mass-weighted transfer of mass and momentum (plus affine velocity where the scheme has it), compression-positive internal and external forces, forward Euler on the grid, the documented blend for velocities, the interpolated velocity plus the documented separable correction for positions, the velocity gradient of the new grid velocity with components ordered velocity-then-direction, and the law evaluated last on the updated kinematics.",
 ["inputs","configurations","histories"],"all scenes in the alphabet for every scheme, kernel, dimension and option setting, over one and several steps",
 NOSOLVE,[U,A],[("whole step",U),("whole affine step",A)])
prop("C11","Bodies on separate grids do not influence each other",
 "A scene of several bodies, each with its own grid, law, kernel and scheme state, evolves every body exactly as if it were simulated alone, in whatever order points, grids, laws and couplings are registered, and whether or not rigid bodies are registered among them. Which grid, law and numerical state belongs to a body is decided only by the coupling that names them.",
 ["configurations","programs"],"all registration orders and couplings of up to three bodies, grids and laws, with rigid bodies anywhere among them, both schemes",
 NOSOLVE,["hydraxmpm/common/builder.py",U,A,S+"coupling.py"],[("solver assembly","hydraxmpm/common/builder.py"),("per-coupling loops",U),("per-coupling loops",A)])
prop("C12","Splitting a body on one grid changes nothing",
 "Material points of one law that share a grid evolve identically whether they are registered as one body or divided in any way into several bodies, in any order: the bodies feel each other's mass, momentum, internal and external forces through the grid.",
 ["configurations","inputs"],"all partitions of small point sets into up to three bodies, all orders, both schemes, kernels, dimensions",
 NOSOLVE,[U,A],[("accumulation over couplings on one grid",U),("same",A)])
prop("C13","Every scene-building program wires exactly what it describes",
 "For every order of building calls, each registered force, collider, law, solver setting and initial state acts with its own parameters on exactly the bodies and grids it was given (or all registered so far when none is given), and on nothing else; returned handles address the object they were returned for. A law that needs an initial state is refused without one.",
 ["programs"],"all call sequences of the builder up to a depth over an alphabet of gravity, damping, collider, body, law and object calls with distinct parameters",
 "No stable test builds a scene.",["hydraxmpm/common/builder.py"],[("registration and index assignment","hydraxmpm/common/builder.py")])
SH="hydraxmpm/shapefunctions/"
prop("C14","Kernels interpolate constants and linear fields exactly everywhere",
 "At every position in the grid interior, in two and three dimensions, the kernel weights are non-negative and sum to one, their gradients sum to zero and are the derivatives of the weights, and the weights reproduce linear fields; B-spline gradients do so too at every position, the linear kernel's away from cell faces. Reported node indices are the nodes at the reported relative distances, and each stencil entry is a distinct node.",
 ["inputs","configurations"],"an exhaustive lattice of positions including knots, faces, nodes and their immediate neighbours, for 1, 2 and 3 dimensions, three kernels, several origins and cell sizes",
 "The mapping tests do not run (they use a removed API) and sample one position.",[SH+"mapping.py",SH+"linear.py",SH+"quadratic.py",SH+"cubic.py"],[("kernel evaluation",SH+"cubic.py"),("stencil selection",SH+"mapping.py")])
prop("C15","Mapping data to the grid and back is consistent",
 "Projecting per-point data (scalars, vectors, tensors) to the grid without normalisation conserves its mass-weighted total, and with normalisation gives each loaded node the mass-weighted average and leaves every other node at zero; interpolating grid data back gives each point the weighted sum of its nodes, so constant data survives the round trip. Interpolation is the transpose of projection.",
 ["inputs","configurations"],"all placements, data ranks, masses, kernels, dimensions and cutoffs in the alphabet",
 "The mapping tests do not run.",[SH+"mapping.py"],[("scatter",SH+"mapping.py"),("gather",SH+"mapping.py")])
prop("C16","The grid covers the requested region and outside points disturb nobody",
 "A grid's nodes are spaced by the cell size, start the requested number of padding cells before the requested origin and reach the requested end (exactly, where the extent is a whole number of cells) plus the padding, and the listed node positions correspond to the node numbering the transfer uses. A point that has left the grid contributes no mass or force to any node it does not overlap, never wraps to another side, and leaves the motion of all points whose nodes it does not share unchanged.",
 ["inputs","configurations"],"all origins, extents, cell sizes and paddings in the alphabet; all positions of one stray point in and around the grid",
 "The grid test does not run.",["hydraxmpm/grid/grid.py",SH+"mapping.py"],[("grid size and node positions","hydraxmpm/grid/grid.py"),("validity mask and clipping",SH+"mapping.py")])
F="hydraxmpm/forces/"
prop("C17","Gravity acts as mass times acceleration on exactly the chosen bodies",
 "Gravity applied through the grid and gravity applied to the points give the same motion; each adds exactly its own acceleration to the points it is assigned to and nothing to any other point, several gravity forces add up, and mass plays no role in the resulting acceleration.",
 ["configurations","inputs","histories"],"all assignments of one to three gravity forces to bodies and grids, both application modes, schemes, kernels, dimensions",
 NOSOLVE,[F+"gravity.py"],[("grid mode",F+"gravity.py"),("point mode",F+"gravity.py")])
prop("C18","Local damping only ever opposes motion",
 "Local damping adds, component by component, minus its coefficient times the magnitude of the force already acting times the sign of the velocity, to the grids or bodies it is assigned to and to nothing else; so its power is never positive, it leaves resting or unforced components alone, and a zero coefficient changes nothing. It acts on all forces registered before it.",
 ["configurations","inputs"],"all force/velocity sign combinations, coefficients, application modes, assignments and registration orders",
 NOSOLVE,[F+"damping.py"],[("grid mode",F+"damping.py"),("point mode",F+"damping.py")])
prop("C19","Contact with obstacles is non-penetrating, Coulomb-limited and dissipative",
 "After contact with an obstacle, no node inside it (or within the contact layer of one cell around it) moves into it relative to the moving surface, the tangential slip is reduced by at most friction times the normal velocity change and never reversed, separating nodes keep their velocity, the kinetic energy relative to the surface never grows, and nodes farther than that layer from every obstacle are untouched. The friction in force is the configured collider coefficient times the surface's own, and every obstacle acts with its own motion, geometry and friction on the grids it was assigned to.",
 ["inputs","configurations","histories"],"all node velocities, wall velocities, normals and friction values in the alphabet; scenes with one to three obstacles of several shapes, moving and static, both schemes",
 NOSOLVE,[F+"sdf_collider.py",U],[("frictional contact rule",F+"sdf_collider.py"),("node geometry",U)])
D="hydraxmpm/sdf/"
prop("C20","Signed distances are true distances with the right sign",
 "Every finite obstacle shape reports, at every point and for every size, the true Euclidean distance to its surface (up to the 1e-6 regularisation of its square roots), negative inside and positive outside; planes and rectangular domains report the distance to the nearest wall (domains positive inside). Normals are unit vectors pointing along increasing distance, so that moving by the distance along the normal reaches the surface.",
 ["inputs","configurations"],"all lattice positions around every shape for every size in the alphabet, 2D and 3D",
 "No test touches obstacles.",[D+"sdfcollection.py",D+"sdfobject.py"],[("shape formulas",D+"sdfcollection.py"),("autodiff normals",D+"sdfobject.py")])
prop("C21","Obstacles move as rigid bodies",
 "Placing an obstacle anywhere in any orientation leaves distances, normals and friction unchanged in its own frame; its reported surface velocity is the velocity of the rigid motion it performs; and advancing its pose over any sequence of steps keeps a proper orientation and carries every material surface point along with that velocity to first order in the step.",
 ["inputs","histories"],"all poses, velocities and spins in the alphabet, all shapes, step sequences up to a depth",
 "No test touches obstacles.",[D+"sdfobject.py","hydraxmpm/utils/math_helpers.py"],[("pose transform",D+"sdfobject.py"),("pose integration",D+"sdfobject.py"),("rotation helpers","hydraxmpm/utils/math_helpers.py")])
prop("C22","Combined and sampled obstacles agree with their parts",
 "The distance of a union of shapes is the smallest of the parts' distances and its friction is that of the nearest part; a domain's friction is that of its nearest wall; a sampled obstacle returns its samples at the sample points, interpolates linearly between them, and applies its scale and thickness as a similarity and an offset; a cloud of material points is the union of the discs or balls of the points' initial volumes, exactly without smoothing and with smoothing from below by at most log(n)/k, with unit normals that are the closeness-weighted mean of the balls' normals.",
 ["inputs","configurations"],"all combinations of up to three parts and frictions, all lattice positions; all small sampled fields in the alphabet with every scale and thickness; all clouds of up to five points in the alphabet",
 "No test touches obstacles.",[D+"sdfcollection.py",D+"gridsdf.py"],[("union",D+"sdfcollection.py"),("table lookup",D+"gridsdf.py")])
prop("C23","Generated points fill exactly the shape",
 "Filling a shape regularly returns precisely the regular sub-cell centres of the grid cells that lie strictly inside the placed shape, each exactly once, the requested number per cell; quadrature filling does the same with the tensor Gauss-Legendre points of each cell; random filling returns only points inside the shape and the bounds, is reproducible for a given key, and keeps every inside candidate.",
 ["inputs","configurations"],"all shapes, poses, cell sizes, counts per cell and bounds in the alphabet, 2D and 3D",
 "No test generates points.",["hydraxmpm/utils/generate_body.py"],[("candidate lattice and filter","hydraxmpm/utils/generate_body.py")])
L="hydraxmpm/constitutive_laws/"
ALL=[L+x for x in("linearelastic.py","newtonfluid.py","mu_i_rheology.py","druckerprager.py","modifiedcamclay.py")]
prop("C24","All material laws are isotropic, symmetric, local and quiet at rest",
 "For every law and reachable state: rotating the whole history rotates the stress (so does a superposed rigid spin for the elastoplastic laws), the stress stays symmetric, a point's result does not depend on the other points, and an increment without deformation leaves the stress and history variables of an admissible state unchanged (for rate-dependent laws: leaves only the rate-independent part). No reachable state is ever not-a-number.",
 ["inputs","histories"],"all strain-rate directions and rotations of the cube in the alphabet, all histories up to a depth, all laws",
 "One linear-elastic increment is tested; nothing else about any law is.",ALL,[("law updates",L)])
prop("C25","The linear elastic law is Hooke's law, whatever the path",
 "The stress change over any strain path equals the isotropic elastic stiffness applied to the total strain, independent of order, splitting and time step; moduli agree with Young's modulus and Poisson's ratio, compression gives positive pressure, and strain followed by its reverse returns the initial stress.",
 ["inputs","histories"],"all strain increments in the alphabet, all orders and splits up to a depth, parameter grid",
 "One single increment is tested.",[L+"linearelastic.py"],[("incremental update",L+"linearelastic.py")])
prop("C26","Fluid laws follow their pressure and viscosity relations without suction",
 "A Newtonian fluid's pressure is its bulk modulus times (density ratio to its exponent minus one), never negative, positive when compressed, and pushes outward; its shear stress is twice viscosity times the deviatoric strain rate and resists it. The granular law's pressure is its compressive equation of state, zero stress when looser than its reference, and its shear-to-pressure ratio is the documented function of the inertial number, between its static and limit friction. States initialised from density and pressure return that pressure at that density.",
 ["inputs","histories"],"all density ratios, strain rates and parameter sets in the alphabet, 2D and 3D",
 "Only the initial state of the Newtonian fluid is tested.",[L+"newtonfluid.py",L+"mu_i_rheology.py"],[("pressure relation",L+"newtonfluid.py"),("friction relation",L+"mu_i_rheology.py")])
prop("C27","Drucker-Prager stress never leaves its yield surface",
 "After any strain history the stress satisfies the friction cone and never exceeds the tensile apex; an increment that stays inside is exactly elastic, shear flow at constant volume keeps the pressure prescribed by the flow rule, and stress is proportional in time-step splitting on the elastic part. Material looser than its reference density carries no stress.",
 ["inputs","histories"],"all strain-increment sequences up to a depth, including apex and cone returns, parameter grid",
 "No test.",[L+"druckerprager.py"],[("return mapping",L+"druckerprager.py")])
prop("C28","Modified Cam-Clay respects yield, flow, hardening and compression lines",
 "After any strain history through increments the return mapping can resolve and from stresses at or above the law's pressure floor, the stress lies in or on the yield ellipse of the current preconsolidation pressure, the preconsolidation pressure never decreases in compression-hardening and follows the plastic volume change by the compression-line slopes, unloading is elastic along the swelling line, and loose (disconnected) material carries no stress. A state initialised from overconsolidation ratio, stress or density is consistent: recomputing its stress, density and overconsolidation gives back what was asked for.",
 ["inputs","histories"],"all strain-increment sequences up to a depth from all initial overconsolidation/pressure combinations, parameter grid",
 "The law's tests do not run.",[L+"modifiedcamclay.py"],[("implicit update",L+"modifiedcamclay.py"),("initialisation",L+"modifiedcamclay.py")])
prop("C29","Time-step estimates are the Courant limit of the stiffest, fastest point",
 "For every law that offers an estimate the stable time step is the safety factor times the cell size over the largest sum of elastic wave speed and point speed: positive, finite, proportional to cell size and factor, never larger when a point is added, stiffened, sped up or lightened.",
 ["inputs","configurations"],"all laws, parameter grids, point sets and velocities in the alphabet",
 "No test.",ALL,[("time-step estimate",L)])
prop("C30","Element tests follow the prescribed loading path",
 "A single-point strain-driven step advances deformation by the exponential (or, on request, linear) map of the prescribed gradient, evaluates the law on the updated kinematics, and keeps volume, density and deformation consistent. A triaxial run keeps the confinement (or mean pressure) at its target when drained, keeps volume constant when undrained, imposes the prescribed axial strain, and its snapshots for every stride are a subsequence of the full history.",
 ["configurations","histories"],"all laws, drainage and control modes, rates, strides, initial states in the alphabet, over all recorded steps",
 "No test.",["hydraxmpm/element_tests/driver.py","hydraxmpm/element_tests/triaxial_test.py"],[("driver step","hydraxmpm/element_tests/driver.py"),("lateral-rate solve and recording","hydraxmpm/element_tests/triaxial_test.py")])
prop("C31","A saved simulation resumes exactly where it was",
 "For every history of stepping and saving, loading any saved step returns exactly the state and solver that were saved, bit for bit, and continuing from it gives the uninterrupted run; saving never alters the simulation, each step number has its own record, the latest save of a step wins, and records survive re-opening the output folder unless overwriting was asked for, which removes exactly that folder's previous records.",
 ["histories"],"all sequences of step/save/load/reopen operations up to a depth over several schemes, laws and obstacle motions",
 "No test touches saving.",["hydraxmpm/common/sim_io.py"],[("save and load","hydraxmpm/common/sim_io.py")])
prop("C32","A torn checkpoint is rejected, never silently loaded",
 "If writing a checkpoint is cut short at any byte, or fails with an error, loading that step raises an error or returns exactly the saved state, never a mixture; all other saved steps stay loadable and unchanged, and repeating the save repairs the record.",
 ["crash_points","fault_sequences"],"every byte prefix of every record file written by a history, and every failing write call",
 "No test touches saving.",["hydraxmpm/common/sim_io.py"],[("record writing","hydraxmpm/common/sim_io.py")])
M="hydraxmpm/utils/math_helpers.py"
prop("C33","Tensor, strain and rotation helpers satisfy their defining identities",
 "Pressure, deviator and equivalent-stress helpers split and recombine tensors exactly and are rotation invariant; strain helpers agree with the deformation they are given; conversions between solid fraction, void ratio, specific volume and density invert each other; rotations are proper, compose, invert and integrate as rotations; batched helpers equal their single-point form on every point.",
 ["inputs"],"all tensors with entries in a small integer alphabet, all rotations in the alphabet, all helper functions",
 "No test.",[M],[("helpers",M)])
prop("C34","Created point sets are what was asked for",
 "A created point set has one entry per point everywhere, takes every given quantity unchanged, fills the rest with rest-state defaults, and derives mass as density times volume with initial volume equal to volume; derived quantities (density, pressure, shear stress, strains, kinetic energy) follow from the stored ones by their definitions. Lithostatic preconditioning gives the vertical stress that carries the weight of the column above, with the requested ratio of horizontal to vertical stress and the shear a slope requires.",
 ["inputs","configurations"],"all subsets of given quantities, one to several points, 2D and 3D, value alphabet",
 "Two constructions with one point set each are tested.",["hydraxmpm/material_points/material_points.py",M],[("construction","hydraxmpm/material_points/material_points.py")])
prop("C35","A step is differentiable and its gradient is the true derivative",
 "The derivative of any number of steps with respect to initial velocities, positions, stresses and material parameters is finite everywhere the step is, also for resting, unstressed or touching points, and equals the difference quotient of the steps themselves, for every scheme, kernel and law, away from the switching points of the law, contact and limiter.",
 ["inputs","configurations"],"all schemes, kernels, laws and differentiation inputs in the alphabet, one to several steps",
 "No test differentiates anything.",[U,A]+ALL,[("whole step",U)])
prop("C36","Exported data is the simulation's data",
 "Files exported for visualisation contain, for every frame and body, exactly the points, positions and requested quantities of the exported state, in 2D and 3D, under one file or frame per label and step that carries its time; exported obstacle boundaries lie on the obstacle's surface and cover the whole of it that lies in the exported region.",
 ["histories","configurations"],"all sequences of export calls up to a depth for bodies of different sizes and dimensions",
 "No test exports anything.",["hydraxmpm/common/vtk_io.py"],[("frame writer","hydraxmpm/common/vtk_io.py")])
prop("C37","Results do not depend on the system of units",
 "If every length, mass and time of a simulation (grid, points, densities, moduli, pressures, viscosities, rates, gravity, obstacles, contact gap, mass cutoff and other stated floors, time step) is expressed in another system of units, the simulation goes through the same states expressed in those units: there are no thresholds on absolute magnitudes beyond guards against division by zero. This holds for steps of both schemes with every kernel and law, for gravity, damping and contact, for each law on its own, for time-step estimates, and for distances, normals and surface velocities of obstacles.",
 ["inputs","configurations","histories"],"all unit systems in the alphabet x schemes x kernels x laws x states x histories; all obstacle shapes; all words of increments",
 "The stable tests run no step and use one system of units.",[U,A]+ALL,[("whole step",U),("laws","hydraxmpm/constitutive_laws"),("obstacles","hydraxmpm/sdf/sdfcollection.py")])
prop("C38","The motion does not depend on the observer",
 "A scene seen from a frame in uniform motion, with another origin, or turned by quarter turns as a whole (points, velocities, stresses, affine state, gravity, grid, and obstacles with their pose, velocity and spin) goes through the same motion as seen from there. For uniform motion this holds for single steps with any frame velocity and for histories whenever the frame moves by whole cells per step, without damping and velocity limit and with the obstacle's place compared at the moment of contact (obstacles move first in a step). It holds for both schemes, all kernels and laws, with and without obstacles in contact.",
 ["inputs","configurations","histories"],"all observers in the alphabet x schemes x kernels x laws x obstacles x states, one to several steps",
 "The stable tests run no step.",[U,A,"hydraxmpm/forces/sdf_collider.py","hydraxmpm/sdf/sdfobject.py"],[("whole step",U),("contact","hydraxmpm/forces/sdf_collider.py"),("obstacle motion","hydraxmpm/sdf/sdfobject.py")])
prop("C39","Influence travels only through shared grid nodes",
 "Changing one material point (its place, velocity, mass, volume, stress, deformation or affine state, even to extreme values) changes, in one step, only points whose kernel support shares a grid node with it, before or after the change: after k steps every point outside the cone of influence grown that way is bit for bit as it would have been. Nothing leaks through far rows, the rim of the grid, array wrap-around, shared caches or global reductions; changes of points that have left the grid reach no one. It holds for both schemes, all kernels and all laws with stateless gravity, damping and obstacles present.",
 ["inputs","configurations","histories"],"all arrangements of four points in the alphabet x changed point x changed quantity x schemes x kernels x laws, several steps",
 "The stable tests run no step.",[U,A,"hydraxmpm/shapefunctions/mapping.py","hydraxmpm/grid/grid.py"],[("scatter and gather","hydraxmpm/shapefunctions/mapping.py"),("node numbering","hydraxmpm/grid/grid.py"),("step",U)])
prop("C40","Admissible states never turn into not-a-number",
 "From every finite state with positive masses and volumes, however degenerate its geometry (points on nodes, faces and edges, coinciding points, points on the rim or outside of the grid, on the surface or at the centre of an obstacle, rest, extreme mass contrasts, empty grid nodes), a step whose strain increment is moderate leaves every number of every point finite, every mass as it was and every volume positive; a step of zero duration moves no point. This holds for each law from its admissible stresses, both schemes, all kernels and obstacle shapes.",
 ["inputs","configurations","histories"],"all combinations of degenerate placements, velocities, stresses and contrasts in the alphabet x schemes x kernels x laws x obstacles, histories of steps of several sizes",
 "The stable tests run no step.",[U,A,"hydraxmpm/forces/sdf_collider.py",D+"sdfcollection.py"],[("division by node mass",U),("normals",D+"sdfcollection.py"),("contact","hydraxmpm/forces/sdf_collider.py")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
