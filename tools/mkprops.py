import json
P="pterasoftware/"
A=P+"aerodynamics.py";M=P+"movement.py";G=P+"geometry.py";ME=P+"meshing.py";PA=P+"panel.py";F=P+"functions.py"
SH=P+"steady_horseshoe_vortex_lattice_method.py";SR=P+"steady_ring_vortex_lattice_method.py";UR=P+"unsteady_ring_vortex_lattice_method.py"
OP=P+"operating_point.py";PR=P+"problems.py";TR=P+"trim.py";CO=P+"convergence.py";OU=P+"output.py"
props=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    props.append(d)

p("C01","Vortex elements induce the Biot-Savart velocity with the documented core model",
 "For any evaluation points, vortex positions, strengths, core ages and viscosity, the velocity induced by ring and horseshoe vortices is the sum over each element's straight legs, each leg counted once and directed around the element, of the regularised Biot-Savart law, whose core radius grows with strength, age and viscosity as documented. It is finite everywhere, each leg contributing nothing on its own line, linear in strength when there is no core, and independent of rotation, translation and the order of vortices and points. The summed form, the per-vortex form, and the velocity queried from a panel agree with one another.",
 ["inputs"],"all finite points (including on a leg, on its extension and at an end), all quadrilaterals/horseshoes of centimetre size or larger, including degenerate ones, strengths of either sign, ages absent/zero/positive, viscosity >= 0",
 "No unit test evaluates an induced velocity at all; integration tests only see the total lift of a few wings, in which sign, core or singularity errors of a single leg hide.",
 [A,PA],[("line-vortex kernels","aerodynamics.collapsed_/expanded_velocities_from_line_vortices"),("ring/horseshoe assembly","aerodynamics.*_velocities_from_ring_vortices*, *_from_horseshoe_vortices"),("panel query","panel.Panel.calculate_(normalized_)induced_velocity")],
 ["return values of the four ring/horseshoe velocity functions","return value of Panel.calculate_induced_velocity"])
p("C02","Steady solutions satisfy flow tangency at every control point",
 "After either steady solver runs on any well-posed model, the total velocity - freestream plus the velocity that all the recorded bound vortices of all wings and airplanes induce - has no component along the panel normal at any panel's three-quarter-chord control point. Bound vortices sit on the quarter-chord lines of their panels, trailing vortices leave along the freestream, and the trailing vortices leaving each trailing edge carry exactly the circulation of the trailing-edge panel ahead of them.",
 ["inputs","configurations"],"all well-posed steady models: 1-3 airplanes, 1-3 wings each, symmetric or not, any section count, camber, twist, dihedral, sweep, control surfaces, panel counts including 1x1, any alpha/beta/speed",
 "The existing tests compare a handful of lift/drag numbers to XFLR5 within several percent; no test looks at the boundary condition, multi-airplane models or sideslip.",
 [SH,SR,F],[("vortex placement","*.initialize_panel_vortices"),("influence matrix and solve","*.calculate_wing_wing_influences, *.calculate_vortex_strengths"),("right-hand side","functions.calculate_steady_freestream_wing_influences")],
 ["panel.ring_vortex / panel.horseshoe_vortex after run","panel.collocation_point, panel.unit_normal"])
p("C03","Steady loads are Kutta-Joukowski forces, each vortex segment counted once",
 "After either steady solver runs, the forces and moments reported for panels and airplanes equal the Kutta-Joukowski force density x circulation x (local velocity x segment) summed over the bound vortex segments of the model, every panel contributing the front, left and right segments of its own vortex so that each physical segment counts exactly once with its net circulation, with moments taken about each airplane's reference point. Each airplane's totals are the sum over exactly its own panels, and coefficients are those wind-axis totals non-dimensionalised by dynamic pressure, the airplane's reference area and (for moments) span, chord and span, with drag and lift positive in their conventional senses.",
 ["inputs","configurations"],"all well-posed steady models incl. interior spanwise neighbours, several wings/airplanes with distinct reference dimensions and reference points, sideslip, non-unit density",
 "Tests check CL/CD/Cm of two conventional symmetric wings at zero sideslip within percent-level tolerances; roll/yaw/side force, multiple airplanes and double counting are invisible to them.",
 [SH,SR,F,PA],[("segment forces","*.calculate_near_field_forces_and_moments"),("wind axes, totals and coefficients","functions.process_steady_solver_forces"),("panel coefficients","panel.Panel.update_coefficients")],
 ["panel.near_field_force_geometry_axes / moment","airplane.total_near_field_* after run"])
p("C04","Steady results obey the physical similarity and symmetry laws",
 "For either steady solver, circulations scale with speed, forces with density and speed squared, and coefficients are unchanged by density, speed, uniform rescaling of the geometry and translating everything together; reordering wings or airplanes changes no load. Mirroring the model and the sideslip leaves lift, drag and pitching moment unchanged and negates side force, rolling and yawing moment; moving the reference point changes moments exactly by force transfer. Airplanes placed very far apart behave as if each were alone.",
 ["inputs","configurations","histories"],"all pairs of steady models of centimetre size or larger related by one of these transformations",
 "Metamorphic relations need pairs of runs on arbitrary models; tests run each fixed model once.",
 [SH,SR,F,OP],[("solve and loads","steady solvers' run()"),("frame transforms","operating_point.OperatingPoint, functions.process_steady_solver_forces")],
 ["airplane.total_near_field_force_coefficients_wind_axes and moments of paired runs"])
p("C05","Wing meshes reproduce the specified geometry, watertight and fully labelled",
 "Every mesh vertex lies on the mean-camber surface ruled linearly between neighbouring cross sections, at the requested uniform or cosine spanwise and chordwise spacing (chordwise spacing measured along the camber line), with each section's chord, twist, airfoil and position honoured and exactly the requested number of panels. Adjacent panels share their corner points exactly (except across the start or end of a deflected control surface), the mesh runs from leading to trailing edge and from tip to tip with the inner-to-outer order and outward (upward) normals preserved, and each panel's edge labels and grid indices match its place. The mesh is the same however the wing is positioned.",
 ["inputs","configurations"],"all valid wings whose sections extend along the symmetry plane's normal: >=2 sections, per-section chord/twist/airfoil/position/spacing, chordwise 1..n, rotated section normals, vertical wings, offset wings, symmetric or not",
 "Unit tests never look at a mesh; integration tests use a few fixed wings.",
 [ME,G,F],[("vertex generation","meshing.mesh_wing, meshing.get_wing_section_panel_vertices"),("panel generation","meshing.get_wing_section_panels"),("spacing","functions.cosspace, functions.interp_between_points"),("camber sampling","geometry.Airfoil.get_downsampled_mcl")],
 ["wing.panels[i,j].*_vertex and flags after Airplane construction"])
p("C06","Symmetric wings are exact mirror images except for asymmetric controls",
 "A symmetric wing's mesh is exactly mirrored across the wing's own symmetry plane through its root leading edge, its left half stored as the continuation of its right half, both halves meeting at the root without gap (unless the root carries an asymmetric deflection). Control surfaces of symmetric type deflect equally on both halves and those of asymmetric type deflect oppositely, each half with exactly the geometry a one-sided wing with that deflection would have, on the sections that declare it and at its hinge. Hence, without sideslip and asymmetric deflection, side force, rolling and yawing moment vanish.",
 ["inputs","configurations"],"all symmetric wings: any normal, offset, section count, control-surface types/deflections/hinges mixed per section",
 "No test inspects the mirrored half or an asymmetric control surface.",
 [ME,F,G],[("reflection","functions.reflect_point_across_plane, meshing.mesh_wing"),("control surfaces per side","meshing.mesh_wing (inner/outer airfoil deflection)")],
 ["panels of both halves","airplane totals of symmetric models"])
p("C07","Reference and derived geometric quantities match their definitions",
 "Every wing's span, projected and wetted area, standard mean chord and mean aerodynamic chord equal their geometric definitions evaluated on the wing as meshed, for symmetric and one-sided wings alike, and do not change when the wing is moved. An airplane's reference area, chord and span are those of its first wing, unless the user supplied a value, which is then kept exactly. Panel area, normal, spanwise and chordwise directions and average dimensions, and section chord-line vectors, match the panel's and section's corner geometry.",
 ["inputs","configurations"],"all valid wings/airplanes/sections; any subset of user-supplied reference dimensions",
 "No unit test evaluates these properties; integration tests see them only multiplied together in coefficients.",
 [G,PA],[("wing properties","geometry.Wing.span/projected_area/wetted_area/standard_mean_chord/mean_aerodynamic_chord"),("reference dimensions","geometry.Airplane.set_reference_dimensions_from_main_wing"),("panel properties","panel.Panel")],
 ["public properties of Wing, Airplane, WingCrossSection, Panel"])
p("C08","Airfoils load faithfully and keep their shape under resampling",
 "Every four-digit designation yields the analytic thickness and camber shape, every airfoil of the bundled database loads as the outline its file describes, and supplied coordinates are kept; names in the database are found case-insensitively. The outline runs from trailing edge over the upper surface to the leading edge and back, repanelling changes the point count to the requested one without moving the curve, and the mean camber line lies midway between the surfaces. Sampling the camber line at given fractions returns points on it, ordered from leading to trailing edge, at those fractions of its length.",
 ["inputs"],"all NACA 4-digit names, all bundled database files, user coordinates, any panel count, any increasing fractions in [0,1]",
 "Tests use naca2412 and naca0012-like airfoils only; the other ~1500 database files and camber sampling are never checked.",
 [G],[("loading","geometry.Airfoil.populate_coordinates"),("resampling","geometry.Airfoil.repanel_current_airfoil, populate_mcl_coordinates, get_downsampled_mcl, get_camber_at_chord_fraction")],
 ["airfoil.coordinates, airfoil.mcl_coordinates, return values"])
p("C09","Control-surface deflection rotates exactly the part behind the hinge",
 "Deflecting a control surface returns a new airfoil whose camber line behind the hinge is rotated rigidly about the camber-line point at the hinge by the given angle, positive downward, and is unchanged ahead of it; thickness is preserved, the name is kept with a suffix, and the original airfoil is untouched. Zero deflection returns the same shape, and equal and opposite deflections of a symmetric airfoil are mirror images. Angles beyond the allowed range are rejected.",
 ["inputs"],"all airfoils, deflections in [-90,90] degrees, hinges in (0,1)",
 "No test deflects a control surface and inspects the geometry.",
 [G,ME],[("deflection","geometry.Airfoil.add_control_surface"),("camber at hinge","geometry.Airfoil.get_camber_at_chord_fraction")],
 ["returned Airfoil's mcl_coordinates and coordinates"])
p("C10","Vortex elements stay self-consistent through any update history",
 "After any sequence of strength and position updates, every leg of a ring or horseshoe vortex has exactly the corners, length vector, centre and strength implied by the element's current corners and strength, with the legs running head to tail in one sense; the trailing legs of a horseshoe have the given direction and length. Panel vortex-corner, leg and control-point positions always follow the panel's corners. Updating one element never changes another.",
 ["histories","inputs"],"all sequences of updates on any set of elements, including sharing arrays between elements",
 "Unit tests do one update on one fixed element.",
 [A,PA],[("updates","aerodynamics.RingVortex.update_strength/update_position, HorseshoeVortex.update_strength"),("derived corners","panel.Panel")],
 ["public attributes of LineVortex, RingVortex, HorseshoeVortex, Panel"])
p("C11","Prescribed motion is exactly the specified waveform applied to the geometry",
 "At step k every moving quantity (speed, airplane reference point, wing position, section sweep, heave and pitch) equals its base value plus its waveform - sine, triangle or user function of the given amplitude and period - at time k times the time step. Flapping moves each section rigidly: the leading-edge distance between neighbouring sections is preserved while sweep and heave angles add to the base geometry's, pitch adds to the base twist, and outer sections ride on inner ones (a section directly above its inner neighbour keeps its base position and twist). A quantity with zero amplitude stays at its base value, and motion repeats every period.",
 ["inputs","histories","configurations"],"all movements: any subset of quantities, spacings, periods, custom functions, step sizes and counts, multi-section wings with base sweep/dihedral",
 "Tests run two movements and only check nothing is thrown.",
 [M],[("waveforms","movement.oscillating_sinspace/linspace/customspace"),("section kinematics","movement.WingMovement.generate_wings, WingCrossSectionMovement.generate_wing_cross_sections"),("airplane and operating-point motion","AirplaneMovement.generate_airplanes, OperatingPointMovement.generate_operating_points")],
 ["movement.airplanes[m][k], movement.operating_points[k]"])
p("C12","Motion changes nothing but what it is told to move",
 "Each time step's operating points, airplanes, wings and cross sections keep every property of the base objects that the motion does not prescribe - density, angles, viscosity, external thrust, weight, names, user-given reference dimensions, airfoils, chords, panel counts and spacings, control surfaces, symmetry and orientation vectors. A movement with no motion reproduces the base geometry at every step to rounding, whatever its sweep, dihedral or section layout. Building a movement never alters the base objects, and the time steps' objects are distinct.",
 ["inputs","configurations","histories"],"all base models with any attribute set to a non-default value, with and without motion",
 "Tests use models with default attributes and never compare a step with its base.",
 [M,G,OP],[("re-creation of objects per step","movement.*Movement.generate_*")],
 ["attributes and meshes of movement.airplanes[m][k] vs base objects"])
p("C13","Time discretisation defaults and the averaging window follow the motion",
 "Without user values, the time step is the time the freestream takes to cross an average first-wing panel of the airplanes, and the number of steps covers three periods of the slowest motion, or ten reference chords of travel if nothing moves, or the requested count of cycles or chords; user values are taken exactly. The longest period is the maximum over all moving quantities of all airplanes, wings, sections and the operating point. Final results average exactly over the last full period (the last step when nothing moves), and requesting only final results starts loads at that same step.",
 ["inputs","configurations"],"all movements with any mix of periods, step sizes, cycle/chord counts",
 "Tests exercise only a few default discretisations without checking their values.",
 [M,PR],[("time step and step count","movement.Movement.__init__"),("periods","*.get_max_period"),("averaging window","problems.UnsteadyProblem.__init__")],
 ["movement.delta_time, num_steps, max_period; problem.first_averaging_step, first_results_step"])
p("C14","Unsteady solutions satisfy flow tangency on the moving wing at every step",
 "At every time step, freestream, minus the control point's own velocity, plus the velocity induced by all bound rings and by all wake rings (with their current core ages) of all wings and airplanes has no component along any panel's normal. The control point's own velocity is the displacement since the previous step divided by the time step, and zero at the first step. This holds for prescribed and free wakes, with or without results requested at that step.",
 ["inputs","configurations","histories"],"all well-posed unsteady models and every step of each",
 "Tests check only final coefficients of static wings within percent or that nothing is thrown.",
 [UR],[("influences and solve","UnsteadyRingVortexLatticeMethodSolver.calculate_*_influences, calculate_vortex_strengths"),("flapping velocity","calculate_current_flapping_velocities_at_*")],
 ["panels' ring vortices per step","recorded wake lists per step"])
p("C15","Unsteady loads follow the unsteady Kutta-Joukowski theorem at every step",
 "At every step with results, panel and airplane forces equal density x net circulation x (local velocity relative to the moving segment x segment) over each panel's front, left and right bound segments so that each physical segment counts once (the trailing-edge segment, shared with the wake, carries none), plus the unsteady force: density x rate of change of the velocity potential jump (circulation of lifting sense) x area along the normal, and moments are taken about the airplane's current reference point. Totals sum exactly the airplane's own panels and are expressed and non-dimensionalised in the current operating point's wind axes and dynamic pressure. Steps before the first requested results step report no loads.",
 ["inputs","configurations","histories"],"all well-posed unsteady models, every step",
 "Tests compare static-wing averages with XFLR5 at percent level; variable-geometry tests check nothing.",
 [UR,F],[("loads","UnsteadyRingVortexLatticeMethodSolver.calculate_near_field_forces_and_moments"),("totals","functions.process_unsteady_solver_forces, update_ring_vortex_solvers_panel_attributes")],
 ["panel.near_field_*, airplane.total_near_field_* per step"])
p("C16","Wakes shed at the trailing edge, convect with the flow, keep circulation",
 "At every step the wake of each wing has one more row than before, its first row attached along the trailing-edge vortex of the current geometry, and neighbouring wake rings share corners. A shed ring takes the circulation of the trailing-edge panel that shed it and keeps it unchanged for life while its age grows by one time step per step. Shed points move by the freestream (prescribed wake) or by the full local velocity of the solved step (free wake) times the time step and by nothing else; the very first row extends from the trailing-edge vortex by one such displacement.",
 ["inputs","configurations","histories"],"all well-posed unsteady models, both wake models, every step",
 "No test reads the wake.",
 [UR],[("vertices","populate_next_airplanes_wake_vortex_vertices"),("strengths and ages","populate_next_airplanes_wake_vortices")],
 ["solver.wake_ring_vortex_*_list, wing.wake_ring_vortex_vertices"])
p("C17","Reported final results are the means and RMS of the recorded steps",
 "For a motion with a period, the final mean and root-mean-square loads reported for each airplane are those of the loads recorded in the averaging window; for a static model they are the last step's loads. Reported results do not depend on run options: requesting only final results, computing streamlines, or logging levels leave every recorded load in the final window unchanged. Every airplane is reported, in order.",
 ["inputs","configurations"],"all well-posed unsteady models x run options",
 "No test compares reported finals with the step history or across options.",
 [UR,PR],[("finalisation","finalize_near_field_forces_and_moments"),("skip of early loads","UnsteadyRingVortexLatticeMethodSolver.run")],
 ["problem.final_*; airplane totals per step"])
p("C18","Operating-point frames, freestream and dynamic pressure are consistent",
 "For any speed, density, angle of attack and sideslip the rotation between wind and geometry axes is a proper combination preserving lengths with the documented axis senses, the freestream velocity has exactly the given speed, positive angle of attack makes it come from below and positive sideslip from the right, and dynamic pressure is half density times speed squared. Total wind-axis forces and moments are the geometry-axis sums seen through that same rotation.",
 ["inputs"],"all alpha, beta in [-180,180], positive speeds and densities",
 "Only alpha of a few degrees and beta = 0 are exercised by tests.",
 [OP,F],[("rotation","operating_point.OperatingPoint.calculate_rotation_matrix_wind_to_geometry"),("freestream","calculate_freestream_*"),("dynamic pressure","calculate_dynamic_pressure")],
 ["return values of OperatingPoint methods"])
p("C19","Runs are deterministic, isolated and repeatable",
 "Solving a model gives repeatable results (to rounding) that do not depend on what was solved before in the process, on other models alive at the time or being solved in other threads, or on solving the same problem again, with the same or a different solver. Solving, plotting or querying never changes the geometry, the operating point or results already reported other than by replacing a problem's results when it is solved again.",
 ["histories","configurations"],"all interleavings of constructions, runs, re-runs, queries and output calls on several models, one after another or in threads",
 "Each test solves one fresh model once.",
 [SH,SR,UR,M,PR],[("solver state reset","*.run"),("copies of base geometry","movement.*, meshing.mesh_wing"),("final lists","problems.UnsteadyProblem")],
 ["totals, circulations, streamlines and problem finals after each event of a history"])
p("C20","Trim analysis returns a genuine in-bounds trim condition or reports failure",
 "Whenever steady or unsteady trim analysis returns numbers, they lie within the user's bounds and re-solving the model at that speed, angle of attack, sideslip and thrust balances weight and thrust and zeroes moments to within the requested tolerance (the mean of the force and moment coefficient norms); otherwise it returns not-a-number for every value. A model whose base condition is already trimmed is reported as trimmed, and problems with no trimmed condition in bounds are reported as failures rather than as values.",
 ["inputs","configurations"],"all models, bounds of positive width, cutoffs, iteration limits, including base values at bounds and infeasible weights",
 "One steady example is tested and its unsteady counterpart is not in the stable set.",
 [TR],[("objective and search","trim.analyze_steady_trim, trim.analyze_unsteady_trim")],
 ["returned values; independent re-solve"])
p("C21","Convergence studies return a setting that actually met the criteria",
 "A steady or unsteady convergence study examines the settings asked for (wake model, wake length, panel aspect ratio, chordwise panels) from coarse to fine and stops at the first combination at which coarsening each free parameter by one step alone changes every monitored load coefficient (the resultant force and moment coefficients, or the components selected by the user's mask) by less than the criterion; a parameter with a single candidate, an aspect ratio of one and a free wake count as converged, and it returns, for each parameter, the coarser of the two compared values (the value itself if it had no coarser one). When no combination examined qualifies it returns nothing for every parameter, and either way the model being studied is left unchanged.",
 ["inputs","configurations"],"all models, ranges, criteria, solver types, static or moving",
 "Three fixed examples are tested for exact outputs on one model.",
 [CO],[("search and stopping rule","convergence.analyze_steady_convergence, analyze_unsteady_convergence")],
 ["returned values; solver runs recorded during the study; independent re-solve"])
p("C22","Printed, plotted and drawn output shows exactly the computed results",
 "Printed reports state, under each airplane's heading and each label, the values the solver recorded for that airplane; plots over time contain each airplane's recorded histories against the step times of the whole simulation; drawings and animations contain each panel once at its own corners, each wake ring at its position at that step, streamlines where they were calculated, and scalars assigned to the panel they belong to; animations show the steps in order at the stated fraction of real speed; drawing an airfoil shows its own outline. Saving files writes them where requested and output calls work for every solved model, static or moving, with any results option.",
 ["inputs","configurations"],"all solved models x output functions x options",
 "Tests check that three output calls do not throw for one model.",
 [OU],[("printing","output.print_steady_results, print_unsteady_results"),("plots","plot_results_versus_time"),("surfaces and scalars","get_panel_surfaces, get_wake_ring_vortex_surfaces, get_scalars, draw, animate")],
 ["captured standard output, matplotlib figures, pyvista meshes and plotter calls"])
p("C23","Velocity-field queries and streamlines match the solved flow",
 "The flow velocity a solved model reports at any points equals freestream plus the velocity induced by all its bound, trailing and wake vortices at their recorded positions, strengths and ages. Streamlines start at the midpoints of the trailing-edge panels' back edges, one per trailing-edge panel, and advance by exactly the reported velocity times the time increment for the requested number of increments. Queries do not depend on how points are batched or ordered.",
 ["inputs","configurations","histories"],"all solved models of the three solvers, arbitrary point sets, any step/increment counts",
 "No test evaluates the velocity field or a streamline.",
 [F,SH,SR,UR],[("field","*.calculate_solution_velocity"),("streamlines","functions.calculate_streamlines")],
 ["solver.calculate_solution_velocity, solver.streamline_points, solver.seed_points"])
p("C24","Invalid models and options are rejected, valid ones are accepted",
 "Inputs that violate a documented requirement - fewer than two sections, unknown spacing, control-surface type, airfoil, solver or logging name, non-positive chord, root orientation or offset inconsistent with the wing, deflection out of range, missing custom function, contradictory cycle/chord counts, moving root section, steady-trim base values out of bounds - raise an error at construction or call instead of giving a result. Every input satisfying the requirements, including limiting cases such as a single panel, a single step, a maximal deflection or a bound equal to a base value, is accepted and gives finite results.",
 ["inputs","configurations"],"all single-fault mutations of valid models and all boundary-valid models",
 "No test supplies invalid input.",
 [G,M,TR,CO,F,UR],[("constructor and option checks","geometry.*.__init__, movement.*.__init__, trim.*, functions.convert_logging_level_name_to_value")],
 ["exceptions raised / finiteness of results"])
p("C25","The three solvers agree with each other and with lifting theory",
 "For the same thin wing in steady flow the horseshoe and ring methods give nearly the same loads, also with a single chordwise panel, and the unsteady method started impulsively approaches the steady ring solution as the wake grows, with prescribed and free wakes close for light loading. Loads agree with lifting-line and thin-airfoil theory within the accuracy of those theories: positive lift-curve slope near its theoretical value, zero lift at the camber-implied angle, positive induced drag, the aerodynamic centre near the quarter chord, less lift at lower aspect ratio, conventional senses of dihedral effect and control surfaces, and Wagner's and Theodorsen's lift history and phase for impulsively started, plunging and pitching wings.",
 ["inputs","configurations"],"all thin wings of moderate sweep and aspect ratio at small angles with adequate resolution",
 "Tests compare each method with stored XFLR5 numbers for one or two wings, never methods with each other.",
 [SH,SR,UR,F],[("all three solvers","*.run")],
 ["airplane totals of paired runs"])
p("C26","Unsteady results obey similarity, symmetry and ordering laws",
 "For unsteady simulations, scaling all lengths and times together, scaling speed with time inversely, or scaling density leaves coefficient histories unchanged and scales loads accordingly when viscosity is scaled to match; translating everything, or reordering airplanes or wings, changes nothing. Mirroring geometry, motion and sideslip mirrors every recorded load and wake position (trailing edges without steps). Airplanes very far apart evolve as if alone, and simulating for more steps gives the same history over the common steps.",
 ["inputs","configurations","histories"],"all pairs of unsteady models related by one of these transformations",
 "Metamorphic relations need pairs of simulations of arbitrary models; tests run each fixed model once.",
 [UR,M,F],[("simulation","UnsteadyRingVortexLatticeMethodSolver.run")],
 ["per-step airplane totals and wake lists of paired runs"])
p("C27","The graphical interface runs exactly the example that was chosen, every time",
 "In the main window, choosing an entry of the examples menu runs the example whose name the entry shows, exactly once for every time it is chosen, and reports that entry in the terminal output. This holds in any order of choices, for repeated choices, after an example failed, whatever other files lie in the examples folder and in whatever order the file system lists them. The about entry shows the current readme text, and messages sent to the terminal output appear at its end, in order and unchanged.",
 ["histories","schedules"],"all sequences of menu choices, all folder listing orders, failing and succeeding examples, all texts",
 "No test starts the graphical interface.",
 ["main.py",P+"ui_resources/main_window.py",P+"ui_resources/textdialog.py"],[("menu entry to example","main.MainWindow.exampleMenu"),("terminal output","main.MainWindow.printTerminalOutput, updateDisplayText"),("about dialog","main.MainWindow.menuREADME")],
 ["scripts run, entries of terminalOutput, text of the dialog"])
with open("/verif/properties.jsonl","w") as f:
    for d in props: f.write(json.dumps(d)+"\n")
print(len(props))
