#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the property texts live here)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))

KERN = ['wiz/VortexCylinder.py', 'wiz/VortexCylinderSkewed.py', 'wiz/VortexRing.py', 'wiz/VortexDoublet.py', 'wiz/VortexLine.py', 'wiz/VortexPoint.py', 'wiz/SelfSimilar.py']
WT = ['wiz/WindTurbine.py', 'wiz/WindFarm.py']
SOLV = ['wiz/Solver.py']
CW = ['wiz/examples/CurledWake_2D.py']
OTHER = 'Trusted: the abstract model of numpy in sa/npmodel.py and of Python in sa/interp.py; real arithmetic (rounding is ignored).'

P = []
def prop(id, title, statement, over, text, tests, files, mech, technique, note, obs=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, technique=technique, note=note, obs=obs, state=state))

prop('C01', 'Velocities, wake strengths and lengths keep consistent physical dimensions',
     'Every public induced-velocity routine, wake solver and curled-wake routine combines only quantities of like physical dimension: what is added, subtracted, compared or selected between has the same dimension, and what is passed to a trigonometric, exponential or logarithmic function is dimensionless. Consequently changing the unit of length or of time in all inputs rescales every returned velocity, strength, radius, coefficient and angle by exactly the factor its documented dimension requires, for every combination of options (outside the small fixed tolerances the code keeps around singular points).',
     ['inputs', 'configurations'], 'all input values and unit choices, all documented options of every kernel, solver method and curled-wake routine',
     'Tests use one set of numbers (mostly R=1, U0=1 or 10), for which a missing factor R, U0 or rho is invisible; unit consistency must hold for every scale.',
     KERN + SOLV + CW, [('formulae of the kernels', 'wiz/VortexCylinder.py, wiz/VortexCylinderSkewed.py, wiz/VortexRing.py, wiz/VortexLine.py, wiz/VortexDoublet.py, wiz/VortexPoint.py, wiz/SelfSimilar.py'), ('discrete and continuous wake solver', 'wiz/Solver.py')],
     'dimensional analysis by abstract interpretation of the value graph', 'Decides dimensional consistency of every expression reached under each enumerated option. Dimensionless factors (2, pi) are outside it. ' + OTHER)

prop('C02', 'Induced velocity is linear in the vortex strength',
     'For every kernel and every routine for several cylinders, rings or vortex points, the induced velocity is exactly proportional to the given vortex strengths: scaling all strengths by any factor scales every velocity component by it, zero strength gives zero velocity, and the result for a sum of strengths is the sum of the results. No strength-dependent threshold, offset or non-linear term may enter.',
     ['inputs', 'configurations'], 'all strengths, points and options of every kernel',
     'Tests evaluate unit strengths or a single value; proportionality for all strengths, signs and points cannot be sampled.',
     KERN, [('strength appears as a factor', 'wiz/Vortex*.py')], 'abstract interpretation over a homogeneity lattice', 'Every output of each kernel is classified; guards on a zero strength are accepted only where the guarded value is itself proportional. ' + OTHER)

prop('C04', 'Arguments are never modified and results never alias them',
     'No routine modifies an array, list or dictionary handed to it, nor a default argument shared between calls. No array it returns or stores shares memory with an array the caller passed in, with another returned array, or with the state of the turbine, so writing into a result changes nothing else.',
     ['inputs', 'histories', 'configurations'], 'all public routines under all options and input shapes; any later use of inputs and results by the caller',
     'Tests do not look at their inputs after the call and never write into results; an in-place update through a view shows only for particular shapes and dtypes.',
     KERN + WT + SOLV + CW, [('copies before in-place updates', 'wiz/*.py')], 'effect and alias analysis (memory origins through views)', 'Every store of every analysed configuration is attributed to the memory it can reach. Stores in code not reached by the analysed entry points are not seen. ' + OTHER)

prop('C05', 'A velocity depends on the current settings of a turbine only, not on its history',
     'Once position, yaw, wind and loading (and the skew angle, the axes at zero yaw, the radius, the model and the ground option, where these are changed) of a turbine have been given anew, the velocity it returns, and the answer to every query of its yaw, skew angle, shaft direction and rotor disk, is that of a new turbine given the same: earlier settings, queries and velocity evaluations before or in between leave no trace. Queries (angles, rotor-disk points, text output, velocity evaluation) leave every setting as it was, and repeating one gives the same answer.',
     ['histories', 'inputs'], 'all sequences of updates and queries of a turbine, before and between velocity evaluations',
     'Tests create a fresh turbine, set it once and evaluate it once; stale caches appear only after a second update in a particular order.',
     ['wiz/WindTurbine.py'], [('update and query methods', 'wiz/WindTurbine.py')], 'symbolic-value comparison of two histories on the value graph', 'Histories are two-step (old settings and queries, then new settings); since the second state is compared as a whole with the state of a fresh turbine, longer histories follow. ' + OTHER,
     state=[dict(name='yaw_pos, r_hub, U0_g, gamma_t, chi, transforms', meaning='state of the turbine from which the velocity is computed', where='wiz/WindTurbine.py')])

prop('C06', 'Only relative position matters',
     'Moving the evaluation points and the singularity (cylinder, ring, doublet, vortex point, turbine hub) by the same displacement leaves every velocity component unchanged; with a ground plane this holds for displacements parallel to the plane, and for a turbine it holds for every orientation, model, skew and option. A farm shifted as a whole together with the points gives the same velocities.',
     ['inputs', 'configurations'], 'all displacements, points, orientations, models and options',
     'Tests place singularities and hubs at the origin or one position; an absolute coordinate used in place of a relative one is invisible there.',
     KERN + WT, [('relative coordinates', 'wiz/VortexCylinder.py vcs_*, wiz/VortexRing.py rings_u, wiz/WindTurbine.py compute_u')], 'algebraic normal forms of the value graph under substitution', 'Exact as real-arithmetic identities; case by case on the conditions of the code. ' + OTHER)

prop('C07', 'The free stream is added exactly once and only on request',
     'For a turbine, the velocity with the free stream minus the induced velocity alone is exactly the free-stream vector in the requested frame, component by component, for every model, orientation, yaw, skew, ground, wake and component option. A farm adds the vector it is given exactly once whatever the number of turbines, and adds none when given none.',
     ['inputs', 'configurations'], 'all free-stream vectors, points, models, orientations and numbers of turbines',
     'Tests check a single turbine with axis-aligned free stream and induced velocities; the two options are never subtracted for an oblique wind or several turbines.',
     WT, [('only_ind branch', 'wiz/WindTurbine.py compute_u'), ('U0 of the farm', 'wiz/WindFarm.py velocity_field')], 'value-graph comparison of the two options as normal forms', 'Every combination of model, orientation, number of cylinders, skew class and option analysed. ' + OTHER)

prop('C08', 'Mirror symmetry of every induced-velocity field',
     'Reflecting the evaluation points (and the singularity) about the plane containing the axis of the singularity and its skew direction reflects the velocity field as vorticity requires: in-plane components are even and the normal one odd for tangential vorticity, rings and doublets, and the opposite for axial (root and longitudinal) vorticity.',
     ['inputs', 'configurations'], 'all points, radii, strengths, skew angles and options',
     'Tests evaluate lines or planes on one side, mostly in the mid-plane; parity must hold at every azimuth.',
     KERN, [('azimuthal dependence of the kernels', 'wiz/Vortex*.py')], 'algebraic parity of the value graph (substitution, normal forms)', 'Numerical azimuthal integrals over the full circle are treated as exact integrals over a period. ' + OTHER)

prop('C09', 'Straight singularities give axisymmetric velocity fields',
     'For every singularity without skew (straight cylinders, rings, doublets, self-similar model, straight lines along the axis) the axial, radial and tangential velocity components depend only on the distance to the axis and the axial coordinate, never on the azimuth of the point.',
     ['inputs', 'configurations'], 'all azimuths, radii and axial positions, all options of the straight kernels',
     'Tests sample one azimuth (usually along one axis); dependence on azimuth cannot be excluded by samples.',
     KERN, [('azimuth-free formulae', 'wiz/VortexCylinder.py, wiz/VortexRing.py, wiz/VortexDoublet.py')], 'algebraic normal forms in polar coordinates', 'Skewed kernels are checked at zero skew where the formula is closed. ' + OTHER)

prop('C13', 'Superposition: systems are the exact sum of their members',
     'The velocity of a system of cylinders, rings or vortex points is the sum over every member of the velocity of that member alone, for any number of members; that of a turbine is the sum over its requested components and concentric cylinders; that of a farm (including the constant-thrust grid) is the sum over its turbines, all evaluated at the same points with the same options. No member is left out, counted twice or given the strength, radius or position of another.',
     ['inputs', 'configurations'], 'any number of members, all strengths, positions, radii and options',
     'Tests use one or two members, often equal; indexing errors that need unequal members or a last member escape them.',
     KERN + WT, [('loops over members', 'wiz/VortexCylinder.py vcs_*, wiz/VortexCylinderSkewed.py svcs_*, wiz/VortexRing.py rings_u, wiz/VortexPoint.py, wiz/WindTurbine.py compute_u, wiz/WindFarm.py')], 'value-graph comparison with a symbolic number of members', 'Loops are summarised as sums over a symbolic axis; farms with 0 to 3 concrete turbines are compared as well. ' + OTHER)

prop('C14', 'Polar and Cartesian outputs describe the same velocity',
     'For every kernel offering both, the Cartesian components are the polar components rotated by the azimuth of the point, at every point and for every option. The legacy single-component routines return the same components as the kernels built on them, in the documented order for each requested number of outputs.',
     ['inputs', 'configurations'], 'all points and options of the kernels offering both forms',
     'Tests read one form only, or compare along one azimuth where radial and x components coincide.',
     KERN, [('polar_out branches', 'wiz/VortexCylinder.py, wiz/VortexCylinderSkewed.py, wiz/VortexRing.py')], 'algebraic normal forms of both value graphs', OTHER)

prop('C15', 'Velocities are defined and continuous at axes, sheets and own positions',
     'At the places where the closed forms degenerate (on the axis of a cylinder or ring, on the vortex sheet, at the ring itself, at the position of a vortex point, doublet or line, in the plane of a skewed root vortex) the velocity is a finite number that continues the field around: on an axis and in a plane it is the limit of the velocity nearby, on the sheet of a tangential or longitudinal cylinder the mean of the velocities on its two sides, and a point, doublet or line induces no velocity at its own position. (The root vortex on its own line and the ring itself have no such limit.) Values other than that of the general formula are used at such places only, not in an extended neighbourhood.',
     ['inputs', 'configurations'], 'all special points of the closed-form kernels, for all radii, strengths, positions and distances',
     'Tests compare one or two values on the axis; the special values elsewhere, and their agreement with the field around, are limits no sample reaches.',
     KERN, [('axis, sheet and singularity handling', 'wiz/VortexCylinder.py, wiz/VortexRing.py, wiz/VortexDoublet.py, wiz/VortexLine.py, wiz/VortexPoint.py')],
     'truncated power series of the value graph and extended-arithmetic definedness', OTHER)

prop('C16', 'Every call returns: loops and recursion are bounded',
     'Every library routine terminates for every input: each loop runs over a finite collection that the loop itself does not extend or is bounded by a counter that strictly advances towards a fixed limit, and no routine calls itself without end. In particular iterative evaluations stop even when the values never converge (NaN, infinite or degenerate inputs).',
     ['inputs'], 'all inputs of all library routines',
     'A non-terminating input is one a test never has; NaN and degenerate inputs never meet a convergence criterion.',
     ['wiz/elliptic.py', 'wiz/Solver.py'] + KERN + WT, [('iteration caps', 'wiz/elliptic.py')], 'syntactic termination argument and call-graph acyclicity', 'Loops over data are finite because their iterables are not extended in the body; calls into numpy are assumed to return.')

prop('C17', 'No path reads an undefined name or stops in a debugger',
     'Whatever branch an input or option selects, the code on it only uses names, attributes and variables that are defined at that point, and never enters a debugger or waits for keyboard input. Every documented option either computes a result or raises a deliberate error.',
     ['inputs', 'configurations'], 'all branches of all routines, all documented option values',
     'Tests cover a minority of the option branches; an undefined name fails only when its branch runs.',
     ['wiz'], [('name binding', 'wiz/*.py, wiz/examples/CurledWake_2D.py')], 'scope analysis and abstract interpretation of every option', 'Attributes are checked on objects whose class is known to the interpreter.')

prop('C18', 'Results are deterministic and computations have no side effects',
     'The computation of velocities, wake strengths and layouts depends on its arguments (and the object they are called on) only and has no other effect than its result: no random numbers, clock, environment, files, processes, or global numerical settings are read or changed, and no module-level, class-level or shared memory is written or read uninitialised. Explicit save and load routines touch only the file they are given, and progress text on standard output is allowed.',
     ['inputs', 'histories', 'configurations'], 'all sequences of calls to all computing routines under all options',
     'A test sees one call in one process; hidden state shows only across calls, instances or environments.',
     KERN + WT + SOLV + CW + ['wiz/elliptic.py'], [('pure functions', 'wiz/*.py')], 'effect analysis by abstract interpretation', 'External calls outside the known pure numpy/scipy/math set are reported. ' + OTHER)

prop('C22', 'Optional inputs left out never reach the arithmetic',
     'Every documented way of leaving optional inputs out (loading given as thrust coefficient, circulation or tabulated strength; infinite or default tip-speed ratio; one or several cylinders; absent root radius, spacing, or cut radius) gives a numeric result for every component that is requested or a deliberate error. A tip-speed ratio left out of a loading is the one last given to the turbine. An absent value is never used as a number, ordered, stored in an array or returned in place of a velocity.',
     ['inputs', 'configurations'], 'all combinations of omitted optional inputs and requested components',
     'Tests exercise a few of the combinations; a missing value fails only for the combination that needs it.',
     WT + SOLV + KERN, [('loading and defaults', 'wiz/WindTurbine.py update_loading, wiz/Solver.py')], 'abstract interpretation with absent values', 'Combinations enumerated; each is analysed for all numeric values. ' + OTHER)

prop('C24', 'Routines computing the same flow agree',
     'Where the package offers several routes to the same induced velocity they agree identically away from the tolerance neighbourhoods of singular points: routines taking polar and Cartesian inputs, the total of a skewed cylinder and the sum of its parts, a finite cylinder and the difference of two semi-infinite ones, unguarded and guarded formulae, a straight vortex line and the general one.',
     ['inputs', 'configurations'], 'all points, strengths, radii, skew angles, cylinder ends',
     'Tests compare some pairs on a few points; a wrong sign or factor in an untested branch remains invisible.',
     KERN, [('sibling routines', 'wiz/VortexCylinder.py, wiz/VortexCylinderSkewed.py, wiz/VortexLine.py, wiz/VortexDoublet.py, wiz/VortexRing.py')], 'algebraic normal forms of sibling value graphs', 'Elliptic integrals are uninterpreted functions of their arguments. ' + OTHER)

prop('C03', 'The velocity at a point does not depend on the other points',
     'Every velocity component has the shape of the points it is evaluated at, one- or two-dimensional, and its value at a point depends on that point (and the settings) only. Evaluating points together, one at a time, in another order or in another arrangement gives the same value at each point, at singular points and in every special region as well.',
     ['inputs', 'configurations'], 'all sets, numbers, orders and arrangements of points, all kernels, models and options',
     'Tests evaluate regular sets of points once; mixing between points shows only when the points are permuted, split or include singular ones.',
     KERN + WT + ['wiz/elliptic.py'], [('element-wise formulae, masks, reshapes', 'wiz/Vortex*.py, wiz/elliptic.py, wiz/WindTurbine.py compute_u')], 'dataflow over lanes (no operation mixes points)', 'Points are arrays over one or two symbolic axes, any length. Elliptic integrals of Bulirsch are assumed functions of their arguments; the Carlson iteration is analysed. ' + OTHER)

prop('C10', 'A ground plane is the addition of the mirrored singularity',
     'With the ground option, the induced velocity of a turbine or cylinder is the velocity without ground plus that of the same turbine or cylinder, of the same strength, with its hub at the mirrored height, each counted exactly once; the value given in a call wins over the setting of the turbine. For the tangential vorticity this makes the velocity through the plane vanish at every point of the plane; the longitudinal vorticity of straight multi-cylinder systems is documented not to have an image.',
     ['inputs', 'configurations'], 'all points, hub heights, strengths, models, yaw and skew angles, orientations and options',
     'Tests look at one ground case; a missing, doubled or wrongly placed image of one component at one orientation is not visible in it.',
     ['wiz/WindTurbine.py', 'wiz/VortexCylinder.py', 'wiz/VortexCylinderSkewed.py'], [('ground branches', 'wiz/WindTurbine.py compute_u, wiz/VortexCylinderSkewed.py svc_tang_u')], 'value-graph comparison with the mirrored configuration, normal forms and parity', OTHER)

prop('C11', 'Blanking the wake removes velocities in the wake and nowhere else',
     'With the no-wake option the induced velocity of a turbine is zero at every point at a radius below the rotor radius and at or downstream of the rotor, and is unchanged at every point at a radius above 1.1 rotor radii or more than one rotor radius upstream, in the frame of the rotor. This holds for every position, yaw, orientation, wake model, skew, ground and component option and for all velocity components.',
     ['inputs', 'configurations'], 'all points, hub positions, yaw angles, orientations and options',
     'Tests use the option for one rotor at the origin without yaw; a test in the wrong frame or on the wrong side is not visible there.',
     ['wiz/WindTurbine.py'], [('no_wake branches', 'wiz/WindTurbine.py compute_u')], 'value-graph analysis in rotor coordinates, case by case on the conditions of the code', 'Says nothing on the transition region between the two. ' + OTHER)

prop('C12', 'The requested model and options are the ones evaluated',
     'The velocity of a turbine is that of the requested wake model evaluated in the frame of the rotor with the strength of each requested component, radius and skew angle of that turbine; the model and cut radius given in a call win over those of the turbine, and the far-field model is the cylinder inside and the doublet line outside the cut radius. An unknown wake model (for the tangential or longitudinal vorticity), solver method, regularization or viscous model is rejected with an error and never answered with the result of another one.',
     ['inputs', 'configurations'], 'all models, components, orientations, skew classes, points and strengths; all values outside the documented options',
     'Tests run the models for one orientation and component; a wrong strength or model used in one combination is not compared with its kernel.',
     ['wiz/WindTurbine.py', 'wiz/Solver.py', 'wiz/VortexRing.py'], [('model dispatch', 'wiz/WindTurbine.py compute_u'), ('method dispatch', 'wiz/Solver.py')], 'value-graph comparison with the documented kernel; path exhaustiveness of option values', OTHER)

prop('C19', 'Misuse is rejected and leaves everything as it was',
     'Appending anything but a turbine to a farm, a layout of the wrong shape, loading without any specification, vortex points and control points of different dimension, negative radii (be it one among others) and a first cylinder of zero radius end in an error, and the farm or turbine concerned is then unchanged. Proper use is accepted: every turbine appended is kept in order, and setting a layout puts each row on its own turbine and reading it back returns the rows given.',
     ['inputs', 'histories'], 'all farms, all objects appended, all layouts and loadings',
     'Tests use the interface properly once; partial updates before a rejection and rows assigned to the wrong turbine need unequal turbines and a failure.',
     ['wiz/WindFarm.py', 'wiz/WindTurbine.py', 'wiz/VortexPoint.py', 'wiz/VortexRing.py', 'wiz/VortexCylinder.py'], [('argument checks', 'wiz/WindFarm.py append, layout; wiz/WindTurbine.py update_loading')], 'must-fail path analysis with comparison of the state before and after', OTHER)

prop('C21', 'The flow is the same in every frame: yaw, orientation and skew agree',
     'Turning the points, the wind and the rotor together about the vertical by any angle turns the velocity by that angle; the two supported orientations (shaft along z with y vertical, shaft along x with z vertical) give the same flow with the coordinates permuted; and a shaft turned when the turbine is made equals one turned by yawing. Rotations are exact rotations about their axis in the right-handed sense, the points of the rotor disk lie in the rotor plane at the rotor radius, are as many as asked for, go round it once and end where they began, and the skew, wind and yaw-error angles are the signed angles between the wind and the shaft.',
     ['inputs', 'configurations'], 'all yaw and wind angles, hub positions, points, models, skews, orientations and options',
     'Tests use a few yaw angles at a hub in the origin and one orientation at a time; an inverse or transposed rotation in one place shows only for other combinations.',
     ['wiz/WindTurbine.py'], [('frames and transformations', 'wiz/WindTurbine.py set_yaw0_coord, update_yaw_pos, transform, transform_T, RotMat_AxisAngle, compute_u'), ('angles', 'wiz/WindTurbine.py yaw_wind, yaw_error, chi')], 'algebraic normal forms of the value graph under rotation of its inputs', 'Exact real arithmetic; wind exactly along or against the shaft is excluded for the angles. ' + OTHER)

prop('C20', 'What is saved under a name is what is loaded under it',
     'A velocity plane saved under a base name (four arrays or one tuple, with or without a reference velocity) is read back unchanged, component by component, the velocities divided by the reference velocity if one was given; an object saved under a name is read back unchanged, to the last digit. Files saved under different names do not overwrite each other, whatever was saved before or after.',
     ['inputs', 'histories'], 'all planes and objects, several names saved one after the other',
     'The helper routines have no tests; swapped components or colliding file names show only for several unequal arrays and names.',
     ['coupling_examples/helper_functions.py', 'wiz/article_blockage/helper_functions.py'], [('save and load', 'coupling_examples/helper_functions.py savePlane, loadPlane; wiz/article_blockage/helper_functions.py save_obj, load_obj')], 'abstract interpretation over a store of named files', 'Names are a fixed list of concrete strings; the contents are symbolic. ' + OTHER)

prop('C25', 'The wake solver conserves circulation and balances momentum',
     'For any radii, circulation and operating point: the longitudinal vorticity leaving each cylinder carries the difference of the circulation on its two sides, the root vortex carries minus the circulation of the innermost one and the total is zero; without swirl there is no longitudinal or root strength; zero circulation gives zero strength; the wake of a cylinder does not depend on the loading inboard of it, nor on the radii given inboard of it; the pitch of each wake is that of the flow on its two sides; the induction at the rotor is half of that far downstream; and, without high-thrust correction and tangential-induction correction, the far-wake velocity balances the thrust and, with swirl, the pressure of the rotating wakes outboard. The circulation found from a thrust coefficient has that thrust, the wake given a thrust is the wake of that circulation, the inductions returned satisfy the momentum equations they stand for, the high-thrust correction is the tangent of the momentum relation at an axial induction of 0.34, and constant-thrust profiles are constant between linear cut-offs.',
     ['inputs', 'configurations'], 'all radii, circulations, wind and rotational speeds and options; one to four cylinders for every option, and up to thirty (sixty in the thorough tier) where the terms stay bounded',
     'Tests check one constant thrust distribution; a wrong neighbour or order of summation vanishes for constant loading.',
     SOLV, [('strengths from circulation', 'wiz/Solver.py WakeVorticityFromCirculation_Discr, WakeVorticityFromCirculation_Cont'), ('inductions and circulation', 'wiz/Solver.py InductionsFromPrescribedCtCq_ST, InductionsFromCirculation_VC_Cont, CirculationFromPrescribedCt, Ct_const_cutoff')], 'algebraic normal forms of the value graph of the solver', 'The number of cylinders is bounded. The minimiser used for one relation is assumed to find a zero of its objective. ' + OTHER)

prop('C26', 'Farm grids have one turbine per position and the strength of their thrust',
     'A grid layout has every position of a regular grid exactly once: rows evenly spaced laterally around the origin (an even number extends one spacing further to the negative side) and downstream from it, all at hub height, and with mirrors the same positions again at minus the hub height. Both spacings are used, the longitudinal one defaulting to the lateral one. In a constant-thrust grid every turbine has the given radius and the strength for which the far-wake velocity balances its thrust.',
     ['inputs', 'configurations'], 'all spacings, hub heights, thrust coefficients, velocities; one to four rows and columns (seven in the thorough tier)',
     'Tests look at one square grid of two by two turbines, where rows and columns can be exchanged unnoticed.',
     ['wiz/WindFarm.py'], [('layout', 'wiz/WindFarm.py gridLayout, windfarm_gridlayout_CTconst')], 'value-graph evaluation of the layout with symbolic spacings', 'Numbers of rows and columns are bounded. ' + OTHER)

prop('C27', 'Integer inputs are treated as the numbers they are',
     'Coordinates, radii, strengths, positions, directions, velocities and loadings given as integers, as scalars or in arrays, each on its own or all together, give the same result as the same values in floating point. No computation stores a value with decimals into an array that holds integers because an argument does, rounds or truncates an argument or narrows it to fewer digits, or refuses an operation because an array holds integers.',
     ['inputs', 'configurations'], 'all integer-valued arguments in any combination with others, all kernels, solvers, turbines and options',
     'Tests pass mostly floating-point arrays; an array that takes over the integer type of one argument cuts off decimals silently only for that argument.',
     KERN + WT + SOLV + ['wiz/elliptic.py'], [('arrays made from arguments', 'wiz/Vortex*.py, wiz/Solver.py, wiz/WindTurbine.py')], 'element-type dataflow on the abstract execution', 'Types not followed through an operation are taken as unknown and raise no alarm. Overflow of integers is ignored. ' + OTHER)

prop('C23', 'Vortex sheets and lines have the jumps and circulation of their strength',
     'Across the sheet of a tangential or longitudinal vortex cylinder (semi-infinite or finite) the tangential velocity jumps by the strength of the sheet where the sheet is, by half of it in the plane of its edge and not at all elsewhere, and the normal velocity is continuous. Near every line, ring and point vortex the velocity circulates around it with its circulation. Far away, rings are doublets, cylinders are sinks and doublets of their strength, and lines of doublets decay accordingly. Far downstream the velocity inside a vortex cylinder is its strength and outside it is zero; in its rotor plane it is half of that.',
     ['inputs', 'configurations'], 'all strengths, radii, positions and directions of approach, all kernels',
     'Tests compare kernels with each other and with a few values; a wrong factor shared by both, or wrong on one side of a sheet only, passes.',
     KERN, [('closed forms', 'wiz/VortexCylinder.py vc_tang_u, vc_longi_u_polar, cylinder_tang_u; wiz/VortexRing.py; wiz/VortexLine.py; wiz/VortexPoint.py; wiz/VortexDoublet.py')], 'power-series expansion of the value graph at vortices and at infinity', 'Limits are formal: rounding is ignored. ' + OTHER)

prop('C28', 'Induced velocities are divergence-free and irrotational off the vortices',
     'The velocity induced by any vortex element (ring, cylinder, skewed cylinder, line, point, doublet, line of doublets, sums and quadratures of those) has zero divergence at every point off the vortices; that of closed rings, tangential cylinders and doublets, and of unregularised points, also has zero curl there, and each component of the velocity of straight vortex lines is harmonic.',
     ['inputs', 'configurations'], 'all points off the vortices, all strengths, geometries, viscous models of lines and points',
     'Tests do not differentiate velocities; a wrong coefficient in one component changes values only slightly or only for lengths and skews not tested.',
     KERN, [('closed forms', 'wiz/VortexCylinder.py, wiz/VortexCylinderSkewed.py, wiz/VortexRing.py, wiz/VortexLine.py, wiz/VortexPoint.py, wiz/VortexDoublet.py')], 'exact differentiation of the value graph and algebraic normal forms', 'In exact arithmetic; quadratures term by term; special values on axes and sheets are C15 and C23. ' + OTHER)

prop('C29', 'Closed forms are the superposition of their elements by Biot-Savart',
     'The velocity of a vortex ring, of half-infinite lines, of points and of doublets is the one the law of Biot-Savart gives for them. The velocity of a vortex cylinder (tangential or longitudinal, straight or skewed, semi-infinite or finite) of the curled wake of a yawed rotor and of a line of doublets is the sum over the rings, lines or doublets it consists of: its change along the vortices is the velocity of the element at its near end (minus that at its far end), and nothing is left far upstream. Quadratures cover every element exactly once.',
     ['inputs', 'configurations'], 'all points off the vortices, all strengths, radii, skews, lengths and numbers of quadrature points',
     'Tests compare one line of points with a finite number of rings, mostly on the axis or for very long lines, and lengths or skews not tested can be wrong.',
     KERN, [('closed forms', 'wiz/VortexCylinder.py, wiz/VortexCylinderSkewed.py, wiz/VortexRing.py, wiz/VortexLine.py, wiz/VortexPoint.py, wiz/VortexDoublet.py')], 'exact differentiation of the value graph and algebraic normal forms', 'In exact arithmetic; quadratures of any number of points are decided term by term, their truncation error is not. Special values are C15 and C23. ' + OTHER)

prop('C30', 'Regularised vortices differ from bare ones in their core only',
     'Every regularised kernel (the viscous models of lines and points, smoothed points of every order, rings and cylinders with a core) tends to the bare vortex when its core shrinks relative to the distance. Regularised lines and points keep the direction of the bare velocity and induce none in the centre of their core; cores of lines and points with an edge have no step there and those of rings change nothing outside of it; where the parameter of a line is a core radius (Rankine, Lamb-Oseen, Vatistas) the velocity is largest at it; the named core and cut-off models have their classical profile; and the smoothing kernels of higher order of points have vanishing moments up to their order.',
     ['inputs', 'configurations'], 'all strengths, core sizes, directions and points; all viscous models, smoothing models and orders',
     'The models have no tests of their own; coefficients of a kernel of high order or a core radius show in values only by comparison with theory.',
     KERN, [('viscous models', 'wiz/VortexLine.py vl_semiinf_u; wiz/VortexPoint.py vp_u, vps_u; wiz/VortexRing.py ring_u_polar; wiz/VortexCylinder.py vc_tang_u')], 'power-series expansion and exact differentiation of the value graph; moments of the kernels read off it', 'Limits are formal: rounding is ignored. The core radius is judged to four digits. ' + OTHER)

NA = [
 ('N01', 'Accuracy of the complete elliptic integrals', 'The complete elliptic integrals used by the kernels equal their mathematical definition to within a stated tolerance for every parameter in range.',
  ['inputs'], 'all parameters and characteristics', 'Tests compare a handful of tabulated values.', ['wiz/elliptic.py'], 'numerical convergence of an iteration: a bound on run-time values no static argument in reach can give (its termination is C16)'),
 ('N03', 'Far-field model error is bounded', 'Outside the cut radius the doublet approximation differs from the full cylinder model by less than a stated fraction.',
  ['inputs'], 'all points outside the cut radius', 'Tests compare one profile.', ['wiz/VortexDoublet.py', 'wiz/WindTurbine.py'], 'a bound on an approximation error over a continuum of run-time values'),
 ('N05', 'The wake solver reproduces the prescribed thrust', 'Integrating the loading that the solver returns recovers the prescribed thrust coefficient to within the resolution of the radial grid.',
  ['inputs'], 'all thrust distributions', 'Tests check one constant distribution.', ['wiz/Solver.py'], 'a bound on discretisation error of run-time values'),
 ('N06', 'Rotation matrices stay orthonormal under rounding', 'The transformation between global and rotor frame keeps lengths to within rounding for every sequence of yaw updates.',
  ['inputs', 'histories'], 'all yaw angles and histories', 'Tests use a few angles.', ['wiz/WindTurbine.py'], 'accumulation of rounding errors; the exact-arithmetic part is in C21'),
]

def main():
    done = lambda i: os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py'))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted([p for p in P if done(p['id'])], key=lambda p: p['id']):
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
            if p['state']: a['state'] = p['state']
            if p['obs']: a['observe_at'] = p['obs']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['tests'], 'anchors': a}) + '\n')
        for i, t, s, o, q, w, fl, r in NA:
            f.write(json.dumps({'id': i, 'title': t, 'statement': s, 'quantifier': {'over': o, 'text': q}, 'why_tests_cant': w, 'anchors': {'files': fl, 'mechanism': [{'name': 'numerical formulae', 'where': ', '.join(fl)}], 'hook_needed': None}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [{'property': i, 'reason': r} for i, t, s, o, q, w, fl, r in NA]}
    for p in sorted([p for p in P if done(p['id'])], key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'], 'thorough_cmd': 'python3 run.py %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                            'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__': main()
