"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)
    if observe: a['observe_at'] = observe
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

VC, SV, VR, VL = 'wiz/VortexCylinder.py', 'wiz/VortexCylinderSkewed.py', 'wiz/VortexRing.py', 'wiz/VortexLine.py'
VD, VP, SS, EL = 'wiz/VortexDoublet.py', 'wiz/VortexPoint.py', 'wiz/SelfSimilar.py', 'wiz/elliptic.py'
WT, WF, SO, PL = 'wiz/WindTurbine.py', 'wiz/WindFarm.py', 'wiz/Solver.py', 'wiz/plotting_functions.py'
CE = 'coupling_examples/helper_functions.py'

prop('C01', 'Straight tubular wake induces exactly the Biot-Savart velocity',
 'For a straight tubular wake of tangential vorticity, semi-infinite or finite, of any strength and radius, the velocity returned at a '
 'point off the sheet is finite and equals the Biot-Savart integral of that sheet, on the axis, in the rotor plane, upstream, downstream and arbitrarily close to the radius included (where the rounding error of the closed form grows with the inverse squared relative distance). '
 'A point on the cylindrical surface itself (radius equal to the sheet radius within rounding) gets the mean of the two sides, and a quarter of the strength axially on the rim of the rotor disk. '
 'A regularisation length changes nothing upstream of the rotor plane, keeps the velocity finite everywhere, replaces the jump across the sheet by a transition over a distance of the order of that length, and the regularised field converges to the unregularised one as that length tends to zero.',
 ['inputs'], 'all control points (axis, near axis, rim, near and exactly on the radius, both sides, far up/downstream), all radii and strengths, finite extents z1<z2, regularisation lengths >= 0, array or scalar arguments',
 'The unit tests compare with a few rings on one line, a handful of axis points and 4 singular points; the special-value branches (axis, rim, radius) are selected by floating-point tests that only arbitrary points reach.',
 [VC, EL], [('semi-infinite cylinder closed form with axis/rim/radius branches', VC+':vc_tang_u'), ('finite cylinder', VC+':cylinder_tang_u'),
            ('closed form without special values', VC+':cylinder_tang_semi_inf_u_raw')], ['return values of the cylinder velocity functions'])

prop('C02', 'Skewed wake components induce exactly their Biot-Savart velocity',
 'For any skew angle below 90 degrees of either sign, any strength, radius and number of integration points, the velocities of the skewed tangential sheet, the skewed longitudinal sheet and the skewed root vortex '
 'equal the Biot-Savart integrals of those vortex systems at every point off them, and at zero skew those of the straight wake. '
 'The same holds for the combination of the three, for a rotor-plane-only set of points, and for results requested as polar, skew-aligned or Cartesian components.',
 ['inputs'], 'all skew tangents m, control points off the sheet at a distance the integration count resolves, strengths, radii, mixes of points (all in the rotor plane or not), output component selections',
 'Existing tests look at one skew angle (30 degrees) on the rotor diameter and a few plots; nothing covers negative skew, the wake interior downstream or the polar/skew component outputs.',
 [SV, VL], [('skewed tangential sheet', SV+':svc_tang_u, svc_tang_u_polar'), ('skewed longitudinal sheet', SV+':svc_longi_u, svc_longi_u_polar'),
            ('skewed root vortex', SV+':svc_root_u, svc_root_u_polar'), ('combined system', SV+':svc_u_polar'),
            ('component outputs', SV+':fV_Trailed, fV_Tangential, fV_Root, skew_components, polar_components')])

prop('C03', 'Vortex rings induce exactly the Biot-Savart velocity of a circular filament',
 'The velocity returned for a circular vortex filament of any circulation, radius and axial position equals the Biot-Savart integral of the filament at every point off it, axis included, and all ring formulations agree with each other. '
 'With a regularisation core the velocity stays finite everywhere, is proportional to the circulation, and the core smoothing (Saffman form) leaves the field outside the core unchanged and gives the self-induced velocity of Saffman inside.',
 ['inputs'], 'all ring radii, circulations, axial positions, control points (axis, ring plane, far, near the filament), core sizes and both core models',
 'Tests compare formulations on single lines for the unit ring; offsets, radii other than one and core models with non-default circulation are never run.',
 [VR], [('Cartesian ring', VR+':ring_u'), ('polar ring with axial offset and cores', VR+':ring_u_polar'), ('singular closed forms', VR+':ring_u_polar_singular, ring_u_polar_singularb')])

prop('C04', 'Straight vortex lines and longitudinal sheets obey Biot-Savart and core models',
 'The velocity of a semi-infinite straight vortex line of any direction, of the root vortex of a straight wake and of a straight tubular sheet of longitudinal vorticity equals the Biot-Savart integral of the filament(s), is purely azimuthal for axial filaments, and is finite on the upstream axis and on the sheet radius upstream of its start. '
 'Every viscous-core model of the line multiplies the singular velocity by its documented core function (or enlarges the denominator by its cut-off), so it vanishes or stays bounded at the line and tends to the singular field away from it.',
 ['inputs'], 'all control points, unit directions, circulations, core models 0..5 with positive core radius; radii and strengths of the sheet; points inside, outside, on the axis',
 'One unit test evaluates two points of one direction without a core; core models 1 to 5 and the axis values are never evaluated.',
 [VL, VC], [('general semi-infinite line with core models', VL+':vl_semiinf_u'), ('axial line', VL+':vl_semiinf_straight_u(_polar)'), ('longitudinal sheet', VC+':vc_longi_u(_polar)'), ('root vortex', VC+':vc_root_u')])

prop('C05', 'Doublets and doublet lines induce the exact dipole field',
 'A point doublet of any strength vector and position returns the dipole velocity; a straight or skewed line of doublets, semi-infinite or of finite length, returns the integral of the dipole velocity along the line at every point off the line. '
 'The numerical-quadrature versions converge to the closed forms, the polar and Cartesian forms agree, on the line itself zero is returned, and negative radii are refused.',
 ['inputs'], 'all strength vectors, positions, skews, lengths, control points off the line including the prolongation of the line upstream and beyond its end, and the rotor plane',
 'Tests use one line of points or a handful of points per form; finite skewed lines and their prolongations are checked through the integrals of 4 points only.',
 [VD], [('point doublet', VD+':doublet_u, doublet_u_polar'), ('semi-infinite and finite lines', VD+':doublet_line_u, doublet_line_polar_u'), ('closed-form integrals', VD+':I30, tI50, tI51, tI52, _integrals_DL_finite'), ('quadrature versions', VD+':doublet_line_u_num, doublet_line_polar_u_num')])

prop('C06', 'Two-dimensional vortex points follow the regularised point-vortex law',
 'Any set of two-dimensional point vortices induces at any control point the sum over the vortices of the circulation times the rotated separation over twice pi the squared distance, multiplied by the core function of the selected smoothing model and order with that vortex\'s own core length. '
 'A vortex does not act on a control point that coincides with it, the third component of three-dimensional inputs stays zero, the smoothed velocity tends to the singular one many core lengths away, and inputs whose dimensions differ or whose model or order is unknown are rejected.',
 ['inputs'], 'all numbers of vortices and control points, 2- and 3-column inputs, circulations, smoothing models 0,1,2 with every implemented order, individual core lengths, coincident points',
 'There is no test of this module at all.',
 [VP], [('single vortex', VP+':vp_u'), ('sets of vortices with kernels', VP+':vps_u')])

prop('C07', 'Complete elliptic integral of the third kind is exact on its whole domain',
 'For every characteristic n<1 and parameter m<1, scalar or array, positive or negative, the returned complete elliptic integral of the third kind equals its defining integral to near machine accuracy, independent of the other elements of the array. '
 'It satisfies the limiting identities at n=0, n=m and m=0, and a characteristic of exactly one gives infinity.',
 ['inputs'], 'all n in [-1e3,1), m in [-1e6,1) including tiny distances to 1, zeros, equal values, scalars and arrays mixing easy and hard elements',
 'Tests sample a grid of n,m in [0,1) and a few points; the routine iterates to an array-wide convergence criterion that depends on the mixture of elements.',
 [EL], [('Carlson duplication with array-wide stopping', EL+':ellipticPiCarlson')])

prop('C08', 'Self-similar upstream model keeps its published shape',
 'On the axis upstream of the rotor the self-similar model returns the axial velocity of the straight tubular wake of the same strength; away from the axis it is that value times a bell-shaped profile of the distance over the local half-width, so it never changes sign, decreases monotonically with the radius and is about half at the half-width. '
 'It is axisymmetric, proportional to the strength, depends on position only relative to the rotor radius, and is exactly zero downstream of the rotor plane.',
 ['inputs'], 'all points, radii, strengths, shape parameters, array shapes and scalars',
 'One test checks three axis points to two decimals.',
 [SS], [('self-similar velocity', SS+':ss_u')])

prop('C09', 'Induced fields are divergence-free, and irrotational outside the vorticity',
 'Away from the vorticity every vortex-based velocity field (straight, finite and skewed tubular wakes, rings, lines, doublets, 2-D points) has zero divergence, and those made of closed vortex lines or doublets also have zero curl. '
 'The circulation around a closed loop equals the vorticity flux through it: across a tangential sheet the axial velocity jumps by the sheet strength, and around a longitudinal sheet or a line it equals the enclosed circulation.',
 ['inputs'], 'all smooth points and all closed loops/spheres placed by the generator, all parameters',
 'The tests compare point values; no test relates values at neighbouring points, so an error that is smooth in one component is invisible to them.',
 [VC, SV, VR, VL, VD, VP], [('all velocity functions', VC+', '+SV+', '+VR+', '+VL+', '+VD+', '+VP)])

prop('C10', 'Velocities are linear in the strength and dimensionally consistent',
 'Every induced velocity is proportional to its strength (zero strength gives exactly zero, opposite strength the opposite velocity), and scaling all lengths by a common factor leaves sheet-induced velocities unchanged and scales line, ring, point and doublet velocities by their dimensional power. '
 'A turbine whose geometry is scaled, or whose wind speed is scaled at the same loading, induces velocities scaled accordingly.',
 ['inputs', 'configurations'], 'all strengths, signs, length scales from 1e-2 to 1e3, velocity scales, elements and their regularisation lengths',
 'Every test uses one strength and almost always unit radius.',
 [VC, SV, VR, VL, VD, VP, SS, WT], [('all velocity functions', VC+', '+SV+', '+VR+', '+VL+', '+VD+', '+VP+', '+SS), ('turbine velocity', WT+':WindTurbine.compute_u')])

prop('C11', 'Velocity evaluation is pointwise and leaves its inputs untouched',
 'The velocity returned at a control point depends only on that point and the parameters: it is the same whether the point is evaluated alone, in a permuted, reshaped, split or larger array, in integer or non-contiguous storage, or repeatedly. '
 'The result has the shape of the control points, no argument array is modified, and an empty array of points yields empty results where empties are accepted.',
 ['inputs', 'histories'], 'all velocity functions and the turbine/farm methods, all array shapes (0-d to 3-d), permutations, splits, storage types, mixtures of ordinary and singular points, repeated calls',
 'Tests use one fixed array per function, so masks that leak between points or in-place updates of caller data go unnoticed.',
 [VC, SV, VR, VL, VD, SS, WT, WF, EL], [('boolean-mask branches and in-place accumulation', VC+', '+SV+', '+VR+', '+VD+', '+WT), ('array-wide iteration', EL)])

prop('C12', 'Polar and Cartesian results agree and respect the symmetries of the wake',
 'For every element the polar, skew-aligned and Cartesian results describe the same vector, and axisymmetric elements give the same radial and axial velocity at every azimuth with no swirl for tangential vorticity and only swirl for axial vorticity. '
 'Reflecting the geometry across the vertical plane of skew, or reversing the skew together with the lateral axis, reflects the velocity; adding the field of a straight wake at mirrored axial positions gives the field of an infinite tube.',
 ['inputs'], 'all points, azimuths, skews, elements',
 'Tests evaluate one azimuth per function.',
 [VC, SV, VR, VL, VD], [('polar/Cartesian conversions', VC+', '+SV+', '+VR+', '+VL+', '+VD)])

prop('C13', 'Multi-element routines equal the sum of their single elements',
 'The velocity of several wakes with several concentric tubes each, of several skewed wakes (each tube with its own skew), of several rings or of a set of vortex points equals the sum of the single-element velocities with each element at its own position, radius, strength and skew, whatever the number and order of the elements and also when some strengths are zero. '
 'A finite tube equals the difference of two semi-infinite ones, and splitting a tube or its strength into parts changes nothing.',
 ['inputs', 'configurations'], 'all numbers of wakes, tubes, rings, points, positions in 3-D, radii, strengths (zeros included), skews, orders of the elements',
 'Tests run one two-wake layout and no skewed multi-wake layout; index mix-ups between wake and tube only show with unequal tables.',
 [VC, SV, VR, VP], [('straight wakes', VC+':vcs_tang_u, vcs_longi_u'), ('skewed wakes', SV+':svcs_tang_u, svcs_longi_u'), ('rings', VR+':rings_u'), ('points', VP+':vps_u'), ('finite tube', VC+':cylinder_tang_u')])

prop('C14', 'Far-field approximations converge to the tubular wake',
 'Away from a straight tubular wake the doublet-line velocity of equivalent strength (strength times disk area per unit length) approaches the tubular wake velocity with an error of order the square of radius over distance. '
 'The far-field-accelerated wake is identical to the exact one within the cut-off distance and identical to the doublet line beyond it, for every cut-off, radius and component form, also through the turbine interface; a ring likewise tends to a point doublet.',
 ['inputs', 'configurations'], 'all points outside the wake tube, distances up to 1000 radii, cut-offs, radii, strengths, component forms',
 'Tests check one line of points for one radius.',
 [VC, VD, WT, VR], [('far-field switch', VC+':vc_tang_u_doublet'), ('doublet line', VD+':doublet_line_polar_u'), ('turbine models VCFF, VD', WT+':WindTurbine.compute_u')])

prop('C15', 'A turbine induces the wake of its own position, yaw, wind and loading',
 'For any hub position, vertical and shaft axes, yaw position and horizontal wind direction, the velocity field of a turbine is the free stream plus the Biot-Savart velocity of a tubular wake that starts on the rotor disk (centred at the hub, normal to the current shaft) and extends along the wind direction, with the strength(s) given by the loading. '
 'The optional longitudinal and root vorticity contribute their own Biot-Savart velocities, and the wake skew is the prescribed one when one is prescribed.',
 ['inputs', 'configurations'], 'all hubs, orthonormal axes pairs, yaw positions (beyond one turn included), horizontal wind directions within 75 degrees of the shaft, speeds, loadings, one or several tubes, component switches, control points off the sheet',
 'The only turbine field test has zero hub offset, one yaw error, and asserts nothing on the field.',
 [WT, VC, SV], [('frames and skew', WT+':WindTurbine.set_yaw0_coord, update_yaw_pos, yaw_wind, compute_u'), ('loading', WT+':WindTurbine.update_loading')])

prop('C16', 'Rotating and translating the whole configuration rotates the velocity field',
 'Applying one and the same rigid motion to the hub, the vertical and shaft axes, the wind and the control points rotates the returned velocities by that motion and changes nothing else, for every wake model and option that does not involve the ground. '
 'With ground effect the same holds for the motions that keep the ground plane in place.',
 ['inputs', 'configurations'], 'all rotations and translations, all four models, single and multi-tube loadings, component switches, self-induction masking, farms of several turbines',
 'Each test lives in one fixed frame, so a swapped or transposed axis that cancels there is not seen.',
 [WT, WF], [('frame transformations', WT+':transform, transform_T, RotMat_AxisAngle, WindTurbine.set_yaw0_coord'), ('farm sum', WF+':WindFarm.velocity_field')])

prop('C17', 'The velocity field depends on the current turbine state, not on its history',
 'After any sequence of position, yaw, wind, loading, skew-prescription and field-evaluation calls on a turbine, evaluating the velocity gives the same result as a newly created turbine put directly into that same final state. '
 'Evaluating the field or reading an attribute never changes later results, an already prescribed skew stays prescribed, and turbines never influence each other\'s state.',
 ['histories'], 'all operation sequences up to the generated length on one or several turbines and a farm containing them',
 'Unit tests call each method at most once in one order; cached values only go stale in longer histories.',
 [WT, WF], [('state kept between calls', WT+':WindTurbine.update_*, set_chi, compute_u')], ['return values of compute_u and velocity_field'],
 [('skew', 'skew angle cached or prescribed', WT+':WindTurbine.chi'), ('loading', 'wake strengths of the last loading', WT+':WindTurbine.gamma_t, gamma_l, Gamma_r, r, Lambda')])

prop('C18', 'Ground effect adds the mirror image of the wake; no flow crosses the ground',
 'With ground effect, the induced velocity of the (default) tangential wake vorticity is the velocity of the wake plus that of its mirror image in the horizontal plane through the origin, so the induced velocity normal to that plane is zero on it and the field is mirror-symmetric about it. '
 'A hub lying on the plane doubles the induction, and for a far away ground the effect vanishes.',
 ['inputs', 'configurations'], 'all hub heights and lateral positions, axes, yaw and wind directions, single and multi-tube loadings, models that support the situation, the ground flag given at construction or at evaluation, low-level multi-wake routines',
 'The test covers zero hub height only, where a wrong mirror offset is invisible.',
 [WT, VC, SV, WF], [('mirrored control points, single tube', WT+':WindTurbine.compute_u'), ('mirrored control points, many tubes', VC+':vcs_tang_u; '+SV+':svcs_tang_u'), ('mirrored layouts', WF+':gridLayout')])

prop('C19', 'Evaluation options select exactly what they document',
 'Requesting only the induction removes exactly the free stream; the component switches add up (all switched on is the sum of each alone); masking the own wake sets the turbine\'s own contribution to zero inside the rotor tube from 0.6 radii upstream of the rotor plane on downstream and changes nothing elsewhere. '
 'The model argument and the model and ground attributes are interchangeable, and combinations that are not implemented, or a missing loading, are refused with an exception rather than silently replaced.',
 ['inputs', 'configurations'], 'all option combinations, models, control points inside/outside the tube and around its limits, yawed and unyawed turbines, farms',
 'No test passes these options except for the plain default.',
 [WT, WF], [('options and dispatch', WT+':WindTurbine.compute_u'), ('farm forwarding', WF+':WindFarm.velocity_field')])

prop('C20', 'Wake strength from thrust follows momentum theory',
 'Without swirl (infinite or large tip-speed ratio) the tubular wake strengths computed from a thrust coefficient, uniform or varying along the span, are such that the axial induction at each radius is the momentum-theory value of the local thrust coefficient, with the high-thrust correction continuously replacing it beyond the critical thrust. '
 'The result scales with the wind speed, does not depend on the units of length and time, is monotone in the thrust, gives no wake at zero thrust and a far wake velocity deficit of twice the rotor one; stream-tube inductions and the thrust cut-off profile follow their definitions.',
 ['inputs', 'configurations'], 'all thrust coefficients from 0 to beyond one, radial distributions, numbers of tubes, radii, wind speeds, large and infinite tip-speed ratios',
 'The solver test pins two numbers of one case with swirl; the no-swirl recursion, high thrust and unit changes are not covered.',
 [SO, WT], [('loading to wake strength', SO+':WakeVorticityFromCt, WakeVorticityFromCirculation_Discr, CirculationFromPrescribedCt'), ('stream tube and cut-off', SO+':InductionsFromPrescribedCtCq_ST, Ct_const_cutoff'), ('turbine loading', WT+':WindTurbine.update_loading')])

prop('C21', 'Wake vorticity with swirl conserves circulation in every formulation',
 'For a swirling rotor the root vortex carries minus the innermost bound circulation and the trailed circulations of all tubes add up to it, so that no circulation is lost; the circulation found for a thrust coefficient reproduces that coefficient; the tangential induction is the bound circulation over four pi times rotation speed times radius squared. '
 'Continuous and discrete formulations agree in the limit of many tubes, all outputs are dimensionally consistent, and the caller\'s arrays are not modified.',
 ['inputs', 'configurations'], 'all radial circulation or thrust distributions, tip-speed ratios, radii, wind speeds, blade numbers, numbers of tubes',
 'The solver test checks single entries of one distribution to four digits.',
 [SO], [('discrete formulation', SO+':WakeVorticityFromCirculation_Discr'), ('continuous formulation', SO+':WakeVorticityFromCirculation_Cont, InductionsFromCirculation_VC_Cont'), ('circulation from thrust', SO+':CirculationFromPrescribedCt')])

prop('C22', 'A farm is the sum of its turbines, wherever its layout puts them',
 'The velocity field of a farm is the sum of the inductions of its turbines plus the free stream if one is given, independent of their order and of how the farm was assembled, and every option is forwarded to every turbine. '
 'Reading the layout returns the current hub positions, writing it moves exactly these turbines, wrong sizes and foreign objects are refused; grid layouts contain every grid position once (with the mirrored ones if asked), and the constant-thrust grid farm equals the farm of the individual turbines.',
 ['inputs', 'histories', 'configurations'], 'all farm sizes, layouts, orders of construction/append/move, free streams, grid sizes, spacings, hub heights, mirroring',
 'Tests check one 2x2 grid.',
 [WF, WT], [('farm container', WF+':WindFarm'), ('grids', WF+':gridLayout, windfarm_gridlayout_CTconst')])

prop('C23', 'Rotor-plane expansion functions agree with their integrals and with the wake',
 'For every radius inside the rotor and every non-zero skew, the closed-form expansion functions of the in-plane and axial velocity equal their defining integrals (all documented alternative forms of them that are returned included), and their zero-skew limit where it is defined. '
 'On the diameter of the rotor in the plane of skew, where they are exact, the axial and in-plane velocities reconstructed from these functions equal the Biot-Savart velocity of the skewed wake.',
 ['inputs'], 'all radii in (0,1), skews of either sign where meaningful, every number of requested outputs',
 'The article test of these functions is not reliable/collected, and no assertion compares closed form and integral.',
 [SV], [('in-plane expansion', SV+':fKxit'), ('axial expansion', SV+':fKzt')])

prop('C24', 'Yaw geometry: angles, axes and rotor disk are consistent for every orientation',
 'For any orthonormal vertical and shaft axes, the shaft after yawing is the initial shaft turned about the vertical by the yaw position; the reported wind angle and yaw error are finite angles within half a turn, of the sign convention of yawing, such that yawing by the wind angle aligns the shaft with the wind and the yaw error is yaw position minus wind angle up to full turns. '
 'Rotor disk points lie on the circle of the rotor radius around the hub, perpendicular to the shaft, without leaving a gap larger than their spacing, and the helper rotations and orthogonal vectors are orthonormal for every axis.',
 ['inputs', 'configurations'], 'all orthonormal axes pairs, yaw positions of any size, wind directions (aligned and opposed included) and speeds, hubs, numbers of disk points, arbitrary vectors',
 'Tests never check an angle; aligned winds depend on rounding in the arc cosine.',
 [WT], [('angles', WT+':WindTurbine.yaw_wind, yaw_error'), ('axes', WT+':WindTurbine.set_yaw0_coord, update_yaw_pos'), ('disk', WT+':WindTurbine.rotor_disk_points'), ('helpers', WT+':RotMat_AxisAngle, orth_vect, transform, transform_T')])

prop('C25', 'Colour maps hit their colours at their speeds and contour levels are ordered',
 'A colour map built from a sequence of colours (with or without transparency) and locations takes each colour at its location, interpolates in between, and stays within the colour range. '
 'The speed colour map shows white at unit speed and its end colours at the given limits, and contour levels are increasing and enclose the contour lines.',
 ['inputs'], 'all colour sequences of length two or more, increasing locations from 0 to 1, speed limits below and above the built-in levels',
 'There is no test of the plotting helpers.',
 [PL], [('colour map builder', PL+':make_colormap'), ('speed colour map', PL+':get_cmap'), ('levels', PL+':get_contours')])

prop('C26', 'Velocity planes of the coupling are stored, read back and drawn as they are',
 'A plane (two coordinate vectors, two velocity components) stored under a file prefix is read back unchanged, its velocities divided by the reference speed when one is given, whichever way it is passed, whatever other planes are stored and however the prefix is spelled; the stored arrays are not modified. '
 'A drawn plane shows the speed, or the axial velocity alone if asked, at exactly the points that have a velocity, with the requested colour limits, each defaulting to the extreme of the shown values. The extracted plane is the one at hub height, computed with the requested options.',
 ['inputs', 'histories'], 'all plane sizes, coordinates, velocities with missing points, reference speeds, prefixes, orders of storing and reading, limits given or not',
 'There is no test of the coupling helpers, and FLORIS is not installed: they are only ever run by hand.',
 [CE], [('storing and reading', CE+':savePlane, loadPlane'), ('drawing', CE+':plotPlane'), ('extraction', CE+':get_HH_plane_vel')])

prop('C27', 'Arguments may be positional, named or left out with the published meaning',
 'Every routine, turbine, farm and evaluation option takes its arguments in the published order and under the published names, and an argument that is left out has its published default: the element of unit negative strength and unit radius at the origin, semi-infinite, unskewed, unregularised, without ground effect, tangential vorticity only, tubular wake model, infinite tip-speed ratio, one tube, high-thrust correction on. '
 'Results do not depend on which of these ways is used, for any values of the other arguments; a call is refused in all ways or in none.',
 ['inputs', 'configurations'], 'all routines, all subsets of omitted arguments, all splits into positional and named arguments, all values of the others',
 'Tests pin few values with all but a handful of arguments left out; a changed default or argument order is only visible to callers that rely on it.',
 [VC, SV, VR, VD, SO, WT, WF], [('element routines', VC+':vc_tang_u, cylinder_tang_u; '+SV+':svc_tang_u; '+VR+':ring_u; '+VD+':doublet_line_u'), ('loading', SO+':WakeVorticityFromCirculation_Discr, InductionsFromCirculation_VC_Cont'), ('turbine and farm', WT+':WindTurbine.__init__, update_loading, compute_u; '+WF+':WindFarm.__init__, velocity_field, gridLayout')])

BH = 'wiz/article_blockage/helper_functions.py'
prop('C28', 'Blockage-study helpers show the flow and data they are set up with',
 'A study model is the wake model asked for, with the thrust, hub height, tip-speed ratio, yaw, wind speed and given or centre-matched strength it is set up with, its skew following yaw and thrust, the ground acting below nine radii; every way of sampling it (points, planes, axis, radial lines) samples this one field. '
 'Stored planes and volumes are found by their rounded thrust, height, tip-speed ratio and yaw, reproduce their samples, and interpolate cubic fields exactly; farms rebuilt from tables or lines of thrusts give each turbine its own thrust; error measures are relative, independent of units and limited to their range; drawings show the stored values with the requested limits.',
 ['inputs', 'configurations', 'histories'], 'all thrusts from 0 to 1, hub heights near and far from the ground, tip-speed ratios, yaws, models, wind speeds, strengths; all planes, volumes, names, missing points, tables of thrust, spacings, curves, limits',
 'There is no test of the study helpers: they are only ever run by hand, on one data set.',
 [BH], [('study model', BH+':setupModel, OutputVC'), ('stored data', BH+':loadPlane, OutputAD, OutputProj, interp2d_pairs'), ('farms', BH+':ADFarm2VCFarm, VCFarmFromFloris'), ('measures', BH+':relerrinduction, getModelsRelErr, gamma_CT_fun'), ('drawings', BH+':plotPlane, plotPlaneVert')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
