"""Source of properties.jsonl: python3 tools/props.py rewrites it."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))


W = 'wake_t/'
p('C01', 'Particle pushers integrate the Lorentz force of every bunch',
  'Advancing any bunch (any species charge and mass, any positions and momenta) by any time step through any electromagnetic field moves every particle as the documented scheme for the relativistic Lorentz force prescribes: the classical fourth-order Runge-Kutta step or the Boris leap-frog step, in the co-moving (speed-of-light) coordinate. Consequently steps converge at the order of the scheme, a pure magnetic field never changes the energy under Boris, free particles move in straight lines, and only the distance travelled and the phase space of that bunch change. Particles that have not yet reached the bunch injection position drift freely, and feel the field once they have.',
  ['inputs'], 'all species, phase-space coordinates, time steps, injection positions and field maps',
  'The tests track a few fixed beams and compare an averaged quantity with loose tolerances; no test varies species, fields with all six components, or step size.',
  [W+'particles/push/boris_pusher.py', W+'particles/push/runge_kutta_4.py', W+'particles/particle_bunch.py'],
  [('boris / rk4 pushers', W+'particles/push'), ('ParticleBunch.evolve', W+'particles/particle_bunch.py')],
  ['ParticleBunch phase space after evolve() or FieldElement.track()'])
p('C02', 'Bunches, fields and outputs are advanced on the documented schedule',
  'For any stage length, any number of bunches with constant or adaptive time steps, any number of numerical fields with their own update periods and any number of outputs, every bunch is advanced from the start to exactly the end of the stage in contiguous non-overlapping steps no longer than its own time step, and every field is updated at the start and then once per period in time order together with the bunches as they are at that time. Exactly n_out+1 equally spaced snapshots are returned per bunch, each at its exact output time when pushing before outputs is requested and otherwise at the last completed push. Fields that ask for even updates get a period that divides the stage and is never larger than the requested one.',
  ['schedules', 'configurations'], 'all combinations of step sizes, adaptive steps, update periods, output counts and stage lengths, including coincident and almost coincident event times, and elements tracked repeatedly',
  'Tests use a handful of step/period/output combinations; interleavings are combinatorial.',
  [W+'tracking/tracker.py', W+'beamline_elements/field_element.py', W+'fields/numerical_field.py'],
  [('Tracker.do_tracking event loop', W+'tracking/tracker.py'), ('NumericalField.adjust_dt/update', W+'fields/numerical_field.py')],
  ['field update calls, force evaluations, returned snapshots'])
p('C03', 'Outputs, diagnostics and progress reports never change the physics',
  'In elements with fields, requesting more or fewer outputs (without pushing bunches to the output times), writing openPMD diagnostics, or showing the progress bar gives exactly the same final bunches, fields and laser as a run without them; in transfer-map elements diagnostics and printing change nothing and the number of outputs nothing beyond the order of the map. Returned snapshots are independent copies: later tracking or editing of the live bunch does not change them, and editing them does not change the live bunch.',
  ['configurations', 'histories'], 'all observer settings for any stage, element type and bunch',
  'No test compares a run with and without observers.',
  [W+'tracking/tracker.py', W+'diagnostics/openpmd_diag.py', W+'particles/particle_bunch.py', W+'beamline_elements/tm_elements.py'],
  [('generate_diagnostics copies bunches', W+'tracking/tracker.py'), ('ParticleBunch.copy', W+'particles/particle_bunch.py')],
  ['final bunch arrays with and without observers'])
p('C04', 'Particles act on each other only through the simulated fields',
  'In external or analytical fields (and in transfer maps with a given reference energy) the final coordinates of a particle do not depend on which other particles or bunches are tracked with it, on the order of the particles or on the order of the bunches. In a self-consistent plasma stage reordering particles or bunches, or splitting a bunch or a macroparticle into several of the same total charge at the same place, changes the result only at rounding level, and zero-charge witness particles do not influence anything.',
  ['inputs', 'configurations'], 'all bunches, permutations, partitions and splits',
  'Tests track fixed bunches in a fixed order.',
  [W+'particles/particle_bunch.py', W+'particles/deposition.py', W+'tracking/tracker.py', W+'fields/gather.py'],
  [('per-particle gather and push', W+'particles/push'), ('deposition sums over particles and bunches', W+'particles/deposition.py')],
  ['final phase space of tracked bunches'])
p('C05', 'Fields of one element superpose',
  'The force on a particle in an element with several fields is the sum of the contributions that each field gives alone, whatever the kind of the fields (analytical, numerical, blowout models, plasma wakefields), their number and their order in the list. Outside the region of a gridded wakefield that field contributes exactly zero and leaves the other contributions untouched; analytical fields scale linearly with the given constants and components that were not given are zero.',
  ['configurations', 'inputs'], 'all lists of fields, particle positions and times',
  'Each test uses one field per element.',
  [W+'fields/gather.py', W+'fields/base.py', W+'fields/analytical_field.py', W+'particles/interpolation.py', W+'physics_models/plasma_wakefields'],
  [('gather_fields accumulates', W+'fields/gather.py'), ('in-place += in every gather', W+'particles/interpolation.py')],
  ['field components gathered at particles'])
p('C06', 'Beam deposition conserves charge and follows the documented shape',
  'Depositing any set of macroparticles on any r-z grid with linear or cubic shape, with or without the correction of the radial shape, adds to the grid exactly the sum of the separate contributions of each particle; every particle inside the grid adds exactly its own weight (nothing is lost or duplicated at the axis, the outer radius or the two ends) and every particle outside adds nothing. Away from the boundaries the contribution of a particle is the product of the linear or cubic B-spline weights of the neighbouring nodes (radially with the corrected weights that make a uniform density deposit uniformly), and nodes further away are untouched.',
  ['inputs', 'configurations'], 'all particle positions and weights including exact node, axis and boundary positions, and all grid shapes',
  'The one deposition test uses a single uniform distribution.',
  [W+'particles/deposition.py'],
  [('deposit_3d_distribution linear and cubic', W+'particles/deposition.py')],
  ['deposited array'])
p('C07', 'Gridded fields are interpolated to particles consistently',
  'For any r-z field map and any particle position inside the map, the gathered field is the bilinear interpolation of the four neighbouring nodes, with the radial field and azimuthal magnetic field odd and the longitudinal field even across the axis, projected on x and y with the azimuth of the particle. Hence node values are reproduced exactly, the result is rotationally symmetric, continuous and finite everywhere (including exactly on axis), zero outside the map, and added to what is already there.',
  ['inputs'], 'all field maps, grids and particle positions including axis, nodes and edges',
  'Gather is only exercised through whole simulations.',
  [W+'particles/interpolation.py', W+'fields/rz_wakefield.py'],
  [('gather_main_fields_cyl_linear', W+'particles/interpolation.py')],
  ['gathered field components'])
p('C08', 'Transfer maps agree with the exact equations of motion to their order',
  'For drifts, dipoles, quadrupoles, sextupoles and combined-function elements of any strength and sign, length, position inside the element and reference energy, the first-order map is the exact linearised motion (symplectic, unit determinant, composable over sub-lengths) and the second-order map adds exactly the quadratic terms of the curvilinear equations of motion. Particles with the reference momentum on the reference orbit stay on it, and the weight and number of particles never change.',
  ['inputs', 'configurations'], 'all element strengths, lengths, reference energies, particle coordinates and map orders',
  'A single quadrupole is compared with field tracking; dipoles, sextupoles and second-order terms are untested.',
  [W+'physics_models/beam_optics/transfer_matrices.py', W+'particles/push/transfer_matrix.py', W+'utilities/bunch_manipulation.py', W+'beamline_elements/tm_elements.py'],
  [('first_order_matrix / second_order_matrix', W+'physics_models/beam_optics/transfer_matrices.py'), ('track_with_transfer_map', W+'particles/push/transfer_matrix.py')],
  ['bunch after TM element'])
p('C09', 'Transfer-map elements report outputs and the reference orbit correctly',
  'Tracking any bunch through any sequence of transfer-map elements returns, for each element, exactly the requested outputs at equally spaced positions (plus the initial one if asked), the last of which equals the updated live bunch; without requested outputs the live bunch is still updated. The propagation distance, the accumulated bending angle and the transverse offset of the reference orbit advance as geometry dictates, the result does not depend on which bunches the same element tracked before nor (to the order of the map) on how many outputs were requested, and a given reference energy is used instead of the mean energy of the bunch.',
  ['histories', 'configurations'], 'all sequences of elements, output counts, reused elements and bunches',
  'One quadrupole with default outputs is tested.',
  [W+'beamline_elements/tm_elements.py'],
  [('TMElement.track', W+'beamline_elements/tm_elements.py')],
  ['returned bunches and live bunch'])
p('C10', 'Coherent synchrotron radiation kicks are consistent',
  'With CSR enabled the energy change of a bunch in a beamline follows the one-dimensional theory of coherent synchrotron radiation along the path travelled, including the transients at the entrance and after the exit of dipoles: it agrees with an independent calculation and, in a single dipole, with the analytical result. Each kick is proportional to the charge, is independent of the bending direction, and changes only the energy of the particles. It is applied over the whole length of each element whatever the number of outputs, depends only on the elements since the last reset (or the last element without CSR) and not on previous calculations, and is the same whether an element object is reused in the line or replaced by an identical one.',
  ['histories', 'configurations'], 'all beamlines, bunches, CSR settings, outputs and previous calculations in the process',
  'No test enables CSR.',
  [W+'physics_models/collective_effects/csr.py', W+'beamline_elements/tm_elements.py'],
  [('CSRCalculator', W+'physics_models/collective_effects/csr.py'), ('TMElement._determine_steps', W+'beamline_elements/tm_elements.py')],
  ['energy change of tracked bunches'])
p('C11', 'Laser profiles have the requested physical parameters',
  'For all parameters the Gaussian, Laguerre-Gauss and flattened Gaussian envelopes have the requested peak amplitude, waist, duration (FWHM of intensity), centre, focal position, wavelength and carrier-envelope phase, i.e. they equal the analytical paraxial expressions at any distance from focus and any grid. The total power of a pulse is the same at all distances from the focus, and the envelope of a sum of pulses is the sum of the envelopes, in any order and grouping.',
  ['inputs', 'configurations'], 'all pulse parameters, grids and sums',
  'Tests use one set of parameters per profile.',
  [W+'physics_models/laser/laser_pulse.py'],
  [('_envelope_function of each profile', W+'physics_models/laser/laser_pulse.py'), ('SummedPulse', W+'physics_models/laser/laser_pulse.py')],
  ['LaserPulse.get_envelope'])
p('C12', 'The laser envelope solver satisfies its discretised wave equation',
  'For any initial envelope, grid, time step, number of substeps, plasma susceptibility and wavelength, each step of the envelope solver solves the documented time-centred finite-difference envelope equation in cylindrical geometry with zero field beyond the box (the first step in its non-centred form), with or without the phase terms. The solver is linear in the envelope without the phase terms and homogeneous with them, and the solution converges to the analytical Gaussian diffraction.',
  ['inputs', 'configurations'], 'all envelopes, susceptibilities, grids, substeps and options',
  'Tests compare one pulse with theory at percent level.',
  [W+'physics_models/laser/envelope_solver.py', W+'physics_models/laser/envelope_solver_non_centered.py', W+'physics_models/laser/tdma.py', W+'physics_models/laser/utils.py'],
  [('evolve_envelope', W+'physics_models/laser/envelope_solver.py'), ('TDMA', W+'physics_models/laser/tdma.py')],
  ['envelope after LaserPulse.evolve'])
p('C13', 'A laser pulse keeps a consistent state through its life cycle',
  'Through any sequence of setting solver parameters, initialising, evolving with any susceptibility and reading the envelope: the envelope is initialised once and carried over (also between stages), a change of grid after initialisation is rejected without altering the pulse, a change of time step restarts the scheme instead of mixing time steps, reading never changes the state, the envelope read always has the size of the plasma grid even if the laser evolves on its own subgrid, and a step in a subgrid equals a step in that grid with interpolated susceptibility and interpolated output.',
  ['histories', 'configurations'], 'all sequences of life-cycle operations, grids and subgrids',
  'Tests initialise and evolve a pulse once.',
  [W+'physics_models/laser/laser_pulse.py', W+'fields/interpolation.py'],
  [('set_envelope_solver_params / initialize_envelope / evolve / get_envelope', W+'physics_models/laser/laser_pulse.py'), ('interpolate_rz_field', W+'fields/interpolation.py')],
  ['LaserPulse public methods'])
p('C14', 'The cold fluid model solves the 1D quasistatic fluid equations',
  'For any laser and any beams within the validity of the model, the cold fluid wakefields are those of the one-dimensional nonlinear quasistatic cold-fluid equations at each radius driven by the laser ponderomotive force and the beam density: longitudinal and transverse wakefields, charge density and susceptibility agree with an independent solution. Without drivers all fields vanish, nothing is felt ahead of the drivers, and disabling the beam wakefields removes the influence of the bunches on the force.',
  ['inputs', 'configurations'], 'all drivers, grids and densities',
  'One fixed laser case is compared with stored numbers.',
  [W+'physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py'],
  [('calculate_wakefields', W+'physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py')],
  ['gathered wakefields of a PlasmaStage/field'])
p('C15', 'Quasistatic wakefields are causal and obey their symmetries',
  'The wakefields of the quasistatic gridless model vanish without drivers for any plasma profile up to the discretisation of the plasma, at any longitudinal position depend only on drivers at or ahead of it, do not depend on how a beam is split into bunches or macroparticles or in which order they are given, and scale with the plasma density as the normalised equations dictate. The transverse and longitudinal forces derive from one potential, linear weak drivers give linear wakes that follow analytical linear theory, both plasma pushers converge to the same fields, and the beam self-field contributes to the magnetic and radial electric fields but not to the force on ultrarelativistic co-moving particles.',
  ['inputs', 'configurations'], 'all beams, lasers, plasma profiles, grids and solver options',
  'Tests compare a few configurations with stored numbers.',
  [W+'physics_models/plasma_wakefields/qs_rz_baxevanis'],
  [('calculate_wakefields', W+'physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py')],
  ['field arrays of the quasistatic wakefield'])
p('C16', 'Quasistatic wakefields equal those of an independent implementation',
  'For any plasma column (size, particles per cell, parabolic profile), laser and beams, the wakefield potential, plasma and beam magnetic field, charge density and susceptibility produced by the quasistatic model on the grid equal those of the published gridless equations (Baxevanis and Stupakov) integrated with the selected plasma pusher and deposited with the selected particle shape. Plasma particles faster than the maximum gamma are put at rest, so that the susceptibility and density stay finite.',
  ['inputs', 'configurations'], 'all drivers, plasma columns, grids, pushers, shapes and gamma limits',
  'Tests compare a few configurations with stored numbers and loose tolerances.',
  [W+'physics_models/plasma_wakefields/qs_rz_baxevanis', W+'particles/interpolation.py', W+'particles/deposition.py'],
  [('evolve_plasma_and_calculate_fields', W+'physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py'), ('psi, b_theta, pushers, deposition', W+'physics_models/plasma_wakefields/qs_rz_baxevanis')],
  ['field arrays of the quasistatic wakefield'])
p('C17', 'Plasma stages apply the plasma and laser at the current position',
  'Along a plasma stage or ramp of any length, the wakefield at each update is that of the plasma density (and parabolic profile coefficient) given by the user at that longitudinal position, driven by the bunches and the laser as they are at that time, the laser being advanced exactly by the distance between updates and by the full stage length in total unless its evolution is switched off. A profile given as a function and as an equal constant give identical results, cutting a uniform stage into consecutive stages is equivalent to the uncut stage, and tracking the same stage object again behaves as a new identical one.',
  ['configurations', 'histories'], 'all density profiles, parabolic coefficients, stage lengths, update periods, lasers and bunch sets',
  'Tests use constant density in single stages.',
  [W+'beamline_elements/plasma_stage.py', W+'fields/rz_wakefield.py', W+'physics_models/plasma_wakefields/qs_rz_baxevanis/wakefield.py'],
  [('RZWakefield._calculate_field', W+'fields/rz_wakefield.py'), ('PlasmaStage density handling', W+'beamline_elements/plasma_stage.py')],
  ['fields and laser at each update, bunch after the stage'])
p('C18', 'openPMD diagnostics hold exactly the simulated state',
  'Every openPMD file written during tracking holds the particles (position, momentum, weight, charge, mass) and the fields (with grid spacing, offsets, laser envelope and its wavelength) exactly as they are in the simulation at that output, with SI units and with the absolute time and longitudinal position accumulated over all previously tracked elements. There is exactly one file per output in increasing order, no output overwrites another, and all bunches and only the fields that support output are included.',
  ['histories', 'configurations'], 'all sequences of elements, outputs, bunches and field models',
  'Tests check that files are readable for one case.',
  [W+'diagnostics/openpmd_diag.py', W+'fields/rz_wakefield.py', W+'utilities/other.py', W+'particles/particle_bunch.py'],
  [('OpenPMDDiagnostics.write_diagnostics', W+'diagnostics/openpmd_diag.py'), ('get_openpmd_diagnostics_data', W+'particles/particle_bunch.py')],
  ['HDF5 files read back'])
p('C19', 'Saving and reading a bunch preserves it',
  'A bunch of a species the format supports, written to openPMD, Astra or CSRtrack format and read back, has (after the reference particle that the text formats put first) the same weights, transverse and longitudinal phase space (longitudinal positions relative to the mean, in the co-moving frame) and species within the precision of the format, for any bunch content. Reading keeps the propagation distance only when asked to, uses the given name, and applies the requested skipping or species selection only.',
  ['inputs'], 'all bunches, species, formats and propagation distances',
  'One Gaussian bunch is saved and read per format.',
  [W+'utilities/bunch_saving.py', W+'utilities/bunch_generation.py'],
  [('save_bunch_to_file', W+'utilities/bunch_saving.py'), ('get_from_file', W+'utilities/bunch_generation.py')],
  ['bunch read back'])
p('C20', 'Generated bunches have the requested parameters',
  'Bunch generators return bunches with exactly the requested number of macroparticles, total charge, species and name, and with the requested mean position, energy and Twiss parameters, emittance, sizes, duration and energy spread within sampling error and the documented truncation, for any parameters. A matched bunch has the matched beta function for the plasma density and focusing, longitudinal profiles are confined to the requested extent, and equal random seeds give equal bunches.',
  ['inputs'], 'all generator parameters',
  'Tests use a few parameter sets as input only.',
  [W+'utilities/bunch_generation.py'],
  [('get_gaussian_bunch_from_twiss and variants', W+'utilities/bunch_generation.py')],
  ['generated ParticleBunch'])
p('C21', 'Bunch analysis reports correct, weight-aware beam parameters',
  'For any bunch or list of bunches with positive weights the analysis reports the weighted statistical beam parameters (positions, angles, sizes, emittances, Twiss parameters, energy and energy spread, charge, propagation distance) of exactly that distribution in order, independently of particle order and of a global rescaling of the weights. Saving the parameters of tracked bunches to file and reading them returns the same values, and analysis never modifies the bunch.',
  ['inputs'], 'all bunches and lists of bunches',
  'No test checks the numbers for general weights.',
  [W+'diagnostics/bunch_analysis.py'],
  [('analyze_bunch / analyze_bunch_list', W+'diagnostics/bunch_analysis.py')],
  ['returned dictionaries and files'])
p('C22', 'ParticleBunch views, copies and resizes stay consistent',
  'Through any sequence of setting the phase space (from components or matrices in any supported form), copying, editing, evolving and changing the number of particles, the bunch always reports the matrices, charge and coordinates that correspond to its current particles, setting back a matrix it returned leaves it unchanged, a copy is equal in everything that affects later tracking and fully independent, and evolving works on the current particles only.',
  ['histories'], 'all sequences of bunch operations',
  'Bunches are created once and never modified in tests.',
  [W+'particles/particle_bunch.py'],
  [('ParticleBunch', W+'particles/particle_bunch.py')],
  ['public attributes and matrices'])
p('C23', 'Plasma ramps follow the requested density profile',
  'For any length, plateau density, decay length, reference position and density, the built-in ramp profiles are the documented functions of position, up-ramps are the mirror image of down-ramps, the density equals the plateau density at the plateau end and the reference density at the reference position, and user-given profiles are used as given. The ramp adds no other effect: a ramp whose profile equals a constant behaves as a plasma stage of that density.',
  ['inputs', 'configurations'], 'all ramp parameters and profiles',
  'One profile per type is evaluated.',
  [W+'beamline_elements/plasma_ramp.py'],
  [('PlasmaRamp profiles', W+'beamline_elements/plasma_ramp.py')],
  ['density seen by the wakefield model'])
p('C24', 'Simplified blowout models give the documented analytical fields',
  'In the simple, custom and focusing blowout models the transverse force is the linear ion-channel focusing of the local density (or of the given gradient) and the longitudinal field is the documented linear slope (or zero for focusing) at the co-moving position corrected by the slippage due to the group velocity, for any species, position, time and density profile. A matched bunch keeps its size, and the adaptive time step resolves the betatron motion of the bunch.',
  ['inputs', 'configurations'], 'all densities, profiles, offsets, velocities, particles and times',
  'One case per model is compared with stored numbers.',
  [W+'physics_models/plasma_wakefields/simple_blowout.py', W+'physics_models/plasma_wakefields/custom_blowout.py', W+'physics_models/plasma_wakefields/focusing_blowout.py', W+'beamline_elements/plasma_stage.py'],
  [('blowout models', W+'physics_models/plasma_wakefields')],
  ['gathered fields, tracked particles'])
p('C25', 'Plasma lenses and field quadrupoles focus as specified',
  'An active plasma lens or a field quadrupole of any strength, sign and length acts on any particle as the ideal azimuthal or quadrupole magnetic field of that gradient: linear in the offset, focusing or defocusing as documented, energy conserving and, for paraxial particles, equal to the thick-lens solution of that gradient. Plasma wakefields are added only if requested, and without strength the element is a drift.',
  ['inputs', 'configurations'], 'all strengths, lengths, species, energies and offsets',
  'One strength is tested.',
  [W+'beamline_elements/active_plasma_lens.py', W+'beamline_elements/field_quadrupole.py', W+'physics_models/em_fields'],
  [('LinearBThetaField / QuadrupoleField', W+'physics_models/em_fields')],
  ['bunch after the element'])
p('C26', 'Simulations are deterministic and independent of the thread count',
  'Running the same simulation twice in a process, in different processes, with a different number of threads, or after unrelated simulations gives the same result (bit-identical in the same process and thread count, and up to rounding between thread counts). Tracking to the end leaves the thread setting and the random state of the process as they were before.',
  ['schedules', 'histories', 'configurations'], 'all simulations, thread counts and preceding simulations in the process',
  'Each test runs its simulation once.',
  [W+'utilities/numba.py', W+'tracking/tracker.py', W+'particles/deposition.py', W+'physics_models/laser'],
  [('set_num_threads in Tracker', W+'tracking/tracker.py'), ('prange loops', W+'particles')],
  ['final bunches and fields'])
p('C27', 'Invalid configurations are rejected and leave the inputs untouched',
  'Unknown wakefield models, pushers, plasma pushers, particle shapes, ramp profiles or data formats, density values of the wrong type, mismatched time-step lists, bunches sharing a name in one diagnostics file, sums of laser pulses of different wavelength or polarisation, ambiguous species in a file and changed laser grids raise an error naming the problem instead of running, and the bunches given remain unmodified. Valid configurations at the edges of these conditions are accepted.',
  ['inputs', 'configurations'], 'all invalid and valid option values',
  'No test exercises rejection except one.',
  [W+'beamline_elements', W+'physics_models', W+'diagnostics/openpmd_diag.py'],
  [('ValueError checks', W+'beamline_elements/plasma_stage.py')],
  ['raised errors'])
p('C28', 'A beamline equals its elements tracked one after the other',
  'Tracking bunches through a beamline of any elements gives exactly the same final bunches, the same concatenated outputs and the same diagnostics as tracking them through each element in order; this includes empty and nested beamlines and repeated passes, and the propagation distance is the sum of the lengths.',
  ['configurations', 'histories'], 'all element sequences, outputs and diagnostics',
  'One beamline is tracked in tests.',
  [W+'beamline_elements/beamline.py', W+'beamline_elements/field_element.py', W+'beamline_elements/tm_elements.py'],
  [('Beamline.track', W+'beamline_elements/beamline.py')],
  ['final bunch and outputs'])

p('C29', 'Options left out mean their documented defaults',
  'Leaving an option of a beamline element, transfer map, wakefield model, laser pulse or bunch generator out gives exactly the same simulation as passing the default its documentation states, and passing options by position in the documented order the same as by name, for any values of the remaining options.',
  ['configurations', 'inputs'], 'all subsets of omitted options and all positional prefixes',
  'Tests always pass the same explicit options; a changed default passes them all.',
  [W+'beamline_elements', W+'physics_models', W+'utilities/bunch_generation.py', W+'particles/particle_bunch.py'],
  [('PlasmaStage', W+'beamline_elements/plasma_stage.py'), ('Quasistatic2DWakefield', W+'physics_models/plasma_wakefields/qs_rz_baxevanis/wakefield.py'), ('FieldElement', W+'beamline_elements/field_element.py')],
  ['results with omitted against explicit options'])

p('C30', 'Simulations respect the symmetries of space, time and scale',
  'Setting up the same simulation in other coordinates gives the same result in those coordinates: mirroring or turning all bunches about the axis of an axisymmetric element (plasma stage, ramp, lens) mirrors or turns the result and leaves the fields unchanged; quadrupoles, dipoles and sextupoles are symmetric about their planes; moving bunches, laser and simulation box together along the co-moving axis moves the result; the distance travelled before an element has no influence (except for reaching an injection position); multiplying all lengths and charges by a factor and dividing densities and field gradients by its square leaves the normalised motion unchanged.',
  ['inputs', 'configurations'], 'all elements, bunches, lasers, profiles and transformations',
  'Each test runs in one coordinate system.',
  [W+'beamline_elements', W+'particles', W+'physics_models', W+'tracking/tracker.py'],
  [('FieldElement.track', W+'beamline_elements/field_element.py'), ('RZWakefield', W+'fields/rz_wakefield.py'), ('TMElement.track', W+'beamline_elements/tm_elements.py')],
  ['final bunches, outputs and fields in both frames'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps(q) + '\n')
    print(len(P), 'properties')
