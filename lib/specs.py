"""What each property's check runs."""
import clirun, clisan

SIM3 = [('ball2d', 1), ('rb2d', 2), ('rb3d', 3)]


def per_sim(src, n, nt=None, sims=(1, 2, 3), **kw):
    """one driver per simulator; n: dict sim number -> cases or int"""
    out = []
    for s, k in SIM3:
        if k in sims:
            d = {'name': '%s_%s' % (src[:-4], s), 'sim': s, 'src': src, 'defs': ['-DVSIM=%d' % k], 'n': n[k] if isinstance(n, dict) else n}
            if nt:
                d['nt'] = nt[k] if isinstance(nt, dict) else nt
            d.update({x: y for x, y in kw.items() if x != 'xdefs'})
            d['defs'] = d['defs'] + kw.get('xdefs', [])
            out.append(d)
    return out


SPECS = {
    'C01': {
        'drivers': per_sim('ckpt.cpp', {1: 1600, 2: 1600, 3: 1000}),
        'rule': 'random scenes (three simulators; every integrator, impact operator, impact/friction map, warm start cache, portals, Lees-Edwards, planes, drums, cylinders, fixed bodies, all geometry kinds), snapshot at a random step, restored copy stepped in lock step; non-trivial = the compared steps had active contacts; distinct by hash of the final configuration',
        'min': {'cases_with_contacts': 300, 'lees_edwards': 20, 'snapshot_with_warm_start_cache': 20},
    },
    'C02': {
        'clis': [('ball2d', 'rel'), ('rb2d', 'rel'), ('rb3d', 'rel')],
        'aux': [('ref', 'ball2d', 1, 'cliref.cpp'), ('ref', 'rb2d', 2, 'cliref.cpp'), ('ref', 'rb3d', 3, 'cliref.cpp')],
        'py': clirun.monitor,
        'rule': 'random scenes, time steps, output rates and end times given to the command-line programs; the set, names and contents of the snapshots judged against the in-process trajectory, and every run resumed from random snapshots, repeated elsewhere, killed and resumed, or made to fail to write; distinct by final state and schedule',
        'min': {'runs': 1200, 'snapshots': 12000, 'resumes': 3000, 'files_compared': 20000, 'moving': 1000, 'kills_while_running': 20, 'single_snapshots': 20, 'unwritable': 20, 'requests_rejected': 300},
    },
    'C03': {
        'drivers': per_sim('determ.cpp', {1: 7000, 2: 7000, 3: 3500}, {1: 120000, 2: 120000, 3: 60000}),
        'rule': 'random scenes and settings as in C01, each run four times: plainly; with different contents of fresh, freed and stack memory before every step; interleaved with another random simulation, queried at random between the steps, with disturbed memory; and as the first thing a process forked off beforehand does; positions and velocities compared bit for bit after every step, and the final snapshots; distinct by final configuration, non-trivial = contacts were active',
        'min': {'trajectories': 40000, 'cases_with_contacts': 4000, 'queries': 200000, 'queries_contacts': 50000, 'queries_statistics': 3000, 'lees_edwards': 500, 'warm': 1500},
    },
    'C04': {
        'clis': [('ball2d', 'san'), ('rb2d', 'san'), ('rb3d', 'san')],
        'py': clisan.monitor,
        'drivers': per_sim('stress.cpp', {1: 400, 2: 800, 3: 400}, {1: 20000, 2: 40000, 3: 20000}, variant='san', crash_only=True, stall=90)
        + per_sim('text.cpp', 300, 20000, variant='san', utils=True)
        + per_sim('geometry.cpp', {1: 300, 2: 400, 3: 200}, {1: 10000, 2: 15000, 3: 8000}, variant='san', crash_only=True)
        + per_sim('edit.cpp', 500, 20000, variant='san', crash_only=True, xdefs=['-DVF_NO_DMV'])
        + per_sim('mass.cpp', 300, 10000, variant='san', crash_only=True)
        + per_sim('warm.cpp', 150, 6000, variant='san', crash_only=True, xdefs=['-DVF_NO_DMV'])
        + [{'name': 'rational_san', 'src': 'rational.cpp', 'bare': ['base'], 'n': 40, 'nt': 2000, 'variant': 'san', 'crash_only': True},
           {'name': 'utils_san', 'src': 'utils.cpp', 'bare': ['base'], 'n': 40, 'nt': 2000, 'variant': 'san', 'crash_only': True}],
        'rule': 'ASan, UBSan, checked containers and internal checks on: random simulations including no bodies, one body, resting, slow, fast, squeezed, far away, crowded, periodic and exactly touching ones stepped and queried under every integrator, operator and solver; valid, damaged and arbitrary scene text each parsed in a process of its own; the workloads of C08, C17, C18, C20, C21 and C22 (only crashes and reports count); the command-line programs with the scenes of the repository, damaged scenes, mistyped options and files that are not snapshots; distinct by final configuration, text or output',
        'assumptions': ['internal checks that compare rounding errors with a fixed tolerance are passed over', 'uninitialised reads are seen only when they change a run (C03) or break a check'],
        'min': {'steps': 3000, 'texts': 8000, 'texts_accepted': 700, 'cli_runs': 400, 'cli_succeeded': 60, 'no_bodies': 15, 'round_trips': 400, 'edits': 8000},
    },
    'C05': {
        'drivers': per_sim('scene.cpp', {1: 24000, 2: 24000, 3: 24000}, {1: 600000, 2: 600000, 3: 600000}, utils=True),
        'rule': 'random valid scene files (every element and attribute the parsers know except meshes, any order and layout, distinctive values in many notations) loaded and compared field by field with the generator\'s tree; distinct by file text',
        'min': {'scenes': 30000, 'numbers': 2000000, 'operators_compared': 6000, 'solvers_compared': 10000, 'orientations': 10000, 'sheared_portals': 5000},
    },
    'C06': {
        'drivers': per_sim('badscene.cpp', {1: 3000, 2: 3000, 3: 3000}, {1: 60000, 2: 60000, 3: 60000}, utils=True, stall=60),
        'rule': 'single faults (missing or renamed attribute or element, value of the wrong form, sign, range, count or name, index out of range, contradictory solvers and portals, truncation at any byte, damaged markup, no scene at all) in random valid scene files, each loaded in a process of its own; distinct by file text',
        'min': {'faults': 60000, 'text_faults': 5000, 'valid_files': 400, 'rejected': 50000},
    },
    'C07': {
        'drivers': per_sim('contacts.cpp', {1: 16000, 2: 16000, 3: 8000}, {1: 400000, 2: 400000, 3: 200000}),
        'rule': 'random configurations: clusters of 1-90 (thorough 250) bodies with size ratios up to 40 (3D 12), at and far from the origin, moving by up to several radii; periodic and sheared domains crowded at the boundary; exactly touching chains. The detected contacts are compared pair by pair with brute-force geometry; distinct by configuration hash, non-trivial = at least one pair in contact',
        'min': {'pairs_in_contact': 20000, 'pairs_judged': 200000, 'exact_touching_pairs': 2000, 'type_teleported_circle_circle': 200, 'type_kinematic_kick_circle_circle': 200},
    },
    'C08': {
        'drivers': per_sim('geometry.cpp', {1: 12000, 2: 16000, 3: 9000}, {1: 300000, 2: 400000, 3: 200000}),
        'rule': 'contacts of random configurations (clusters of 1-90 bodies, size ratios to 40, deep and grazing overlaps, every geometry pairing, planes, drums, cylinders, periodic and sheared domains, exactly touching chains); each normal, point, depth, gap and overlap volume compared with brute-force geometry; distinct by configuration hash, non-trivial = at least one contact judged',
        'min': {'normals_judged': 100000, 'depths_judged': 50000, 'gaps_judged': 20000, 'volumes_judged': 5000, 'box_box': 5000, 'mesh_mesh': 1000, 'circle_box_outside': 3000},
    },
    'C09': {
        'drivers': per_sim('momentum.cpp', {1: 12000, 2: 12000, 3: 8000}, {1: 200000, 2: 200000, 3: 100000}),
        'rule': 'trajectories of random scenes (1-12 bodies, loose, packed and overlapping, all geometry pairings, planes, drums, cylinders, scripted bodies, periodic and sheared domains, gravity) under every integrator, impact operator and friction solver; linear momentum of every connected group of contacts, angular momentum, per-body impulse balance and the reported totals judged at every step; distinct by velocity after the step, non-trivial = an impulse acted',
        'min': {'components_with_impulse': 10000, 'angular_judged': 10000, 'totals_judged': 50000, 'whole_steps': 5000},
    },
    'C10': {
        'drivers': per_sim('impact.cpp', {1: 12000, 2: 12000, 3: 8000}, {1: 120000, 2: 120000, 3: 60000}),
        'rule': 'trajectories as in C09, with moving walls and (through the scripting callback) contact-dependent coefficients; every solve recorded by a proxy around the operator or solver and judged contact by contact; distinct by velocity after the step, non-trivial = an impulse acted',
        'min': {'law_judged': 20000, 'feasibility_judged': 15000, 'isolated_impacts': 8000, 'pressed': 10000, 'released': 8000, 'rebounds_from_positions': 10000},
    },
    'C11': {
        'drivers': per_sim('energy.cpp', {1: 10000, 2: 10000, 3: 6000}, {1: 120000, 2: 120000, 3: 60000}),
        'rule': 'trajectories as in C09 with mostly resting walls; kinetic energy of every connected group of contacts compared before and after the response; distinct by velocity after the step, non-trivial = an impulse acted',
        'min': {'groups_judged': 20000, 'elastic_groups': 4000, 'isolated_losses': 8000, 'groups_with_friction': 5000},
    },
    'C12': {
        'drivers': per_sim('coulomb.cpp', {1: 10000, 2: 10000, 3: 6000}, {1: 120000, 2: 120000, 3: 60000}),
        'rule': 'trajectories as in C09 under every friction solver and coupling, with moving walls and (through the scripting callback) contact-dependent coefficients; every converged solve judged contact by contact; distinct by velocity after the step, non-trivial = an impulse acted',
        'min': {'solves_judged': 10000, 'sliding': 5000, 'sticking': 5000, 'directions': 5000},
    },
    'C23': {
        'drivers': per_sim('steps.cpp', {1: 8000, 2: 8000, 3: 5000}, {1: 100000, 2: 100000, 3: 60000}),
        'rule': 'trajectories as in C09 under every contact map, two fifths of them packed; every step compared with the scheme of its map from the recorded solve (contacts handed over, velocities, positions) and, under symplectic_euler, judged on what is left of the overlap; distinct by velocity after the step, non-trivial = a response was called',
        'min': {'ends_judged': 15000, 'active_sets': 8000, 'overlapping_contacts': 600, 'touching_contacts': 4000},
    },
    'C13': {
        'drivers': per_sim('views.cpp', {1: 8000, 2: 8000, 3: 5000}, {1: 250000, 2: 250000, 3: 120000}),
        'rule': 'contacts of random configurations (as C08) with random velocities, moving and rotating planes and cylinders, scripted bodies, sheared periodic boundaries; each view of each contact compared with rigid-body kinematics at the reported contact point; distinct by hash of configuration and velocity, non-trivial = at least one contact',
        'min': {'velocities_judged': 100000, 'dense_jacobians': 100000, 'sparse_jacobians': 50000, 'tangent_samples': 50000, 'friction_disks': 20000},
    },
    'C14': {
        'drivers': per_sim('integrate.cpp', {1: 60000, 2: 60000, 3: 30000}, {1: 100000, 2: 100000, 3: 60000}),
        'rule': 'random scenes (1-10 bodies, all geometry kinds, fixed bodies) with 0-3 forces stepped 1-40 (thorough 400) times by every integrator, each step compared with the integrator\'s definition and the ballistic trajectory with its closed form; free rotation of random inertias at steps h, h/2, h/4 compared with a fine Runge-Kutta solution of Euler\'s equations; distinct by final configuration',
        'min': {'steps_judged': 500000, 'ballistic': 20000, 'orders': 2000, 'orders_measured': 300, 'angular_momenta': 50000},
    },
    'C15': {
        'drivers': per_sim('fixed.cpp', {2: 30000, 3: 20000}, {2: 400000, 3: 200000}, sims=(2, 3)),
        'rule': 'random scenes with fixed bodies (also overlapping one another and the walls, with scripted changes of their velocity) under every integrator, operator and solver: prescribed motion judged bit for bit at every step; the same scene with other masses for the fixed bodies; single collisions against an enormously heavy body of the same velocity; distinct by final configuration',
        'min': {'fixed_steps': 20000, 'contacts_with_fixed': 4000, 'mass_comparisons': 2000, 'heavy_comparisons': 1000, 'prescribed_changes': 1000},
    },
    'C16': {
        'drivers': per_sim('portals.cpp', {1: 80000, 2: 80000, 3: 50000}, {1: 500000, 2: 500000, 3: 300000}),
        'rule': 'periodic and sheared domains: free flight through many cells compared with the unwrapped trajectory, random scenes with contacts compared with the same scene placed elsewhere in the domain, and the portal maps of points for portals of any direction, width, shear and time; distinct by final configuration',
        'min': {'flights_judged': 200000, 'flights_beyond_cell': 20000, 'shifts_judged': 20000, 'shifts_with_teleported': 2000, 'points_mapped': 10000, 'centres_judged': 200000},
    },
    'C17': {
        'drivers': per_sim('warm.cpp', {1: 8000, 2: 8000, 3: 5000}, {1: 150000, 2: 150000, 3: 80000}),
        'rule': 'random scenes with contacts that come, go and change partners, stepped by every map, operator and solver with each warm starting mode: the initial guess of every solve compared with a shadow of the previous step, every step repeated without warm starting, single steps from arbitrary remembered impulses, and the cache driven directly; distinct by final state',
        'min': {'recalls': 20000, 'recalls_found': 5000, 'recalls_new_contact': 1000, 'steps_compared_primed': 3000, 'poisoned_compared': 2000, 'poisoned_ones': 300, 'lookups_found': 5000},
    },
    'C18': {
        'drivers': per_sim('mass.cpp', {1: 12000, 2: 24000, 3: 24000}, {1: 150000, 2: 300000, 3: 300000}),
        'rule': 'random shapes of every kind, size, density and pose, and random closed meshes (tetrahedra, star-shaped bodies, tori, bodies with a cavity, affinely deformed, far from the origin) compared with the moments of the solid; mass matrices and scene bounds of random scenes at every stage of a run; runs with an exit boundary just inside or outside the bodies; distinct by shape or configuration',
        'min': {'meshes_judged': 4000, 'shapes_judged': 10000, 'boxes_judged': 40000, 'mass_matrices': 40000, 'scenes_bounded': 15000, 'boundaries_judged': 500, 'boundaries_left': 100},
    },
    'C19': {
        'drivers': per_sim('forces.cpp', {1: 40000, 2: 40000, 3: 20000}, {1: 200000, 2: 200000, 3: 100000}),
        'rule': 'random scenes (1-14 bodies, all geometry kinds, deep overlaps) with 0-4 forces of random kind, stiffness, exponent and direction, also along trajectories; force, potential, their finite-difference relation, net force and torque, kinetic and total energy and momenta judged at the current and at perturbed configurations; distinct by configuration hash, non-trivial = at least two bodies',
        'min': {'forces': 50000, 'gradients': 20000, 'potentials': 10000, 'energies': 10000, 'penalty_forces': 3000},
    },
    'C20': {
        'drivers': per_sim('edit.cpp', {1: 20000, 2: 20000, 3: 10000}, {1: 300000, 2: 300000, 3: 150000}),
        'rule': 'random histories of 3-25 edits, copies and steps on random scenes, mirrored in plain lists and compared after every operation; the edited simulation stepped against one created with the same contents; distinct by configuration after a step',
        'min': {'edits': 200000, 'wall_edits': 5000, 'removals': 10000, 'emptied': 500, 'geometry_removals': 1000, 'copies_judged': 30000, 'plane_deletions': 2000, 'steps_with_contacts_compared': 10000},
    },
    'C21': {
        'drivers': [{'name': 'rational', 'src': 'rational.cpp', 'bare': ['base'], 'n': 1500, 'nt': 60000}],
        'rule': 'random numerators/denominators (biased to small widths, common factors, signs) and generated valid and damaged strings; every result compared with exact 128-bit arithmetic; distinct by operand tuple / string',
        'min': {'values_compared': 100000, 'malformed_strings': 5000},
    },
    'C22': {
        'drivers': [{'name': 'utils', 'src': 'utils.cpp', 'bare': ['base'], 'n': 600, 'nt': 30000}, {'name': 'utils_san', 'src': 'utils.cpp', 'n': 60, 'nt': 2000, 'variant': 'san', 'bare': ['base']}],
        'rule': 'random strings over adversarial alphabets, number texts, lists, byte streams of mixed values, sparse and dense matrices; each compared with a reference implementation or read back; the second driver runs the same under AddressSanitizer and UBSan; distinct by input string / stream bytes',
        'min': {'strings_compared': 100000, 'values_roundtripped': 50000},
    },
}
