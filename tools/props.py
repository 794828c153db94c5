"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
CH, RE, SP, CL, XM = 'plaschem/chemistry.py', 'plaschem/reactions.py', 'plaschem/species.py', 'plaschem/classification.py', 'plaschem/xml_inputs.py'
EQ, MO, NM, MP, GM = ['pygmo_fwork/' + x for x in ('pygmol/equations.py', 'pygmol/model.py', 'pygmol/neutral_model.py', 'pygmol/model_parameters.py', 'global_model.py')]
RS, ER, GR, MM, RD = ['pygmo_fwork/' + x for x in ('results.py', 'optichem/errors.py', 'optichem/graph.py', 'optichem/morris.py', 'optichem/reduction.py')]


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe)))


p('C01', 'Disabling leaves a closed, viable chemistry or changes nothing',
  'Disabling species and reactions also disables every reaction involving a disabled species and every species left without any reaction, '
  'repeatedly until nothing more follows, and disables nothing else. '
  'If that would disable a protected species, or the last positive ion of a chemistry that has charged species, a chemistry-disable error is raised and the state of the chemistry '
  '(what is enabled, what is protected) is exactly what it was before the request. '
  'When a single positive ion remains it becomes protected, and a reset re-enables everything and removes the automatic protections while keeping the explicit ones.',
  ['inputs', 'histories'], 'every chemistry and every sequence of disable / protect / reset requests, including ones that fail',
  'The tests disable a handful of species of one or two fixed chemistries; cascades, rollback after a nested failure and repeated requests are not sampled.',
  [CH], [('disable / _disable_species / _disable_reactions recursion and backup', CH + ': disable'), ('reset', CH + ': reset')],
  ['Chemistry.disable', 'Chemistry.reset', 'get_disabled_species', 'get_disabled_reactions', 'get_protected_species'])
p('C02', 'A reaction can only exist if it conserves elements and charge',
  'A reaction can be constructed exactly if its id is a positive integer, it has one to three reactants and at least one product, and both sides hold the same total charge and the same number of atoms of every element, counting multiplicities, with the electron carrying charge -1 and no atoms and the arbitrary species M counted as an atom of its own without charge; anything else raises the documented reaction error. '
  'Reactants, products, their names, stoichiometric coefficients and the electron and M coefficients reported by an accepted reaction are those of the given sides, and do not depend on the order in which the species were given.',
  ['inputs'], 'every pair of lists of species as left and right hand sides',
  'The tests try a few correct and a few wrong reactions; conservation has to be decided for every combination of species and multiplicities.',
  [RE, SP], [('reaction construction and consistency assertions', RE + ': __init__')], ['Reaction()', 'Reaction getters'])
p('C03', 'Reaction data: unit conversion, defaults and validation of the rate parameters',
  'For every accepted reaction the pre-exponential factor in SI units is the given value times the exact factor of its unit for the number of reactants, the activation term is in eV or K as the kind of process demands, and the evaluated rate coefficient is a*T^b*exp(-c/T) for electron processes and a*(T/300)^b*exp(-c/T) for the others. '
  'Absent data have the documented defaults: B and C zero when A is given, elastic exactly when both sides have the same set of species, zero energy loss and gas heating. '
  'Values of unsupported types, a negative A, missing or unknown units or units for another number of reactants, and wrong flags raise the documented error when the reaction is constructed or updated, and a refused update changes nothing.',
  ['inputs'], 'every set of attributes and units (numbers or numeric strings, present or missing) of a reaction',
  'The tests check one value for some attributes; all unit and reactant-count combinations and missing-data cases are not covered.',
  [RE], [('attribute getters and unit conversion', RE + ': get_arrh_a, get_arrh_b, get_arrh_c, get_elastic, get_el_en_loss')], ['Reaction getters'])
p('C04', 'Species data: defaults, conversion and validation',
  'For every species the charge, mass, Lennard-Jones parameters, enthalpy, sticking and return coefficients and state reported are the given ones (numbers or numeric strings) converted to the documented units, or the documented defaults when absent: charge, enthalpy and Lennard-Jones epsilon 0, sigma 3, ground-state neutrals do not stick, ions and excited species stick with coefficient 1 and return their neutral ground state as one particle unless given otherwise, and the electron and M have no such surface data. '
  "Values of unsupported types and unknown units raise the documented error on construction or update, so do missing mandatory data and forbidden names on construction, a refused update changes nothing, and returned containers are the caller's own.",
  ['inputs'], 'every set of attributes and units of a species, as numbers or numeric strings, present or missing',
  'The tests check fixed species from fixed tables.', [SP], [('RP getters', SP + ': RP')], ['RP getters'])
p('C05', 'Stoichiometric views of the chemistry agree with its reactions',
  'The left, right and net stoichiometric matrices have one row per enabled reaction and one column per selected species, in the order of the chemistry, and each entry is the multiplicity of that species on that side (net = right minus left); the coefficients of electrons and of the arbitrary species M follow the same rule. '
  'Asking for disabled or special species or disabled reactions adds exactly those rows and columns and changes no other entry.',
  ['inputs', 'histories'], 'every chemistry, state of disabling and choice of the selection flags',
  'The tests compare one fixed matrix.', [CH], [('stoichiometric getters', CH + ': get_stoichiomatrix, get_reactions_stoich_coefs_*')], ['get_stoichiomatrix', 'get_reactions_stoich_coefs_electron', 'get_reactions_stoich_coefs_arbitrary'])
p('C06', 'Per-species and per-reaction views: selection, order, overrides and look-up',
  'Every per-species and per-reaction query returns exactly the selected (enabled or disabled, special or not, protected, electron, heavy) items, indexed by id in the order of the chemistry, with the value each individual species or reaction reports itself, unless overridden. '
  'An ad-hoc override (sticking coefficient, return coefficients, pre-exponential factor) changes exactly the targeted value in all the views until it is reset, is validated like the original value, never touches the species and reaction objects nor other chemistries or copies, and survives disabling and re-enabling. '
  'Species and reactions are found by id, name or object, absent ones raise the documented error, and a chemistry with duplicate ids or names, species without reactions, reactions of unknown species or unknown return species cannot be constructed.',
  ['inputs', 'histories'], 'every chemistry, every sequence of overrides, resets, disables and copies, and every combination of selection flags',
  'The tests sample single overrides and single flags; interactions (override, then disable, copy, reset) are histories.',
  [CH], [('masks, getters, ad-hoc attributes', CH + ': get_species*, get_reactions*, set_adhoc_*, reset_adhoc_*')], ['Chemistry getters', 'set_adhoc_species_attributes', 'set_adhoc_reactions_attributes', 'get_rp', 'get_reaction'])
p('C07', 'Return coefficients and return matrix describe the surface consistently',
  'The effective return coefficients of a species are its (possibly overridden) return coefficients restricted to the species enabled in the chemistry, and are empty for a species with zero (possibly overridden) sticking coefficient. '
  'The return matrix has the selected species as rows and columns, its entry (returned, stuck) is the effective return coefficient, all other entries are zero (undefined for special species), whatever selection of species is asked for.',
  ['inputs', 'histories'], 'every chemistry and history of overrides, resets, protections and disabling',
  'The tests check one chemistry without overrides of zero sticking or disabled return species.',
  [CH], [('get_species_ret_coefs, get_return_matrix', CH)], ['get_species_ret_coefs', 'get_return_matrix'])
p('C08', 'Saved chemistry states restore exactly; coherence and copies tell states apart',
  'Loading the saved attributes of a chemistry into a fresh instance of the same chemistry reproduces everything observable of the saved state: enabled and disabled items, explicit and automatic protections, and overrides with their exact values. '
  'The coherence check accepts a saved file exactly when the state that it describes equals the current one, and never changes the chemistry. '
  'A copy is observably equal to its original, has the same class, and from then on neither is affected by changes to the other; loading a file which does not belong to the chemistry raises the documented error.',
  ['histories', 'inputs'], 'every chemistry (with or without charged species) and every history of state changes before saving, loading and copying',
  'The tests save and load one or two states.', [CH, NM], [('dump_chemistry_attributes, load_chemistry_attributes, check_coherence, copy', CH)],
  ['dump_chemistry_attributes', 'load_chemistry_attributes', 'check_coherence', 'copy'])
p('C09', 'Every reaction is in exactly one class; sorting and alignment lose nothing',
  'Every reaction is assigned to exactly one class, the one its reactants and products define (electron-impact before heavy-particle processes, by charges, multiplicities and states of the species), irrespective of the order in which the species are listed; the classes partition the set of reactions without loss or duplication. '
  'Sorting species and reactions is a permutation following the documented order and the aligned text of a reaction contains its species with their multiplicities on the right sides, also after the species are re-sorted.',
  ['inputs'], 'every set of species and reactions',
  'The tests classify a fixed list of reactions.', [CL], [('ReactionClassifier, SpeciesClassifier sorting and alignment', CL)], ['ReactionClassifier', 'sorting functions'])
p('C10', 'Chemistry files: what is written is what is read',
  'Every chemistry (species with all their attributes and units, reactions with all their attributes and units) written to the XML chemistry format and parsed again yields equal species and reactions in the same order, including names with states, charges, commas and special characters, and missing attributes stay missing. '
  'Inputs which are ambiguous or inconsistent (duplicate ids, unknown species, unbalanced reactions) raise the documented error instead of a silently different chemistry.',
  ['inputs'], 'every chemistry expressible in the XML format',
  'The tests parse and write a few files.', [XM, SP, RE], [('XML building and parsing', XM)], ['XMLChemistryFile and parsers', 'to_xml'])
p('C11', 'Model parameters are normalised, validated and never mixed up',
  'Complete model parameters are accepted under any of their documented names, in a dictionary, as keywords or both (a keyword overrides the same key), and every parameter then reads back under each of its names as the value passed; the arguments are not modified, and the parameters cannot be set, deleted or changed afterwards through the passed or the returned containers. '
  'Missing parameters, unknown names, values which are not positive numbers (booleans, NaN and strings are not numbers), feeds which are not a dictionary of strings to positive numbers, and power and time series which are not collections of numbers or with negative powers raise the documented parameter errors. '
  'So do series shorter than two, of different lengths, starting after time 0 or ending before 1.1 of the simulated time.',
  ['inputs'], 'every dictionary of model parameters', 'The tests try each error once.', [MP], [('validation and normalisation', MP)], ['ModelParameters()'])
p('C12', 'Particle balance: every term of dn/dt is its documented function of the state',
  'For every chemistry, parameters and state vector (n_1..n_k, rho_e) the derived quantities and the particle balance terms (densities, charge-neutral electron density, temperature, pressure, rate coefficients and rates, volumetric sources, flow in and out, '
  'ion temperature, mean speeds, Debye length, mean free paths, free, ambipolar and effective diffusivities, wall fluxes, diffusive sinks and returns) equal the documented formulas, with species in the chemistry order. '
  'In particular the wall removes exactly what the sticking coefficients say and gives back exactly what the return coefficients say, flow conserves the regulated pressure towards the target, and the terms sum to dn/dt.',
  ['inputs'], 'every chemistry, set of model parameters and state vector (positive densities, positive electron density)',
  'The tests check shapes and one consistency relation; the formulas must hold for all inputs.', [EQ], [('get_* methods of the equations', EQ)], ['ElectronEnergyEquations.get_*'])
p('C13', 'Electron energy balance: power in, inelastic, elastic and wall losses',
  'For every chemistry, parameters, time and state, the absorbed power density is the linear interpolation of the power series at that time over the volume (steps at equal times handled as documented, ill-ordered times refused), each reaction contributes its rate times its energy loss (elastic electron collisions 3 (m_e/M) k (T_e - T_g) per collision), and ions and electrons reaching the walls carry the documented energies including the sheath voltage. '
  'The energy terms sum to the rate of change of the electron energy density, with powers and losses in the right sign and eV/J units.',
  ['inputs'], 'every chemistry, parameters (including stepped power), time and state vector',
  'The tests check one power series and no energy balance.', [EQ, MP], [('get_power_ext, get_el_en_losses, get_drho_dt*', EQ)], ['ElectronEnergyEquations.get_drho_dt*'])
p('C14', 'The ODE right-hand side is exactly the composition of its balance terms',
  'The function integrated by the solver returns, for every time and state vector, exactly the concatenation of dn/dt of all the heavy species and the rate of change of the electron energy density (only dn/dt for the neutral equations), each equal to the sum of the individually queryable terms. '
  'Passing precomputed intermediate quantities as optional arguments gives the same results as leaving them out, no call changes its inputs or the results of later calls, and equal inputs always give equal outputs whatever was evaluated before.',
  ['inputs', 'histories'], 'every state vector, every subset of precomputed arguments, every order of calls',
  'The tests never compare the right-hand side with its parts.', [EQ], [('ode_system_rhs and the optional arguments of all get_* methods', EQ)], ['ode_system_rhs'])
p('C15', 'The initial state is physical: pressure, neutrality and feed ratios',
  'The generated initial densities contain every heavy species, are positive, add up to pressure/(k T_gas), carry a positive total charge (room for electrons), and split the bulk among the feed gases in proportion to their feed flows (among all the neutrals when there are no feeds). '
  'The initial state vector passed to the solver holds these densities in the chemistry order followed by the electron energy density 3/2 n_e T_e of the initial electron temperature, and inconsistent initial densities or temperatures raise the documented error before anything is solved.',
  ['inputs'], 'every chemistry, set of feeds, pressure, temperature and user-supplied initial densities',
  'The tests check one chemistry.', [GM, MO, NM], [('generate_initial_n, validate_initial_n, _build_y0', GM + ', ' + MO)], ['generate_initial_n', 'validate_initial_n', 'run'])
p('C16', 'Reported results are those of the computed trajectory, or an error',
  'After a successful run the solution, rates and wall fluxes have one row per time of the trajectory with the values the equations define for that row\'s state, labelled by the right species and reactions in the chemistry order; any diagnosed quantity equals the equations evaluated row by row. '
  'A run which has not happened or failed raises the documented error instead of showing (stale) results, results handed out are copies, and the saved logs read back as the same results, parameters and initial state, and are never overwritten unless asked for.',
  ['inputs', 'histories'], 'every chemistry (also with changes between runs), every trajectory, every sequence of successful and failing runs',
  'The tests run one model; the failing and repeated runs and labels for unusual sizes are not covered.', [MO, NM, GM, RS], [('run, get_solution, get_rates, get_wall_fluxes, diagnose, log_results', MO + ', ' + GM)],
  ['GlobalModel.run', 'get_solution', 'get_rates', 'get_wall_fluxes', 'diagnose', 'log_results'])
p('C17', 'Reduction errors are the documented differences of the interpolated solutions',
  'The difference between a full and a reduced solution at a time and output is 2 (reduced - full) / (full + largest full value over the requested times), of both solutions linearly interpolated at that time; maximum and RMS errors are taken over exactly the requested outputs and times, and comparing a solution with itself gives zero. '
  'Switching to another full solution leaves no trace of the previous one, neither solution is modified, and times outside of either solution or outputs missing from them are refused.',
  ['inputs', 'histories'], 'every pair of solutions, sets of outputs and times, and every sequence of comparisons',
  'The tests use one pair of solutions.', [ER, RS], [('SolutionsDiff', ER)], ['SolutionsDiff'])
p('C18', 'Graph weights are the documented measures of coupling between species',
  'At every time, the weight of the edge from species B to species A is the documented ratio: the production and consumption of A by the processes involving B (gross for DRG and DRG1, net for DRG2 and DRGEP) over the gross (DRG), the net (DRG1, DRG2) or the larger of total production and consumption (DRGEP) of A, counting enabled reactions by their net multiplicity and, when included, losses and returns at the surface. '
  'There is an edge exactly where the weight is defined and not zero, DRG and DRGEP weights never exceed one, and rates or fluxes not matching the chemistry or each other are refused.',
  ['inputs'], 'every chemistry, table of rates and wall fluxes, list of times and method', 'The tests only instantiate the class.',
  [GR], [('graph construction for each method', GR)], ['ChemistryGraph'])
p('C19', 'Graph search: strongest paths, maximum flow and the ranking built on them',
  'The path found from a node to each other one is optimal over all paths (the shortest in total length, or the widest in its bottleneck) with existing edges and the right total, or is reported unreachable, and the maximum flow between two nodes equals the true maximum flow of the graph; no search modifies the graph. '
  'The ranking contains every species that is not important once, in ascending order of its score, the maximum over the important species and times of the coupling from it to the important species.',
  ['inputs'], 'every weighted directed graph, source and sink', 'The tests never run the searches.', [GR], [('shortest paths, max flow, ranking', GR)], ['find_shortest_paths', 'get_max_flow', 'get_ranking'])
p('C20', 'Morris analysis: trajectories, factor mapping, bookkeeping, elementary effects',
  'A trajectory changes every factor exactly once, one per step, by plus or minus one half, on the grid strictly inside of the unit interval, starting from a grid point (the closest one when derived from given values); the middle factor value maps to the nominal parameters, reaction factors scale pre-exponential factors as 2kx, species factors scale all the reactions involving the species (on either side) once, and return-coefficient factors scale as r*range^(2x-1), compensated in the self-return so that the total is conserved. '
  'Running a trajectory executes the model once per step with exactly these parameters, leaves the analysed chemistry and parameters untouched, refuses to mix with incoherent previous trajectories or overwrite saved ones, and records which factor and delta belongs to each saved run. '
  'Elementary effects are the differences of consecutive outputs divided by the delta of their step, and mean outputs, mu, sigma, their relative values and the (ascending) ranking are the documented statistics of all the trajectories.',
  ['inputs', 'histories'], 'every chemistry, seed, kind of factors, saved trajectories and times', 'The tests check single mappings and a seed; statistics and bookkeeping are not covered.',
  [MM], [('_trajectory, _map_*, run_trajectory, evaluate_trajectory, get_morris_stats, get_ranking', MM)], ['MorrisMethod'])
p('C21', 'Iterative reduction: what is tried, accepted, restored and recorded',
  'The reduction tries the removable (not protected, not important) species not tried before in ascending order of rank (of a ranking recalculated after every accepted removal when dynamic), runs the model of exactly the chemistry with all the accepted removals and this one, and accepts the removal only if it is possible, the model succeeds and the maximum error against the full model is within the limit; otherwise the chemistry returns to the last accepted state. '
  'Important species are never removed, the run stops as soon as more than the allowed number of removals in a row exceed the error or nothing removable is left, and the chemistry is reset at the end. '
  'The saved history has one row per attempt with its outcome, implicitly removed species, totals and errors against the base and the last accepted models.',
  ['histories', 'inputs', 'fault_sequences'], 'every chemistry, ranking, error limit and every sequence of successful, too inaccurate, failing and interrupted model runs',
  'There is no test of the reduction.', [RD], [('ReductionIterator', RD)], ['ReductionIterator.run_reduction', 'remove_one_species_and_run', 'reduction_history'])
p('C22', 'Analysis of saved results: interpolation, compression and process rates',
  'Values at requested times are the linear interpolation of the saved results (at saved times, the saved values) and times outside of the results are refused; a compressed solution is a subset of the original rows in order with both ends, and every dropped row is closer to the row kept before it than the time step or the relative threshold. '
  'Production and consumption rates of a species list exactly the reactions (rate times net number of particles gained or lost) and surface processes of that species, sorted and printed as documented, and the inputs are never modified.',
  ['inputs'], 'every table of results, times, thresholds, chemistry and species', 'The tests check one table.', [RS], [('get_results_frames, compress_solution, process rates', RS)], ['ResultsParser'])
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P), [(x['id'], len(x['title'])) for x in P if len(x['title']) > 80])
