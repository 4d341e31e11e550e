"""Single source of properties.jsonl, MANIFEST.json and checks/index.json.
Run `python3 tools/mkprops.py` after editing."""

CF = 'posydon/utils/common_functions.py'
BE = 'posydon/binary_evol/'


def P(id, title, statement, over, text, why, files, mech, module=None,
      observe=None, note='', na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text,
                why=why, files=files, mech=mech, module=module,
                observe=observe, note=note, na=na)


PROPS = [
 P('P01', 'Stellar state classification follows its physical definition',
   "For every combination of surface/central abundances, burning luminosities, mass and compact-object flag, the inferred stellar state is exactly the documented one: composition prefix (H-rich if surface hydrogen exceeds 1%, otherwise accreted or stripped helium by comparison with the centre), burning stage from central depletion and from burning luminosities relative to the total, and for compact objects massless remnant/WD/NS/BH by mass (0, 1.46 and 2.5 solar masses; below 1.46 a white dwarf only with remaining material or below 1.1). Missing surface hydrogen gives the undetermined state, and the same rule is used for the current values of a star, for any one history entry and for an array of history entries; a white dwarf stays a white dwarf.",
   ['inputs'], 'all real-valued abundances in [0,1], log luminosities, masses, including missing values',
   'A test samples a few abundance tuples; thresholds and their ordering matter at every point of a seven-dimensional space.',
   [CF],
   [('state inference', CF + ':infer_star_state'), ('current values and history arrays', CF + ':check_state_of_star / check_state_of_star_history_array')], 'states'),
 P('P02', 'Binary state, event and mass-transfer case follow the overflow rules',
   "For every pair of stellar states, relative Roche-lobe overflows, mass-transfer rate, central Coulomb coupling and interpolation class, the inferred binary state, event and mass-transfer case are the documented ones: a star transfers mass if it overflows its lobe or is the (relatively) larger star of a pair with a non-negligible transfer rate, with the case given by the donor's stellar state; contact when both stars do, otherwise RLO1/RLO2 or detached. Unstable transfer starts a common envelope of the (relatively larger) donor, double when in contact with a companion that has an envelope; otherwise a star that is helium- or carbon-depleted or strongly Coulomb-coupled gives the core-collapse event, star 1 first, and the same rule applies to current values and to every history entry.",
   ['inputs', 'histories'], 'all overflow and rate values, all stellar states, missing values',
   'The decision depends on the joint order of several real thresholds and on all state pairs; tests fix a handful.',
   [CF], [('binary state', CF + ':get_binary_state_and_event_and_mt_case / _array'), ('MT case', CF + ':infer_mass_transfer_case')], 'states'),
 P('P03', 'Mass-transfer history summaries are faithful for every history',
   "Summarising a history of mass-transfer cases keeps the chronological order of the episodes and merges only consecutive repetitions, distinguishes the donors, drops no-overflow entries only if there was any episode, reports undetermined entries once up front, and does not modify the input. The textual label spells out exactly that summary (with the optional restriction that a star's case never goes backwards), for numeric and for named cases, and an empty history is undetermined.",
   ['histories', 'inputs'], 'all sequences of defined cases up to the stated length',
   'The number of histories grows exponentially; tests check a few strings.',
   [CF], [('cumulative cases', CF + ':cumulative_mass_transfer_flag / cumulative_mass_transfer_numeric / cumulative_mass_transfer_string')], 'states'),
 P('P04', 'Exchanging the two stars of a binary is an exact involution',
   "Exchanging the labels of the two stars swaps every current and historical property of the stars, mirrors every star-specific binary state, event and per-star binary quantity (current and history), and changes nothing else. Exchanging twice restores the binary exactly.",
   ['inputs', 'histories'], 'all labels of the state/event vocabulary, all values of all properties, every history',
   'Tests exchange one example binary; every label and every per-star quantity must be covered jointly.',
   [CF, BE + 'binarystar.py', BE + 'singlestar.py'], [('exchange', CF + ':flip_stars')], 'states'),
 P('P05', 'The flow chart routes every total state to its documented step',
   "Every combination of the two stellar states, binary state and event is routed to the documented evolution step or to none; the routing does not depend on which star is labelled first, every possible outcome of a step (detached, overflow onset, collapse, common envelope, merger, disruption, maximum time) leads to a defined step, and maximum-time or finished systems end. User changes of the chart affect only the total states they name and never the default chart; a total state without step or with an unavailable step is refused without running anything, and otherwise exactly that step is run, once, between the before- and after-step hooks.",
   ['inputs'], 'all 20 x 20 x 8 x 22 combinations of stellar states, binary states and events',
   'There are 70 400 total states and their mirror images; tests look up a few.',
   [BE + 'flow_chart.py', BE + 'binarystar.py', BE + 'simulationproperties.py'],
   [('default chart and changes', BE + 'flow_chart.py:flow_chart'), ('dispatch', BE + 'binarystar.py:BinaryStar.get_next_step_name / run_step')], 'flow'),
 P('P06', 'Evolution terminates and its recorded history is complete and aligned',
   "Whatever the steps do, evolving a binary runs them until its event is the end, the time limit or a failure is reached or the step limit is exceeded, leaves no alarm pending, runs the evolution and step hooks in order, and appends to every property of binary and stars exactly one history entry per executed (non-redirect) step equal to the values at that time, also when a step raises. Restoring to any earlier entry restores all values and truncates all histories and hook columns alike so that evolution can continue; binaries born after the end of the simulation are refused, a new binary is Kepler-consistent and owns its stars, and ending a binary changes only its event and the re-inferred stellar states.",
   ['histories', 'fault_sequences', 'inputs'], 'all sequences of step outcomes up to 4 steps, failures at any step, every restore index',
   'Tests run one canned evolution; alignment must hold for every sequence of outcomes including failures and restores.',
   [BE + 'binarystar.py', BE + 'singlestar.py', BE + 'simulationproperties.py', BE + 'step_end.py'],
   [('loop', BE + 'binarystar.py:BinaryStar.evolve / run_step / append_state / restore'), ('hooks', BE + 'simulationproperties.py:StepNamesHooks / TimingHooks'), ('existence', BE + 'binarystar.py:BinaryStar.check_who_exists')], 'flow'),
 P('P07', 'Orbital mechanics relations hold for all masses and orbits',
   "For all positive masses and orbits: separation and period satisfy Kepler's third law in both directions, the Roche-lobe radius is Eggleton's formula (undefined for unphysical arguments, scalars and arrays alike) and overflow is detected exactly when a radius exceeds its lobe by more than the tolerance. Isotropic wind loss conserves separation times total mass, stable mass transfer changes the period by its analytical formula, the gravitational-wave inspiral time is that of Peters (circular and eccentric, unphysical arguments refused), and the linear interpolation helper returns the point on the segment through the bracketing nodes.",
   ['inputs'], 'all masses in [0.01,500] solar masses and orbits in the stated ranges',
   'Numerical relations over continuous domains; tests compare single values.',
   [CF], [('Kepler', CF + ':orbital_separation_from_period / orbital_period_from_separation'), ('Roche lobe', CF + ':roche_lobe_radius / check_for_RLO'), ('mass loss and transfer', CF + ':separation_evol_wind_loss / period_evol_wind_loss / period_change_stable_MT'), ('inspiral', CF + ':inspiral_timescale_from_separation / inspiral_timescale_from_orbital_period'), ('interpolation', CF + ':linear_interpolation_between_two_cells')], 'orbits'),
 P('P08', 'Compact-object accretion follows its limits for every accretor',
   "For every accretor mass and type the compact-object radius (Schwarzschild radius, 12.5 km, white-dwarf mass-radius relation), the Eddington-limited accretion rate and efficiency (current values or any history entry, either star the accretor), and the beaming factor with super-Eddington accretion follow their formulae, and non-compact accretors or unphysical masses are refused. A black hole's spin after accretion follows Bardeen (undefined for mass loss, maximal beyond the limiting mass), and the helium main-sequence lifetime follows its published fit.",
   ['inputs'], 'all accretor masses, compositions, rates and spins in the stated ranges',
   'Piecewise formulae in several real variables with thresholds.',
   [CF], [('radius', CF + ':CO_radius'), ('Eddington limit', CF + ':eddington_limit'), ('beaming', CF + ':beaming'), ('spin', CF + ':spin_stable_mass_transfer'), ('He lifetime', CF + ':He_MS_lifetime')], 'orbits'),
 P('P09', 'Remnant type and mass follow the chosen supernova prescription',
   "For every CO-core, He-core and stellar mass and every option, the supernova type is the documented one (white dwarf, electron capture, core collapse, pulsational or full pair instability by the core-mass limits of the chosen electron-capture and pair-instability prescriptions) and the baryonic remnant mass and fallback fraction are those of the chosen mechanism: Fryer+12 rapid/delayed, direct collapse of the star or of the helium core, the explodability criteria of Patton & Sukhbold and Maltsev, or the tabulated engines. A remnant never exceeds the mass that collapses nor the pair-instability limit (Marchant+19, Hendriks+23, a fixed limit or none), full pair instability leaves nothing, and only consistent pairs of supernova type and remnant are accepted.",
   ['inputs'], 'all core and stellar masses up to 300 solar masses, every mechanism/engine, electron-capture and pair-instability option',
   'Piecewise formulae with a dozen mass thresholds per option and many option combinations; the repository has no unit tests of this step.',
   [BE + 'SN/step_SN.py'], [('type', BE + 'SN/step_SN.py:StepSN.check_SN_type'), ('remnant mass', BE + 'SN/step_SN.py:StepSN.compute_m_rembar / PISN_prescription'), ('engines', BE + 'SN/step_SN.py:StepSN.explod_crit / get_M4_mu4_Patton20')], 'sn'),
 P('P10', 'Natal kicks conserve energy and momentum; unbound systems are disrupted',
   "For every pre-supernova orbit, mass loss, kick and phase, of either star, the post-supernova orbit has the energy, angular momentum, centre-of-mass velocity and spin-orbit tilt (combined with an earlier one) that follow from adding the kick to the instantaneous velocity, a surviving binary is bound and its period Kepler-consistent, and an unbound one is disrupted without orbit. The kick magnitude is the draw of the chosen prescription for the supernova and remnant type times the chosen normalisation and its direction and phase are isotropic/uniform; white-dwarf formation only widens the orbit by the mass loss, systems without companion or with a massless remnant get no orbit, and events other than core collapse are refused.",
   ['inputs'], 'all masses in [0.1,200], separations in [0.1,1e6] solar radii, eccentricities up to 0.99, kicks up to 5000 km/s, all angles and phases',
   'Six continuous inputs; a wrong sign or swapped mass shows only in parts of the space; no unit tests cover it.',
   [BE + 'SN/step_SN.py'], [('kick', BE + 'SN/step_SN.py:StepSN.orbital_kick / generate_kick / get_combined_tilt')], 'sn'),
 P('P11', 'Core collapse turns a star into a consistent compact remnant',
   "Whatever the mechanism and the source of the remnant's properties, a collapsing star becomes a remnant whose gravitational mass is the baryonic remnant mass minus the (capped) neutrino loss, neutron star or black hole by the maximum neutron-star mass, with spin from its angular momentum capped at one (or from the profile, or left open), the radius of its type, and no stale stellar structure; white dwarfs keep their core composition, pair instability leaves a massless remnant, and stars that cannot collapse, or lack the data, make the binary fail. Interpolated values are used exactly when they exist and are consistent with the star's own supernova type; afterwards the companion's transfer rates are reset, double compact objects get the inspiral time of their orbit, a carbon-depleted companion collapses next, and without kicks the orbit responds to the mass lost by the star that collapsed.",
   ['inputs', 'fault_sequences'], 'all remnant masses in [0.1,200], neutrino caps, maximum neutron-star masses, supernova types, sources and companion states',
   'The bookkeeping branches on type, mechanism family, option and data availability; no unit tests cover it.',
   [BE + 'SN/step_SN.py', BE + 'singlestar.py'], [('collapse', BE + 'SN/step_SN.py:StepSN.collapse_star / __call__'), ('massless remnant', BE + 'singlestar.py:convert_star_to_massless_remnant')], 'sn'),
 P('P12', 'Common envelopes conserve the energy budget and end in a defined state',
   "For every donor, companion, orbit, efficiency and option, a common envelope merges stars without a core-envelope boundary (and Hertzsprung-gap donors in the pessimistic option) and otherwise shrinks the orbit by exactly the binding energy of the envelope(s) divided by the efficiency; the cores then merge if and only if one overfills its lobe (an inflated companion is first given its single-star radius), optionally after the documented stable or wind mass loss of the remaining layers. Survivors are circular, Kepler-consistent detached binaries of the bare core(s) with the radii, compositions and re-inferred stellar states of those cores, an untouched companion and no stale structure, while mergers keep the masses except for the part of the envelope(s) that the released orbital energy can eject. The core, its radius and the binding parameter are those of the chosen option (default, grid value or profile) for the donor's type; other events, donors or options are refused.",
   ['inputs', 'configurations'], 'masses in [0.1,250] Msun, radii in [0.01,3000] Rsun, periods in [0.01,1e5] d, all efficiencies/lambdas in the stated ranges, every option and donor/companion type',
   'Continuous energy balance in a dozen inputs times nine option combinations; the repository has no unit tests of this step.',
   [BE + 'CE/step_CEE.py'], [('energy balance', BE + 'CE/step_CEE.py:StepCEE.CEE_simple_alpha_prescription'), ('outcomes', BE + 'CE/step_CEE.py:StepCEE.CEE_adjust_binary_upon_ejection / CEE_adjust_binary_upon_merger'), ('core and lambda', BE + 'CE/step_CEE.py:StepCEE.calculate_lambda_CE')], 'ce',
   note='Kepler, Roche-lobe and mass-transfer helpers are uninterpreted functions here (decided by P07); the integration over a profile is a stub.'),
 P('P13', 'Merger products conserve mass and mix by mass; lone stars have no orbit',
   "Whatever two stars merge, the product's mass is the sum of the masses (minus the configured loss for two main-sequence stars), its core masses are the sums of the cores that merge, its central and surface abundances are those of the dominant core or the averages weighted by the pre-merger masses of the layers that mix, and it is reclassified, rotates at the configured rate and carries no stale structure. The product takes the place of the engulfing star and its companion becomes a massless remnant, except that a neutron star or black hole survives unchanged and the star vanishes; combinations, states and events that do not describe a merger are refused. Merged, disrupted and initially single systems are evolved once, as if infinitely far apart, and end without an orbit; other systems are refused.",
   ['inputs'], 'all pairs of stellar states, masses and core masses up to 300 Msun, abundances in [0,1] including missing ones',
   'The 24 combinations of stellar types have separate formulae over twenty real inputs; the repository has no unit tests of these steps.',
   [BE + 'DT/step_merged.py', BE + 'DT/step_isolated.py', BE + 'singlestar.py'], [('merger product', BE + 'DT/step_merged.py:MergedStep.merged_star_properties / mass_weighted_avg'), ('dispatch', BE + 'DT/step_merged.py:MergedStep.__call__'), ('isolated evolution', BE + 'DT/step_isolated.py:IsolatedStep.__call__')], 'merge'),
 P('P14', 'Secular orbit and spin evolution follows its physics, for both stars alike',
   "For all masses, structures, spins and orbits of a detached binary: winds conserve separation times total mass and carry away the angular momentum of the surface, gravitational radiation follows Junker & Schaefer 1992, tides follow Hut 1981 with the convective or radiative (Hurley+02, Qin+18) damping whichever is stronger and conserve total angular momentum, and each magnetic-braking mode (Rappaport+83, Matt+15, Garraffo+18, CARB) gives its published torque, which never spins a star up, fades between 1.3 and 1.5 solar masses and is absent above. The formulae are the same for both stars, only enabled effects contribute, each at most once and undefined contributions not at all, and separation, eccentricity and spins never enter as negative values.",
   ['inputs', 'configurations'], 'all masses in [0.05,200] Msun, radii, spins, orbits, mass-loss rates and combinations of enabled effects',
   'Nonlinear formulae of a dozen real inputs with regime switches, written out twice (once per star); the repository has no unit tests of them.',
   [BE + 'DT/step_detached.py', BE + 'DT/winds/default_winds.py', BE + 'DT/tides/default_tides.py', BE + 'DT/gravitational_radiation/default_gravrad.py', BE + 'DT/magnetic_braking/prescriptions.py'],
   [('right-hand side', BE + 'DT/step_detached.py:detached_evolution.__call__ / update_props'), ('winds', BE + 'DT/winds/default_winds.py:default_sep_from_winds / default_spin_from_winds'), ('tides', BE + 'DT/tides/default_tides.py:default_tides'), ('gravitational radiation', BE + 'DT/gravitational_radiation/default_gravrad.py:default_gravrad'), ('magnetic braking', BE + 'DT/magnetic_braking/prescriptions.py')], 'detached'),
 P('P15', 'A detached step ends at its event with a consistent, aligned record',
   "Evolving a detached binary starts from its current orbit and spins and ends at the first event: overflow (radius at 95 % of the lobe at periastron) of either star starts mass transfer of that star in an orbit circularised at periastron or at constant angular momentum, the end of a star's track is its core collapse with its final values and profile, and otherwise the time limit; the event always names the right star, whichever of the two is the primary, and impossible outcomes (no time left, failed integration, unsupported overflow) are reported as such. Stored entries end exactly at that moment, are ordered and spaced as requested, obey Kepler's law, carry the structure of the matched tracks and spins consistent with the integrated rotation, leave compact objects unchanged, and extend every property of binary and stars by the same number of entries (the last one being the current value).",
   ['inputs', 'configurations', 'fault_sequences'], 'all events, roles and kinds of stars, orbits, durations and requested output steps within the stated bounds',
   'The outcome depends on which star plays which role, on the event and on options together; the repository has no unit tests of this step.',
   [BE + 'DT/step_detached.py'],
   [('step', BE + 'DT/step_detached.py:detached_step.__call__'), ('output times', BE + 'DT/step_detached.py:detached_step.get_time_after_evo'), ('record', BE + 'DT/step_detached.py:detached_step.update_after_evo / update_co_stars'), ('events', BE + 'DT/step_detached.py:detached_evolution.ev_rlo1 / ev_rlo2 / ev_max_time1'), ('integration', BE + 'DT/step_detached.py:detached_step.solve_ODEs')], 'detached'),
 P('P16', 'Grid building keeps exactly the right rows and labels every run right',
   "Building a grid from simulation tables keeps, for every table content, exactly the rows that leave ages and model numbers strictly increasing and common to the tables of the run (the last row deciding), starts them at the first overflow or mass transfer with ages counted from there, and stops them at the central helium and carbon depletion of the star reaching it first. Thinning keeps both ends and reproduces every dropped row by linear interpolation within the requested error and spacing, for all tables of a run alike. Each run is labelled by its last termination message, its sequence of mass-transfer episodes (contact, initial overflow, none, or the cases of the overflowing stars) and the resulting interpolation class, and initial-overflow boundaries keep the widest overflowing run per mass pair and use the nearest one.",
   ['inputs', 'histories'], 'all tables of up to 3 rows (5 for thinning) with any values, all labels',
   'Which rows survive depends on the joint order of all values of several tables; tests use a few fixed tables.',
   ['posydon/grids/scrubbing.py', 'posydon/grids/downsampling.py', 'posydon/grids/termination_flags.py', 'posydon/grids/psygrid.py', 'posydon/utils/gridutils.py'],
   [('scrubbing', 'posydon/grids/scrubbing.py:scrub / keep_after_RLO / keep_till_central_abundance_He_C'), ('thinning', 'posydon/grids/downsampling.py:TrackDownsampler'), ('thinning of a run', 'posydon/grids/psygrid.py:downsample_history / downsample_profile'), ('labels', 'posydon/grids/termination_flags.py')], 'grids'),
 P('P17', 'Initial conditions are drawn from the requested distributions',
   "For every mass, period, separation, mass ratio and eccentricity, the density of each initial distribution is its published shape, normalised over its limits and zero outside (Salpeter, Kroupa 1993/2001 and Chabrier mass functions, flat and power-law mass ratios, Sana+12 and power-law periods, log-uniform and log-normal separations, thermal, uniform and zero eccentricities), inconsistent limits are refused, and a draw is the inverse of the cumulative distribution (or an accepted point under the density, or a uniform point of the drawn bin) for every uniform deviate. A sampled population uses the requested scheme, limits and random generator for each quantity, secondaries stay within their mass limits, a system is single exactly when its deviate exceeds the (constant or mass-dependent) binary fraction, in which case it keeps its primary and has no orbit or companion, and systems read from a file are exactly the requested rows, repeated cyclically.",
   ['inputs', 'configurations'], 'all values and deviates, the stated limits and slopes, every scheme',
   'A test compares histograms or single values; the inverse-CDF relation must hold for every deviate and every limit.',
   ['posydon/popsyn/IMFs.py', 'posydon/popsyn/distributions.py', 'posydon/popsyn/independent_sample.py', 'posydon/popsyn/sample_from_file.py', CF],
   [('mass functions', 'posydon/popsyn/IMFs.py'), ('other distributions', 'posydon/popsyn/distributions.py'), ('sampling', 'posydon/popsyn/independent_sample.py:generate_independent_samples'), ('file', 'posydon/popsyn/sample_from_file.py:get_samples_from_file'), ('generic samplers', CF + ':inverse_sampler / histogram_sampler / rejection_sampler')], 'popsyn'),
 P('P18', 'Star-formation, population weights and cosmic rates are consistent',
   "For every redshift the cosmic star-formation rate and mean metallicity are those of the chosen model (closed form or linear interpolation of its table), the share of star formation in each metallicity bin is the difference of the metallicity distribution between its edges, the outer bins reaching out to the given metallicity limits and nothing counted beyond them, and formation times follow the requested scenario, one per binary. The weight of a simulated system is the ratio of its densities in the requested and the simulated population (binary fraction times mass function, mass ratio and period density per logarithmic interval; no companion terms for single stars) times the ratio of mean masses per simulated mass, refused when the requested kind of system was not simulated. Each event gets, at every birth time, the redshift of birth plus delay time and the comoving-rate weight of its own metallicity bin and none if later than today, rate densities are the weights in each redshift bin (by channel too) per comoving volume, and no calculation changes the default model of later ones.",
   ['inputs', 'configurations', 'histories'], 'all redshifts, rates, limits, masses, periods and weights in the stated ranges; every model, scheme and scenario',
   'Tests evaluate single values of single models; the order of limits, edges and event times decides the result.',
   ['posydon/popsyn/star_formation_history.py', 'posydon/popsyn/norm_pop.py', 'posydon/popsyn/synthetic_population.py'],
   [('star formation', 'posydon/popsyn/star_formation_history.py'), ('densities and weights', 'posydon/popsyn/norm_pop.py:get_pdf / calculate_model_weights'), ('rates', 'posydon/popsyn/synthetic_population.py:TransientPopulation.calculate_cosmic_weights / Rates')], 'cosmic'),
 P('P19', 'Double compact objects inspiral by gravitational waves until contact',
   "For all masses, separations and eccentricities, a pair of compact objects evolves only by gravitational-wave emission following Peters' equations, with constant spins, from its current orbit until the two objects touch or the maximum time is reached, whichever is first. It ends circular in contact with the contact event at the time of contact, or detached at the maximum time with the eccentricity then reached; a numerical failure marks the binary as failed, and times, separations, eccentricities and any requested intermediate point are those of the integrated orbit in physical units.",
   ['inputs', 'fault_sequences'], 'all masses, orbits, times and integration results in the stated ranges',
   'The equations are integrated in transformed variables; tests integrate a few example binaries.',
   [BE + 'DT/double_CO.py'],
   [('equations', BE + 'DT/double_CO.py:double_CO_evolution.rhs'), ('integration', BE + 'DT/double_CO.py:DoubleCO.solve_ODEs / _SBrentqDenseOutput'), ('outcome', BE + 'DT/double_CO.py:DoubleCO.__call__')], 'inspiral'),
 P('P20', 'Grid steps use a grid only inside it and take over its outcome faithfully',
   "For every pair of stars, masses, orbit and event, a step through a grid of simulations runs the grid only if the pair is of the supported kind and inside the grid's limits, with the roles of the two stars exchanged for the step and back when the labels require it; a collapsed donor goes to core collapse, a system outside in period or (for grids with compact objects or eccentricity) with eccentric orbit is redirected, one outside in mass or unsupported is marked as failed. The binary and its stars then take the final values of the interpolation or of the nearest track, column by column and star by star (compact objects keep theirs but for mass, spin-up, radius and Eddington-limited accretion), all histories staying aligned with exactly the requested rows. A step that would run past the maximum time ends exactly there, with every quantity linearly interpolated between the neighbouring rows and the later rows dropped.",
   ['inputs', 'histories', 'configurations'], 'all pairs of stars, masses, orbits, grid limits, final values and classes; tracks of 2-3 rows',
   'No unit test exercises these steps; they need the grids, which are not part of the repository.',
   [BE + 'MESA/step_mesa.py'],
   [('dispatch', BE + 'MESA/step_mesa.py:MS_MS_step / CO_HMS_RLO_step / CO_HeMS_RLO_step / CO_HeMS_step / HMS_HMS_RLO_step'), ('outcome', BE + 'MESA/step_mesa.py:MesaGridStep.update_properties_NN / initial_final_interpolation'), ('time limit', BE + 'MESA/step_mesa.py:MesaGridStep.stop_at_condition / stop_at_end')], 'mesa'),
 P('P21', 'Transient selections report the right systems, moments and properties',
   "For every population, selecting binary-black-hole mergers or long gamma-ray bursts returns exactly the qualifying systems in order with the values just before and after the right collapse of the right star, the time of the event, the metallicity and (truncated) formation channel; chirp mass, mass ratio, effective and precessing spin, burst energies, beaming and detection weights follow their definitions for every mass, spin and tilt, whichever star is heavier. Formation channels spell out every binary's events in order without redirections and with the mass-transfer class of the first grid. Processing in chunks of any size, also with chunks containing no selected system, gives the same result as all at once.",
   ['inputs', 'histories', 'configurations'], '1-3 binaries of 2-6 rows with any masses, spins, tilts, times; all chunkings',
   'Tests use one or two fixed binaries, mostly with the heavier star first and one chunk.',
   ['posydon/popsyn/transient_select_funcs.py', 'posydon/popsyn/GRB.py', 'posydon/popsyn/synthetic_population.py'],
   [('selection', 'posydon/popsyn/transient_select_funcs.py'), ('bursts', 'posydon/popsyn/GRB.py:get_GRB_properties'), ('channels and chunks', 'posydon/popsyn/synthetic_population.py:Population.calculate_formation_channels / create_transient_population')], 'transients'),
 P('P22', 'Interpolated outcomes are rescaled exactly and physically consistent',
   "Scaling data and undoing it is the identity for every method, column and class, and an interpolated system gets the prediction of the interpolator of its predicted class (nearest neighbour outside the hull, undefined for initial overflow), evaluated with and converted back by the scaling of that class or the common one, inputs in mass ratio if trained so. The outcome then satisfies every constraint whose quantities exist, whatever was interpolated before: temperature, nuclear luminosity, separation and transferred fraction follow from their independents, core masses, core radii and rates are limited by their bounds in order, abundances sum to one, the convective region lies inside the star, anything else and the input stay unchanged and missing values stay missing. Single-star tracks, final values and states between grid masses are linear (states nearest) between the closest masses with a value, starting at hydrogen burning, and one-dimensional interpolators honour any node order, the requested treatment outside, positivity, derivatives and time offset.",
   ['inputs', 'configurations'], 'grids of 2-4 masses or runs with 2 inputs/outputs and classes; all real values in stated ranges',
   'There are no unit tests of the interpolation package; regression runs need the downloaded grids.',
   ['posydon/interpolation/IF_interpolation.py', 'posydon/interpolation/constraints.py', 'posydon/interpolation/data_scaling.py', 'posydon/interpolation/interpolation.py', 'posydon/utils/interpolators.py'],
   [('scaling', 'posydon/interpolation/data_scaling.py:DataScaler'), ('per-class evaluation', 'posydon/interpolation/IF_interpolation.py:BaseIFInterpolator.evaluate_mat / Scaler / MC_Interpolator'), ('constraints', 'posydon/interpolation/constraints.py:sanitize_interpolated_quantities'), ('single-star grids', 'posydon/interpolation/interpolation.py:GRIDInterpolator'), ('one-dimensional', 'posydon/utils/interpolators.py')], 'interpolate'),
 P('P23', 'Tables written from a binary hold its history and read back unchanged',
   "A new star or binary holds every quantity it is given, its own copy of the stars, one history entry per quantity, defaults consistent with its state, and separation or period derived from the other. The history table of a binary has one row per step with exactly the selected columns of the binary and both stars, missing entries replaced by the null value and short columns padded, the oneline table holds the first and last row, scalars, kicks and failure flags, and writing changes nothing in the binary. A binary read back from its history or oneline table has the same index, histories, current and initial values and scalars, with period, separation or eccentricity derived when absent.",
   ['inputs', 'configurations'], 'binaries with 1-3 steps, every column, any value of the symbolic columns; all selections and holes listed per harness',
   'The unit tests check a few columns of one example table and never read a table back with a column missing, a kick array or index 0.',
   ['posydon/binary_evol/binarystar.py', 'posydon/binary_evol/singlestar.py', 'posydon/popsyn/io.py'],
   [('history table', 'posydon/binary_evol/binarystar.py:BinaryStar.to_df / from_df'), ('oneline table', 'posydon/binary_evol/binarystar.py:BinaryStar.to_oneline_df / from_oneline_df'), ('star table', 'posydon/binary_evol/singlestar.py:SingleStar.to_df / to_oneline_df / __init__'), ('column types', 'posydon/popsyn/io.py:clean_binary_history_df / clean_binary_oneline_df')], 'records'),
 P('P24', 'A population run evolves, saves and counts every binary exactly once',
   "However many binaries and ranks, whatever the batch size or memory, plain, MPI or job array, and whichever binary fails or warns, each requested binary is evolved once, in order, by one rank with its own random stream, a failing one is recorded as failed (and only it) and the run goes on. The combined file of each rank and the merged population hold every history and oneline row once, the flags, the metallicity and exactly the simulated masses of singles and binaries and the number of systems, with all merged temporary files removed and unmerged ones kept. A new binary starts from the sampled masses, orbit, time, kicks and metallicity, single stars without companion and orbit, and the manager's lists, selections and failed systems are those it holds.",
   ['schedules', 'fault_sequences', 'configurations', 'inputs'], '1-4 binaries on 1-3 ranks, one failing or warning at any place, 7 storage modes, any initial masses; 2-3 files with any one unreadable',
   'The evolution loop, saving and merging have no unit tests (they are excluded from coverage).',
   ['posydon/popsyn/binarypopulation.py', 'posydon/popsyn/synthetic_population.py'],
   [('run', 'posydon/popsyn/binarypopulation.py:BinaryPopulation.evolve / _safe_evolve / save / combine_saved_files'), ('manager', 'posydon/popsyn/binarypopulation.py:PopulationManager'), ('initial binary', 'posydon/popsyn/binarypopulation.py:BinaryGenerator'), ('merging ranks', 'posydon/popsyn/synthetic_population.py:PopulationRunner.merge_parallel_runs')], 'runs'),
 P('P25', 'Population files return and export exactly the selected systems',
   "Indexing the history or oneline of a population by system number, list, array, mask, slice, column or query returns exactly those rows and columns in file order, whatever the chunk size, and number of systems, indices and history lengths are those of the file. Opening a file gives its stored parameters and masses per metallicity, or computes them from the initial masses of singles and binaries for the given metallicity and stores them, and refuses a file without either. Exporting a selection renumbers the systems consecutively in the order given, after those already in the file when appending, keeps all their rows, formation channels, lengths and metallicity, adds up masses and systems per metallicity and leaves the source and existing rows unchanged; an existing file is only replaced or extended on request.",
   ['inputs', 'configurations'], 'files of 2-4 systems with 1-3 rows; chunks of 1-4 rows; all selections listed per harness; any values of the numeric columns',
   'The unit tests read one small file in one chunk with ordered selections.',
   ['posydon/popsyn/synthetic_population.py'],
   [('tables', 'posydon/popsyn/synthetic_population.py:History / Oneline / DFInterface'), ('opening', 'posydon/popsyn/synthetic_population.py:Population.__init__ / PopulationIO'), ('export', 'posydon/popsyn/synthetic_population.py:Population.export_selection')], 'popfile'),
]
