HOOKS = None
FLOATS = ('Proved for all inputs, array lengths and iterations, floating point taken as exact reals, '
          'float32 as a rounding function with bounded error. Trusts the VC generator, its library '
          'models (numpy, shapely points, datetime, protobuf, scikit-learn neighbours) and z3/cvc5; '
          'the same contracts are run on the real code on every run.')

prop('C01', 'Microscope and material frames are related by one affine bijection',
     'For every field of view of positive width and height, converting a point, an array of points, '
     'an atomic grid or a beam control from the microscope frame to the material frame is the affine '
     'map taking (0,0) to the lower-left and (1,1) to the upper-right corner, and converting back is '
     'its exact inverse. Everything but the positions (atomic species, dwell time, beam voltage, beam '
     'current) is kept, arrays and grids given as input are not modified, and any other kind of value '
     'is refused with NotImplementedError.',
     ['inputs'], 'all fields of view of positive size; all points, arrays of any length, grids, controls',
     'Tests convert a few points; a swapped axis, dropped field or in-place edit shows only on '
     'asymmetric inputs of the right kind.',
     ['microscope_utils.py'],
     ['MicroscopeFieldOfView.microscope_frame_to_material_frame@putting_dune/microscope_utils.py',
      'MicroscopeFieldOfView.material_frame_to_microscope_frame@putting_dune/microscope_utils.py'],
     note=FLOATS)

prop('C02', 'Fields of view, controls and grids move and scale rigidly',
     'Shifting a field of view adds the shift to both corners; resizing or zooming one keeps its centre '
     'and gives the requested size (the old size divided by the zoom factor), and sizes or factors that '
     'are not positive are refused. Shifting a beam control or an atomic grid adds the shift to its '
     'position(s) and keeps everything else, and none of these operations modifies the object it is '
     'applied to.',
     ['inputs'], 'all fields of view of positive size, all shifts, sizes and factors, grids of any length',
     'Tests use square or origin-centred views for which axis mix-ups and off-centre scaling cancel out.',
     ['microscope_utils.py'],
     ['MicroscopeFieldOfView.shift, resize, zoom@putting_dune/microscope_utils.py',
      'AtomicGrid.shift, BeamControl.shift@putting_dune/microscope_utils.py'], note=FLOATS)

prop('C03', 'Exactly the atoms inside the bounds are seen, in order',
     'Selecting the atoms within a field of view returns, in their original order and with their '
     'species, exactly the atoms whose position lies within the bounds widened by the tolerance on every '
     'side (borders included, no tolerance unless given). Asking the simulated material for the atoms '
     'within bounds selects the same atoms and gives their positions relative to the bounds (lower left '
     '(0,0), upper right (1,1)); it is refused before the material is reset, and neither operation '
     'modifies the grid it reads.',
     ['inputs'], 'all grids of any length, all bounds of positive size, all tolerances',
     'Tests look at one or two views of one lattice; atoms on a border, non-square bounds, negative '
     'tolerances and aliasing are not reached.',
     ['microscope_utils.py', 'graphene.py'],
     ['MicroscopeFieldOfView.get_atoms_in_bounds@putting_dune/microscope_utils.py',
      'PristineSingleDopedGraphene.get_atoms_in_bounds@putting_dune/graphene.py'], note=FLOATS)

prop('C04', 'What is written to a protocol buffer is read back',
     'Writing a point, field of view, beam control, atomic grid, drift, observation, transition, '
     'trajectory or labelled trajectory to its protocol buffer and reading it back gives an equal object, '
     'up to float32 rounding: same lengths and order, same positions and species, times, corners, '
     'controls (an absent voltage or current stays absent), images and label images (each present iff '
     'it was, independently of the other), drifts and jitters. Applying a drift to an observation '
     'subtracts the jitter from the atoms, moves the field of view by the drift and keeps all else, '
     'accumulating a drift adds the drift vectors and keeps the own jitter, and none of these modifies '
     'its inputs.',
     ['inputs'], 'all objects: grids, images and sequences of any length, every combination of optional parts',
     'Tests round-trip a handful of objects; a dropped field, truncated value or coupling between '
     'optional parts shows only for particular combinations (four such defects were found and repaired).',
     ['microscope_utils.py'],
     ['to_proto / from_proto of AtomicGrid, BeamControl, MicroscopeFieldOfView, Drift, '
      'MicroscopeObservation, Transition, Trajectory, LabeledAlignmentTrajectory'
      '@putting_dune/microscope_utils.py',
      'Drift.cumulate_drift, Drift.apply_to_observation@putting_dune/microscope_utils.py'], note=FLOATS)

prop('C05', 'Exposing graphene to the beam follows the rate law and keeps the lattice',
     'Resetting the simulated graphene gives a sheet with exactly one silicon atom, the one nearest the '
     'origin, and all else carbon; until then it cannot be exposed or read. Exposing it to a beam '
     'asks the rate function about the current grid and beam position, draws each waiting time (counted '
     'in whole time up to an hour) from the exponential law of the total rate, picks the successor with '
     'probability proportional to its rate, and lets a transition happen, reported to every observer with '
     'the time since the exposure began and the resulting grid, iff it falls within the dwell time. '
     'Throughout, atoms stay where they are and there is exactly one silicon.',
     ['inputs', 'histories'],
     'all grids, rate functions, dwell times and sequences of random draws, over any number of transitions',
     'Tests run a few seeded exposures; the accounting of waiting times across transitions, and the '
     'probabilities, hold over arbitrary histories of draws.',
     ['graphene.py'],
     ['PristineSingleDopedGraphene.apply_control@putting_dune/graphene.py',
      'PristineSingleDopedGraphene.reset@putting_dune/graphene.py',
      'generate_pristine_graphene@putting_dune/graphene.py'],
     note=FLOATS + ' The lattice generator is used through an assumed contract (at least four atoms) and '
     'only run on sampled sizes.')

prop('C06', 'Rate functions offer the three nearest neighbours at the documented rates',
     'For a grid with one silicon, the single-silicon rate predictor offers exactly three successor '
     'states, in each of which the silicon has traded places with one of its three nearest neighbours and '
     'nothing else changes, each with the rate its canonical function gives that neighbour (asked once, '
     'about the same grid, beam and silicon positions); the total rate is their sum, and a negative rate '
     'or a wrong number of rates is refused. The simple canonical rate is 1/(1 + 16 d^2) for '
     'beam-neighbour distance d in bond lengths, the human prior lies between zero and the maximum rate, '
     'reached when the beam sits the prior mean distance from the silicon towards that neighbour, and a '
     'Gaussian-mixture rate function gives the rotated and scaled mixture density normalised to the '
     'maximum rate, equals another iff all parameters agree to 1e-3, and survives saving and loading. The '
     'silicon looked up in a grid is the silicon nearest the centre (0.5, 0.5), and its absence is an error.',
     ['inputs'], 'all grids, silicon positions, beam positions, canonical rate functions and mixture parameters',
     'Tests check a few beam positions on one lattice; orientation, normalisation and index errors need '
     'asymmetric neighbourhoods (one such defect was found and repaired).',
     ['graphene.py'],
     ['PristineSingleSiGrRatePredictor.__call__@putting_dune/graphene.py',
      'simple_canonical_rate_function, single_silicon_prior_rates, HumanPriorRatePredictor.predict'
      '@putting_dune/graphene.py',
      'GaussianMixtureRateFunction@putting_dune/graphene.py',
      'get_single_silicon_position@putting_dune/graphene.py'],
     note=FLOATS + ' The mixture density and its serialization are only checked on sampled inputs '
     '(bounded); its constructor, equality and sampling are proved.')

prop('C21', 'Rotations, angles and nearest neighbours are exact',
     'Rotating coordinates by an angle turns every point counter-clockwise about the origin, so that '
     'distances are kept, identically in the numpy and jax versions, without modifying the input; the '
     'angle of a vector is its direction from the first axis. The three nearest neighbours of a point are '
     'three distinct atoms other than the nearest one (the atom itself, when it is one), nearest first, '
     'with their distances, such that no other atom is nearer; asking to include the nearest returns four.',
     ['inputs'], 'all point sets of any length, all angles, all query points',
     'Tests rotate one or two points by right angles and query one lattice; sign and axis errors cancel on '
     'symmetric inputs.',
     ['geometry.py'],
     ['rotate_coordinates, jnp_rotate_coordinates, get_angles@putting_dune/geometry.py',
      'nearest_neighbors3@putting_dune/geometry.py'], note=FLOATS)

prop('C07', "The simulator's clock and observers account for everything that happens",
     'Every step applies each control to the material exactly once, in order, at its material-frame '
     'position and with its own dwell time, voltage and current, and only then takes an image, or two '
     'when the field of view had to move. The elapsed time returned is the sum of the dwell times and '
     'image durations of exactly the events the observers were told of, the controls and the grid last '
     'seen are returned as they were, an image comes only when asked for, and stepping is refused before '
     'a reset. Every observer hears of every reset, control, view change and image until it is removed, '
     'and the event observer keeps them in order with their data, starting anew at a reset.',
     ['inputs', 'histories'],
     'all control sequences of any length, all movements of the silicon, image durations and observers',
     'Tests step one or two controls; a lost duration, a dropped field of a control or a missed observer '
     'call needs particular sequences (one such defect was found and repaired).',
     ['simulator.py', 'simulator_observers.py'],
     ['PuttingDuneSimulator.step_and_image, reset, _image, add_observer, remove_observer'
      '@putting_dune/simulator.py', 'EventObserver@putting_dune/simulator_observers.py'],
     note=FLOATS + ' The material is an arbitrary one (every behaviour its interface allows); image '
     'generation is used through an assumed contract that is only run on sampled inputs.')

prop('C08', 'The field of view follows the silicon',
     'After a reset the field of view is a square of 15 to 30 angstroms centred on the silicon, and its '
     'size stays the same until the next reset. After every step the silicon is in view: the view is kept '
     'if the silicon is still in the middle half of it in both directions, and otherwise moved to be '
     'centred on the silicon with an unchanged size, which the observers are told; the grid returned is '
     'the one seen from the view returned.',
     ['inputs', 'histories'],
     'all control sequences of any length, all movements of the silicon, all fields of view',
     'Tests see the silicon leave the middle in few ways; the rule must hold for every direction, '
     'distance and number of moves within a step.',
     ['simulator.py'],
     ['PuttingDuneSimulator.step_and_image, reset, _image@putting_dune/simulator.py'],
     note=FLOATS + ' The material is an arbitrary one (every behaviour its interface allows).')

prop('C09', 'Actions become the beam controls they describe',
     'Each action adapter turns an action into exactly one beam control: at the action itself; at the '
     'last position plus the action; at the silicon plus the action in angstroms; or at the silicon plus '
     'the action, each part clipped to one, times a maximum distance in angstroms (by default one bond '
     'length), angstroms being converted by the field of view in each direction. '
     'The position is clipped to the view and the dwell time is a second and a half, or the asked-for '
     'fraction of the given range. Actions and earlier controls are not modified, a delta adapter starts '
     'within the view, and the silicon-relative adapters refuse a grid that has not exactly one silicon.',
     ['inputs', 'histories'], 'all actions, grids of any length, fields of view and ranges',
     'Tests use a few actions in square views around the centre; per-axis scale, clipping and state '
     'carried from one action to the next need asymmetric inputs and sequences.',
     ['action_adapters.py'],
     ['DirectActionAdapter, DeltaPositionActionAdapter, RelativeToSiliconActionAdapter, '
      'RelativeToSiliconMaterialFrameActionAdapter@putting_dune/action_adapters.py'], note=FLOATS)

prop('C10', 'Goals are sampled, and reached, by the documented rule',
     'A reset of the single-silicon goal draws uniformly among exactly the visible atoms whose distance '
     'from the silicon in angstroms lies strictly within the goal range, stores the material-frame '
     'position of the one drawn, and is an error if there are none. The goal is reached exactly when the '
     'silicon comes within half a bond length of that position in the material frame, whatever the field '
     'of view it is seen from; then the reward is the per-second discount raised to the elapsed time, and '
     'otherwise it is zero. A missing silicon is an error and the observation is not modified.',
     ['inputs', 'histories'], 'all grids of any length, fields of view, goal ranges, goals and elapsed times',
     'Tests place silicon and goal in a few square views; aspect ratio, strictness and frame mix-ups need '
     'particular geometry.',
     ['goals.py'],
     ['SingleSiliconGoalReaching.reset, calculate_reward_and_terminal@putting_dune/goals.py'], note=FLOATS)

prop('C12', 'Environments follow the episode protocol with time-integrated discounts',
     'A reset, or a step before the first or after the last step of an episode, begins an episode: goal, '
     'adapter and features are reset, the goal is chosen on the first observation, and the step returned '
     'is a first one with zero reward. Any other step applies the action once and returns the reward and '
     'features of the resulting observation, ending the episode iff the goal says it is terminal (discount '
     'zero) or truncated, each discount otherwise being the per-second discount raised to the elapsed time '
     'of that step; an image is taken iff the features need one. With a step limit an episode that has not '
     'ended is ended, as truncated, at exactly that many steps, and everything else is passed through '
     'unchanged.',
     ['inputs', 'histories'], 'all sequences of resets and steps of any length, goals, times and limits',
     'Tests run one or two episodes; counters and flags carried across episodes, and ends that coincide '
     'with the limit, need particular histories.',
     ['putting_dune_environment.py', 'run_helpers.py'],
     ['PuttingDuneEnvironment.reset, step, seed@putting_dune/putting_dune_environment.py',
      'StepLimitWrapper, create_putting_dune_env@putting_dune/run_helpers.py'], note=FLOATS)

prop('C13', 'Features describe the silicon, its neighbours and the way to the goal',
     'The vector feature constructors return ten float32 numbers, as their specification says: the position '
     'of the silicon, then for its three nearest neighbours, nearest first, the unit vectors towards them '
     '(microscope frame) or the vectors to them in angstroms (material frame), and then the vector from '
     'the silicon to the goal in angstroms. The image features are the image resized to 128 by 128, one '
     'channel, and that same vector to the goal. A missing silicon, a missing image or another kind of '
     'goal is an error, and the observation is not modified.',
     ['inputs'], 'all grids of any length, fields of view, goals and images',
     'Tests use square views with the silicon at the centre, where frame, order and axis mistakes cancel.',
     ['feature_constructors.py', 'geometry.py'],
     ['SingleSiliconPristineGrapheneFeatureConstuctor, SingleSiliconMaterialFrameFeatureConstructor, '
      'ImageFeatureConstructor@putting_dune/feature_constructors.py'], note=FLOATS)

prop('C15', 'Evaluation runs every seed once and reports what happened',
     'Evaluating an agent runs one episode per seed, each with its own seed and the agent in evaluation '
     'mode, taking exactly the actions of the agent until the environment ends the episode or the simulated '
     'time plus the time the agent took reaches the timeout. Each result gives its seed, the number '
     'of actions, the sum of the rewards, whether the goal was reached (the episode ended without a '
     'future) and, only then, the simulated time and the time the agent took. Aggregated results give the '
     'fraction of episodes that reached the goal and the averages over exactly those.',
     ['inputs', 'histories'],
     'episodes of any length, all environments, agents, timeouts and clocks',
     'Tests evaluate a few fixed episodes; ends at the timeout, truncation versus termination and clocks '
     'that advance irregularly are not reached.',
     ['eval_lib.py'],
     ['evaluate, aggregate_results@putting_dune/eval_lib.py'],
     note=FLOATS + ' Proved for one seed; two seeds, and aggregating up to three results, are bounded.')

prop('C14', 'The microscope agent turns observations into controls and logs what happened',
     'A step of the microscope agent computes the features, asks its agent once for an action and returns '
     'the controls of that action, the agent being told whether the goal was reached (discount zero), the '
     'episode cut off, just begun (the first step since a reset that was not a rescan), or goes on, with '
     'the reward and the discount of the elapsed time. Without a silicon in view it asks for a rescan, one '
     'control without exposure, and the agent is not told. The logger returns the same controls and, '
     'whenever it is flushed, has written every observation, step and episode so far exactly once, in '
     'order, numbered from zero, with rewards, returns and goals.',
     ['inputs', 'histories'],
     'all sequences of resets and steps of any length, with and without silicon, all goals and times',
     'Tests step once or log two short episodes; rescans, flushes in mid-episode and numbering across '
     'episodes need particular histories (four such defects were found and repaired).',
     ['microscope_agent.py'],
     ['MicroscopeAgent.reset, step; MicroscopeAgentLogger@putting_dune/microscope_agent.py'],
     note=FLOATS + ' The logger is bounded: sampled histories written to real files and read back.')

prop('C16', 'Recorded trajectories become transitions between adjacent observations',
     'Turning trajectories into transitions gives one transition for every two adjacent observations of '
     'the same trajectory, in order, and none across trajectories. Each has the grids, fields of view, '
     'images and label images of the observation before and of the one after (absent ones stay absent), '
     'and the controls of the observation before, or of the one after if controls were recorded with the '
     'observation that follows them. The observations are not modified.',
     ['inputs'], 'trajectories of any length and number, with and without images',
     'Tests convert one short trajectory; mix-ups of before and after, of the two recording conventions '
     'and of missing images need distinguishable observations.',
     ['pipeline/trajectories_to_transitions.py'],
     ['trajectories_to_transitions@putting_dune/pipeline/trajectories_to_transitions.py'],
     note=FLOATS + ' One trajectory of any length is proved; two are bounded, more are sampled.')

prop('C17', 'Augmentation turns and mirrors every rate transition consistently',
     'Augmenting a rate dataset gives, for every transition, its three turns by thirds of a full turn, '
     'and with reflection also the three turns of its mirror image along the x axis: the beam position is '
     'turned (mirrored) and the rates and the next state (zero, meaning no transition, is kept) are '
     'permuted the same way. The elapsed time and the context are those of the transition turned, an '
     'absent context stays absent, and the rows of all parts stay aligned.',
     ['inputs'], 'datasets of any length, all states, rates, positions and contexts',
     'Tests compare a few rows; rates and states permuted against the sense in which positions turn show '
     'only on asymmetric rates.',
     ['rate_learning/data_utils.py', 'geometry.py'],
     ['augment_data, rotate_dataset, get_transition_rotations, reflect_transition'
      '@putting_dune/rate_learning/data_utils.py',
      'jnp_rotate_coordinates@putting_dune/geometry.py'], note=FLOATS)

prop('C18', 'Beam and neighbours are brought to one canonical orientation',
     'Standardising a beam position and the three neighbours of a silicon turns them all by one angle '
     'about the silicon, so that the neighbour nearest to the beam comes to lie directly to the right. '
     'The order returned lists the neighbours counter-clockwise, beginning with that one, and the inputs '
     'are not modified.',
     ['inputs'], 'all beam positions and all neighbours in three different directions',
     'Tests turn a few lattices; a wrong sense of rotation or order needs neighbours that are not '
     'symmetric.',
     ['rate_learning/data_utils.py', 'geometry.py'],
     ['standardize_beam_and_neighbors@putting_dune/rate_learning/data_utils.py',
      'get_angles, rotate_coordinates@putting_dune/geometry.py'], note=FLOATS)

prop('C19', 'Splitting rate data loses, repeats and mixes up no sample',
     'Splitting a dataset puts every sample in exactly one of the training and the testing data, the '
     'testing data having the whole part of the given fraction. Bootstrapping draws as many training '
     'samples as there are, and tests on exactly the samples never drawn, each once. Every sample keeps '
     'all that belongs to it, and the data given are not modified.',
     ['inputs'], 'datasets of any length, all random keys',
     'Tests look at sizes; a sample that is lost, in both parts, or whose parts come from different rows '
     'needs identifiable samples.',
     ['rate_learning/data_utils.py'],
     ['split_dataset, bootstrap_dataset@putting_dune/rate_learning/data_utils.py'],
     note=FLOATS + ' Drawing with jax is modelled: any permutation, or any numbers in range.')

prop('C20', 'Alignment finds nearest atoms, limits drift and merges every atom once',
     'The offset of an atom leads to a nearest atom of those aligned with (only offsets below a limit, if '
     'one is given), atomic numbers come from an atom nearest to the new one (carbon otherwise), and the '
     'drift found is the mean offset within the classes, never longer than the greatest shift. Merging '
     'counts every atom once and puts it at the mean. A lattice seen again keeps its atoms and has no '
     'drift. None modify what they are given.',
     ['inputs', 'histories'],
     'clouds of any number of atoms, all limits; drift and merging bounded',
     'Tests align a few fixed lattices; atoms lost in a merge, shifts beyond the limit and arguments '
     'modified in place (two such defects were found and repaired) are not looked for.',
     ['alignment.py'],
     ['get_offsets, propagate_atomic_numbers, align_latest, naive_merge, IterativeAlignmentFiltering'
      '@putting_dune/alignment.py'],
     note=FLOATS + ' Offsets and numbers are proved for any size; drift and merging for up to two lists '
     'of two atoms, beyond that sampled; clique merging and the filter are sampled.')

prop('C25', 'The greedy agent aims at the neighbour nearest to the goal',
     'The action of the greedy agent is its aim (the given point, or the point of its grid with the '
     'greatest score, plus the fixed offset and its noise) turned about the silicon towards the neighbour '
     'nearest to the goal, whatever it saw before and in every mode. The uniformly random agent returns '
     'an action of the asked shape within its bounds.',
     ['inputs', 'histories'], 'all observations, aims, offsets and noise; grids of up to three points a side',
     'Tests use one observation; turning towards another neighbour, or the wrong way, shows only on '
     'asymmetric observations.',
     ['agents/agent_lib.py'],
     ['GreedyAgent, UniformRandomAgent@putting_dune/agents/agent_lib.py'],
     note=FLOATS + ' Searching the grid is proved for two or three points a side, larger ones sampled.')

prop('C22', 'Record files give back every record written, in order',
     'Writing objects (or their serialized strings) to a .tfrecords file and reading it with their type '
     'gives back every object once, in the order written; read without a type, the serialized strings '
     'come back as they were. Writing a file again replaces its records and leaves other files alone. '
     'Any other extension is refused with ValueError, for reading and writing, and nothing is written.',
     ['inputs'], 'any number of records',
     'Tests write two or three records to one file; lost last records, files appended to and extensions '
     'that are nearly right are not reached.',
     ['io.py'], ['read_records, write_records@putting_dune/io.py'],
     note=FLOATS + ' TensorFlow\'s record files are modelled as lists of records.')

prop('C24', 'A recorded image is seen in another field of view where its content is',
     'Cropping or padding an image recorded in one square field of view to another one gives an image '
     'of the same size and channels in which every pixel shows what the original shows at that place '
     'of the material: exactly the pixel found there (to the nearest whole pixel) where the fields of '
     'view are equally large, the same image where they are equal, and zero where the original shows '
     'nothing. An image without channels is given one, and the inputs are not modified.',
     ['inputs'], 'images of any size and channels; all square fields of view, equally large ones proved',
     'Tests shift one image by a few pixels; swapped axes or signs and rounding need tall images and '
     'views moved along both axes.',
     ['alignment.py'], ['pad_and_crop_images_by_fov@putting_dune/alignment.py'],
     note=FLOATS + ' Fields of view of different sizes are sampled, to within a pixel.')

prop('C26', 'Realigning a trajectory moves each observation by its own drift only',
     'Realigning shows the image of every observation to the aligner once and in order, in the field of '
     'view moved by the drift found so far, after starting it afresh with the history asked for. Every '
     'observation is kept, moved back by its own drift (in every iteration by the growing share asked '
     'for), with the detected grid when relabelling and its own otherwise, and all else as it was; the '
     'observations given are not modified. Realigning files keeps every trajectory of the record files '
     'of a folder or a single file.',
     ['inputs', 'histories'], 'trajectories of any length; drifts of up to three observations, two '
     'iterations proved',
     'Tests align a trajectory or two with a trained model; a drift that is applied late, twice or to '
     'the wrong observation needs drifts that can be told apart.',
     ['pipeline/align_trajectories.py'],
     ['do_alignment, main@putting_dune/pipeline/align_trajectories.py'],
     note=FLOATS + ' Longer trajectories and more iterations, and the files, are sampled.')

prop('C27', 'Atomic grids are equal when they hold the same atoms in any order',
     'Two atomic grids compare equal only if they have as many atoms and every atom of the second is '
     'one of the first, of the same species and within a thousandth of an ångström; grids whose atoms '
     'correspond one to one, none of them near another, are equal, whatever their order. Grids of the '
     'same atoms in another order hash alike, and comparing modifies neither.',
     ['inputs'], 'grids of any length; other orders of two and three atoms proved',
     'Tests compare a few grids; an ignored species, an off tolerance or a dependence on the order '
     'needs grids that differ in just that.',
     ['microscope_utils.py'], ['AtomicGrid.__eq__, __hash__@putting_dune/microscope_utils.py'],
     note=FLOATS + ' Larger grids in other orders are sampled. Where atoms are closer together than '
     'the tolerance nothing is claimed.')

prop('C28', 'Masks and images show every atom where the field of view has it',
     'A grid mask has one pixel for each pixel asked for, holding the atomic number of the atom that '
     'covers its centre (a disc around the atom that grows with its atomic number, later atoms in '
     'front) and zero elsewhere; the top row is the top of the field of view. In clean images an atom '
     'is a round spot at its place, as bright as its atomic number to the exponent, and noisy images '
     'have the size asked for, lie in [0, 1] and follow from their seed. None modify their inputs.',
     ['inputs'], 'masks: all fields of view, image sizes and numbers of atoms; images sampled',
     'Tests look at shapes; swapped axes, a flipped row order or the wrong scale show only in tall '
     'fields of view with atoms off the diagonal (two such defects were found and repaired).',
     ['imaging.py'],
     ['generate_grid_mask, generate_clean_image, generate_stem_image@putting_dune/imaging.py'],
     note=FLOATS + ' Clean and noisy images are sampled (their filters are library code).')

prop('C29', 'Rate data says where the silicon of each usable transition went',
     'A transition becomes a data point exactly if it has one control, one silicon before and after, '
     'enough atoms, three bonded neighbours and no drift; transitions with another number of controls, '
     'or of silicons, are left out. Its label is 0 if the silicon stayed or else the neighbour it took '
     'the place of, counted counter-clockwise from the one nearest to the beam, its beam position is '
     'relative to the silicon with that neighbour to the right, and time, current and voltage are the '
     'control\'s. Stacking keeps one row per data point, in order, with the context columns asked for.',
     ['inputs'], 'transitions left out and stacking for any number of atoms and rows; labels sampled',
     'Tests convert one recorded file; wrong labels need a silicon that moves to each neighbour under '
     'beams from every side, in fields of view that differ.',
     ['pipeline/train_rate_learner.py'],
     ['transitions_to_datapoints, stack_data@putting_dune/pipeline/train_rate_learner.py'],
     note=FLOATS + ' That transitions are turned into the right data points is sampled against plain '
     'loops (turning and ordering the neighbours is proved in C18).')

prop('C30', 'Rates are learned from the likelihood of what was observed',
     'The loss of a sample is that of an exponential clock: the total rate times the time if the '
     'silicon stayed, minus the logarithm of the chance of leaving in that time if it left, plus (as '
     'weighted) minus the logarithm of the softmax share of the neighbour it went to. Each sample of a '
     'batch has the losses its own output gives, the rates reported are the shares of the total, the '
     'loss is the mean, and the network is asked once. Training and testing data are made of samples of '
     'the dataset with all that belongs to them, and no sample is in both.',
     ['inputs'], 'batches of any number of samples',
     'Tests check shapes; a rate reported for the wrong neighbour (such a defect was found and '
     'repaired) or losses of another row need outputs that differ.',
     ['rate_learning/learn_rates.py'],
     ['batched_loss_fn, create_dataset_splits@putting_dune/rate_learning/learn_rates.py'],
     note=FLOATS + ' Softmax is modelled by its defining shares; the mean over a batch and the splits '
     'are sampled.')

prop('C23', 'The parts of every registered experiment fit together',
     'In every registered experiment with a random or greedy agent, what the agent asks for has the '
     'shape and lies within the bounds of the experiment\'s action spec (greedy: its shape), and '
     'becomes one control in view, of a dwell time in the experiment\'s range: no further from the '
     'silicon along either axis than its reach, or where the experiment aims, turned to the neighbour '
     'nearest to the goal, from features that are vectors in ångströms. Creating an experiment gives the '
     'registered one, with parts of its own; unknown names are refused and registering never replaces. '
     'Environments of experiments conform to their specs, repeat for a seed and respect the step limit.',
     ['inputs', 'histories'], 'all registered experiments without a network; all observations',
     'Tests create experiments by name; an agent wired to the bounds, frames or dwell times of another '
     'adapter runs without error and only aims elsewhere.',
     ['experiments/registry.py', 'run_helpers.py'],
     ['create_microscope_experiment, create_eval_experiment, create_train_experiment, '
      'register_eval_experiment@putting_dune/experiments/registry.py',
      'create_putting_dune_env@putting_dune/run_helpers.py'],
     note=FLOATS + ' Running environments is sampled.')

prop('C31', 'The graphene sheet is a piece of the honeycomb lattice',
     'A generated sheet of graphene is a square piece of the honeycomb lattice with bonds of 1.42 '
     'ångströms: no two atoms are closer than a bond, inside the sheet every atom has exactly three '
     'others at that distance and six second neighbours. Whatever is drawn, the sheet is the same one, '
     'moved and turned but neither stretched nor mirrored, and its middle lies within half a bond of '
     'the origin in each (turned) direction. The canonical sheet is always the same, all carbon but for '
     'one silicon, which lies at the origin in the middle of the sheet.',
     ['inputs'], 'all draws and all sheets (moving and turning); the lattice for up to 50 columns',
     'Tests measure one sheet of the default size; a lattice that is wrong for some number of columns '
     'or some angle needs that size or draw.',
     ['graphene.py'],
     ['generate_pristine_graphene, canonical_pristine_graphene_with_centered_silicon@putting_dune/graphene.py'],
     note=FLOATS + ' Proved for any lattice and all draws: the sheet is the canonical one, turned and '
     'moved, and the silicon is at the origin. That the lattice is the honeycomb is checked for each '
     'size up to 50 columns by running the code; where the middle of the sheet lies, for 4 to 10.')
