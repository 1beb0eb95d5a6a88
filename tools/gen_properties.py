#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long records stay reviewable)."""
import json, os
S='src/fock_state_circuit/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],state=[dict(name=a,meaning=b,where=S+c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=S+b) for a,b in mech],observe_at=observe,hook_needed=None)))

p('C01','Optical nodes act on photon states by the bosonic linear-optics law',
 'For every 2x2 optical matrix M (complex, not necessarily symmetric) placed on any ordered pair (a,b) of distinct channels, evaluating the circuit maps each photon-number component by replacing the creation operators, a+ -> M00 a+ + M10 b+ and b+ -> M01 a+ + M11 b+, with the bosonic sqrt(n!) factors, and leaves all other channels alone. This holds for every component in which a and b together hold fewer photons than length_of_fock_state; a component in which they hold that many or more passes unchanged. It holds for either naming convention and with or without use_full_fock_matrix.',
 ['inputs','configurations'],'all complex matrix entries, all amplitudes, all ordered channel pairs, fock lengths and channel counts (within stated bounds)',
 'Tests use a few fixed angles on channels (0,1) and (2,3) and compare probabilities at specific points; no test quantifies over matrices, amplitudes and ordered pairs such as (2,0), and non-symmetric matrices are never evaluated.',
 ['circuit.py','nodes/nodelist/node_list.py','nodes/nodelist/optical_values_component_names.py','nodes/custom_nodes.py'],
 [('single-node Fock matrix from 2x2 matrix','circuit.py:__generate_single_node_fock_matrix_from_optical_matrix'),('channel permutation','nodes/nodelist/node_list.py:_translate_channels_numbers_to_tensor_list'),('application to state vectors','circuit.py:__apply_node_or_nodes_to_collection')],
 ['evaluate_circuit() output optical_components','get_fock_state_matrix()'])
p('C02','Optical gates conserve norm, inner products and photon number',
 'For all angles, phases, splitting ratios and input amplitudes, a circuit of wave plates, mixers, beamsplitters, swaps and phase shifts preserves the norm of every state and the inner product between any two states, and never moves amplitude between components with different total photon number. This includes states whose photon number is at or above the Fock-length cut-off.',
 ['inputs','configurations'],'all real gate parameters and complex amplitudes; all gate/channel choices and Fock lengths within bounds',
 'Tests check normalisation at a few angles; conservation must hold for the continuum of angles and for superpositions that mix photon numbers around the cut-off.',
 ['circuit.py','nodes/optical_nodes.py'],
 [('binomial transition law and cut-off handling','circuit.py:__generate_single_node_fock_matrix_from_optical_matrix'),('generic 2-channel rotation','nodes/optical_nodes.py:_generate_generic_optical_matrix')],
 ['State.inner of outputs','probabilities in output optical_components'])
p('C03','Named optical gates realise their documented transformation',
 'For all parameters and channel choices: a wave plate is R(theta)*diag(1,e^{i phi})*R(-theta) with R=[[c,-s],[s,c]] on (horizontal, vertical); half and quarter wave plates (and their fixed 22.5/45 degree variants) are wave plates with phi = pi and pi/2; phase_shift multiplies each photon in its channel by e^{i phi}; swap exchanges channels; mix_50_50 and mix_generic_refl_transm let a single photon stay in its channel with probability 1/2 and the given reflection, and move to the other with probability 1/2 and the given transmission; a polarizing beamsplitter transmits horizontal and exchanges vertical modes; a non-polarizing 50/50 beamsplitter mixes horizontal with horizontal and vertical with vertical. Every one of these gates acts only on the channels it names. Stated for components whose mixed channels together hold fewer than length_of_fock_state photons (phase shifts: for all).',
 ['inputs','configurations'],'all real gate parameters, all channel assignments within bounds',
 'Tests evaluate named gates at single angles and default channels and partly only draw them (mix_generic_refl_transm is only ever drawn).',
 ['nodes/optical_nodes.py'],
 [('gate definitions','nodes/optical_nodes.py'),('generic matrix','nodes/optical_nodes.py:_generate_generic_optical_matrix')],
 ['evaluate_circuit() output for single and multi photon inputs'])
p('C04','Evaluation strategy never changes the outcome',
 'The output of an optical circuit is the same whether evaluated with full or photon-number-reduced Fock matrices, as one run or node by node by passing node-index lists (in any order, with repetitions), via get_fock_state_matrix applied to the state vector, or with the state alone or inside a collection with arbitrary other states. Each output state keeps its identifier, initial_state, cumulative_probability, classical values and measurement history through optical nodes.',
 ['inputs','programs','configurations'],'all amplitudes and gate parameters; all small node sequences, node-index lists and collection compositions within bounds',
 'Tests compare full and reduced matrices for a handful of circuits with fixed parameters; partial node lists are barely used and arbitrary groupings by photon number never.',
 ['circuit.py','collection_of_states.py'],
 [('grouping by photon number','collection_of_states.py:_group_states_together_by_photon_number'),('matrix product over node list','circuit.py:__generate_fock_state_matrix'),('recursive evaluation','circuit.py:evaluate_circuit')],
 ['evaluate_circuit(collection, nodes_to_be_evaluated)','get_fock_state_matrix()'])
p('C05','Component names, photon-number lists and indices are mutually inverse',
 'For every Fock length, channel count and naming convention, component name -> photon numbers -> name, index -> name -> index and photon numbers -> index -> photon numbers are inverse bijections over exactly L^N components, with index = sum(n_i L^i), names using a fixed number of digits per channel in the configured channel order, and out-of-range or wrong-length values rejected. Membership, length, iteration order and reordering of the lookup objects agree with this encoding irrespective of which lookups were made before.',
 ['inputs','configurations','histories'],'all photon-number vectors for symbolic length and channel values; all small lookup histories (the lookup tables are lazy caches)',
 'Tests sample a few names for a few sizes; the lazy shared caches make correctness depend on lookup history, and multi-digit reversed names are hardly exercised.',
 ['nodes/nodelist/optical_values_component_names.py','nodes/nodelist/node_list.py'],
 [('lazy name dictionary','nodes/nodelist/optical_values_component_names.py:ComponentNames'),('lazy value dictionary','nodes/nodelist/optical_values_component_names.py:OpticalValues')],
 ['circuit.basis()','ComponentNames / OpticalValues lookups'])
p('C06','Measurement obeys the Born rule and collapses the state',
 'Measuring any subset of optical channels (in any order) of any state produces exactly one output state per outcome with non-zero probability, whose cumulative_probability is the input one times the summed |amplitude|^2 of the compatible components; the output components are precisely those compatible with the outcome, rescaled by one common positive factor to unit norm. The outcome probabilities of a normalised state sum to the probability of the input state, and repeating the same measurement yields the same outcome with certainty.',
 ['inputs','configurations'],'all complex amplitudes; all channel subsets/orders and superpositions within bounds',
 'Tests measure a few equal-weight superpositions; the rule must hold for all amplitudes and channel subsets, including unequal weights, complex phases and permuted channel lists.',
 ['circuit.py','nodes/measurement_nodes.py'],
 [('projective measurement','circuit.py:_perform_measurement')],
 ['output collection of a circuit with measurement nodes'])
p('C07','Measurement results are recorded faithfully and stay recorded',
 'A measurement writes each measured photon number to the classical channel paired with it, leaves other classical channels unchanged, and appends exactly one entry (classical values at that moment, probability of that outcome) to the state history. Earlier history entries are never altered by later nodes, whatever classical or measurement nodes follow, and initial_state and auxiliary information are carried along.',
 ['inputs','programs','histories'],'all amplitudes and classical values; all short sequences of measurement/classical/optical nodes within bounds',
 'Tests look at the last entry right after the measurement; that an old entry survives every later node is a statement about all continuations.',
 ['circuit.py','nodes/measurement_nodes.py','nodes/classical_nodes.py','temporal_and_spectral_gate_functionality/interference_group.py'],
 [('history append','circuit.py:_perform_measurement'),('classical write','nodes/classical_nodes.py:set_classical_channels')],
 ['state.measurement_results','state.classical_channel_values'])
p('C08','Classical control is per-state and equals the corresponding static gate',
 'For every classical value held by a state, a classically controlled wave plate or phase shift (and the controlled Hamiltonian wave plate) acts on that state exactly as the uncontrolled gate with that value as parameter, independent of the values held by other states in the collection. set_classical_channels and classical functions change exactly the channels they address, in every state.',
 ['inputs','programs','configurations'],'all classical values, amplitudes and channel assignments within bounds',
 'Tests drive controlled gates with a few fixed values; per-state independence for arbitrary real values and channel pairs is not sampled.',
 ['nodes/controlled_nodes.py','nodes/classical_nodes.py','circuit.py'],
 [('controlled node evaluation','circuit.py:evaluate_circuit'),('set_classical_channels','nodes/classical_nodes.py')],
 ['evaluate_circuit() output'])
p('C09','Shift, controlled-shift and coupling nodes implement modular arithmetic',
 'shift adds its amounts and c_shift adds each control photon number to its target, modulo length_of_fock_state and in list order, permuting components without changing amplitudes; the matrix-based and the direct variants give identical results for all channel lists, including chained ones. channel_coupling is the identity at strength 0, equals c_shift at strength 1 and for strengths in between gives transition probabilities strength and 1-strength.',
 ['inputs','configurations'],'all shift amounts, coupling strengths, amplitudes and channel lists within bounds',
 'Tests exercise single pairs; equivalence over chained pairs, arbitrary shift amounts and symbolic amplitudes is not sampled.',
 ['nodes/custom_nodes.py'],
 [('matrix construction','nodes/custom_nodes.py:c_shift'),('direct component rewrite','nodes/custom_nodes.py:c_shift_direct')],
 ['evaluate_circuit() output'])
p('C10','Hamiltonian gates implement the exponential of their operator polynomial',
 'The gate built from a list of Hamiltonians acts, on states far enough below the cut-off, as the product of the operator exponentials exp(H) of the ladder-operator polynomials with list index 0 applied first and operator strings read from left to right, on exactly the named channels, linearly in the input amplitudes. The wave plate built from Hamiltonians gives the same amplitudes as the ordinary wave plate gate with the same angles, for all channel pairs and all angles small enough for the power series to have converged.',
 ['inputs','configurations'],'all coefficients/angles in bounded range, all amplitudes, channel assignments within bounds',
 'Tests compare a few angles with allclose; linearity, operator ordering and coefficient dependence quantify over continua.',
 ['quantum_operator_functionality/quantum_operators.py','nodes/quantum_operator_nodes.py'],
 [('ladder matrices','quantum_operator_functionality/quantum_operators.py:QuantumOperator'),('Taylor exponential','quantum_operator_functionality/quantum_operators.py:_exponentiaze')],
 ['evaluate_circuit() output','QuantumOperator.apply_operator_to_state'])
p('C11','State vector conversion and state algebra are faithful',
 'Converting a state to a vector and back returns exactly the components whose probability is not below the threshold, with unchanged amplitudes and probability=|amplitude|^2; assigning a list of (name, amplitude) pairs adds up duplicates. inner is the sesquilinear scalar product, outer the matrix of conj(a_i) b_j, and tensor the product over the joint channels with the same result for each accepted argument form and naming convention; photon_number reports the maximum and whether all components agree.',
 ['inputs','configurations'],'all complex amplitudes incl. around the threshold; all component sets, sizes, conventions within bounds',
 'Tests check fixed numeric examples; bilinearity, round trips and threshold behaviour hold for all amplitudes.',
 ['state.py'],
 [('vector conversion','state.py:set_state_components_from_vector'),('tensor/inner/outer','state.py')],
 ['State methods'])
p('C12','Density matrices are the weighted mixture of the states',
 'For every collection and initial state, density_matrix returns element (i,j) = sum over states of cumulative_probability * conj(a_i) * a_j in the canonical basis; it is Hermitian with real non-negative diagonal, its trace is the total weighted norm and the reported purity is the trace of its square (rounded as requested), and states with another initial_state do not contribute.',
 ['inputs','configurations'],'all amplitudes and weights; collections of several states and initial states within bounds',
 'Tests evaluate a few Bell/GHZ states numerically.',
 ['collection_of_states.py'],[('density_matrix','collection_of_states.py:density_matrix')],['CollectionOfStates.density_matrix()'])
p('C13','Reducing channels is the partial trace',
 'Reducing a collection to a list of optical channels (any subset of at least two, any order) yields a collection whose density matrix per initial state equals the partial trace of the original density matrix over the dropped channels, with total probability conserved, each resulting state normalised; kept classical channels appear in the requested order with their values and dropped ones vanish.',
 ['inputs','configurations'],'all amplitudes and weights; all channel subsets/orders within bounds',
 'Tests reduce a few fixed states; the partial-trace identity quantifies over all entangled inputs and subsets.',
 ['collection_of_states.py'],[('reduce','collection_of_states.py:reduce')],['CollectionOfStates.reduce()','density_matrix()'])
p('C14','Extending channels and changing Fock length embed states losslessly',
 'Extending a collection adds optical channels in the product state given by the statistical distribution (vacuum by default) and classical channels with value 0, so that for every photon-number assignment of the new channels the mixture weight is the product of the distribution entries and the old channels keep their components, names convention, initial_state and history. Changing length_of_fock_state to any length above all present photon numbers keeps all amplitudes, weights and photon numbers, and reducing after extending restores the original mixture.',
 ['inputs','configurations'],'all amplitudes, weights and distributions; all sizes within bounds (incl. lengths where the digit count changes)',
 'Tests extend by fixed distributions; conservation for arbitrary distributions and digit-width changes (lengths around 10) is not sampled.',
 ['collection_of_states.py'],[('extend','collection_of_states.py:extend'),('adjust_length_of_fock_state','collection_of_states.py:adjust_length_of_fock_state')],['CollectionOfStates.extend()','adjust_length_of_fock_state()'])
p('C15','Bridged and compound circuits equal sequential evaluation',
 'Evaluating a compound circuit, or a circuit ending in a bridge, of circuits with one naming convention on any input equals evaluating its circuits one after the other with the collection extended by vacuum/zero channels or reduced to the lowest channels and its Fock length adapted in between; the listed circuits themselves are not modified and refresh() is idempotent.',
 ['inputs','programs','configurations'],'all amplitudes/parameters; all pairs and triples of small circuits growing/shrinking in optical, classical channels and Fock length within bounds',
 'Tests run a few fixed compounds; the equality concerns all size transitions and inputs.',
 ['compound_circuit.py','circuit.py','nodes/bridge_nodes.py'],[('bridge evaluation','circuit.py:evaluate_circuit'),('refresh','compound_circuit.py:refresh')],['CompoundFockStateCircuit.evaluate_circuit()'])
p('C16','Cleaning up merges only equal states and conserves probability',
 'clean_up conserves, per initial_state, the total cumulative probability except for removed states below the threshold, merges only states with the same initial_state and (within the threshold) the same optical components (neither more nor fewer), removes components below the threshold and renormalises the remaining ones by a common factor, and leaves states of other initial_states alone when one is named. Measuring or evaluating a cleaned collection is always well defined.',
 ['inputs','histories'],'all amplitudes and weights incl. around the threshold; collections of several states within bounds',
 'Tests clean a few exactly equal states; threshold boundaries and near-equal states are not sampled.',
 ['collection_of_states.py','state.py'],[('clean_up','collection_of_states.py:clean_up'),('rescale','state.py:_rescale_optical_components'),('identity test','state.py:_identical_optical_components')],['CollectionOfStates.clean_up()'])
p('C17','Evaluation and copying isolate inputs from outputs',
 'Evaluating a circuit leaves the input collection (components, weights, classical values, histories, auxiliary data) and the circuit unchanged so that re-evaluation gives the same result; copies of states and collections share no mutable data with their source, so any change to one is invisible in the other.',
 ['programs','histories','inputs'],'all node kinds in first position and all small node sequences; all amplitudes and classical values; all mutations of a copy within bounds',
 'Tests inspect outputs, rarely inputs afterwards; aliasing appears only for specific sequences of later mutations.',
 ['circuit.py','collection_of_states.py','state.py','nodes/classical_nodes.py','nodes/custom_nodes.py','nodes/superquantum_nodes.py','nodes/spectral_nodes.py'],
 [('collection copy','collection_of_states.py:copy'),('state copy','state.py:copy'),('node evaluation','circuit.py:evaluate_circuit')],['input collection after evaluate_circuit()','copy after mutation of original'])
p('C18','Collection book-keeping loses, invents and confuses no states',
 'Adding, deleting, filtering and selecting states affects exactly the states that match: generated identifiers never collide whatever the random choices, a statistical mixture contains every listed state with exactly its weight under one common initial_state, filters keep exactly the matching states in order and unchanged, and the default collection contains each basis state once.',
 ['histories','inputs'],'all outcomes of the random identifier choices, all weights and classical values; all short histories within bounds',
 'Identifiers are random, so a collision happens only on rare draws that tests cannot force; filters are tested on fixed values.',
 ['collection_of_states.py'],[('add_state','collection_of_states.py:add_state'),('set_collection_as_statistical_mixture','collection_of_states.py'),('filters','collection_of_states.py:filter_on_classical_channel')],['CollectionOfStates API'])
p('C19','Popescu-Rohrlich correlations are valid no-signalling probabilities',
 'For all polarisation settings on the two photons of a Popescu-Rohrlich pair, including circular ones, and every quantumness q, the probability of each of the four joint outcomes is 1/4*(1+sign(X)|X|^(1/q)) with X the correlation of the entangled state hh+vv at these settings: so q=1 is ordinary quantum mechanics, the four probabilities lie between 0 and 1 and sum to the probability of the input state, and the outcome on one side is 1/2 whatever the setting on the other side. Several pairs are independent, the remaining channels and the classical values, history and extra data of the input are kept, and states in which the photons no longer factor into pairs are refused with an exception.',
 ['inputs','configurations'],'all angles / Stokes vectors and interpolation parameters',
 'Tests evaluate sampled angles; range and no-signalling are statements over the continuum of settings.',
 ['popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py','nodes/superquantum_nodes.py'],
 [('pair probability','popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py'),('measurement of boxes','nodes/superquantum_nodes.py')],
 ['measure_collection_with_NS_boxes','measurement nodes on PR-correlated collections'])
p('C20','Photon-resolved measurement reproduces wave-packet interference',
 'For photons carrying time delay and pulse width, measured outcome probabilities of every group are non-negative, sum to the probability of the group and equal the permanent-style sum over photon pairings weighted by the pairwise wave-packet overlaps; with all photons identical the result equals the ordinary measurement, and opposite delays cancel. Delayed and undelayed photons interfere in the Hong-Ou-Mandel dip with visibility equal to the overlap.',
 ['inputs','configurations'],'all delays, widths, amplitudes and mixing angles; up to a few photons and channels within bounds',
 'Tests sample a few delays; the identities hold for all delays, widths and amplitudes.',
 ['temporal_and_spectral_gate_functionality/interference_group.py','temporal_and_spectral_gate_functionality/column_of_states.py','temporal_and_spectral_gate_functionality/collection_of_state_columns.py','temporal_and_spectral_gate_functionality/temporal_functions.py','nodes/spectral_nodes.py'],
 [('group measurement','temporal_and_spectral_gate_functionality/interference_group.py'),('overlap','temporal_and_spectral_gate_functionality/temporal_functions.py:photon_probability_function')],
 ['measurement after time_delay nodes'])
p('C21','Histograms and correlations aggregate probabilities faithfully',
 'The histogram of a collection assigns to each (initial state, classical outcome) pair the sum of the cumulative probabilities of the matching states, lists the same outcomes for every initial state, and loses or invents no probability; correlations for each channel pair equal P(equal)-P(different) normalised by the total, lie in [-1,1] and refer to the requested classical channels for either naming convention and any number of digits.',
 ['inputs','configurations'],'all weights and classical values within bounds, all channel pairs and conventions',
 'Tests check a few circuits in the default naming convention.',
 ['visualization/plot.py'],[('histogram','visualization/plot.py:plot'),('correlations','visualization/plot.py:_correlation_from_collection')],['plot(histo_output_instead_of_plot=True)','plot_correlations(correlation_output_instead_of_plot=True)'])
p('C22','Circuit drawings show every node once, on its channels and in order',
 'Drawing a circuit or a chain of circuits shows every node exactly once: one mark for each channel it acts on, on the line of that channel, all at one place, joined by a line, with the label of the node (combined nodes share one), on a page that is kept and not covered. Nodes that share a channel appear in program order, also across pages and circuits, and nodes that overlap never stand at the same place. Drawing by station shows for each requested station exactly the nodes that touch its channels, on these channels, naming the other stations they connect to and showing whether by light or by classical signals. Drawing changes neither circuit nor settings, and drawing again gives the same picture.',
 ['programs','configurations'],'all channels of the nodes, all line spacings, all assignments of channels to stations; all small programs, page lengths and chains within bounds',
 'Tests draw a few circuits and compare images or only check that nothing is raised; placement depends on which channels overlap and where pages end.',
 ['visualization/draw.py','nodes/optical_nodes.py','nodes/quantum_operator_nodes.py','compound_circuit.py'],[('placement','visualization/draw.py:draw'),('stations','visualization/draw.py:_filter_on_station'),('channels of a node','nodes/*.py: node_info')],['draw()','draw_station()'])
p('C23','Decomposition into photon columns is lossless',
 "Splitting a state into an interference group of columns, expanding the columns into single-photon states, rebuilding groups and collections from the information the states carry, and condensing them back to states reproduces the state: one column per component with exactly its amplitude and photon numbers and with the boson factor sqrt(prod n_k!), the same weight, classical values, history and further information. Along the way every group, its columns and its states agree on amplitude, boson factor, weight and identifiers, identifiers are unique (a free one is the lowest not in use), each state lands in the group and column it names, rescaling makes the squared amplitudes add up to one, and the probabilities of all outcomes of a group are the squared moduli of its components.",
 ['inputs','histories'],'all complex amplitudes, weights, classical values and boson factors; all component sets, identifier scripts and step sequences within bounds',
 'Tests look at fixed amplitudes and a few hand-made groups; the columns and the tags on the states are two copies of the same data which only agree if every operation updates both.',
 ['temporal_and_spectral_gate_functionality/column_of_states.py','temporal_and_spectral_gate_functionality/interference_group.py','temporal_and_spectral_gate_functionality/collection_of_state_columns.py'],
 [('columns','temporal_and_spectral_gate_functionality/column_of_states.py'),('groups','temporal_and_spectral_gate_functionality/interference_group.py:split_columns'),('collections','temporal_and_spectral_gate_functionality/collection_of_state_columns.py')],['InterferenceGroup / ColumnOfStates / CollectionOfStateColumns API'])
p('C24','Only well-formed states are accepted, and circuits produce only those',
 'A state is accepted exactly if its weight and the probabilities of its components lie between 0 and 1 (up to the threshold), its component names are names the circuit knows, it has one classical value per classical channel and its fields, the measurement history aside, have the documented types; the constructor, the setters and bool(state) agree on this, and a refused change leaves the state as it was. Every state a circuit of gates, shifts, measurements, delays, mixtures and selections makes of well-formed states is well-formed again, with component probabilities equal to the squared moduli of the amplitudes.',
 ['inputs','configurations','programs'],'all weights and component probabilities on both sides of their limits; malformed values of every field; all circuits of up to a few nodes within bounds',
 'Tests construct valid states and a handful of invalid ones; the limits are a statement about all values and the closure one about all circuits.',
 ['state.py','nodes/nodelist/optical_values_component_names.py','circuit.py'],
 [('check','state.py:__bool__'),('constructor','state.py:__init__'),('setters','state.py:cumulative_probability'),('names','nodes/nodelist/optical_values_component_names.py')],['State(collection, dict)','bool(state)','evaluate_circuit()'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for r in P: f.write(json.dumps(r)+'\n')
for r in P:
    assert len(r['title'])<=80,(r['id'],len(r['title']))
