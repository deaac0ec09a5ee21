"""Writes properties.jsonl (kept in step with MANIFEST.json)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['factorio_sat/' + f for f in files], 'mechanism': [{'name': n, 'where': 'factorio_sat/' + w} for n, w in mech]}})
I, C, H = 'inputs', 'configurations', 'histories'

p('C01', 'Arithmetic clause builders mean exactly the arithmetic they name',
  'For every width and every constant, the clauses built to set, bound, compare, add, sum, increment, negate or count bits of binary numbers have exactly the solutions in which that arithmetic relation holds, with auxiliary variables always extendable. '
  'Overflow is accepted or rejected as requested, and the lexicographic ordering used for symmetry breaking accepts exactly the pairs with left not greater than right.',
  [I], 'all operand values at every width up to the bound, every constant in range, literals of either sign',
  'The suite never calls the arithmetic directly; it only sees it through a few solved layouts.',
  ['util.py'], [('add_numbers', 'util.py'), ('sum_numbers', 'util.py'), ('increment_number', 'util.py'), ('get_popcount', 'util.py'), ('set_maximum', 'util.py'), ('set_numbers', 'util.py'), ('invert_number', 'util.py'), ('break_symmetry', 'util.py'), ('read_number', 'util.py')])
p('C02', 'Cardinality constraints count exactly',
  'Each at-most-one, exactly-one, equals-n, at-most-n and at-least-n constraint accepts an assignment of its literals if and only if the number of true literals satisfies that bound. This holds for negated literals, several constraints sharing one variable pool, and every list length and bound; a bound that no assignment can break or meet may be refused with an error, never mis-encoded.',
  [I], 'all assignments of up to N literals, every n, several constraints in one pool',
  'Tests only run whole solver problems in which a wrong count usually still has some solution.',
  ['cardinality.py'], [('quadratic_amo', 'cardinality.py'), ('logarithmic_amo', 'cardinality.py'), ('heule_amo', 'cardinality.py'), ('library_equals', 'cardinality.py'), ('library_atmost', 'cardinality.py'), ('library_atleast', 'cardinality.py')])
p('C03', 'Every generated layout is physically buildable in the game',
  'In every layout the solver can return under the basic rules, each belt, underground and splitter connection agrees on both sides, every underground entrance pairs with an exit in line within the maximum length, splitter halves come in pairs, an unused splitter output never leaks into a belt, and nothing crosses a blocked edge. The reported input and output directions of every tile are the ones the game would use, including across wrapped edges.',
  [I, C], 'every solution, for every grid size, underground length, wrap mode per axis and subset of blocked edges in the bounds',
  'The suite checks about 110 fixed layouts; the claim is about every solution of the clauses.',
  ['solver.py', 'template.py', 'tile.py'], [('base clauses', 'solver.py:Grid.__init__'), ('prevent_intersection', 'solver.py'), ('prevent_bad_undergrounding', 'solver.py'), ('enforce_maximum_underground_length', 'solver.py'), ('block_*_through_edges', 'solver.py')])
p('C04', 'No buildable layout is excluded by the basic rules',
  'Every layout that obeys belt physics, fits the grid, respects the maximum underground length and crosses no blocked edge is accepted by the basic rules, so a reported "no solution" is never caused by them.',
  [I, C], 'every physically valid layout, for every grid size, underground length, wrap mode and subset of blocked edges in the bounds',
  'A rule that is too strong only shows as a missing solution; the suite tries a few dozen valid layouts.',
  ['solver.py', 'template.py'], [('base clauses', 'solver.py:Grid.__init__'), ('prevent_intersection', 'solver.py'), ('prevent_bad_undergrounding', 'solver.py'), ('enforce_maximum_underground_length', 'solver.py'), ('block_*_through_edges', 'solver.py')])
p('C05', 'Tiles fixed in advance appear unchanged, and only those are forced',
  'When tiles are fixed beforehand, individually or through a partial layout given as blueprint text or solver output, every solution shows exactly those tiles there, and any layout that has those tiles is still a solution. Empty tiles of a partial layout constrain nothing.',
  [I, C], 'every tile kind at every position, every solution of the remaining grid',
  'Tests use fixed tiles as a means and never compare what comes back for arbitrary positions.',
  ['solver.py', 'belt_balancer.py', 'blueprint.py'], [('set_tile', 'solver.py'), ('read_tile', 'solver.py'), ('set_nonempty_tiles', 'belt_balancer.py')])
p('C06', 'A generated balancer realises exactly the requested splitter network',
  'In every layout produced for a splitter network, tracing belts between splitters yields exactly the splitters of the network with the same multiplicities and the same input and output lines, one line kind never touching another. The number of belts entering and leaving the layout, and the lines they carry, are those of the network, and nothing else enters or leaves.',
  [I, C], 'every solution, for networks with full, one-input and one-output splitters and repeated nodes, with and without the pruning options',
  'Tests replay four known 2-to-3 and 3-to-2 layouts; the claim is about every solution for every network.',
  ['belt_balancer.py', 'solver.py', 'network.py', 'calculate_optimal.py'], [('create_balancer', 'belt_balancer.py'), ('transport_quantity', 'solver.py'), ('solve_balancer', 'calculate_optimal.py')])
p('C07', 'Without pruning options no realisation of the network is missed',
  'With no optional pruning enabled, every physically valid layout that realises the network in the given size, with the requested arrangement of ends and all its outputs leaving through belts and no underground passing only below empty tiles, is among the solutions.',
  [I, C], 'every layout of the given size realising the network',
  'Absence of a solution is only ever tested once, for one size, in the suite.',
  ['belt_balancer.py', 'solver.py', 'optimisations.py'], [('create_balancer', 'belt_balancer.py'), ('prevent_bad_colouring', 'solver.py'), ('prevent_empty_along_underground', 'optimisations.py')])
p('C08', 'Balancer ends are placed exactly as the chosen option says',
  'Inputs enter on belts forming one contiguous run on the left side and outputs leave on one contiguous run on the side the option names (right by default, bottom for 90 degrees, left for 180 degrees), at any offset that fits. Apart from the 180 degree arrangement, the remaining tiles of those sides are empty unless the option to use them is given, aligned ends overlap fully (the network-free generator uses straight belts as ends), and no placement allowed by the option is excluded.',
  [I, C], 'every combination of counts and side length, every offset pair, each option',
  'No test calls the end placement.',
  ['belt_balancer.py', 'belt_balancer_net_free.py'], [('setup_balancer_input/output', 'belt_balancer.py'), ('setup_balancer_ends*', 'belt_balancer.py'), ('setup_balancer_ends', 'belt_balancer_net_free.py')])
p('C09', 'Network-free balancers conserve and split flow exactly',
  'In every layout produced without a network, the per-input flow values are equal along each belt line, every splitter divides the sum of its inputs evenly over its outputs, each input carries exactly its own full flow and each output receives the same share of every input. For unequal input and output counts the same holds for the reverse flow. Every splitter does something: it splits, merges, or mixes two lines that carry different flows.',
  [I, C], 'every solution for n-to-n and n-to-m sizes in the bounds',
  'No test covers the flow encoding; it needs every solution, not one.',
  ['belt_balancer_net_free.py', 'solver.py', 'util.py'], [('create_n_to_n_balancer', 'belt_balancer_net_free.py'), ('create_n_to_m_balancer', 'belt_balancer_net_free.py'), ('transport_quantity', 'solver.py')])
p('C10', 'Power-of-two balancers mix every group into every output pair',
  'In every layout of the power-of-two generator each line carries the set of input pairs that reach it, splitters merge two disjoint sets of equal size, each stage has the right number of splitters, and each pair of outputs together covers every input pair exactly once.',
  [I, C], 'every solution for the power-of-two sizes in the bounds',
  'Four existing layouts and one unsatisfiable size are tested.',
  ['belt_balancer_net_free_power_of_2.py', 'solver.py'], [('create_balancer', 'belt_balancer_net_free_power_of_2.py')])
p('C11', 'Interchanges pair one belt of each half at every output pair',
  'In every generated interchange there are no splitters, all rows enter on the left and leave on the right, belts keep their half of origin, and each consecutive pair of outputs carries one belt from each half, strictly alternating or rotationally symmetric when asked. The extra flow-count constraints never remove a layout that satisfies these.',
  [I, C], 'every solution and every layout for the widths and heights in the bounds',
  'No test runs the interchange generator.',
  ['interchange.py', 'solver.py'], [('main', 'interchange.py'), ('require_correct_transport_through_edges', 'interchange.py'), ('require_rotational_symmetry', 'interchange.py'), ('flow_counts', 'interchange.py')])
p('C12', 'Belt blocks satisfy exactly the options they were generated with',
  'Every generated block is made of belts and undergrounds only, has no empty tile unless allowed, respects the underground length (zero meaning none), contains no 2x2 loop inside it, stays within its border or tiles seamlessly, has no adjacent parallel undergrounds when that is excluded, and forms one single loop when that is requested. No block satisfying the options is missed, apart from those with an underground passing only below empty tiles.',
  [I, C], 'every solution and every block, for every option combination and size in the bounds',
  'No test runs the block generator.',
  ['make_block.py', 'optimisations.py', 'solver.py'], [('main', 'make_block.py'), ('ensure_loop_length', 'make_block.py'), ('prevent_parallel', 'make_block.py')])
p('C13', 'Each pruning rule removes exactly the wasteful pattern it names',
  'Each optional pruning rule rejects every layout containing its documented wasteful pattern in any of its four orientations and its mirror image (the two interchange rules, same-half passing and awkward underground entry, name a left-handed pattern only), and accepts every otherwise valid layout without that pattern. The command line options switch on exactly the rules they describe.',
  [I, C], 'every valid layout on grids large enough to hold the pattern at several positions, every orientation',
  'The suite has a handful of positive and negative layouts per rule, mostly in one orientation.',
  ['optimisations.py', 'belt_balancer.py', 'interchange.py'], [('prevent_* / glue_* / expand_underground', 'optimisations.py'), ('enforce_edge_splitters', 'belt_balancer.py'), ('prevent_double_edge_belts', 'belt_balancer.py'), ('prevent_passing', 'interchange.py')])
p('C14', 'Symmetry breaking keeps a representative of every mirrored pair',
  'With vertical symmetry breaking on, at least one of every layout and its top-bottom mirror image remains a solution whenever the layout was one before, and both remain only if they show the same tiles on every row (the middle row of an odd height aside). It never rejects a layout equal to its own mirror image.',
  [I, C], 'every valid layout and its mirror image',
  'Six fixed layouts are tested.',
  ['optimisations.py', 'util.py'], [('break_vertical_symmetry', 'optimisations.py'), ('break_symmetry', 'util.py')])
p('C15', 'Asking for all solutions yields each distinct layout exactly once',
  'With a built-in or shared-library solver, enumeration stops only when no unseen layout remains (or the solver is interrupted) and never repeats a layout; without the option for all, or with an external command, at most one layout is printed. Every value printed comes from a model of the constraints, and unsatisfiable, interrupted, truncated or malformed solver answers are never reported as layouts.',
  [I, H], 'every sequence of models a solver may return, every well-formed solver answer, all tools',
  'Tests ask for one solution from one built-in solver.',
  ['template.py', 'solver.py', 'ipasir.py'], [('itersolve', 'template.py'), ('itersolve', 'solver.py'), ('run_command_solver', 'template.py'), ('IPASIRSolver', 'ipasir.py')])
p('C16', 'Rotations and flips transform every layout consistently',
  'Rotating or flipping a layout moves each tile to the rotated position and turns its directions with it, so that a valid layout stays valid and equivalent; four quarter turns, or the same flip twice, give back the original, and the operations compose like the symmetries of a rectangle (quarter turns are counter-clockwise). Tiles without a direction are unchanged.',
  [I], 'every tile kind in every cell of grids up to the bound',
  'No test covers rotation.',
  ['rotate.py', 'tile.py', 'direction.py'], [('Operation', 'rotate.py'), ('rotate_90/flip_x', 'tile.py')])
p('C17', 'Blueprint export and import preserve the layout',
  'Exporting a consistent layout as a blueprint and importing it again gives the same layout up to empty margins, with every entity at its in-game position, facing, underground type and belt tier. Importing any supported entities gives belts the shape the game gives them and every other entity its tiles. Packing into and unpacking from books keeps every blueprint and its order, labels appear exactly when given, and version numbers survive encoding.',
  [I], 'every consistent layout up to the bound, every tier, every version number',
  'No test covers blueprints.',
  ['blueprint.py', 'blueprint_book.py', 'direction.py'], [('make_blueprint', 'blueprint.py'), ('import_blueprint', 'blueprint.py'), ('resolve_belt_input_directions', 'blueprint.py'), ('pack_book', 'blueprint_book.py')])
p('C18', 'Text form of a layout reads back as the same layout',
  'Printing a layout as text and reading it back gives the same layout for every tile kind, position and grid size, and distinct tiles never share a character.',
  [I], 'every tile kind in every cell of grids up to the bound',
  'The suite only reads text, for the layouts it contains.',
  ['stringifier.py'], [('encode', 'stringifier.py'), ('decode', 'stringifier.py')])
p('C19', 'Generated and shipped splitter networks really balance',
  'For every size, a created network has that many inputs and outputs and, however its interchangeable lines are wired, spreads every input evenly over all outputs for all input rates; every network shipped with the tool balances its stated number of inputs over its stated number of outputs in the same sense.',
  [I, C], 'all input rates and all wirings of same-coloured lines, for each size in the bound and each shipped network',
  'No test examines a network beyond two shipped files used as solver input.',
  ['network.py'], [('create_benes_network', 'network.py'), ('get_input_output_colours', 'network.py'), ('remap_colours', 'network.py')])
p('C20', 'Network file operations preserve the network',
  'Saving and reopening, flipping twice, grouping identical splitters, renumbering and tidying line colours each keep the network the same up to the order of splitters, the order within a pair and the naming of lines; a flipped network swaps inputs and outputs. Input and output lines and their counts are identified correctly for every network with one kind of each.',
  [I], 'every network up to the bound of splitters and colours, unconnected ports included',
  'No test covers network manipulation.',
  ['network.py'], [('open_network/save_network', 'network.py'), ('flip_network', 'network.py'), ('deduplicate_network', 'network.py'), ('fix_colours', 'network.py'), ('tidy_network', 'network.py')])
p('C21', 'Parsing a layout recovers its physical splitter network',
  'For every physically valid layout the parsed network has one entry per splitter, and two ports carry the same line exactly when belts, undergrounds or direct contact connect them (outputs of one splitter, all outside inputs and all outside outputs being treated as alike). Unconnected ports are marked as such and the parser never fails on a valid layout.',
  [I], 'every valid layout up to the grid bound',
  'No test parses a layout.',
  ['network.py', 'tile.py'], [('parse_network', 'network.py')])
p('C22', 'Optimality records never contradict what was found',
  'From any consistent set of recorded results, a size is reported as solvable or unsolvable only if a recorded result implies it through monotonicity in underground length, width and height; discarding redundant records changes no answer and saving and loading restores them. The next size to try is the first undecided candidate of the objective and search ends exactly when the best recorded solution is optimal.',
  [H, I], 'every set of recorded results up to the bound, every queried size, both objectives',
  'No test covers the optimality store.',
  ['calculate_optimal.py'], [('does_balancer_exist', 'calculate_optimal.py'), ('clean', 'calculate_optimal.py'), ('to_json/from_json', 'calculate_optimal.py'), ('next_size', 'calculate_optimal.py'), ('best_current_solution', 'calculate_optimal.py')])
p('C23', 'Computed results survive any completion order and any crash',
  'Whatever order solver jobs finish in, every finished result is recorded under its own network and size before more work is awaited, and the database on disk always holds a complete earlier or current state with no finished result of an earlier save lost, even if the process stops at any point of a save.',
  ['schedules', 'crash_points'], 'every completion order of the jobs and every crash point of a save, up to the bound',
  'No test runs the compute mode.',
  ['calculate_optimal.py'], [('optimise', 'calculate_optimal.py:main'), ('save_progress', 'calculate_optimal.py:main')])
p('C24', 'Rendering shows each layout faithfully',
  'For every layout and animation step the renderer draws, upright and at its own grid position, the sprite of each belt, underground belt, splitter half, inserter and assembling machine part in its own orientation and animation frame, structures above belts, and nothing for empty tiles. Tiles and underground overlay lines have the same tint exactly when they carry the same line (grey for none, untinted when colours are hidden); overlay lines lie on exactly the buried tiles, and attribute texts show the named attribute of their tile. '
  'The viewer steps through layouts in the order read, wrapping at the ends, and a saved or exported animation is one file per layout holding all its steps (32 with a splitter, otherwise 16) in order.',
  [I, H], 'every tile kind, animation step, line numbering, underground flags and key sequence within the bounds', 'No test covers rendering.',
  ['render.py', 'tilemaps.py'], [('render_tile', 'render.py'), ('render_solution', 'render.py'), ('create_palette', 'render.py'), ('render_attributes', 'render.py'), ('main', 'render.py'), ('export_video', 'render.py'), ('Tilemap', 'tilemaps.py')])
p('C25', 'Pruning never loses the last layout',
  'Whenever a layout of the requested size, underground length and left-to-right ends exists that realises the network (or is an interchange, power-of-two or network-free balancer of the requested kind), the search still finds one with the pruning the tool always applies, with any single pruning option, with the all-inclusive fast option and in the optimal-size search. A reported "no solution" is therefore not caused by pruning, except that edge options exclude networks in which one splitter joins the outside inputs to the outside outputs.',
  [I], 'every layout of every size in the bound, for each network and option',
  'The suite solves two sizes of two networks with fixed options.',
  ['optimisations.py', 'belt_balancer.py', 'calculate_optimal.py', 'interchange.py', 'belt_balancer_net_free.py', 'belt_balancer_net_free_power_of_2.py'],
  [('enforce_edge_splitters/prevent_double_edge_belts', 'belt_balancer.py'), ('solve_balancer', 'calculate_optimal.py'), ('apply_generic_optimisations', 'optimisations.py'), ('prevent_passing', 'interchange.py')])
p('C26', 'Shipped balancer blueprints are real balancers, and the tool agrees with them',
  'Every blueprint in the shipped books, read with the tool (decoding, unpacking, importing), is the physically valid layout its entities describe, with the labelled numbers of belts entering on the left and leaving on the right and undergrounds within the reach of its tier, and it shares every input evenly between all outputs for all input rates. The network parsed from it is its physical network, the balancer search for that network, size and underground length accepts it as a solution, and exporting it again gives the same entities.',
  [I], 'every input rate and every model of the search, for each shipped blueprint',
  'No test reads the books.',
  ['books', 'blueprint.py', 'blueprint_book.py', 'network.py', 'belt_balancer.py', 'solver.py'],
  [('books/*.txt', 'books'), ('import_blueprint', 'blueprint.py'), ('unpack_book', 'blueprint_book.py'), ('parse_network', 'network.py'), ('create_balancer', 'belt_balancer.py')])
p('C27', 'Generators without a network miss no layout before pruning',
  'Apart from pruning rules, the network-free, power-of-two and interchange generators reject nothing that obeys their own rules: any physically valid layout whose belts can be given whole-unit flows that are conserved, halved at splitters, full at the inputs and equally shared at the outputs, within the capacity of a belt (respectively sets of input pairs that merge disjointly and equally through the required stages, or the two halves of an interchange paired at the outputs), is accepted. Layouts of the first two generators with a splitter whose inputs always carry equal flows, or that does nothing, are left out on purpose.',
  [I, C], 'every layout and flow assignment for the sizes and counts in the bounds, and every variation within a window of known balancers',
  'Tests solve a few sizes; a rule that is too strict usually leaves some solution.',
  ['belt_balancer_net_free.py', 'belt_balancer_net_free_power_of_2.py', 'interchange.py', 'solver.py', 'util.py'],
  [('require_rotational_symmetry', 'interchange.py'), ('create_n_to_n_balancer', 'belt_balancer_net_free.py'), ('create_n_to_m_balancer', 'belt_balancer_net_free.py'), ('setup_balancer_ends', 'belt_balancer_net_free.py'), ('create_balancer', 'belt_balancer_net_free_power_of_2.py'), ('transport_quantity', 'solver.py')])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
