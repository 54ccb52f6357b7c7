#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAYERED = ('layered models (no non-sink state occurs at two depths; the sink may), with a merge operator that is a relaxation, '
           'an admissible local bound and a sound dominance relation where these are given')
P = []
def p(id, title, statement, over, text, why, files, mech, observe, note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, technique=technique))

p('C01', 'Branch and bound terminates with the optimum, or proves infeasibility',
  'For every well-formed model the branch and bound terminates by itself and its final primal bound is the optimal objective value of the model, for minimisation and for maximisation, whatever the width. '
  'If the model has no solution it terminates without reporting one and the primal bound keeps its initial value. '
  'The primal bound that a search without a limit ends with is therefore never worse and never better than the best feasible path.',
  ['inputs', 'configurations'], 'all ' + LAYERED + '; all widths >= 1; both objective directions; real-valued and negative costs',
  'The example programs solve a few fixed instances of structured problems; the losses need particular merge patterns, dead ends or re-reached states.',
  ['src/search.cpp', 'src/dd.hpp', 'src/dd.cpp', 'src/node.cpp', 'src/heap.hpp'],
  [('BAndB::search', 'src/search.cpp'), ('DDNodeAllocator::cloneNode (re-exploration on a better bound)', 'src/dd.hpp'), ('Relaxed::computeCutSet', 'src/dd.cpp'), ('DD::update', 'src/dd.hpp')],
  ['Bounds::getPrimal after BAndB::search'],
  'spec BnB.tla/Search.tla model-checked exhaustively on small models; whole searches of the real engine over random models validated by TLC against Search.tla (optimum from the completion table computed in TLA+)',
  'TLA+ spec of the search + TLC trace validation of real searches')
p('C02', 'Every reported solution is feasible, priced right and strictly improving',
  'Each time the search reports a solution, the reported label sequence is a feasible path of the user\'s model from the root to the sink, the primal bound at that moment equals the cost of exactly that path, and it is strictly better than the primal bound before it. '
  'This includes a primal bound the user set before the search: nothing that does not beat it is ever reported. '
  'When the search returns, the primal bound is the cost of the last reported solution (or its value before the search if none was reported).',
  ['inputs', 'configurations', 'histories'], 'all ' + LAYERED + '; all widths; all initial primal bounds; searches cut short by a limit',
  'Tests compare a final value at most; no test replays the labels of an incumbent in the model.',
  ['src/search.cpp', 'src/dd.hpp', 'src/dd.cpp', 'src/util.hpp'],
  [('DD::update', 'src/dd.hpp'), ('AbstractDD::incumbent', 'src/dd.cpp'), ('Bounds::setPrimal/setIncumbent', 'src/util.hpp'), ('WidthBounded::tighten', 'src/dd.cpp')],
  ['Bounds::onSolution callbacks', 'Bounds::getPrimal'],
  'Improve action of Search.tla: labels replayed through the model in TLA+, cost and strict improvement demanded of every callback of the real engine',
  'TLA+ spec of the incumbent protocol + TLC trace validation')
p('C03', 'Restricted diagrams are feasible under-approximations within their width',
  'Every arc of a restricted diagram is a transition of the model at its cost (or leads to a node that dominates the target), no layer has more nodes than the width, and transitions are left out only when the layer is full or the local bound shows that they cannot improve the primal bound. '
  'Each node carries the value and the labels of its best path, the diagram\'s value is that of its best root-sink path and never better than the optimum of the subproblem, and its best path is a feasible solution of that cost. '
  'The diagram claims to be exact only if nothing was left out, and then its value is the optimum whenever the subproblem can improve the primal bound.',
  ['inputs', 'configurations'], 'all ' + LAYERED + '; all widths >= 1; all primal bounds; the whole problem and every subproblem',
  'No test inspects a diagram; the tests would need every truncation pattern.',
  ['src/dd.cpp', 'src/dd.hpp', 'src/node.cpp', 'src/queue.hpp'],
  [('Restricted::compute', 'src/dd.cpp'), ('Restricted::checkDominance', 'src/dd.cpp'), ('WidthBounded::pullLayer', 'src/dd.cpp'), ('DD::transition', 'src/dd.hpp')],
  ['diagram nodes, arcs, currentOpt, incumbent, isExact'],
  'Diagram.tla: real restricted diagrams (whole problems and cutset subproblems) are replayed layer by layer through the compilation operators',
  'TLA+ spec of diagram compilation + TLC trace validation')
p('C04', 'Relaxed diagrams over-approximate: their value bounds every improving solution',
  'Every transition of the model is represented by an arc of a relaxed diagram at its cost, leading to its target, to a node merged from it, or to a node that dominates it, except transitions the local bound proves useless; so its value is never worse than the best solution of the subproblem that improves the primal bound. '
  'Nodes are merged only when a layer exceeds the width, and no layer exceeds the width unless the user refuses merges. '
  'A node is marked exact only if it was not merged and no ancestor was, and the diagram claims to be exact if and only if all its nodes are, in which case its value and best path are those of an optimal solution.',
  ['inputs', 'configurations'], 'all ' + LAYERED + '; all widths >= 1; all primal bounds; merges that may be refused',
  'No test inspects relaxed diagrams; a bound that is wrong on some merge pattern is only seen as a lost optimum elsewhere.',
  ['src/dd.cpp', 'src/dd.hpp', 'src/node.cpp'],
  [('Relaxed::mergePair', 'src/dd.cpp'), ('Relaxed::mergeOne', 'src/dd.cpp'), ('Relaxed::transferArcs', 'src/dd.cpp'), ('DD::merge', 'src/dd.hpp'), ('DD::makeNode', 'src/dd.hpp')],
  ['diagram nodes, arcs, currentOpt, incumbent, isExact'],
  'Diagram.tla: real relaxed diagrams replayed layer by layer (Represents / ExactArc / RelaxedSound); MCDiagram.tla shows that any diagram built from these rules is sound',
  'TLA+ spec of diagram compilation + TLC trace validation')
p('C05', 'The exact diagram contains all of the model and yields its optimum',
  'The exact diagram has one node for each reachable state and one arc for each transition at its cost, except those that the local bound proves unable to improve the given primal bound. '
  'Each node carries the value and labels of its best path; the diagram\'s value is the optimum of the model and its best path is an optimal solution. '
  'It is marked exact.',
  ['inputs', 'configurations'], 'all ' + LAYERED + '; any number of nodes per layer; all primal bounds',
  'Tests print exact diagrams of two or three small instances.',
  ['src/dd.cpp', 'src/dd.hpp', 'src/queue.hpp', 'src/heap.hpp'],
  [('Exact::compute', 'src/dd.cpp'), ('AbstractDD::computeBest', 'src/dd.cpp'), ('DD::makeNode', 'src/dd.hpp')],
  ['diagram nodes, arcs, currentOpt, incumbent'],
  'Diagram.tla with strategy exact: completeness, values and optimum of real diagrams with up to several hundred nodes per layer',
  'TLA+ spec of diagram compilation + TLC trace validation')
p('C06', 'The cutset loses no improving solution; backward bounds are valid',
  'The cutset of an inexact relaxed diagram consists of distinct exact nodes of the diagram, and every solution of the subproblem that is better than the recorded primal bound is a completion of some cutset node. '
  'The backward value of each node of a relaxed diagram is the value of its best path to the sink in the diagram, and hence never worse than the best completion of that node that can still improve. '
  'The cutset of an exact diagram is empty.',
  ['inputs', 'configurations'], 'all ' + LAYERED + '; all widths >= 1; all primal bounds; the whole problem and every subproblem',
  'The cutset is internal; a lost solution shows only when it was the optimum and no other branch reaches it.',
  ['src/dd.cpp', 'src/node.cpp', 'src/heap.hpp'],
  [('Relaxed::computeCutSet', 'src/dd.cpp'), ('AbstractDD::computeBestBackward', 'src/dd.cpp')],
  ['AbstractDD::computeCutSet', 'ANode::getBackwardBound'],
  'Diagram.tla: Escapes (arcs through which an improving solution leaves the covered part), CutSound, Back and BackSound on real diagrams',
  'TLA+ spec of cutsets and backward bounds + TLC trace validation')
p('C07', 'The optimum does not depend on width, pruning options or representation',
  'Searching the same model with different widths, with or without the local bound, with or without dominance, with a different hash function for its states or with labels given as a set or a range always ends with the same primal bound. ',
  ['configurations', 'inputs'], 'all ' + LAYERED + '; 12 option combinations per model, including hash functions with collisions',
  'Tests run each example with one fixed configuration.',
  ['src/search.cpp', 'src/dd.hpp', 'src/dd.cpp', 'src/lighthash.hpp', 'src/util.hpp'],
  [('DD::transition (local bound pruning)', 'src/dd.hpp'), ('Restricted/Relaxed dominance', 'src/dd.cpp'), ('DD::getLabels', 'src/dd.hpp'), ('LHashtable', 'src/lighthash.hpp')],
  ['Bounds::getPrimal after BAndB::search'],
  'SearchTrace.tla: group of runs on one model must end with one value, the optimum of the completion table',
  'TLA+ spec of the search + TLC trace validation over option groups')
p('C08', 'Diagrams are well-formed: one node per state, mutual arcs, layered',
  'In every compiled diagram distinct nodes of a layer have distinct states, every arc goes from one layer to the next or to the single sink, a node has at most one arc per label, and the arcs listed at their source are exactly those listed at their target. '
  'The root has no parents, and every node is reached from the root.',
  ['inputs', 'configurations'], 'exact, restricted and relaxed diagrams of all ' + LAYERED + '; hash functions with collisions',
  'No test looks at the structure of a diagram.',
  ['src/dd.hpp', 'src/dd.cpp', 'src/node.cpp', 'src/node.hpp', 'src/lighthash.hpp', 'src/vec.hpp'],
  [('AbstractDD::addArc', 'src/node.cpp'), ('ANode::disconnect', 'src/node.cpp'), ('Relaxed::transferArcs', 'src/dd.cpp'), ('LHashtable', 'src/lighthash.hpp')],
  ['ANode::beginKids/beginPar'],
  'well-formedness conjuncts of DiagramTrace.tla on real diagrams',
  'TLA+ spec of diagram structure + TLC trace validation')
p('C09', 'A search cut short by the user\'s limit stops promptly and stays sound',
  'Once the limit predicate has answered that the search should stop, it is not asked again, no further solution is reported and the search returns and reports that it was limited; the primal bound is then the cost of the last reported solution. '
  'The elapsed time passed to the predicate is the time in milliseconds since the search began and never decreases. '
  'If the predicate never says stop, the search proves optimality as without a limit and does not report that it was limited.',
  ['inputs', 'histories'], 'all ' + LAYERED + '; the limit striking at any call of the predicate',
  'No test sets a limit.',
  ['src/search.cpp', 'src/search.hpp', 'src/RuntimeMonitor.cpp'],
  [('BAndB::setTimeLimit', 'src/search.hpp'), ('limit test in BAndB::search', 'src/search.cpp')],
  ['the limit predicate', 'Bounds callbacks', 'the final report'],
  'Stop / FinishStopped actions of Search.tla, traces of searches with a limit at each possible call',
  'TLA+ spec of the anytime protocol + TLC trace validation')
p('C10', 'Diagrams, models and bounds can be reused without interference',
  'Compiling the same subproblem on a diagram that was used for other subproblems before, also with another width or strategy, gives the same nodes, values, exactness, labels and arcs as on a fresh one. '
  'Repeated searches with the same model object end with the same primal bound, and repeating a search with the same bounds object keeps its optimum without reporting a worse or equal solution.',
  ['histories', 'inputs'], 'all ' + LAYERED + '; sequences of compilations and searches on the same objects',
  'Each test program searches once.',
  ['src/dd.hpp', 'src/dd.cpp', 'src/lighthash.hpp', 'src/pool.hpp', 'src/search.cpp', 'src/util.hpp'],
  [('DD::reset', 'src/dd.hpp'), ('DD::makeInitFrom', 'src/dd.hpp'), ('Pool marks', 'src/pool.hpp'), ('LHashtable::clear', 'src/lighthash.hpp')],
  ['diagrams after AbstractDD::apply', 'Bounds after repeated BAndB::search'],
  'Canon comparison in DiagramTrace.tla and grouped runs in SearchTrace.tla',
  'TLA+ spec + TLC trace validation of reuse histories')
p('C11', 'Branch and bound stays complete under every exploration order',
  'Driving the building blocks of the branch and bound (relaxed and restricted compilation of a subproblem, cutset, node pool) with any selection order and any widths keeps the invariant that every solution better than the primal bound lies below an open node or the node in hand. '
  'The node pool gives a copy of a cutset node if and only if its state is new or reached with a strictly better value, and the copy has the same state, value and labels. '
  'When no open node is left, the primal bound is the optimum.',
  ['schedules', 'inputs', 'configurations'], 'all ' + LAYERED + '; arbitrary orders of open nodes; widths changing from node to node',
  'The search has one fixed order (best bound first) and one width; the tests see a handful of instances.',
  ['src/dd.hpp', 'src/dd.cpp', 'src/search.cpp', 'src/lighthash.hpp'],
  [('AbstractDD::apply', 'src/dd.cpp'), ('DDNodeAllocator::cloneNode', 'src/dd.hpp'), ('Relaxed::computeCutSet', 'src/dd.cpp')],
  ['apply / computeCutSet / cloneNode called in arbitrary order'],
  'BnB.tla: invariants Covered and Incumbent on recorded schedules of the real components; MCBnB explores all schedules of small models',
  'TLA+ spec of branch and bound + TLC trace validation, exhaustive model')
exec(open(os.path.join(HERE, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'props2.py')) else None

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'].strip(),
            'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'],
            'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']], 'observe_at': x['observe'], 'hook_needed': None}}) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 bin/check.py --setup',
  'checks': [{'property': x['id'], 'quick_cmd': 'python3 bin/check.py ' + x['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check.py ' + x['id'],
              'evidence_file': 'evidence/%s.json' % x['id'], 'technique': x['technique'], 'level': 'model_checking', 'level_note': x['note']} for x in P],
  'not_applicable': [],
  'notes': 'TLA+ with TLC; see DESIGN.md. No hooks are needed in /repo: everything is observed through the public API.'},
  open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
for x in P: assert len(x['title']) <= 80, x['id']
