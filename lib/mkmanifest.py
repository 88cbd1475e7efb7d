#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (only properties with a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/tdzdd/'


def P(id, title, statement, over, qtext, why, files, mech, tech, note, level='model_checking', observe=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note,
                level=level, observe=observe or [], state=state or [])


SES = ('TLA+ session specification (spec/Session.tla over spec/DD.tla); TLC validates recorded sessions of the real library '
       'step by step: ')
PROPS = [
 P('C01', 'Construction represents exactly the specification',
   'For every top-down specification, the constructed diagram accepts exactly the decision paths whose state sequence ends in the 1-terminal, with every decision at the level where the specification makes it. '
   'Equal states of a level (by the specification\'s own equality) share one node, no node is made for anything but a reachable state, and the reported size, top level and emptiness agree with the graph. '
   'A callback only ever receives a state the specification itself produced, at that state\'s level.',
   ['inputs', 'programs', 'configurations'], 'every arity, state kind (scalar, array, hybrid, class, none), hash quality, level skipping, width, depth; serial and parallel builder',
   'The tests build a few fixed families (combinations, paths, one random generator) and compare cardinalities only; sharing, skipped levels, dead branches, collisions and wide levels are not sampled.',
   [I + 'dd/DdBuilder.hpp', I + 'dd/DdSweeper.hpp', I + 'DdSpec.hpp', I + 'DdStructure.hpp', I + 'dd/NodeTable.hpp'],
   ['unique table per level', 'dead-node sweeping with pending edges', 'spec state copy/hash/equality'],
   SES + 'exhaustive small tables, random and wide/deep tables, every state kind, both builders',
   'bounded: all tables of 6 shapes, sampled above'),
 P('C02', 'Reduction is canonical and meaning-preserving',
   'QDD, BDD and ZDD reduction keep the represented decision paths (QDD), Boolean function (BDD) or family (ZDD), and leave no two identical nodes, no node the rule deletes and no unreachable or dead node. '
   'The outcome does not depend on how the diagram was built, on the number of processors used, or on reductions applied before under the same rule.',
   ['inputs', 'histories', 'configurations'], 'every diagram, arity, rule, order of reductions, serial and parallel algorithm',
   'Tests reduce a handful of diagrams and look at sizes or counts; canonicity is a statement about all pairs of nodes of all diagrams.',
   [I + 'dd/DdReducer.hpp', I + 'DdStructure.hpp'], ['bottom-up node merging (Algorithm R / hash based)', 'deletion rules'],
   SES + 'canonical form computed by the specification vs the reduced diagram, node for node', 'bounded as C01'),
 P('C03', 'Equality decides equality of decision trees',
   'Two diagrams compare equal exactly when they have the same decision tree: same root level and, following the same decisions, the same levels and terminals. '
   'Equality is symmetric, reflexive, the complement of inequality and changes neither operand; in particular, diagrams reduced under the same rule are equal exactly when they represent the same object.',
   ['inputs', 'histories'], 'every pair of diagrams, reduced or not, built separately or shared',
   'No test compares diagrams that differ in one deep edge, or unreduced ones with duplicated nodes.',
   [I + 'DdStructure.hpp', I + 'util/MyHashTable.hpp'], ['level-wise node matching'],
   SES + 'bisimulation computed by the specification vs operator==', 'bounded as C01'),
 P('C04', 'Subsetting keeps exactly the common members',
   'After subsetting a ZDD by a specification (or by another diagram), the ZDD contains exactly the members it had before that the specification also accepts, variables not mentioned by either counting as absent. '
   'This holds for repeated subsettings, for any difference in height, for the serial and the parallel algorithm, and never alters other diagrams.',
   ['inputs', 'histories', 'configurations'], 'every diagram x specification, height difference, state kind, chain of subsettings, serial/parallel',
   'Tests subset only by one or two built-in constraints; level skipping on either side and terminal operands are not sampled.',
   [I + 'dd/DdBuilder.hpp', I + 'DdStructure.hpp'], ['product of node table and spec state', 'downTable/downSpec skipping'],
   SES + 'set intersection of denotations (product construction when large)', 'bounded as C01'),
 P('C05', 'Combined specifications mean and/or/intersection/union',
   'Diagrams built from combined specifications represent conjunction or disjunction of the operands\' Boolean functions (BDD view) and intersection or union of their families (ZDD view), for two or more operands of any kind, including diagrams as operands. '
   'Operands are left unchanged.',
   ['inputs', 'programs'], 'every pair/triple/quadruple of specifications of mixed kinds and heights',
   'The operators have no test of their own.',
   [I + 'op/BinaryOperation.hpp', I + 'DdSpecOp.hpp'], ['paired states with level bookkeeping'],
   SES + 'set operations on denotations', 'bounded as C01'),
 P('C06', 'Lookahead, unreduction and BDD/ZDD conversion keep meaning',
   'Lookahead specifications represent the same object and produce no node that the one-step rule makes redundant; unreduced diagrams represent the same object and visit every level; '
   'BDD-to-ZDD and ZDD-to-BDD conversion yield a diagram whose meaning under the other convention is that of the original over the given number of variables.',
   ['inputs', 'programs'], 'every specification or diagram, arity, number of variables at or above the top level',
   'Only size constraints and a random family are exercised by tests.',
   [I + 'op/Lookahead.hpp', I + 'op/Unreduction.hpp', I + 'DdStructure.hpp'], ['state skipping', 'level padding'],
   SES + 'denotations under both conventions', 'bounded as C01'),
 P('C07', 'Bottom-up evaluation visits each node once with its children',
   'Evaluating a diagram initialises the evaluator with the top level, evaluates every node exactly once after all its children and with exactly its children\'s values and levels, and returns the value at the root. '
   'Values stay available as long as any node still needs them, a level is announced as finished only afterwards (and then to every evaluator object that computed values of it), and an evaluator that is not declared thread-safe is used by a single thread.',
   ['inputs', 'schedules', 'configurations'], 'every diagram, arity, evaluator kind, thread count',
   'Tests evaluate cardinalities only; call order, early disposal and level arguments are not observable there.',
   [I + 'DdStructure.hpp', I + 'DdEval.hpp'], ['value tables per level', 'level disposal schedule'],
   SES + 'the recorded call log must itself be the diagram', 'bounded as C01; thread interleavings sampled'),
 P('C08', 'Cardinalities are exact at any size',
   'ZDD cardinality is the exact number of members and BDD cardinality the exact number of satisfying assignments of the given number of variables, in full decimal, for results of any magnitude and any arity. '
   'The numeric variants agree with the exact one whenever the result fits.',
   ['inputs', 'configurations'], 'every diagram, arity, number of variables at or above the top level',
   'Tests check a few counts that mostly fit machine words.',
   [I + 'eval/Cardinality.hpp', I + 'DdStructure.hpp', I + 'util/BigNumber.hpp'], ['shifted big-number sums', 'level-skip scaling'],
   SES + 'counts recomputed in TLA+ multi-digit arithmetic', 'bounded: counts up to about 10^400'),
 P('C09', 'Iteration yields every member exactly once',
   'Iterating over a binary diagram yields exactly the members of the family it represents, each once, each as the exact set of levels, and then equals the end iterator. Two iterators over the same diagram are equal exactly when they denote the same position; copies denote the same position and advance independently.',
   ['inputs', 'histories'], 'every binary diagram, reduced or not',
   'Tests iterate over no diagram with dead branches, skipped levels or terminal roots.',
   [I + 'DdStructure.hpp'], ['depth-first path stack'],
   SES + 'enumerated sets vs denotation', 'bounded as C01'),
 P('C10', 'Parallel algorithms agree with serial ones on every schedule',
   'Construction, subsetting, reduction and evaluation with multiple processors give the same family, the same sharing and the same reduced diagram as the serial algorithms, for every number of threads and every interleaving of their work.',
   ['schedules', 'inputs', 'configurations'], 'every thread count and interleaving of task execution',
   'Tests run one machine-dependent schedule and compare counts.',
   [I + 'dd/DdBuilder.hpp', I + 'dd/DdReducer.hpp', I + 'dd/DdSweeper.hpp', I + 'DdStructure.hpp'], ['per-thread tables', 'task partitioning and merging', 'parallel index construction'],
   'TLA+ model of the partition/merge algorithm (spec/MpBuild.tla) checked exhaustively; schedules imposed on the real code by a deterministic OpenMP runtime; sessions validated by Session.tla',
   'bounded thread counts and schedules'),
 P('C11', 'Diagrams are independent values',
   'Copying, assigning (including to itself), swapping and destroying diagrams behaves as for values: no operation on one diagram changes what any other shows, in any history of operations, and all memory is released with the last diagram that uses it.',
   ['histories'], 'every history of copy, assign, swap, destroy, reduce, subset, rebuild over several handles',
   'Tests rarely hold two handles to the same diagram while one of them changes.',
   [I + 'dd/NodeTable.hpp', I + 'DdStructure.hpp'], ['reference counting', 'copy on write'],
   'TLA+ model of sharing (spec/Handles.tla) checked exhaustively; its histories are replayed into the library and validated by Session.tla', 'all histories of length 3 over 3 handles, sampled beyond'),
]

# properties whose checks arrived later are appended by the modules below
from props2 import more  # noqa: E402
PROPS += more(P, SES, I)
PROPS.sort(key=lambda p: p['id'])


def main():
    claimed = [p for p in PROPS if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py'))]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in claimed:
            a = {'files': p['files'], 'mechanism': [{'name': x, 'where': p['files'][0]} for x in p['mech']], 'hook_needed': None}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 bin/setup',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 bin/check %s quick' % p['id'],
                     'thorough_cmd': 'python3 bin/check %s thorough' % p['id'],
                     'technique': p['tech'], 'level': p['level'], 'level_note': p['note']} for p in claimed],
         'not_applicable': []}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(claimed), 'claimed')


if __name__ == '__main__':
    main()
