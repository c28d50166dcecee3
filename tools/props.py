"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


prop('C01', 'Evidence is never counted twice',
     'Whenever two pieces of knowledge are combined into one truth value (revision, temporal induction and intersection, declarative two-premise inference, prediction), '
     'the reasoner has first established that their recorded evidential bases share no input. Knowledge with overlapping evidence is left uncombined, and the overlap '
     'test itself reports any input that both recorded bases contain.',
     ['inputs', 'histories'], 'all input histories, all pairs of beliefs/events/links that inference brings together',
     'whether two premises overlap depends on the derivation history; the example files exercise a handful of derivations and look only at answers',
     ['src/Cycle.c', 'src/Inference.c', 'src/Table.c', 'src/Decision.c', 'src/Stamp.c'],
     [('overlap tests before combination', 'src/Cycle.c, src/Inference.c, src/Decision.c'), ('stamp comparison', 'src/Stamp.c')])

prop('C02', 'Conclusions carry the evidential base of all their premises',
     'Every input receives an evidence id that no earlier input since the last reset had, and every derived, revised or predicted piece of knowledge is stored and passed on '
     'together with an evidential base that merges the bases of all premises its truth value was computed from. Merging two evidential bases keeps entries of both, '
     'alternating between them, up to the fixed maximum length. Explicitly supplied evidential bases are taken as given; the negative evidence '
     'reserved for an expected but not yet observed outcome deliberately carries none.',
     ['inputs', 'histories'], 'all derivations and input histories',
     'a lost or swapped evidential base shows only when the conclusion later meets one of its own premises again',
     ['src/Inference.c', 'src/Event.c', 'src/Stamp.c', 'src/Cycle.c', 'src/Decision.c', 'src/Memory.c', 'src/NAL.c'],
     [('stamp merging', 'src/Stamp.c'), ('input ids', 'src/Event.c'), ('truth/stamp pairs built by inference', 'src/Inference.c')])

prop('C03', 'Truth values stay in range',
     'Every truth value the reasoner computes from valid inputs has a frequency in [0,1] and a confidence in [0, maximum confidence], the maximum being below 1, so no '
     'amount of evidence makes a belief certain. Truth values and confidence settings a user supplies outside the valid range are rejected or brought into range, not taken over as they are.',
     ['inputs', 'histories'], 'all truth values that satisfy the range as arguments of all truth functions; all input sentences',
     'range violations need particular operand values; assertions only sample the values that occur in the example runs',
     ['src/Truth.c', 'src/Inference.c', 'src/Narsese.c'],
     [('confidence cap', 'src/Truth.c (w2c, revision)'), ('input parsing', 'src/Narsese.c')])

prop('C04', 'Truth functions compute the NAL formulas',
     'Each truth function (revision, deduction, abduction, induction, intersection, union, comparison, analogy, resemblance, exemplification, difference, conversion, '
     'negation, the decomposition functions, projection, eternalization, expectation) returns for all operands the value its Non-Axiomatic Logic definition prescribes. '
     'The conversion between evidence weight and confidence is the inverse pair w/(w+k) and k*c/(1-c), with k the configured evidential horizon.',
     ['inputs'], 'all operand values (frequencies in [0,1], confidences in (0,1))',
     'the tests evaluate a few of these functions at a few points',
     ['src/Truth.c', 'src/Truth.h'], [('truth functions', 'src/Truth.c')])

prop('C05', 'The inference rule table contains only valid NAL rules',
     'Every declarative rule in the generated rule table draws a conclusion whose terms all occur in its premises and assigns it the truth function that term logic licenses for that arrangement '
     'of copulas and shared terms (for instance deduction only along a chain of inheritance or implication, induction and abduction only through a shared subject or '
     'predicate, symmetric copulas only from symmetric truth functions). The premise whose truth is the first argument is the one the rule means, also where the rule is applied '
     'with its premises swapped.',
     ['programs', 'inputs'], 'all rule schemas of the table, all terms matching them',
     'most rules are never triggered by the example files, and an invalid conclusion is just one more belief there',
     ['src/NAL.h', 'src/NAL.c'], [('rule schemas', 'src/NAL.h'), ('rule table generator', 'src/NAL.c')])

prop('C06', 'Memory use is bounded by the compile-time configuration',
     'However long the reasoner runs and whatever it is fed, it allocates no memory dynamically, recurses only along the fixed-size term structure or for the feedback of an executed operation, and every fixed-capacity '
     'container (priority queues, implication tables, chain and concept stacks, occurrence-time buffer, atom table, evidential bases, selections) is only written at positions below its '
     'capacity, a full container evicting, refusing or stopping with a diagnostic.',
     ['inputs', 'histories', 'configurations'], 'all input streams of any length',
     'the capacities are rarely reached in the example runs, and never all of them',
     ['src/PriorityQueue.c', 'src/Table.c', 'src/Stack.c', 'src/HashTable.c', 'src/InvertedAtomIndex.c', 'src/OccurrenceTimeIndex.c', 'src/Memory.c', 'src/Cycle.c', 'src/Narsese.c', 'src/Stamp.c', 'src/Config.h'],
     [('capacity guards', 'the container modules')])

prop('C07', 'Concept indices agree with the concepts in memory',
     'A lookup by term finds a concept exactly if that term is conceptualized at the moment: creating a concept enters it in the term lookup and in the index of each of its atoms, and evicting a '
     'concept removes it from both before its slot is reused. No concept appears twice for one term, and every concept gets an id no earlier concept since the reset had.',
     ['inputs', 'histories'], 'all sequences of concept creations and evictions',
     'evictions begin only once the concept memory is full, which no example run reaches',
     ['src/Memory.c', 'src/HashTable.c', 'src/InvertedAtomIndex.c'],
     [('conceptualization and eviction', 'src/Memory.c'), ('hash chains', 'src/HashTable.c'), ('atom chains', 'src/InvertedAtomIndex.c')],
     [('HTconcepts', 'term to concept', 'src/Memory.c'), ('invertedAtomIndex', 'atom to concepts', 'src/InvertedAtomIndex.c')])

prop('C08', 'Links to evicted concepts are never followed',
     'A stored link from a consequence to its precondition concept is used for inference, decision or prediction only after checking that the slot it points to still holds the concept it was '
     'created for; stale links are removed or skipped. Conclusions drawn about a concept that was replaced meanwhile are discarded.',
     ['histories'], 'all interleavings of link creation, concept eviction and link use',
     'needs a full concept memory and a link whose source was evicted; example runs evict nothing',
     ['src/Memory.c', 'src/Cycle.c', 'src/Decision.c', 'src/NAL.c'],
     [('link validity test', 'src/Memory.c'), ('removal of stale links', 'src/Cycle.c, src/Decision.c')])

prop('C09', 'Cached term hashes always match the term',
     'The hash a term carries as cached is always the hash of its current structure: any change to the atoms of a term invalidates or precedes the caching. Equal terms therefore always '
     'compare equal, hash equally, and find the same concept.',
     ['inputs', 'histories'], 'all sequences of term constructions, substitutions and rewrites',
     'a stale hash shows only if a term is altered after having been hashed and is then looked up',
     ['src/Term.c', 'src/Variable.c', 'src/Narsese.c', 'src/NAL.c', 'src/Cycle.c', 'src/Inference.c', 'src/Decision.c'],
     [('hash caching', 'src/Term.c')])

prop('C10', 'Failed unifications, substitutions and term constructions are never used',
     'When unifying two terms, applying a substitution, writing a subterm into a term or building a compound fails (including by exceeding the maximum term size), the outcome is '
     'discarded: no conclusion, event, goal, decision or answer is made from a failed or incomplete term.',
     ['inputs', 'histories'], 'all terms, including those at the size limit',
     'size-limit failures need terms near the limit in exactly the right place; example inputs are small',
     ['src/Term.c', 'src/Variable.c', 'src/NAL.c', 'src/Cycle.c', 'src/Decision.c', 'src/Inference.c', 'src/Memory.c', 'src/NAR.c'],
     [('success flags', 'src/Term.h, src/Variable.h, src/Narsese.h'), ('tests of the flags', 'callers')])

prop('C11', 'A reset leaves nothing of the previous session behind',
     'After a reset the reasoner behaves as a freshly started one: all concepts, events, indices, operations, term names, counters (time, evidence ids, concept ids) and statistics that influence '
     'behaviour or output are back to their start values. Only parameters a user set explicitly (such as motor babbling or volume) and the position of the random generator persist.',
     ['histories'], 'all histories before the reset',
     'tests reset between unrelated examples and do not compare with a fresh process; leftovers show only in specific follow-up inputs',
     ['src/NAR.c', 'src/Memory.c', 'src/Cycle.c', 'src/Event.c', 'src/Narsese.c', 'src/Shell.c', 'src/Stats.c', 'src/OccurrenceTimeIndex.c', 'src/InvertedAtomIndex.c'],
     [('initialization on reset', 'src/NAR.c')])

prop('C12', 'No input text can corrupt memory',
     'Whatever text arrives through the shell, the network or the programming interface, reading it never writes or reads outside a buffer, dereferences a null pointer, uses uninitialized data, or indexes with a '
     'number from the input that has not been range-checked. Malformed or oversized input is rejected or ends with a diagnostic.',
     ['inputs'], 'all byte strings as input lines',
     'tests feed well-formed input; buffer limits need crafted lengths and malformed punctuation',
     ['src/Narsese.c', 'src/Shell.c', 'src/NAR.c', 'src/NetworkNAR/UDP.c', 'src/NetworkNAR/UDPNAR.c', 'src/main.c'],
     [('length checks', 'src/Narsese.c'), ('shell command parsing', 'src/Shell.c')])

prop('C13', 'The term encoding is the same for reading and writing',
     'Every connector and copula the input language can express is encoded by one unique internal symbol, no two notations of different connectives collide, operand roles (infix position, negation, sets, images, variables) are recognised consistently, and '
     'printing an encoded term uses the notation that parses back to the same term.',
     ['inputs'], 'all terms of the input language',
     'tests do not print and reparse; an inconsistency between the two tables shows only for the affected connector',
     ['src/Narsese.c', 'src/Narsese.h'], [('copula tables', 'src/Narsese.c'), ('symbol constants', 'src/Narsese.h')])

prop('C14', 'Variables are bound consistently and only where allowed',
     'Unification binds a variable to at most one term, only binds variables of the pattern kinds it was asked for (independent, dependent, query), never lets a variable occur inside its own binding by '
     'mixing up the two terms, and a substitution replaces every occurrence of a bound variable by exactly its binding. Introducing variables replaces all occurrences of a shared atom by the same fresh variable, leaving others alone.',
     ['inputs'], 'all pairs of terms',
     'needs repeated variables and mixed variable kinds in particular positions',
     ['src/Variable.c', 'src/Variable.h'], [('unification and substitution', 'src/Variable.c')])

prop('C15', 'Operations are executed only by a sufficiently supported decision',
     'Outside explicit motor babbling, an operation is executed only if the reasoner found a decision whose estimated desire reaches the decision threshold, the best candidate is the one executed, at most one decision is executed per '
     'goal-processing step, and a suggestion limited by the remembered negative outcome is dropped. Each executed operation is registered and reported back as an input event.',
     ['inputs', 'histories'], 'all goals and knowledge states',
     'tests check that some operation is executed, not that none is executed without support',
     ['src/Decision.c', 'src/Cycle.c'], [('decision threshold', 'src/Decision.c'), ('execution and feedback', 'src/Decision.c')])

prop('C16', 'Only admissible knowledge enters memory',
     'A derived belief, event or goal is admitted only if its confidence reaches the configured minimum, its priority is above the configured minimum, its term is well-formed (no atomic statement on one side repeated on the other, '
     'no nested or ill-typed implication, no unbound or misplaced variables), and it is not already present; goals are never eternal.',
     ['inputs', 'histories'], 'all derivations',
     'tests look for wanted conclusions only',
     ['src/Memory.c', 'src/NAL.c', 'src/Cycle.c'], [('admission filters', 'src/NAL.c, src/Memory.c')])

prop('C17', 'Temporal relations respect the order of events',
     'A temporal implication is learned only from a precondition that occurred no later than its consequence; its recorded time distance is the difference of their occurrence times, and it is used with that sign: predictions lie that far '
     'after the precondition; revised distances are averaged by their amounts of evidence. Truth of events is projected to the time they are compared at before they are combined, and eternal beliefs are not projected.',
     ['inputs', 'histories'], 'all event sequences and timings',
     'swapped or unprojected times only change truth values and occurrence times slightly',
     ['src/Inference.c', 'src/Cycle.c', 'src/Decision.c'], [('projection', 'src/Inference.c, src/Truth.c'), ('order test in temporal induction', 'src/Cycle.c')])

prop('C18', 'The same input always gives the same output',
     'Apart from explicitly reading the clock for pacing or statistics, the reasoner uses no source of nondeterminism: random choices come only from its own generator, whose position nothing else touches and which is seeded with a fixed number at program start, and neither memory addresses, '
     'uninitialized memory, wall-clock time nor environment influence what is derived, decided or printed.',
     ['inputs', 'schedules', 'configurations'], 'all inputs, all runs and machines',
     'one run per test; differences would need repeated runs under different address layouts',
     ['src/Globals.c', 'src/Cycle.c', 'src/Decision.c', 'src/NAR.c', 'src/HashTable.c', 'src/Term.c'], [('seeded generator', 'src/Globals.c')])

prop('C19', 'The network node never runs the reasoner from two threads at once',
     'In the UDP node the receiving thread and the reasoning thread touch the reasoner only while holding the same lock, every lock is released on every path, and what a thread is given at start stays valid '
     'for as long as the thread runs; stopping waits for both threads.',
     ['schedules'], 'all interleavings of the two threads',
     'no test covers concurrent input; races need specific timing',
     ['src/NetworkNAR/UDPNAR.c', 'src/NetworkNAR/UDP.c'], [('lock around input and cycles', 'src/NetworkNAR/UDPNAR.c')])

prop('C20', 'Every configured operation, table and slot is treated alike',
     'Sweeps over the registered operations, over the per-operation link tables of a concept, over selected events, table entries and index chains, and scans over the positions of a term, visit every element from the first to the last used one. No operation, table or entry is left out because of '
     'its position, also not the last one.',
     ['histories', 'configurations'], 'all operation ids from the first to the last, all fill levels',
     'tests use few operations and small tables',
     ['src/Cycle.c', 'src/Decision.c', 'src/Memory.c', 'src/NAR.c', 'src/Shell.c', 'src/Table.c'], [('loop bounds', 'throughout')])

prop('C21', 'When capacity runs out the least valuable item goes',
     'A bounded queue keeps its heap order under every operation, hands out items from the high end, evicts from the low end, and accepts a new item into a full queue only if it is worth no less than the least valuable one it displaces. '
     'A full link table keeps its entries sorted by truth expectation and drops the weakest.',
     ['inputs', 'histories'], 'all sequences of pushes, pops and rebuilds, all priorities',
     'the unit test covers one sequence of pushes and pops',
     ['src/PriorityQueue.c', 'src/Table.c'], [('min-max heap', 'src/PriorityQueue.c'), ('sorted insertion', 'src/Table.c')])

prop('C22', 'Asking questions does not change what is believed',
     'Processing a question creates no belief, goal or link and changes no truth value; it only reads concepts and prints. Parsing text alone or printing never changes concepts, events or links either.',
     ['inputs', 'histories'], 'all questions at all times',
     'tests do not compare memory before and after a question',
     ['src/NAR.c', 'src/Narsese.c', 'src/Shell.c'], [('question handling', 'src/NAR.c')])

prop('C23', 'Weaker knowledge never replaces stronger knowledge',
     'When knowledge about the same statement arrives that cannot be merged by revision, the reasoner keeps the one with the higher confidence for the time in question; revised knowledge replaces the old only if it is more confident. '
     'An occurrence selected for processing becomes the current one only if that place is empty or it is newer than the one there.',
     ['inputs', 'histories'], 'all sequences of events and beliefs on the same statement',
     'needs overlapping evidence in a particular order',
     ['src/Inference.c', 'src/Memory.c'], [('revision and choice', 'src/Inference.c')])

prop('C24', 'Past, present and predicted knowledge are kept apart',
     'Eternal beliefs, observed events and predicted events about a statement are held in separate places: an input or observation never lands among predictions, a prediction never among observations or eternal beliefs, '
     'and only goals are stored as goals. Events wait for processing in the queue of their kind, and are processed as that kind.',
     ['inputs', 'histories'], 'all inputs and derivations',
     'tests look at answers only, which mix the three',
     ['src/Memory.c', 'src/Cycle.c', 'src/Decision.c', 'src/NAR.c'], [('slot selection', 'src/Memory.c')])

prop('C25', 'Questions are answered with the best matching knowledge',
     'Among all concepts and links that unify with a question, the answer printed is the one with the highest truth expectation (or confidence, for questions without variables) at the time asked for, past questions are answered from observed events, '
     'future ones from predictions, eternal ones from eternal beliefs; if nothing matches, the answer is none.',
     ['inputs', 'histories'], 'all questions and knowledge states',
     'tests ask questions with one candidate answer',
     ['src/NAR.c'], [('answer search', 'src/NAR.c')])

prop('C26', 'Procedure learning converges to rewarding behaviour',
     'Given consistent feedback, the success ratio of the reasoner in a sensorimotor task (pong, alien, cartpole, grid world) rises and stays above that of random behaviour.',
     ['histories'], 'all environment histories with consistent feedback',
     'a stochastic long-run quantity; the examples run one seed',
     ['src/Decision.c', 'src/Cycle.c'], [('decision making', 'src/Decision.c')])

prop('C27', 'A cycle finishes within bounded time',
     'One reasoning cycle takes time bounded by the configuration, whatever the memory contains.',
     ['inputs', 'histories'], 'all memory contents',
     'timing of worst-case contents is never measured',
     ['src/Cycle.c'], [('bounded selections', 'src/Cycle.c')])

prop('C28', 'English and Python front ends translate faithfully',
     'The statements the natural-language and Python front ends send to the reasoner mean what the user wrote.',
     ['inputs'], 'all sentences',
     'no reference semantics for English input',
     ['english_to_narsese.py', 'misc/Python'], [('translation', 'english_to_narsese.py')])


def write():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')


if __name__ == '__main__':
    write()
    print(len(P), 'properties')
