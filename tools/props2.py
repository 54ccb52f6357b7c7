ADT = 'TLA+ specification of the abstract data type + TLC trace validation of operation histories'
p('C12', 'The FIFO queue never loses, duplicates or reorders elements',
  'CQueue behaves as an unbounded first-in first-out queue whatever its initial size and however often it grows or wraps around: dequeue and peek give the oldest element (the default value when empty), the size counts the elements and the traversals visit each element once in order. '
  'The location returned by enqueue keeps holding its element until that element leaves the queue, and retracting by location or by value removes exactly one element and keeps all others, possibly in another order.',
  ['histories', 'configurations'], 'all sequences of operations; all initial sizes >= 0',
  'Diagram compilation only exercises a few fill levels; growth while wrapped needs particular enqueue/dequeue histories.',
  ['src/queue.hpp'], [('CQueue::resize', 'src/queue.hpp'), ('CQueue::enQueue/deQueue', 'src/queue.hpp'), ('CQueue::retract', 'src/queue.hpp')],
  ['CQueue public operations'], 'Fifo.tla; operation histories of the real queue judged by FifoTrace.tla, and the ring buffer of CircQueue.tla shown to refine Fifo by TLC for small capacities', ADT)
p('C13', 'The heap always extracts a best element and keeps its locations valid',
  'Whatever the history of insertions, bulk loading followed by buildHeap, key decreases, removals and extractions, extractMax returns an element of the heap that no other element precedes in the given order, exactly once each. '
  'The location returned by an insertion refers to that element until it leaves the heap, so decrease and remove act on exactly that element and all other elements stay.',
  ['histories', 'configurations'], 'all operation histories; duplicate keys; all initial capacities >= 1; minimum and maximum order',
  'Branch and bound pops in an order that hides a broken sift until the instance has the right shape.',
  ['src/heap.hpp'], [('Heap::heapify/buildHeap', 'src/heap.hpp'), ('Heap::decrease', 'src/heap.hpp'), ('Heap::remove', 'src/heap.hpp'), ('Heap::extractMax', 'src/heap.hpp')],
  ['Heap public operations'], 'PrioQ.tla; operation histories of the real heap judged by PrioQTrace.tla, and BinHeap.tla (sift up and down on arrays) shown to refine PrioQ by TLC', ADT)
p('C14', 'Hash tables find exactly the keys that were inserted',
  'Both hash tables behave as finite maps for every size, hash function and history: a lookup succeeds if and only if an equal key was inserted since the last clear, and yields the value inserted last for it (for LHashtable the node). '
  'Equal keys are one entry even if they were built differently or collide with others, enumeration visits each entry once, the size is the number of entries and clear empties the table for reuse.',
  ['histories', 'inputs', 'configurations'], 'all operation histories; requested sizes from 0 to beyond the largest prime; colliding hash functions; keys with several representations',
  'Tests never look into the tables; collisions and reuse after clear need specific hashes.',
  ['src/hashtable.hpp', 'src/lighthash.hpp', 'src/util.hpp'], [('Hashtable', 'src/hashtable.hpp'), ('LHashtable', 'src/lighthash.hpp')],
  ['Hashtable and LHashtable public operations'], 'Dict.tla; operation histories of both tables judged by DictTrace.tla; HashTab.tla (stamped buckets) refines Dict', ADT)
p('C15', 'Pool memory is aligned, disjoint and released exactly to its mark',
  'Every block obtained from a Pool is aligned to 16 bytes and disjoint from all blocks that are still live, whatever the segment size and block sizes, so that its content stays what was written. '
  'Releasing the pool to a mark frees exactly the blocks allocated after the mark and the memory is used again: the same requests get the same addresses.',
  ['histories', 'inputs'], 'all sequences of allocations, marks and releases; blocks smaller and larger than a segment',
  'Tests allocate far less than one segment; growth past a segment after a release is never reached.',
  ['src/store.cpp', 'src/store.hpp'], [('Pool::allocate', 'src/store.cpp'), ('Pool::mark/clear', 'src/store.hpp')],
  ['addresses and contents of Pool blocks'], 'Arena.tla; allocation histories of the real pool judged by ArenaTrace.tla; SegPool.tla (segments) refines Arena', ADT)
p('C16', 'GNSet computes set algebra exactly, whatever the storage of its operands',
  'GNSet operations (insertion, removal, clear, union, intersection, difference, complement within its words, removeAbove, removeBelow, construction from ranges, lists, NatSet and views, copy, move, filter) give the mathematical result for all values from 0 to 65535, for operands of any and different storage sizes, including an operand used twice. '
  'Iteration is ascending and complete; size, emptiness, membership, minimum, maximum, aggregates and the printed form agree with it. '
  'No operation changes a set other than its target, and a moved-from set is empty and usable.',
  ['inputs', 'histories'], 'all operation histories on several sets; element values across word boundaries; all storage sizes',
  'The unit tests check a dozen fixed sets; word-boundary and aliasing cases are combinatorial.',
  ['src/util.hpp'], [('GNSet', 'src/util.hpp')], ['GNSet public operations'], 'SetAlg.tla; histories on four sets judged after every operation by SetTrace.tla', ADT)
p('C17', 'NatSet computes set algebra exactly, including reflection',
  'NatSet<W> operations (insertion, clear, union, intersection, complement, construction from ranges and lists, copy, move) give the mathematical result for all values from 0 to 64*W-1 and all W. '
  'The reflection o - S is the set of o - x for x in S whenever these fit. '
  'Iteration is ascending and complete; size, emptiness, membership, largest element and printed form agree with it, and no operation changes another set.',
  ['inputs', 'histories', 'configurations'], 'all operation histories; W from 1 to 8; element values across word boundaries; all shifts',
  'Tests cover W = 2 with fixed shifts.',
  ['src/util.hpp'], [('NatSet', 'src/util.hpp'), ('operator-(int,NatSet)', 'src/util.hpp')], ['NatSet public operations'], 'SetAlg.tla; histories on four sets judged after every operation by SetTrace.tla', ADT)
p('C18', 'Equality is content equality and equal values have equal hashes',
  'Two GNSets, NatSets, FArrays or std::sets are equal if and only if they have the same elements, whatever their capacity and history, and != is the negation. '
  'Whenever two GNSets, NatSets, std::sets, FArrays or std::vectors are equal, std::hash gives the same value for both; a copy is equal to its original. ',
  ['inputs', 'histories'], 'all pairs of values produced by operation histories',
  'A state of a model that is equal but hashed differently silently duplicates nodes; tests compare fixed values.',
  ['src/util.hpp'], [('operator== of GNSet/NatSet/FArray', 'src/util.hpp'), ('std::hash specialisations', 'src/util.hpp')], ['== and std::hash'],
  'eq requirements of SetTrace.tla, ArrayTrace.tla and DictTrace.tla on histories of the real types', ADT)
p('C19', 'Sorting permutes and orders; node lists keep exactly their nodes',
  'mergeSort leaves the n given elements in the order of the comparison, each exactly once, and touches nothing else, for all n. '
  'NDArray and ANList contain exactly the nodes pushed and not removed, in insertion order (or sorted order after sort), through any mixture of push, erase, pop, suffix erasure and clear; iteration visits each once and the size is right.',
  ['inputs', 'histories'], 'all arrays with duplicates and any length; all operation histories',
  'Only layers of a few nodes are sorted in the tests.',
  ['src/msort.hpp', 'src/node.hpp'], [('mergeSort', 'src/msort.hpp'), ('NDArray', 'src/node.hpp'), ('ANList', 'src/node.hpp')], ['mergeSort, NDArray and ANList operations'],
  'SortTrace.tla, NodeSeq.tla/NodeSeqTrace.tla on real operation histories', ADT)
p('C20', 'Pool vectors keep their elements through growth, removal and moves',
  'Vec keeps its elements and their positions through growth and shrinking: push_back appends and returns the position, pop_back returns the last element, at/get/[] access the given position, remove puts the last element in the hole and announces it to the callback. '
  'Copies (also onto another pool) are independent, a move transfers the content and leaves the source empty and usable.',
  ['histories', 'configurations'], 'all operation histories on several vectors; initial capacities from 0; different element and size types',
  'Vectors of arcs in the tests seldom grow past their initial capacity and are never moved.',
  ['src/vec.hpp'], [('Vec::push_back', 'src/vec.hpp'), ('Vec::remove', 'src/vec.hpp'), ('Vec::operator=', 'src/vec.hpp')], ['Vec public operations'],
  'Vector.tla; histories judged by VectorTrace.tla', ADT)
p('C21', 'Union-find represents exactly the merged classes',
  'Two elements have the same representative if and only if they were connected by merges, the representative is a member of the class, and merge returns the representative of the merged class. '
  'Lookups never change the partition.',
  ['histories'], 'all sequences of makeSet, merge and setFor, including merging an element with itself or within a class',
  'Used in one example only.',
  ['src/uf.hpp'], [('UnionFind::merge', 'src/uf.hpp'), ('UnionFind::setFor', 'src/uf.hpp')], ['UnionFind operations'],
  'Partition.tla; histories judged by PartitionTrace.tla', ADT)
p('C22', 'Arrays and matrices are values with independent cells',
  'FArray has value semantics: filled, copied and assigned arrays have the given content and size, writing one never changes another, and a moved-from array is empty. '
  'In Matrix and FMatrix of any arity and dimensions each index tuple names its own cell: a cell reads what was last written to it and no write affects another cell or a copy; the printed form lists each cell once with its value.',
  ['inputs', 'histories'], 'all dimensions (arity 2 to 4), all index tuples, all operation histories',
  'Tests index square matrices.',
  ['src/util.hpp'], [('FArray', 'src/util.hpp'), ('FMatrix/Matrix', 'src/util.hpp')], ['FArray, FMatrix and Matrix operations'],
  'ArrayTrace.tla and MatrixTrace.tla on real operation histories', ADT)
p('C23', 'Ranges and set helpers agree with their enumeration',
  'A Range (open, closed, increasing-only, forward or backward; flip of a forward range) enumerates exactly the integers its constructor promises in the right direction; size and contains agree with the enumeration and largest is an upper bound. '
  'The helpers on std::set (union, intersection, remove, filter, member, foldl, min, max, sum, printing) compute the mathematical result, and the bit reversal functions reverse all bits.',
  ['inputs'], 'all pairs of bounds, negative and crossing; all sets; all words',
  'Tests use a few increasing ranges.',
  ['src/util.hpp'], [('Range', 'src/util.hpp'), ('std::set operators', 'src/util.hpp'), ('revBitsOfWord/Long/Byte', 'src/util.hpp')], ['Range and helper functions'],
  'RangeTrace.tla and SetTrace.tla on real calls', ADT)
p('C24', 'Memory is touched only by its owner and given back',
  'For every history of the public operations the library reads and writes only memory that it has allocated and not released (in particular within the blocks it got from a Pool), and components that share a Pool do not disturb each other: each keeps its content, also through releases of the pool to a mark set after the component last grew. '
  'When the objects are gone their memory is back: repeating any use of sets, arrays, vectors, queues, heaps, diagrams or searches does not make the process grow, and neither does compiling again and again on one diagram object.',
  ['histories', 'inputs', 'configurations'], 'all operation histories of the containers, compilations and searches; not: the strategies a user hands to a diagram and keys put into a table on a pool, which the library does not destroy',
  'Reading one word too far or leaking a segment changes no result of a test.',
  ['src/store.cpp', 'src/store.hpp', 'src/dd.hpp', 'src/dd.cpp', 'src/search.cpp', 'src/vec.hpp', 'src/heap.hpp', 'src/queue.hpp', 'src/lighthash.hpp', 'src/hashtable.hpp', 'src/util.hpp', 'src/node.hpp', 'src/msort.hpp'],
  [('Pool', 'src/store.hpp'), ('Vec growth', 'src/vec.hpp'), ('DD::reset', 'src/dd.hpp'), ('BAndB::search', 'src/search.cpp'), ('GNSet storage', 'src/util.hpp')],
  ['memory accesses and allocations of the process', 'contents of components on one pool'],
  'Shared.tla (components on one pool, marks and releases) and PoolVec.tla (growth on a pool, model-checked); Memory.tla: the events of an instrumented build (access outside an owned block, bytes not given back by a repetition) judged by MemTrace.tla on the drivers of all other properties', 'TLA+ specification of ownership on a shared arena + TLC model checking + TLC validation of traces of an instrumented build')
p('C25', 'Progress reports bracket the optimum',
  'Each time the search reports its progress, the primal bound shown is the best value known and, unless that is already the optimum, no solution is better than the dual bound shown: the optimum always lies between the two. '
  'For a positive primal bound the gap shown is the distance of the two bounds in percent of the primal bound. '
  'The number of explored nodes and the time never decrease from one report to the next, and the last line shows the final primal bound.',
  ['inputs', 'configurations'], 'all ' + LAYERED + '; all widths; searches with a given primal bound or a limit',
  'The optimum is right even if nodes are explored in a wrong order; only the bounds a user stops on are not.',
  ['src/search.cpp', 'src/heap.hpp', 'src/dd.hpp'], [('BAndB::search', 'src/search.cpp'), ('Heap::extractMax', 'src/heap.hpp'), ('DD::local', 'src/dd.hpp')],
  ['lines B&B(n) and Done(w) on std::cout'], 'Report action of Search.tla on the lines printed by real searches; BnB.tla: the best bound of the open nodes brackets the optimum (model-checked), that of an arbitrary open node does not', 'TLA+ spec of the search + TLC model checking + TLC trace validation of real searches')
p('C26', 'Drawing or printing a diagram shows exactly its nodes and arcs',
  'display hands the drawing program a picture in which each node of the diagram occurs once, coloured by its exactness and boxed if it is the sink, and each arc once with its label and cost, and nothing else; print writes each arc once. '
  'Neither changes the diagram or leaves a file open, and only the caller goes on after the call, also if the drawing program is not installed.',
  ['inputs', 'configurations'], 'all ' + LAYERED + '; exact, restricted and relaxed diagrams of any width',
  'No test draws anything; the pictures are the only way to look into a diagram.',
  ['src/dd.cpp', 'src/dd.hpp', 'src/node.hpp', 'src/node.cpp', 'src/heap.hpp'], [('AbstractDD::saveGraph', 'src/dd.cpp'), ('AbstractDD::display', 'src/dd.cpp'), ('AbstractDD::print', 'src/dd.cpp')],
  ['the file given to dot', 'the output of print'], 'Draw.tla; pictures of real diagrams, taken by a stand-in for dot, judged by DrawTrace.tla', 'TLA+ specification of pictures + TLC trace validation')
p('C27', 'A search depends only on its model and its options',
  'Two searches with the same model and options report the same solutions in the same order, the same progress (times aside), the same number of nodes and the same final bound, wherever their memory lies and whatever it contained before, in the same process or in another.',
  ['histories', 'configurations'], 'all ' + LAYERED + '; all widths; memory at other addresses and with other content',
  'Memory is zero in a young test process; code that reads what it did not write works there.',
  ['src/search.cpp', 'src/dd.hpp', 'src/dd.cpp', 'src/node.cpp', 'src/heap.hpp', 'src/lighthash.hpp', 'src/queue.hpp', 'src/store.cpp'],
  [('BAndB::search', 'src/search.cpp'), ('ANode constructors', 'src/node.cpp'), ('LHashtable', 'src/lighthash.hpp'), ('Relaxed::computeCutSet', 'src/dd.cpp')],
  ['Bounds::onSolution', 'progress lines', 'Bounds::getPrimal'], 'DetTrace.tla: the runs of one search under different memory contents and addresses are one behaviour', 'TLA+ specification of determinism (self-composition of runs) + TLC trace validation')
