def P(id, title, statement, over, text, why, files, mech, note, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state], mechanism=[dict(zip(('name', 'where'), m)) for m in mech], observe_at=list(observe)), note=note)
PROPS = []
NA = {}
def add(*a, **k): PROPS.append(P(*a, **k))
UNB = 'Proof for every input (unbounded lengths, inferred inductive loop invariants). '
BASE = 'Trusts the verifier (vc/), clang 18, z3; integers are exact machine integers, floating point is treated as reals; single-threaded.'
add('C03', 'Hierarchical ids: equality and ordering are exact and total',
  'Two hierarchical ids compare equal exactly when they are the same sequence of indices, and "less than" is the strict lexicographic total order consistent with that equality. Copying or assigning an id yields an equal id. Every keyed lookup (records, subscriptions, caches, forest tables) relies on this.',
  ['inputs'], 'all pairs and triples of ids, of any length and content',
  'Tests compare a few literal ids; a comparison that is wrong for one length combination or one sign of an index breaks keyed containers only for those ids.',
  ['DMI/src/HIID.cc', 'DMI/src/HIID.h', 'DMI/src/AtomicID.h'], [('HIID::operator==', 'DMI/src/HIID.cc'), ('HIID::operator<', 'DMI/src/HIID.cc'), ('HIID copy constructor and assignment', 'DMI/src/HIID.h')],
  UNB + BASE, observe=['comparison results', 'order of keys in maps'])
add('C04', 'Hierarchical ids: wildcard matching and subset semantics',
  'Matching two ids follows the documented wildcard rules ("?" matches one index, "*" matches the rest) for every pair of ids and is symmetric. When one id is declared a subset of another, every concrete id that matches the first also matches the second; "prefixed by" holds exactly for prefixes.',
  ['inputs'], 'all pairs (triples) of ids of any length, with wildcards at any position',
  'The tests exercise a handful of literal patterns; the position of wildcards and the relation of the two lengths are quantified over.',
  ['DMI/src/HIID.cc', 'DMI/src/HIID.h', 'DMI/src/AtomicID.h'], [('HIID::matches', 'DMI/src/HIID.cc'), ('HIID::subsetOf', 'DMI/src/HIID.cc'), ('HIID::prefixedBy', 'DMI/src/HIID.h'), ('AtomicID::matches', 'DMI/src/AtomicID.h')],
  UNB + BASE, observe=['message routing, subscription and state-dependency decisions'])
add('C05', 'Hierarchical ids: structural edits and packing lose nothing',
  'Concatenation, sub-id extraction, removal or insertion of leading indices, splitting at a slash and popping of index elements produce exactly the sequence they promise and leave the rest of the id unchanged. Packing an id into a block and unpacking it gives back the same id with exact size accounting.',
  ['inputs'], 'all ids of any length and content, all positions and counts (including negative positions)',
  'Tests build short literal ids; off-by-one and byte/element confusions show only for particular lengths and capacities.',
  ['DMI/src/HIID.cc', 'DMI/src/HIID.h'], [('HIID::add/subId/pop_front/push_front/splitAtSlash', 'DMI/src/HIID.h'), ('HIID::pack/unpack', 'DMI/src/HIID.cc')],
  UNB + BASE, observe=['id contents after the operation', 'packed block'])
add('C06', 'Message subscriptions: exactly the subscribed messages are selected, also after merging and on the wire',
  'A list of subscriptions selects a message exactly when one of its entries matches both the id and the sender of the message. Adding a subscription (or merging a list) makes the list select exactly what it selected before plus the new subscriptions, removing an id removes exactly the entries for subsets of that id and keeps all others, and a cleared list selects nothing. The packed form has exactly the announced size, unpacking it gives the same entries in place of the old ones, blocks that are too small or inconsistent are rejected, and nothing outside the block is touched. An address is its four parts: class, instance, process and host.',
  ['inputs'], 'all ids and relations between them (abstract, by contract) for lists of up to 3 entries; all contents of packed ids for up to 2 entries',
  'Tests subscribe to a few literal ids; an entry that is merged into a wrong one, or lost, shows only for particular relations between subscriptions, as messages that never arrive.',
  ['OCTOPUSSY/src/Subscriptions.cc', 'OCTOPUSSY/src/Subscriptions.h', 'OCTOPUSSY/src/MsgAddress.h', 'DMI/src/HIID.cc'], [('Subscriptions::add/remove/merge/matches', 'OCTOPUSSY/src/Subscriptions.cc'), ('Subscriptions::pack/unpack', 'OCTOPUSSY/src/Subscriptions.cc'), ('MsgAddress', 'OCTOPUSSY/src/MsgAddress.h')],
  'Proof for any ids and any subset and match relation that satisfies the contract of C04 (set_* proofs), lists of up to 3 entries (bound on the length of the list); real small ids in real_add; packing with real ids of up to 3 indices. ' + BASE, observe=['messages selected', 'entries of the list', 'packed block'])
add('C10', 'Work processes: every message is queued, routed and delivered exactly once, in order of priority',
  'A message sent to an address reaches exactly its addressee (or, for broadcasts and published messages, exactly the matching or subscribed work processes), once each; the forwarders get it exactly when it has to leave the process. In the queue of a work process messages are ordered by priority and, within a priority, by arrival. Delivering the head of the queue calls exactly one handler, once; an accepted message disappears, one put on hold stays at its place, a requeued one goes behind all of its priority, and no other message is lost, repeated or overtaken, whatever the handler itself enqueues. Removing and searching finds exactly the matching messages. A poll is requested whenever the head of the queue changes, the dispatcher polls exactly one work process of the highest priority at a time, and only failing work processes are detached. Messages carry sender, state and destination ("local" standing for the own host and process), and are published in exactly the scope asked for.',
  ['inputs', 'histories'], 'all priorities, ids, addresses, states, results and lock states; queues of up to 3 messages, up to 3 work processes (one inductive step per operation)',
  'Tests pass a few messages of one priority; lost, repeated or overtaken messages show only for particular orders of priorities, results of handlers and messages enqueued meanwhile.',
  ['OCTOPUSSY/src/WPInterface.cc', 'OCTOPUSSY/src/Dispatcher.cc', 'OCTOPUSSY/src/Message.cc', 'OCTOPUSSY/src/MsgAddress.h'],
  [('WPInterface::enqueue, dequeue, do_poll, deliver, send, publish', 'OCTOPUSSY/src/WPInterface.cc'), ('Dispatcher::send, attach, detach, poll', 'OCTOPUSSY/src/Dispatcher.cc')],
  'Proof of each operation for every state of queues of up to 3 messages (bound on the length of the queue) and all values; histories follow by induction over operations. The in-thread and the threaded delivery are both under contract (one thread at a time). ' + BASE, observe=['queue contents', 'handlers called', 'receivers of a message'])
add('C11', 'Events: timeouts, inputs and signals reach exactly those who asked for them',
  'A timeout fires exactly when it is due and once per period (a one-shot one just once), and the event thread never sleeps past the earliest timeout. The descriptors watched are exactly those of the registered inputs; when a descriptor becomes ready its work process gets exactly the events it asked for, in a single message that is updated while undelivered. A raised signal is delivered once to each work process that registered for it and does not ignore it; signals nobody wants get their former handler back. Removing a timeout, input or signal removes exactly that registration and its undelivered message, and leaves all others untouched.',
  ['inputs', 'histories'], 'all times, periods, identifiers and priorities, all combinations of flags and ready descriptors; up to 2 registrations of each kind (one inductive step per operation)',
  'No test drives the event machinery with more than one source; a stale registration, a missed wake-up or a descriptor that stays watched shows only for particular combinations of pending and one-shot events.',
  ['OCTOPUSSY/src/Dispatcher.cc', 'OCTOPUSSY/src/Dispatcher.h', 'DMI/src/Timestamp.cc', 'DMI/src/Timestamp.h'],
  [('Dispatcher::checkEvents, addTimeout, addInput, removeTimeout, removeInput, removeSignal, rebuildInputs, rebuildSignals', 'OCTOPUSSY/src/Dispatcher.cc'), ('Timestamp arithmetic', 'DMI/src/Timestamp.h')],
  'Proof of each operation for up to 2 registrations (bound) and all values. The clock, select and sigaction are reference implementations. ' + BASE, observe=['messages queued by events', 'descriptors and signals watched'])
add('C07', 'Request ids: dependency masks select exactly the masked parts',
  'Request ids carry one index per dependency symbol: comparing two ids under a mask looks at exactly the masked indices, the difference mask reports exactly the indices that differ (missing ones count as zero), and masking, setting or incrementing under a mask changes exactly the masked indices. An increment is therefore always seen as precisely that change by every cached result that depends on it.',
  ['inputs'], 'all request ids of any length, all dependency masks, all index values',
  'Tests run a few trees with a few request ids; a wrong bit for one mask or one id length makes a node reuse a stale result (or recompute for ever) only for that combination.',
  ['MEQ/src/RequestId.cc', 'MEQ/src/RequestId.h'], [('RqId::diffMask, maskedCompare, maskSubId, setSubId, incrSubId', 'MEQ/src/RequestId.cc')],
  UNB + BASE, observe=['difference masks, modified ids'])
add('C01', 'Counted references: a target lives exactly as long as it is referenced',
  'An object held through counted references stays alive as long as at least one reference is attached to it and is destroyed exactly once, when the last reference to an owned object lets go; external objects are never destroyed. Attaching, copying, transferring, reassigning, cloning or destroying references in any order keeps the count exact, also when the reference copied from lives inside the object being released. Locked references cannot be released or transferred, and a failed operation leaves every reference as it was.',
  ['inputs', 'histories'], 'every state of two references over any two targets with any number of further references (one inductive step per operation, hence all operation sequences), all flag words and depths',
  'Tests run fixed sequences; leaks, double deletes and dangling targets appear for particular combinations of flags, ownership, locking and reference counts.',
  ['DMI/src/CountedRefBase.cc', 'DMI/src/CountedRefBase.h', 'DMI/src/CountedRefTarget.cc', 'DMI/src/CountedRefTarget.h'],
  [('CountedRefBase::copy, xfer, attach, detach, privatize, cloneTarget', 'DMI/src/CountedRefBase.cc'), ('CountedRefTarget destructor', 'DMI/src/CountedRefTarget.cc')],
  UNB + 'The counts are arbitrary (below 2^30); the sequence argument is the inductive invariant "count == number of attached references". ' + BASE, observe=['lifetime of targets', 'reference counts'])
add('C02', 'Counted references: copy-on-write isolates every holder',
  'Data shared by reference is never changed behind the back of another holder: obtaining write access through a reference first makes a private copy unless the reference is the only one (and writable) or was explicitly declared shared; all other references keep seeing the old contents. Read-only references that are not declared shared never write to the target they were given, and copying, transferring or attaching never makes a reference more writable or more shared than requested.',
  ['inputs', 'histories'], 'every state of two references over any two targets with any number of further references, all flag words and depths, all contents',
  'Cached results, message payloads and records are shared by reference across the whole system; a missing copy shows up only for a particular combination of flags and reference counts, as corruption somewhere else.',
  ['DMI/src/CountedRefBase.cc', 'DMI/src/CountedRefBase.h'],
  [('CountedRefBase::getTargetWr', 'DMI/src/CountedRefBase.h'), ('CountedRefBase::privatize, cloneTarget, copy, xfer, change, attach', 'DMI/src/CountedRefBase.cc')],
  UNB + BASE, observe=['contents seen through each reference'])
add('C09', 'Node evaluation: every request yields exactly one result, built from all children as the policies say',
  'Executing a request on a node yields exactly one return code and, unless it aborts or waits, one valid result; the code and the dependencies of the result are the union of those of the request processing, of all polled children and of the node itself. A cache hit evaluates nothing and polls nobody; a new request is recognised by its id (empty ids are always new); any exception on the way becomes a fail result that is cached and returned, never an exception to the caller; failed children give the fail result of the poll; missing data gives an empty result; the node always leaves the executing state and releases its locks. A poll asks each enabled child exactly once and in the specified order (until abandoned as the fail and missing data policies say, or aborted), disabled children count with an empty code, results are passed on unchanged and all fails are collected in the fail result; stepchildren are polled after the children, unless that poll was abandoned. Asynchronous and background polls give each child exactly once and end. All of this holds equally when worker threads fill the work orders, in whatever order they take and deliver them, and the polling thread is always woken.',
  ['inputs', 'schedules'], 'every combination of return codes, policies, exceptions and flags; up to three children (two in the multithreaded proofs), enabled or not, in every poll order; every order in which workers take work orders and deliver results (at the granularity of critical sections)',
  'Test trees run with well-behaved children, one thread and default policies; a lost wake-up or a stale code needs a particular schedule or policy and looks like a hang or a plausible value.',
  ['MEQ/src/Node.cc', 'MEQ/src/NodeNursery.cc', 'MEQ/src/NodeNursery.h', 'MEQ/src/MTPool.cc', 'MEQ/src/MTPool.h'], [('Node::execute, Node::pollChildren', 'MEQ/src/Node.cc'), ('NodeNursery::syncPoll, startAsyncPoll, awaitChildResult, backgroundPoll, mt_receive*', 'MEQ/src/NodeNursery.cc'), ('MTPool::WorkOrder::execute', 'MEQ/src/MTPool.cc')],
  'Proof for every value of the inputs; nodes are raw objects in an arbitrary state; Node::execute uses the cache, request riders, polls and the evaluation of the node through their contracts (the cache and the polls are proved, as C08 and here); children are mock nodes that give any code and result their contract allows; the queue of the thread pool (placeWorkOrder, getWorkOrder, wait) is an assumed contract that lets other workers take and deliver any work. ' + BASE, observe=['return codes and results', 'calls of children', 'results given to the poll', 'wake-ups'])

add('C12', 'Domains: axes, envelopes and projections',
  'Defining an axis of a domain yields a proper segment from the smaller to the larger bound and leaves all other axes alone. The envelope of two domains is defined along exactly the axes of either one and is the smallest domain that covers both, and a domain is a superset of another one exactly when it covers it along every axis it defines. Equality of domains is equality of their axes and segments.',
  ['inputs'], 'all domains: every set of axes, all segments',
  'Tests use two-axis frequency-time domains with fixed bounds; an error along one axis or one relation of the bounds selects wrong cells or caches silently.',
  ['MEQ/src/Domain.cc', 'MEQ/src/Domain.h', 'MEQ/src/Axis.cc'], [('Domain::defineAxis, envelope, expandToEnvelope, supersetOfProj, operator==', 'MEQ/src/Domain.cc')],
  UNB + 'The record field that publishes the segment is a stub (Record::addField, DMI::Vec). ' + BASE, observe=['axes and segments of the resulting domain'])
add('C13', 'Vells: broadcasting of shapes and iteration strides',
  'Combining arrays of values (and of their flags) of any shapes yields the shape that varies along exactly the axes along which some argument varies, and fails exactly when two arguments both vary along an axis but with different extents; merging shapes follows the same rule. The strides computed for each argument visit, for every element of the result, the element of the argument at the same position along the axes the argument has, and its only element along the others. An operation is done in place exactly when its argument varies along no axis along which the target is constant.',
  ['inputs'], 'all ranks up to the maximum (8), all extents, real and complex arguments',
  'Tests multiply a few arrays of two axes; a wrong stride for one pattern of constant and varying axes silently mixes up samples.',
  ['MEQ/src/Vells.cc', 'MEQ/src/Vells.h', 'MEQ/src/Axis.cc', 'MEQ/src/Axis.h'], [('Vells::computeStrides, canApplyInPlace', 'MEQ/src/Vells.cc'), ('Vells::isCompatible, isCongruent, DimCounter', 'MEQ/src/Vells.h'), ('Axis::mergeShape, addAxisToShape, vectorShape, matrixShape', 'MEQ/src/Axis.cc')],
  'Proof for every shape of rank up to Axis::MaxAxis (rank enumerated completely, extents arbitrary). ' + BASE, observe=['result shape', 'strides', 'position of the multi-dimensional counter'])
add('C14', 'Slicers over arrays of values: every slice visited once, at the right address, flags in step',
  'A slicer over chosen axes of an array presents, in order, exactly the slices of the array at every combination of the remaining axes, each once: the presented slice has the extents and strides of the chosen axes and starts at the position of its first element, every step from any position advances to the next slice, and the end is reported after the last one. With data flags, which may be collapsed along other axes than the data or have a different rank, the flags presented with a slice are those of the same samples. The slice refers to the elements of the original array and is writable only if the slicer is a writable one.',
  ['inputs'], 'all extents and element types, any choice and order of axes, all positions of the iteration, every pattern of collapsed axes, ranks 1 to 4 (with flags 1 to 3)',
  'Tests slice one or two arrays; wrong stride bookkeeping shows only for particular combinations of sliced, collapsed and iterated axes, as silently shifted samples.',
  ['MEQ/src/VellsSlicer.cc', 'MEQ/src/VellsSlicerWithFlags.cc', 'MEQ/src/Vells.h'], [('ConstVellsSlicer0::init/incr/initRefVells', 'MEQ/src/VellsSlicer.cc'), ('ConstVellsSlicerWithFlags0::init/incr', 'MEQ/src/VellsSlicerWithFlags.cc'), ('Vells::DimCounter', 'MEQ/src/Vells.h')],
  'Proof, inductive over the iteration: the first slice, and any step from any position of the counter, for symbolic extents; ranks 1..4 without, 1..3 with flags. Preconditions: axes distinct and not negative, array smaller than 2^27 elements. ConstVellsSlicerWithFlags0::initRefVells runs only natively (smoke runs). ' + BASE, observe=['address, shape, strides and validity of each slice', 'address of its flags'])
add('C15', 'Vells: element-wise math, reductions and flags',
  'Every arithmetic or mathematical operation on arrays of values is, at every position of the broadcast shape, exactly that function of the elements of the arguments at the same position; real arguments promote to complex as documented. In-place operations leave the target as the corresponding binary operation would, and neither arguments nor other holders of the same data are ever modified. Reductions run over exactly the samples of the given shape that are not flagged under the mask, and merging flags combines exactly the masked flags of every argument at every position.',
  ['inputs'], 'all contents and flag masks; all lengths for arrays of equal shape or constants (unbounded), every pattern of constant and varying axes of ranks 1 and 2',
  'Tests evaluate a few expressions; a wrong kernel, iterator, flag mask or shared buffer shows only for one combination of types and shapes, as a wrong number.',
  ['MEQ/src/Vells.cc', 'MEQ/src/Vells.h', 'DMI/src/NumArray.cc'], [('Vells operators and VellsMath functions', 'MEQ/src/Vells.cc'), ('Vells::mergeFlags', 'MEQ/src/Vells.cc'), ('NumArray copy and copy-on-write', 'DMI/src/NumArray.cc')],
  'Element-wise operations (C15_loops.cc): proof for arrays of any length, unary, binary (equal shapes or one constant argument) and in place, with NumArray::init/makeWritable under assumed contracts.  Broadcasting between different shapes, reductions, mergeFlags, copy-on-write and allocation (C15_vells.cc): bounded (shapes of rank 1 and 2 with extents 1, 2, 3; contents symbolic), not counted as proved.  Transcendental functions are uninterpreted. polar() is not covered. ' + BASE, observe=['values and flags of the result', 'contents of the arguments'])
add('C08', 'Node cache: a cached result is reused only when nothing it depends on has changed',
  'A node answers a request from its cache exactly when it holds a valid cached result and no part of the request id on which that result depends (its recorded dependencies, plus the state dependency when a node below has changed state) differs from the id under which it was cached; empty ids never match and a cache that does not match is cleared. A request without derivatives may be answered by a cached result with derivatives, which are then stripped from a copy, never from the cached object; a parameter update that cannot concern the node gets an empty result and leaves (and protects) the cache. After an evaluation the result is cached under the id of its request with all its dependencies as the cache policy says (failures always), children are told to keep their caches exactly when the node does not keep its own and they do not depend on what changes next, and a node releases its cache only when all parents have checked in. Clearing a cache makes it unusable, recursively if asked; a change of state reaches every parent.',
  ['inputs', 'histories'], 'every request id and cached id (any length), every dependency mask, policy, return code, parent count and hint count, any combination of the node flags (each operation proved from an arbitrary state, hence for all sequences); up to two children and two stepchildren, enabled or not, and up to three parents',
  'The trees in the test suite run a few request sequences; a stale result appears only for one combination of cached id, new id, dependency mask and policy, and looks like a plausible number.',
  ['MEQ/src/Node.cc', 'MEQ/src/Node.h', 'MEQ/src/NodeNursery.h'], [('Node::getCachedResult, cacheResult, holdChildCaches, holdCache, clearCache, propagateStateDependency', 'MEQ/src/Node.cc'), ('Node::Cache', 'MEQ/src/Node.h')],
  'Proof for every value of the inputs; nodes are raw objects in an arbitrary state (record members empty), publishing and logging off; numbers of children, stepchildren (0..2) and parents (0..3) are enumerated; RqId::diffMask is used through its contract (proved as C07), the vellset accessors of Result through an assumed contract. ' + BASE, observe=['cache validity, returned result and dependencies', 'hints received by children'])

add('C16', 'Functions: derivatives are propagated by parameter, fails and flags by plane',
  'A function node computes every plane of its result from the same plane of its children (scalar children take part in every plane). The parameters of a plane are exactly the parameters of any child, each once and in increasing order; its main value is the function of the main values of the children, and its perturbed value for a parameter is the function of the perturbed values of exactly those children that depend on that parameter and of the main values of all others, with the perturbation the children report; children that disagree about a perturbation, or lack a perturbation set, give a fail instead of a value. A plane that failed in some child is a fail holding all the fails of all children, a plane without data is left empty, and the return code is a fail (or missing data) exactly when all planes are. Flags are those of the children under the flag masks. Tensor functions do the same for all planes at once, whatever an earlier evaluation left in their buffers. A vellset that fails keeps all its fails and no data.',
  ['inputs', 'histories'], 'all parameter numbers and perturbations; up to three children with up to three parameters each, one or two perturbation sets, up to two planes in every combination of values, fails and missing data; any flags and masks; any leftovers of earlier evaluations (tensor functions)',
  'Tests evaluate trees with one or two solvable parameters; a perturbed value computed from the wrong operands is a plausible number and only spoils convergence of a solution.',
  ['MEQ/src/Function.cc', 'MEQ/src/TensorFunction.cc', 'MEQ/src/VellSet.cc', 'MEQ/src/VellSet.h'], [('Function::getResult, findSpids, evaluateFlags', 'MEQ/src/Function.cc'), ('TensorFunction::getResult, computeTensorResult, evaluateTensorFlags', 'MEQ/src/TensorFunction.cc'), ('VellSet::addFail, clear', 'MEQ/src/VellSet.cc')],
  'Proof for every value of the inputs; children and results are raw objects, the function itself (evaluate) is an injective test function, so that the value tells the arguments; the setters and getters of VellSet and Result are assumed contracts (natively the real ones run), Vells::mergeFlags is used through its contract (C15). ' + BASE, observe=['values, perturbed values, perturbations, parameters, flags and fails of each plane', 'return code'])

add('C17', 'Tensor nodes: every plane of a result goes exactly where its index says',
  'The nodes that pick, combine and rearrange the planes of tensor results do so by index and nothing else. A Selector returns the planes its index or slice names, in that order, with the dimensions of the slice; a Composer concatenates the planes of its children (in tensor mode, stacks the children along a new leading dimension), keeping the fails of a failed child in its own planes only, and reports a fail exactly when all planes failed; a Paster replaces exactly the planes its index or slice names by those of its second child and leaves all the others untouched; a Transpose exchanges (or permutes) the indices of matrix and higher-rank results; a Stripper drops the perturbed values and nothing else; a MergeFlags adds the masked flags of its children plane by plane (scalars to every plane) and changes no value. No plane is lost, duplicated or moved, no index outside a result is read or written, and the results of the children are not changed.',
  ['inputs'], 'all slices and indices (including out-of-range ones) of results of rank 1 to 3 with extents up to 3; up to three children; planes in every combination of values, fails and missing data; any flags and masks',
  'Tests compose and select a 2x2 matrix; an offset that is wrong for a rank-3 or a non-square result gives plausible numbers in the wrong correlation.',
  ['MeqNodes/src/Selector.cc', 'MeqNodes/src/Composer.cc', 'MeqNodes/src/Paster.cc', 'MeqNodes/src/Transpose.cc', 'MeqNodes/src/Stripper.cc', 'MeqNodes/src/MergeFlags.cc'], [('Selector::getResult', 'MeqNodes/src/Selector.cc'), ('Composer::getResult', 'MeqNodes/src/Composer.cc'), ('Paster::getResult', 'MeqNodes/src/Paster.cc'), ('Transpose::getResult', 'MeqNodes/src/Transpose.cc'), ('Stripper::getResult', 'MeqNodes/src/Stripper.cc'), ('MergeFlags::getResult, mergeChildFlags', 'MeqNodes/src/MergeFlags.cc')],
  'Proof for every value of the inputs; ranks, extents and numbers of children are enumerated up to the stated bounds; results and planes are raw objects, the setters and getters of VellSet and Result are assumed contracts (natively the real ones run), Vells::mergeFlags is used through its contract (C15). ' + BASE, observe=['source of each plane of the result', 'dimensions', 'flags and fails', 'return code'])
add('C18', 'Math nodes: matrix products, inverses, equations, reductions and element-wise functions compute what they say, also for perturbed values',
  'Every plane of the result of a math node is the function the node is named after of the values of its children at the same point. A MatrixMultiply yields the sum over the inner index of the products of the matching planes (scalars multiply every plane, absent planes count as zero, ranks and sizes that do not fit are an error); a MatrixInvert22 the inverse of a 2x2 matrix (a scalar the scalar inverse); a Condeq the difference of its children (for the modulo variant, wrapped), with the derivatives with respect to each parameter as the differences of the perturbed values divided by the perturbation; element-wise nodes (Sin, Cos, Pow, Add, Divide, ...) their function of the values of their children, WSum and WMean with their weights. Nodes that reduce arrays (Mean, Min, Max, Sum, Product, NElements, Rms, StdDev) do so over all points that are not flagged, or for every slice along the reduction axes over the elements of that slice. The same holds for the perturbed value of every parameter in every perturbation set, so that derivatives are those of the result; the result depends on exactly the parameters that the children involved depend on. Flags of a result are the masked flags of the values that went into it, a reduced value is flagged exactly when everything it was made from is, and a plane is a fail exactly when a value that went into it is. The children are not changed.',
  ['inputs'], 'all values, flags, masks and perturbations; matrices of rank 0 to 2 with extents up to 2 and tensors up to 2 planes, up to two parameters and two perturbation sets; up to three children of element-wise nodes; reductions of up to 2x2 arrays along any axes',
  'Tests multiply one pair of matrices and do not look at perturbed values or flags; a wrong sign or index in a perturbed value only slows down a solution.',
  ['MeqNodes/src/MatrixMultiply.cc', 'MeqNodes/src/MatrixInvert22.cc', 'MeqNodes/src/Condeq.cc', 'MeqNodes/src/ReductionFunction.cc', 'MeqNodes/src/Add.cc', 'MeqNodes/src/WMean.cc', 'MeqNodes/src/Mean.cc', 'MeqNodes/src/StdDev.cc'], [('MatrixMultiply::getResult, scalarMultiply', 'MeqNodes/src/MatrixMultiply.cc'), ('MatrixInvert22::getResult, computeInvert', 'MeqNodes/src/MatrixInvert22.cc'), ('Condeq::getResult, calcDerivative', 'MeqNodes/src/Condeq.cc'), ('ReductionFunction::apply, evaluateFlags, isAllFlagged', 'MeqNodes/src/ReductionFunction.cc'), ('evaluate of the element-wise nodes', 'MeqNodes/src/Add.cc')],
  'Values are mathematical reals; a Vells is one number (its loops over points are the subject of C13-C15), its functions are the functions they are named after (C15); matrices and tensors are enumerated up to the stated bounds; results and vellsets are raw objects, their setters and getters assumed contracts (natively the real ones run). Reductions run on real arrays, the array of references to slices (blitz) is not modelled. ' + BASE, observe=['value and perturbed values of each plane', 'flags and fails', 'parameters of the result', 'elements that take part in a reduction'])
add('C19', 'Parameter polynomials: value, perturbed values, update and change of shape or solve domain',
  'A polynomial parameter is the polynomial its coefficients, axes, offsets and scales define. Evaluated over cells it has a value for each cell along its axes of variability (and along these only) that lies within its domain: the polynomial at the shifted and scaled centre of the cell, whichever way round its axes are and however many coefficients it has; a domain that does not mention an axis restricts nothing. The perturbed value of each solvable coefficient is the polynomial with that coefficient alone changed by its perturbation (by the opposite in the second set), and goes to the parameter that stands for that coefficient; evaluation announces exactly these parameters and perturbations, and asks for none when nothing is solvable. Making a polynomial solvable numbers its solvable coefficients in order from the given parameter, following the mask if there is one of the right size, otherwise (in two variables) leaving out and zeroing the orders beyond the larger extent. An update adds to each solvable coefficient its own increment, within the limits given, and leaves the others alone. A change of the shape of the coefficients keeps every coefficient at its orders, drops those that have no place and adds zeros. A change of the solve domain leaves the polynomial the same function, and when its domain covers all of its axes maps that domain to the solve domain.',
  ['inputs'], 'all coefficients, perturbations, grids, domains and increments; up to three coefficients in one variable, up to 3x2 (and 2x12) in two, up to two cells along each axis, every mask; shapes up to 3x3',
  'Tests solve for a few fixed trees; none uses descending axes, a frequency-only polynomial outside its time domain or a change of rank, and a wrong perturbed value only slows down a solution.',
  ['MEQ/src/Polc.cc', 'MEQ/src/Funklet.cc', 'MEQ/src/Funklet.h'], [('Polc::do_evaluate', 'MEQ/src/Polc.cc'), ('Polc::do_update, makeSolvable, setCoeffShape, changeSolveDomain, transformCoeff', 'MEQ/src/Polc.cc'), ('Funklet::evaluate, makeSolvable, getCoeffIndex', 'MEQ/src/Funklet.cc')],
  'Values are mathematical reals; numbers of coefficients and cells are enumerated up to the stated bounds; scales in the proofs of the solve domain are fixed numbers; grids are real blitz arrays, polynomial and cells raw objects (natively real ones); the record behind the polynomial (hooks, setOffset, setScale) and the setters of VellSet are assumed contracts, and the binomial coefficients, computed through logarithms, are taken as exact. ' + BASE, observe=['value and perturbed values at each cell', 'parameters and perturbations', 'coefficients after update, reshape and change of domain'])
