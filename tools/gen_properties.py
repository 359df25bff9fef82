"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = list(observe)
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("P01", "Option obeys the option algebra for every payload, callback and chain",
 "Every Option operation, in method and in pipeline form, gives exactly the result of the mathematical option it stands for: presence is decided only by Some/Nothing (a falsy, None or nested payload is still present), payloads are passed on untouched, callbacks run exactly when and with what the algebra says, and their exceptions propagate. No operation changes its operands, and equality, ordering, hashing and iteration agree with that model.",
 ["inputs","programs"], "all payloads (including None, falsy, nested, unhashable, incomparable), all callbacks incl. raising ones, all chains of operations",
 "Tests sample a few ints and strings per operation; they rarely use falsy/None/nested payloads, raising callbacks, or chains.",
 ["expression/core/option.py"], [("tag-based dispatch in every method and its pipeline twin","expression/core/option.py"),("Nothing singleton","expression/core/option.py")],
 ["results, callback logs and exceptions of each operation"])
prop("P02", "Result and Try obey the result algebra for every payload and chain",
 "Every Result and Try operation, in method and in pipeline form, gives exactly the result of the mathematical sum type: success and failure are never confused whatever the payload, the untouched side is passed on unchanged, callbacks run exactly when and with what the algebra says, and combining two results reports the first failure. No operation changes its operands, and equality, hashing and iteration agree with that model.",
 ["inputs","programs"], "all payloads on both sides, all callbacks incl. raising ones, all operand combinations and chains",
 "Tests sample one or two payloads per operation and seldom the Ok/Error combinations with falsy payloads or raising callbacks.",
 ["expression/core/result.py","expression/core/try_.py"], [("tag-based dispatch","expression/core/result.py"),("Success/Failure subclasses","expression/core/try_.py")],
 ["results, callback logs and exceptions of each operation"])
prop("P03", "Conversions between Option, Result and plain values lose nothing",
 "Converting between Option, Result, Try, Optional values and sequences preserves exactly the information both sides can express: a present or successful payload comes back as the same object, an absent value or an error comes back as such, and only a None that the conversion is documented to treat as absence becomes absent. Conversions there and back are the identity wherever both sides can express the value.",
 ["inputs","programs"], "all payloads and all compositions of conversions",
 "Tests check single conversions of a few values, not compositions or None/falsy/nested payloads.",
 ["expression/core/option.py","expression/core/result.py","expression/core/try_.py","expression/collections/seq.py"],
 [("of_optional/to_optional/of_obj/of_result/to_result/to_option/of_option","expression/core/option.py, expression/core/result.py")])
prop("P04", "Block behaves as an immutable Python sequence under every operation history",
 "For every sequence of operations, each Block contains exactly the elements, in exactly the order, that the same operation gives on an immutable Python sequence, in method and pipeline form alike; callbacks are applied once per element in order, and impossible requests fail with the documented exception. No operation ever changes a Block that already exists, nor does changing an iterable a Block was built from.",
 ["histories","inputs"], "all operation sequences over all small blocks, all arguments (including boundary and out-of-range counts)",
 "Tests run single operations on a handful of lists; histories, boundaries and aliasing are not enumerated.",
 ["expression/collections/block.py"], [("wrapped tuple, every operation returns a new Block","expression/collections/block.py")],
 ["contents of every live Block after every step"], [("_value","the wrapped tuple","expression/collections/block.py")])
prop("P05", "Map behaves as a sorted immutable dictionary under every history",
 "After any history of insertions, changes and removals, every query and every derived map gives exactly what a dictionary with the same bindings gives, always in ascending key order: lookups (present and missing keys), sizes, iteration, folds, filters, partitions, searches and conversions; a search visits the bindings in that order and stops at its first hit. A key is bound at most once, the latest binding wins, and absent keys are reported as such.",
 ["histories","inputs"], "all insertion/removal/change histories over small key sets and the distinct tree shapes they reach; all queries on each",
 "Tests insert a few random keys; balanced-tree bugs need specific insertion and deletion orders reaching specific shapes.",
 ["expression/collections/map.py","expression/collections/maptree.py"], [("AVL insertion, rebalance, splice-out on removal","expression/collections/maptree.py")],
 ["every public query on each reachable map"], [("tree","height-balanced tree of the map","expression/collections/maptree.py")])
prop("P06", "Map values are persistent; equality and hash depend only on content",
 "An operation on a map never changes that map or any other map or view obtained earlier, however much structure they share. Two maps are equal exactly when they hold equal keys with equal values, and then have equal hashes, no matter by which history, conversion or shape each was produced.",
 ["histories","inputs"], "all pairs of maps reachable by histories over small key/value sets; all old versions after all later operations",
 "Tests compare few maps built in one order; equality across shapes and snapshots of old versions are not explored.",
 ["expression/collections/map.py","expression/collections/maptree.py"], [("path copying in add/remove/change","expression/collections/maptree.py"),("lock-step iteration in equality, element hash","expression/collections/map.py")],
 ["old versions re-read after each operation, ==, hash"])
prop("P07", "Map operations stay logarithmic and work at any size",
 "For every insertion and removal pattern, a lookup, insertion or removal in a map makes a number of key comparisons logarithmic in the largest size the map has had, and building, iterating, converting or folding maps of any size succeeds without exhausting the stack. Results at those sizes are the same as those of a dictionary.",
 ["histories","inputs"], "all insertion/removal patterns over small maps exhaustively; ascending, descending, zig-zag, organ-pipe, batch patterns on sizes up to thousands",
 "Tests use small maps and never observe comparison counts; a lost rotation is invisible to value checks.",
 ["expression/collections/maptree.py","expression/collections/map.py"], [("mk / rebalance","expression/collections/maptree.py")],
 ["comparison counts of instrumented keys"])
prop("P08", "Seq operations compute exactly what the same operation on a list computes",
 "Every sequence function and every fluent Seq method yields exactly the elements, in exactly the order, that the corresponding list computation gives, for every source (list, tuple, range, generator, Seq, empty) and every pipeline of operations; callbacks run once per consumed element in order, and impossible requests fail with the documented exception.",
 ["inputs","programs"], "all small sources, all arguments including boundaries, all operation pipelines up to a depth",
 "Tests run single operations on fixed lists.", ["expression/collections/seq.py"], [("generator-based operators","expression/collections/seq.py")])
prop("P09", "Seq is lazy, consumes no more than needed, and can be iterated again",
 "Building a pipeline consumes nothing from its source and calls no callback; pulling n results consumes only the source elements those results need, so infinite sources work. A Seq result over a re-iterable source gives the same elements each time it is iterated, including when iterations overlap.",
 ["programs","schedules","inputs"], "all pipelines up to a depth over counting and infinite sources, all pull counts, all interleavings of two iterators",
 "Tests check the elements only; consumption, re-iteration and overlapping iteration are unobserved.",
 ["expression/collections/seq.py","expression/collections/map.py"], [("SeqGen re-iterable wrapper, generator operators","expression/collections/seq.py")],
 ["pull counts on the source after each step"])
prop("P10", "AsyncSeq operations compute list results under every suspension pattern",
 "Every asynchronous sequence operation yields exactly the elements of the corresponding list operation, in order, whichever source steps suspend and in whatever order the awaited results arrive; it never pulls a source element it does not need, an exception from the source or a callback reaches the consumer at its position, and consumers that interleave do not disturb each other.",
 ["schedules","inputs","fault_sequences"], "all small sources, operation pipelines, suspension patterns and failure positions; interleaved consumers",
 "Tests await a few immediate sources; suspension, failure positions and interleaving are not explored.",
 ["expression/collections/asyncseq.py"], [("async generators wrapped by AsyncSeq","expression/collections/asyncseq.py")])
prop("P11", "TypedArray behaves as a Python list under every mutation history",
 "After any history of reads and writes by index or slice and of functional operations, a TypedArray holds exactly what a Python list (with the element type's conversion) would hold; derived arrays are independent copies, so a later change to either side never shows in the other. Out-of-range and ill-typed requests fail and leave the array unchanged.",
 ["histories","inputs"], "all operation sequences up to a depth over small arrays for every element type code",
 "Tests cover single operations; mutation histories and aliasing between arrays are not explored.",
 ["expression/collections/array.py"], [("backing array/list per type code, slicing copies","expression/collections/array.py")])
prop("P12", "Option, result and try computations equal their monadic desugaring",
 "A decorated option, result or try generator computation returns exactly what the equivalent chain of binds returns, for every program: each bound success resumes the program with its payload, the first absence or failure ends it with exactly that value and nothing after it runs, plain yields and returns are lifted, exceptions propagate, and cleanup code runs. A decorated function can be called again, recursively or concurrently with itself, each call independent.",
 ["programs","inputs","schedules"], "all small programs (bind, yield, return, try/finally, nesting, conditionals) over all success/failure patterns",
 "Tests have a handful of fixed programs.", ["expression/core/builder.py","expression/effect/option.py","expression/effect/result.py"],
 [("Builder._send/bind/combine/run and EffectError","expression/core/builder.py")])
prop("P13", "Seq computations yield exactly the list their program describes",
 "A decorated sequence computation yields, in program order, exactly the elements its body yields, those of every nested sequence it delegates to, and its returned value if any; this holds for any number of yields, and each call is independent of every other.",
 ["programs","inputs"], "all small programs over yields, nested delegation, loops and returns; lengths up to tens of thousands",
 "Tests have a few fixed programs with few yields.", ["expression/effect/seq.py","expression/core/builder.py"], [("SeqBuilder.combine/bind/run","expression/effect/seq.py")])
prop("P14", "Async option/result computations equal their desugaring under every schedule",
 "A decorated asynchronous option or result computation resolves to exactly what the equivalent chain of binds gives, whichever of its awaits suspend and in whatever order concurrent calls resume: first failure wins, nothing after it runs, exceptions and cancellation propagate, cleanup runs. Concurrent calls of the same decorated function never mix their values.",
 ["programs","schedules","fault_sequences"], "all small async programs, success/failure patterns, suspension patterns and interleavings of concurrent calls",
 "Tests run one call at a time to completion.", ["expression/core/async_builder.py","expression/effect/async_option.py","expression/effect/async_result.py"],
 [("AsyncBuilder._send/run","expression/core/async_builder.py")])
prop("P15", "A tagged union holds exactly one case, is immutable data, and compares by it",
 "An instance of a tagged union is created from exactly one case and reports exactly that case, its value and no other; reading another case, or creating from none, two or an unknown case, fails. Equality, hash, ordering, representation, copying, pickling and pattern matching depend exactly on case and value, in declaration order of the cases, and a frozen union can never be changed.",
 ["inputs","histories"], "all small union declarations and options, all payloads, all pairs of values, all mutation attempts",
 "Tests cover a few example unions.", ["expression/core/tagged_union.py"], [("generated init/eq/hash/lt/setattr","expression/core/tagged_union.py")])
prop("P16", "Currying, piping and composing equal plain function application",
 "Currying, flipping, piping and composing never change what a function computes: a curried function gives, for any number of curried arguments given one call at a time and any positional and keyword arguments given with the rest, exactly the direct call's result, partial applications can be reused in any order, and a pipeline or composition of any length equals the nested application, in order, each stage once.",
 ["programs","inputs","histories"], "all arities and argument splits, all orders of reusing partial applications, all pipeline lengths",
 "Tests check a few arities and one split each.", ["expression/core/curry.py","expression/core/pipe.py","expression/core/compose.py","expression/core/fn.py","expression/core/misc.py"],
 [("recursive partial application","expression/core/curry.py"),("reduce over stages","expression/core/pipe.py, expression/core/compose.py")])
prop("P17", "Tail-recursive functions run in constant stack with plain recursion's result",
 "A function decorated for tail calls, sync or async, returns exactly what the undecorated recursion would return for every program, however deep the recursion, without growing the stack; arguments are evaluated in order and passed through unchanged, exceptions propagate, and calls may nest or interleave without affecting each other.",
 ["programs","inputs","schedules"], "all small tail-recursive programs, mutual/nested calls, depths up to tens of thousands, interleaved async calls",
 "Tests run a factorial and a sum.", ["expression/core/fn.py"], [("trampoline","expression/core/fn.py")])
prop("P18", "Parser combinators accept and return exactly what the grammar says",
 "A parser built from the combinators accepts exactly the prefixes its grammar (with ordered choice) describes and returns exactly that value and the unread rest, for every grammar and every input of any length. A failing parser reports its own error and consumes nothing, so that an alternative starts at the same place, and parsers can be reused and shared with the same outcome each time.",
 ["programs","inputs","histories"], "all small grammars over all strings up to a length, plus inputs of thousands of characters",
 "Tests run a few parsers on a few strings.", ["expression/extra/parser.py"], [("Parser.run and combinators","expression/extra/parser.py")])
prop("P19", "Cancellation reaches every registered callback exactly once",
 "Under every interleaving of registering, unregistering, cancelling and reading, every callback still registered when a token is cancelled runs exactly once and before cancel returns to its first caller, one registered later is rejected or runs at once, one unregistered earlier never runs, and nobody deadlocks. The cancelled state is visible to every observer from then on and never goes back; a token that cannot be cancelled never becomes so.",
 ["schedules","histories"], "all interleavings of 2-3 threads doing register/dispose/cancel/observe, up to a preemption bound, and all sequential histories",
 "Tests are sequential, single threaded, with one callback.", ["expression/system/cancellation.py","expression/system/disposable.py"],
 [("lock around listeners and flag","expression/system/cancellation.py")], ["callback counts and observed flags per thread"], [("_listeners, _is_disposed","registered callbacks and state","expression/system/cancellation.py")])
prop("P20", "A disposable runs its action exactly once, however it is disposed",
 "Whatever the sequence or interleaving of dispose calls, context-manager exits and exceptions, a disposable's action runs exactly once on the first disposal and never before, a composite disposes every member once in order, use after disposal is reported, and no disposal hangs, even when the action disposes again or waits for another thread. The same holds for asynchronous disposables under every suspension and interleaving.",
 ["schedules","histories","fault_sequences"], "all interleavings of 2-3 disposing threads or tasks and all sequential histories including raising bodies",
 "Tests dispose once or twice from one thread.", ["expression/system/disposable.py"], [("lock and flag in anonymous disposables","expression/system/disposable.py")])
prop("P21", "A mailbox delivers every message exactly once in order, and answers every ask",
 "Under every interleaving of posting (also from other threads), receiving and replying, the receiver gets each posted message exactly once, in the order posted, whether it was waiting already or starts later; a poster awaiting a reply gets exactly its own reply, whatever its value. A receiver that gives up waiting or is cancelled neither loses nor duplicates a message, posting never blocks, and cancelling the token a mailbox was started with stops its receiver.",
 ["schedules","histories","fault_sequences"], "all interleavings of posters, receiver and reply tasks on small histories, at event-loop step and at thread-switch granularity",
 "Tests post a few messages in one fixed order from the loop thread.", ["expression/core/mailbox.py"], [("message queue + waiting continuation","expression/core/mailbox.py")], (), [("messages, continuation","queue and waiting receiver","expression/core/mailbox.py")])
prop("P22", "Started async computations run once, report one outcome, and obey cancellation",
 "An async computation handed to the async tools runs exactly once and its outcome (value, exception or cancellation) is reported exactly once through the matching continuation or awaitable; of several completions of a callback-style computation only the first counts. Cancelling its token, before or during the run and from any thread, stops it at its next suspension, and nothing it holds keeps it alive after it ends.",
 ["schedules","fault_sequences","histories"], "all orders of completion, failure, cancellation and start events on small computations",
 "Tests cover one ordering each.", ["expression/core/aiotools.py"], [("from_continuations, start, start_immediate, run_synchronously","expression/core/aiotools.py")])
prop("P23", "Catching, Kleisli pipelines and traversal keep the first failure and all order",
 "A function wrapped to catch returns its success, the result it returned itself, or the exception of a caught kind it raised, and lets every other exception through; Option and Result pipelines equal the chain of binds; traversing or sequencing a list applies the function to the elements from left to right, stops at the first failure and returns that failure, or all results in order.",
 ["inputs","programs","fault_sequences"], "all exception types and nestings, all stage lists up to a length, all success/failure patterns of lists",
 "Tests sample one failure each.", ["expression/extra/result/catch.py","expression/extra/result/pipeline.py","expression/extra/result/traversable.py","expression/extra/option/pipeline.py"],
 [("catch wrapper","expression/extra/result/catch.py"),("pipeline reduce","expression/extra/*/pipeline.py"),("traverse fold","expression/extra/result/traversable.py")])
prop("P24", "Options, results and blocks survive a JSON round trip through pydantic",
 "An Option, Result or Block held in a pydantic model, at any nesting, can be written to and read back from JSON and Python data giving an equal value of the same case; missing and present stay distinct wherever JSON can express it, and ill-typed content is rejected with a validation error rather than accepted.",
 ["inputs","configurations"], "all nestings of the containers up to a depth over all small payloads, and ill-typed payloads",
 "Tests round trip a few models.", ["expression/core/option.py","expression/core/result.py","expression/collections/block.py"], [("pydantic core schemas","expression/core/option.py, expression/core/result.py, expression/collections/block.py")])
prop("P25", "Values, decorated functions and parsers can be shared and nested freely",
 "Immutable values, sequences, curried, tail-recursive and effect-decorated functions, pipelines and parsers hold no hidden mutable state: used by several threads at once under any schedule, or again from inside one of their own callbacks, every use gives exactly the result it gives alone, and so does every later use.",
 ["schedules","histories"], "all pairs of operations of every kind of object in two threads under every schedule up to a preemption bound, and every operation nested in every callback",
 "Tests use one thread; a race needs a switch at one bytecode.", ["expression/core/builder.py","expression/core/async_builder.py","expression/core/curry.py","expression/core/fn.py","expression/core/tagged_union.py","expression/collections/map.py","expression/collections/maptree.py","expression/collections/block.py","expression/collections/seq.py","expression/extra/parser.py"],
 [("per-call state of builders and trampolines","expression/core/builder.py, expression/core/fn.py"),("no caches or scratch state in values and parsers","expression/collections/*.py, expression/extra/parser.py")])
prop("P26", "The operations of every effect builder obey the monad laws",
 "For every effect builder (option, result, try, seq and the async ones) bind and return obey the three monad laws for every value and function; return from, delay and run leave a computation unchanged, combine gives the second computation if the first succeeded and otherwise the first failure (for sequences: one after the other), and zero is the documented empty result. Builders derived from them or from the base class behave accordingly: an overridden run is applied once to the outcome, an operation that is missing is reported as not implemented.",
 ["programs","inputs"], "all terms of builder operations up to a depth over succeeding, failing and raising leaves and functions, for all builders",
 "Tests exercise builders through a few decorated functions only.", ["expression/effect/option.py","expression/effect/result.py","expression/effect/seq.py","expression/effect/async_option.py","expression/effect/async_result.py","expression/core/builder.py","expression/core/async_builder.py"],
 [("bind/return_/combine/zero/delay/run","expression/effect/*.py")])
prop("P27", "Casts decide by the run-time type alone and return the very same value",
 "An upcast returns its argument; a downcast returns the same object exactly when it is an instance of the type and raises an assertion error otherwise; a trying downcast returns the same object exactly when it is an instance of the type (for a generic type: of its origin), whatever the value's truth or equality, and None otherwise. Casting never alters or copies the value and depends on nothing but the type as it is now.",
 ["inputs","configurations"], "all values of a universe against all types of a universe (class lattices, abstract classes, protocols, generics), and pairs of casts in sequence",
 "Tests try one class hierarchy.", ["expression/core/typing.py","expression/core/error.py"], [("isinstance with generic origins","expression/core/typing.py")])
prop("P28", "Values survive copying, deep copying and pickling",
 "A copy, deep copy or pickled and unpickled (in this or another process) option, result, block, map, array or sequence is of the same type, equal to the original with the same hash, and behaves the same under every operation; deep copies and pickles share no mutable data with the original, sharing inside them is preserved, and Nothing remains the one Nothing.",
 ["inputs","histories"], "all values nested up to a depth from all constructors, every way of copying, copies of copies",
 "Tests pickle one option and one union.", ["expression/core/tagged_union.py","expression/core/option.py","expression/collections/map.py","expression/collections/block.py","expression/collections/array.py"],
 [("copy and pickle support","expression/core/tagged_union.py, expression/core/option.py")])
prop("P29", "Equality, hashing and ordering are lawful among all values",
 "Comparing any two values of the package, or one with any other object, for equality never fails, is reflexive and symmetric, decides by type, case and content only (a block equals a tuple, an array any sequence, of equal elements), and equal hashable values have equal hashes, so that membership, dictionaries and sets work; none of this changes by using a value. Options, results and ordered unions are totally ordered by case and then payload, consistently with equality; other types have no order with them.",
 ["inputs","histories"], "all pairs of a universe of nested values, all triples and arrangements of ordered values",
 "Tests compare a few values with values of their own kind.", ["expression/core/tagged_union.py","expression/core/option.py","expression/core/result.py","expression/collections/block.py","expression/collections/map.py","expression/collections/array.py"],
 [("__eq__, __hash__, __lt__","expression/core/tagged_union.py, expression/collections/*.py")])
prop("P30", "An interrupted operation leaves everything as it was",
 "If an operation on immutable values, sequences, decorated functions or parsers is interrupted by an exception at any point (a KeyboardInterrupt, a failing callback), the exception reaches the caller unchanged and every value, function and parser involved gives exactly the same results afterwards as if the operation had not been started.",
 ["fault_sequences","inputs"], "every operation of every kind of object, interrupted at every point where it touches an object or makes a call",
 "Tests never interrupt an operation.", ["expression/collections/map.py","expression/collections/maptree.py","expression/collections/block.py","expression/collections/seq.py","expression/core/builder.py","expression/core/fn.py","expression/core/curry.py","expression/extra/parser.py","expression/core/tagged_union.py"],
 [("values are built before they become reachable","expression/collections/maptree.py"),("no state outlives a call","expression/core/builder.py, expression/core/fn.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
