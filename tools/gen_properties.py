"""Writes /verif/properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=list(observe), hook_needed=hook)))

MB="expression/core/mailbox.py"; AIO="expression/core/aiotools.py"; CAN="expression/system/cancellation.py"; DIS="expression/system/disposable.py"
prop("C01", "Mailbox delivers every posted message exactly once, in arrival order",
 "Every message posted to a running mailbox processor (by post from any thread or task, or by post_and_async_reply from a task of its loop) is returned by exactly one receive call, unmodified, whatever its value (None and falsy values included). Messages are received in arrival order: if one post returned before another began, its message is received first, so each poster's messages keep their order. As long as the agent keeps receiving, every posted message is received without needing any further post, also when some receive calls were abandoned (timed out or cancelled) at any moment, or refused because another receive was still pending.",
 ["schedules","histories","fault_sequences"], "all interleavings of posting threads, posting tasks and the agent's suspensions; all moments at which a pending receive is abandoned; all message values; any number of mailboxes",
 "test_mailbox posts from one task before the agent ever runs, so there is no race, no waiting receiver, no foreign thread, no abandoned receive.",
 [MB, AIO], [("message queue + continuation hand-off", MB+": MailboxProcessor.receive/__process_events"), ("thread-safe wake-up of the loop", MB+": MailboxProcessor.post")],
 [("messages","FIFO of undelivered messages",MB),("continuation","the single waiting receive",MB)], ["values returned by receive, in order"])
prop("C02", "Each request gets the first reply sent to it, and nothing else",
 "Awaiting post_and_async_reply yields exactly the first value sent on that request's own reply channel, whatever that value is (None, False, 0 and empty values included) and whether it was sent before, while or after the requester starts waiting. Replies may come in any order, late, or more than once: further replies are ignored and no reply ever reaches another request. A request whose requester gave up (timeout or cancellation) disturbs neither the agent replying to it nor any other request.",
 ["schedules","histories","fault_sequences"], "all orders and delays of requests, replies, double replies, and abandonments; all reply values",
 "the one test sends a single request answered at once with a non-empty string.",
 [MB, AIO], [("reply channel closure and completion check", MB+": MailboxProcessor.post_and_async_reply"),("first-wins future", AIO+": from_continuations")], (), ["value or exception of the awaited request"])
prop("C03", "Cancelling an agent's token from anywhere stops exactly that agent",
 "Cancelling the token given to MailboxProcessor.start, at any moment and from any thread, makes the agent's pending and every later receive end in cancellation within a bounded number of loop steps and without another post. No message posted after the cancellation is ever received, at most one message already being handed over is, and what was received is a prefix of the arrival order; posting to the stopped agent stays harmless. Agents started with another token, with no token or with the none token are unaffected, and an agent started with an already cancelled token never runs.",
 ["schedules","crash_points","fault_sequences"], "every instant of cancellation relative to posts, hand-overs, suspensions and completions; same-thread and foreign-thread cancellers",
 "no test cancels a mailbox at all.",
 [MB, AIO, CAN], [("token check before hand-over", MB+": __process_events"),("task cancellation callback", AIO+": start_immediate"),("token", CAN)], (), ["agent body outcome","receive log"])
prop("C04", "Cancellation reaches every registered callback exactly once under any race",
 "Once cancel (or dispose, or leaving the with-block) of a cancellation source has been called, every token of the source reports cancellation and keeps doing so, throw_if_cancellation_requested raises and entering the source's with-block (which otherwise gives the source itself) raises. A callback whose register call returned normally and that was not unregistered runs exactly once even if registering raced with cancelling (otherwise register raises ObjectDisposedException and the callback never runs); one unregistered before cancellation began never runs, and one failing callback neither prevents the others nor escapes from cancel. No lock is held while callbacks run, so other threads can use the source meanwhile, and none-tokens and other sources are never affected.",
 ["schedules","fault_sequences","histories"], "all interleavings (at bytecode granularity) of cancel, dispose, register, unregister, property reads and with-blocks on shared sources by several threads; all subsets of failing callbacks",
 "the tests use one thread and one callback per source.",
 [CAN, DIS, "expression/system/error.py"], [("disposed flag + listener snapshot under lock", CAN+": CancellationTokenSource.dispose"),("registration", CAN+": register_internal")],
 [("_is_disposed","cancellation requested",CAN),("_listeners","registered callbacks",CAN)], ["callback invocations","is_cancellation_requested"])
prop("C05", "A disposable's action runs exactly once however many threads dispose it",
 "The action of Disposable.create runs exactly once if dispose is called (or a with-block left) at least once, never otherwise, no matter how many threads or nested calls dispose it concurrently or whether the action itself fails (its exception then reaches the one disposer that ran it). Leaving a with-block always disposes and never swallows the block's exception; entering a with-block gives the disposable itself, or raises ObjectDisposedException after disposal. The action runs with no lock held: disposables whose actions dispose each other, from several threads, never deadlock.",
 ["schedules","fault_sequences"], "all bytecode-level interleavings of concurrent dispose / with-block calls, including actions that raise, re-enter, wait, or dispose other disposables",
 "the tests dispose from one thread, sequentially.",
 [DIS, "expression/system/error.py"], [("flag tested and set under lock", DIS+": AnonymousDisposable.dispose"),("context manager", DIS+": Disposable.__exit__")], [("_is_disposed","action already claimed",DIS)], ["action invocations"])
prop("C06", "Async disposables run their action once; composites dispose all, in order",
 "The action of AsyncDisposable.create is started exactly once if dispose_async is called (or an async with-block left) at least once, whatever the interleaving of concurrent disposers and wherever the action suspends, fails or is cancelled; entering gives the disposable itself or, after disposal, raises ObjectDisposedException, and block exceptions are never swallowed. A composite starts its members' actions in order; an error or cancellation propagates to the disposer, and disposing again continues with the members not yet disposed, so that after one successful disposal every member has been disposed exactly once.",
 ["schedules","crash_points","fault_sequences"], "all interleavings of disposer tasks; cancellation and failure at every await of every action; nested composites",
 "tests dispose one object sequentially with an action that never suspends; composites are untested.",
 [DIS], [("flag set before the action is awaited", DIS+": AsyncAnonymousDisposable.dispose_async"),("sequential member disposal", DIS+": AsyncCompositeDisposable")], (), ["action starts and completions"])
prop("C07", "from_continuations settles once, with the first continuation called",
 "An awaitable made by from_continuations completes with exactly what the first call of one of its three continuations says: success gives that value (any value), error raises that exception object, cancel raises cancellation; it stays pending until then. The call may come synchronously inside the callback or at any later time, before or after someone awaits. Later calls, in any number and order, and calls after the waiter was cancelled, change nothing and raise nothing; an exception raised by the callback itself is raised by from_continuations.",
 ["schedules","histories","fault_sequences"], "all sequences and timings of continuation calls, waiters and waiter cancellations",
 "no test calls from_continuations directly; the mailbox tests only use the success path once.",
 [AIO], [("future with done() guards", AIO+": from_continuations")], (), ["outcome of await"])
prop("C08", "Started computations run once to the end, isolated, and are then released",
 "A computation given to aiotools.start or start_immediate runs exactly once to its end on the event loop without anyone awaiting it: the call returns without waiting, garbage collection at any moment never destroys it, and another computation's failure or cancellation never affects it. Cancelling the token passed with it, from any thread and at any moment before it ends, cancels it at its current or next suspension within a bounded number of loop steps; after its end cancelling does nothing, with a none token it is never cancelled, and with an already cancelled token the call raises and the computation does not run. After it ends (value, error or cancellation) the library retains neither it nor its result.",
 ["schedules","crash_points","fault_sequences"], "all interleavings of computations, cancellers (any thread), failures and garbage collections",
 "start has no direct test; it is only reached through the two mailbox tests, without tokens, failures or collections.",
 [AIO, CAN], [("strong task set", AIO+": start/start_immediate"),("token registration", AIO+": cb")], [("__running_tasks","keeps pending tasks alive",AIO)], ["computation side effects","weak references"])
prop("C09", "Sleep and run_synchronously honour the clock and the computation's outcome",
 "aiotools.sleep(ms) suspends only its own task: it never resumes before ms milliseconds of clock time have passed and resumes as soon as the loop can run after that, so concurrent sleepers wake in deadline order. run_synchronously returns exactly the computation's value or raises its exception (cancellation included) after running it to the end, leaving no task of it pending; singleton, from_result and empty complete with their value without waiting. Cancelling a sleeper wakes it at once and leaves other sleepers untouched.",
 ["schedules","inputs","fault_sequences"], "all durations, numbers of concurrent sleepers, clock stalls and jumps forward, and cancellation instants",
 "none of these functions has a test; a wall-clock test could only sample a few milliseconds.",
 [AIO], [("asyncio.sleep in milliseconds", AIO+": sleep"),("asyncio.run", AIO+": run_synchronously")], (), ["virtual clock at resume","returned value"])
prop("C10", "AsyncSeq operators keep order, elements and failures and pull on demand",
 "Iterating or folding an async sequence built by the AsyncSeq methods and the asyncseq functions (map, filter, choose, collect, concat, append, scan, take, skip, tail, head, length, sum, min, max, fold, fold_back, range, empty, repeat with a count) gives exactly what the same operation gives on the list of source elements, in order, for any timing of the source. If the source or a callback fails, or the consumer is cancelled, at some element, the consumer has received exactly the results of the preceding elements and then gets that very exception. Nothing is pulled from the source before it is demanded, and never an element beyond those needed for what was consumed: take(n) and head finish without waiting for a further element.",
 ["schedules","inputs","fault_sequences","crash_points"], "all sources, operator pipelines, element latencies, failure positions, cancellation instants and interleaved pipelines",
 "the three tests iterate range() and the empty sequence; no operator, latency, failure or cancellation is exercised.",
 ["expression/collections/asyncseq.py"], [("async generators", "expression/collections/asyncseq.py")], (), ["elements seen by the consumer","pulls seen by the source"])
prop("C11", "Async effect blocks mean the same under every interleaving, fault and cancel",
 "Calling a function decorated with effect.async_option, async_result or async_try gives the sequential meaning of its body: statements run in order and once, yield and await of Some/Ok deliver the contained value, the result is the last yielded (or returned) value or the zero value, and the first awaited Nothing/Error ends the block with that Nothing/Error without running any later statement. This holds for bodies with and without yield, for nested effects, for any number of concurrent calls of the same function and for any timing of what they await. An exception raised in the body propagates unchanged, cancellation at any await propagates as cancellation, finally-blocks run, and no call ever influences another.",
 ["schedules","programs","fault_sequences","crash_points"], "all effect bodies (of the modelled statement forms), latencies, interleavings of concurrent calls, exception points and cancellation instants",
 "tests run about 40 fixed bodies one at a time, none cancelled, none concurrent.",
 ["expression/core/async_builder.py","expression/effect/async_option.py","expression/effect/async_result.py","expression/core/option.py","expression/core/result.py"],
 [("send loop with per-call state","expression/core/async_builder.py: AsyncBuilder.__call__/_send"),("EffectError short circuit","expression/core/option.py, result.py: __await__")], (), ["result of the decorated call","statement log"])
prop("C12", "Sync effect blocks mean the same in every thread interleaving and fault",
 "Calling a function decorated with effect.option, result, try_ or seq gives the sequential meaning of its body: statements run in order and once, yield of a value and yield from an Option, Result, Seq or generator deliver the contained value, option/result/try blocks end with the first Nothing/Error without running later statements and otherwise with the returned (else last yielded, else zero) value, and seq blocks collect every yielded value and the returned one in order. This holds for any number of threads, nested calls or recursive calls running the same decorated function at once. An exception raised in the body propagates unchanged, finally-blocks run, and no call ever influences another.",
 ["schedules","programs","fault_sequences"], "all effect bodies (of the modelled statement forms), bytecode-level thread interleavings and exception points",
 "tests run fixed bodies in one thread, one call at a time.",
 ["expression/core/builder.py","expression/effect/option.py","expression/effect/result.py","expression/effect/seq.py"],
 [("send loop with per-call state","expression/core/builder.py: Builder.__call__/_send"),("EffectError short circuit","expression/core/option.py, result.py: __iter__")], (), ["result of the decorated call","statement log"])
prop("C13", "Tail-recursive functions equal the plain loop, concurrently and at any depth",
 "A function decorated with tailrec or tailrec_async returns what direct recursion would: it is called with the initial arguments, then once with exactly the positional and keyword arguments of each TailCall returned, in order, until it returns something else, which is the result. It uses constant stack depth for any number of tail calls, and concurrent calls (threads, tasks, nested or mutually recursive) never influence each other. An exception or cancellation in any step propagates unchanged and no further step runs.",
 ["schedules","inputs","fault_sequences","crash_points"], "all argument sequences and depths, interleavings of concurrent calls in threads and tasks, exception and cancellation points",
 "one test: a single factorial(1000); tailrec_async is untested.",
 ["expression/core/fn.py"], [("trampoline loop","expression/core/fn.py: tailrec, tailrec_async")], (), ["call log","result"])
prop("C14", "Map is an immutable sorted dict under concurrent use and failing callbacks",
 "Any number of threads may use the same Map values at once: every operation (add, remove, change, filter, map, partition, find/try_find/get, contains, iteration, to_list/to_seq/items, fold/fold_back, exists/for_all/pick/try_pick, len, ==, hash, construction from any number of pairs) returns exactly what the same operation on a dict kept in ascending key order would, independent of interleaving, callbacks are called in ascending key order (descending for fold_back, any for partition) and at most once per key, and what to_seq returns can be iterated any number of times. No operation ever changes an existing Map. If a key comparison or a user callback raises at any point, the operation raises that same exception and every existing Map still reads as before.",
 ["schedules","histories","inputs","fault_sequences"], "all operation histories over shared versions, bytecode-level thread interleavings, and failure positions in comparisons and callbacks",
 "tests build a map and read it back in one thread; none re-reads older versions, none fails a callback, none compares maps of different size.",
 ["expression/collections/map.py","expression/collections/maptree.py"], [("path-copying balanced tree","expression/collections/maptree.py: add/remove/change/rebalance"),("frozen Option nodes","expression/core/option.py")], (), ["operation results","re-read of every earlier version"])
prop("C15", "Block is an immutable list under concurrent use and failing callbacks",
 "Any number of threads may use the same Block values at once: every operation (construction, cons, append/+, map, starmap, mapi, choose, collect, filter, partition, fold, reduce, forall, head/try_head/tail, item/index/slice, indexed, skip/skip_last/take/take_last, sort/sort_with, sum/sum_by, unfold, zip, concat, range, of_option, dict, in, len, ==, iteration) returns exactly what the same operation on a Python tuple of the elements would, independent of interleaving. No operation ever changes an existing Block or the iterable it was built from. If a callback or a source iterable raises at any point, the operation raises that same exception and every existing Block still reads as before.",
 ["schedules","histories","inputs","fault_sequences"], "all operation histories over shared blocks, bytecode-level thread interleavings, and failure positions in callbacks and source iterables",
 "tests apply each operation to generated lists in one thread, with total callbacks; boundary counts (0, more than the length) are mostly not tried.",
 ["expression/collections/block.py"], [("tuple inside, every method builds a new Block","expression/collections/block.py: Block")], (), ["operation results","re-read of every earlier block"])
prop("C16", "Seq pipelines are lazy, repeatable, independent per iteration, fault-exact",
 "A pipeline of seq operations (map, starmap, mapi, filter, choose, collect, concat/append, take, skip, tail, scan, pairwise, zip, delay, unfold, init_infinite; methods and functions) over a re-iterable source does no work until iterated, and each iteration (the only one, over a one-shot iterator) gives exactly the list meaning of the pipeline, pulling no source element and calling no callback beyond what the consumed results need. Any number of iterations, interleaved in one thread or running in several, are independent. If the source or a callback raises at some element, that iteration has produced exactly the results before it and then raises that same exception, and a later iteration starts afresh; terminal operations (fold, fold_back, head, length, sum, sum_by, min/max(_by), iter, to_list, try_find_index, try_pick) likewise equal their list meaning.",
 ["schedules","inputs","fault_sequences","histories"], "all pipelines and sources (infinite ones included), interleavings of several iterations, failure positions in sources and callbacks",
 "tests iterate each operator's result once over a healthy list; none counts pulls, interleaves iterators or fails a source.",
 ["expression/collections/seq.py"], [("re-iterable generator wrapper","expression/collections/seq.py: SeqGen"),("operators","expression/collections/seq.py")], (), ["elements per iteration","pull and callback counts"])
prop("C17", "Parsers are re-entrant: concurrent, repeated and failed parses never interfere",
 "Parser values are immutable: the same parser (and parsers built from it) can be run by any number of threads at once, recursively and any number of times, and each run returns what that run alone returns, namely the value and the position the combinators' grammar meaning gives (ordered choice with backtracking, greedy repetition, sequencing, option, separation, mapping, binding, pint/pfloat/pstring). A failed alternative or an aborted run consumes nothing and leaves no trace in later runs. If a user mapper or binder raises, that exception propagates unchanged and the parser stays usable.",
 ["schedules","programs","inputs","fault_sequences"], "all grammars (of the modelled combinators), inputs, interleavings of runs on shared parser values, and failure positions in user callbacks",
 "tests run small fixed parsers once, in one thread.",
 ["expression/extra/parser.py"], [("position passed explicitly as (text, index)","expression/extra/parser.py: Parser.run"),("combinators","expression/extra/parser.py")], (), ["parse result and remaining position"])
prop("C18", "Railway steps: the first failure wins, later steps never run, catch is exact",
 "A result or option pipeline runs its steps left to right, each at most once, stops at the first step that returns Error/Nothing and returns exactly that, and otherwise returns the last step's value; sequence and traverse over a Block return Ok of all values in order, or the error of the leftmost failing element. A function wrapped by catch turns exactly the exceptions of the named class into Error holding that exception object, lets every other exception (BaseExceptions included) through unchanged, passes returned Results through and wraps other values in Ok. All of this holds when the same pipeline or wrapped function is run by several threads at once, for any pattern of failing steps.",
 ["schedules","fault_sequences","inputs"], "all step lists, positions and kinds of failures (Error/Nothing, caught, uncaught, BaseException), and bytecode-level interleavings of concurrent runs",
 "tests run fixed pipelines of at most a few steps in one thread, mostly failing at one fixed place.",
 ["expression/extra/result/pipeline.py","expression/extra/option/pipeline.py","expression/extra/result/traversable.py","expression/extra/result/catch.py"],
 [("Kleisli reduction","pipeline.py: pipeline"),("try/except/else wrapper","catch.py: catch"),("fold_back with result effect","traversable.py: traverse")], (), ["returned Result/Option","step log"])
# ---- not claimed (pure functions of their input): listed for completeness
prop("C19", "Option and Result follow their case tables when shared or when callbacks fail",
 "Any number of threads may share Option, Result and Try values and partially applied combinators (option.map(f), result.filter(p, d), ...). For every value, payloads such as None, falsy values or nested options included, each combinator - default_value/default_with/default_arg, map, map2, apply, starmap, map_error, bind, or_else(_with), filter, filter_with, swap, merge, is_some/is_none/is_ok/is_error, to_list/to_seq/to_optional/to_option/to_result(_with), of_optional/of_obj/of_result/of_option(_with), value, dict - gives in method and in function form exactly the case and the payload of its documented table, calls its function exactly once with the payload when its case demands it and never otherwise, and a computed Nothing is the singleton. If a function raises, the combinator raises that same exception and every existing value still reads as before; partial applications can be reused afterwards and re-entered.",
 ["schedules","histories","inputs","fault_sequences"], "all histories of combinators over shared values, bytecode-level thread interleavings, failing and re-entrant callbacks", "hypothesis tests sample some laws in one thread with total functions; most case tables are single examples; none fails or re-enters a callback or shares a partial application.",
 ["expression/core/option.py","expression/core/result.py","expression/core/try_.py"], [("pattern matching on the tag","option.py: Option, result.py: Result"),("partial application","curry_flip in option.py and result.py")], observe=["results","calls of the functions","re-read of every earlier value"])
prop("C20", "pipe, compose and currying are plain application without state between calls",
 "pipe, pipe2, pipe3, starpipe, compose, starcompose, PipeMixin.pipe, curry, curry_flip, pipeable, flip, fst, snd, identity and starid compute exactly what direct nested application computes, calling each function once, in order, with exactly the given arguments (keywords included), for any number of functions (thousands included), arity and argument split. A partial application or composition holds no per-call state: every stage can be applied any number of times, with different arguments, by several threads at once, recursively from inside the function it calls, and after a call has failed. If a function raises, that same exception is raised and no later function is called.",
 ["schedules","histories","inputs","fault_sequences"], "all histories of applications over shared stages, interleavings, failing and re-entrant functions", "tests apply fixed arities once, in one thread, with total functions.",
 ["expression/core/pipe.py","expression/core/compose.py","expression/core/curry.py","expression/core/misc.py"], [("currying recursion","curry.py: _curry"),("reduce","compose.py: compose, starcompose")], observe=["calls of the functions","results"])
prop("C21", "Tagged unions hold exactly one case, with consistent eq, order, hash and copies",
 "A tagged union value (Option, Result and Try included; also of a subclass of a union) holds exactly the one case it was constructed with, in every thread and for good; naming no case, several cases, an unknown case or a tag that does not match is a TypeError. Equality, < (case order of declaration, then value), hashing of frozen unions, pattern matching, copy, deepcopy (with the memo, so that sharing is kept), dataclasses.asdict and pickling agree with (type, case, value); frozen unions reject setting or deleting a case or the tag and stay unchanged; without order=True < is a TypeError, with eq=False only the value itself is equal, without frozen=True the case's value can be set. If the value's own comparison, hash, deepcopy or pickling raises, that same exception is raised and every value reads as before.",
 ["schedules","histories","inputs","fault_sequences"], "all histories over shared union values, interleavings, failing payload operations, invalid constructions", "tests use a few fixed declarations with well-behaved payloads in one thread.",
 ["expression/core/tagged_union.py","expression/core/option.py","expression/core/result.py","expression/core/try_.py"], [("generated dunder methods","tagged_union.py: transform")], observe=["results","re-read of every earlier value"])
prop("C22", "Stored documents read back equal when intact and never ill-typed when damaged",
 "A value of a type built from Option, Result, Block, pydantic models, lists, tuples and dicts that is serialised (pydantic JSON or Python data, pickle, deepcopy), stored and read back after a crash equals the value written, with every nested value of its declared type; in the document Nothing is null, Some(x) is x, a Result is {tag, ok|error} and a Block is a list. A document that was torn, overwritten in part, damaged or replaced in some place by a foreign value is either rejected with a ValidationError or read as a value whose every part has its declared type and which again survives the round trip.",
 ["crash_points","fault_sequences","inputs","histories"], "all values and nestings, torn, lost, stale and damaged writes, foreign values at any place of a document", "tests round-trip a few fixed models through intact documents.",
 ["expression/core/option.py","expression/core/result.py","expression/collections/block.py"], [("__get_pydantic_core_schema__","option.py, result.py, block.py"),("dict","option.py, result.py, block.py")], observe=["documents written","values read back"])
prop("C23", "TypedArray is a typed mutable list, unharmed by failing callbacks and sources",
 "Every TypedArray operation (construction with and without element type, map, choose, collect, filter, fold, forall, head, try_head, tail, item, index, slice, indexed, skip, skip_last, take, take_last, sort, sort_with, sum, sum_by, unfold, ==, in, count, index, iteration; insert, append, extend, item and slice assignment and deletion, pop, remove, reverse, clear) gives what the same operation on a list of the elements gives; non-mutating operations leave the array unchanged, also when several threads use it at once, and their results are independent arrays; filter and explicit construction keep the element type, construction without one takes it from bytes or from the class of the first number (int8, float32, ...), and an array never shares storage with what it was built from. If a callback, a comparison or a source iterable raises, or a value does not fit the element type, the operation raises (that same exception) and the array reads as before.",
 ["schedules","histories","inputs","fault_sequences"], "all operation histories, element types, failure positions, interleavings of readers", "hypothesis tests sample most operations once on one element type, with total callbacks.",
 ["expression/collections/array.py"], [("array.array/bytearray/list storage","array.py: TypedArray")], observe=["results","re-read of every array"])
prop("C24", "The published type hints are correct",
 "Under a strict static type checker, well-typed uses of the public API are accepted with the most precise inferred type and ill-typed uses are rejected.",
 ["programs"], "all client programs", "a few typing tests cover single expressions.",
 ["expression/core/pipe.py","expression/core/curry.py","expression/core/typing.py"], [("overloads","pipe.py, curry.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
