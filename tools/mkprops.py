#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line) from the table below.
import json, os
P = "crates/parcom-parsers/src/"
C = "crates/parcom-core/src/"
S = "crates/parcom-sequences/src/generic/"
R = "crates/parcom-runners/src/default_runner/"
I = "crates/parcom-internals/src/"
props = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in state],
                     mechanism=[dict(zip(("name","where"),m)) for m in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Recovering from a failed attempt restores the input exactly",
 "Whenever a choice, an optional parser, a repetition or a collected iteration recovers from an attempt that failed (or ended) without a terminating error, parsing goes on from exactly the input position held before that attempt, however much input the attempt had already consumed. After any failed parse, rewinding with an anchor taken before it gives back exactly the input of that moment.",
 ["programs","inputs"], "every nesting of parsers (including sub-parsers that consume any amount before failing), every input, every recovery point in the parse",
 "The two parser tests only parse well-formed operator chains; no test makes an alternative, optional or repetition fail after consuming input, in any nesting.",
 [P+"combinator/or.rs",P+"combinator/optional.rs",P+"combinator/repeat.rs",P+"combinator/bin_expr.rs",P+"iterative/collect.rs",C+"unknown.rs"],
 [("anchor taken before each attempt, rewind on non-terminating failure","or.rs parse/parse_once; optional.rs; repeat.rs; collect.rs parse"),("UnknownLocation only gives the input back through rewind","unknown.rs")],
 [("anchor","position held before the attempt","locals of each combinator")],
 ["rest returned by parse / parse_once / parse_next","sub-parser invocation positions"])

prop("C02", "Terminating errors are never recovered, other failures never escalate",
 "A terminating error raised by any sub-parser makes the enclosing choice, optional, repetition, sequence or binary-expression parser (and any iteration over them) fail immediately with an error that is itself terminating, without trying another alternative or sub-parser; collecting an iteration instead stops there and hands the error back as data. A non-terminating failure never becomes terminating on its own: a composite error (either/both/optional/by-reference) is terminating exactly when one of the errors it holds is.",
 ["programs","inputs"], "every nesting of parsers, every place a terminating or non-terminating error can be raised, every input",
 "No test ever raises a terminating error; the property quantifies over all combinator nestings and error placements.",
 [P+"combinator/or.rs",P+"combinator/optional.rs",P+"combinator/repeat.rs",P+"combinator/join.rs",P+"combinator/bin_expr.rs",P+"iterative/collect.rs",P+"iterative/try_map_each.rs","crates/parcom-util/src/either.rs","crates/parcom-util/src/either_both.rs","crates/parcom-util/src/error.rs",C+"parse_error.rs"],
 [("should_terminate guards on every recovery arm","or.rs, optional.rs, repeat.rs, bin_expr.rs"),("should_terminate of composite errors","either.rs, either_both.rs, parse_error.rs, error.rs")],
 [], ["Err value and its should_terminate","sub-parser invocation log"])

prop("C03", "Combinators compute the PEG result of their parts",
 "A composed parser (sequence, ordered choice, optional, repetition, mapping, error mapping, checked mapping, unification, boxing, by-reference use) returns exactly the value or error its parts determine: sequences pair both values in order, choice takes the first alternative that succeeds, repetition is greedy and keeps items in order with the error that ended it, and mappings are applied once to the right side. The result of a choice, asked for one side, gives what it holds there, or refuses if it holds only the other. It invokes its sub-parsers in order, only when needed, each at the position where the previous one stopped, and on success the remaining input is where the last contributing sub-parser stopped.",
 ["programs","inputs"], "every parser tree over the combinators and every input",
 "Tests cover one grammar on two inputs and assert only that input is consumed; values, errors, ordering and other trees are never compared.",
 [P+"combinator/"+f for f in ("and_then.rs","join.rs","map.rs","optional.rs","or.rs","reference.rs","repeat.rs","unify.rs")]+[P+"util.rs",P+"extension/parser.rs","crates/parcom-util/src/either.rs"],
 [("combinator implementations of parse and parse_once","combinator/*.rs, util.rs")],
 [], ["Ok/Err values","rest","sub-parser invocation log"])

prop("C04", "Iteration adapters deliver exactly the underlying items, in order",
 "Stepping an iterative parser through any stack of adapters (map each, fallible map, map while, scan, take) yields the underlying parser's items in order, each transformed once, with no item dropped, duplicated or parsed beyond what was asked for (taking n items runs the underlying parser for at most n items); fold and collect see exactly those items. Adapters never move the input themselves, so the input after each step is where the underlying step left it, and only collect gives back the input used by the step that ended it.",
 ["programs","inputs","histories"], "every stack of adapters over every source, every number of steps (including steps taken after the end), every input",
 "There are no tests of the iterative parsers at all.",
 [P+"iterative/"+f for f in ("collect.rs","fold.rs","map_each.rs","map_while.rs","scan.rs","take.rs","try_map_each.rs")]+[P+"combinator/optional.rs",P+"combinator/repeat.rs",P+"extension/iterative.rs",C+"parser.rs"],
 [("IterationState::parse_next of each adapter","iterative/*.rs")],
 [("left","items take may still produce","take.rs"),("state","scan accumulator","scan.rs"),("me","optional's one-shot item","optional.rs")],
 ["parse_next results and rests","fold/collect results"])

prop("C05", "Parsers are reusable; one-shot and reusable parsing agree",
 "For every parser, consuming it once and parsing by reference give the same outcome on the same input, for plain and iterative parsing alike. A parser value can be used any number of times, also with several iterations of it in progress and interleaved, and each use behaves as if it were the first: counts, accumulators, scan states and one-shot items start fresh and never leak between uses.",
 ["programs","histories","inputs"], "every parser tree, every sequence of uses and every interleaving of iterations in progress on one parser value",
 "Each test parser is used once, through one entry point; the duplicate one-shot implementations are never exercised.",
 [P+"combinator/",P+"iterative/",C+"parser.rs",P+"combinator/reference.rs"],
 [("separate parse_once / parse bodies","combinator/*.rs"),("fresh State per parse_iterative","iterative/*.rs, repeat.rs, optional.rs"),("&P implementations","core parser.rs")],
 [], ["results of parse vs parse_once","interleaved parse_next results"])

prop("C06", "Results do not depend on segmentation, suspension or carrier",
 "The outcome of a parse (value or error, and remaining content) depends only on the content of the input: not on how the input is divided into segments (including empty ones, and the absence of any segment at the end), not on when reading or advancing has to wait, and not on whether the input is a plain slice or string, a measured one, or a segmented stream.",
 ["inputs","schedules","programs"], "every division of every input into segments, every placement of suspensions, every parser",
 "All tests parse one contiguous in-memory string that is always immediately ready.",
 [P+"primitive/any.rs",P+"primitive/atom.rs",P+"primitive/the.rs",C+"sequence.rs",C+"primitive/str.rs",C+"primitive/slice.rs"],
 [("segment loops that skip empty segments and carry the unmatched remainder","any.rs, the.rs, atom.rs")],
 [("remain","part of the pattern still to match","atom.rs")], ["outcome per carrier"])

prop("C07", "Binary expressions follow precedence and associativity",
 "For every operator table and every chain of terms and operators, the binary-expression parser builds the one tree that keeps terms and operators in input order and in which higher-precedence operators bind tighter and equal-precedence operators group according to their associativity; this holds for all precedence values and any chain length.",
 ["inputs","configurations"], "every operator table (precedence and associativity), every operator chain",
 "The two tests use one operator repeated and check only how much input is consumed, never the tree.",
 [P+"combinator/bin_expr.rs"],
 [("operator stack reduction in parse_impl","bin_expr.rs"),("next_precedence","bin_expr.rs")],
 [("stack","pending left operands and operators","bin_expr.rs parse_impl")], ["expression value returned"])

prop("C08", "Binary expressions consume the longest complete chain and say why they stop",
 "The binary-expression parser consumes exactly the longest prefix of the form term (operator term)*: a dangling operator whose right operand fails is not consumed, and the reported reason is the error of the operator or term that could not be parsed there. If the first term fails the whole parse fails with that error, and a terminating error from a later operator or term fails the whole parse with it.",
 ["inputs","programs"], "every term and operator parser (failing at any point, after any consumption), every input",
 "One test covers a single dangling operator; failing operators, multi-step consumption, stop reasons and terminating errors are untested.",
 [P+"combinator/bin_expr.rs"],
 [("anchor before the operator, rewind when operator or operand misses","bin_expr.rs parse_impl")],
 [], ["rest","stop reason","error value"])

prop("C09", "In-memory sequences track position exactly",
 "A string or slice used as input always presents exactly the not-yet-consumed suffix of the original: advancing by n drops exactly the next n units (everything, if a string has fewer left), reading or peeking never changes it, and advancing a peeked view leaves the original alone. A segment of it can be split after any of its units and nowhere else (not past its end, not inside a character), into exactly the units before and those after. Rewinding to any anchor taken earlier restores exactly the content at that anchor, after any sequence of advances in between.",
 ["histories","inputs"], "every history of advance / read / peek / anchor / rewind on every content and item type",
 "No test exercises the sequence operations directly; the parsers' tests only move forward over ASCII.",
 [C+"primitive/str.rs",C+"primitive/slice.rs",C+"primitive.rs",C+"sequence.rs"],
 [("advance/rewind of &str and &[T]","str.rs, slice.rs")], [("me","anchored input","primitive.rs Anchor")],
 ["segments() content","rest after advance/rewind"])

prop("C10", "Measured input reports the measure of exactly the consumed prefix",
 "At every moment the measurement reported by a measured string or slice equals the measurement of the consumed prefix of the original, added to the starting measurement, no matter in how many steps it was consumed; the visible content is the matching suffix. Rewinding restores measurement and content together, and reading never changes either.",
 ["histories","inputs"], "every history of advance / read / anchor / rewind, every meter, every content",
 "There is no test of measured sequences.",
 [C+"primitive/str.rs",C+"primitive/slice.rs",C+"sequence/measured.rs"],
 [("Measured::advance feeds the meter exactly the dropped part","str.rs, slice.rs"),("anchor clones meter and base","str.rs, slice.rs")],
 [("meter","accumulated measure","Measured")], ["metrics()","segments()"])

prop("C11", "Line/column positions are exact for every text and line-ending convention",
 "After any text the reported character count is the number of characters; the line number is one more than the number of complete line terminators (of the configured convention: LF, CR or CRLF) that precede the last character, and the column is the number of characters since the last such terminator; an empty text leaves the start position unchanged. The result does not depend on how the text is split into pieces, even inside a two-character terminator, and the count orders positions within a text.",
 ["inputs","histories"], "every text over all mixtures of CR, LF and multi-byte characters, every split, all three conventions, any starting location",
 "The tests sample ten ASCII texts with the LF convention only, each fed in one piece; CR, CRLF and splits are never used.",
 ["crates/parcom-metrics/src/line_colmn.rs","crates/parcom-metrics/src/end_of_line.rs"],
 [("LineColumnMeter::advance","line_colmn.rs"),("EndOfLine::next state machines","end_of_line.rs")],
 [("next_is_new_line","terminator just completed","line_colmn.rs"),("state","partial CRLF","end_of_line.rs")], ["metrics()"])

prop("C12", "A loaded stream delivers the source's items faithfully",
 "For every source and every buffer-growth strategy that honours the requested minimum, the items readable from the sequence, followed by those the loader still holds, are always exactly the items the source has successfully written so far, in order, with none lost, duplicated, altered or reordered; once the end has been loaded all of them are readable. A load that is cancelled by the source, or given up before it completes, contributes nothing and loses nothing loaded before, and later loads continue normally.",
 ["histories","inputs","fault_sequences"], "every sequence of source behaviours (chunk sizes incl. empty, cancellations, end), strategies, forced commits and consumption",
 "The stream crates have no tests at all.",
 [S+"control.rs",S+"loader.rs",S+"buffer.rs","crates/parcom-sequences/src/generic.rs","crates/parcom-sequence-sources/src/iterator_source.rs","crates/parcom-sequence-core/src/buffer_writer.rs"],
 [("request_writer swaps full buffers out, advance/finish hand them over","control.rs"),("commit_to appends to the chain","loader.rs"),("IteratorSource::next","iterator_source.rs")],
 [("buf","loaded, uncommitted items","loader.rs"),("node chain","committed segments","generic.rs")],
 ["segments() of the buffer","LoadInfo"], "a guarded constructor for the generic sequence builder (it has none)")

prop("C13", "Load reports account for every item and commits are what they say",
 "Each successful load report states exactly how many items became readable by that load and how many the loader holds but has not made readable; held never exceeds the reported buffer capacity (that of the buffer they are held in), items become readable only by a load that reports them or by a forced commit (which makes exactly the held items readable), and a report is marked done exactly when the source ended, with nothing held and zero capacity. Readable segments never change once published.",
 ["histories"], "every history of loads, forced commits and consumption over every source behaviour",
 "The stream crates have no tests at all.",
 [S+"loader.rs",S+"control.rs","crates/parcom-sequence-core/src/load_info.rs"],
 [("LoadInfo construction in Load::poll","loader.rs"),("force_commit","loader.rs")],
 [("commited / uncommited / buffer_capacity / is_done","report fields","load_info.rs")], ["LoadInfo getters","buffer segments"], "guarded constructor, as C12")

prop("C14", "A stream buffer's view is exact under consumption and later loads",
 "Advancing a stream buffer by n removes exactly the first min(n, readable) items and returns how many could not be removed; reading always yields exactly the remaining readable items in order, across any segment boundaries. A reader that has reached the end can be asked again and yields exactly the segments published since, missing and repeating none, also when they are published by another thread meanwhile.",
 ["histories","schedules"], "every history of advances, reads and publications, every segment layout, every interleaving of a reader with a loading thread",
 "The stream crates have no tests at all.",
 [S+"buffer.rs","crates/parcom-sequences/src/generic.rs",S+"loader.rs"],
 [("advance walks nodes and keeps (offset,node)","buffer.rs"),("Iter resumes at an unset node","buffer.rs"),("OnceLock publication","loader.rs commit_to")],
 [("head_offset, head_node","first unread item","buffer.rs")], ["segments()","advance() result"], "guarded constructor, as C12")

prop("C15", "Writers accept at least what was requested and never lie about their contents",
 "A writer obtained for n items accepts at least n items; it accepts an item exactly while it holds fewer than its capacity and otherwise returns the item unharmed, its length is the number of items it holds, its contents are exactly the accepted items in order (never including older buffered items), its spare space is capacity minus length, and shrinking keeps exactly the first items. Its capacity does not change as it fills.",
 ["histories","configurations"], "every history of pushes, shrinks and inspections, for every growth strategy, requested size, amount already buffered, and also through the UTF-8 validating layer",
 "The stream crates have no tests at all.",
 ["crates/parcom-sequence-core/src/buffer_writer.rs",S+"control.rs","crates/parcom-sequence-sources/src/utf8_validator.rs"],
 [("BufferWriter provided methods","buffer_writer.rs"),("Request capacity/len/as_ptr/set_len","control.rs"),("Writer offsets by the carried bytes","utf8_validator.rs")],
 [("offset","where this request starts in the buffer","control.rs"),("buffered","carried bytes","utf8_validator.rs")], ["len, capacity, as_slice, push_item, spare_capacity, shrink_to"], "guarded constructor, as C12")

prop("C16", "UTF-8 validation is exact for every byte stream and chunking",
 "Whatever the chunking, the bytes delivered through the UTF-8 validator are at all times a prefix of the source's bytes made of complete, well-formed characters. A well-formed stream is delivered completely and never rejected, each load leaving back only an incomplete last character; a stream that is ill-formed, or ends inside a character, is always reported as an invalid sequence no later than its end and never as a normal end, and a source error is passed through without losing carried bytes. Nothing is promised about loads after an invalid sequence has been reported.",
 ["inputs","fault_sequences","histories"], "every byte stream, every division into chunks (incl. empty), source errors at any point",
 "Its only test is commented out upstream.",
 ["crates/parcom-sequence-sources/src/utf8_validator.rs"],
 [("carry of up to 3 bytes between loads","utf8_validator.rs request_writer / advance"),("Next::poll stores the carry","utf8_validator.rs")],
 [("buffered, rest","carried bytes of the incomplete character","utf8_validator.rs")], ["committed bytes","load result"], "guarded constructor, as C12")

prop("C17", "A waiting reader gets every segment once and ends only at the true end",
 "However appends, end-of-stream and wake-ups interleave with a reader of the default sequence, the reader receives every segment appended before the end, in order and exactly once, reports the end only after the stream is marked done and everything appended before that has been delivered, and never stays suspended when a segment or the end is already there; while nothing arrives it comes to rest and does not ask to be polled over and over.",
 ["schedules","histories"], "every interleaving of a polling reader with a producer that appends, signals, and marks the end",
 "The runner crate has no tests; the outcome depends on thread interleavings no test schedules.",
 [R+"sequence/segments.rs",R+"sequence.rs",I+"future/notify.rs",I+"future/option_future.rs"],
 [("wait registered before the re-check","segments.rs poll"),("done flag check","segments.rs poll")],
 [("append_signal","broadcast on append","sequence.rs"),("done_flag","end marker","sequence.rs")], ["next() results","wake-ups"], "guarded access to the append signal and done flag; guarded scheduling points in Notify")

prop("C18", "Advancing a waiting sequence skips exactly the requested amount",
 "Advancing the default sequence by n completes only when exactly n items have been skipped, or when the stream is done and everything in it has been skipped, no matter how the items arrive while it waits; what remains readable is exactly what follows the skipped items, and it never stays suspended once enough items or the end are there; while nothing arrives it comes to rest and does not ask to be polled over and over.",
 ["schedules","histories"], "every amount, every split of the items over appends, every interleaving of the waiting advance with the producer",
 "The runner crate has no tests; the outcome depends on thread interleavings no test schedules.",
 [R+"sequence/advance.rs",R+"sequence.rs",I+"future/notify.rs"],
 [("remaining count carried across polls","advance.rs poll"),("wait registered before advancing","advance.rs poll")],
 [("remain","items still to skip","advance.rs")], ["advance completion","following segments"], "as C17")

prop("C19", "A notification wakes every earlier waiter: no lost wake-ups",
 "Once a send has returned, every wait that was created before the send began is complete: polling it reports ready, and if it was last polled pending, the waker given by that poll has been woken, at the latest when the sends overlapping it have returned too (a send cut short by a panicking waker promises nothing to the others it was waking). This holds for every interleaving of waits, polls and sends on any number of threads, and sending and waiting never block forever, whatever the woken tasks do in response.",
 ["schedules","histories"], "every interleaving of any number of waiters, pollers and senders; every waker behaviour, including re-entering the notifier",
 "The tests run one send against waiters on a few fixed schedules chosen by the operating system.",
 [I+"future/notify.rs"],
 [("version bumped before wakers are drained","notify.rs send"),("re-check after registering under the lock","notify.rs poll")],
 [("version","number of sends","notify.rs"),("wakers","registered tasks","notify.rs")], ["poll results","waker calls"], "guarded scheduling points in Notify's atomics and lock")

prop("C20", "A wait completes only after a later send, and stays complete",
 "A wait never reports ready unless a send has begun that had not returned yet when the wait was created, regardless of how many sends happened before; once ready it stays ready, one send completes all earlier waits however many there are, and a wait created after a send's return is not completed by it. A pending wait's waker is not called before such a send has begun, and an optional future is ready at once when empty and otherwise exactly when its inner future is, with its value.",
 ["schedules","histories"], "every interleaving of any number of waiters, pollers and senders",
 "The tests check that one waiter is still pending after a second, on one schedule.",
 [I+"future/notify.rs",I+"future/option_future.rs"],
 [("version captured at wait()","notify.rs"),("OptionFuture::poll","option_future.rs")],
 [("Wait.version","version seen at creation","notify.rs")], ["poll results","waker calls"], "as C19")

prop("C21", "The short vector is a faithful stack at every size",
 "After any history of pushes, pops and reservations, for every inline size (including zero), starting capacity and item type, the vector holds exactly the items of an ideal stack: pop returns the last pushed item or nothing when empty, the slices show all items in order, and emptiness is reported correctly, across the move from inline to heap storage and every regrowth.",
 ["histories","configurations"], "every history of operations, every inline size and starting capacity, item types of any size and alignment",
 "The tests count allocations on four histories and never look at the contents.",
 [I+"shortvec.rs"],
 [("reserve/reserve_exact copy or reallocate","shortvec.rs"),("is_heap chooses the union field","shortvec.rs")],
 [("cap, len, data","storage state","shortvec.rs")], ["pop, as_slice, as_slice_mut, is_empty"])

prop("C22", "The short vector owns its items and memory exactly",
 "Every item put in is handed out by pop or dropped with the vector, exactly once, and never used after that; memory is only obtained when the inline space is exceeded (never for up to the inline size) and not again while a reservation suffices, always released, with allocator requests that match and are valid, and repeated pushes reallocate only geometrically often. This holds for every inline size and item type, including zero-sized ones.",
 ["histories","configurations"], "every history of operations, every inline size and starting capacity, item types of any size incl. zero-sized",
 "The tests count allocations on four histories of boxed items; pops after spilling, regrowth, zero-sized items and drops are not covered.",
 [I+"shortvec.rs"],
 [("Drop","shortvec.rs"),("reserve doubles","shortvec.rs")],
 [("cap","capacity, heap when above the inline size","shortvec.rs")], ["item drops","allocator calls"])

prop("C23", "A filtered observable forwards exactly the matching items",
 "Each observer subscribed through a filter (or a chain of filters) receives exactly the items its source gives out while the subscription lasts that satisfy all predicates, once each and in publication order, independently of other observers; observers subscribed to the unfiltered source are unaffected, and each predicate is asked about each item that reaches it exactly once per observer it guards.",
 ["histories","programs"], "every history of subscriptions and publications, every predicate and nesting of filters",
 "There are no tests of the observable layer.",
 [I+"reactive.rs",I+"reactive/extension.rs",I+"reactive/extension/filter.rs",I+"reactive/predicate.rs"],
 [("Observer::next tests then forwards","filter.rs")], [], ["items received per observer"])

prop("C24", "Primitive parsers recognise exactly their pattern on any content",
 "A primitive parser succeeds exactly when the input begins with its pattern (any item, a given character or item, a given string or slice, an empty pattern always) and then consumes exactly that, returning the item matched; otherwise it fails without a terminating error. It never panics, for any input and pattern content, including every mixture of character widths.",
 ["inputs","configurations"], "every input content and pattern, over all character widths and item types, at every position and division into segments",
 "Tests only match single ASCII characters in one ASCII string.",
 [P+"primitive/any.rs",P+"primitive/atom.rs",P+"primitive/the.rs",C+"sequence/segment.rs",C+"primitive/str.rs"],
 [("prefix comparison per segment","atom.rs"),("first item test","the.rs, any.rs")], [], ["outcome and rest"])

prop("C25", "Loaded items are released exactly once, however the stream is taken apart",
 "Every item a source writes into a stream is dropped exactly once: when the last holder that can still read it goes away (a consumed item goes with the rest of its segment), when its load is cancelled or given up, or when a writer shrinks it away, and not before. Dropping the buffer, the loader and readers in any order, at any point of loading, with any number of segments outstanding, releases everything and never crashes.",
 ["histories","fault_sequences"], "every history of loads, cancellations, consumption and teardown in any order, any number of segments",
 "The stream crates have no tests at all.",
 [S+"buffer.rs",S+"loader.rs",S+"control.rs","crates/parcom-sequences/src/generic.rs","crates/parcom-sequence-core/src/buffer_writer.rs"],
 [("shared segment chain","generic.rs Node"),("shrink_to drops the tail","buffer_writer.rs"),("cancel drains this request","control.rs")],
 [("node chain","committed segments, shared","generic.rs")], ["item drops"], "guarded constructor, as C12")

prop("C26", "A stream parsed while it loads gives what its whole content would give",
 "A parser run on the default sequence over a generic sequence that another thread is loading meanwhile comes to the value or error, makes the calls, and leaves unread, what it would on the complete content given at once: for every division of the content into segments (empty ones too), every buffer strategy, every placement of signals and of the end, and every interleaving. It never completes while items still to come could change its outcome; and it is left suspended only while the end is not marked and the pattern it is at has not been given the items to tell (for an empty pattern: any segment at all).",
 ["inputs","schedules","programs"], "every parser, content, division into segments, buffer strategy, placement of signals and of the end mark, and every interleaving of the parsing thread with the loading one",
 "No test runs a parser on anything but a complete string; neither the runner nor the stream crates have tests, and the outcome depends on where segments end and when they arrive.",
 [P+"primitive/atom.rs",P+"primitive/any.rs",P+"primitive/the.rs",R+"sequence/segments.rs",R+"sequence/advance.rs",R+"sequence.rs",S+"buffer.rs",S+"loader.rs",S+"control.rs",I+"future/notify.rs"],
 [("segment by segment comparison","atom.rs"),("empty segments skipped","any.rs, the.rs"),("wait registered before the re-check","segments.rs, advance.rs poll"),("publication of committed nodes","loader.rs commit_to")],
 [("head, offset","first unread item","buffer.rs"),("done_flag, append_signal","end mark and broadcast","sequence.rs")],
 ["outcome, calls and rest of a parse","suspension"], "as C17")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props))
