#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that edits stay valid JSON)."""
import json, os
D = "include/boost/coroutine2/detail/"
PC, SC = D + "pull_control_block_cc.ipp", D + "push_control_block_cc.ipp"
PH, SH = D + "pull_coroutine.hpp", D + "push_coroutine.hpp"
PI, SI = D + "pull_coroutine.ipp", D + "push_coroutine.ipp"
CB, WR = D + "create_control_block.ipp", D + "wrap.hpp"

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Values cross exactly once, in order and unaltered",
     "For every coroutine and every interleaving of its resumes with those of other coroutines, the receiving side "
     "observes exactly the sequence of values the sending side pushed: same order, none lost, duplicated or altered, and each "
     "there to be read when it arrives. This holds in both directions (pull and push), for every kind of value type "
     "(trivial, class with destructor, move-only, copy-only, large, over-aligned) and however the value is passed (lvalue, const "
     "lvalue, rvalue or through an iterator), and pushing an lvalue leaves the pushed object unchanged, and whatever becomes of the pushed object afterwards changes nothing about the value.",
     ["schedules", "inputs", "histories"],
     "All programs of pushes, pulls, reads and handle moves over any number of coroutines, all value types, all interleavings.",
     "The tests push at most five ints, two strings and two tuples through one coroutine at a time; no interleaving, no move-only "
     "stream longer than one value, no large or over-aligned type.",
     [PC, SC, PI, SI, PH, SH],
     [("value slot overwritten by each push, before the context switch", PC + " set(), " + SC + " resume(T const&)/resume(T&&)"),
      ("read from the slot", PI + " get(), " + PH + " iterator::operator*")],
     [("value slot", "the last transferred value", D + "pull_control_block_cc.hpp storage/bvalid")],
     ["pull_type::get()", "pull_type::iterator", "push_type::operator()", "push_type::iterator"])

prop("C02", "Coroutines over references hand over the object itself",
     "A coroutine over T& or T const& delivers to the receiving side a reference to the very object the sending side passed (same "
     "address, no copy), in order and for any number of transfers. Changes made through the reference on either side are seen by the other, and "
     "the library never copies, moves or destroys the referred object.",
     ["schedules", "inputs", "histories"],
     "All sequences of references (repeats, different objects, const and non-const), both directions, get() and iterators, any interleaving.",
     "Tests pass one reference once (test_ref, test_const_ref) and three through one range-for; no re-binding order, mutation or interleaving is checked.",
     [PC, SC, PI, SI, PH, SH],
     [("reference holder re-created on each push", PC + " pull_coroutine<T&>::control_block::set/get")],
     observe=["pull_type<T&>::get()", "iterators over T&"])

prop("C03", "Control goes in, suspends and comes back at exactly the right points",
     "Constructing a pull coroutine runs its function at once, constructing a push coroutine does not, and the first push does (never pushed means never "
     "entered). Each resume continues the function from exactly where it last suspended, at whatever call depth, with its local state "
     "intact, and control returns to whoever resumed it most recently, exactly when the function next transfers, returns or throws. The function "
     "is entered at most once and every resume returns after finitely many steps of the function, yielding the very handle it was called on.",
     ["schedules", "histories", "programs"],
     "All schedules of create/resume/yield/return over trees and cycles of coroutines resuming one another, from any context, at any frame depth.",
     "The tests run straight-line two- or three-step coroutines resumed from main; one test has a child resumed from elsewhere than its creator.",
     [PC, SC, PI, SI],
     [("eager first resume in the pull constructor", PC + " control_block( preallocated, ...)"),
      ("initial switch back before the function is called", SC + " lambda: other->c = std::move( other->c).resume()"),
      ("the peer's continuation is replaced on each switch", PC + " resume(), " + SC + " resume()")],
     [("continuation", "where the other side last suspended", "control_block::c")],
     ["entry into the coroutine function", "return from operator()", "return from constructors"])

prop("C04", "A handle tests true exactly while its coroutine can be resumed",
     "A coroutine handle converts to true if and only if it holds a coroutine whose function has not terminated and, for a pull coroutine over a non-void type, "
     "a value is available; operator! is always the opposite. The function terminates by returning or by letting an exception escape, before or "
     "after any number of transfers, and the handle then stays false for ever. The counterpart passed to the function tests true "
     "inside it until it is moved from.",
     ["histories", "schedules"],
     "All lifecycles: empty, moved-from, not yet started, suspended after n transfers, terminated by return or by exception at any point, in pull and push, void, value and reference.",
     "Tests look at the flag a few times along single happy paths, and never after an exception out of a resume (the assertion in test_exceptions is unreachable).",
     [PI, SI, PC, SC, D + "state.hpp"],
     [("complete flag set when the function ends", PC + ", " + SC + " state |= state_t::complete"),
      ("validity test", PC + " valid(), " + SC + " valid(), " + PI + " operator bool"),
      ("pull handle emptied if the function ended during construction", PI + " constructor")],
     [("state", "complete/unwind/destroy bits", D + "state.hpp")],
     ["operator bool", "operator!"])

prop("C05", "An escaping exception reaches exactly the resumer, once and intact",
     "An exception escaping the coroutine function is thrown exactly once, with its dynamic type and content intact, out of the very operation that last resumed it (the "
     "pull constructor, operator() or an iterator step), and nowhere else. Afterwards the coroutine is terminated, everything it owned is released no later than its handle, "
     "other coroutines are unaffected, and the resumer's own exception state (exception being handled, exceptions in flight) is as it was before.",
     ["schedules", "fault_sequences", "histories"],
     "Any exception type, thrown at any point of the function and any frame depth, also by failing copies, with any resumer (main, another coroutine, a catch block, a thread other than the creator).",
     "One test throws one std::runtime_error from a push coroutine over void before any transfer; constructor propagation, later throws, value and reference types, non-std types and nesting are not tested.",
     [PC, SC],
     [("catch-all stores the exception", PC + ", " + SC + " except = std::current_exception()"),
      ("rethrown after each resume", PC + ", " + SC + " std::rethrow_exception( except)"),
      ("rethrown by the pull constructor", PC + " control_block( preallocated, ...)")],
     [("except", "exception waiting to be rethrown", "control_block::except")],
     ["exceptions out of constructors, operator() and iterators", "std::current_exception/uncaught_exceptions"])

prop("C06", "Destroying a suspended coroutine unwinds its stack completely",
     "Destroying (or overwriting by move assignment) a handle whose coroutine is suspended at any point destroys, before the destruction returns, every live local object "
     "of every frame on that coroutine's stack exactly once, innermost first, including other coroutines owned there. No other code of the function runs, the "
     "destruction throws nothing, and it works the same from any context, also while the destroying code is itself being unwound; a function that was never entered is "
     "discarded without running.",
     ["crash_points", "schedules", "histories"],
     "Every suspension point, frame depth and ownership nesting, with destruction from main, from another coroutine, during exception propagation and from another thread.",
     "test_unwind destroys at three fixed points, one frame deep, one local, from main.",
     [PC, SC, PI, SI],
     [("destroying the suspended continuation throws forced_unwind on its stack", PC + ", " + SC + " destroy()"),
      ("forced_unwind passes through the catch-all", PC + ", " + SC + " catch ( forced_unwind const&) { throw; }"),
      ("only the owning side unwinds", PC + ", " + SC + " deallocate()")],
     observe=["destructors of locals in coroutine functions"])

prop("C07", "Every coroutine stack is allocated once and given back exactly once",
     "Creating a coroutine asks the given stack allocator for exactly one stack, and that stack is given back exactly once, with the stack context it was obtained with and to a copy of that "
     "same allocator. It is given back only after all code and objects on it have finished, and no later than when the handle is destroyed, overwritten or its constructor exits by an exception. "
     "This holds for every ending: never started, completed, failed, abandoned, and for every bundled or user-supplied allocator. No other memory taken for a coroutine is left once its handle is gone.",
     ["histories", "fault_sequences", "crash_points"],
     "All lifecycles and failure points x {default, fixedsize, protected, pooled, user-defined} allocators passed as lvalue or rvalue.",
     "No test passes a stack allocator or counts stacks; leaks and double frees pass silently.",
     [CB, PC, SC, PI, SI, "include/boost/coroutine2/fixedsize_stack.hpp", "include/boost/coroutine2/protected_fixedsize_stack.hpp", "include/boost/coroutine2/pooled_fixedsize_stack.hpp"],
     [("allocation", CB + " salloc.allocate()"), ("release by the continuation's destructor", PC + ", " + SC + " destroy()"),
      ("release when the function ended inside the constructor", PI + " constructor")],
     observe=["StackAllocator::allocate/deallocate"])

prop("C08", "A coroutine stays inside its own stack and uses no memory after release",
     "The coroutine function runs on the stack obtained for that coroutine, with all but a small fixed overhead (plus the sizes of the callable and of one transferred value) of the size at its disposal, whatever the stack's "
     "address alignment, size or previous contents. Neither the library nor its bookkeeping writes outside the stack region or touches it after it was given back, and every stored value "
     "is aligned as its type requires. A stack is of the size asked for (of the default size if none was given), and a protected one has an inaccessible page below it.",
     ["inputs", "configurations", "histories"],
     "All stack sizes and (mis)alignments, dirty or recycled stacks, value types of any size and alignment, all lifecycles.",
     "Tests use the default stack only, ints and strings, and have no guard zones; an overrun or a use after free goes unnoticed.",
     [CB, PC, SC, D + "pull_control_block_cc.hpp"],
     [("control block placed at the aligned stack top", CB + " std::align"), ("remaining size", CB + " preallocated( sp, size, sctx)"),
      ("aligned value slot", D + "pull_control_block_cc.hpp alignas(T) storage")],
     observe=["addresses of locals and values", "guard zones around stacks", "released stacks"])

prop("C09", "Every transferred value object is destroyed exactly once",
     "Every value object the library creates while transferring is destroyed exactly once, on every path: overwritten by the next transfer, coroutine completed, failed, abandoned or never read, or a "
     "copy or move constructor throwing. Nothing the library destroys was not constructed, pushing an rvalue moves it and never copies and leaves no other value in it, and once a handle is "
     "gone no value pushed through it is left alive.",
     ["histories", "fault_sequences", "crash_points"],
     "All lifecycles x value types x passing modes, with copy/move failures injected at any transfer and destruction at any point.",
     "Tests transfer ints, strings and one move-only object and count neither constructions nor destructions.",
     [PC, SC],
     [("previous value destroyed before the next is constructed", PC + " set()"), ("last value destroyed with its holder", PC + " ~control_block()")],
     [("bvalid", "slot holds a live object", "pull control block")],
     ["constructors and destructors of the value type"])

prop("C10", "The callable is captured by value, used as given and destroyed exactly once",
     "The coroutine owns a decayed copy of the callable: an lvalue argument is copied and left unchanged, an rvalue is moved (move-only callables work), and the function keeps working on its own state after the argument "
     "is changed or destroyed. The copy stays alive and is the same object for as long as the function runs; every copy the library made is destroyed exactly once and "
     "none outlives the handle, whether or not the function was ever entered.",
     ["histories", "inputs", "fault_sequences"],
     "Functors passed as lvalue, const lvalue and rvalue, move-only functors, std::function, plain functions; all lifecycles; copy failures.",
     "test_move checks one copyable functor with only a bool of state and one move-only functor, each finishing during construction.",
     [CB, PC, SC, WR],
     [("init capture by forwarding", PC + ", " + SC + " fn_=std::forward< Fn >( fn)"), ("C++11 replacement", WR + " wrapper"),
      ("moved to the coroutine's stack frame", PC + ", " + SC + " auto fn = std::move( fn_)")],
     observe=["copy/move/destroy events of the callable"])

prop("C11", "Moving a handle moves the coroutine; the source becomes empty",
     "Moving a coroutine handle (construction or assignment), at any point of the coroutine's life (not started, suspended, running or terminated), transfers the coroutine with its suspension point, pending value and validity, disturbs nothing in it, and leaves the source empty "
     "(false, destructible, assignable). Move assignment destroys the coroutine previously held by the target before it returns, and assigning a handle to itself changes nothing. The counterpart object "
     "passed to the coroutine function can be moved within the function likewise.",
     ["histories", "schedules"],
     "All move graphs over handles in every state, in every lifecycle state of the coroutine, followed by any further use.",
     "test_move does one move assignment onto an empty handle and no move construction of a live handle; nothing is checked about an overwritten live coroutine.",
     [PH, SH, PI, SI],
     [("move constructors", PI + ", " + SI), ("move assignment", PH + ", " + SH + " operator=")],
     observe=["operator bool on both handles", "destructors run by assignment"])

prop("C12", "Iterating is the same as resuming and ends exactly at completion",
     "Iterating a pull coroutine visits exactly the values its function pushes, in order, each readable any number of times (and replaceable) through the iterator, one resume per increment; assigning through a push coroutine's output iterator pushes exactly "
     "the assigned values. An iterator from begin() equals end() exactly when the coroutine has terminated, when first obtained and after every completed step through it, and "
     "exceptions escape from the step that resumed. Member and free begin()/end() agree, and iterators may be used inside the coroutine function on its counterpart.",
     ["histories", "schedules", "fault_sequences"],
     "All streams (empty, long, failing midway, already advanced or completed by direct calls) of value and reference types, with other coroutines interleaved.",
     "Tests iterate three short happy sequences; empty, terminated and failing coroutines are never iterated.",
     [PH, SH],
     [("pull iterator", PH + " iterator::fetch_/increment_"), ("push iterator", SH + " iterator::operator=")],
     observe=["iterators, range-for, begin()/end()"])

prop("C13", "A failed operation throws to its caller and leaves everything usable",
     "If a stack cannot be allocated, copying the callable throws, or copying or moving a value throws, the operation lets that exception out to its caller and does not enter or resume the coroutine function; nothing leaks and nothing is destroyed twice. "
     "A coroutine whose push failed is still suspended where it was and accepts the next push, which delivers the right value; all other coroutines are untouched.",
     ["fault_sequences", "histories"],
     "Every allocation, copy and move performed inside a library operation may fail, in any state, repeatedly.",
     "No test makes anything fail except the coroutine function itself.",
     [CB, PC, SC, PI, SI],
     [("exception before the stack is owned", CB), ("exception between destroying the old and building the new value", PC + " set()")],
     observe=["exceptions out of constructors and operator()", "stack, value and callable accounting", "later transfers"])

prop("C14", "Coroutines are independent of one another and of threads",
     "An operation on one coroutine changes nothing about any other: interleaving operations on different coroutines in any order, also from different threads and in the middle of each other's operations, gives each the "
     "same history as running it alone. A suspended coroutine may be resumed, moved or destroyed by a thread other than the one that created or last resumed it.",
     ["schedules", "histories"],
     "All interleavings of up to three threads at operation boundaries and at every call-out made inside an operation (allocator, value and callable copies, destructors).",
     "All tests are single-threaded and use at most two coroutines.",
     [PC, SC, CB, PI, SI],
     [("all state lives in the per-coroutine control block, no statics", D + "pull_control_block_cc.hpp, " + D + "push_control_block_cc.hpp")],
     observe=["histories of every coroutine in multi-threaded runs"])

prop("C15", "Looking at a coroutine does not change it",
     "Between two resumes, testing a handle, comparing or copying iterators, dereferencing an iterator and reading the current value of a copyable type give the same answer however often and in whatever order they are done. None of "
     "them enters the coroutine function, moves or destroys the current value, or affects any later transfer (only a move-only value may be taken just once).",
     ["histories", "inputs"],
     "All sequences of observers between resumes, in every lifecycle state, all value types.",
     "Tests read each value once.",
     [PI, SI, PH, SH, PC],
     [("observers", PI + " operator bool/get, " + PH + " iterator")],
     observe=["get(), operator bool, operator!, iterators"])

prop("C16", "Pipelines and recursive generators compute what the direct program computes",
     "Programs composed of coroutines - recursive generators, filters stacked on generators, push sinks fed from other coroutines, two generators walked in lock-step - produce exactly the result of the equivalent coroutine-free program, for every "
     "input and every order in which the stages are driven. Cutting such a composition off at any point, by destroying it or by an exception in any stage, propagates to the consumer and releases every stage.",
     ["inputs", "schedules", "crash_points", "fault_sequences"],
     "Random trees, streams, stage graphs (depth up to 6), drive orders, cut-off points and stage failures.",
     "No test composes coroutines beyond one parent and one child over void; the documented idioms (same fringe, layout, parser) are only compiled.",
     [PC, SC, PH, SH, PI, SI],
     [("each stage is a stackful coroutine driven through the public API", "doc/motivation.qbk, doc/asymmetric.qbk")],
     observe=["output of the composition", "accounting after cut-off"])

prop("C17", "Coroutine types are move-only and their conversions are explicit (type level)",
     "pull_type and push_type are not copyable, are nothrow move-constructible and nothrow move-assignable, and convert to bool only explicitly; the constructor taking a callable does not hijack copy or move construction.",
     ["programs"], "All programs: a property of overload resolution.", "Tests contain no static assertions.",
     [PH, SH, D + "disable_overload.hpp"], [("deleted copy operations, disable_overload", PH + ", " + SH)], observe=["compile time"])

prop("C18", "Segmented stacks grow on demand",
     "With segmented stacks enabled, a coroutine whose function needs more stack than it was created with continues on additional segments of its own, at any depth and across any number of suspensions, resumes (also by other threads), exceptions and moves of the handle, whatever constructor created it (segmented stacks are then the default). All its segments are released with it, and none of them holds anything of another coroutine.",
     ["configurations", "inputs", "histories"], "Any sequence of frames of any size entered and left by any number of coroutines on builds with segmented stacks, suspended, failing, migrating or destroyed at any depth.", "Needs a build with split stacks; the tests do not run it.",
     ["include/boost/coroutine2/segmented_stack.hpp", "include/boost/coroutine2/detail/create_control_block.ipp"], [("alias of Boost.Context's segmented_stack, default_stack", "include/boost/coroutine2/segmented_stack.hpp"), ("the stack context, with its segments, is handed to the fiber", "include/boost/coroutine2/detail/create_control_block.ipp")], observe=["stack growth", "memory mappings"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
