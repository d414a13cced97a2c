#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: tools/mkprops.py > properties.jsonl)."""
import json
I = "include/upd/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Integers are encoded in the declared byte order and signed representation",
 "Serialising an integer of any type and width yields exactly as many bytes as the type is wide, and these bytes are the canonical encoding of the value in the chosen byte order (little or big) and, for signed types, in the chosen signed representation (sign-magnitude, ones' complement, two's complement or offset binary). This holds for every value the representation can express, for scalars and for every element of an array, and wherever the value is serialised (tuple, view, request, response).",
 ["inputs", "configurations"], "all integer types (8 to 64 bits, bool, signed and unsigned) x all representable values x 2 byte orders x 4 signed representations x platform-hint configurations",
 "test/unaligned_data.cpp and test/tuple.cpp check a handful of constants; 2^64 values x 8 formats x 4 hint configurations cannot be sampled by hand, and sign/width boundaries are mostly untested.",
 [I+"detail/endianess.hpp", I+"detail/signed_representation.hpp", I+"detail/serialization.hpp", I+"format.hpp"],
 [("byte-order conversion", I+"detail/endianess.hpp: to_endianess / from_endianess"), ("signed representation", I+"detail/signed_representation.hpp: to_signed_mode / from_signed_mode"), ("array recursion", I+"detail/serialization.hpp: write_as for arrays")],
 ["bytes of upd::tuple", "bytes behind upd::tuple_view", "bytes emitted by a key", "bytes emitted by an action"])

prop("C02", "Decoding inverts encoding and is defined for every byte pattern",
 "Reading back a serialised value gives the original value for every representable value, in every format. Reading any byte pattern whatsoever, including non-canonical ones such as a negative zero or the most negative two's complement value, gives the value the format assigns to these bytes, without undefined behaviour and without modifying the bytes.",
 ["inputs", "configurations"], "all byte patterns and all representable values of every integer type and format, under every platform hint",
 "tests round-trip a few positive and negative constants; they never decode arbitrary wire bytes (extremes, negative zero, non 0/1 booleans), which is exactly what a peer can send.",
 [I+"detail/endianess.hpp", I+"detail/signed_representation.hpp", I+"detail/serialization.hpp", I+"tuple.hpp"],
 [("from_endianess / from_signed_mode", I+"detail/endianess.hpp, "+I+"detail/signed_representation.hpp"), ("read_as", I+"detail/serialization.hpp")],
 ["upd::tuple::get", "upd::tuple_view::get", "upd::key::read_from", "arguments received by callbacks"])

prop("C03", "Tuples are packed in order and an element write touches only that element",
 "A tuple of any element types stores its elements in declaration order without padding: its size is the sum of the serialised sizes of its elements and element i starts where element i-1 ends. Writing one element changes exactly the bytes of that element and leaves every other element's value unchanged, reading changes nothing, a default-constructed tuple holds zero values, copies are independent, and iteration, indexing and storage all show the same bytes.",
 ["inputs", "histories", "programs"], "all element type lists, formats, values and sequences of set/get/poke/copy operations",
 "tests use a few fixed tuples of at most 3-4 elements and a single operation; offset arithmetic over arbitrary type lists and operation histories is not exercised.",
 [I+"tuple.hpp", I+"detail/serialization.hpp", I+"detail/type_traits/typelist.hpp"],
 [("offset computation", I+"tuple.hpp: get/set via sum<clip<sizes_t,0,I>>"), ("serialised sizes", I+"tuple.hpp: serialization_size"), ("typelist algebra", I+"detail/type_traits/typelist.hpp")],
 ["upd::tuple begin/end/operator[]", "upd::get / upd::set", "tuple::size"])

prop("C04", "Views alias exactly the bytes they are bound to, over any forward iterator",
 "A view over a byte sequence, or over a slice of a tuple's elements, reads and writes precisely the bytes it covers, immediately and in both directions, whatever the underlying iterator (pointer, random-access, list, user-defined forward iterator). It never accesses a byte outside its range, its begin and end delimit exactly its serialised size, and a view of a constant tuple reads the same values.",
 ["inputs", "histories", "programs"], "all type lists, slices (first element, length), formats, iterator kinds, buffer offsets and interleavings of reads and writes through views and through the underlying storage",
 "tests/tuple_view.cpp covers pointers and one container with fixed types; slices at arbitrary positions, mixed sizes and non-pointer iterators over user-defined types are not covered.",
 [I+"tuple.hpp", I+"detail/serialization.hpp"],
 [("slice offsets", I+"tuple.hpp: tuple::view, make_view"), ("non-pointer iterators", I+"detail/serialization.hpp: read_as/write_as with require_not_pointer"), ("bounds", I+"tuple.hpp: tuple_view m_begin/m_end")],
 ["upd::make_view", "upd::tuple::view", "underlying container bytes"])

prop("C05", "Assigning between tuples converts by value and invoke forwards values in order",
 "Assigning a tuple or a view to another tuple or view preserves every element's value even when the byte order, the signed representation, or the storage differ, and also when source and destination overlap. Invoking a callable with a tuple calls it exactly once with all element values in order and returns its result, and generic access through the standard tuple protocol (element count, get, structured bindings) sees the same values.",
 ["inputs", "programs"], "all type lists, values, ordered pairs of formats and source/destination kinds",
 "tests assign one or two fixed tuples; the cross product of formats, storage kinds and type lists is not sampled.",
 [I+"tuple.hpp"],
 [("operator=", I+"tuple.hpp: tuple_base::operator=, lay_tuple"), ("invoke", I+"tuple.hpp: invoke, normalize")],
 ["upd::tuple operator=", "tuple::invoke", "structured bindings"])

prop("C06", "User-defined types occupy exactly their declared fields everywhere",
 "A type with a user-provided serialisation extension is laid out as the sequence of its declared fields in the enclosing format, without any byte for padding or alignment, wherever it appears: alone, nested in another user type, in an array, as parameter or as return value. Consequently every size the library reports or relies on (tuple size, request length, action input and output sizes, buffer sizes) counts the serialised fields, and a value always survives the round trip.",
 ["inputs", "programs"], "all user-defined types (field lists, in-memory layouts larger or smaller than the wire form, nesting, arrays), formats and values, in every position",
 "the only tested user type has no padding and identical in-memory and wire sizes, so no test can tell sizeof from the serialised size.",
 [I+"detail/serialization.hpp", I+"tuple.hpp", I+"key.hpp", I+"action.hpp", I+"buffered_dispatcher.hpp", I+"detail/type_traits/signature.hpp"],
 [("serialized size", I+"detail/serialization.hpp / tuple.hpp: serialization_size"), ("extension hooks", I+"upd.hpp: upd_extension")],
 ["tuple::size", "key::payload_length", "action::input_size/output_size", "bytes on the wire"])

prop("C07", "Platform hints and language standard never change observable behaviour",
 "Declaring the platform's byte order and/or signed representation, choosing C++11, 14, 17 or 20, or choosing another conforming compiler or optimisation level is purely an optimisation or syntax choice. The same program fed the same inputs produces the same bytes, values, sizes, statuses and callback invocations in every such configuration.",
 ["configurations", "programs", "inputs"], "all pairs of configurations (hints none/endianness/signed mode/both x C++11..20 x gcc/clang x -O levels), programs and inputs",
 "the suite is run in two configurations with the same expected constants, so a divergence outside these constants is invisible, and single-hint configurations are never built.",
 [I+"upd.hpp", I+"detail/endianess.hpp", I+"detail/signed_representation.hpp", I+"detail/type_traits/typelist.hpp", I+"keyring.hpp"],
 [("platform_info dispatch", I+"upd.hpp: platform_info"), ("memcpy fast paths", I+"detail/endianess.hpp, detail/signed_representation.hpp"), ("two typelist implementations", I+"detail/type_traits/typelist.hpp")],
 ["full transcript of a generated program"])

prop("C08", "A request is the callee's index followed by the arguments, and nothing else",
 "The bytes a key emits for a call are the position of the function in the keyring, as the smallest unsigned integer able to hold the number of functions, followed by the arguments in order, all in the keyring's format (little endian and two's complement for a keyring made from its functions only). The advertised payload length is exactly the number of bytes emitted, and emitting the same request again, to any kind of output, gives the same bytes.",
 ["inputs", "programs"], "all keyrings (up to and beyond 255 and 256 functions), functions, argument values, formats and output kinds",
 "tests use keyrings of at most a few functions, so the index width never changes, and compare a few constants.",
 [I+"key.hpp", I+"keyring.hpp", I+"detail/serialized_message.hpp", I+"detail/type_traits/smallest.hpp"],
 [("index type", I+"keyring.hpp: index_t = smallest_unsigned_t"), ("message", I+"detail/serialized_message.hpp"), ("payload_length", I+"key.hpp")],
 ["key::operator()(...).write_to / >>", "key::payload_length", "key::index"])

prop("C09", "A response is decoded from exactly its own bytes",
 "Given the bytes of a response, a key consumes exactly the serialised size of the function's return type (nothing for a function returning nothing), from any kind of input, and gives back the returned value. A hook made from a key consumes the same bytes and calls the hooked callback exactly once with that value, so a stream of consecutive responses is decoded without losing or borrowing bytes.",
 ["inputs", "histories", "programs"], "all return types, values, formats, hook kinds, input kinds and streams of consecutive responses",
 "tests decode single responses with a few constants and never check how many bytes were consumed.",
 [I+"key.hpp", I+"action.hpp", I+"detail/io/immediate_reader.hpp"],
 [("read_from", I+"key.hpp: read_from"), ("hooks", I+"key.hpp: with_hook")],
 ["key::read_from / <<", "key::with_hook"])

prop("C10", "An action consumes its parameters, calls once and emits its result",
 "Executing an action reads exactly its advertised input size, calls the wrapped callable exactly once with the decoded arguments, and emits exactly its advertised output size, which are the serialised sizes of the parameters and of the result (zero for none). This holds for every kind of callable (function, capturing or stateful functor, statically stored), repeatedly and identically whether or not the action stores the callable; an empty action reads, calls and emits nothing.",
 ["inputs", "histories", "programs"], "all signatures, formats, argument values, callable kinds and repetition counts",
 "tests wrap a few fixed functions once; sizes and byte counts over arbitrary signatures are not checked.",
 [I+"action.hpp", I+"detail/function_reference.hpp"],
 [("dynamic action", I+"action.hpp: action_model"), ("static action", I+"action.hpp: no_storage_action"), ("byte callbacks", I+"detail/function_reference.hpp")],
 ["action::operator()", "no_storage_action::operator()", "input_size / output_size"])

prop("C11", "An unbuffered dispatcher runs exactly the requested function, or none",
 "Given a request, an unbuffered dispatcher reads the index and then exactly that function's parameters, runs that function and no other, emits exactly its result and returns the index. Given an index outside the keyring it returns that index having read only the index, called nothing and emitted nothing; looking up an index or an action reads only the index and gives the same answer as dispatching.",
 ["inputs", "histories", "programs"], "all keyrings (including 255, 256 and more functions), valid and invalid indices, argument values, formats, policies and request streams",
 "tests dispatch to two or three functions with a one-byte index and one invalid index.",
 [I+"dispatcher.hpp"],
 [("routing", I+"dispatcher.hpp: operator(), get_index, get_action, operator[]")],
 ["dispatcher::operator()", "get_index", "get_action", "operator[]"])

prop("C12", "A remote call gives the same effect and result as a direct call",
 "For any keyring shared by caller and callee, encoding a call with its key, passing the bytes through any dispatcher (unbuffered, single-buffered, double-buffered or user-derived, with any storage policy), and decoding the response has the same effect and result as calling the function directly with the same arguments. This holds for any sequence of calls over the same stream, in any order and with any mix of functions.",
 ["inputs", "histories", "programs"], "all keyrings, formats, call sequences, argument values, dispatcher kinds and storage policies",
 "tests perform isolated calls on fixed three-function keyrings; sequences, mixed sizes and most parameter/return type combinations are unexplored.",
 [I+"keyring.hpp", I+"key.hpp", I+"dispatcher.hpp", I+"buffered_dispatcher.hpp", I+"action.hpp", I+"tuple.hpp"],
 [("shared keyring", I+"keyring.hpp"), ("caller side", I+"key.hpp"), ("callee side", I+"dispatcher.hpp, buffered_dispatcher.hpp")],
 ["invocation log of the callee", "decoded result at the caller"])

prop("C13", "Packets resolve at exactly their last byte however they are fed",
 "A buffered dispatcher reports LOADING for every byte of a request but the last, and RESOLVED at the last, at which point the function has been called exactly once. The outcome depends only on the byte sequence and not on how it is cut: single puts, whole-packet reads, pauses, interleaved queries and partial retrieval of the response give the same statuses, calls and response bytes; the response is available in order until exhausted, after which the dispatcher reports not loaded and yields zero bytes.",
 ["histories", "inputs", "programs"], "all request streams, all cuts of the stream into puts and reads, all interleavings of status queries and output retrieval allowed by the dispatcher kind",
 "tests feed whole packets or byte by byte for one function; no history mixes both or interleaves retrieval.",
 [I+"buffered_dispatcher.hpp"],
 [("packet state machine", I+"buffered_dispatcher.hpp: put, read_from, call"), ("output", I+"buffered_dispatcher.hpp: get, write_to, is_loaded")],
 ["put / read_from / get / write_to / is_loaded / operator()", "callee invocation log"],
 [("m_load_count", "bytes still expected", I+"buffered_dispatcher.hpp"), ("m_is_index_loaded", "index part complete", I+"buffered_dispatcher.hpp"), ("m_obuf_next/m_obuf_bottom", "pending response window", I+"buffered_dispatcher.hpp")])

prop("C14", "A request for an unknown index is dropped and the stream resynchronises",
 "When the index received by a buffered dispatcher designates no function, the dispatcher reports DROPPED at the last byte of the index, having called nothing and produced no output, and treats the next byte as the beginning of a new request. Any number of dropped requests, anywhere in the stream, leaves later valid requests unaffected, and a response already pending in a separate output buffer is preserved.",
 ["histories", "inputs", "programs"], "all interleavings of unknown indices (every out-of-range value, one- and two-byte indices) with valid requests, cuts and dispatcher kinds",
 "one test drops one packet with a one-byte index on a single-buffered dispatcher.",
 [I+"buffered_dispatcher.hpp", I+"dispatcher.hpp"],
 [("drop branch", I+"buffered_dispatcher.hpp: put"), ("bounds check", I+"dispatcher.hpp: index < size")],
 ["packet_status returned by put / read_from / operator()"])

prop("C15", "Buffers fit every request and response exactly and are never overrun",
 "The buffer sizes of single- and double-buffered dispatchers are exactly the largest request (index plus parameters) and/or the largest response of the keyring: large enough for every packet and no larger. No sequence of bytes received or retrieved, valid or garbage, makes a dispatcher touch memory outside these sizes, including when a user-derived dispatcher supplies buffers of exactly these sizes.",
 ["inputs", "histories", "programs"], "all keyrings (returns larger than parameters and conversely, no parameters, no results, user types, arrays) and all byte streams, including random garbage",
 "tests check sizes for one keyring where the largest parameter list and the largest return value coincide, and run without a memory checker.",
 [I+"buffered_dispatcher.hpp"],
 [("size computation", I+"buffered_dispatcher.hpp: needed_input_buffer_size / needed_output_buffer_size"), ("buffer writes", I+"buffered_dispatcher.hpp: put, call")],
 ["buffer_size, input_buffer_size, output_buffer_size", "memory checker on exact-size buffers"])

prop("C16", "A double-buffered dispatcher receives and sends independently",
 "While a response is pending or partly retrieved in a double-buffered dispatcher, receiving any part of the next request changes neither the pending bytes nor whether output is available, and retrieving output changes nothing about the request being received. Only the completion of the next request replaces the pending response, as a whole, by the new one (or by nothing if the function returns nothing).",
 ["histories", "inputs", "programs"], "all interleavings of input bytes and output retrievals at byte granularity, over all keyrings",
 "one test interleaves one request and one response at a single fixed point.",
 [I+"buffered_dispatcher.hpp"],
 [("separate buffers and cursors", I+"buffered_dispatcher.hpp: double_buffered_dispatcher, m_ibuf_next, m_obuf_next")],
 ["put / get / is_loaded / write_to"])

prop("C17", "Replacing an action changes that function only, from the next call on",
 "After replacing the action of one function of a dispatcher by another callable of the same signature, requests for that function run the new callable and requests for every other function run what they ran before. The wire format, sizes and any packet or response in progress are unaffected, replacement can be repeated any number of times, and dispatchers made from the same keyring do not influence each other.",
 ["histories", "inputs", "programs"], "all sequences of replacements (every index, functions, functors, stored or static) interleaved with requests, mid-packet included, for every dispatcher kind and policy",
 "tests replace one action once between two packets.",
 [I+"dispatcher.hpp", I+"buffered_dispatcher.hpp"],
 [("replace", I+"dispatcher.hpp: replace overloads; buffered_dispatcher.hpp: replace forwarding")],
 ["invocation log", "responses"])

prop("C18", "Moving or copying a dispatcher or action preserves its state",
 "A dispatcher moved (or, with static storage policy, copied) at any point of receiving or sending continues in its destination exactly where the source stood: same partial request, same pending response, same actions. Copies then evolve independently, and a moved action behaves in its destination as it did in its source.",
 ["histories", "programs", "inputs"], "all positions within request and response at which the move or copy happens, construction and assignment, all dispatcher kinds and policies",
 "one test moves one single-buffered dispatcher at two fixed points.",
 [I+"buffered_dispatcher.hpp", I+"dispatcher.hpp", I+"action.hpp"],
 [("value semantics", I+"buffered_dispatcher.hpp: in-object buffers and indices rather than pointers")],
 ["statuses, outputs and calls after the move"])

prop("C19", "reply() wraps a pending response into one request to the peer, or does nothing",
 "Replying with a key that takes a byte array emits one request for that key whose array begins with the whole pending response, leaves nothing pending and reports success; the peer decodes the original value from the array. When the response does not fit in the array, or has been partly retrieved already, replying emits nothing, changes nothing and reports failure.",
 ["inputs", "histories", "programs"], "all keyrings, responses, reply-array lengths (shorter, equal, longer), array kinds and positions in the response",
 "tests reply to two requests with one sufficiently large array; the refusal cases are not tested.",
 [I+"buffered_dispatcher.hpp"],
 [("reply", I+"buffered_dispatcher.hpp: reply")],
 ["bytes emitted by reply()", "return value", "is_loaded"])

prop("C20", "An exception from a callback, source or destination leaves the dispatcher usable",
 "When the function run by a request throws, the exception reaches the caller and the dispatcher is left expecting a new request with no response pending, so that following requests are processed as if the failed one had not occurred. When the byte source throws, the bytes received before are kept and the packet can be completed afterwards. When the destination throws, no byte it has accepted is emitted again and the bytes of the response that follow the refused one are still pending.",
 ["fault_sequences", "histories", "inputs"], "all placements of throwing calls, byte sources and destinations in request streams and responses, all dispatcher kinds and policies",
 "no existing test makes a callback or a source throw, although callbacks bound from Python do so routinely.",
 [I+"buffered_dispatcher.hpp", I+"dispatcher.hpp", I+"python.hpp"],
 [("state reset around the callback", I+"buffered_dispatcher.hpp: call")],
 ["exception propagation", "statuses, calls and responses after the exception"])

prop("C21", "Every way of naming an input or output is equivalent",
 "Reading and writing through a function, a functor, a lambda, a plain pointer, or any input or output iterator, and with the named functions, the shift operators or the call operator, in C++11 or C++17 notation, transfers the same bytes and gives the same result. Each byte is requested or delivered exactly once and in order, and no byte beyond those needed is touched.",
 ["programs", "inputs"], "all combinations of input notation x output notation x operation (request, response, action, dispatcher, buffered dispatcher)",
 "tests use mostly pointers; single-pass iterators, output-only iterators and mixed forms are barely covered.",
 [I+"detail/io/immediate_process.hpp", I+"detail/io/immediate_reader.hpp", I+"detail/io/immediate_writer.hpp"],
 [("iterator adaptors", I+"detail/io/*.hpp"), ("iterator detection", I+"detail/type_traits/require.hpp, iterator_category.hpp")],
 ["bytes transferred, order and count of accesses, result"])

prop("C22", "Without stored callbacks, nothing is ever allocated dynamically",
 "Building and using keyrings, keys, tuples, views, static actions and dispatchers of any kind with the static storage policy, including replacement, dropping and replying, never allocates dynamic memory. With stored callbacks, memory is only allocated when a callback is stored: carrying one out allocates nothing. This holds for every keyring and every byte stream.",
 ["inputs", "histories", "programs"], "all keyrings, byte streams and operation sequences with either storage policy",
 "no test observes allocations.",
 [I+"action.hpp", I+"dispatcher.hpp", I+"buffered_dispatcher.hpp", I+"tuple.hpp", I+"detail/function_reference.hpp"],
 [("no_storage_action", I+"action.hpp"), ("function references instead of std::function", I+"detail/function_reference.hpp")],
 ["allocation functions called during library operations"])

prop("C23", "Stored callbacks are copies, owned and destroyed exactly once",
 "With the storing policy, an action, hook or dispatcher keeps its own copy (or moved instance) of the callable it is given: later changes to, or destruction of, the original do not affect it, and state kept inside the stored callable persists across calls. The stored callable lives until it is replaced or its owner is destroyed, moving the owner neither copies nor drops it, and every instance is destroyed exactly once.",
 ["histories", "programs"], "all sequences of construction from lvalues/rvalues/move-only callables, calls, moves, replacements and destructions",
 "tests only pass temporaries and never count instances.",
 [I+"action.hpp", I+"dispatcher.hpp", I+"key.hpp"],
 [("ownership", I+"action.hpp: action_model, unique_ptr")],
 ["instance counters and captured state of generated callables"])

prop("C24", "Python keys speak the same wire format as C++",
 "For every keyring exposed to Python, each key appears under its function's name and its index, encoding and decoding agree byte for byte with the C++ wire format for all argument values. Arguments outside the parameter types' range and payloads too short to hold the result raise a Python exception instead of producing wrong bytes, wrong values or a crash.",
 ["inputs", "programs"], "all exposed keyrings (functions, functors, lambdas, namespaces, arrays), argument values including out-of-range ones, and payloads of any length",
 "the Python tests encode and decode a dozen constants with one module.",
 [I+"python.hpp", "py/unpadded/_details.cpp"],
 [("define_pykey", I+"python.hpp"), ("name extraction", I+"python.hpp: demangle")],
 ["module attributes; key.encode/decode/index"])

prop("C25", "A dispatcher exposed to Python behaves as the C++ one",
 "Through put, get, read_from, write_to, is_loaded and replace, a dispatcher exposed to Python goes through the same statuses, calls and output bytes as the C++ double-buffered dispatcher over the same keyring, with functions replaced by Python callables receiving the decoded arguments. A Python callable that raises, or that returns a value outside the result type, surfaces as a Python exception and leaves the dispatcher able to process the next request. Extension modules can be used in the same interpreter, even when their functions have the same names.",
 ["histories", "inputs", "fault_sequences"], "all operation sequences with native and Python callables, values, and exceptions at any call",
 "the Python tests run a few straight-line scenarios with one keyring.",
 [I+"python.hpp", I+"buffered_dispatcher.hpp", "py/unpadded/_details.cpp"],
 [("declare_dispatcher", I+"python.hpp"), ("__make_action", I+"python.hpp")],
 ["methods of the exposed dispatcher class"])

prop("C26", "A Python client call sends one request and returns its own decoded response",
 "Calling a key through a client passes exactly the encoded request to the user's transport once and returns the decoded response when the transport yields bytes, or the transport's own object unchanged otherwise. Concurrent calls completing in any order each get their own response, transport errors propagate, and a client without a transport raises NotImplementedError.",
 ["schedules", "inputs"], "all interleavings of concurrent calls and completions, payloads, and transport outcomes",
 "the Python tests await one call at a time.",
 ["py/unpadded/client.py"],
 [("Client.call", "py/unpadded/client.py")],
 ["requests seen by the transport; awaited results"])

prop("C27", "Importing an extension source always reflects its current contents",
 "Importing an uncompiled extension module through the package gives a module that matches the current contents of its source file and of every header it includes (including those in extra include directories), whatever was imported or built before. A source that does not opt in is not built, and a source that does not compile raises an import error rather than silently giving a stale module.",
 ["histories", "inputs"], "all histories of edits to the module source or to included headers, followed by imports in new interpreters",
 "the Python tests import one never-changing module.",
 ["py/unpadded/hook.py", "py/unpadded/__init__.py"],
 [("import hook", "py/unpadded/hook.py: Hook.find_spec"), ("build configuration", "py/unpadded/hook.py: setup_unpadded")],
 ["attributes of the imported module"])

prop("C28", "Ill-typed uses are rejected at compile time, well-typed ones accepted",
 "A program that uses the API against its types does not compile: calling a key with the wrong number or incompatible types of arguments, asking a keyring for a function it does not hold, replacing an action by a callable of another signature, at an index out of range or (for a callable with state) in a dispatcher of static actions, putting a qualified or non-serialisable type (floating-point, pointer, class without an extension) in a tuple or a signature, accessing an element out of range or with a value of another type, or reading from or writing to something that is neither a byte function nor a byte iterator. The corresponding well-typed program compiles, in every supported language standard.",
 ["programs", "configurations"], "all generated well-typed programs and single-fault mutations of them, in C++11 to C++20",
 "the test suite only contains programs that compile, so a lost compile-time guarantee is invisible to it.",
 [I+"detail/static_error.hpp", I+"dispatcher.hpp", I+"key.hpp", I+"keyring.hpp", I+"tuple.hpp", I+"typelist.hpp"],
 [("static assertions", I+"dispatcher.hpp: replace; tuple.hpp: tuple_base; typelist.hpp: flist_t"), ("SFINAE failure members", I+"detail/static_error.hpp")],
 ["exit status of the compiler"])

prop("C29", "Overlapping executions do not disturb each other",
 "While an operation of the library is in progress (it has called a callback, a byte source, a byte destination or a user-defined iterator, or it runs on another thread), any operation on other objects, reading the same constant tuple or view, and using the same key have the results they would have alone; so has another request issued, from within a callback or a byte function, to the same unbuffered dispatcher or action (when the called functions keep no state). The interrupted operation then completes as if nothing had happened. The library keeps no hidden state shared between objects or calls, and no data race occurs between threads which share constant tuples, views, keys and keyrings only.",
 ["schedules", "histories", "inputs"], "all pairs of operations, all points at which one can interrupt the other, all interleavings of threads",
 "the unit tests never start an operation inside another one and use a single thread.",
 [I+"action.hpp", I+"dispatcher.hpp", I+"buffered_dispatcher.hpp", I+"key.hpp", I+"tuple.hpp", I+"detail/serialization.hpp"],
 [("requests in progress", I+"action.hpp: action_model, no_storage_action; dispatcher.hpp: dispatcher::operator()"), ("encoding and decoding", I+"tuple.hpp; detail/serialization.hpp; key.hpp")],
 ["invocations, emitted bytes and results of both executions", "reports of ThreadSanitizer"])

prop("C30", "The public headers compose: alone, in any order, in any number of units",
 "Every public header of the C++ library compiles when included alone, repeatedly, or with the others in any order, whatever the program declares in its own namespaces or in the global one, and defines no macro that is not named after the library. Any number of translation units, with any of the headers, can be linked into one program, without the definitions of the functions of a keyring if it only makes requests; a keyring, its functions and a dispatcher declared in a shared header are the same objects in all of them, so that a request encoded in one unit is served in another, a function replaced in one unit is replaced for all, and each unit gets the bytes and values that a single-unit program would get.",
 ["programs", "configurations"], "all sets and orders of inclusion, distributions of declarations and operations over units, compilers, standards and code generation options",
 "each unit test is a single translation unit which includes the headers it needs in one order.",
 [I+"action.hpp", I+"buffered_dispatcher.hpp", I+"dispatcher.hpp", I+"format.hpp", I+"key.hpp", I+"keyring.hpp", I+"policy.hpp", I+"tuple.hpp", I+"type.hpp", I+"typelist.hpp", I+"unevaluated.hpp"],
 [("include directives and inline definitions", "include/upd/*.hpp"), ("constants with linkage", I+"format.hpp; "+I+"unevaluated.hpp")],
 ["exit status of the compilers and of the linker", "output of the linked program", "macros defined after the inclusion"])

for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(json.dumps(p))
