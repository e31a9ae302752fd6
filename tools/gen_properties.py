#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is edited here)."""
import json, os
S="server/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],
        state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
        mechanism=[dict(name=a,where=S+b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","The store answers every history as an ordinary key-value map would",
 "After any history of set, conditional set, update, delete and reads, every read of a key returns exactly the value last successfully written to it (with the value's type reported correctly), or absence if it was never written or was deleted. Conditional set writes only when the key is absent, update only when it is present, delete removes the entry, and each reports truthfully whether it took effect; get, update and type queries of an absent key fail with a key error. An operation on one key never affects any other key, and the reported entry count equals the number of stored entries.",
 ["histories","inputs"],"All finite histories of store operations over any keys, values of every type, with and without lifetimes, both through the Storage trait and through interpreter statements.",
 "The unit tests run a handful of two- and three-step histories over one or two keys; agreement with a map is a claim about every history.",
 ["storage/hashmap_storage.rs","storage/types.rs","analysis/interpreter.rs"],
 [("HashMapStorage Storage impl","storage/hashmap_storage.rs"),("Interpreter::process_statement dispatch","analysis/interpreter.rs")],
 [("storage","key to container map","storage/hashmap_storage.rs")],["Storage trait results","Interpreter::interpret responses"])

p("C02","An entry is visible until its lifetime ends and absent from then on",
 "An entry given a lifetime of N seconds is visible to every statement until N seconds have passed and from then on is treated by every statement (reads, existence, type, update, delete, conditional set, lifetime change, vector and map operations) exactly as an absent key, whether or not it has been physically removed; an entry without a lifetime never expires. Rewriting an entry or changing its lifetime replaces the previous lifetime (including removing it), edits of a vector or map element keep it, and the reported remaining lifetime is the number of whole seconds left. A lifetime too large to represent is rejected with an error and changes nothing.",
 ["histories","inputs","schedules"],"All histories of statements interleaved with the passage of time, all lifetimes.",
 "One unit test stores one already-expired element; no test lets time pass, combines lifetimes with conditional set, element edits or rewrites, or uses large lifetimes.",
 ["storage/hashmap_storage.rs","storage/types.rs","analysis/interpreter.rs"],
 [("StorageElement::is_expired","storage/types.rs"),("expired guards in get/get_mut/contains_key/update_expiration","storage/hashmap_storage.rs"),("lifetime to timestamp conversion","analysis/interpreter.rs")],
 [("expiration","optional absolute expiry time of an element","storage/types.rs")],["Interpreter::interpret responses","Storage trait results"])

p("C03","Sweeping expired entries is invisible, exact and complete",
 "Running the expiry sweep at any points of any history never fails and never changes the answer to any other statement; it removes only expired entries, removes none while nothing is expired, and reports exactly how many entries it removed. Repeated sweeping eventually removes every expired entry, so expired entries do not accumulate. At all times the number of entries tracked as expiring equals the number of stored entries that carry a lifetime.",
 ["histories","schedules"],"All histories of writes, rewrites, lifetime changes, deletes, passage of time and sweeps, and every choice the sweep makes of which entry to examine.",
 "No existing test runs a sweep at all; the index bookkeeping only breaks after particular sequences of insert, rewrite, delete and sweep.",
 ["storage/hashmap_storage.rs","analysis/interpreter.rs","multithreaded/expiration.rs","async.rs"],
 [("invalidate_key_index swap-remove","storage/hashmap_storage.rs"),("check_and_expire / invalidate_expired_keys","storage/hashmap_storage.rs"),("ExpireKeys statement","analysis/interpreter.rs")],
 [("expiring_keys","vector of keys that carry a lifetime","storage/hashmap_storage.rs"),("key_index","position of an entry in expiring_keys","storage/hashmap_storage.rs")],
 ["ExpireKeys response","len","expiring_keys_count"])

p("C04","A vector value behaves as a typed sequence",
 "For any history of append, pop, indexed read, indexed write, length and whole-value reads, a vector value agrees with an ordinary sequence holding elements of its declared type in order. Appending or writing an element of another type, an index beyond the end, and any vector operation on a key that is absent or holds something else fail with a type, index or key error respectively and leave the sequence as it was; popping an empty vector returns null.",
 ["histories","inputs"],"All element types, all operation histories, all indices and element values, through StorageVector and through interpreter statements.",
 "The unit tests push and read up to three elements of fixed values and never compare a long mixed history with a reference sequence.",
 ["storage/types.rs","analysis/interpreter.rs"],
 [("StorageVector","storage/types.rs"),("validate_value","storage/types.rs"),("vector_* handlers","analysis/interpreter.rs")],
 [("vector","the elements","storage/types.rs")],["Interpreter::interpret responses","StorageVector methods"])

p("C05","A map value behaves as a typed dictionary",
 "For any history of element set, get, delete, exists, length and whole-value reads, a map value agrees with an ordinary dictionary from keys of its declared key type (integer or string) to values of its declared element type: distinct keys never alias, setting an existing key replaces its value, and delete reports whether the key was present. A key or element of another type, reading a missing element, and any map operation on a key that is absent or holds something else fail with a type, index or key error respectively and leave the dictionary as it was.",
 ["histories","inputs"],"All key and element types, all operation histories, all element keys and values, through StorageMap and through interpreter statements.",
 "The unit tests touch one or two keys per map and never overwrite or compare a long mixed history with a reference dictionary.",
 ["storage/types.rs","analysis/interpreter.rs"],
 [("StorageMap","storage/types.rs"),("Hash/PartialEq for StorageValue","storage/types.rs"),("validate_key/validate_value","storage/types.rs"),("map_* handlers","analysis/interpreter.rs")],
 [("map","the entries","storage/types.rs")],["Interpreter::interpret responses","StorageMap methods"])

p("C06","A statement that fails or only reads leaves the whole store unchanged",
 "Whenever a statement returns an error, and whenever a read-only statement runs, every entry of the store afterwards has the same value and the same lifetime as before, and the set of entries is the same. No statement history can ever put an element of the wrong type into a stored vector or map.",
 ["histories","inputs"],"All reachable store states and all statements, valid or failing, applied to them.",
 "Tests check that single bad calls return an error; none checks that the state around the failing call is untouched.",
 ["analysis/interpreter.rs","storage/hashmap_storage.rs","storage/types.rs"],
 [("validation before mutation in StorageVector/StorageMap","storage/types.rs"),("existence checks before mutation","storage/hashmap_storage.rs")],
 [],["full read-back of the store before and after each statement"])

p("C07","Values written as literals in a query are stored and returned unchanged",
 "Any value that can be written as a literal in a query (booleans, 64-bit integers, finite floats, strings with any characters and escapes, and vectors and maps of these, including empty ones) is stored and returned by later reads exactly as written, including letter case, quotes, backslashes, control and non-ASCII characters in strings. Keywords and key names are case-insensitive; string contents are not altered. A float literal that has no finite value is rejected.",
 ["inputs"],"All values of all types in every spelling the language allows, written with set, update, conditional set, element set or append and read back.",
 "Tests tokenize one lower-case ASCII string, one float and two small integer collections, and never run query text through to a read.",
 ["analysis/tokenizer.rs","analysis/parser.rs","analysis/interpreter.rs"],
 [("get_string/get_numeric/get_identifier","analysis/tokenizer.rs"),("get_vector_value/get_map_value","analysis/parser.rs")],
 [],["tokens","statements","read responses"])

p("C08","Tokens account for every character of a query, in order",
 "Whenever a query tokenizes, the tokens appear in text order without overlap, each token's reported position and text are exactly the slice of the query it was read from (up to letter case), each token's kind and value are what that text denotes, and everything between tokens is whitespace. Tokenizing stops at the first error, and streaming and whole-query tokenization give the same tokens and the same outcome.",
 ["inputs"],"All query texts.",
 "Tests compare five fixed, well-formed token lists; coverage of the input by tokens is a claim about every text.",
 ["analysis/tokenizer.rs","analysis/tokens.rs"],
 [("Tokenizer::get_next_token and Iterator impl","analysis/tokenizer.rs"),("get_word_to_token_map","analysis/tokens.rs")],
 [("token_start_index/current_index","span of the token being read","analysis/tokenizer.rs")],["AnnotatedToken fields"])

p("C09","A list of statements parses back to itself in every layout",
 "Writing any list of statements as query text, with any whitespace, any keyword letter case, separators between statements present, repeated or omitted where the grammar allows, and trailing whitespace or separators, parses to exactly that list of statements with the same keys, indices, element keys, values and lifetimes. All ways of constructing a parser give the same result.",
 ["inputs","programs"],"All lists of statements of every kind expressible in the language and all their textual layouts.",
 "There is no parser test at all.",
 ["analysis/parser.rs","analysis/tokenizer.rs","analysis/statements.rs"],
 [("Parser::get_next_statement and per-statement rules","analysis/parser.rs"),("strip_semicolons","analysis/parser.rs")],
 [],["Parser::parse result"])

p("C10","Every query text is parsed as the grammar says or rejected, never worse",
 "For every text, analysing it terminates without crashing, and either yields exactly the statements the query grammar assigns to it or returns a tokenization, parse or type error when it is not in the grammar; incomplete statements, unterminated strings or collections, wrongly typed elements and negative indices or lifetimes are errors. After its first error a token or statement stream ends.",
 ["inputs"],"All texts: well-formed, truncated, mutated and arbitrary.",
 "Tests only tokenize well-formed queries; nothing exercises malformed or truncated text or the parser.",
 ["analysis/tokenizer.rs","analysis/parser.rs"],
 [("end-of-input checks","analysis/tokenizer.rs"),("end-of-input checks and type checks","analysis/parser.rs")],
 [],["Tokenizer/Parser results"])

p("C11","A request's statements run in order and stop at the first failure",
 "The statements of one request take effect in the order written, each seeing the effects of those before it, and execution stops at the first failing statement or at a shutdown; effects of the statements before that point persist and later statements have no effect. The response is that of the last statement executed (a null response for a request with none). A request whose text does not parse has no effect at all.",
 ["histories","programs"],"All statement lists over all reachable store states, with failures and shutdown at any position.",
 "No test executes more than one statement, or any request through the interpreter.",
 ["analysis/interpreter.rs","single_threaded.rs","multithreaded/analysis.rs"],
 [("Interpreter::process_statements loop","analysis/interpreter.rs")],
 [],["Interpreter::interpret response and following reads"])

p("C12","A request's privilege level bounds what it can do",
 "A request at read level can never change the store or cause shutdown, a request at write level can never cause shutdown, and an admin request may do anything. A request containing any statement above its level, at any position, is refused with an authorization error as a whole, before any of its statements has had an effect; a request whose statements are all within its level is never refused.",
 ["inputs","programs","configurations"],"All statement lists of every kind, all privilege levels, all store states.",
 "No test covers authorization.",
 ["analysis/interpreter.rs","auth.rs"],
 [("validate_authorization","analysis/interpreter.rs")],
 [],["Interpreter::interpret response and following reads"])

p("C13","An HTTP request is decoded the same however its bytes arrive",
 "For any well-formed HTTP POST request carrying a JSON body with a query, the decoded query text and headers are exactly those sent, regardless of how the bytes are split into network segments, the sizes of headers and body (up to the supported number of headers), the order of headers, the spelling of the length header's letter case, extra members in the JSON body, or bytes following the body. The blocking and the async reader decode every request identically.",
 ["inputs","schedules"],"All well-formed requests up to the supported number of headers and all segmentations of their bytes.",
 "There is no test of the network layer.",
 ["io/tcp.rs","io/tcp_async.rs"],
 [("convert_stream_to_request read loop","io/tcp.rs"),("convert_stream_to_request read loop","io/tcp_async.rs"),("extract_body_length_from_request / extract_request_from_body","io/tcp.rs")],
 [("buffer","bytes received so far","io/tcp.rs")],["StreamRequest.request","StreamRequest.headers"])

p("C14","A malformed or truncated HTTP request is rejected, and cannot wedge the reader",
 "A request that is cut off by the client closing its side, is not valid HTTP, is not a POST, has a missing, unparsable or absurd body length, or whose body is not a JSON object with a string query, is turned into an error and never into a query to execute. Decoding such a request always terminates without crashing, and the next connection is decoded normally. Both the blocking and the async reader behave this way.",
 ["inputs","fault_sequences","crash_points"],"All byte streams that are not a complete well-formed request, with disconnects at every byte.",
 "There is no test of the network layer, and none with a failing client.",
 ["io/tcp.rs","io/tcp_async.rs"],
 [("error returns in convert_stream_to_request","io/tcp.rs"),("error returns in convert_stream_to_request","io/tcp_async.rs")],
 [],["StreamRequest.request","the following connection"])

p("C15","Every response is one complete HTTP message stating the outcome",
 "For every outcome of a request, of any size, the client receives one complete HTTP response whose declared content length matches its body: status 200 with the JSON encoding of the response on success; on failure an error status (401 not authorized, 403 not authenticated, 400 malformed request, 422 for query and data errors, 500 for internal and network errors) with the error's kind and message. The blocking and the async sender produce the same response for the same outcome.",
 ["inputs"],"All response values of every type and size and all errors, for both senders, including clients that read slowly.",
 "There is no test of response encoding or sending.",
 ["io/tcp.rs","io/tcp_async.rs","error.rs"],
 [("make_response and TcpStreamSender::send","io/tcp.rs"),("make_response and TcpStreamSender::send","io/tcp_async.rs"),("get_error_code","error.rs")],
 [],["bytes received by the client"])

p("C16","Nothing is executed for a request without valid credentials",
 "In every server variant a request whose credentials are missing, rejected or carry no privilege level is answered with an authentication or authorization (or authentication-service) error and has no effect on the store or the server, whatever its query; a request with valid credentials is executed with exactly the privilege level of its user. An earlier request never lends its privilege to a later or concurrent one.",
 ["inputs","histories","configurations"],"All sequences of requests by users of all kinds, with all queries, on all server variants.",
 "No test covers authentication or the servers.",
 ["auth.rs","single_threaded.rs","multithreaded/listener.rs","async.rs"],
 [("MockAuthenticator","auth.rs"),("SingleThreadedServer::handle_request","single_threaded.rs"),("convert_to_analysis_request","multithreaded/listener.rs"),("listen_for_requests","async.rs")],
 [],["responses and following reads by an admin"])

p("C17","A server stops exactly when an authorised shutdown is executed",
 "A server keeps serving until a shutdown statement is actually executed on behalf of an admin: a shutdown that is refused, preceded in its request by a failing statement, or part of a query that does not parse never stops it. When one is executed, the requester gets the shutting-down response and the server then stops; this holds for all server variants.",
 ["histories","inputs","configurations"],"All sequences of requests containing shutdown in any position by users of any level, on all server variants.",
 "No test starts a server.",
 ["single_threaded.rs","multithreaded/executor.rs","multithreaded/coordinator.rs","async.rs","analysis/interpreter.rs"],
 [("shut_down decision in handle_request","single_threaded.rs"),("start_shutdown flag","multithreaded/executor.rs"),("shutdown flag polling","multithreaded/coordinator.rs"),("shutdown flag","async.rs")],
 [],["whether the server answers the next request","whether serve() returns"])

p("C18","No sequence of client requests makes a server stop answering",
 "After any sequence of requests from any users, valid or not, including malformed queries, extreme values, requests broken off by disconnecting clients, and entries expiring and being swept in the background, the server (any variant) still answers the next well-formed request correctly. Every completed request gets an answer.",
 ["histories","inputs","fault_sequences"],"All sequences of requests, including adversarial ones, on all server variants, with disconnects.",
 "No test starts a server.",
 ["single_threaded.rs","multithreaded/listener.rs","multithreaded/analysis.rs","multithreaded/executor.rs","async.rs","analysis/tokenizer.rs","analysis/parser.rs","analysis/interpreter.rs","io/tcp.rs","io/tcp_async.rs"],
 [("error returns instead of panics on every request path","single_threaded.rs"),("worker loops","multithreaded/listener.rs")],
 [],["responses over TCP"])

p("C19","Concurrent clients of the multithreaded server see one serial order",
 "For any concurrent requests to the multithreaded server, the responses and the final state are those of executing the requests one at a time in some order, each request's statements without interleaving, consistent with real time: a request sent after another was answered takes effect after it.",
 ["schedules","histories"],"All numbers of clients and workers, all concurrent request sets and all their interleavings.",
 "No test starts the multithreaded server, let alone concurrent clients.",
 ["multithreaded/executor.rs","multithreaded/analysis.rs","multithreaded/listener.rs","multithreaded/coordinator.rs"],
 [("single executor thread behind one channel","multithreaded/executor.rs"),("per-request response channel","multithreaded/listener.rs")],
 [("request_channel","serialises requests","multithreaded/executor.rs")],["responses over TCP"])

p("C20","Concurrent clients of the async server see one serial order",
 "For any concurrent requests to the async server, the responses and the final state are those of executing the requests one at a time in some order, each request's statements without interleaving, consistent with real time, and every client receives the response to its own request.",
 ["schedules","histories"],"All numbers of clients, all concurrent request sets and all their interleavings.",
 "No test starts the async server.",
 ["async.rs","io/tcp_async.rs"],
 [("single execute_requests task behind one channel","async.rs"),("per-request response channel","async.rs")],
 [],["responses over TCP"])

p("C21","All server variants give the same answers",
 "The single-threaded, multithreaded and async servers, given the same sequence of well-formed HTTP requests from one client on an empty store, give the same status and response body to each request, and these are the ones the statements' meaning prescribes.",
 ["histories","configurations"],"All sequences of requests by all users on the three server variants.",
 "No test starts any server or compares variants.",
 ["single_threaded.rs","multithreaded/listener.rs","multithreaded/analysis.rs","multithreaded/executor.rs","async.rs","io/tcp.rs","io/tcp_async.rs"],
 [("request path of each variant","single_threaded.rs")],
 [],["HTTP responses"])

p("C22","Every request handed to the worker pools gets exactly one answer, its own",
 "For any numbers of listener and analysis workers and any arrival of requests, each request received from a stream handler is answered exactly once, on its own sender, with the result of its own query at its own privilege level, whether it succeeds, fails to parse, is refused or was malformed on arrival. Stopping the pools terminates all workers.",
 ["schedules","histories","configurations"],"All pool sizes, request mixes, arrival timings and interleavings.",
 "No test runs the pools.",
 ["multithreaded/listener.rs","multithreaded/analysis.rs","multithreaded/executor.rs"],
 [("ListenerWorker::run","multithreaded/listener.rs"),("AnalysisWorker::run","multithreaded/analysis.rs"),("Executor::run","multithreaded/executor.rs")],
 [],["calls of StreamSender::send"])

p("C23","Response values survive JSON encoding and decoding",
 "Every response the interpreter can produce (values of every type including empty and non-empty vectors and maps with integer or string keys, messages, sizes, lifetimes, booleans, type descriptions) encodes to JSON without error and decodes back to an equal response; distinct responses have distinct encodings.",
 ["inputs"],"All response values.",
 "No test serializes anything.",
 ["analysis/interpreter.rs","storage/types.rs"],
 [("serde derives","storage/types.rs"),("serde derives","analysis/interpreter.rs")],
 [],["serde_json text of InterpreterResponse"])

open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
