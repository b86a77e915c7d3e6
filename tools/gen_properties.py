#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text here is the source; the jsonl is generated from it."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

V = "verifiable/"
p("C01", "A log is append-only and every head commits to exactly its entries",
  "For every log and every tree size n from 1 to the current size, the tree head returned for n is the RFC 6962 Merkle tree hash of the first n entries, in the order in which they were accepted. Once an entry or a tree head for a size has been returned, every later request for it returns the same thing, whatever is added afterwards, and every fetch of a range [first,last) returns exactly those entries in order (size or last = 0 meaning the current size). Requests for a size, index or range beyond the current size, or negative, are refused with an invalid-argument error and never answered with data.",
  ["inputs", "histories"], "All sequences of additions (any payload, duplicates included), all sizes, all ranges, both mutators, every storage back end.",
  "The existing runnable tests only exercise bit paths; the disabled ones check one history of 405 entries and the final root.",
  [V+"insertion_log.go", V+"service_log_tree_hash.go", V+"service_log_fetch_entries.go", V+"util_service_data.go", "merkle/util_merkle.go"],
  [("incremental tree node write-out and root per size", V+"insertion_log.go: addEntryToLog, writeOutLogTreeNodes"), ("head/size lookup", V+"util_service_data.go: lookupLogTreeHead")],
  ["LogTreeHash / LogFetchEntries responses"])
p("C02", "Inclusion proofs exist and are exact for every entry and tree size",
  "For every entry index i and tree size n with i < n <= current size, asking for an inclusion proof by index or by leaf hash (n = 0 meaning the current size) returns index i, size n and exactly the RFC 6962 audit path, which verifies against the head for n. A request for a hash that is not in the log, an index at or beyond the requested size, or a size beyond the log or negative is refused with an error and never answered with a proof; an unknown hash is reported as not found.",
  ["inputs", "histories"], "All log contents and sizes, all (index, size) pairs, lookup by hash and by index, user logs, mutation logs and tree head logs.",
  "The disabled tests verify proofs only at one head; nothing compares the path itself or tries non-head sizes, incomplete subtrees or out-of-range requests.",
  [V+"service_log_inclusion_proof.go", V+"util_fetch_proofs.go", "merkle/util_merkle.go"],
  [("path geometry", "merkle/util_merkle.go: Path"), ("recomputation of incomplete subtrees", V+"util_fetch_proofs.go: calcSubTreeHash, fetchSubTreeHashes")],
  ["LogInclusionProof responses"])
p("C03", "Consistency proofs exist and are exact for every pair of tree sizes",
  "For every pair of sizes 1 <= m < n <= current size, asking for a consistency proof (n = 0 meaning the current size) returns sizes m and n and exactly the RFC 6962 consistency path, which verifies against the heads for m and n. Requests with m < 1, m >= n, n beyond the log or a negative size are refused with an invalid-argument error and never answered with a proof.",
  ["inputs", "histories"], "All log contents, all size pairs up to several hundred, all three kinds of log.",
  "The disabled tests check the single pair (3,7).",
  [V+"service_log_consistency_proof.go", V+"util_fetch_proofs.go", "merkle/util_merkle.go"],
  [("path geometry", "merkle/util_merkle.go: SubProof"), ("recomputation of incomplete subtrees", V+"util_fetch_proofs.go: calcSubTreeHash")],
  ["LogConsistencyProof responses"])
p("C04", "Proof verifiers accept true statements only",
  "Given trusted heads, verifying a log inclusion proof succeeds only if that leaf hash really is at that index of the tree of that size, verifying a consistency proof succeeds only if the first head's entries are a prefix of the second's, and verifying a map proof succeeds only if that key really has that value (or is really absent) in the map the head commits to. Every alteration of a valid proof that changes the claim or any hash that takes part in it - a flipped bit, a dropped, duplicated, swapped or extra log path element, another index, size, key, value or head - is rejected, and well-formed proofs of true statements are accepted, including map proofs that omit trailing default elements.",
  ["inputs"], "All trees and maps, all proofs honest or forged, including proofs spliced from nodes of the same and of forked trees.",
  "A test can show that one good proof passes; soundness is about every bad one.",
  [V+"service_log_inclusion_proof.go", V+"service_log_consistency_proof.go", V+"service_map_get_value.go", V+"api_highlevel_log.go", V+"api_highlevel_map.go"],
  [("inclusion verifier", V+"service_log_inclusion_proof.go: VerifyLogInclusionProof"), ("consistency verifier", V+"service_log_consistency_proof.go: VerifyLogConsistencyProof"), ("map verifier", V+"service_map_get_value.go: VerifyMapInclusionProof")],
  ["return values of the verifiers"])
p("C05", "Every accepted log entry is sequenced exactly once",
  "Every acknowledged addition to a log appears in it exactly once however many times, in whatever order and by however many clients it is submitted, a re-submission changes nothing (size, heads and stored data stay as they were) and still returns the entry's leaf hash. An addition that failed and is submitted again is added, also on a storage that keeps what the failed attempt wrote. The hash acknowledged is the RFC 6962 leaf hash of the submitted leaf input and can be used to prove its inclusion, the stored leaf input, extra data and format are those of the first submission, unaffected by what the caller does with its buffers afterwards, and nothing appears that was not submitted.",
  ["inputs", "histories", "schedules"], "All submission sequences with arbitrary duplication, payload sizes from empty to large, concurrent clients, both mutators.",
  "The disabled tests submit each entry once, sequentially, and never compare what is stored.",
  [V+"service_log_add_entry.go", V+"insertion_log.go", "mutator/instant/mutator_instant.go", "mutator/batch/mutator_batch.go"],
  [("duplicate detection by leaf hash", V+"insertion_log.go: addEntryToLog"), ("acknowledgement", V+"service_log_add_entry.go: LogAddEntry")],
  ["LogAddEntry acknowledgements", "LogFetchEntries"])
p("C06", "Map operations follow the sequential set/delete/update semantics",
  "After any history of mutations the value of every key at every tree size n (0 meaning latest) is the one obtained by applying the first n mutations in order to an empty map, where set stores a value, delete and storing an empty value make the key absent, and update takes effect only if the leaf hash of the key's current value equals the given previous leaf hash (that of the empty value if absent) and otherwise has no effect. The map root at every n is the root of the 256-level sparse Merkle tree holding exactly those values, so it depends only on the contents and not on how they were reached; sizes that are negative or beyond the map are refused with an error, for heads and values alike, and an empty map has a well-formed head of size 0.",
  ["inputs", "histories"], "All mutation histories over keys with short and long shared path prefixes, all historical sizes, all actions, both mutators.",
  "The disabled tests cover a handful of hand-made histories and final roots.",
  [V+"insertion_map.go", V+"service_map_get_value.go", V+"service_map_set_value.go", V+"service_map_tree_hash.go", V+"util_path.go"],
  [("versioned path-copying tree", V+"insertion_map.go: setMapValue, descendToFork, writeAncestors"), ("conditional update", V+"insertion_map.go: mutationLeafHash")],
  ["MapGetValue, MapTreeHash at every size"])
p("C07", "Map lookups carry proofs of presence or absence at any tree size",
  "For every key, present, deleted, overwritten or never set, and every tree size n, the value returned by a map lookup comes with at most 256 sibling hashes, each empty or the true sibling at that depth, and the response verifies against the map head for n and for no different value, key or head with different contents. The verified read used by clients returns the value the map really held at that size.",
  ["inputs", "histories"], "All map contents, all keys including near misses sharing long path prefixes with present keys, all historical sizes.",
  "The disabled tests verify 2000 lookups at one head.",
  [V+"service_map_get_value.go", V+"insertion_map.go", V+"util_fetch_proofs.go", V+"api_highlevel_map.go"],
  [("proof assembly", V+"service_map_get_value.go: MapGetValue"), ("leaf hash lifting", V+"util_fetch_proofs.go: calcNodeHash")],
  ["MapGetValue responses, VerifiedGet"])
p("C08", "Mutation log and tree head log record a map's whole history in step",
  "Every acknowledged map mutation, including ones with no effect, becomes exactly one entry of the map's mutation log, its leaf hash is the one acknowledged, its recorded action, key, value and previous leaf hash are the submitted ones plus a server timestamp, and its leaf input is the object hash of the mutation without the value's extra data. The tree head log has exactly one entry for each map size n in order, whose content is the map root and mutation log head for n exactly as served for n, and whose leaf input is its object hash; neither log accepts direct additions, and no later operation changes any recorded entry.",
  ["inputs", "histories"], "All mutation histories, including repeated, ineffective and adversarially chosen values, both mutators.",
  "No test reads the mutation or tree head log.",
  [V+"insertion_log.go", V+"service_map_set_value.go", V+"util_json.go", V+"service_log_fetch_entries.go", V+"util_service_data.go"],
  [("step 2/3 of applying a mutation log entry", V+"insertion_log.go: applyLogAddEntry"), ("mutation entry creation", V+"util_json.go: CreateJSONLeafDataFromMutation")],
  ["LogFetchEntries on mutation and tree head logs"])
p("C09", "Auditing a log or map accepts honest servers and no deviation",
  "Auditing all entries of a log between two heads succeeds against an honest server, including one that answers with fewer entries than were asked for, calling the audit function once per entry in index order, and fails if any entry, head or proof served differs from what the heads commit to. Auditing a map succeeds against an honest server, calling the value check for every mutation that carries a value and the audit function exactly for those mutations that changed the map, in order and with their key and value, and fails if any mutation, map root, mutation log head or tree head entry is inconsistent with replaying the mutation log; an error from a callback stops the audit and is returned.",
  ["inputs", "histories", "fault_sequences"], "All honest histories (with deletes, no-op mutations and failed updates), all (previous, head) pairs, and servers that alter, reorder, drop, duplicate or invent any part of the content - including servers that recompute consistent hashes over wrong map roots.",
  "No test runs the auditors.",
  [V+"api_highlevel_log.go", V+"api_highlevel_map.go", V+"util_map_audit.go", V+"util_json.go"],
  [("entry audit by Merkle stack", V+"api_highlevel_log.go: VerifyEntries"), ("map replay", V+"util_map_audit.go: addMutationToTree, ProcessUntilAtLeast, CheckTreeHeadEntry")],
  ["audit results and callback traces"])
p("C10", "A client with verified state detects forks and never goes backwards",
  "A client that carries its last verified log head or map state forward accepts a new head or state only if it extends (or, for a specific older size, is a prefix of) the history already verified; a server that shows a forked, rewritten or invented history for user, mutation or tree head log gets an error. The latest verified head or state never has a smaller size than the one carried, a head or map state verified for a specific size is for that size, and a map state is accepted only if its map root and mutation log head are recorded in the tree head log it is paired with; against an honest server all of these succeed.",
  ["histories", "fault_sequences"], "All sequences of verified reads against honest, stale, forked and equivocating servers.",
  "A test never shows the client a dishonest server.",
  [V+"api_highlevel_log.go", V+"api_highlevel_map.go", V+"util_map_tree_state.go"],
  [("consistency before acceptance", V+"api_highlevel_log.go: VerifiedTreeHead, VerifyConsistency"), ("tree head log inclusion", V+"api_highlevel_map.go: VerifiedMapState")],
  ["results of VerifiedLatestTreeHead, VerifiedTreeHead, VerifySuppliedInclusionProof, VerifiedMapState, VerifiedLatestMapState"])
p("C11", "Every operation is allowed exactly when the policy grants it",
  "With a static policy an operation succeeds past authorization exactly if some rule of the addressed account grants the operation's permission (or all permissions) to the presented API key (a rule key of '*' matches any key, an empty rule key none) on a name matching the rule's glob (that of Go's path.Match, where '*' and '?' do not match a slash), the first such rule deciding which fields are visible; everything else is refused as permission denied. Adding to a log needs raw-add, reading entries read-entry, heads and consistency read-hash, inclusion prove-inclusion, map set and map get (values and heads) their own permissions, mutation log entries mutation-read-entry and all other mutation and tree head log reads mutation-read-hash; direct additions to mutation and tree head logs are never allowed. A refused request changes nothing, and its answer is the same whether or not the object exists.",
  ["inputs", "configurations"], "All policies (accounts, keys, globs, permissions, rule orders) and all requests, embedded and over both servers.",
  "The disabled test tries five requests against one two-rule policy.",
  ["oracle/policy/authorization_static.go", "oracle/policy/authorization_all.go", V+"util_permissions.go", "server/httprest/server_http_handler.go"]+[V+f for f in ["service_log_add_entry.go","service_map_get_value.go","service_map_set_value.go","service_map_tree_hash.go"]],
  [("policy evaluation", "oracle/policy/authorization_static.go: VerifyAllowed"), ("permission per operation", V+"util_permissions.go: operationForLogType")],
  ["status codes, object state before and after"])
p("C12", "Readers limited to certain fields see only those and can still verify",
  "A reader whose rule lists allowed fields receives JSON entries and map values with every other top-level field replaced by its redacted hash and the allowed ones intact, at every read path (log entries, mutation log entries, map values, embedded or over the network), while the leaf input is unchanged and still equals the object hash of what was returned. Content that cannot be filtered is refused rather than returned whole, absent values and deletions are still readable by such a reader, and a reader allowed all fields gets the data exactly as stored.",
  ["inputs", "configurations"], "All JSON objects (plain or with redactable nonces), all allowed-field lists, all read paths.",
  "The disabled test checks one field of one log entry.",
  [V+"util_permissions.go", V+"service_log_fetch_entries.go", V+"service_map_get_value.go", V+"util_json.go"],
  [("field filter", V+"util_permissions.go: filterLeafData"), ("filtering within mutations", V+"service_log_fetch_entries.go: LogFetchEntries")],
  ["LogFetchEntries, MapGetValue responses under restricted policies"])
p("C13", "Logs and maps are isolated from each other",
  "Operations on one log or map never change or reveal anything about any other: two objects are the same only if they have the same account, the same name and the same kind (log or map), whatever characters account and name contain (canonically equivalent Unicode text counts as the same name). In particular a log and a map of the same name are separate, as are equal names in different accounts and names or accounts that concatenate to the same string.",
  ["inputs", "histories"], "All interleaved histories over objects with similar, empty, unicode and separator-laden accounts and names, every storage back end, both mutators, embedded and remote.",
  "The disabled tests use one log and one map.",
  [V+"util_service_data.go", "storage/memory/storage_memory.go", "storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", "server/httprest/client_http_rest.go"],
  [("namespace derivation", V+"util_service_data.go: logBucket, mapBucket"), ("one database per namespace", "storage/*: getOrCreateDB")],
  ["state of every object after each operation"])
p("C14", "Concurrent use is linearizable and heads only grow",
  "Under any number of concurrent writers and readers with the synchronous mutator, every operation appears to take effect atomically at one point between its call and its return: acknowledged additions and mutations are visible to every read that starts later, each read sees one state of the object, and observed tree sizes and heads form a single growing history in which no two observers ever see different heads for the same size. Conditional updates to a key with the same expected previous value succeed at most once.",
  ["schedules", "histories"], "All interleavings of concurrent adds, sets, conditional updates, deletes, reads and proofs over shared logs and maps, on every storage back end.",
  "No test runs operations concurrently and asserts anything about their order.",
  ["mutator/instant/mutator_instant.go", "storage/memory/storage_memory.go", "storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", V+"insertion_log.go", V+"insertion_map.go"],
  [("update transaction around read-size/apply/write-size", "mutator/instant/mutator_instant.go: QueueMutation"), ("snapshot reads", "storage/*: ExecuteReadOnly")],
  ["recorded call/return histories"])
p("C15", "The batching mutator neither loses, duplicates nor reorders mutations",
  "With the batching mutator every acknowledged mutation is eventually applied to the object it was addressed to, exactly once and, per object, in the order it was queued, however mutations of different logs and maps interleave and whatever the batch size, buffer size and timeout. The resulting contents, heads and proofs are the same as if each mutation had been applied synchronously, readers never see a partially written batch, and all mutations queued before a given one become visible no later than it does on the same object. Mutations are held for no longer than the timeout and until no more than a batch of them has been queued, also while more keep arriving.",
  ["schedules", "inputs", "configurations"], "All interleavings of mutations over several objects, all batch, buffer and timeout settings, concurrent producers and readers.",
  "The disabled test uses one log, then one map, one large batch size, no interleaving.",
  ["mutator/batch/mutator_batch.go", V+"service.go", V+"insertion_log.go", V+"insertion_map.go"],
  [("batch loop", "mutator/batch/mutator_batch.go: handleBatch, consume"), ("write-back cache over the store", "mutator/batch/mutator_batch.go: mapNoLockDB")],
  ["object state after quiescence and during writes"])
p("C16", "A storage failure never corrupts or half-applies a mutation",
  "If any storage read, write or commit fails while a mutation is being applied synchronously, the mutation is reported as failed, and with transactional storage all logs and maps are exactly as before, so that retrying succeeds and yields the same result as if the fault had not happened. With storage that does not roll back, what is visible is still as before, and retrying at once has the right result too. If a storage read fails during any read operation, the operation returns an error, or the correct answer where that did not depend on what failed: it never returns wrong data, an invalid proof, or a success with data missing, and it never makes a failed read look like an absent entry or an empty log.",
  ["fault_sequences", "crash_points"], "Every single storage operation of every kind of mutation and query as the fault point, and random multi-fault sequences.",
  "No test injects a storage fault.",
  ["mutator/instant/mutator_instant.go", V+"insertion_log.go", V+"insertion_map.go", V+"util_fetch_proofs.go", V+"util_service_data.go", "storage/badger/storage_badger.go"],
  [("error propagation out of the update transaction", "mutator/instant/mutator_instant.go: QueueMutation"), ("missing-key distinction", V+"util_service_data.go: ReadObjectSize")],
  ["errors returned and state after each injected fault"])
p("C17", "Acknowledged writes survive a crash of the server process",
  "If a server with durable storage is killed at any moment and restarted on the same data, every acknowledged addition and mutation is present, at most the operations in flight at the kill are additionally present, and each object is in a consistent state: heads served before the crash are still served for their sizes, all proofs verify, mutation log, tree head log and map agree, and writing can continue.",
  ["crash_points", "histories"], "Kills at arbitrary points of concurrent log and map writing, repeated crash/restart cycles, bolt and badger storage.",
  "No test restarts on existing data.",
  ["storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", "mutator/instant/mutator_instant.go", "cmd/vdbserver/vdbserver-main.go"],
  [("one transaction per mutation", "mutator/instant/mutator_instant.go: QueueMutation, storage/*: ExecuteUpdate")],
  ["state served after restart compared with acknowledgements recorded before the kill"])
p("C18", "Every storage back end is a transactional per-namespace key-value store",
  "In every storage back end a value written in an update is read back byte for byte by later reads in the same update and after it, a missing key is reported as exactly the no-such-key error, writing nil removes a key, an overwrite replaces the value, keys and namespaces are compared as whole byte strings, and namespaces do not share keys. Updates of one namespace are mutually exclusive or fail, an update that returns an error leaves no trace (except in the storage documented as not rolling back), the callback's own error is passed on, reads see no partial update, and the durable back ends show the same contents after being closed and reopened.",
  ["inputs", "histories", "schedules"], "All sequences of transactions over arbitrary binary keys and values (empty and large included), aborted updates, concurrent access, reopen; memory, bolt and badger.",
  "No test exercises a storage back end directly.",
  ["storage/memory/storage_memory.go", "storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", V+"storage_headers.go"],
  [("transaction wrappers", "storage/*: ExecuteReadOnly, ExecuteUpdate, Get, Set")],
  ["Get results and transaction errors against a model"])
p("C19", "gRPC, REST and embedded use give the same answers",
  "For every operation that the transport can express, a client over gRPC, over REST, or over any chain of the two gets the same result as one calling the service directly: same data, heads and proofs, the same success or failure with the same class of error (permission denied, invalid argument, not found, other), and the same effect on the object. This includes the API key, conditional updates, binary keys and values, proofs with default elements, historical sizes, and the convenience forms of the documented REST API (raw, JSON and redactable-JSON bodies, string keys, single-entry and string-hash lookups).",
  ["inputs", "histories"], "All operations and arguments, valid and invalid, through all transports, against the same service state.",
  "The disabled smoke test runs one happy-path scenario through both transports.",
  ["server/httprest/server_http_handler.go", "server/httprest/client_http_rest.go", "server/grpc/client_grpc.go", "server/grpc/server_grpc.go", "doc/REST-API.md"],
  [("REST handlers and client", "server/httprest"), ("gRPC adapter", "server/grpc")],
  ["responses of each transport, requests as received by the service"])
p("C20", "No request can crash a server or leave a log or map damaged",
  "Whatever a client sends - missing or null parts, unknown actions or log types, extreme numbers, huge or malformed payloads, malformed HTTP - the service answers with a response or an error without panicking or terminating the process, and goes on serving. A request that is answered with an error has had no effect on any log or map, and after any sequence of such requests all objects are still consistent and writable.",
  ["inputs", "histories"], "All structurally possible requests over the embedded API, gRPC and REST, with both mutators, valid traffic interleaved.",
  "No test sends a malformed request.",
  [V+"service_log_add_entry.go", V+"service_map_set_value.go", V+"util_permissions.go", V+"service_log_fetch_entries.go", V+"insertion_map.go", "mutator/batch/mutator_batch.go", "server/httprest/server_http_handler.go"],
  [("request validation before queuing", V+"service_*.go"), ("error mapping", "server/httprest/server_http_handler.go: writeResponseHeader")],
  ["process liveness, responses, state after"])
p("C21", "No server response can crash or hang a client",
  "Whatever a server returns - missing parts, empty or truncated proofs, extreme sizes, malformed JSON, wrong counts, hostile headers - every client-side verification, audit and transport function returns a result or an error in bounded time without panicking, and never reports success unless the verified claim holds. Calls to a server that does not answer, and waits for an entry or a size that never appears, end when their context does.",
  ["inputs", "fault_sequences"], "All responses to all client operations: log and map verification, auditing, verified heads and states, REST response parsing.",
  "No test runs a client against anything but an honest server.",
  [V+"api_highlevel_log.go", V+"api_highlevel_map.go", V+"util_map_audit.go", V+"util_json.go", V+"service_map_get_value.go", V+"service_log_consistency_proof.go", "merkle/util_merkle.go", "server/httprest/client_http_rest.go"],
  [("bounds checks in verifiers and auditors", V+"util_map_audit.go, "+V+"api_highlevel_log.go"), ("header parsing", "server/httprest/client_http_rest.go: parseHeadersForProof")],
  ["return values, panics and goroutine liveness of client calls"])
p("C22", "JSON leaf data validates exactly when its hash matches its content",
  "Leaf data created from JSON, from a message or from an object has the content's object hash as leaf input and validates; it validates exactly when the leaf input equals the object hash of the extra data, so any change of either that changes the hash is detected, while redacting fields keeps it valid. Redactable leaf data hides each field behind a fresh random nonce, shedding redacted fields and nonces from it or from a redacted form returns exactly the original visible fields, mutation entries validate exactly when their hash matches the mutation without the value's extra data, and invalid JSON is refused.",
  ["inputs"], "All JSON documents (nested, unicode, numbers, lists), all single-field alterations and redactions.",
  "The disabled test creates one redactable object.",
  [V+"util_json.go"],
  [("creation and validation", V+"util_json.go: CreateJSONLeafData*, ValidateJSONLeafData*, ShedRedactedJSONFields")],
  ["leaf data created and validation results"])
p("C23", "Path and proof-geometry functions are exact for every argument",
  "Binary key paths behave as bit strings: length, indexing, slicing, joining, rendering and construction from a key agree with the plain bit-string operations for every path of up to 256 bits, distinct paths have distinct encodings, and no operation modifies its inputs. The Merkle helper functions - largest smaller power of two, power-of-two test, inclusion and consistency path ranges, leaf, node and default hashes, key path - equal their RFC 6962 and sparse-tree definitions for every valid argument, up to sizes near the 64-bit limit, and always terminate.",
  ["inputs"], "All paths up to 256 bits and all slice bounds; all tree sizes, exhaustive for small ones and sampled up to 2^63-1.",
  "The existing tests sample four small bit paths; nothing tests the Merkle helpers.",
  [V+"util_path.go", "merkle/util_merkle.go"],
  [("bit path encoding", V+"util_path.go"), ("RFC 6962 geometry", "merkle/util_merkle.go")],
  ["return values"])
p("C24", "The JavaScript client verifies exactly what the Go client verifies",
  "The JavaScript client shipped with the server computes the same leaf, node and object hashes as the server, accepts every inclusion, consistency and map proof an honest server returns, and rejects proofs that have been altered or are for another entry, index, size, key, value or head; given altered answers it never reports something unproven as verified. Its requests to the REST server for adding and reading entries, setting, deleting and reading map values, and reading heads and proofs have the documented effect and return the server's data, given keys and raw data as byte strings; this also holds for pages of any other origin.",
  ["inputs", "histories"], "All proofs honest or altered, random JSON objects, all documented client calls against the real REST server.",
  "No test executes the JavaScript client.",
  ["assets/static/continusec.js", "assets/assets.go", "server/httprest/server_http_handler.go"],
  [("browser verification code", "assets/static/continusec.js")],
  ["results of the JavaScript functions run under node"])
p("C25", "Reading never changes anything",
  "No read operation - heads, entries, inclusion and consistency proofs, map values and heads, verified reads and audits, allowed or refused, successful or failing - changes the stored state of any log or map, or opens an update, and no operation, reading or writing, modifies the request passed to it or memory next to it; two identical reads with no write between them give identical answers. Data handed to a caller is the caller's own: modifying a returned response does not affect any other answer.",
  ["inputs", "histories"], "All read operations with all arguments over all object states, including objects that do not exist.",
  "No test compares state before and after reads.",
  [V+"service_log_tree_hash.go", V+"service_log_fetch_entries.go", V+"service_log_inclusion_proof.go", V+"service_log_consistency_proof.go", V+"service_map_get_value.go", V+"service_map_tree_hash.go"],
  [("reads go through the read-only transaction", V+"service_*.go: ExecuteReadOnly")],
  ["storage snapshot before and after, update-transaction counter, request and response deep copies"])
p("C26", "The library is free of data races under concurrent use",
  "A service, its storages, mutators and policy, the REST and gRPC servers and clients, and the client wrappers can be used from many goroutines at once - concurrent reads, writes, verification, first use of new logs and maps, batching - without any data race, deadlock or unsynchronized access to shared state.",
  ["schedules"], "All interleavings reached by repeated hostile workloads over every component, under the Go race detector.",
  "The tests that can run have no concurrency.",
  ["storage/memory/storage_memory.go", "storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", "mutator/batch/mutator_batch.go", V+"service.go", "server/httprest/server_http_handler.go"],
  [("storage locks", "storage/*"), ("channel hand-over", "mutator/batch/mutator_batch.go")],
  ["Go race detector reports"])
p("C27", "The server program honours its configuration",
  "Started with a configuration file, the server program serves exactly the enabled protocols on the configured addresses with TLS using the configured certificate unless explicitly configured insecure, enforces exactly the configured accounts and policies on both protocols, and keeps its data under the configured path so that it is served again after a restart. Requests and answers of every size that the protocols themselves allow by default (4 MB of a gRPC message, 1 MB of the head of an HTTP request) are served. A TLS client trusting the certificate can use it, a client trusting another certificate or speaking plaintext cannot, and with a missing or unparsable configuration or an unusable certificate or an address that another program occupies it ends rather than run on without serving. Started without a configuration it serves an open demonstration over REST that keeps nothing.",
  ["configurations"], "Combinations of protocols, TLS and insecure mode, policies and clients.",
  "No test starts the server program.",
  ["cmd/vdbserver/vdbserver-main.go", "server/grpc/server_grpc.go", "server/grpc/client_grpc.go", "server/httprest/server_http_rest.go", "proto/configuration.proto"],
  [("start-up", "cmd/vdbserver/vdbserver-main.go: realMode"), ("TLS choice", "server/grpc/server_grpc.go, server/httprest/server_http_rest.go: StartServer")],
  ["connections made to the running program"])
p("C28", "The PostgreSQL storage issues a correct transactional dialogue",
  "Against a PostgreSQL server every read and update of the PostgreSQL storage runs in one transaction on a table that depends only on the namespace and is created before first use, updates take the exclusive table lock before reading or writing, and commit exactly if the callback succeeded, rolling back otherwise and for all reads. Values read are those last written in committed transactions, a missing row is reported as the no-such-key error and every database error is passed on as an error, never as a missing key or a success. A read sees one committed state throughout. The storage can be used by many goroutines and several instances at once, and stays usable after failed statements, broken connections and cancelled contexts.",
  ["histories", "fault_sequences"], "All transaction sequences over several namespaces with failing callbacks and failing statements, against a protocol-level stand-in for the database server.",
  "No test touches this back end; no database is available to it.",
  ["storage/postgres/storage-postgres.go"],
  [("transactions and locking", "storage/postgres/storage-postgres.go: ExecuteUpdate, ExecuteReadOnly, getOrCreateNS")],
  ["SQL statements and transaction boundaries as received by the stand-in server"])
p("C29", "Acknowledged writes survive loss of power",
  "With Bolt or Badger storage and the synchronous mutator, an addition or mutation that has been acknowledged, and a head or entry that has been served, is on stable storage by then. Whenever the machine stops, and whichever of the writes not yet forced to disk are lost, the data can be opened again and written to, every acknowledged addition and mutation is present, at most those in flight are additionally present, and everything served before is served again and verifies.",
  ["crash_points", "histories"], "All moments of concurrent log and map writing, all subsets of the file writes that had not been forced to disk at that moment, several failures one after another; bolt and badger storage.",
  "A test process sees its own writes whether or not they were forced to disk.",
  ["storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", "mutator/instant/mutator_instant.go"],
  [("options the databases are opened with", "storage/bolt/storage_bolt.go, storage/badger/storage_badger.go: getOrCreateDB"), ("acknowledgement after the transaction", "mutator/instant/mutator_instant.go: QueueMutation")],
  ["system calls on the files of the storage (strace), and the state the real code opens from the disk contents rebuilt from them"])
p("C30", "The explorer page shows and draws what is true, and says what it checked",
  "What the page at the server's root shows is true of the logs and maps it was asked about: after each button press the sizes, roots, leaf hashes, entries and map values displayed are those of the object, hash for hash; each log and map diagram (whole tree, inclusion, consistency, map path) has exactly the boxes of that tree at the sizes stated, each labelled with that node's hash and joined to the children it is the hash of; colours mean what the page says they mean, so that a box marked as matching a served root carries just that root. This is so for any content, whatever was added between two of the page's requests; a request that fails shows an error, never a stale or invented result, and a server that answers falsely never gets its claim displayed as verified. The page always finishes.",
  ["inputs", "histories"], "All logs, maps, inputs into the form fields, entry kinds, growth between the page's requests, refusals and false answers; a page with one user pressing one button after another.",
  "There are no tests of the page, and its diagrams are right or wrong depending on the shape of the tree and on what happens between its requests.",
  ["assets/static/index.html", "assets/static/log.js", "assets/static/continusec.js"],
  [("drawing of log trees", "assets/static/log.js"), ("button handlers and map diagrams", "assets/static/index.html"), ("client used by the page", "assets/static/continusec.js")],
  ["text put into the page, and the boxes, labels and lines drawn on its canvases, read back from a recording browser stand-in"])
p("C31", "Waiting for an update ends, with a head that includes it",
  "A client that waits for an update it has sent (the Wait of what Add, Set, Update and Delete return, BlockUntilPresent, BlockUntilSize) gets a head that the log or map has had, which includes the update (whose size is at least the one waited for), and never before that is so, whatever else is written meanwhile; a map read at that head shows a sole writer what it wrote. Answers that are out of date, requests for proofs that fail, and heads or proofs that do not verify, delay the end of the wait but are never taken for it, and do not keep it from ending once the update is in and the requests succeed. A wait for what does not come ends with an error when its context does.",
  ["histories", "schedules", "fault_sequences"], "All histories of writers and waiters, all delays between sending and application of an update, and all sequences of stale, failing and false answers; embedded, gRPC and REST; both mutators.",
  "A test waits for an update that comes at once, from a service without faults, on one schedule.",
  ["verifiable/api_highlevel_log.go", "verifiable/api_highlevel_map.go", "verifiable/api_highlevel_wrapper.go", "mutator/batch/mutator_batch.go"],
  [("wait for an entry", "verifiable/api_highlevel_log.go: BlockUntilPresent"), ("wait for a size", "verifiable/api_highlevel_map.go: BlockUntilSize"), ("promises", "verifiable/api_highlevel_wrapper.go: Wait")],
  ["calls of the client and their results, in the order of the release of updates; the log and map read afterwards"])
p("C32", "A service without a mutator is read-only",
  "A service that is given no mutator answers every read with what is in its storage, including what other services write there meanwhile, and refuses every addition and map mutation with an error (with permission denied where the policy refuses it): it never acknowledges one, never crashes on one, and never starts a transaction that writes.",
  ["inputs", "histories", "schedules"], "All requests, on all transports and storages, at all moments of another service's writing.",
  "No test makes a service without a mutator.",
  ["verifiable/service.go", "verifiable/service_log_add_entry.go", "verifiable/service_map_set_value.go"],
  [("a service without a mutator", "verifiable/service.go: Mutator"), ("additions", "verifiable/service_log_add_entry.go"), ("map mutations", "verifiable/service_map_set_value.go")],
  ["requests and responses; transactions begun on the storage and a digest of its contents"])
p("C33", "Data and clients of earlier versions keep working",
  "What an earlier version of the library has stored, with any of the durable storages, is served unchanged: every head it gave out is still given for its size, every entry, value and proof is right in all historical sizes, duplicates of old entries are still recognised, redactable entries still validate and can still be redacted, additions continue the same logs and maps, and clients go on verifying from the states they kept. The requests of earlier gRPC and REST clients, as they are on the wire, are understood and answered as they were.",
  ["inputs", "histories"], "Every store and every wire request of the original version; every continuation of them.",
  "Tests start from nothing, and both ends of a conversation are always of the same version.",
  ["verifiable/util_service_data.go", "verifiable/util_path.go", "verifiable/service.go", "storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", "storage/postgres/storage-postgres.go", "pb/", "server/httprest/server_http_handler.go"],
  [("stored", "verifiable/util_service_data.go: makeStorageKey and what uses it"), ("durable storages", "storage/bolt, storage/badger, storage/postgres: names of files, directories and tables"), ("on the wire", "pb/*.pb.go, server/httprest/server_http_handler.go")],
  ["answers of services over recorded stores; answers to recorded wire requests; states kept by clients"])
p("C34", "No operation leaves anything running or open behind",
  "When a call has returned, whether it succeeded, failed, was refused, was given up by its caller or met a server that misbehaves, nothing of it is left: no goroutine, no unread response that keeps a connection, no work on behalf of a client that is gone, no memory. A stream of entries ends, with its channel closed, when it is at its end, has an error, or its context is done, even if nobody receives from it any more; an audit that stops early stops its streams. A closed storage has no file open or locked, and can be opened by another at once.",
  ["inputs", "schedules", "faults"], "Every operation, outcome, point of cancellation and fault of the other side.",
  "Tests end with their process: nothing they leave behind is ever missed.",
  ["verifiable/api_highlevel_wrapper.go", "verifiable/api_highlevel_log.go", "verifiable/util_map_audit.go", "server/httprest/client.go", "server/httprest/server_http_handler.go", "server/grpc/", "storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", "mutator/batch/"],
  [("streams", "verifiable/api_highlevel_wrapper.go: Entries"), ("audits", "verifiable/api_highlevel_log.go: VerifyEntries; verifiable/util_map_audit.go"), ("waits", "verifiable/api_highlevel_log.go: BlockUntilPresent; verifiable/api_highlevel_map.go: BlockUntilSize"), ("responses", "server/httprest: the client's makeRequest"), ("closing", "storage/bolt, storage/badger: Close")],
  ["goroutines by the code they run; open response bodies; open files; live heap; channels"])
p("C35", "The work of an operation follows the height of the tree, not its size",
  "Adding an entry, proving inclusion or consistency, answering for a head and reading or changing a map key read and write a number of stored values, and of bytes, that grows with the logarithm of the log's size and with the depth of the key in the map (and with the size of the entry or value concerned), never with the size of the log or map itself; reading entries costs what the entries asked for do, and a refusal costs next to nothing, whatever the numbers asked for. The client's verified operations take a constant number of requests, streams and audits take one request for many entries, and a batching mutator writes a backlog in few updates.",
  ["inputs", "history"], "Every size, every operation, every index, at every point of a history.",
  "Tests use logs of a few entries, where a scan of everything is as quick as a path to the root.",
  ["verifiable/", "mutator/", "merkle/"],
  [("log mutation", "verifiable/insertion_log.go"), ("proofs", "verifiable/service_log_inclusion_proof.go, verifiable/service_log_consistency_proof.go, verifiable/util_fetch_proofs.go"), ("map", "verifiable/insertion_map.go, verifiable/service_map_get_value.go"), ("client", "verifiable/api_highlevel_log.go, verifiable/api_highlevel_map.go, verifiable/api_highlevel_wrapper.go"), ("batches", "mutator/batch/")],
  ["reads, writes and bytes per storage operation; transactions; requests per client operation"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
