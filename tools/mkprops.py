#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["observe_at"] = observe or ["FromRequest::from_request / from_request_and_body / from_request_sync"]
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)
D = "derive/src/from_request/mod.rs"; PA = "derive/src/from_request/parse.rs"; L = "src/lib.rs"; S = "src/service.rs"; B = "src/body.rs"; E = "src/error.rs"; RC = "derive/src/request_context.rs"

prop("C01", "A request is dispatched to exactly the route its method and path match",
 "For every accepted set of route declarations and every request, decoding yields the variant carrying the route whose method equals the request's and whose path pattern matches the whole request path, and no other variant. Patterns are matched segment by segment and case-sensitively: literals match themselves verbatim (characters special to regular expressions included), `{x}` matches exactly one non-empty segment, a final `{x...}` matches any remainder including the empty one, `*` matches only the path `*`, a trailing slash is significant, and the query string plays no part. When no pattern matches the path and there is no fallback, the result is a `404 Not Found` error; variants without a route or forward are never produced.",
 ["programs", "inputs"], "all route enums/structs the derive accepts x all methods and request paths",
 "The derive generates a different router per declaration; the tests cover about a dozen hand-written routers with one or two requests each.",
 [D, PA], [("per-path anchored pattern and pattern set lookup", PA + " RoutePath::parse; " + D + " matching_regex"), ("(path, method) -> variant match arms", D + " regex_match_arms"), ("path -> method -> variant map", PA + " PathMap")],
 [("PathMap", "path pattern -> method -> variant", PA)])

prop("C02", "Path placeholders deliver the exact raw path text, parsed by field type",
 "Each placeholder field receives the `FromStr` parse of precisely the request-path text its placeholder covers: raw, undecoded, for whichever of the variant's routes was matched, and independent of field declaration order. If any conversion fails the result is a `404 Not Found` error whose source is that conversion's error (the first failing placeholder in path order), with no guard, query or body processing having happened.",
 ["programs", "inputs"], "all routes with placeholders, all field types implementing FromStr, all paths matching the pattern",
 "Tests use u32 ids and one String rest placeholder in single-route variants.",
 [D, PA], [("capture index per placeholder and FromStr call", D + " construct_variant"), ("placeholder order equality across routes of a variant", PA + " VariantData::parse")])

prop("C03", "Every GET route also answers HEAD unless a HEAD route is declared for it",
 "For every declared GET route a HEAD request for the same path decodes exactly like the GET request would, to the same variant with the same field values. If a HEAD route is declared for that path pattern, HEAD requests go to the declaring variant instead and GET is unaffected; paths without a GET or HEAD route are never opened to HEAD.",
 ["programs", "inputs"], "all routers x all HEAD requests; metamorphic against the corresponding GET",
 "One test with two literal GET paths and one explicit HEAD.",
 [PA], [("implied HEAD routes", PA + " PathMap::build")])

prop("C04", "A wrong method yields 405 listing exactly the methods the path accepts",
 "When a request path matches a declared pattern but no route for that pattern accepts the method (and no fallback takes the request), decoding fails with `405 Method Not Allowed`. Its allowed-methods list is, as a set, exactly the methods (implied HEAD included) of the routes for that pattern whose placeholder conversions all succeed on this path, and the response made from the error carries the same list in its `Allow` header.",
 ["programs", "inputs"], "all routers with several methods/variants per pattern x all paths matching the pattern x all other methods, extension methods included",
 "Three hand-picked requests; never with variants that share a pattern but disagree on placeholder types, except one no-longer-asserted case.",
 [D, PA, E], [("find_accepted_methods / variant_matches_path", D), ("Error::wrong_method, Error::response", E)],
 observe=["error.allowed_methods()", "error.response().headers()[Allow]"])

prop("C05", "Forwarding hands the unchanged request to the inner decoder; fallback is last",
 "A forward field receives exactly what its type would decode from the same request, with the complete unread body and the same metadata and context, after the variant's own placeholders, query and guards succeeded, and inner errors are returned unchanged. A variant with a forward field and no route is used exactly when no other route accepts the request's path and method. If the path is known but the method is not and the fallback itself fails with 405, the error's allowed methods are the union of both sets; any other fallback error is returned as is.",
 ["programs", "inputs"], "all nestings of routers through forward fields (routed and fallback, enum and struct, generic and not) x all requests",
 "Two hand-written nestings of depth one, without bodies, guards or failing inner decoders.",
 [D, PA], [("fallback arm and 405 merging", D + " regex_match_arms"), ("forward chaining", D + " construct_variant")])

prop("C06", "Guards run in order, see the real request, and stop the request on failure",
 "For the selected variant every guard field's guard is run once, in declaration order, each only after the previous one's future resolved, and before the body is read or the request is forwarded; guards of other variants never run. Each guard sees the original method, URI, version, headers and extensions. The first guard that fails decides the outcome: its error is returned unchanged and neither later guards nor the body or forward decoder are run.",
 ["programs", "inputs", "schedules"], "all numbers, kinds (immediate/asynchronous) and positions of guards in a declaration x all guard outcomes x all readiness schedules",
 "Tests use guards that always succeed immediately and record nothing.",
 [D], [("and_then chaining in reverse declaration order", D + " construct_variant")])

prop("C07", "Query parameters decode as form-urlencoded data; failures are 400",
 "A query-parameters field holds the form-urlencoded decoding of the request's raw query string (an absent query counts as empty) into its type: percent and plus decoding, repeated and unknown keys, defaults and sequences included, and an `Option` field is `None` without query parameters and `Some` of the decoded value otherwise. If the query does not decode, the result is a `400 Bad Request` error with the decoding error as source, and no guard or body processing takes place. The query never influences routing or placeholder values.",
 ["programs", "inputs"], "all serde target types usable with form-urlencoded data x all query strings",
 "Four hand-written well-formed queries against one struct; the documented `Option` form is only compiled, never run.",
 [D, L], [("query deserialization", D + " construct_variant `query`")])

prop("C08", "Body wrappers decode the complete body, however it is chunked",
 "Decoding a JSON or HTML-form body yields the same value as decoding the concatenation of all body chunks as JSON respectively form-urlencoded data, for every split into chunks, every delivery schedule and every body size, and regardless of Content-Type, Content-Length or other headers. A body that does not decode, or whose stream fails at any point, yields an error and never a value or a panic. The wrappers give transparent read and write access to the decoded value.",
 ["inputs", "schedules", "fault_sequences"], "all byte strings x all chunkings and pending patterns x stream faults at every position",
 "Two doctests with one well-formed single-chunk body each.",
 [B, D], [("concat2 then from_slice/from_bytes", B), ("body chaining", D + " construct_variant")])

prop("C09", "Guards and bodies receive the matching part of the request context",
 "A type deriving the request context provides a reference to itself, to the empty context, and for every field marked as such a reference to exactly that field, for named and tuple structs, any number of fields, generics, and fields of equal types that are not marked. A router declared with a context passes to each guard and body decoder the part of the supplied context with the type it asks for, carrying the values of that very request.",
 ["programs", "inputs", "histories"], "all context struct shapes x routers using guards/bodies over their parts x context values per request",
 "Tests only check that the impls exist for one-field structs; no value is ever compared.",
 [RC, D], [("AsRef impl per marked field", RC), ("context.as_ref() in generated code", D + " construct_variant")])

prop("C10", "Route overlap detection is exact",
 "The derive rejects a set of declarations exactly when some request could be accepted by two routes: two routes with the same pattern (up to placeholder names) and method, or two different patterns that match a common path. Declarations without such a pair compile, in every declaration order, and no request path is ever matched by two patterns of an accepted router.",
 ["programs"], "all sets of route patterns in all declaration orders",
 "Nineteen hand-picked pattern pairs, `*` in one order only.",
 [PA], [("RoutePath::find_overlap, PathMap::build, PathMap::add_route", PA)],
 observe=["compile-time acceptance of #[derive(FromRequest)]"])

prop("C11", "The derives reject malformed declarations and accept well-formed ones",
 "Every declaration violating a documented rule is rejected at compile time: paths not starting with `/`, bad, duplicate, unmatched or inconsistently ordered placeholders, a rest placeholder before the end, repeated or conflicting field roles, body together with forward, body or query on a variant without route, several fallbacks, nothing constructible, misplaced or malformed attributes, tuple variants with routes, misused context-reference attributes. Every declaration following the rules compiles for callers that depend only on this crate: in any Rust edition, whatever unrelated attributes, field or variant names, unrouted variants, or context types it uses.",
 ["programs"], "all declarations: well-formed ones from a grammar, plus single-rule mutations of them",
 "Unit tests feed one minimal example per rule; well-formed declarations are only those the tests need.",
 [PA, D, RC, L], [("attribute parsing and validation", PA + " ItemData/VariantData/RoutePath"), ("constructibility checks", D), ("as_ref checks", RC)],
 observe=["compile-time acceptance of the derives"])

prop("C12", "Errors turn into faithful HTTP responses",
 "An error built from any 4xx or 5xx status reports that status, and any other status is refused by a panic. Its response has that status, no further content, and an `Allow` header exactly when the status is 405, listing precisely the given methods in order separated by commas (possibly none). The source given is the source reported, the allowed methods are reported only for 405, and the displayed text contains the status and, if present, the source's text.",
 ["inputs"], "all status codes 100..=999 x all method lists (extension methods included) x all sources",
 "Doctests construct a few errors without checking the response.",
 [E], [("Error constructors, response, Display, source", E)], observe=["hyperdrive::Error API"])

prop("C13", "Service adapters answer every request as decoder and handler say",
 "For every request the synchronous and asynchronous service adapters call the handler exactly once with the decoded value and the original request metadata if decoding succeeds, and never otherwise, using a clone of the configured context per request. The handler's response is returned with status, headers and body intact, except that responses to HEAD requests have an empty body. Errors of the crate's own type, from decoder or handler, become the response they describe with an empty body, any other error is passed through unchanged, and clones of a service (as made per connection) behave identically.",
 ["inputs", "histories", "schedules"], "all routers, handlers and request sequences over service clones, with handler success, crate errors and foreign errors",
 "One end-to-end test with a panicking handler; HEAD suppression and error conversion are untested.",
 [S], [("AsyncService::call, SyncService::call, make_service", S)], observe=["hyper::service::Service::call", "MakeService::make_service"])

prop("C14", "catch_unwind turns every panic into the panic handler's answer",
 "With panic catching installed, a panic at any point of serving a request (while the inner service is called or at any later poll of its future, synchronous or on the blocking pool) invokes the panic handler exactly once with the original payload, and the handler's response or error is the outcome. Without a panic the inner outcome is returned unchanged and the handler is not called. After any number of panics the service and its clones keep serving later requests correctly.",
 ["fault_sequences", "histories", "schedules"], "all placements of panics (call, n-th poll, guard, body, handler) and payload types over request sequences",
 "One test with three fixed panic places, one request each, payload ignored.",
 [S], [("CatchUnwind::call", S)], observe=["hyper::service::Service::call on CatchUnwind"])

prop("C15", "Decoding is deterministic: entry point, schedule and history do not matter",
 "Decoding the same request with an equal context gives the same outcome through every entry point (asynchronous, synchronous, from separated parts, through the service adapters), for every schedule of readiness of guards and body chunks, however it is interleaved with the decoding of other requests on the same or other threads, and whatever was decoded before.",
 ["schedules", "histories", "inputs"], "all interleavings of polls of several in-flight requests, all entry points, all preceding requests",
 "Tests decode one request at a time, through the synchronous entry point only.",
 [L, D], [("from_request / from_request_sync default methods", L), ("per-router statics", D + " lazy_static ROUTES/REGEXES")])

prop("C16", "blocking() runs the closure exactly once and relays its result",
 "A future made from a blocking closure, run on the runtime's thread pool, runs the closure exactly once, only when polled, and resolves to precisely the closure's success or error value, also when many such futures compete for blocking capacity. Other tasks keep making progress while closures block, and a panic in the closure surfaces as a panic of the future. Outside a suitable runtime polling panics instead of silently blocking or dropping the closure.",
 ["inputs", "schedules", "fault_sequences"], "all closures (values, errors, panics), all numbers of concurrent blocking futures relative to the pool's capacity",
 "Only exercised indirectly by one handler call in the catch_unwind test.",
 [L], [("blocking()", L)], observe=["hyperdrive::blocking"])

prop("C17", "Decoding is total: no request can make it panic or hang",
 "For every accepted router and every syntactically valid request (any method token, any URI form and characters, any headers, any body bytes, chunking or stream failure), decoding finishes with a value or an error and never panics, as long as the user's own guards and types do not panic. Failures found by the router itself (unknown path, wrong method, placeholder or query that does not decode) are always errors of the crate's own type with status 404, 405 or 400.",
 ["inputs", "programs", "fault_sequences"], "all requests representable by the http crate x all accepted routers",
 "Tests send only plain ASCII literal paths.",
 [D, L, B], [("generated decoder; internal expect()/debug_assert! invariants", D)])

prop("C18", "Generic declarations behave like their monomorphic counterparts",
 "A generic enum or struct with derived decoding, instantiated with any types that fit the roles of its fields (placeholder, query, body, guard, forward), decodes every request exactly as the same declaration with those types written out. Different instantiations of one generic declaration in the same program do not influence each other.",
 ["programs", "inputs"], "all generic declarations and instantiations x all requests; metamorphic against the monomorphic twin",
 "Three instantiations with one request each.",
 [D], [("generate_trait_bounds", D), ("statics inside generic functions", D)])

prop("C19", "A server built from the adapters answers over the wire as declared",
 "A hyper server built from a service adapter (with or without panic catching, one clone per connection) answers every well-formed HTTP/1.1 request sequence on a connection with one response per request, in order, whose status, Allow header and body are those the declaration and handler prescribe, with no body for HEAD. Requests whose decoding fails with a foreign error only lose their own connection, and malformed or aborted input never prevents the server from answering later requests.",
 ["histories", "inputs", "fault_sequences"], "all sequences of requests over keep-alive and pipelined connections, any framing (Content-Length, chunked, arbitrary TCP segmentation), aborted connections",
 "One test starts a server and sends three independent GET requests.",
 [S, L, D], [("Service/MakeService impls", S)], observe=["TCP loopback"])

prop("C20", "A finished or abandoned request leaves nothing behind",
 "Decoding a request advances only while its future is polled. Once that future has finished, with a value or an error, or has been dropped at any point before, nothing of the request stays alive: the request's metadata and extensions, its body stream and its context are released (apart from what the decoded value itself keeps), no guard, body or forward decoder makes further progress, a service's handler is not called afterwards, and repeating the same request any number of times does not make the program hold more and more memory.",
 ["schedules", "inputs", "histories", "fault_sequences"], "all accepted routers x all requests x all points at which the future is dropped, directly or in a service adapter",
 "No test ever drops a decoding future early or looks at what is left after one.",
 [D, L, S], [("owned request, body and context in the decoding future", D + " construct_variant"), ("from_request; service call futures", L + "; " + S)],
 observe=["strong counts and drops of instrumented extensions, body streams and context parts; allocated bytes"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
