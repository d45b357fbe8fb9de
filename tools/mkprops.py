#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "One coherent response per request under every schedule",
  "Every proxied request is answered with exactly one complete response, and that response is either a gateway error or the status, headers and body of one and the same upstream attempt. This holds however upstream answers, attempt timeouts, the round trip timeout and late answers of abandoned attempts interleave. No interleaving crashes the server or leaves the request unanswered.",
  ["schedules", "fault_sequences"],
  "all interleavings (preemption bounded) of request handler, attempt goroutines and timer callbacks, for every combination of per-attempt upstream behaviour and timing, ties included",
  "Unit tests run one natural schedule per scenario; a late attempt racing its successor needs a switch at one particular statement.",
  ["proxyhandler.go", "proxy.go"],
  [("select over abort/complete channels", "proxyhandler.go performUpstreamRequest, parseUpstreamResponse"), ("per attempt state", "proxy.go Atmpt, nextAttempt")],
  ["http.ResponseWriter of the downstream request", "process crash"],
  [("Up.Atmpt", "current upstream attempt", "proxy.go")])
p("C02", "Retries only where safe, bounded and identical",
  "An upstream attempt that fails (transport error, status of 500 or above, unreadable body, attempt timeout) is followed by another attempt only if the method is GET, HEAD, OPTIONS, TRACE, PUT or DELETE and fewer than maxAttempts were made; POST and CONNECT are attempted once. Every retry repeats the same method, target, headers, X-Request-Id and body to the same upstream, one attempt at a time. The first attempt that yields a status below 500 ends the sequence and decides the response.",
  ["fault_sequences", "inputs"],
  "all sequences of attempt outcomes up to the attempt limit, all legal methods, all maxAttempts values in range",
  "The tests cover a handful of methods with one failure; the guarantee is over every outcome history, method and limit.",
  ["proxyhandler.go", "proxy.go"],
  [("shouldRetryUpstreamAttempt", "proxy.go"), ("nextAttempt", "proxy.go"), ("handle recursion", "proxyhandler.go")],
  ["requests received by upstream", "downstream response"])
p("C03", "Timeouts bound every exchange and map to 504 or 502",
  "An upstream attempt is cancelled once readTimeoutSeconds have passed for it, and a fully received request is answered no later than roundTripTimeoutSeconds after it arrived, after which no attempt is started and running ones are cancelled. If the round trip or the last attempt ran out of time the client gets 504; if the last attempt failed for any other reason it gets 502. Answers that arrive in time are never cut off.",
  ["fault_sequences", "schedules"],
  "all sequences of attempt behaviours (answer, error, 5xx, hang in headers, hang in body) at delays around both deadlines, all orderings of the two timeouts",
  "Wall clock tests try one or two timeouts in isolation and cannot place events exactly at or around a deadline.",
  ["proxyhandler.go", "proxy.go"],
  [("time.AfterFunc cancel of attempt and downstream contexts", "proxyhandler.go scaffoldUpstreamRequest, proxy.go parseIncoming"), ("status mapping", "proxyhandler.go handle")],
  ["virtual time of the downstream response", "cancellation of upstream request contexts", "downstream status"])
p("C04", "Request bodies arrive unchanged or not at all",
  "A request body smaller than the configured maxBodyBytes reaches the upstream byte for byte, whatever its framing (Content-Length or chunked), chunk boundaries or arrival pattern. A body larger than maxBodyBytes is answered with 413. A body that is larger, truncated or malformed is never forwarded, neither in part nor as an empty body.",
  ["inputs", "fault_sequences"],
  "all body sizes around 0, buffer sizes and the limit, both framings, all split points of small bodies, all truncation points and malformed chunk headers, all methods that carry bodies",
  "The tests send two or three well formed bodies; limits, splits and truncation at every position are not reached.",
  ["proxy.go", "proxyhandler.go"],
  [("parseRequestBody", "proxy.go"), ("validate", "proxyhandler.go"), ("bodyReader", "proxy.go")],
  ["bytes received by upstream", "downstream status"])
p("C05", "Content coding label always matches the body sent",
  "For every response, decoding the body by its Content-Encoding label gives exactly the upstream's entity (or the gateway's own JSON for generated responses), and Content-Length, where present on a response with a body, is the number of body bytes sent. gzip is never sent to a client that did not list it as acceptable or refused it with q=0. Content codings other than gzip and identity are passed through unchanged together with their label.",
  ["inputs", "configurations"],
  "all combinations of client Accept-Encoding, upstream Content-Encoding, body content class (empty, one byte, text, gzip, gzip file without label, foreign coding, binary), method, status class including generated errors and the about endpoint",
  "Tests check four gzip/identity combinations on one JSON body with mocks.",
  ["proxy.go", "gzip.go", "proxyhandler.go", "responses.go", "server.go"],
  [("encodeUpstreamResponseBody, contentEncoding, setContentLengthHeader", "proxy.go"), ("Gzip, Gunzip pools", "gzip.go"), ("sendStatusCodeAsJSON", "server.go"), ("aboutHandler", "responses.go")],
  ["bytes on the downstream connection"])
p("C06", "Request line, headers, status and request id are proxied faithfully",
  "The upstream receives the client's method and every end-to-end client header except Host, Date, Content-Length, Transfer-Encoding and Server with all its values in order; for upstream statuses below 400 the client receives the upstream's status and, with the same exceptions, its headers. Each request carries one X-Request-Id, the client's own or else a generated unique one, which the upstream and the client both see. Responses name the gateway in Server, and in TLS mode carry Strict-Transport-Security.",
  ["inputs", "configurations"],
  "all methods, statuses 200..399, header names and value lists including repeated, empty and differently cased ones, with and without request id, for proxied and generated responses, plain and TLS mode",
  "Tests sample a few headers and statuses.",
  ["proxy.go", "proxyhandler.go", "server.go"],
  [("shouldProxyHeader, scaffoldUpstreamRequest", "proxyhandler.go"), ("copyUpstreamResponseHeaders, createXRequestID", "proxy.go"), ("writeStandardResponseHeaders", "server.go")],
  ["requests received by upstream", "bytes on the downstream connection"])
p("C07", "JWT protected routes admit only validly signed tokens",
  "On a route configured with a jwt, a request passes only if it bears a token whose signature verifies with the route's configured algorithm under one of the keys configured for that jwt (for algorithm none, any parseable token); every such unexpired token passes. All others, including missing, malformed, unsigned, tampered, foreign-key and algorithm-confused tokens, are answered with 401 and nothing reaches the upstream. Routes without jwt need no token, and routes to the internal about resource are protected alike.",
  ["inputs", "configurations"],
  "all configured algorithms x token algorithms x signing keys x kid values x tampering classes x authorization header shapes",
  "Tests use a few canned tokens; algorithm confusion, every tamper position class and malformed shapes for all 13 algorithms are not reached.",
  ["proxy.go", "jwt.go", "proxyhandler.go", "server.go"],
  [("validateJwt, verifySignature, extractKid", "proxy.go"), ("KeySet.Find", "jwt.go"), ("401 branch", "proxyhandler.go")],
  ["downstream status", "whether the upstream was called"])
p("C08", "JWT date claims hold within the acceptable skew",
  "A correctly signed token passes iff, with s the configured acceptableSkewSeconds, now is before exp+s, not before iat-s and after nbf-s, for whichever of these claims it carries (in the second that starts at nbf-s either verdict is fine). Dates are compared at a granularity of one second. Claims that are absent impose no condition. The default skew is 120 seconds.",
  ["inputs", "configurations"],
  "all combinations of the three claims at offsets around each boundary, all skews from 0 to beyond a month, numeric claim encodings, evaluated at exact virtual instants",
  "Tests run on wall clock with margins of many seconds and few claim combinations.",
  ["proxy.go", "jwt.go"],
  [("verifyDateClaims", "proxy.go"), ("defaultSkew", "jwt.go")],
  ["downstream status under virtual time"])
p("C09", "JWKS key rotation keeps accepting every published key",
  "After any history of key publications and refreshes, once a refresh has succeeded tokens signed by each key published at that time are accepted, including a key republished under a known kid, and previously accepted keys keep working through failed refreshes. A token with an unknown kid triggers a refresh without delaying its own answer; at most one refresh runs at a time and consecutive refreshes start at least 10 seconds apart. A failed refresh never prevents later ones.",
  ["histories", "fault_sequences", "schedules"],
  "all operation histories up to a depth over publish, replace, fail, malformed, hang, request with each key and time steps around 10 s, in virtual time",
  "Tests perform a single rotation; lost updates need a particular sequence of publications, failures and requests.",
  ["jwt.go", "proxy.go"],
  [("LoadJwks, KeySet.Upsert, lock", "jwt.go"), ("triggerKeyRotationCheck", "proxy.go")],
  ["downstream status", "requests received by the jwks endpoint"],
  [("Jwt.RSAPublic/ECDSAPublic", "loaded key sets", "jwt.go"), ("Jwt.updateCount, lock", "refresh throttle", "jwt.go")])
p("C10", "Requests go to the resource of the longest matching route",
  "Whatever the order in which routes are configured, with or without leading slash, a request is served by the route with the longest path that is a prefix of its target, and reaches that route's resource (the first mapping if the route has no policy). A request path that no route matches is answered 404, a route whose resource or label has no mapping 503, and neither reaches any upstream.",
  ["configurations", "inputs"],
  "all subsets and orders of a route path alphabet with nested and slashless paths, all targets from a target alphabet, against a reference matcher",
  "Tests fix a few route lists; order, nesting and slash variants multiply.",
  ["route.go", "config.go", "proxyhandler.go", "server.go"],
  [("Routes.Less, matchURI, mapURL", "route.go"), ("validateRoutes, compileRoutePaths", "config.go")],
  ["which upstream received the request", "downstream status"])
p("C11", "Upstream target is confined to the mapped resource",
  "For every request target, whatever its bytes, the upstream request goes to exactly the scheme, host and port of the mapped resource. Its path and query equal the client's (up to percent-encoding where the client's target is not a legal URI), except that on a route with a transform the route's path prefix is replaced by the transform, a path always starting with a slash. Redirect answers of the upstream are passed to the client and never followed.",
  ["inputs", "configurations"],
  "all targets up to a length over an alphabet of URI-significant characters appended to the route path, with all transform kinds, plus schemes and ports",
  "Tests transform a few benign paths; host confusion needs specific characters right after the prefix.",
  ["proxy.go", "upstream.go", "httpclient.go", "config.go"],
  [("resolveUpstreamURI", "proxy.go"), ("URL.String", "upstream.go"), ("CheckRedirect", "httpclient.go"), ("reApplyResourceSchemes", "config.go")],
  ["URL of upstream requests"])
p("C12", "Policies split traffic by weight, whatever else happens",
  "On a route with a policy each request is mapped to a label with probability equal to that label's weight, whatever the order of labels in the configuration, and any remainder below 1 goes to the label default. The split is unaffected by earlier or concurrent requests and by generated responses in between. The request reaches the first mapping of the route's resource that bears the drawn label.",
  ["configurations", "schedules", "histories"],
  "all policies from a weight alphabet with all label orders and a grid of random draws including all boundaries; all interleavings (preemption bounded) of concurrent requests followed by a full draw grid; all short histories of proxied and generated responses",
  "Tests observe ratios statistically and sequentially; a lost label needs one interleaving of two requests.",
  ["policy.go", "route.go", "responses.go"],
  [("resolveLabel", "policy.go"), ("mapURL", "route.go"), ("randomHuttese", "responses.go")],
  ["which upstream received the request"],
  [("Runner.Policies", "policies shared by all requests", "policy.go")])
p("C13", "Concurrent requests are isolated from each other",
  "When requests are handled concurrently, each upstream request and each response is exactly what it would have been had the request been handled alone: no bytes, headers, request ids, encodings, routes, users' credentials or verdicts of one request show up in another. This holds for every interleaving.",
  ["schedules"],
  "all interleavings (preemption bounded) of two or three concurrent requests chosen to share every pool, cache and global, compared with their solo runs",
  "Tests are sequential or run parallel requests on a natural schedule only.",
  ["proxyhandler.go", "proxy.go", "gzip.go", "policy.go", "iprex.go", "responses.go", "route.go"],
  [("per request Proxy", "proxyhandler.go"), ("sync.Pool of gzip writers and readers", "gzip.go"), ("route loop variable", "proxyhandler.go")],
  ["upstream requests", "downstream responses"],
  [("zipPool, unzipPool", "shared coders", "gzip.go")])
p("C14", "Configuration is honoured, defaulted or rejected",
  "The configuration comes from the -c file, else the J8ACFG_YML variable, else ./j8acfg.yml. Every documented parameter takes its configured value, or its default if absent or zero (downstream: read 120 s, round trip 240 s, idle 120 s, body 2 MiB, mode HTTP, port 8080 or 443 for TLS; upstream: socket 3 s, read 120 s, idle 120 s, pool 32768, 1 attempt), resource schemes are normalised to http or https, and resource mappings carry their name. A configuration that is missing, unparseable, has no routes, values of the wrong type, an illegal route path, a transform without leading slash or an unknown jwt stops the boot.",
  ["configurations"],
  "all combinations of sources and all present/absent/zero/typed variants of each parameter pairwise, all illegal classes",
  "Tests check single parameters on fixed files.",
  ["config.go", "server.go", "connection.go", "cmd/j8a/main.go"],
  [("load, parse, setDefault*Params, reApply*, validateRoutes", "config.go"), ("BootStrap", "server.go")],
  ["effective runtime configuration", "boot outcome"])
p("C15", "TLS mode serves only strong protocols with a valid certificate",
  "In TLS mode the server completes handshakes only with TLS 1.2 or 1.3, in TLS 1.2 only with ECDHE-RSA AES-GCM suites, and key exchange only on P-256, P-384 or P-521. Any client that supports one of these combinations can connect. The server refuses to start if certificate or key is missing, malformed or mismatched, or if the chain is expired, not yet valid, lacks a DNS name or does not verify.",
  ["configurations", "inputs"],
  "all client offers over protocol version x cipher suite x curve; all certificate chain shapes x validity x key match",
  "Tests inspect struct fields or one handshake.",
  ["server.go", "tls.go"],
  [("tlsConfig", "server.go"), ("checkCertChain", "tls.go")],
  ["handshake outcome", "boot outcome"])
p("C16", "Certificate health is reported truthfully and forever",
  "While the server runs in TLS mode it reports on its certificate chain once every 24 hours, for any chain and any serial numbers, without ever stopping. What the report says of each certificate (serial number, names, issue date, remaining and total validity, browser validity limits) is true; it names the certificate with the earliest expiry of the whole chain and is a warning exactly if fewer than 30 days remain until that expiry. When the chain has expired or become invalid a warning is logged as well.",
  ["configurations", "histories"],
  "all chains up to three certificates with every order of expiry, serial lengths 1..40 hex digits, remaining validity around the 30 day and expiry boundaries, several days of virtual time",
  "Tests check a few chains once; the boundaries, serial shapes and repetition are not reached.",
  ["tls.go"],
  [("tlsHealthCheck, parseTlsLinks, logCertStats, formatSerial", "tls.go")],
  ["log output over virtual time"])
p("C17", "Gateway generated responses are well formed JSON that tells the truth",
  "Every response the gateway generates itself (400, 401, 404, 413, 502, 503, 504, and the replacement of any upstream 4xx) has content type application/json and a JSON object body with fields j8a, ServerID, Version, Code and Message, where Code equals the HTTP status and Message is not empty. Replaced upstream errors keep the upstream's status code. The about endpoint answers 200 with a JSON object of j8a, ServerID and Version.",
  ["inputs", "fault_sequences"],
  "all ways to provoke each generated response x methods x accept-encodings x protocol versions; all upstream statuses 400..499",
  "Tests check single codes on the struct, not what arrives at a client in each situation.",
  ["responses.go", "server.go", "proxyhandler.go"],
  [("StatusCodeResponse.AsJSON, withCode", "responses.go"), ("sendStatusCodeAsJSON", "server.go")],
  ["bytes on the downstream connection"])
p("C18", "Logged remote addresses are complete and correct",
  "For any client address, IPv4 or IPv6 in any textual form Go prints, with port and optional zone, in the request log and in TLS handshake or network error messages, the address that is logged as remote address is exactly that address without port and zone, whatever else the message contains.",
  ["inputs"],
  "all IPv6 addresses over a group alphabet with every zero-run position and length and embedded IPv4 forms, IPv4 octets over boundary values, zones, in every message template",
  "Tests list some thirty addresses.",
  ["iprex.go", "server.go", "proxyhandler.go"],
  [("extractAddr", "iprex.go"), ("zerologAdapter.Write", "server.go")],
  ["dwnReqRemoteAddr in log output"])
p("C19", "Memory history keeps the last 24 samples and flags growth",
  "After any sequence of samples the process history holds exactly the most recent ones in order, never more than 24. The growth rate reported for each position is its memory relative to the oldest sample in the window, flagged high exactly if it is at least 2.0, and a window with unset samples reports nothing.",
  ["histories"],
  "all sequences of memory samples over a small alphabet up to a depth, long sequences by canonical state, from empty and full windows",
  "Tests append a fixed series.",
  ["stats.go"],
  [("samples.append, samples.log", "stats.go")],
  ["sample window", "growth rates", "log output"])
p("C20", "JWT configurations are accepted only with matching key material",
  "A jwt configuration is accepted at boot iff its algorithm is one of the 13 supported, its key material (PEM public key or certificate, secret, or JWKS) is present and of the algorithm's key type and curve, none comes without key data, and the skew is absent or a non-negative integer. Every other configuration is rejected with an error instead of a crash or silent acceptance.",
  ["configurations"],
  "all algorithms (and unknown ones) x key material classes x skew values x jwks combinations",
  "Tests cover selected pairs.",
  ["jwt.go", "config.go"],
  [("Validate, parseKey, checkECDSABitSize", "jwt.go"), ("validateJwt", "config.go")],
  ["boot outcome", "verdict on tokens after boot"])
p("C21", "Every request is logged exactly once and truthfully",
  "For every request that j8a answers (not those net/http refuses or redirects by itself), exactly one access log entry is written, whose method, path, response code, request id and remote address are those of the exchange as the client saw it, at level warn for codes of 400 and above and info otherwise. If the response stems from an upstream answer, the entry names the upstream URI, status and attempt number of the attempt that decided it. Access log entries are valid JSON whatever bytes the request contains.",
  ["inputs", "fault_sequences"],
  "all response kinds (proxied, retried, each generated error, about) x methods x request ids and paths with special characters",
  "No test reads the access log.",
  ["proxyhandler.go", "server.go", "responses.go"],
  [("logHandledDownstreamRoundtrip", "proxyhandler.go")],
  ["log output"])
p("C22", "Upstream TLS certificates are verified unless told otherwise",
  "A request to an https upstream is sent only if the upstream's certificate chain is trusted, currently valid and issued for the configured host; otherwise the client gets 502 and no request data reaches that upstream. Only tlsInsecureSkipVerify set to true lifts this.",
  ["configurations", "fault_sequences"],
  "all upstream certificate kinds (trusted, self signed, expired, not yet valid, other host, unknown CA) x skip flag true, false, absent x methods x retries",
  "Tests check the flag on the transport struct.",
  ["httpclient.go", "connection.go"],
  [("scaffoldHTTPClient TLSClientConfig", "httpclient.go")],
  ["request bytes decrypted by the upstream", "downstream status"])
p("C23", "No request can crash the server or go unanswered",
  "Whatever a client sends as method, target, version, headers, token or body, and whatever the upstream answers to it, a request that is syntactically valid HTTP is answered with exactly one well formed HTTP response, and the server keeps serving other clients. Requests with a method other than GET, HEAD, OPTIONS, TRACE, PUT, DELETE, POST or CONNECT (in any letter case) are answered 400 on proxied routes and never forwarded.",
  ["inputs", "fault_sequences"],
  "the product of alphabets for method, target, version, header sets, authorization values and body framings, over all route kinds, and all upstream answer kinds including empty, one byte, truncated and malformed ones",
  "Tests send well formed requests to mocks and never see a dropped connection.",
  ["proxyhandler.go", "proxy.go", "route.go", "responses.go", "server.go"],
  [("validate", "proxyhandler.go"), ("hasLegalHTTPMethod", "proxy.go")],
  ["bytes on the downstream connection", "handler panics"])
p("C24", "Misbehaving JWKS servers cannot take the gateway down",
  "Whatever a JWKS endpoint answers (errors, hangs, truncated or malformed documents, keys of the wrong type, curve, algorithm or size, missing fields), a boot that depends on it either succeeds with usable keys or is refused with an error, and a refresh at run time never crashes the server, delays or changes the verdict on tokens of already loaded keys, or admits tokens not signed by a published key of the configured algorithm.",
  ["fault_sequences", "inputs"],
  "all jwks documents from an alphabet of key entries (valid and each malformation) of up to two keys x configured algorithms x boot or refresh",
  "Tests serve a few well formed key sets.",
  ["jwt.go", "proxy.go"],
  [("LoadJwks", "jwt.go")],
  ["boot outcome", "process crash", "downstream status"])
p("C25", "Finished requests leave nothing behind",
  "Every upstream response body handed to a request that was not cut off by a timeout is closed by the time that request is answered, so its connection can be reused, and no upstream request is in flight any more once its client is answered. Once all requests are answered and the configured timeouts have passed, no goroutine, timer or upstream request started on their behalf remains, whatever the outcomes of their attempts.",
  ["fault_sequences", "schedules"],
  "all sequences of attempt outcomes including failed retries, errors after headers, aborted attempts and client errors",
  "Leaks are invisible to single request tests.",
  ["proxyhandler.go", "proxy.go"],
  [("deferred Body.Close", "proxyhandler.go handle"), ("context cancel funcs", "proxyhandler.go scaffoldUpstreamRequest, proxy.go abortAllUpstreamAttempts")],
  ["Close of upstream bodies", "goroutines left in the bubble"])
p("C26", "A request means the same over every protocol",
  "A request that can be expressed over HTTP/1.0, HTTP/1.1 (body framed by Content-Length or chunks) and HTTP/2 (body length declared or not), in plain or TLS mode, reaches the upstream in the same form and is answered with the same status, headers and decoded body over each of them; only framing and connection level headers differ, and Strict-Transport-Security is present in TLS mode and only there.",
  ["inputs", "configurations"],
  "all combinations of a bounded number of methods, targets, headers, bodies and upstream answers off their default, over all eight pairings of protocol, framing and mode, in varying order",
  "The tests talk to the gateway over HTTP/1.1 nearly always, and compare no two protocols.",
  ["proxy.go", "proxyhandler.go", "server.go"],
  [("parseRequestBody", "proxy.go"), ("writeStandardResponseHeaders", "server.go"), ("scaffoldUpstreamRequest", "proxyhandler.go")],
  ["requests received by upstream", "bytes on the downstream connection"])
p("C27", "Client connections serve any history and end when due, not before",
  "On one client connection every complete request of any sequence, pipelined or not, gets its own answer, in order (over HTTP/2: on its own stream, however many run side by side), whatever the earlier requests on the connection were and however they ended. A kept connection stays usable until it has been idle for downstream idleTimeoutSeconds and is then ended, a request that is not delivered in full within downstream readTimeoutSeconds is cut off and nothing of it is forwarded, and neither limit, nor roundTripTimeoutSeconds, accumulates over the requests of a connection.",
  ["histories", "schedules"],
  "all histories of up to two (thorough: three) actions (requests of every kind and outcome, slow answers, trickling heads and bodies, pauses, pipelining) with every ending, plain and TLS, and pairs of sets of concurrent HTTP/2 streams",
  "Tests open a connection per request or send the same request again; no test pauses, pipelines or stalls.",
  ["server.go", "proxyhandler.go", "proxy.go"],
  [("http.Server timeouts", "server.go startListening"), ("parseRequestBody", "proxy.go")],
  ["bytes on the downstream connection", "end of the downstream connection", "requests received by upstream"])
p("C28", "Credentials and payloads never appear in the log",
  "No log output, at any LOGLEVEL and whatever succeeds or fails, contains a configured jwt secret or the TLS private key, the value of an Authorization, Proxy-Authorization, Cookie, Set-Cookie or other client or upstream header that is not logged on purpose (X-Request-Id, User-Agent), any part of a token but its key id and date claims, or any part of a request or response body. This includes boots that are refused because of the very value that is secret.",
  ["inputs", "configurations", "fault_sequences"],
  "all combinations of place of a secret, route, method, cause of success or failure, log level and mode; all listed ways in which a configuration with a secret is refused",
  "The tests do not look at the log for what must be absent.",
  ["proxy.go", "proxyhandler.go", "jwt.go", "config.go", "tls.go", "server.go", "logger.go"],
  [("validateJwt, logDateClaims", "proxy.go"), ("parseKey errors", "jwt.go"), ("infoOrTraceEv", "proxyhandler.go"), ("zerologAdapter", "tls.go")],
  ["the server's log output"])
p("C29", "Identity and log settings follow the environment, everywhere alike",
  "The server's id is determined by HOSTNAME (else the system's host name) and VERSION alone, so restarts keep it, and differs between hosts; every response's Server header, every generated body, every generated X-Request-Id and every log line from its determination on bears this same id, and VERSION (default: the release's) is the version shown in all of them. Nothing below LOGLEVEL (TRACE, DEBUG, INFO, WARN in any case, INFO otherwise) is logged and what is at or above it is, each line is a JSON object with level and a time in the zone of TZ (default UTC), unless LOGCOLOR asks for colors. Refused configurations exit non zero and say so at any level.",
  ["configurations"],
  "all environments with up to two (thorough: three) of HOSTNAME, VERSION, LOGLEVEL, TZ and LOGCOLOR off their default, plain and TLS, accepted and refused configurations",
  "Tests call the functions one by one and never read the log of a running server.",
  ["logger.go", "time.go", "server.go", "responses.go", "proxy.go"],
  [("initLogger, initServerID", "logger.go"), ("initTime", "time.go"), ("writeStandardResponseHeaders", "server.go"), ("createXRequestID", "proxy.go")],
  ["the server's log output", "bytes on the downstream connection"])
p("C30", "Upstream connections never mix, poison or outlast exchanges",
  "Whatever an upstream did in earlier exchanges and on whatever connections, a later request to it gets exactly the answer given to it, never a byte of another one, and an upstream that works again is used again at once. A connection whose exchange completed and may be kept is used for the next request instead of a new one; one whose exchange was cut off, timed out or ended early is never used again. An upstream that fails or hangs does not affect requests to others.",
  ["histories", "fault_sequences"],
  "all histories of up to two (thorough: three) exchanges out of an alphabet of 44 (complete answers of every framing, failures, cut offs, hangs, resets, stale bytes, unreachable ports, clients that leave), rows of twelve equal ones, pairs of attempts of one request, over http and https upstreams",
  "Tests use a fresh, well behaved upstream per case and never look at its connections.",
  ["proxyhandler.go", "httpclient.go", "proxy.go"],
  [("scaffoldHTTPClient", "httpclient.go"), ("performUpstreamRequest, processUpstreamResponse", "proxyhandler.go"), ("parseUpstreamResponse", "proxyhandler.go")],
  ["requests received by upstream", "connections opened to upstream", "bytes on the downstream connection"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
