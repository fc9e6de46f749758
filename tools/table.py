P = ["gzipmodel.go", "proxy_common.go"]
B = P + ["boot.go"]
BO = ["listen", "exit"]
PX = PROXY + GZ
ALL = ("an exchange in any circumstances: 10 method spellings, 14 sequences of up to 2 of 9 outcomes (success, empty, redirect, 404, 429, 503, refused, hanging, broken off), 8 circumstances (plain, HTTP/2, TLS, HTTP/1.0, debug, other host, through a policy and a transform, on a route with a jwt), "
 "gzip accepted or not, symbolic payloads, header values, id and target, and every header name, header value, target part, body size and number of values that the source newly mentions.")

prop("C01", "Upstream attempts are bounded and only safe requests are repeated",
 "A request makes at least one and at most the configured number of upstream attempts, and stops at the first attempt the gateway accepts. Only GET, HEAD, OPTIONS, TRACE, PUT and DELETE requests are ever attempted again; POST and CONNECT are attempted exactly once. A failed attempt of a repeatable request is followed by another one while attempts remain.",
 ["inputs", "fault_sequences", "configurations"], "every method, every attempt limit within the bound, every sequence of attempt outcomes (connection error, broken body, any status with or without a body)",
 "the tests run a handful of methods and outcomes against canned upstreams; a sequence such as broken body, 503, 200 for each method and limit is not sampled",
 ["proxyhandler.go", "proxy.go"], [("shouldRetryUpstreamAttempt", "proxy.go"), ("handle", "proxyhandler.go"), ("nextAttempt", "proxy.go")],
 [("Retry", ["unrepeatable", "retried", "accepted", "client-error", "failed"]), ("RetryLate", ["repeated"]), ("RetryMany", ["passed", "failed"]), ("AllAttempts", ["passed", "failed"])], P + ["p_retry.go", "p_all.go", "jwtmodel.go", "p_allguard.go"], ["clock"],
 bounds="attempt limit 1..3 (thorough 1..4), all eight methods, each attempt one of connection error, broken body, status without body, status with a 2 byte body; statuses up to 999 except 100 and 102..199 symbolic; attempt limits 5, 9, 17, 33, 65, 101, 129 and the number above any that the source newly mentions, all attempts failing in one of 4 ways but possibly the last; and " + ALL,
 outside="other limits; attempts cut off by timeouts (C22, C23).", assume=PX, observe=["requests received by the upstream", "response written to the client"])

prop("C02", "Every attempt sends the same request",
 "Each upstream attempt made for one client request goes to the same upstream and carries the client's method, the same target and the whole request body. This holds for the first attempt and every repetition, whatever happened to the attempts before it.",
 ["inputs", "fault_sequences"], "every repeatable method, every short body, every sequence of failed attempts within the limit",
 "tests do not inspect what the second and later attempts send; a body reader consumed by the first attempt would go unnoticed",
 ["proxyhandler.go", "proxy.go"], [("scaffoldUpstreamRequest", "proxyhandler.go"), ("bodyReader", "proxy.go")],
 [("SameRequest", ["repeated", "single"]), ("SameUpstream", ["repeated"]), ("RetryMany", ["passed", "failed"]), ("AllSame", ["passed", "failed"])], P + ["p_retry.go", "p_all.go", "jwtmodel.go", "p_allguard.go"], ["clock", "rand"],
 bounds="attempt limit 1..3 (thorough 1..4); bodies of 0..3 symbolic bytes read by the gateway in pieces of any size; or targets of 0..2 symbolic bytes after the route (one of the two varies); all methods; outcomes as in C01; the 130th attempt like the first; and " + ALL,
 outside="longer bodies; bodies over the limit (C09).", assume=PX, observe=["requests received by the upstream"])

prop("C03", "Request headers reach the upstream unchanged",
 "Every client request header except Date, Content-Length, Transfer-Encoding and Server reaches the upstream with all its values in order, on every attempt. Those four are never passed on, and apart from the request id nothing is added.",
 ["inputs"], "every header name and value within the bounds, one or several values, with and without a repetition",
 "tests check single fixed headers; multi-valued, unusual and reserved names in combination with retries are not sampled",
 ["proxyhandler.go"], [("shouldProxyHeader", "proxyhandler.go"), ("scaffoldUpstreamRequest", "proxyhandler.go")],
 [("ReqHeaders", ["reserved", "forwarded"]), ("ReqHeaderName", ["reserved", "forwarded"]), ("AllReqHeaders", ["passed", "failed"])], P + ["p_headers.go", "p_all.go", "jwtmodel.go", "p_allguard.go"], ["clock"],
 bounds="header names: a list of 13 significant ones with 1..2 values of 0..2 symbolic printable bytes and 1..2 attempts; plus any canonical letter-only name of 4 or 6 (thorough up to 8) symbolic letters; and " + ALL,
 outside="longer symbolic names and values; headers net/http adds below the gateway.", assume=PX, observe=["requests received by the upstream"])

prop("C04", "Response headers reach the client unchanged",
 "Every upstream response header except Date, Content-Length, Transfer-Encoding and Server (and the request id, which has its own rule) reaches the client with all its values in order. The client always gets exactly one Server header naming the gateway, and a Strict-Transport-Security header exactly when serving over TLS.",
 ["inputs", "configurations"], "every header name and value within the bounds, every passed status, TLS on or off",
 "tests compare a few fixed headers; they never send multi-valued or reserved names from upstream",
 ["proxy.go", "server.go"], [("copyUpstreamResponseHeaders", "proxy.go"), ("writeStandardResponseHeaders", "server.go")],
 [("RespHeaders", ["reserved", "copied", "server"]), ("RespHeaderName", ["reserved", "copied"]), ("AllRespHeaders", ["passed", "failed"])], P + ["p_headers.go", "p_all.go", "jwtmodel.go", "p_allguard.go"], ["clock"],
 bounds="as C03, for responses with any status 200..399; and " + ALL, outside="an upstream sending its own Strict-Transport-Security (then two are sent); longer names and values.", assume=PX, observe=["response written to the client"])

prop("C05", "The client decodes exactly the body the upstream meant",
 "For every combination of what the client accepts and how the upstream encoded its body, the client receives one encoding label, the label is true for the bytes sent, and decoding by it yields the upstream's payload. Gzip is only sent to clients that accept it, and bodies in encodings the gateway does not know pass through untouched with their label.",
 ["inputs"], "every payload within the bound, every pairing of accepted and upstream encodings, every delivery in pieces",
 "tests pair a few encodings with one fixed body each; empty bodies, unlabelled gzip and foreign encodings are not paired with every client",
 ["proxy.go", "gzip.go"], [("encodeUpstreamResponseBody", "proxy.go"), ("contentEncoding", "proxy.go"), ("Gzip/Gunzip", "gzip.go")],
 [("Body", ["gzip", "other-encoding", "identity"]), ("Gzip", []), ("BigBody", ["passed"], {"workers": 1, "samples": 4, "steps": 300000000}), ("AllBody", ["passed", "failed"])], P + ["p_body.go", "p_all.go", "jwtmodel.go", "p_allguard.go"], ["clock"],
 bounds="payloads of 0..3 (thorough 0..4) symbolic bytes; 16 Accept-Encoding values (none, lists, several lines, wildcards, quality values, quality zero), 8 upstream encodings (none, identity, gzip, GZIP, br, x-other, and gzip files without or with identity label), 4 methods, statuses 200..399 but 204/304; two pooled coder uses in a row, after garbage input; and " + ALL,
 outside="the deflate algorithm itself; bodies labelled gzip that are not gzip.", assume=PX, observe=["response written to the client"])

prop("C06", "Content-Length describes the body that is sent",
 "Every passed response carries exactly one Content-Length, equal to the number of body bytes sent. Answers to HEAD carry no body and keep the upstream's declared length when it is a number, else zero.",
 ["inputs"], "every method, status, body length and upstream length header within the bounds, with and without gzip",
 "tests check lengths for a few fixed bodies, not the interplay of method, status, encoding and a wrong or missing upstream length",
 ["proxy.go"], [("setContentLengthHeader", "proxy.go")],
 [("Length", ["head", "body"]), ("AllLength", ["passed", "failed"])], P + ["p_body.go", "p_all.go", "jwtmodel.go", "p_allguard.go"], ["clock"],
 bounds="7 methods (all but CONNECT), statuses 200..399, bodies of 0..2 symbolic bytes, 7 sets of headers about the absent body (encoding, type, range, tag, connection), upstream Content-Length absent, non-numeric or 1..2 symbolic digits or 11 digits, Transfer-Encoding present or not; and " + ALL,
 outside="CONNECT; 1xx statuses; longer bodies.", assume=PX, observe=["response written to the client"])

prop("C07", "Every upstream status has one documented outcome",
 "An accepted upstream answer below 400 reaches the client with the same status, headers and body; a 4xx answer becomes the gateway's JSON error with the same status; anything from 500, or of fewer than three digits, becomes a 502 JSON error that does not contain the upstream body. Exactly one response is written in each case.",
 ["inputs"], "every final status an upstream can send",
 "tests use a handful of status codes; the boundaries 399/400/499/500 are not all sampled",
 ["proxyhandler.go"], [("isUpstreamClientError", "proxyhandler.go"), ("shouldProxyUpstreamResponse", "proxyhandler.go")],
 [("StatusMap", ["passed", "client-error", "server-error"]), ("AllStatus", ["passed", "failed"])], P + ["p_errors.go", "p_all.go", "jwtmodel.go", "p_allguard.go"], ["clock"],
 bounds="all statuses up to 999 except 100 and 102..199 symbolic, GET and POST, one attempt; and " + ALL, outside="the statuses 100 and 102..199, which the HTTP client handles itself, and those above 999.", assume=PX, observe=["response written to the client"])

prop("C08", "Gateway errors are well formed and truly labelled",
 "Every error the gateway raises itself is a single JSON response naming its status code, the server and the request id, with the documented status, and its content encoding label is true. The gateway contacts no upstream for errors that precede forwarding, and errors wrapped around an upstream 4xx never contain the upstream body or its entity headers.",
 ["inputs", "configurations", "fault_sequences"], "every error kind, method, client encoding and TLS mode within the bounds",
 "tests check status codes of single errors, not the label and body of each error for gzip clients after a failed or partly processed upstream answer",
 ["server.go", "responses.go", "proxyhandler.go"], [("sendStatusCodeAsJSON", "server.go"), ("StatusCodeResponse", "responses.go")],
 [("Errors", ["400", "401", "404", "413", "502", "503"]), ("ClientErrors", ["gzip", "plain"]), ("AllErrors", ["passed", "failed"])], P + ["p_errors.go", "p_all.go", "jwtmodel.go", "p_allguard.go"], ["clock"],
 bounds="7 error kinds (400, 404, 413, 503, connection 502, status 502 for all 500..999, 401), 8 methods, TLS or not; wrapped 400..499 all symbolic with upstream bodies of 0..2 symbolic bytes, gzipped or not; 16 Accept-Encoding values; and " + ALL,
 outside="504 (C22).", assume=PX, observe=["response written to the client"])

prop("C09", "Request bodies are forwarded whole or not at all",
 "A request body no larger than the configured maximum reaches the upstream byte for byte. A larger one, declared or chunked, is answered 413 and an upload that breaks off is answered with a client error, and in neither case is any upstream contacted.",
 ["inputs", "fault_sequences"], "every body length around the limit, declared or chunked, delivered in any pieces, cut off anywhere",
 "tests send one body well below and one well above the limit; the boundary, chunked uploads and broken uploads are not covered",
 ["proxy.go", "proxyhandler.go"], [("parseRequestBody", "proxy.go"), ("validate", "proxyhandler.go")],
 [("ReqBody", ["too-large", "within"]), ("ReqBodyBroken", ["broken"]), ("BigBody", ["passed"], {"workers": 1, "samples": 4, "steps": 300000000}), ("AllUpload", ["passed", "failed"])], P + ["p_body.go", "p_all.go", "jwtmodel.go", "p_allguard.go"], ["clock"],
 bounds="limits 1..3 (thorough 1..4), bodies from empty to two over the limit with symbolic bytes, and any 64 bit limit from 2^20 with bodies of 0..4 bytes; pieces of 1, 2 or all bytes, 4 methods; uploads broken by one of 4 errors after 0..3 bytes of any declared 64 bit length or of a chunked body, for 3 limits; and " + ALL,
 outside="larger limits; the declared length is trusted to match what net/http delivers.", assume=PX, observe=["requests received by the upstream", "response written to the client"])

prop("C10", "Only legal methods reach an upstream",
 "A request whose method is not one of GET, HEAD, OPTIONS, TRACE, PUT, DELETE, POST or CONNECT in any letter case is answered 400 without contacting an upstream. A legal one is forwarded with its method name in upper case.",
 ["inputs"], "every method token within the length bound",
 "tests send one illegal method; a name that merely contains or resembles a legal one is not sampled",
 ["proxy.go"], [("hasLegalHTTPMethod", "proxy.go"), ("parseMethod", "proxy.go")],
 [("Method", ["illegal", "legal"])], P + ["p_errors.go"],
 bounds="method names of 3..7 symbolic characters out of letters, '-' and '_'.", outside="other lengths and characters.", assume=PX, observe=["requests received by the upstream"])

prop("C11", "The longest matching route decides",
 "A request goes to the resource of the longest configured route path that is a prefix of its target, whatever the order of the routes in the configuration and whether or not they were written with a leading slash. If no route path is a prefix it is answered 404 and nothing is contacted.",
 ["inputs", "configurations"], "every set and order of routes from a family of overlapping paths, every request target within the bound",
 "tests use fixed route lists in fixed orders",
 ["route.go", "config.go", "proxyhandler.go"], [("Routes.Less", "route.go"), ("compileRoutePaths", "config.go"), ("matchURI", "route.go")],
 [("Routes", ["matched", "unmatched"])], B + ["p_routes.go"], BO,
 bounds="2..3 distinct routes out of 7 overlapping paths in every order, targets of 0..3 symbolic characters out of a, b, c, '/', '?', '.' after the first slash.",
 outside="route paths with regular expression syntax; longer targets.", assume=PX + BOOT, observe=["requests received by the upstream"])

prop("C12", "No request can redirect the gateway to another upstream",
 "Whatever the request target, the gateway connects only to the scheme, host and port configured for the matched route, sends a well formed request and never crashes.",
 ["inputs", "configurations"], "every short request target and a family of known confusions, for routes with and without transforms",
 "tests use ordinary targets; targets that start with '@', ':' or '//' after the route are not sampled",
 ["proxy.go", "proxyhandler.go"], [("resolveUpstreamURI", "proxy.go")],
 [("Confine", ["forwarded"])], B + ["p_routes.go"], BO,
 bounds="3 routes, 3 transforms, targets of 1..2 (thorough 3) arbitrary printable bytes after the route path, and 10 fixed confusion patterns.",
 outside="longer symbolic suffixes; redirects followed by clients.", assume=PX + BOOT, observe=["requests received by the upstream"])

prop("C13", "Path transforms replace the route path and nothing else",
 "With a transform configured the upstream target is the transform followed by what came after the route path; only the first occurrence, at the start, is replaced. Without one the target is passed unchanged, and the query string is always preserved.",
 ["inputs", "configurations"], "every combination of route path, transform and target shape within the bounds",
 "tests use a few literal pairs; a path that repeats the route path or an empty remainder is not sampled with every transform",
 ["proxy.go"], [("resolveUpstreamURI", "proxy.go")],
 [("Transform", ["transformed", "untransformed"])], B + ["p_routes.go"], BO,
 bounds="3 route paths, 6 transforms, remainders: empty, a query of 2 symbolic characters, 2 (thorough 3) symbolic characters allowed in URLs, any escape sequence in path or query, or the route path repeated.",
 outside="characters that URLs must not contain; longer remainders.", assume=PX + BOOT, observe=["requests received by the upstream"])

prop("C21", "One request id follows the whole exchange",
 "The client's request id, or a fresh one if it sent none, is carried by every upstream attempt and exactly once by the response, whatever the outcome and whatever id the upstream sends back.",
 ["inputs", "fault_sequences"], "every short id, with and without an upstream echo, for passed, retried, wrapped and failed exchanges",
 "tests check the id on a plain success; echoes by the upstream and error outcomes are not covered",
 ["proxy.go", "proxyhandler.go", "server.go"], [("createXRequestID", "proxy.go"), ("copyUpstreamResponseHeaders", "proxy.go"), ("writeStandardResponseHeaders", "server.go")],
 [("RequestID", ["client-id", "fresh-id"]), ("RetryMany", ["passed", "failed"]), ("AllID", ["passed", "failed"])], P + ["p_headers.go", "p_retry.go", "p_all.go", "jwtmodel.go", "p_allguard.go"], ["clock"],
 bounds="ids of 0..2 symbolic printable bytes, upstream echo of a different id or none, 4 outcomes; every attempt of up to 129 (see C01); and " + ALL, outside="several ids sent by the client; uniqueness of generated ids.", assume=PX, observe=["requests received by the upstream", "response written to the client"])

prop("C26", "The memory history is a bounded window with a true growth alarm",
 "The process history never exceeds its window, always holds the most recent samples in order, and new samples replace the oldest. Growth is flagged exactly when a sample is at least twice the oldest one and all samples exist, and an alert is logged exactly when something is flagged. While the gateway runs one sample is added every hour.",
 ["histories", "inputs"], "one step from a history of any admissible length with arbitrary samples; growth over arbitrary sizes",
 "tests append fixed samples a fixed number of times",
 ["stats.go"], [("samples.append", "stats.go"), ("samples.log", "stats.go"), ("logProcStats", "stats.go")],
 [("StatsAppend", ["overflow"]), ("StatsGrowth", ["insufficient", "alert"]), ("StatsLoop", ["sampled"])], ["stats.go", "p_statsloop.go"], ["clock", "mutex"],
 bounds="append: 1..2 steps from any length 0..24 with arbitrary 64 bit samples (inductive, so any history); growth: 0..5 (thorough 7) samples below 2^50 bytes, the oldest above zero; a gateway that has been up for 7 lengths of time between half an hour and 40 hours.",
 outside="growth over more samples; sizes above 2^50 where float division rounds.", observe=["log events"])

prop("C30", "The about page always tells the truth about the server",
 "The about endpoint answers every request with status 200 and one JSON document naming the server and its version, encoded as the client accepts and labelled truly, with a correct length, and contacts no upstream.",
 ["inputs", "configurations"], "every method, body, accepted encoding, request id and TLS mode within the bounds",
 "tests request it once with and once without gzip",
 ["responses.go", "server.go", "route.go"], [("aboutHandler", "responses.go"), ("mapPathsToHandler", "server.go")],
 [("About", ["gzip", "plain"]), ("AboutRoute", ["about", "proxied"])], B + ["p_errors.go", "p_about.go"], ["clock"] + BO,
 bounds="a started gateway with an about route of 4 paths in 3 places; 8 methods, with and without a body, 16 Accept-Encoding values, TLS or not, ids of 2 symbolic bytes or none.", outside="bodies over the limit.", assume=PX + BOOT, observe=["response written to the client"])

prop("C14", "Traffic splits across labels exactly by policy weight",
 "For a route with a policy whose weights add up to one, each request goes to an upstream carrying a label of the policy, and the share of random draws that select a label equals its weight. A label without upstream is answered 503, handling requests never changes the policy, and a route without a policy uses the first upstream of its resource.",
 ["inputs", "configurations", "histories"], "every random draw (53 bit), a family of policies in various orders, several upstream layouts",
 "tests sample random draws and check rough frequencies; boundaries, weight orders and missing labels are not decided",
 ["policy.go", "route.go"], [("resolveLabel", "policy.go"), ("mapURL", "route.go")],
 [("Policy", ["mapped", "unmapped"]), ("NoPolicy", ["empty", "first"]), ("PolicyDraws", ["shares"])], P + ["p_policy.go"], ["rand"],
 bounds="13 policies of 1..4 labels, 4 upstream layouts, 2 (thorough 3) consecutive requests each with any 53 bit draw; and, should several draws decide, the shares over a grid of all draws.",
 outside="weights that do not add up to one; draws within 1e-9 of one and shares to within 1e-9 (float rounding of the weight sum); the quality of the random source itself.",
 assume=PX + ["the random fraction is k/2^53 with k arbitrary, as math/rand documents"], observe=["requests received by the upstream"])

J = P + ["jwtmodel.go"]
JB = B + ["jwtmodel.go", "p_jwt.go", "jwkmodel.go", "p_jwks.go", "pemmodel.go", "p_jwtconfig.go"]
JA = PX + ["jwx: a signature verifies exactly under the algorithm and key it was made with, and tokens parse exactly when well formed (replayed against the real library with real keys)"]

prop("C15", "Only requests with a genuine token pass a protected route",
 "On a route with a jwt a request reaches the upstream exactly when its bearer token carries a signature made with the configured algorithm by one of the configured keys, whatever its kid says, and its dates are valid; else it is answered 401 and nothing is contacted. With algorithm none only the dates count, and routes without a jwt need no token.",
 ["inputs", "configurations"], "every algorithm, token kind, signer, kid, key set and date case within the bounds, arbitrary short headers",
 "tests use prepared tokens for single algorithms; combinations such as a known kid with another key's signature, several signatures, an unsigned token or a foreign algorithm are not sampled for every algorithm",
 ["proxy.go", "proxyhandler.go", "jwt.go"], [("validateJwt", "proxy.go"), ("verifySignature", "proxy.go"), ("extractKid", "proxy.go"), ("KeySet.Find", "jwt.go")],
 [("JwtAlg", ["accepted", "rejected"], {"samples": 1500}), ("JwtKeys", ["accepted", "rejected"], {"samples": 600}), ("JwtHeader", ["accepted", "rejected"]), ("JwtRoutes", ["accepted", "rejected"]), ("JwtAround", ["accepted", "rejected"])], J + ["p_jwt.go"],
 bounds="8 methods, 4 targets, 8 places and kinds of token, 3 client addresses and 6 ways of serving together; 13 algorithms; tokens compact, tampered, unsigned, JSON with 1..2 signatures, raw JSON or garbage; 0..2 (thorough 3) configured keys in two orders; kid absent, matching, of another key, unknown or a number; 5 date cases; Authorization values of 0..3 (thorough 4) arbitrary printable bytes; 2 requests over 3 routes.",
 outside="the cryptography itself; the name of the authorization scheme; several Authorization headers.", assume=JA, observe=["requests received by the upstream", "response written to the client"])

prop("C16", "Tokens are valid exactly within their dates plus the configured skew",
 "A token whose signature checks out is accepted exactly while its issued-at and not-before dates are at most the configured skew ahead of now and its expiry is less than the skew ago; dates that are absent do not matter. The skew applies equally whatever its size.",
 ["inputs", "configurations"], "every combination of dates between 1970 and the far future, to the second, for several skews",
 "tests use dates hours away from the edges and the default skew",
 ["proxy.go"], [("verifyDateClaims", "proxy.go")],
 [("JwtDates", ["accepted", "rejected"], {"samples": 60}), ("JwtSkewFelt", ["felt"]), ("JwtLater", ["accepted", "rejected"])], JB + ["p_jwtdates.go", "p_again.go"], BO + ["clock", "rand"],
 bounds="dates from 1.5e9 s before to 2.5e11 s after now, all symbolic; skews 0, 1, 120, 600, 86400 and 2000000 s; every subset of the three claims; 11 spellings of skews in a configuration; a token tried three times over 0..268 s.",
 outside="not-before exactly skew seconds ahead (either answer is accepted); other skews; fractional dates.", assume=JA + ["the clock does not tick over to the next second between minting and checking a token"], observe=["requests received by the upstream", "response written to the client"])

prop("C17", "Rotated keys are picked up, strangers are not",
 "A token with an unknown kid makes the gateway fetch the configured key set in the background; once fetched its new keys are accepted, a known kid stands for its latest key, and known keys survive a failed or unusable fetch. Keys declared for an algorithm other than the configured one, shared secrets, and EC keys of the wrong size are never used, an empty key set is refused at startup, and fetches run one at a time and at least ten seconds apart after the first.",
 ["inputs", "histories", "fault_sequences", "interleavings"], "every key set of up to three keys with each key good, foreign or malformed; rotations of eight kinds; request patterns over time including two at once",
 "tests load remote key sets once; rotation of a known kid, mixed sets, failed fetches and concurrent triggers are not covered",
 ["jwt.go", "proxy.go"], [("LoadJwks", "jwt.go"), ("Upsert", "jwt.go"), ("triggerKeyRotationCheck", "proxy.go")],
 [("JwksLoad", ["all-good", "nothing", "foreign"], {"samples": 60}), ("JwksRotate", ["rotated", "not-rotated", "replaced"]), ("JwksMany", ["startup", "later"]), ("JwksSlow", ["fetched", "skipped"], {"samples": 60}), ("JwksAgain", ["asked", "found"], {"samples": 60}), ("KeySet", ["absent", "present"])], J + ["p_jwt.go", "jwkmodel.go", "p_jwks.go"], ["clock"],
 bounds="5 (thorough 8) algorithms, sets of 0..3 keys; one rotation; sets of 1, 2, 9, 17, 40 and 130 keys with one without or with a long kid; 3 (thorough 4) unknown-kid requests with any gaps of 0..60 s, the second possibly two at once in every interleaving, fetches taking 0..20 s; key sets after up to 3 (thorough 4) updates with kids of 0..2 arbitrary bytes.",
 outside="what becomes of keys that are withdrawn from the set; unsynchronised reads of a key set while it grows.", assume=JA + ["jwk.Fetch answers with the published set or an error"], observe=["requests received by the upstream", "key set fetches"])


prop("C18", "An unusable jwt configuration never starts the gateway",
 "The gateway refuses to start with a jwt whose algorithm is not one of the supported ones, that has neither a key nor a key set it can load, that combines none with a key, or whose skew is not a number of seconds of zero or more, and with a route naming a jwt that does not exist. Otherwise it starts; a skew that is given counts as given, one that is not is two minutes.",
 ["inputs", "configurations"], "every short algorithm name, skew and jwt name",
 "tests try a few names and skews; near misses of algorithm names and numbers with signs or spaces are not sampled",
 ["jwt.go", "config.go"], [("Jwt.Validate", "jwt.go"), ("validateJwt", "config.go"), ("validateRoutes", "config.go")],
 [("JwtConfig", ["accepted", "refused"]), ("JwtSkew", ["accepted", "refused", "default"]), ("JwtSkewFelt", ["felt"]), ("JwtRef", ["accepted", "refused"])], JB, BO,
 bounds="the 13 algorithm names and any of 0..6 printable bytes, with and without a key, without, with a failing and with a matching key set; skews of 0..3 (thorough 4) printable bytes; jwt names of 0..2 bytes.",
 outside="none together with a key set; YAML syntax.", assume=JA + BOOT, observe=["whether the gateway starts listening"])

prop("C19", "Only keys that fit the algorithm are accepted",
 "A configured public key or certificate is accepted exactly when it is a single PEM block of an allowed type holding a key of the algorithm's family and, for EC, of its size; anything else is refused without crashing. Tokens are then verified with exactly that key.",
 ["inputs", "configurations"], "every algorithm with every kind and size of key, encoding, PEM type and trailing data within the bounds",
 "tests load one key or certificate per algorithm plus a few bad ones; malformed certificates and keys of the neighbouring size are not tried for each",
 ["jwt.go"], [("parseKey", "jwt.go"), ("checkECDSABitSize", "jwt.go")],
 [("KeyType", ["accepted", "refused"], {"samples": 60}), ("KeySize", ["accepted", "refused"], {"no_native": True}), ("KeyTrailer", ["tried"])], JB, BO,
 bounds="9 public key algorithms; RSA, four EC sizes, Ed25519 and rubbish, as key or certificate, under 5 PEM types; EC sizes of 1..1023 bits symbolic; 1..2 printable trailing bytes or a second block.",
 outside="text before the PEM block; DER parsing itself (replayed natively with real keys).", assume=JA + BOOT + ["crypto/x509 parses a well formed key or certificate to its key and refuses anything else with an error"], observe=["whether the gateway starts listening", "requests received by the upstream"])

JC = B + ["jwtmodel.go", "p_jwt.go", "jwkmodel.go", "p_jwks.go", "pemmodel.go", "p_jwtconfig.go", "p_config.go"]

prop("C20", "Settings are used as given and have documented defaults when not",
 "A connection setting given in the configuration is used as given, one that is missing has its documented default: 2 minutes for downstream and upstream reads and idle connections, 4 minutes per round trip, 3 seconds to connect, 2 MB bodies, one attempt, 32768 pooled connections, port 8080 for HTTP and 443 for TLS. TLS is served exactly when asked for in any letter case, upstream schemes are http unless https is asked for, and a configuration without routes or with a transform that is no path is refused.",
 ["configurations", "inputs"], "every combination of given and missing settings with every value within the bounds",
 "tests set or omit a few settings one at a time; mode spellings, schemes and the felt limits are not sampled",
 ["config.go", "server.go"], [("setDefaultDownstreamParams", "config.go"), ("setDefaultUpstreamParams", "config.go"), ("reApplyResourceSchemes", "config.go"), ("isTLSMode", "config.go")],
 [("Defaults", ["started"], {"samples": 60}), ("DefaultsFelt", ["body", "attempts"]), ("DefaultWait", ["wait"]), ("Mode", ["plain", "tls"]), ("Schemes", ["http", "https"]), ("BadRoutes", ["accepted", "refused"])], JC, BO + ["clock"],
 bounds="timeouts, pool size and attempts of 0..2^20, bodies of 0..2^40 bytes, all symbolic; 6 ports; modes of 0..4 printable bytes; schemes http, https or none with and without a separator; transforms of 0..2 printable bytes.",
 outside="YAML syntax; negative settings.", assume=PX + BOOT, observe=["settings of the running gateway", "response written to the client"])

prop("C22", "Timeouts bound every attempt and every exchange",
 "No upstream attempt lasts longer than the upstream read timeout and no exchange longer than the round trip timeout, which includes receiving the request. An attempt that is late is cancelled and repeated if its method allows it, no attempt starts once the round trip time is up, and the client is answered 504 if the last attempt was late, the upstream's own answer if it was in time, and 502 if it failed in time. Nothing is contacted or written after the answer.",
 ["inputs", "schedules", "fault_sequences"], "every timing of headers and bodies of every attempt relative to both limits",
 "tests wait out single timeouts; combinations of slow headers, slow bodies, retries and both limits are not sampled",
 ["proxyhandler.go", "proxy.go"], [("performUpstreamRequest", "proxyhandler.go"), ("parseUpstreamResponse", "proxyhandler.go"), ("shouldRetryUpstreamAttempt", "proxy.go")],
 [("Timeouts", ["answered", "late", "failed", "out-of-time"], {"samples": 60}), ("SlowUpload", ["in-time", "out-of-time"]), ("LateUpload", ["late"])], P + ["p_timeouts.go"], ["clock", "points"],
 bounds="six kinds of request (large upload, event stream, upgrade, HTTP/2, range) with one attempt, plain ones with more: 1..2 (thorough 3) attempts, 4 pairs of limits, 3 methods, 5 outcomes per attempt, each with header and body delays of 0..7 s in steps of about half a second, symbolic; uploads and answers of 0..7 s each.",
 outside="limits that elapse at the same instant; finer delays (they matter only through their order against the limits, which is fully explored); the extra second the server's write timeout grants.", assume=PX + ["upstreams notice cancellation at once (C23 covers those that do not)", "computation takes no time"], observe=["times of upstream attempts", "response written to the client"])

prop("C23", "Abandoned attempts never leak into the answer",
 "However late an abandoned upstream attempt comes back and however any step of the gateway is delayed, each exchange is answered once, by one attempt's own status, headers and body or by a gateway error, and nothing crashes or hangs.",
 ["schedules", "fault_sequences", "inputs"], "every statement of the gateway held up for any time, with upstreams that ignore cancellation",
 "tests see only the schedule the machine happens to run; late headers and bodies of abandoned attempts are not provoked",
 ["proxyhandler.go", "proxy.go"], [("performUpstreamRequest", "proxyhandler.go"), ("parseUpstreamResponse", "proxyhandler.go"), ("nextAttempt", "proxy.go")],
 [("Abandoned", ["answered", "failed"], {"quick_s": 300, "thorough_s": 1500})], P + ["p_delays.go"], ["clock", "points"],
 bounds="7 plans of 2 attempts (thorough all 144: 4 outcomes with nothing, headers or body slow), slow parts of 0..4 s, GET and POST; any one statement of the gateway delayed by 0.5..4 s against a read timeout of 2 s and a round trip timeout of 3 s (thorough also 5 s).",
 outside="several delays in one exchange.", assume=PX + ["a statement is not interrupted half way"], observe=["response written to the client"])

T = B + ["tlsmodel.go"]

prop("C24", "Connections to upstreams and clients obey the configured limits and stay secure",
 "The gateway's upstream client verifies certificates unless it is told not to, connects directly and within the socket timeout, hands redirects to its own client instead of following them, shares no cookies between requests and keeps at most the configured number of idle connections for the configured time. The server reads and idles no longer than configured, has time left to send its answer after the round trip timeout, and in TLS mode serves exactly the configured certificate chain with at least TLS 1.2 and forward secret authenticated ciphers only.",
 ["configurations", "inputs"], "every connection setting with every value within the bounds",
 "the existing tests start one client and one server and look at none of this",
 ["httpclient.go", "server.go"], [("scaffoldHTTPClient", "httpclient.go"), ("startListening", "server.go"), ("tlsConfig", "server.go")],
 [("Client", ["client"]), ("Redirect", ["redirect"]), ("Server", ["server"]), ("ServerTLS", ["tls"])], T + ["p_client.go"], BO + ["dial"],
 bounds="timeouts, pool sizes and attempts of 1..2^20 symbolic, verification on or off; redirects with any status 300..399 for 8 methods, 2 origins, 8 targets and 1..3 hops; proxies named in the environment; 5 ports; one certificate chain of two, 3 spellings of the mode.",
 outside="what net/http and crypto/tls make of these settings; keep-alive intervals.", assume=BOOT + ["crypto/tls loads a matching certificate and key"], observe=["settings of the running client and server"])

prop("C25", "The gateway's own certificate is checked before and while it is used",
 "In TLS mode the gateway starts listening exactly when its certificate matches its key, names a DNS host, is valid now and chains through the configured intermediates to the configured root; otherwise it refuses without serving. While it runs it reports on its chain once a day, marks exactly the certificate that expires first, and warns exactly when that one has less than 30 days left, whatever the chain's length or serial numbers.",
 ["configurations", "inputs", "histories"], "every expiry of every certificate in chains of up to four, every serial number within the bound, a family of broken chains",
 "tests check a few stored certificates at whatever time they run; expiry orders, odd serials and later days are not covered",
 ["tls.go", "server.go"], [("checkCertChain", "tls.go"), ("parseTlsLinks", "tls.go"), ("logCertStats", "tls.go"), ("tlsHealthCheck", "tls.go"), ("tlsConfig", "server.go")],
 [("CertExpiry", ["warned", "quiet"]), ("CertSerial", ["reported"]), ("CertStart", ["started", "refused"], {"samples": 60}), ("CertDaily", ["checked"])], T + ["p_certs.go", "p_certlinks.go"], BO + ["clock"],
 bounds="1..3 (thorough 4) certificates expiring at any hour from ten days ago to ten years ahead; serials of 0..3 symbolic bytes; 14 kinds of chains of up to 6 certificates whose leaf, intermediate or root expires 3 hours ago to 3 hours ahead; 1..12 days of running with 20..40 days left.",
 outside="chain building by crypto/x509 itself (modelled by names, validity and pools; replayed natively with real certificates); system roots; the wording of the report.", assume=BOOT + ["crypto/x509 verifies a chain exactly when names, signatures and validity fit"], observe=["whether the gateway starts listening", "log events"])

R = B + ["p_robust.go"]
S = B + ["jwtmodel.go", "p_sequence.go"]

prop("C27", "Nothing of an exchange outlives it",
 "Once an exchange is answered every upstream response body it received is closed and, if served, read to its end so that the connection can be used again; every upstream request context has ended by the read timeout, and every goroutine started for it has finished. The answer itself comes within the round trip timeout.",
 ["inputs", "schedules", "fault_sequences"], "every sequence of attempt outcomes and timings within the bounds, every order of goroutines",
 "tests never look at bodies, contexts or goroutines after the answer",
 ["proxyhandler.go", "proxy.go"], [("handle", "proxyhandler.go"), ("scaffoldUpstreamRequest", "proxyhandler.go"), ("abortAllUpstreamAttempts", "proxy.go")],
 [("Lifecycle", ["over", "served"])], R, ["clock"],
 bounds="1..2 attempts, 5 outcomes each, headers or bodies slow by 0..3.5 s in steps of half a second, symbolic, against a read timeout of 2 s and a round trip timeout of 3 s (thorough also 9 s); GET, POST (thorough also HEAD).",
 outside="upstreams that ignore cancellation (C23); the goroutines of net/http.", assume=PX, observe=["bodies closed, contexts ended, goroutines left"])

prop("C28", "Nothing a client or an upstream sends crashes the gateway",
 "For any request the HTTP server can deliver and any answer the HTTP client can return, including statuses outside the usual range, empty or odd headers and any body, the handler returns without crashing and exactly one valid response has been written.",
 ["inputs"], "every status of three digits, odd request targets, short arbitrary headers and bodies",
 "tests send well formed requests and answers only",
 ["proxyhandler.go", "proxy.go", "server.go"], [("proxyHandler", "proxyhandler.go"), ("processUpstreamResponse", "proxyhandler.go"), ("setContentLengthHeader", "proxy.go")],
 [("Handler", ["handled"]), ("Target", ["handled"])], R,
 bounds="statuses 0..99, 101 and 200..999 symbolic; 8 methods; bodies of 0..3, Accept-Encoding, Content-Length and Content-Encoding of 0..2, header names of 0..2 symbolic bytes; 6 remote addresses; targets in asterisk form, absolute form with 1..2 and origin form with 0..2 (thorough one more each) symbolic printable bytes.",
 outside="longer values; tokens (C15, C19).", assume=PX, observe=["response written to the client"])

prop("C29", "Concurrent exchanges do not affect each other",
 "Two requests handled at the same time each send their own method, id, headers and body to the upstream and each get their own upstream's status, headers and body, whichever of their steps are held up.",
 ["schedules", "inputs"], "every statement of either exchange held up, arbitrary distinct payloads",
 "tests handle one request at a time",
 ["proxyhandler.go", "proxy.go", "gzip.go"], [("proxyHandler", "proxyhandler.go"), ("Gzip", "gzip.go")],
 [("Concurrent", ["both"], {"quick_s": 200}), ("Interleaved", ["both"], {"quick_s": 300}), ("Overlapping", ["in-time", "late"], {"quick_s": 200})], R, ["clock", "points"] + BO,
 bounds="two PUT requests with distinct bodies of 2 symbolic bytes to one route or to different routes and upstreams, gzip sent, unpacked or neither, with a success, a repetition after 503, or one 404; any one statement delayed by up to a second, or one statement that names a package variable while another such one of the other exchange begins later and ends still later; also a request nobody serves; two (thorough three) POST requests that begin up to 7.5 s apart and whose upstreams take up to 6.4 s for headers and 3.7 s for the body, at half second steps, against a limit of 3 s.",
 outside="more than two exchanges; more delays; interleavings within a statement.", assume=PX + ["a statement is not interrupted half way"], observe=["requests received by the upstream", "response written to the client"])

prop("C31", "What a request gets does not depend on the requests before it",
 "An exchange sends the same upstream requests and gets the same response as on a gateway that has just started, whatever exchanges of whatever kind, successful or not, were handled before it. Nothing of an earlier request, token, answer or error shows in it.",
 ["histories", "inputs"], "histories of exchanges of every kind with arbitrary payloads before the one observed",
 "tests look at one exchange, or at several of the same kind, on a server shared by all",
 ["proxyhandler.go", "proxy.go", "gzip.go", "responses.go", "route.go"], [("proxyHandler", "proxyhandler.go"), ("Gzip", "gzip.go"), ("Gunzip", "gzip.go")],
 [("Sequence", ["compared"], {"quick_s": 400}), ("SamePick", ["picked"]), ("JwtLater", ["accepted", "rejected"])], JB + ["p_sequence.go", "p_again.go"], ["clock", "rand"] + BO,
 bounds="two runs of the gateway compared: one exchange after start-up, and the same one after an exchange of its own kind with other symbolic payload and one (thorough two) of any kind; 20 kinds: GET, PUT with a body of unknown length, a redirect after a failed connection, an upstream body in another encoding, a forged token, POST, HEAD, transform, repetition after 503, upstream 404 (gzip), too large, unknown route, illegal method, jwt without and with token, gzip from gateway or upstream, about, upstream timeout, failing upstream behind a policy; the observed exchange with more or fewer headers than the one before; payload bytes printable; 3 requests through 3 policies with symbolic draws and failures; a token tried three times over 0..268 s.",
 outside="longer histories.", assume=PX + BOOT + JA[-1:], observe=["requests received by the upstream", "response written to the client"])

prop("C32", "Every exchange leaves one true record and no secret in the log",
 "Each exchange is logged by exactly one record, at info level when answered below 400 and at warn level otherwise, with its request id, method, path, the status the client got and, if an upstream answered, the target and status of the last attempt. Bodies, cookies, tokens and keys are never logged at any level.",
 ["inputs", "fault_sequences"], "every kind of exchange and outcome with arbitrary ids, targets and payloads, at every log level",
 "tests do not look at the log",
 ["proxyhandler.go", "server.go", "responses.go", "proxy.go"], [("logHandledDownstreamRoundtrip", "proxyhandler.go"), ("validateJwt", "proxy.go")],
 [("Record", ["passed", "failed", "upstream"]), ("RecordLong", ["recorded"]), ("RecordKinds", ["recorded", "upstream"]), ("Secrets", ["over"]), ("SecretsBoot", ["started", "refused"])], S + ["tlsmodel.go", "p_all.go", "p_allguard.go", "p_log.go"], ["clock"] + BO,
 bounds=ALL + " 20 further kinds of exchange (C31). Paths, ids and user agents of 200 to 20000 bytes ending in symbolic ones. Secrets: 5 targets, 3 methods, 5 outcomes, valid, forged, expired and malformed tokens, bodies within and over the limit, debug or not, with a symbolic byte in each secret, logged from the start on; keys of configurations that start or are refused.",
 outside="the remaining fields of the record, such as durations, addresses and the content encoding; query strings, which are logged as part of the upstream target; what an attempt that is still running logs later.",
 assume=PX + BOOT + JA[-1:] + ["a log event shows the keys and values handed to zerolog's event methods"], observe=["log events"])

prop("C33", "The gateway starts with exactly the configuration it was given",
 "The configuration is the file named on the command line, else the content of J8ACFG_YML, else j8acfg.yml in the working directory. If that one is missing, unreadable or has no routes, the gateway does not start, whatever the others hold. It logs at the level LOGLEVEL names in any letter case, and at info if it names none.",
 ["configurations", "inputs"], "every combination of present, absent and broken sources, and any LOGLEVEL",
 "tests cover one source at a time",
 ["config.go", "server.go", "logger.go", "cmd/j8a/main.go"], [("main", "cmd/j8a/main.go"), ("Config.load", "config.go"), ("Config.readYmlFile", "config.go"), ("initLogger", "logger.go"), ("BootStrap", "server.go")],
 [("Source", ["refused", "started"]), ("LogLevel", ["chosen"])], B + ["p_source.go"], ["clock", "cmd"] + BO,
 bounds="Source: each of the three sources absent, without routes, not YAML or usable, files also directories, the whole command run with its flag in three spellings, the file on the command line of three other names (one of them a blank) or the default one; documents with a document mark, a comment of 67 kB, dollar signs or other line ends; two symbolic letters in each document. LogLevel: any printable string of up to 8 bytes.",
 outside="what YAML means; permissions; other flags.",
 assume=BOOT + ["the executor knows the documents used and reads them as the YAML library does (replayed natively with real files and the real library)"], observe=["routes in force", "global log level", "process exit"])

prop("C34", "The log names the address of every client",
 "The record of every exchange, and the warning that every failed TLS handshake leaves, names exactly the IP address the connection came from (an IPv6 zone may follow it), for every IPv4 and IPv6 address as the system writes them and whatever the client claims about itself in headers.",
 ["inputs"], "every IPv4 address and every IPv6 digit in all layouts within the bounds",
 "tests extract a few dozen addresses, the address families are far larger than any table",
 ["iprex.go", "server.go", "proxyhandler.go"], [("iprex.extractAddr", "iprex.go"), ("zerologAdapter.Write", "server.go"), ("logHandledDownstreamRoundtrip", "proxyhandler.go")],
 [("Address", ["v4", "v6", "zone", "recorded"]), ("AddressRich", ["recorded"]), ("Handshake", ["v4", "v6", "zone"])], S + ["tlsmodel.go", "p_all.go", "p_allguard.go", "p_log.go", "p_addr.go"], ["clock"] + BO,
 bounds="IPv4: all addresses. IPv6: every number of groups before and after the gap or none, groups of 1 to 4 digits with one of another length, all digits symbolic, link-local addresses with 3 zones; 3 ports. In the access record of a proxied exchange, for seven addresses (public, private, loopback) also of 15 kinds of request with and without headers in which the client names another address; in the handshake warning with 3 causes, one of which names the local address as well.",
 outside="IPv6 groups of more than two different lengths; IPv4 addresses written inside IPv6 ones (the system does not write these); Unix sockets.",
 assume=PX + BOOT + ["a regular expression finds the leftmost-first match, or leftmost-longest where asked for (encoded from Go's own compiled program, replayed against package regexp)", "a log event shows the keys and values handed to zerolog's event methods"], observe=["log events"])
