import json
F=[("C11","315a399","routes configured without a leading slash were matched by a pattern without it and never matched"),
("C12","98a99e2","route /api with transform / and target /api@evil.com or /api:99 made the gateway use another host or crash"),
("C09","6a0ef2b","bodies of unknown length above the limit and broken uploads were forwarded empty; a body of exactly the limit was rejected when chunked"),
("C28","39f4072","a bearer token that is not a JWS made the handler panic"),
("C17","2a6fa55","rotating the key of a known kid kept the old key"),
("C17","3c2e2a3","an EC key of a JWKS that failed to load was dereferenced (panic)"),
("C25","de60486","formatting a certificate serial number with an odd number of hex digits panicked"),
("C14","9db87e6","every request sorted the shared policy in place, racing with the others"),
("C08","558bfd5","JSON errors gzipped after a processed upstream answer were labelled identity or vice versa"),
("C21","aec55ec","an upstream echoing X-Request-Id made the response carry two"),
("C23","5e6f129","the answer of an attempt abandoned after its timeout was taken for the one of the attempt that followed"),
("C28","aab4649","a route to a resource without urls made the handler panic"),
("C16","025bc53","an acceptable skew of more than about 1.8 million seconds was not applied to iat and nbf"),
("C19","77f4dd3","a certificate that does not parse as jwt key crashed the gateway at startup with a nil dereference"),
("C22","0696aeb","an upload that took longer than the round trip time was still sent to the upstream when the handler goroutine was slow"),
("C28","50d80bf","an upstream answering with a status below 100 crashed the handler and the client got no answer"),
("C05","5e0d619","a body in another content encoding was gzipped on top and relabelled gzip"),
("C05","2198e6b","a gzip file that an upstream sent without content encoding was unpacked or labelled gzip on the way"),
("C30","87450e8","gzip was sent to clients that rule it out with a quality value of zero"),
("C34","b39f18f","IPv6 addresses with more than three groups after the gap or more than four before it were logged cut short")]
json.dump({"findings":[{"status":"fixed","property":p,"commit":c,"what":w,"entry":f"fixed: property={p} {c} {w}"} for p,c,w in F]},open("known_findings.json","w"),indent=1)
