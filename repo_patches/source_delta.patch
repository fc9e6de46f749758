From 315a399399170da725e2bd6217f65a4be4533d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:02 +0000
Subject: [PATCH 01/21] fix: compile route paths after they were given their
 leading slash

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index ccb4004..56a3ff9 100644
--- a/server.go
+++ b/server.go
@@ -64,9 +64,9 @@ func BootStrap() {
 		reApplyResourceSchemes().
 		reApplyResourceNames().
 		validateJwt().
+		validateRoutes().
 		compileRoutePaths().
 		compileRouteTransforms().
-		validateRoutes().
 		addDefaultPolicy().
 		setDefaultUpstreamParams().
 		setDefaultDownstreamParams()
-- 
2.43.0


From 98a99e2616e0ff1301a3b84a6c82100b3d18febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:02 +0000
Subject: [PATCH 02/21] fix: keep transformed request paths out of the upstream
 host and port

---
 proxy.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index c07c6ca..44f533b 100644
--- a/proxy.go
+++ b/proxy.go
@@ -133,7 +133,12 @@ func (proxy *Proxy) resolveUpstreamURI() string {
 		if t == "/" {
 			t = ""
 		}
-		uri = proxy.Up.Atmpt.URL.String() + strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		path := strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		//what is left after the transform stays a path and never runs into the upstream host and port.
+		if !strings.HasPrefix(path, "/") {
+			path = "/" + path
+		}
+		uri = proxy.Up.Atmpt.URL.String() + path
 	}
 	return uri
 }
-- 
2.43.0


From 6a0ef2b7f20c0e57c629e50bdae72cf19e060bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:43 +0000
Subject: [PATCH 03/21] fix: reject request bodies that are too large or
 incomplete instead of forwarding them empty

---
 proxy.go        | 21 +++++++++++++++------
 proxyhandler.go |  3 ++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/proxy.go b/proxy.go
index 44f533b..d8ee2db 100644
--- a/proxy.go
+++ b/proxy.go
@@ -16,6 +16,7 @@ import (
 	"github.com/rs/zerolog"
 	"io"
 	"io/ioutil"
+	"math"
 	"net/http"
 	"strconv"
 	"strings"
@@ -97,9 +98,11 @@ type Down struct {
 	Aborted     <-chan struct{}
 	AbortedFlag bool
 	ReqTooLarge bool
-	startDate   time.Time
-	HttpVer     string
-	TlsVer      string
+	//ReqIncomplete is set when the request body broke off before its end
+	ReqIncomplete bool
+	startDate     time.Time
+	HttpVer       string
+	TlsVer        string
 }
 
 // Proxy wraps data for a single downstream request/response with multiple upstream HTTP request/response cycles.
@@ -243,7 +246,7 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 	}
 
 	//only try to parse the request if supplied content-length is within limits
-	if request.ContentLength >= Runner.Connection.Downstream.MaxBodyBytes {
+	if request.ContentLength > Runner.Connection.Downstream.MaxBodyBytes {
 		proxy.Dwn.ReqTooLarge = true
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
@@ -252,11 +255,16 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 		return
 	}
 
-	//create buffered reader so we can fetch chunks of request as they come.
+	//create buffered reader so we can fetch chunks of request as they come. It may read one byte more than allowed,
+	//that is how we know about bodies that are too large when there is no content-length.
 	//No need to close request.Body of type io.ReadCloser, see: https://golang.org/pkg/net/http/#Request
+	readLimit := Runner.Connection.Downstream.MaxBodyBytes
+	if readLimit < math.MaxInt64 {
+		readLimit++
+	}
 	bodyReader := bufio.NewReader(http.MaxBytesReader(proxy.Dwn.Resp.Writer,
 		request.Body,
-		Runner.Connection.Downstream.MaxBodyBytes))
+		readLimit))
 
 	var err error
 	var buf []byte
@@ -272,6 +280,7 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
 			Msgf("downstream request body too large. %d body bytes > server max %d", n, Runner.Connection.Downstream.MaxBodyBytes)
 	} else if err != nil && err != io.EOF {
+		proxy.Dwn.ReqIncomplete = true
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
diff --git a/proxyhandler.go b/proxyhandler.go
index a32064b..77622d4 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -77,7 +77,8 @@ func proxyHandler(response http.ResponseWriter, request *http.Request) {
 
 func validate(proxy *Proxy) bool {
 	return proxy.hasLegalHTTPMethod() &&
-		!proxy.Dwn.ReqTooLarge
+		!proxy.Dwn.ReqTooLarge &&
+		!proxy.Dwn.ReqIncomplete
 }
 
 func handle(proxy *Proxy) {
-- 
2.43.0


From 39f40721c1d31c4a4bac41f052a8f32a2f4d166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:43 +0000
Subject: [PATCH 04/21] fix: reject malformed bearer tokens instead of
 panicking

---
 proxy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy.go b/proxy.go
index d8ee2db..048035e 100644
--- a/proxy.go
+++ b/proxy.go
@@ -593,6 +593,9 @@ func (proxy *Proxy) verifySignature(token string, keySet KeySet, alg jwa.Signatu
 	var parsed jwt.Token
 
 	msg, err = jws.Parse(bytes.NewReader([]byte(token)))
+	if err != nil {
+		return nil, err
+	}
 	if len(msg.Signatures()) > 0 {
 		//first we try to validate by a key with the kid parameter to match.
 		kid := extractKid(token)
-- 
2.43.0


From 2a6fa5512419f0579e12bfb45a8d19d0957701f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:43 +0000
Subject: [PATCH 05/21] fix: replace the key of a known kid during key rotation

---
 jwt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jwt.go b/jwt.go
index bbd7114..2f2b107 100644
--- a/jwt.go
+++ b/jwt.go
@@ -20,9 +20,9 @@ type KeySet []KidPair
 
 func (ks *KeySet) Upsert(kp KidPair) {
 	updated := false
-	for _, k := range *ks {
+	for i, k := range *ks {
 		if k.Kid == kp.Kid {
-			k.Key = kp.Key
+			(*ks)[i].Key = kp.Key
 			updated = true
 		}
 	}
-- 
2.43.0


From 3c2e2a3c4989886388f480bbf03ad5d6a1e17412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:43 +0000
Subject: [PATCH 06/21] fix: do not check the size of a jwks EC key that failed
 to load

---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 2f2b107..760b62e 100644
--- a/jwt.go
+++ b/jwt.go
@@ -224,7 +224,9 @@ func (jwt *Jwt) LoadJwks() error {
 							},
 						}
 						err = key.Raw(k.Key)
-						err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						if err == nil {
+							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						}
 						if err == nil {
 							jwt.ECDSAPublic.Upsert(k)
 						}
-- 
2.43.0


From de604864e4b844adcca39c4ace7bde8d14def48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:43 +0000
Subject: [PATCH 07/21] fix: format certificate serial numbers of any length

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 1654702..eaaafb8 100644
--- a/tls.go
+++ b/tls.go
@@ -106,7 +106,7 @@ func verifyOptions(inter *x509.CertPool, root *x509.CertPool) x509.VerifyOptions
 
 func formatSerial(serial *big.Int) string {
 	hex := fmt.Sprintf("%X", serial)
-	if len(hex) == 1 || len(hex) == 31 {
+	if len(hex)%2 == 1 {
 		hex = "0" + hex
 	}
 	if len(hex) > 2 {
-- 
2.43.0


From 9db87e658b0af567dfced0390dea94693dd7cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:44 +0000
Subject: [PATCH 08/21] fix: do not reorder a shared policy while serving
 requests

---
 policy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/policy.go b/policy.go
index a2603e7..cc53c78 100644
--- a/policy.go
+++ b/policy.go
@@ -28,7 +28,9 @@ func (policy Policy) Less(i, j int) bool {
 //resolve a label inside a policy
 func (policy Policy) resolveLabel() string {
 	dice := rand.Float64()
-	sort.Sort(Policy(policy))
+	//sort a copy, the policy itself is shared between all requests
+	policy = append(Policy{}, policy...)
+	sort.Sort(policy)
 	var cw []float64
 	//add up cumulative weights 0 < w < 1
 	for i := 1; i <= len(policy); i++ {
-- 
2.43.0


From 558bfd5e97826389ee56626eb45023d793ca271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:28 +0000
Subject: [PATCH 09/21] fix: label gzip encoded JSON error responses as such

---
 server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 56a3ff9..d6b2511 100644
--- a/server.go
+++ b/server.go
@@ -214,7 +214,12 @@ func (runtime Runtime) tlsConfig() *tls.Config {
 func sendStatusCodeAsJSON(proxy *Proxy) {
 	proxy.writeStandardResponseHeaders()
 	proxy.Dwn.Resp.Writer.Header().Set("Content-Type", "application/json")
-	proxy.writeContentEncodingHeader()
+	//this describes our own response, not the encoding of any prior upstream response.
+	if proxy.Dwn.Resp.SendGzip {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "gzip")
+	} else {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "identity")
+	}
 
 	proxy.Dwn.Resp.Writer.WriteHeader(proxy.Dwn.Resp.StatusCode)
 
-- 
2.43.0


From aec55ecd73cfad4043363d4b46982344c8cb58c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:29 +0000
Subject: [PATCH 10/21] fix: send a single X-Request-Id when upstream echoes it

---
 proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 048035e..0fe5e28 100644
--- a/proxy.go
+++ b/proxy.go
@@ -410,7 +410,8 @@ func (proxy *Proxy) writeContentEncodingHeader() {
 
 func (proxy *Proxy) copyUpstreamResponseHeaders() {
 	for key, values := range proxy.Up.Atmpt.resp.Header {
-		if shouldProxyHeader(key) {
+		//the request id is ours, upstream may send it back but not add another one.
+		if shouldProxyHeader(key) && !strings.EqualFold(key, XRequestID) {
 			for _, value := range values {
 				proxy.Dwn.Resp.Writer.Header().Add(key, value)
 			}
-- 
2.43.0


From 5e6f1294e820f0248bd428db223c91daa3f58164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:30 +0000
Subject: [PATCH 11/21] fix: keep late upstream responses out of the attempts
 that follow

---
 proxyhandler.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 77622d4..1e57ab6 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -146,7 +146,7 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 
 func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
+	atmpt := proxy.Up.Atmpt
 	req := scaffoldUpstreamRequest(proxy)
 	var upstreamResponse *http.Response
 	var upstreamError error
@@ -154,7 +154,7 @@ func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 	go func() {
 		//this blocks until upstream headers come in
 		upstreamResponse, upstreamError = httpClient.Do(req)
-		proxy.Up.Atmpt.resp = upstreamResponse
+		atmpt.resp = upstreamResponse
 
 		defer func() {
 			if err := recover(); err != nil {
@@ -167,8 +167,8 @@ func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 			}
 		}()
 
-		if proxy.Up.Atmpts[attemptIndex].CompleteHeader != nil && !proxy.Up.Atmpts[attemptIndex].AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteHeader)
+		if atmpt.CompleteHeader != nil && !atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
+			close(atmpt.CompleteHeader)
 		}
 	}()
 
@@ -199,13 +199,13 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 	var bodyError error
 
 	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
+	atmpt := proxy.Up.Atmpt
 
 	go func() {
-		proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
+		atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
 		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 {
-			proxy.Up.Atmpt.isGzip = true
+			atmpt.isGzip = true
 		}
 
 		defer func() {
@@ -216,8 +216,8 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 		}()
 
 		//this is ok, see: https://stackoverflow.com/questions/8593645/is-it-ok-to-leave-a-channel-open#:~:text=5%20Answers&text=It's%20OK%20to%20leave%20a,it%20will%20be%20garbage%20collected.&text=Closing%20the%20channel%20is%20a,that%20no%20more%20data%20follows.
-		if proxy.Up.Atmpt.CompleteBody != nil && !proxy.Up.Atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteBody)
+		if atmpt.CompleteBody != nil && !atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
+			close(atmpt.CompleteBody)
 		}
 	}()
 
-- 
2.43.0


From aab464947790e77f56cfd03f7e0da90fdd061e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:31 +0000
Subject: [PATCH 12/21] fix: answer 503 instead of panicking for a resource
 without urls

---
 route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/route.go b/route.go
index 7bcdbf1..5e3be29 100644
--- a/route.go
+++ b/route.go
@@ -53,7 +53,7 @@ func (route Route) mapURL(proxy *Proxy) (*URL, string, bool) {
 	}
 
 	resource := Runner.Resources[route.Resource]
-	if resource == nil {
+	if len(resource) == 0 {
 		return nil, "", false
 	}
 	//if a policy exists, we match resources with a label. TODO: this should be an interface
-- 
2.43.0


From 5e0d619391952f735d586db39072b3c6091d7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:32 +0000
Subject: [PATCH 13/21] fix: do not gzip upstream bodies that carry another
 content encoding

---
 proxy.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/proxy.go b/proxy.go
index 0fe5e28..15d7fcb 100644
--- a/proxy.go
+++ b/proxy.go
@@ -448,7 +448,7 @@ func (proxy *Proxy) encodeUpstreamResponseBody() {
 
 func (proxy *Proxy) contentEncoding() string {
 	ce := "identity"
-	if proxy.Dwn.Resp.SendGzip {
+	if proxy.Dwn.Resp.SendGzip && !proxy.hasOtherContentEncoding() {
 		ce = "gzip"
 	} else if proxy.hasMadeUpstreamAttempt() && !proxy.shouldGzipDecodeResponseBody() {
 		ceA := proxy.Up.Atmpt.resp.Header[contentEncoding]
@@ -522,11 +522,23 @@ func (proxy *Proxy) hasLegalHTTPMethod() bool {
 }
 
 func (proxy *Proxy) shouldGzipEncodeResponseBody() bool {
-	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip
+	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip && !proxy.hasOtherContentEncoding()
 }
 
 func (proxy *Proxy) shouldGzipDecodeResponseBody() bool {
-	return !proxy.Dwn.Resp.SendGzip && proxy.Up.Atmpt.isGzip
+	return !proxy.Dwn.Resp.SendGzip && proxy.Up.Atmpt.isGzip && !proxy.hasOtherContentEncoding()
+}
+
+//upstream bodies with a content encoding we don't know, i.e. br, must be passed on the way they are.
+func (proxy *Proxy) hasOtherContentEncoding() bool {
+	if proxy.hasMadeUpstreamAttempt() {
+		for _, ce := range proxy.Up.Atmpt.resp.Header[contentEncoding] {
+			if len(ce) > 0 && !strings.EqualFold(ce, "identity") && !strings.EqualFold(ce, "gzip") {
+				return true
+			}
+		}
+	}
+	return false
 }
 
 //get bearer token from request. feed into lib. check signature. check expiry. return true || false.
-- 
2.43.0


From 025bc537aa7a321ef32d9d20c81cd995a7ffb449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:08 +0000
Subject: [PATCH 14/21] fix: apply large acceptable skews to iat and nbf like
 to exp

---
 proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 15d7fcb..32e1a79 100644
--- a/proxy.go
+++ b/proxy.go
@@ -695,10 +695,10 @@ func verifyDateClaims(token string, skew int) error {
 	//so i need to parse it again.
 	skewed, _ := jwt.Parse(bytes.NewReader([]byte(token)))
 
-	if skewed.IssuedAt().Unix() > int64(skew*1000) {
+	if skewed.IssuedAt().Unix() > 1 {
 		skewed.Set("iat", skewed.IssuedAt().Add(-time.Second*time.Duration(skew)))
 	}
-	if skewed.NotBefore().Unix() > int64(skew*1000) {
+	if skewed.NotBefore().Unix() > 1 {
 		skewed.Set("nbf", skewed.NotBefore().Add(-time.Second*time.Duration(skew)))
 	}
 	if skewed.Expiration().Unix() > 1 {
-- 
2.43.0


From 77f4dd3b07c41d23dae86a3ad8b92164a4368bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:38 +0000
Subject: [PATCH 15/21] fix: refuse a malformed jwt certificate instead of
 crashing

---
 jwt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jwt.go b/jwt.go
index 760b62e..927050c 100644
--- a/jwt.go
+++ b/jwt.go
@@ -288,6 +288,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "CERTIFICATE":
 			var cert interface{}
 			cert, err = x509.ParseCertificate(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch cert.(type) {
 			case *x509.Certificate:
 				key := cert.(*x509.Certificate).PublicKey
@@ -347,6 +350,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "CERTIFICATE":
 			var cert interface{}
 			cert, err = x509.ParseCertificate(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch cert.(type) {
 			case *x509.Certificate:
 				key := cert.(*x509.Certificate).PublicKey
-- 
2.43.0


From 0696aeb327412deac3d1c7d2ffcf616bb4f347c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:02 +0000
Subject: [PATCH 16/21] fix: contact no upstream when receiving the request
 used up the round trip time

---
 proxyhandler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proxyhandler.go b/proxyhandler.go
index 1e57ab6..f169760 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -58,6 +58,11 @@ func proxyHandler(response http.ResponseWriter, request *http.Request) {
 			}
 			url, label, mapped := route.mapURL(proxy)
 			if mapped {
+				//receiving the request may have taken all the time there is, then no upstream is contacted
+				if proxy.hasDownstreamAborted() {
+					sendStatusCodeAsJSON(proxy.respondWith(504, "gateway timeout triggered by downstream event"))
+					return
+				}
 				//mapped requests are sent to httpclient
 				handle(proxy.firstAttempt(url, label))
 			} else {
-- 
2.43.0


From 50d80bfa48d9ec5af08fd57a9146b9e98d646ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:14 +0000
Subject: [PATCH 17/21] fix: answer 502 to upstream status codes that can't be
 sent on

---
 proxyhandler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxyhandler.go b/proxyhandler.go
index f169760..d6b0567 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -284,6 +284,8 @@ func shouldProxyUpstreamResponse(proxy *Proxy, bodyError error) bool {
 	return !proxy.hasDownstreamAborted() &&
 		!proxy.hasUpstreamAttemptAborted() &&
 		bodyError == nil &&
+		//net/http can't send status codes of less than three digits
+		proxy.Up.Atmpt.resp.StatusCode > 99 &&
 		proxy.Up.Atmpt.resp.StatusCode < 500
 }
 
-- 
2.43.0


From 2198e6b0929a6d32423a93137d4f18f273798645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:12 +0000
Subject: [PATCH 18/21] fix: pass on gzip files that upstreams send without
 content encoding

---
 proxyhandler.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index d6b0567..8cabd9e 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -210,7 +210,8 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 		atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
 		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 {
-			atmpt.isGzip = true
+			//a gzip file that is sent without content encoding is not ours to unpack
+			atmpt.isGzip = hasGzipContentEncoding(upstreamResponse)
 		}
 
 		defer func() {
@@ -276,6 +277,15 @@ func processUpstreamResponse(proxy *Proxy, upstreamResponse *http.Response, upst
 	return false
 }
 
+func hasGzipContentEncoding(upstreamResponse *http.Response) bool {
+	for _, ce := range upstreamResponse.Header[contentEncoding] {
+		if strings.EqualFold(ce, "gzip") {
+			return true
+		}
+	}
+	return false
+}
+
 func isUpstreamClientError(proxy *Proxy) bool {
 	return proxy.Up.Atmpt.StatusCode > 399 && proxy.Up.Atmpt.StatusCode < 500
 }
-- 
2.43.0


From 87450e8cf0548b63d8127b59e3031e5c73d70a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:24 +0000
Subject: [PATCH 19/21] fix: send no gzip to clients that rule it out with a
 quality value of zero

---
 gzip.go      | 17 +++++++++++++++++
 proxy.go     |  2 +-
 responses.go |  4 ++--
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/gzip.go b/gzip.go
index b9f5533..7205a86 100644
--- a/gzip.go
+++ b/gzip.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"compress/gzip"
 	"io/ioutil"
+	"strconv"
+	"strings"
 	"sync"
 
 	"github.com/rs/zerolog/log"
@@ -55,3 +57,18 @@ func Gunzip(input []byte) *[]byte {
 	log.Trace().Msgf("unzipped byte buffer size %d", len(dec))
 	return &dec
 }
+
+//acceptsGzip tells if gzip may be sent. Clients can rule it out with a quality value of zero, see RFC7231 5.3.4
+func acceptsGzip(acceptEncoding string) bool {
+	for _, coding := range strings.Split(strings.ToLower(acceptEncoding), ",") {
+		if strings.Contains(coding, "gzip") {
+			if i := strings.Index(coding, "q="); i >= 0 {
+				if q, err := strconv.ParseFloat(strings.TrimSpace(coding[i+2:]), 64); err == nil && q == 0 {
+					continue
+				}
+			}
+			return true
+		}
+	}
+	return false
+}
diff --git a/proxy.go b/proxy.go
index 32e1a79..194a4ec 100644
--- a/proxy.go
+++ b/proxy.go
@@ -224,7 +224,7 @@ func (proxy *Proxy) parseIncoming(request *http.Request) *Proxy {
 	proxy.Dwn.Req = request
 
 	proxy.Dwn.AbortedFlag = false
-	proxy.Dwn.Resp.SendGzip = strings.Contains(request.Header.Get("Accept-Encoding"), "gzip")
+	proxy.Dwn.Resp.SendGzip = acceptsGzip(request.Header.Get("Accept-Encoding"))
 
 	log.Trace().
 		Str("path", proxy.Dwn.Path).
diff --git a/responses.go b/responses.go
index b983b15..65c4ad9 100644
--- a/responses.go
+++ b/responses.go
@@ -163,8 +163,8 @@ func aboutHandler(w http.ResponseWriter, r *http.Request) {
 	res := AboutResponse{}.AsJSON()
 	w.Header().Set("Content-Type", "application/json")
 	if len(ae) > 0 {
-		s := strings.Join(ae, " ")
-		if strings.Contains(s, "gzip") {
+		s := strings.Join(ae, ",")
+		if acceptsGzip(s) {
 			w.Header().Set("Content-Encoding", "gzip")
 			res = *Gzip(res)
 			w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-- 
2.43.0


From b39f18fe1163103be016caca190db40e958697a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:44 +0000
Subject: [PATCH 20/21] fix: log whole IPv6 addresses

Addresses with more than three groups after the gap, most link-local ones among them, or more than four
before it were cut short in the access log and in TLS handshake warnings.
---
 iprex.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iprex.go b/iprex.go
index 9ae2904..97f4efc 100644
--- a/iprex.go
+++ b/iprex.go
@@ -25,6 +25,8 @@ func (ipr *iprex) extractAddr(msg string) string {
 	}
 	if ipr.ipv6 == nil {
 		r1, _ := regexp.Compile("(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))")
+		//matches the whole address, whichever alternative comes first
+		r1.Longest()
 		ipr.ipv6 = r1
 	}
 	if ipr.ipv64e == nil {
@@ -39,11 +41,12 @@ func (ipr *iprex) extractAddr(msg string) string {
 	if len(match) > 0 {
 		addr = match[0]
 	} else {
-		match2 := ipr.ipv6s.FindStringSubmatch(msg)
+		//extended before simple, which finds only part of addresses with more than three groups after the gap.
+		match2 := ipr.ipv6.FindStringSubmatch(msg)
 		if len(match2) > 0 {
 			addr = match2[0]
 		} else {
-			match3 := ipr.ipv6.FindStringSubmatch(msg)
+			match3 := ipr.ipv6s.FindStringSubmatch(msg)
 			if len(match3) > 0 {
 				addr = match3[0]
 			} else {
-- 
2.43.0


From 520bd7befb7441e94d72731b1eed27e6cd8267d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:35 +0000
Subject: [PATCH 21/21] fix: list several upstream content encodings separated
 by commas

---
 proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 194a4ec..7e591aa 100644
--- a/proxy.go
+++ b/proxy.go
@@ -453,7 +453,7 @@ func (proxy *Proxy) contentEncoding() string {
 	} else if proxy.hasMadeUpstreamAttempt() && !proxy.shouldGzipDecodeResponseBody() {
 		ceA := proxy.Up.Atmpt.resp.Header[contentEncoding]
 		if len(ceA) > 0 {
-			ce = strings.Join(ceA, " ")
+			ce = strings.Join(ceA, ", ")
 		}
 	}
 
-- 
2.43.0

