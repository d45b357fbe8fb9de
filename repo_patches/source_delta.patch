From bb13a154201dba75c5e3412f2f3b404eb51e5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:09 +0000
Subject: [PATCH 01/39] fix: label j8a generated JSON error responses with
 their content encoding

---
 server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server.go b/server.go
index ccb4004..18e4111 100644
--- a/server.go
+++ b/server.go
@@ -215,6 +215,12 @@ func sendStatusCodeAsJSON(proxy *Proxy) {
 	proxy.writeStandardResponseHeaders()
 	proxy.Dwn.Resp.Writer.Header().Set("Content-Type", "application/json")
 	proxy.writeContentEncodingHeader()
+	//this body is generated by j8a, so its coding depends only on what we send, never on an upstream response.
+	if proxy.Dwn.Resp.SendGzip {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "gzip")
+	} else {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "identity")
+	}
 
 	proxy.Dwn.Resp.Writer.WriteHeader(proxy.Dwn.Resp.StatusCode)
 
-- 
2.43.0


From 73fbafe0e1c6c6007f5bb958a0f4509071e3559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:10 +0000
Subject: [PATCH 02/39] fix: reject oversize chunked and incomplete request
 bodies instead of forwarding an empty body

---
 proxy.go        | 8 ++++++++
 proxyhandler.go | 1 +
 2 files changed, 9 insertions(+)

diff --git a/proxy.go b/proxy.go
index c07c6ca..a21c0c2 100644
--- a/proxy.go
+++ b/proxy.go
@@ -97,6 +97,8 @@ type Down struct {
 	Aborted     <-chan struct{}
 	AbortedFlag bool
 	ReqTooLarge bool
+	//request body could not be read in full
+	ReqIncomplete bool
 	startDate   time.Time
 	HttpVer     string
 	TlsVer      string
@@ -267,6 +269,12 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
 			Msgf("downstream request body too large. %d body bytes > server max %d", n, Runner.Connection.Downstream.MaxBodyBytes)
 	} else if err != nil && err != io.EOF {
+		//never forward what we could only read in part. the reader stops with an error once it reaches the limit
+		if int64(n) >= Runner.Connection.Downstream.MaxBodyBytes {
+			proxy.Dwn.ReqTooLarge = true
+		} else {
+			proxy.Dwn.ReqIncomplete = true
+		}
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
diff --git a/proxyhandler.go b/proxyhandler.go
index a32064b..fe38bde 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -77,6 +77,7 @@ func proxyHandler(response http.ResponseWriter, request *http.Request) {
 
 func validate(proxy *Proxy) bool {
 	return proxy.hasLegalHTTPMethod() &&
+		!proxy.Dwn.ReqIncomplete &&
 		!proxy.Dwn.ReqTooLarge
 }
 
-- 
2.43.0


From 83686062c7e1739fda831cd43e942349d9e2f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:12 +0000
Subject: [PATCH 03/39] fix: pass through upstream content codings other than
 gzip without re-encoding them

---
 proxy.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index a21c0c2..4b14778 100644
--- a/proxy.go
+++ b/proxy.go
@@ -441,7 +441,9 @@ func (proxy *Proxy) encodeUpstreamResponseBody() {
 
 func (proxy *Proxy) contentEncoding() string {
 	ce := "identity"
-	if proxy.Dwn.Resp.SendGzip {
+	if proxy.hasForeignContentEncoding() {
+		ce = strings.Join(proxy.Up.Atmpt.resp.Header.Values(contentEncoding), ", ")
+	} else if proxy.Dwn.Resp.SendGzip {
 		ce = "gzip"
 	} else if proxy.hasMadeUpstreamAttempt() && !proxy.shouldGzipDecodeResponseBody() {
 		ceA := proxy.Up.Atmpt.resp.Header[contentEncoding]
@@ -453,6 +455,19 @@ func (proxy *Proxy) contentEncoding() string {
 	return ce
 }
 
+//upstream used a content coding that j8a cannot decode, i.e. br. body and label are passed through untouched
+func (proxy *Proxy) hasForeignContentEncoding() bool {
+	if proxy.hasMadeUpstreamAttempt() {
+		for _, ce := range proxy.Up.Atmpt.resp.Header.Values(contentEncoding) {
+			ce = strings.ToLower(strings.TrimSpace(ce))
+			if ce != "" && ce != "identity" && ce != "gzip" && ce != "x-gzip" {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (proxy *Proxy) setRoute(route *Route) {
 	proxy.Route = route
 }
@@ -515,7 +530,7 @@ func (proxy *Proxy) hasLegalHTTPMethod() bool {
 }
 
 func (proxy *Proxy) shouldGzipEncodeResponseBody() bool {
-	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip
+	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip && !proxy.hasForeignContentEncoding()
 }
 
 func (proxy *Proxy) shouldGzipDecodeResponseBody() bool {
-- 
2.43.0


From e90019e2905d8d14cd28cf8f6a7283aa8472b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:49 +0000
Subject: [PATCH 04/39] fix: late upstream responses must not overwrite the
 state of a subsequent attempt

---
 proxyhandler.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index fe38bde..898dd74 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -148,13 +148,15 @@ func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 	//get a reference to this before any race conditions may occur
 	attemptIndex := proxy.Up.Count - 1
 	req := scaffoldUpstreamRequest(proxy)
+	//the goroutine below may outlive this attempt and must never write into its successor
+	atmpt := proxy.Up.Atmpt
 	var upstreamResponse *http.Response
 	var upstreamError error
 
 	go func() {
 		//this blocks until upstream headers come in
 		upstreamResponse, upstreamError = httpClient.Do(req)
-		proxy.Up.Atmpt.resp = upstreamResponse
+		atmpt.resp = upstreamResponse
 
 		defer func() {
 			if err := recover(); err != nil {
@@ -200,12 +202,14 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 
 	//get a reference to this before any race conditions may occur
 	attemptIndex := proxy.Up.Count - 1
+	//the goroutine below may outlive this attempt and must never write into its successor
+	atmpt := proxy.Up.Atmpt
 
 	go func() {
-		proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
+		atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
 		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 {
-			proxy.Up.Atmpt.isGzip = true
+			atmpt.isGzip = true
 		}
 
 		defer func() {
@@ -216,7 +220,7 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 		}()
 
 		//this is ok, see: https://stackoverflow.com/questions/8593645/is-it-ok-to-leave-a-channel-open#:~:text=5%20Answers&text=It's%20OK%20to%20leave%20a,it%20will%20be%20garbage%20collected.&text=Closing%20the%20channel%20is%20a,that%20no%20more%20data%20follows.
-		if proxy.Up.Atmpt.CompleteBody != nil && !proxy.Up.Atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
+		if atmpt.CompleteBody != nil && !atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
 			close(proxy.Up.Atmpts[attemptIndex].CompleteBody)
 		}
 	}()
-- 
2.43.0


From df9fec5c29367748db1b49981cdcbff6855495ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:50 +0000
Subject: [PATCH 05/39] fix: do not unzip upstream bodies that were never
 declared as gzip encoded

---
 proxyhandler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 898dd74..31ad4a2 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -208,7 +208,9 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 	go func() {
 		atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
-		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 {
+		//magic bytes alone are not enough, upstream may serve a gzip file with no content coding.
+		ce := strings.TrimSpace(strings.ToLower(upstreamResponse.Header.Get(contentEncoding)))
+		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 && strings.HasSuffix(ce, "gzip") && !strings.Contains(ce, ",") {
 			atmpt.isGzip = true
 		}
 
-- 
2.43.0


From c25655ab87e714fbe4d14b7c6c30e4cde851da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:51 +0000
Subject: [PATCH 06/39] fix: do not send gzip to user agents that refuse it
 with a zero quality value

---
 proxy.go     | 16 +++++++++++++++-
 responses.go |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 4b14778..7753042 100644
--- a/proxy.go
+++ b/proxy.go
@@ -218,7 +218,7 @@ func (proxy *Proxy) parseIncoming(request *http.Request) *Proxy {
 	proxy.Dwn.Req = request
 
 	proxy.Dwn.AbortedFlag = false
-	proxy.Dwn.Resp.SendGzip = strings.Contains(request.Header.Get("Accept-Encoding"), "gzip")
+	proxy.Dwn.Resp.SendGzip = strings.Contains(request.Header.Get("Accept-Encoding"), "gzip") && !refusesGzip(request)
 
 	log.Trace().
 		Str("path", proxy.Dwn.Path).
@@ -289,6 +289,20 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 
 }
 
+//RFC7231 5.3.4, a quality value of 0 means not acceptable
+func refusesGzip(request *http.Request) bool {
+	for _, coding := range strings.Split(strings.Join(request.Header.Values("Accept-Encoding"), ","), ",") {
+		params := strings.Split(strings.ToLower(coding), ";")
+		if name := strings.TrimSpace(params[0]); name == "gzip" && len(params) > 1 {
+			if q := strings.Split(params[1], "="); len(q) == 2 && strings.TrimSpace(q[0]) == "q" {
+				weight, err := strconv.ParseFloat(strings.TrimSpace(q[1]), 64)
+				return err == nil && weight == 0
+			}
+		}
+	}
+	return false
+}
+
 func parseMethod(request *http.Request) string {
 	return strings.ToUpper(request.Method)
 }
diff --git a/responses.go b/responses.go
index b983b15..29850a9 100644
--- a/responses.go
+++ b/responses.go
@@ -164,7 +164,7 @@ func aboutHandler(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("Content-Type", "application/json")
 	if len(ae) > 0 {
 		s := strings.Join(ae, " ")
-		if strings.Contains(s, "gzip") {
+		if strings.Contains(s, "gzip") && !refusesGzip(r) {
 			w.Header().Set("Content-Encoding", "gzip")
 			res = *Gzip(res)
 			w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-- 
2.43.0


From 6b4e9d9fd1bcafa5df53993e431d5217cdb58e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:52 +0000
Subject: [PATCH 07/39] fix: replace the key when jwks rotation reuses a known
 kid

---
 jwt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jwt.go b/jwt.go
index bbd7114..2f2b107 100644
--- a/jwt.go
+++ b/jwt.go
@@ -20,9 +20,9 @@ type KeySet []KidPair
 
 func (ks *KeySet) Upsert(kp KidPair) {
 	updated := false
-	for _, k := range *ks {
+	for i, k := range *ks {
 		if k.Kid == kp.Kid {
-			k.Key = kp.Key
+			(*ks)[i].Key = kp.Key
 			updated = true
 		}
 	}
-- 
2.43.0


From 6e9d1d1cc32706c959b9fc6c8616b734383cafa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:53 +0000
Subject: [PATCH 08/39] fix: jwks key data that is not ECDSA must not crash the
 server

---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 2f2b107..760b62e 100644
--- a/jwt.go
+++ b/jwt.go
@@ -224,7 +224,9 @@ func (jwt *Jwt) LoadJwks() error {
 							},
 						}
 						err = key.Raw(k.Key)
-						err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						if err == nil {
+							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						}
 						if err == nil {
 							jwt.ECDSAPublic.Upsert(k)
 						}
-- 
2.43.0


From 8073e4f6fa2607da14ca8fef6930a49a222972da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:53 +0000
Subject: [PATCH 09/39] fix: reject malformed bearer tokens with 401 instead of
 panicking

---
 proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 7753042..5e30e87 100644
--- a/proxy.go
+++ b/proxy.go
@@ -616,7 +616,7 @@ func (proxy *Proxy) verifySignature(token string, keySet KeySet, alg jwa.Signatu
 	var parsed jwt.Token
 
 	msg, err = jws.Parse(bytes.NewReader([]byte(token)))
-	if len(msg.Signatures()) > 0 {
+	if msg != nil && len(msg.Signatures()) > 0 {
 		//first we try to validate by a key with the kid parameter to match.
 		kid := extractKid(token)
 		var key interface{}
-- 
2.43.0


From 6ffeb55ccc0b63155741d33a286125a291a74562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:54 +0000
Subject: [PATCH 10/39] fix: apply large acceptable skews to iat and nbf claims

---
 proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 5e30e87..0513a59 100644
--- a/proxy.go
+++ b/proxy.go
@@ -702,10 +702,10 @@ func verifyDateClaims(token string, skew int) error {
 	//so i need to parse it again.
 	skewed, _ := jwt.Parse(bytes.NewReader([]byte(token)))
 
-	if skewed.IssuedAt().Unix() > int64(skew*1000) {
+	if skewed.IssuedAt().Unix() > int64(skew) {
 		skewed.Set("iat", skewed.IssuedAt().Add(-time.Second*time.Duration(skew)))
 	}
-	if skewed.NotBefore().Unix() > int64(skew*1000) {
+	if skewed.NotBefore().Unix() > int64(skew) {
 		skewed.Set("nbf", skewed.NotBefore().Add(-time.Second*time.Duration(skew)))
 	}
 	if skewed.Expiration().Unix() > 1 {
-- 
2.43.0


From 8596aaddf00627b29f02d26f263b6a8840d1b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:55 +0000
Subject: [PATCH 11/39] fix: compile route paths after their leading slash was
 added so they can match

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 18e4111..cfda262 100644
--- a/server.go
+++ b/server.go
@@ -64,9 +64,9 @@ func BootStrap() {
 		reApplyResourceSchemes().
 		reApplyResourceNames().
 		validateJwt().
+		validateRoutes().
 		compileRoutePaths().
 		compileRouteTransforms().
-		validateRoutes().
 		addDefaultPolicy().
 		setDefaultUpstreamParams().
 		setDefaultDownstreamParams()
-- 
2.43.0


From 12537e454925a5f7705107f4f30322340f80c17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:56 +0000
Subject: [PATCH 12/39] fix: concurrent requests must not sort the shared
 policy in place

---
 policy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/policy.go b/policy.go
index a2603e7..3c0ad02 100644
--- a/policy.go
+++ b/policy.go
@@ -28,6 +28,8 @@ func (policy Policy) Less(i, j int) bool {
 //resolve a label inside a policy
 func (policy Policy) resolveLabel() string {
 	dice := rand.Float64()
+	//the policy is shared between requests, sort our own copy.
+	policy = append(Policy(nil), policy...)
 	sort.Sort(Policy(policy))
 	var cw []float64
 	//add up cumulative weights 0 < w < 1
-- 
2.43.0


From 588f7f81b6aa07f3cf0fdda81c000810f6a8a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:57 +0000
Subject: [PATCH 13/39] fix: respond 503 for routes to an empty resource
 instead of panicking

---
 route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/route.go b/route.go
index 7bcdbf1..5e3be29 100644
--- a/route.go
+++ b/route.go
@@ -53,7 +53,7 @@ func (route Route) mapURL(proxy *Proxy) (*URL, string, bool) {
 	}
 
 	resource := Runner.Resources[route.Resource]
-	if resource == nil {
+	if len(resource) == 0 {
 		return nil, "", false
 	}
 	//if a policy exists, we match resources with a label. TODO: this should be an interface
-- 
2.43.0


From 8260d2ed4c921e00fa7fa8e9b99996e44a8cf6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:58 +0000
Subject: [PATCH 14/39] fix: format certificate serials with any odd number of
 hex digits

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 1654702..eaaafb8 100644
--- a/tls.go
+++ b/tls.go
@@ -106,7 +106,7 @@ func verifyOptions(inter *x509.CertPool, root *x509.CertPool) x509.VerifyOptions
 
 func formatSerial(serial *big.Int) string {
 	hex := fmt.Sprintf("%X", serial)
-	if len(hex) == 1 || len(hex) == 31 {
+	if len(hex)%2 == 1 {
 		hex = "0" + hex
 	}
 	if len(hex) > 2 {
-- 
2.43.0


From 6fdaa091c3369d995a9b83599f2a3723b7fcb10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:59 +0000
Subject: [PATCH 15/39] fix: warn when the TLS certificate chain has become
 invalid

---
 tls.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index eaaafb8..8af0bc3 100644
--- a/tls.go
+++ b/tls.go
@@ -62,7 +62,10 @@ func tlsHealthCheck(conf *tls.Config, daemon bool) {
 	Daemon:
 		for {
 			//Andeka is checking our certificate chains forever.
-			andeka, _ := checkCertChain(conf.Certificates[0])
+			andeka, err := checkCertChain(conf.Certificates[0])
+			if err != nil {
+				log.Warn().Msgf("TLS cert chain no longer valid, cause: %v", err)
+			}
 			logCertStats(andeka)
 			if daemon {
 				time.Sleep(time.Hour * 24)
-- 
2.43.0


From e99836a906e4ec5c55f3a5355f63063621ea32b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:26 +0000
Subject: [PATCH 16/39] fix: time out jwks requests so a hanging jwks server
 cannot stop key rotation for good

---
 jwt.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 760b62e..5e988c9 100644
--- a/jwt.go
+++ b/jwt.go
@@ -12,6 +12,7 @@ import (
 	"github.com/lestrrat-go/jwx/jwk"
 	"github.com/rs/zerolog/log"
 	"golang.org/x/sync/semaphore"
+	"net/http"
 	"strconv"
 	"time"
 )
@@ -80,6 +81,7 @@ const ecdsaKeySizeBad = "jwt [%s] invalid key size for alg [%s], parsed bitsize
 
 const defaultSkew = "120"
 const jwksRefreshSlowwait = time.Second * 10
+const jwksFetchTimeout = time.Second * 10
 
 func NewJwt(name string, alg string, key string, jwksUrl string, acceptableSkewSeconds string) *Jwt {
 	jwt := Jwt{
@@ -173,7 +175,8 @@ func (jwt *Jwt) LoadJwks() error {
 	//acquires the lock with true else skips
 	if jwt.lock.TryAcquire(1) {
 		var keyset *jwk.Set
-		keyset, err = jwk.Fetch(jwt.JwksUrl)
+		//without a timeout a hanging jwks server holds on to the lock forever.
+		keyset, err = jwk.Fetch(jwt.JwksUrl, jwk.WithHTTPClient(&http.Client{Timeout: jwksFetchTimeout}))
 		if err == nil {
 			log.Debug().Msgf("jwt [%s] fetched %d jwk from jwks URL %s", jwt.Name, keyset.Len(), jwt.JwksUrl)
 		} else {
-- 
2.43.0


From f8d29f825df1ca762be2e815a59ed01866b8befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:27 +0000
Subject: [PATCH 17/39] fix: transformed request URIs must not change the
 upstream host or port

---
 proxy.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 0513a59..44753e8 100644
--- a/proxy.go
+++ b/proxy.go
@@ -135,7 +135,12 @@ func (proxy *Proxy) resolveUpstreamURI() string {
 		if t == "/" {
 			t = ""
 		}
-		uri = proxy.Up.Atmpt.URL.String() + strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		uri = strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		//without leading slash the remainder would extend upstream host and port
+		if !strings.HasPrefix(uri, "/") {
+			uri = "/" + uri
+		}
+		uri = proxy.Up.Atmpt.URL.String() + uri
 	}
 	return uri
 }
-- 
2.43.0


From 4154330b4468fed0c7ebc0b3c64072d3df9ac8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:28 +0000
Subject: [PATCH 18/39] fix: enforce jwt on routes to the internal about
 resource

---
 server.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/server.go b/server.go
index cfda262..dc24333 100644
--- a/server.go
+++ b/server.go
@@ -136,6 +136,10 @@ func (runtime Runtime) mapPathsToHandler() http.Handler {
 	handler := http.NewServeMux()
 	for _, route := range runtime.Routes {
 		if route.Resource == about {
+			if route.hasJwt() {
+				handler.Handle(route.Path, jwtHandler(route, aboutHandler))
+				continue
+			}
 			handler.Handle(route.Path, http.HandlerFunc(aboutHandler))
 			log.Debug().Msgf("assigned about handler to path %s", route.Path)
 		}
@@ -146,6 +150,21 @@ func (runtime Runtime) mapPathsToHandler() http.Handler {
 	return handler
 }
 
+//jwtHandler protects internal resources with the jwt of their route
+func jwtHandler(route Route, next http.HandlerFunc) http.HandlerFunc {
+	return func(w http.ResponseWriter, r *http.Request) {
+		proxy := new(Proxy).
+			setOutgoing(w).
+			parseIncoming(r)
+		proxy.setRoute(&route)
+		if proxy.validateJwt() {
+			next(w, r)
+		} else {
+			sendStatusCodeAsJSON(proxy.respondWith(401, "jwt bearer token missing, invalid, expired or unauthorized"))
+		}
+	}
+}
+
 func (runtime Runtime) initUserAgent() Runtime {
 	if httpClient == nil {
 		httpClient = scaffoldHTTPClient(runtime)
-- 
2.43.0


From dfc314379242651a546bdc25c889ad18746fc880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:29 +0000
Subject: [PATCH 19/39] fix: generated responses must not reset the random
 numbers that policies use

---
 responses.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/responses.go b/responses.go
index 29850a9..5a1bb93 100644
--- a/responses.go
+++ b/responses.go
@@ -146,9 +146,13 @@ func (statusCodeResponse StatusCodeResponse) AsString() string {
 	return strings.ToLower(string(statusCodeResponse.AsJSON()))
 }
 
+func init() {
+	rand.Seed(time.Now().UnixNano())
+}
+
 func randomHuttese() string {
-	rand.Seed(time.Now().Unix())
-	return huttese[rand.Int()%len(huttese)]
+	//own source, reseeding the global one repeats the dice that policies are using
+	return huttese[rand.New(rand.NewSource(time.Now().Unix())).Int()%len(huttese)]
 }
 
 func aboutHandler(w http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From 43d80d39aeda5b47556b461a75ebed40fe14c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:30 +0000
Subject: [PATCH 20/39] fix: do not silently drop config values of the wrong
 type

---
 config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config.go b/config.go
index 4ac0c52..bbc0711 100644
--- a/config.go
+++ b/config.go
@@ -1,7 +1,6 @@
 package j8a
 
 import (
-	"encoding/json"
 	"fmt"
 	"github.com/ghodss/yaml"
 	"io/ioutil"
@@ -90,8 +89,9 @@ func (config Config) readYmlFile(file string) *Config {
 }
 
 func (config Config) parse(yml []byte) *Config {
-	jsn, _ := yaml.YAMLToJSON(yml)
-	json.Unmarshal(jsn, &config)
+	if err := yaml.Unmarshal(yml, &config); err != nil {
+		config.panic(fmt.Sprintf("error parsing config, cause: %v", err))
+	}
 	return &config
 }
 
-- 
2.43.0


From 92ed9fc2a4972d1bbbe63012aca62160f6aaf516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:31 +0000
Subject: [PATCH 21/39] fix: extract IPv6 remote addresses in full

---
 iprex.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/iprex.go b/iprex.go
index 9ae2904..ec99dd3 100644
--- a/iprex.go
+++ b/iprex.go
@@ -1,6 +1,10 @@
 package j8a
 
-import "regexp"
+import (
+	"net"
+	"regexp"
+	"strings"
+)
 
 //TODO: rather not use multiple regexes in a chain and replace this with a tested thirdparty framework.
 type iprex struct {
@@ -19,6 +23,12 @@ type iprex struct {
 
 func (ipr *iprex) extractAddr(msg string) string {
 	addr := "not found"
+	//go prints IPv6 addresses in brackets next to their port, no need to guess those
+	for _, bracket := range strings.Split(msg, "[")[1:] {
+		if end := strings.IndexAny(bracket, "]%"); end > 0 && net.ParseIP(bracket[:end]) != nil {
+			return bracket[:end]
+		}
+	}
 	if ipr.ipv6s == nil {
 		r2, _ := regexp.Compile("([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}")
 		ipr.ipv6s = r2
-- 
2.43.0


From ab6845a231d698817efb27ef6fb4b5b42dfa2c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:46 +0000
Subject: [PATCH 22/39] fix: only a listed gzip coding is acceptable to the
 user agent

---
 proxy.go     | 20 +++++++++++++-------
 responses.go |  3 +--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/proxy.go b/proxy.go
index 44753e8..ab98728 100644
--- a/proxy.go
+++ b/proxy.go
@@ -223,7 +223,7 @@ func (proxy *Proxy) parseIncoming(request *http.Request) *Proxy {
 	proxy.Dwn.Req = request
 
 	proxy.Dwn.AbortedFlag = false
-	proxy.Dwn.Resp.SendGzip = strings.Contains(request.Header.Get("Accept-Encoding"), "gzip") && !refusesGzip(request)
+	proxy.Dwn.Resp.SendGzip = acceptsGzip(request)
 
 	log.Trace().
 		Str("path", proxy.Dwn.Path).
@@ -294,18 +294,24 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 
 }
 
-//RFC7231 5.3.4, a quality value of 0 means not acceptable
-func refusesGzip(request *http.Request) bool {
+//RFC7231 5.3.4, only a listed coding is acceptable and a quality value of 0 means it is not.
+func acceptsGzip(request *http.Request) bool {
+	accepts := false
 	for _, coding := range strings.Split(strings.Join(request.Header.Values("Accept-Encoding"), ","), ",") {
 		params := strings.Split(strings.ToLower(coding), ";")
-		if name := strings.TrimSpace(params[0]); name == "gzip" && len(params) > 1 {
+		if name := strings.TrimSpace(params[0]); name != "gzip" && name != "x-gzip" {
+			continue
+		}
+		accepts = true
+		if len(params) > 1 {
 			if q := strings.Split(params[1], "="); len(q) == 2 && strings.TrimSpace(q[0]) == "q" {
-				weight, err := strconv.ParseFloat(strings.TrimSpace(q[1]), 64)
-				return err == nil && weight == 0
+				if weight, err := strconv.ParseFloat(strings.TrimSpace(q[1]), 64); err == nil && weight == 0 {
+					return false
+				}
 			}
 		}
 	}
-	return false
+	return accepts
 }
 
 func parseMethod(request *http.Request) string {
diff --git a/responses.go b/responses.go
index 5a1bb93..5b9b787 100644
--- a/responses.go
+++ b/responses.go
@@ -167,8 +167,7 @@ func aboutHandler(w http.ResponseWriter, r *http.Request) {
 	res := AboutResponse{}.AsJSON()
 	w.Header().Set("Content-Type", "application/json")
 	if len(ae) > 0 {
-		s := strings.Join(ae, " ")
-		if strings.Contains(s, "gzip") && !refusesGzip(r) {
+		if acceptsGzip(r) {
 			w.Header().Set("Content-Encoding", "gzip")
 			res = *Gzip(res)
 			w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-- 
2.43.0


From d82d20550fa6af80a5fd1b23c2a4fba04d702355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:21 +0000
Subject: [PATCH 23/39] fix: pass on redirects whose location cannot be parsed

---
 httpclient.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/httpclient.go b/httpclient.go
index 5c94500..eee191f 100644
--- a/httpclient.go
+++ b/httpclient.go
@@ -16,6 +16,16 @@ type HTTPClient interface {
 	Get(uri string) (*http.Response, error)
 }
 
+// upstreamClient sends a request exactly once. http.Client evaluates redirects even if it is told not to follow them
+// and discards responses with a Location it cannot parse.
+type upstreamClient struct {
+	http.Client
+}
+
+func (client *upstreamClient) Do(req *http.Request) (*http.Response, error) {
+	return client.Transport.RoundTrip(req)
+}
+
 // scaffoldHTTPClient is a factory method that applies connection params to the transport layer of http.Client
 func scaffoldHTTPClient(runtime Runtime) HTTPClient {
 	idleConnTimeoutDuration := time.Duration(runtime.Connection.Upstream.IdleTimeoutSeconds) * time.Second
@@ -24,7 +34,7 @@ func scaffoldHTTPClient(runtime Runtime) HTTPClient {
 	readTimeoutDuration := time.Duration(runtime.Connection.Upstream.ReadTimeoutSeconds) * time.Second
 	tlsInsecureSkipVerify := runtime.Connection.Upstream.TlsInsecureSkipVerify
 
-	httpClient = &http.Client{
+	httpClient = &upstreamClient{http.Client{
 		Transport: &http.Transport{
 			DialContext: (&net.Dialer{
 				Timeout:   socketTimeoutDuration,
@@ -43,7 +53,7 @@ func scaffoldHTTPClient(runtime Runtime) HTTPClient {
 		CheckRedirect: func(req *http.Request, via []*http.Request) error {
 			return http.ErrUseLastResponse
 		},
-	}
+	}}
 
 	log.Debug().
 		Int("upMaxIdleConns", runtime.Connection.Upstream.PoolSize).
-- 
2.43.0


From 2f1267f3e77a1c44c0753ed316f48c8d5a9f3cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:12 +0000
Subject: [PATCH 24/39] fix: a # in the query of a request does not cut it off

---
 proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index ab98728..add1c9f 100644
--- a/proxy.go
+++ b/proxy.go
@@ -213,7 +213,8 @@ func (proxy *Proxy) parseIncoming(request *http.Request) *Proxy {
 
 	proxy.XRequestDebug = parseXRequestDebug(request)
 	proxy.Dwn.Path = request.URL.EscapedPath()
-	proxy.Dwn.URI = request.URL.RequestURI()
+	//there are no fragments in requests, upstream would only get what is in front of it.
+	proxy.Dwn.URI = strings.ReplaceAll(request.URL.RequestURI(), "#", "%23")
 	proxy.Dwn.HttpVer = parseHTTPVer(request)
 	proxy.Dwn.TlsVer = parseTlsVersion(request)
 	proxy.Dwn.UserAgent = parseUserAgent(request)
-- 
2.43.0


From 1cc4903df6aea81ebee7d698981f7210503a48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:45 +0000
Subject: [PATCH 25/39] fix: reject tokens that make the jwt parser panic with
 401

---
 proxy.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index add1c9f..3a14690 100644
--- a/proxy.go
+++ b/proxy.go
@@ -564,10 +564,20 @@ func (proxy *Proxy) shouldGzipDecodeResponseBody() bool {
 }
 
 //get bearer token from request. feed into lib. check signature. check expiry. return true || false.
-func (proxy *Proxy) validateJwt() bool {
+func (proxy *Proxy) validateJwt() (ok bool) {
 	var token string = ""
 	var err error
-	ok := false
+
+	//tokens come from outside, some malformed ones make the parser panic.
+	defer func() {
+		if r := recover(); r != nil {
+			ok = false
+			log.Trace().
+				Str("dwnReqPath", proxy.Dwn.Path).
+				Str(XRequestID, proxy.XRequestID).
+				Msgf("jwt token rejected, cause: %v", r)
+		}
+	}()
 
 	ev := log.Trace().
 		Str("dwnReqPath", proxy.Dwn.Path).
-- 
2.43.0


From 744946f78d765ed269c06049f913778aa2d77671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:03 +0000
Subject: [PATCH 26/39] fix: refuse jwks keys that can never verify a signature

---
 jwt.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/jwt.go b/jwt.go
index 5e988c9..0cae751 100644
--- a/jwt.go
+++ b/jwt.go
@@ -79,7 +79,11 @@ const skewInvalid = "jwt [%s] acceptable skew seconds, must be 0 or greater, was
 
 const ecdsaKeySizeBad = "jwt [%s] invalid key size for alg [%s], parsed bitsize %d, check your configuration"
 
+const ecdsaKeyBad = "jwt [%s] invalid key for alg [%s], point is not on the curve"
+const rsaKeyBad = "jwt [%s] invalid key for alg [%s], modulus bitsize %d, exponent %d"
+
 const defaultSkew = "120"
+const rsaMinBitSize = 1024
 const jwksRefreshSlowwait = time.Second * 10
 const jwksFetchTimeout = time.Second * 10
 
@@ -213,6 +217,9 @@ func (jwt *Jwt) LoadJwks() error {
 							},
 						}
 						err = key.Raw(k.Key)
+						if err == nil {
+							err = jwt.checkRSAPublicKey(alg, k.Key.(*rsa.PublicKey))
+						}
 						if err == nil {
 							jwt.RSAPublic.Upsert(k)
 						}
@@ -230,6 +237,9 @@ func (jwt *Jwt) LoadJwks() error {
 						if err == nil {
 							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
 						}
+						if err == nil {
+							err = jwt.checkECDSAPoint(alg, k.Key.(*ecdsa.PublicKey))
+						}
 						if err == nil {
 							jwt.ECDSAPublic.Upsert(k)
 						}
@@ -399,3 +409,19 @@ func (jwt *Jwt) checkECDSABitSize(alg jwa.SignatureAlgorithm, parsed *ecdsa.Publ
 	}
 	return err
 }
+
+//jwks do not guarantee this, unlike the parsers for PEM encoded keys.
+func (jwt *Jwt) checkECDSAPoint(alg jwa.SignatureAlgorithm, parsed *ecdsa.PublicKey) error {
+	if !parsed.Curve.IsOnCurve(parsed.X, parsed.Y) {
+		return errors.New(fmt.Sprintf(ecdsaKeyBad, jwt.Name, alg))
+	}
+	return nil
+}
+
+//an empty modulus or an illegal exponent can never verify a signature.
+func (jwt *Jwt) checkRSAPublicKey(alg jwa.SignatureAlgorithm, parsed *rsa.PublicKey) error {
+	if parsed.N.BitLen() < rsaMinBitSize || parsed.E < 3 || parsed.E%2 == 0 {
+		return errors.New(fmt.Sprintf(rsaKeyBad, jwt.Name, alg, parsed.N.BitLen(), parsed.E))
+	}
+	return nil
+}
-- 
2.43.0


From 1cc91a032637be39feb77fe111fc594b22bbec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:27 +0000
Subject: [PATCH 27/39] fix: name the CA certificate that expires earliest in
 the chain report

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 8af0bc3..b545021 100644
--- a/tls.go
+++ b/tls.go
@@ -165,7 +165,7 @@ func logCertStats(tlsLinks []TlsLink) {
 				formatSerial(link.cert.SerialNumber),
 				link.cert.Subject.CommonName,
 				link.cert.Issuer.CommonName,
-				link.remainingValidity.AsString(),
+				link.printRemainingValidity(),
 			))
 		}
 	}
-- 
2.43.0


From ae4372fc1022879fb497a775e74c3d88d564b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:08 +0000
Subject: [PATCH 28/39] fix: refuse to start instead of crashing on a malformed
 certificate in the chain

---
 tls.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tls.go b/tls.go
index b545021..0cc733b 100644
--- a/tls.go
+++ b/tls.go
@@ -79,6 +79,12 @@ func tlsHealthCheck(conf *tls.Config, daemon bool) {
 func checkCertChain(chain tls.Certificate) ([]TlsLink, error) {
 	var tlsLinks []TlsLink
 	var err error
+	//all of the chain must parse before we look into it
+	for _, c := range chain.Certificate {
+		if _, e := x509.ParseCertificate(c); e != nil {
+			return tlsLinks, e
+		}
+	}
 	cert, e1 := x509.ParseCertificate(chain.Certificate[0])
 	if e1 != nil {
 		err = e1
-- 
2.43.0


From a4936acb9ee45bfb3527c0ed1b2a51a3bf28f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:08 +0000
Subject: [PATCH 29/39] fix: normalise resource schemes whatever their case

---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index bbc0711..4d9969a 100644
--- a/config.go
+++ b/config.go
@@ -148,7 +148,7 @@ func (config Config) reApplyResourceSchemes() *Config {
 	for name := range config.Resources {
 		resourceMappings := config.Resources[name]
 		for i, resourceMapping := range resourceMappings {
-			scheme := resourceMapping.URL.Scheme
+			scheme := strings.ToLower(resourceMapping.URL.Scheme)
 			if len(scheme) == 0 {
 				scheme = http
 			} else {
-- 
2.43.0


From 2fbb567b5079a43aefaa0e1f59f2bc0684c9ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:59 +0000
Subject: [PATCH 30/39] fix: what a client sends cannot pass for its remote
 address in the log

---
 iprex.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/iprex.go b/iprex.go
index ec99dd3..155acba 100644
--- a/iprex.go
+++ b/iprex.go
@@ -23,6 +23,15 @@ type iprex struct {
 
 func (ipr *iprex) extractAddr(msg string) string {
 	addr := "not found"
+	//go prints the peer as host:port ahead of whatever the peer itself may have sent
+	for _, word := range strings.Fields(msg) {
+		if end := strings.IndexAny(word, "]%"); end > 1 && word[0] == '[' && net.ParseIP(word[1:end]) != nil {
+			return word[1:end]
+		}
+		if host, _, err := net.SplitHostPort(strings.TrimRight(word, ":")); err == nil && net.ParseIP(host) != nil {
+			return host
+		}
+	}
 	//go prints IPv6 addresses in brackets next to their port, no need to guess those
 	for _, bracket := range strings.Split(msg, "[")[1:] {
 		if end := strings.IndexAny(bracket, "]%"); end > 0 && net.ParseIP(bracket[:end]) != nil {
-- 
2.43.0


From 612355c4692960dcaab44f823b3c1ea85eab0003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:34 +0000
Subject: [PATCH 31/39] fix: refuse a jwt certificate that does not parse
 instead of crashing on it

---
 jwt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jwt.go b/jwt.go
index 0cae751..daed98f 100644
--- a/jwt.go
+++ b/jwt.go
@@ -301,6 +301,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "CERTIFICATE":
 			var cert interface{}
 			cert, err = x509.ParseCertificate(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch cert.(type) {
 			case *x509.Certificate:
 				key := cert.(*x509.Certificate).PublicKey
@@ -360,6 +363,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "CERTIFICATE":
 			var cert interface{}
 			cert, err = x509.ParseCertificate(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch cert.(type) {
 			case *x509.Certificate:
 				key := cert.(*x509.Certificate).PublicKey
-- 
2.43.0


From c5354bbc2a53f4632576b2bb7dd7bc36274281f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:34 +0000
Subject: [PATCH 32/39] fix: refuse an empty jwt entry instead of crashing on
 it

---
 config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config.go b/config.go
index 4d9969a..29984c1 100644
--- a/config.go
+++ b/config.go
@@ -243,6 +243,10 @@ func (config Config) setDefaultUpstreamParams() *Config {
 func (config Config) validateJwt() *Config {
 	if len(config.Jwt) > 0 {
 		for name, jwt := range config.Jwt {
+			//an entry without any parameters is nil
+			if jwt == nil {
+				jwt = new(Jwt)
+			}
 			//update name on resource
 			jwt.Name = name
 			jwt.Init()
-- 
2.43.0


From 4d92957beccad26294acab3a7036868f3c867884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:49 +0000
Subject: [PATCH 33/39] fix: refuse a jwt public key with a point off its curve
 instead of crashing on it

---
 jwt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jwt.go b/jwt.go
index daed98f..77706cf 100644
--- a/jwt.go
+++ b/jwt.go
@@ -346,6 +346,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "PUBLIC KEY":
 			var pub interface{}
 			pub, err = x509.ParsePKIXPublicKey(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch pub.(type) {
 			case *ecdsa.PublicKey:
 				parsed := pub.(*ecdsa.PublicKey)
-- 
2.43.0


From 47bc7e23b44f1b25969d37c67bb52b767212997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:45 +0000
Subject: [PATCH 34/39] fix: answer 502 instead of crashing on an upstream
 status code below 100

---
 proxyhandler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxyhandler.go b/proxyhandler.go
index 31ad4a2..86d171f 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -285,6 +285,8 @@ func shouldProxyUpstreamResponse(proxy *Proxy, bodyError error) bool {
 	return !proxy.hasDownstreamAborted() &&
 		!proxy.hasUpstreamAttemptAborted() &&
 		bodyError == nil &&
+		//anything below 100 isn't a status code and cannot be sent downstream.
+		proxy.Up.Atmpt.resp.StatusCode > 99 &&
 		proxy.Up.Atmpt.resp.StatusCode < 500
 }
 
-- 
2.43.0


From ac762be8ecfdee212622364ed844e625a2be10a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:31 +0000
Subject: [PATCH 35/39] fix: serve about routes with prefix paths instead of
 crashing or shadowing longer routes

---
 proxyhandler.go | 4 ++++
 server.go       | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 86d171f..7588845 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -56,6 +56,10 @@ func proxyHandler(response http.ResponseWriter, request *http.Request) {
 				sendStatusCodeAsJSON(proxy.respondWith(401, "jwt bearer token missing, invalid, expired or unauthorized"))
 				return
 			}
+			if route.Resource == about {
+				aboutHandler(response, request)
+				return
+			}
 			url, label, mapped := route.mapURL(proxy)
 			if mapped {
 				//mapped requests are sent to httpclient
diff --git a/server.go b/server.go
index dc24333..fccdf24 100644
--- a/server.go
+++ b/server.go
@@ -134,8 +134,12 @@ func (runtime Runtime) mapPathsToHandler() http.Handler {
 	//if one handlerfunc in the system, it would need to distinguish between /about and other routes.
 
 	handler := http.NewServeMux()
+	//only one handler per path. about routes with a trailing slash would capture the subtree below them
+	//including more specific routes, they are matched by the proxy handler instead.
+	registered := make(map[string]bool)
 	for _, route := range runtime.Routes {
-		if route.Resource == about {
+		if route.Resource == about && !registered[route.Path] && !strings.HasSuffix(route.Path, "/") {
+			registered[route.Path] = true
 			if route.hasJwt() {
 				handler.Handle(route.Path, jwtHandler(route, aboutHandler))
 				continue
-- 
2.43.0


From e7cba2a29e7929eafc2f79b7239e0a69ff5b134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 36/39] fix: timeouts longer than 292 years no longer overflow
 and fire at once

---
 config.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/config.go b/config.go
index 29984c1..2d7ce41 100644
--- a/config.go
+++ b/config.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/ghodss/yaml"
 	"io/ioutil"
+	"math"
 	"os"
 	"regexp"
 	"sort"
@@ -213,6 +214,10 @@ func (config Config) setDefaultDownstreamParams() *Config {
 		}
 	}
 
+	config.Connection.Downstream.ReadTimeoutSeconds = limitSeconds(config.Connection.Downstream.ReadTimeoutSeconds)
+	config.Connection.Downstream.RoundTripTimeoutSeconds = limitSeconds(config.Connection.Downstream.RoundTripTimeoutSeconds)
+	config.Connection.Downstream.IdleTimeoutSeconds = limitSeconds(config.Connection.Downstream.IdleTimeoutSeconds)
+
 	return &config
 }
 
@@ -237,9 +242,25 @@ func (config Config) setDefaultUpstreamParams() *Config {
 	if config.Connection.Upstream.MaxAttempts == 0 {
 		config.Connection.Upstream.MaxAttempts = 1
 	}
+
+	config.Connection.Upstream.SocketTimeoutSeconds = limitSeconds(config.Connection.Upstream.SocketTimeoutSeconds)
+	config.Connection.Upstream.ReadTimeoutSeconds = limitSeconds(config.Connection.Upstream.ReadTimeoutSeconds)
+	config.Connection.Upstream.IdleTimeoutSeconds = limitSeconds(config.Connection.Upstream.IdleTimeoutSeconds)
+
 	return &config
 }
 
+//maxSeconds is the longest a time.Duration can hold, about 292 years, less a second of grace
+var maxSeconds = int64(math.MaxInt64/time.Second) - 1
+
+//limitSeconds keeps timeouts from wrapping around to negative durations, these would fire immediately.
+func limitSeconds(seconds int) int {
+	if int64(seconds) > maxSeconds {
+		return int(maxSeconds)
+	}
+	return seconds
+}
+
 func (config Config) validateJwt() *Config {
 	if len(config.Jwt) > 0 {
 		for name, jwt := range config.Jwt {
-- 
2.43.0


From 1a218cf03951056dd4a26ef80e5bfa08bdcd3b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 37/39] fix: acceptable skews larger than the dates of a token
 or a duration are honoured

---
 proxy.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/proxy.go b/proxy.go
index 3a14690..2955f82 100644
--- a/proxy.go
+++ b/proxy.go
@@ -719,19 +719,28 @@ func logDateClaims(parsed jwt.Token, ev *zerolog.Event) {
 	}
 }
 
+//maxSkewSeconds is about 34000 years
+const maxSkewSeconds int64 = 1 << 40
+
 func verifyDateClaims(token string, skew int) error {
 	//arghh i need a deep copy of this token so i can modify it, but it's an interface wrapping a package private jwt.stdToken
 	//so i need to parse it again.
 	skewed, _ := jwt.Parse(bytes.NewReader([]byte(token)))
 
-	if skewed.IssuedAt().Unix() > int64(skew) {
-		skewed.Set("iat", skewed.IssuedAt().Add(-time.Second*time.Duration(skew)))
+	//seconds are added as numbers, time.Duration overflows after 292 years. no date is as far away as this limit.
+	secs := int64(skew)
+	if secs > maxSkewSeconds {
+		secs = maxSkewSeconds
+	}
+
+	if !skewed.IssuedAt().IsZero() {
+		skewed.Set("iat", skewed.IssuedAt().Unix()-secs)
 	}
-	if skewed.NotBefore().Unix() > int64(skew) {
-		skewed.Set("nbf", skewed.NotBefore().Add(-time.Second*time.Duration(skew)))
+	if !skewed.NotBefore().IsZero() {
+		skewed.Set("nbf", skewed.NotBefore().Unix()-secs)
 	}
-	if skewed.Expiration().Unix() > 1 {
-		skewed.Set("exp", skewed.Expiration().Add(time.Second*time.Duration(skew)))
+	if !skewed.Expiration().IsZero() {
+		skewed.Set("exp", skewed.Expiration().Unix()+secs)
 	}
 	return jwt.Verify(skewed)
 }
-- 
2.43.0


From 34a003e1042a338af68b3246602c12d8240b903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 38/39] fix: a memory reading that fails, i.e. without file
 descriptors left, no longer crashes the server

---
 stats.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stats.go b/stats.go
index a3056e7..ab39b18 100644
--- a/stats.go
+++ b/stats.go
@@ -88,9 +88,13 @@ func getSample(proc *process.Process) sample {
 
 	cpuPc, _ := proc.Percent(time.Millisecond * cpuSampleMilliSeconds)
 	mPc, _ := proc.MemoryPercent()
-	mInfo, _ := proc.MemoryInfo()
+	mInfo, err := proc.MemoryInfo()
 
 	procStatsLock.Unlock()
+	//i.e. out of file descriptors. there is nothing to sample this time.
+	if err != nil || mInfo == nil {
+		return sample{}
+	}
 	return sample{
 		pid:       proc.Pid,
 		cpuPc:     cpuPc,
@@ -106,7 +110,9 @@ func getSample(proc *process.Process) sample {
 func logProcStats(proc *process.Process) {
 	go func() {
 		for {
-			getSample(proc).log()
+			if s := getSample(proc); s.pid != 0 {
+				s.log()
+			}
 			time.Sleep(time.Second * logSamplerSleepSeconds)
 		}
 	}()
@@ -118,7 +124,9 @@ func logProcStats(proc *process.Process) {
 			procHistory[k] = lazy
 		}
 		for {
-			procHistory.append(getSample(proc))
+			if s := getSample(proc); s.pid != 0 {
+				procHistory.append(s)
+			}
 			time.Sleep(time.Second * historySamplerSleepSeconds)
 		}
 	}()
-- 
2.43.0


From 7cf3d1fb94a92376cc13c8edab6a5444f308da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:00 +0000
Subject: [PATCH 39/39] fix: report certificates that are valid for more than
 292 years truthfully

---
 tls.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tls.go b/tls.go
index 0cc733b..c273c1f 100644
--- a/tls.go
+++ b/tls.go
@@ -17,7 +17,12 @@ import (
 type PDuration time.Duration
 
 func (p PDuration) AsString() string {
-	return durafmt.Parse(time.Duration(p)).LimitFirstN(2).String()
+	s := durafmt.Parse(time.Duration(p)).LimitFirstN(2).String()
+	//durations end here, certificates may last longer
+	if p == math.MaxInt64 {
+		s = "more than " + s
+	}
+	return s
 }
 
 func (p PDuration) AsDuration() time.Duration {
@@ -149,7 +154,7 @@ func logCertStats(tlsLinks []TlsLink) {
 			))
 			if link.totalValidity > link.browserExpiry() {
 				sb.WriteString(fmt.Sprintf("Total validity period of %d days is above legal browser max %d. ",
-					int(link.totalValidity.AsDays()),
+					(link.cert.NotAfter.Unix()-link.cert.NotBefore.Unix())/(24*60*60),
 					int(link.browserExpiry().AsDays())))
 			}
 			if link.browserValidity > 0 {
@@ -191,7 +196,6 @@ func logCertStats(tlsLinks []TlsLink) {
 }
 
 func parseTlsLinks(chain []*x509.Certificate) []TlsLink {
-	earliestExpiry := PDuration(math.MaxInt64)
 	browserExpiry := TlsLink{}.browserExpiry().AsDuration()
 	var tlsLinks []TlsLink
 	si := 0
@@ -206,9 +210,9 @@ func parseTlsLinks(chain []*x509.Certificate) []TlsLink {
 			isCA:              cert.IsCA,
 		}
 		tlsLinks = append(tlsLinks, link)
-		if link.remainingValidity < earliestExpiry {
+		//compares dates, the remaining validity may be more than a duration can hold
+		if cert.NotAfter.Before(chain[si].NotAfter) {
 			si = i
-			earliestExpiry = link.remainingValidity
 		}
 	}
 	tlsLinks[si].earliestExpiry = true
-- 
2.43.0

