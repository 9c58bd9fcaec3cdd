From b5d4d0e59df585f47fa4ade0535606ebd3b903a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:52 +0000
Subject: [PATCH 01/53] hook: route server loops and client construction
 through util (build tag verif)

---
 CA/server.go                |  7 ++-----
 Logger/server.go            |  7 ++-----
 gossiper/gossiper_server.go |  7 ++-----
 monitor/monitor-server.go   |  7 ++-----
 util/serve.go               | 19 +++++++++++++++++++
 util/serve_verif.go         | 30 ++++++++++++++++++++++++++++++
 6 files changed, 57 insertions(+), 20 deletions(-)
 create mode 100644 util/serve.go
 create mode 100644 util/serve_verif.go

diff --git a/CA/server.go b/CA/server.go
index 238c020..740aea6 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -49,9 +49,8 @@ func handleCARequests(c *CAContext) {
 	// receive get request from monitor
 	gorillaRouter.HandleFunc("/ctng/v2/get-revocation", bindCAContext(c, requestREV)).Methods("GET")
 	// Start the HTTP server.
-	http.Handle("/", gorillaRouter)
 	// Listen on port set by config until server is stopped.
-	log.Fatal(http.ListenAndServe(":"+c.CA_private_config.Port, nil))
+	log.Fatal(util.Serve(":"+c.CA_private_config.Port, gorillaRouter))
 }
 
 /*
@@ -459,9 +458,7 @@ func StartCA(c *CAContext) {
 		WriteBufferSize:     1024 * 1024, // 1MB
 		ReadBufferSize:      1024 * 1024, // 1MB
 	}
-	c.Client = &http.Client{
-		Transport: tr,
-	}
+	c.Client = util.NewClient(c.CA_private_config.Signer, tr)
 	// Start HTTP server loop on the main thread
 	go PeriodicTask(c)
 	handleCARequests(c)
diff --git a/Logger/server.go b/Logger/server.go
index 18d5f2e..8107fa0 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -38,9 +38,8 @@ func handleLoggerRequests(ctx *LoggerContext) {
 	// get sth request from Monitor
 	gorillaRouter.HandleFunc("/ctng/v2/get-sth", bindLoggerContext(ctx, requestSTH)).Methods("GET")
 	//start the HTTP server
-	http.Handle("/", gorillaRouter)
 	// Listen on port set by config until server is stopped.
-	log.Fatal(http.ListenAndServe(":"+ctx.Logger_private_config.Port, nil))
+	log.Fatal(util.Serve(":"+ctx.Logger_private_config.Port, gorillaRouter))
 }
 
 func requestSTH(c *LoggerContext, w http.ResponseWriter, r *http.Request) {
@@ -262,9 +261,7 @@ func StartLogger(c *LoggerContext) {
 		WriteBufferSize:     1024 * 1024, // 1MB
 		ReadBufferSize:      1024 * 1024, // 1MB
 	}
-	c.Client = &http.Client{
-		Transport: tr,
-	}
+	c.Client = util.NewClient(c.Logger_private_config.Signer, tr)
 	// start at second 0
 	currentsecond := GerCurrentSecond()
 	// if current second is not 0
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 3fef5f4..0f2b89c 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -38,9 +38,8 @@ func handleRequests(c *GossiperContext) {
 	gorillaRouter.HandleFunc("/gossip/new_payload_request", bindContext(c, Gossip_request_handler)).Methods("POST")
 	gorillaRouter.HandleFunc("/gossip/new_payload_notification", bindContext(c, Gossip_notification_handler)).Methods("POST")
 	// Start the HTTP server.
-	http.Handle("/", gorillaRouter)
 	fmt.Println(util.BLUE+"Listening on port:", c.Gossiper_private_config.Port, util.RESET)
-	err := http.ListenAndServe(":"+c.Gossiper_private_config.Port, nil)
+	err := util.Serve(":"+c.Gossiper_private_config.Port, gorillaRouter)
 	// We wont get here unless there's an error.
 	log.Fatal("ListenAndServe: ", err)
 	os.Exit(1)
@@ -588,9 +587,7 @@ func StartGossiperServer(c *GossiperContext) {
 		WriteBufferSize:     1024 * 1024, // 1MB
 		ReadBufferSize:      1024 * 1024, // 1MB
 	}
-	c.Client = &http.Client{
-		Transport: tr,
-	}
+	c.Client = util.NewClient(c.Gossiper_crypto_config.SelfID.String(), tr)
 	// HTTP Server Loop
 	go PeriodicTasks(c)
 	handleRequests(c)
diff --git a/monitor/monitor-server.go b/monitor/monitor-server.go
index 88e2242..bdcfa1b 100644
--- a/monitor/monitor-server.go
+++ b/monitor/monitor-server.go
@@ -27,9 +27,8 @@ func handleMonitorRequests(c *MonitorContext) {
 	//gorillaRouter.HandleFunc("/monitor/receive-gossip", bindMonitorContext(c, handle_gossip)).Methods("POST")
 	gorillaRouter.HandleFunc("/monitor/receive-gossip-from-gossiper", bindMonitorContext(c, handle_gossip_from_gossiper)).Methods("POST")
 	// Start the HTTP server.
-	http.Handle("/", gorillaRouter)
 	// Listen on port set by config until server is stopped.
-	log.Fatal(http.ListenAndServe(":"+c.Monitor_private_config.Port, nil))
+	log.Fatal(util.Serve(":"+c.Monitor_private_config.Port, gorillaRouter))
 }
 
 func StartMonitorServer(c *MonitorContext) {
@@ -45,9 +44,7 @@ func StartMonitorServer(c *MonitorContext) {
 		WriteBufferSize:     1024 * 1024, // 1MB
 		ReadBufferSize:      1024 * 1024, // 1MB
 	}
-	c.Client = &http.Client{
-		Transport: tr,
-	}
+	c.Client = util.NewClient(c.Monitor_crypto_config.SelfID.String(), tr)
 	fmt.Println("Monitor ", c.StorageID, " running on Period ", util.GetCurrentPeriod())
 	// Run a go routine to handle tasks that must occur every MMD
 	go PeriodicTasks(c)
diff --git a/util/serve.go b/util/serve.go
new file mode 100644
index 0000000..9108820
--- /dev/null
+++ b/util/serve.go
@@ -0,0 +1,19 @@
+//go:build !verif
+
+package util
+
+import "net/http"
+
+// Serve registers handler as the root of this process's HTTP server and listens on addr.
+// It only returns when the server fails.
+func Serve(addr string, handler http.Handler) error {
+	http.Handle("/", handler)
+	return http.ListenAndServe(addr, nil)
+}
+
+// NewClient returns the HTTP client an entity uses for its outgoing requests.
+func NewClient(self string, tr *http.Transport) *http.Client {
+	return &http.Client{
+		Transport: tr,
+	}
+}
diff --git a/util/serve_verif.go b/util/serve_verif.go
new file mode 100644
index 0000000..fb4b7b0
--- /dev/null
+++ b/util/serve_verif.go
@@ -0,0 +1,30 @@
+//go:build verif
+
+package util
+
+import "net/http"
+
+// Verification hooks (build tag verif): a harness that runs several entities in one
+// process installs these to own their server loop and their outgoing transport.
+var (
+	ServeHook     func(addr string, handler http.Handler) error
+	TransportHook func(self string) http.RoundTripper
+)
+
+func Serve(addr string, handler http.Handler) error {
+	if ServeHook != nil {
+		return ServeHook(addr, handler)
+	}
+	return (&http.Server{Addr: addr, Handler: handler}).ListenAndServe()
+}
+
+func NewClient(self string, tr *http.Transport) *http.Client {
+	if TransportHook != nil {
+		return &http.Client{
+			Transport: TransportHook(self),
+		}
+	}
+	return &http.Client{
+		Transport: tr,
+	}
+}
-- 
2.43.0


From d192b10e81ce2cdcebed254dc78b7e70e626ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:20 +0000
Subject: [PATCH 02/53] fix: a threshold signature needs Threshold distinct
 known signers

---
 crypto/crypto_config.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crypto/crypto_config.go b/crypto/crypto_config.go
index ad6a345..f9e4c95 100644
--- a/crypto/crypto_config.go
+++ b/crypto/crypto_config.go
@@ -74,6 +74,17 @@ func (c *CryptoConfig) ThresholdAggregate(sigs []SigFragment) (ThresholdSig, err
 // Uses the keys stored in the CryptoConfig struct to verify the signature.
 func (c *CryptoConfig) ThresholdVerify(msg string, sig ThresholdSig) error {
 	if c.ThresholdScheme == "bls" {
+		// The signature must come from at least Threshold distinct, known signers.
+		signers := make(map[CTngID]bool)
+		for _, id := range sig.IDs {
+			if _, ok := c.ThresholdPublicMap[id]; !ok || signers[id] {
+				return errors.New("Threshold Signature has an unknown or repeated signer")
+			}
+			signers[id] = true
+		}
+		if len(signers) < c.Threshold || sig.Sign == nil {
+			return errors.New("Not enough signers")
+		}
 		if sig.Verify(msg, &c.ThresholdPublicMap) {
 			return nil
 		} else {
@@ -87,6 +98,9 @@ func (c *CryptoConfig) ThresholdVerify(msg string, sig ThresholdSig) error {
 // Uses the keys stored in the CryptoConfig struct to verify the signature.
 func (c *CryptoConfig) FragmentVerify(msg string, sig SigFragment) error {
 	if c.ThresholdScheme == "bls" {
+		if _, ok := c.ThresholdPublicMap[sig.ID]; !ok || sig.Sign == nil {
+			return errors.New("Signature Fragment has an unknown signer")
+		}
 		if sig.Verify(msg, &c.ThresholdPublicMap) {
 			return nil
 		} else {
-- 
2.43.0


From 8105f0bc40df4f248d01d62e461cc540be078697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:20 +0000
Subject: [PATCH 03/53] fix: reject unparsable threshold signatures and
 fragments signed by another gossiper

---
 definition/Verify.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/definition/Verify.go b/definition/Verify.go
index 957beda..ddf1d36 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -41,8 +41,15 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies signature fragments match with payload
 func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.SigFragmentFromString(g.Signature[0])
-		err := c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
+		sig, err := crypto.SigFragmentFromString(g.Signature[0])
+		if err != nil {
+			return errors.New(No_Sig_Match)
+		}
+		// the fragment must be made by the gossiper it is attributed to
+		if sig.ID.String() != g.Signer {
+			return errors.New(Mislabel)
+		}
+		err = c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
@@ -55,8 +62,11 @@ func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies threshold signatures match payload
 func Verify_PayloadThreshold(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.ThresholdSigFromString(g.Signature[0])
-		err := c.ThresholdVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
+		sig, err := crypto.ThresholdSigFromString(g.Signature[0])
+		if err != nil {
+			return errors.New(No_Sig_Match)
+		}
+		err = c.ThresholdVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
-- 
2.43.0


From 03bdf82d4b003ef14a281774cc327db7570beafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:56 +0000
Subject: [PATCH 04/53] fix: an INIT object must be signed by the entity it is
 attributed to

---
 definition/Verify.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/definition/Verify.go b/definition/Verify.go
index ddf1d36..82baa3a 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -83,6 +83,14 @@ func Verify_RSAPayload(g Gossip_object, c *crypto.CryptoConfig) error {
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
+		// the signature must be made by the entity the object is attributed to,
+		// and STHs and revocations speak only for their signer
+		if sig.ID.String() != g.Signer {
+			return errors.New(Mislabel)
+		}
+		if g.Type != ACC_INIT && g.Signer != g.Payload[0] {
+			return errors.New(Mislabel)
+		}
 		return c.Verify([]byte(g.Payload[0]+g.Payload[1]+g.Payload[2]), sig)
 
 	} else {
-- 
2.43.0


From 9e0ab274017b772f1e285d96d13c33e5208f623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:58 +0000
Subject: [PATCH 05/53] fix: a conflict proof needs two different statements
 signed by the accused

---
 definition/Verify.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/definition/Verify.go b/definition/Verify.go
index 82baa3a..f73895f 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -24,6 +24,13 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 	rsaSig2, sigerr2 := crypto.RSASigFromString(g.Signature[1])
 	// Verify the signatures were made successfully
 	if sigerr1 == nil && sigerr2 == nil {
+		// Both statements must be made by the accused entity, and they must differ.
+		if rsaSig1.ID.String() != g.Payload[0] || rsaSig2.ID.String() != g.Payload[0] {
+			return errors.New(Mislabel)
+		}
+		if g.Payload[1] == g.Payload[2] {
+			return errors.New("The statements do not conflict")
+		}
 		err1 := c.Verify([]byte(g.Payload[1]), rsaSig1)
 		err2 := c.Verify([]byte(g.Payload[2]), rsaSig2)
 		//fmt.Print(util.YELLOW, err1, err2, util.RESET)
-- 
2.43.0


From 110280c3b535fa71b45a15ac311066ce31f7a7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:31 +0000
Subject: [PATCH 06/53] fix: CA and Logger label periods like every other
 entity (two digits, wrapping at the hour)

---
 CA/server.go          | 14 ++++----------
 Logger/buildmerkle.go |  4 ++--
 Logger/server.go      |  3 ++-
 3 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 740aea6..6ce314c 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -148,10 +148,7 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	}
 	// convert int to string
 	// add a leading 0 if the string is only 1 digit
-	if periodnum < 10 {
-		Period = "0" + strconv.Itoa(periodnum)
-	}
-	Period = strconv.Itoa(periodnum)
+	Period = fmt.Sprintf("%02d", periodnum)
 	switch c.CA_Type {
 	case 0:
 		//normal CA
@@ -407,14 +404,11 @@ func PeriodicTask(ctx *CAContext) {
 		periodnum, err := strconv.Atoi(period)
 		if err != nil {
 		}
-		// add 1 to current period
-		periodnum = periodnum + 1
+		// add 1 to current period, periods are minutes and wrap around every hour
+		periodnum = (periodnum + 1) % 60
 		// convert int to string
 		// add a leading 0 if the string is only 1 digit
-		if periodnum < 10 {
-			period = "0" + strconv.Itoa(periodnum)
-		}
-		period = strconv.Itoa(periodnum)
+		period = fmt.Sprintf("%02d", periodnum)
 		rev := Generate_Revocation(ctx, period, 0)
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
diff --git a/Logger/buildmerkle.go b/Logger/buildmerkle.go
index 42fdaf2..d9567c6 100644
--- a/Logger/buildmerkle.go
+++ b/Logger/buildmerkle.go
@@ -4,7 +4,7 @@ import (
 	"crypto/x509"
 	"encoding/hex"
 	"encoding/json"
-	"strconv"
+	"fmt"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
@@ -40,7 +40,7 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 	gossipSTH := definition.Gossip_object{
 		Application:   "CTng",
 		Type:          definition.STH_INIT,
-		Period:        strconv.Itoa(periodNum),
+		Period:        fmt.Sprintf("%02d", periodNum),
 		Signer:        string(ctx.Logger_private_config.Signer),
 		Timestamp:     STH1.Timestamp,
 		Signature:     [2]string{signature.String(), ""},
diff --git a/Logger/server.go b/Logger/server.go
index 8107fa0..fd9aecc 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -213,7 +213,8 @@ func PeriodicTask(ctx *LoggerContext) {
 		periodint, err := strconv.Atoi(period)
 		if err != nil {
 		}
-		periodint = periodint + 1
+		// periods are minutes and wrap around every hour
+		periodint = (periodint + 1) % 60
 		period = strconv.Itoa(periodint)
 		// add a leading zero if the period is less than 10
 		if periodint < 10 {
-- 
2.43.0


From 9c5a63cf3ca9593189e9300f012105dc81f7a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:40 +0000
Subject: [PATCH 07/53] fix: bind tree heads, revocations and conflict proofs
 to the period they were signed for

---
 Logger/buildmerkle.go |  2 +-
 definition/Verify.go  | 76 +++++++++++++++++++++++++++++++++++++++++--
 gossiper/gen.go       |  2 +-
 3 files changed, 75 insertions(+), 5 deletions(-)

diff --git a/Logger/buildmerkle.go b/Logger/buildmerkle.go
index d9567c6..3c67400 100644
--- a/Logger/buildmerkle.go
+++ b/Logger/buildmerkle.go
@@ -28,7 +28,7 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 	STH1 := definition.STH{
 		Signer:    string(ctx.Logger_private_config.Signer),
 		Timestamp: util.GetCurrentTimestamp(),
-		Period:    util.GetCurrentPeriod(),
+		Period:    fmt.Sprintf("%02d", (periodNum+59)%60), // the tree covers the period before the one it is issued for
 		RootHash:  hex.EncodeToString(roothash),
 		TreeSize:  len(blocks),
 	}
diff --git a/definition/Verify.go b/definition/Verify.go
index f73895f..d043d5a 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -5,6 +5,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/util"
@@ -28,11 +30,17 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 		if rsaSig1.ID.String() != g.Payload[0] || rsaSig2.ID.String() != g.Payload[0] {
 			return errors.New(Mislabel)
 		}
-		if g.Payload[1] == g.Payload[2] {
+		kind1, period1, err1 := SignedPeriod(g.Payload[0], g.Payload[1])
+		kind2, period2, err2 := SignedPeriod(g.Payload[0], g.Payload[2])
+		if err1 != nil || err2 != nil {
+			return errors.New(Mislabel)
+		}
+		// An honest entity makes one statement of each kind per period.
+		if g.Payload[1] == g.Payload[2] || kind1 != kind2 || period1 != period2 {
 			return errors.New("The statements do not conflict")
 		}
-		err1 := c.Verify([]byte(g.Payload[1]), rsaSig1)
-		err2 := c.Verify([]byte(g.Payload[2]), rsaSig2)
+		err1 = c.Verify([]byte(g.Payload[1]), rsaSig1)
+		err2 = c.Verify([]byte(g.Payload[2]), rsaSig2)
 		//fmt.Print(util.YELLOW, err1, err2, util.RESET)
 		if err1 == nil && err2 == nil {
 			return nil
@@ -105,6 +113,50 @@ func Verify_RSAPayload(g Gossip_object, c *crypto.CryptoConfig) error {
 	}
 }
 
+// SignedPeriod returns the type of the statement (STH_INIT or REV_INIT) and the period it was issued for,
+// as found in the signed content itself. The Period field of a gossip object is not covered by any signature.
+func SignedPeriod(Entity_URL string, statement string) (string, int, error) {
+	if !strings.HasPrefix(statement, Entity_URL) {
+		return "", 0, errors.New(Mislabel)
+	}
+	statement = strings.TrimPrefix(statement, Entity_URL)
+	if strings.HasPrefix(statement, "CRV") {
+		var rev Revocation
+		if err := json.Unmarshal([]byte(strings.TrimPrefix(statement, "CRV")), &rev); err != nil {
+			return "", 0, err
+		}
+		period, err := strconv.Atoi(rev.Period)
+		return REV_INIT, period, err
+	}
+	sthBytes, err := hex.DecodeString(statement)
+	if err != nil {
+		return "", 0, err
+	}
+	var sth STH
+	if err = json.Unmarshal(sthBytes, &sth); err != nil {
+		return "", 0, err
+	}
+	// a tree head is built one period before the period it is issued for
+	period, err := strconv.Atoi(sth.Period)
+	return STH_INIT, (period + 1) % 60, err
+}
+
+// verifies that the object is labeled with the period its content was signed for
+func Verify_Period(g Gossip_object) error {
+	kind, period, err := SignedPeriod(g.Payload[0], g.Payload[0]+g.Payload[1]+g.Payload[2])
+	if err != nil {
+		return errors.New(Mislabel)
+	}
+	label, err := strconv.Atoi(g.Period)
+	if err != nil || label != period {
+		return errors.New(Mislabel)
+	}
+	if (kind == STH_INIT) != (g.Type == STH_INIT || g.Type == STH_FRAG || g.Type == STH_FULL) {
+		return errors.New(Mislabel)
+	}
+	return nil
+}
+
 // Verifies Gossip object based on the type:
 // STH and Revocations use RSA
 // Trusted information Fragments use BLS SigFragments
@@ -113,22 +165,40 @@ func (g Gossip_object) Verify(c *crypto.CryptoConfig) error {
 	// If everything Verified correctly, we return nil
 	switch g.Type {
 	case STH_INIT:
+		if err := Verify_Period(g); err != nil {
+			return err
+		}
 		return Verify_RSAPayload(g, c)
 	case REV_INIT:
+		if err := Verify_Period(g); err != nil {
+			return err
+		}
 		return Verify_RSAPayload(g, c)
 	case ACC_INIT:
 		return Verify_RSAPayload(g, c)
 	case CON_INIT:
 		return Verify_CON(g, c)
 	case STH_FRAG:
+		if err := Verify_Period(g); err != nil {
+			return err
+		}
 		return Verify_PayloadFrag(g, c)
 	case REV_FRAG:
+		if err := Verify_Period(g); err != nil {
+			return err
+		}
 		return Verify_PayloadFrag(g, c)
 	case ACC_FRAG:
 		return Verify_PayloadFrag(g, c)
 	case STH_FULL:
+		if err := Verify_Period(g); err != nil {
+			return err
+		}
 		return Verify_PayloadThreshold(g, c)
 	case REV_FULL:
+		if err := Verify_Period(g); err != nil {
+			return err
+		}
 		return Verify_PayloadThreshold(g, c)
 	case ACC_FULL:
 		return Verify_PayloadThreshold(g, c)
diff --git a/gossiper/gen.go b/gossiper/gen.go
index f36674f..ea70667 100644
--- a/gossiper/gen.go
+++ b/gossiper/gen.go
@@ -69,7 +69,7 @@ func (ctx *GossiperContext) Generate_Gossip_Object_FULL(g_list []definition.Goss
 	return definition.Gossip_object{
 		Application:   definition.CTNG_APPLICATION,
 		Type:          TargetType,
-		Period:        util.GetCurrentPeriod(),
+		Period:        g_list[0].Period,
 		Signer:        "",
 		Signers:       signer_list,
 		Signature:     [2]string{sig_full_string, ""},
-- 
2.43.0


From 1b6941d41054be90edcc84347bdc2ac47690626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:47 +0000
Subject: [PATCH 08/53] fix: only valid fragments of distinct gossipers for the
 same content count towards the threshold

---
 gossiper/Interface.go       | 29 +++++++++++++++++++++++------
 gossiper/gossiper_server.go | 16 +++++++++++++++-
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index e63eb06..0480894 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -224,29 +224,46 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	return true
 }
 
+// countMatchingFragments returns the number of stored fragments for the same content as frag,
+// or -1 if the signer of frag already contributed one.
+func countMatchingFragments(fragments []definition.Gossip_object, frag definition.Gossip_object) int {
+	count := 0
+	for _, v := range fragments {
+		if v.Payload == frag.Payload {
+			if v.Signer == frag.Signer {
+				return -1
+			}
+			count++
+		}
+	}
+	return count
+}
+
+// Read_and_Store_If_Needed stores a verified fragment unless its signer already contributed or enough fragments
+// are stored. It returns the number of fragments for the same content stored before, or -1 for a duplicate.
 func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Gossip_object) int {
 	switch gossip_object.Type {
 	case definition.STH_FRAG:
 		ctx.Gossip_object_storage.STH_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.STH_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()])
-		if len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
+		before := countMatchingFragments(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object)
+		if before >= 0 && before < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object)
 		}
 		return before
 	case definition.REV_FRAG:
 		ctx.Gossip_object_storage.REV_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.REV_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()])
-		if len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
+		before := countMatchingFragments(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object)
+		if before >= 0 && before < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object)
 		}
 		return before
 	case definition.ACC_FRAG:
 		ctx.Gossip_object_storage.ACC_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.ACC_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()])
-		if len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
+		before := countMatchingFragments(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object)
+		if before >= 0 && before < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object)
 		}
 		return before
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 0f2b89c..897b865 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -342,14 +342,28 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		fmt.Println(util.BLUE, "Received a fragment for a full object.", util.RESET)
 		return
 	}
+	// an invalid fragment must not count towards the threshold
+	if err := gossip_obj.Verify(c.Gossiper_crypto_config); err != nil {
+		fmt.Println(util.RED, "Invalid fragment "+definition.TypeString(gossip_obj.Type)+" signed by "+gossip_obj.Signer+".", util.RESET)
+		return
+	}
 	itemcount := 0
 	switch gossip_obj.Type {
 	case definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG:
 		itemcount = c.Read_and_Store_If_Needed(gossip_obj)
 	}
+	if itemcount < 0 {
+		// this signer already contributed
+		return
+	}
 	//fmt.Println(itemcount)
 	if itemcount == c.Gossiper_crypto_config.Threshold-1 {
-		itemlist := c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type)
+		itemlist := []definition.Gossip_object{}
+		for _, frag := range c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type) {
+			if frag.Payload == gossip_obj.Payload {
+				itemlist = append(itemlist, frag)
+			}
+		}
 		target_type := gossip_obj.GetTargetType()
 		obj := c.Generate_Gossip_Object_FULL(itemlist, target_type)
 		fmt.Println(util.BLUE, "Generated full object: ", obj.Type, util.RESET)
-- 
2.43.0


From 9a1b69fe9d9ec9e51c9c4a1f3eeb696aa11e180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:49 +0000
Subject: [PATCH 09/53] fix: a full object reaches the monitor only if it
 verified, and only once

---
 gossiper/Interface.go       | 15 +++++++++++++++
 gossiper/gossiper_server.go |  3 +--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index 0480894..562c505 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -204,14 +204,29 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		ctx.Gossip_object_storage.ACC_FRAG_LOCK.Unlock()
 	case definition.STH_FULL:
 		ctx.Gossip_object_storage.STH_FULL_LOCK.Lock()
+		// the first full object of the period stays
+		if _, ok := ctx.Gossip_object_storage.STH_FULL[gossip_object.GetID()]; ok {
+			ctx.Gossip_object_storage.STH_FULL_LOCK.Unlock()
+			return false
+		}
 		ctx.Gossip_object_storage.STH_FULL[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.STH_FULL_LOCK.Unlock()
 	case definition.REV_FULL:
 		ctx.Gossip_object_storage.REV_FULL_LOCK.Lock()
+		// the first full object of the period stays
+		if _, ok := ctx.Gossip_object_storage.REV_FULL[gossip_object.GetID()]; ok {
+			ctx.Gossip_object_storage.REV_FULL_LOCK.Unlock()
+			return false
+		}
 		ctx.Gossip_object_storage.REV_FULL[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.REV_FULL_LOCK.Unlock()
 	case definition.ACC_FULL:
 		ctx.Gossip_object_storage.ACC_FULL_LOCK.Lock()
+		// the first full object of the period stays
+		if _, ok := ctx.Gossip_object_storage.ACC_FULL[gossip_object.GetID()]; ok {
+			ctx.Gossip_object_storage.ACC_FULL_LOCK.Unlock()
+			return false
+		}
 		ctx.Gossip_object_storage.ACC_FULL[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.ACC_FULL_LOCK.Unlock()
 		// if not in temp blacklist, add it
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 897b865..06d4a25 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -380,8 +380,7 @@ func Handle_OBJ_FULL(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		return
 	}
 	icount, _ := c.GetItemCount(gossip_obj.GetID(), gossip_obj.Type)
-	if icount == 0 {
-		c.Store(gossip_obj)
+	if icount == 0 && c.Store(gossip_obj) {
 		c.Send_to_Monitor(gossip_obj)
 	}
 	if c.IsConvergent() {
-- 
2.43.0


From 5b8f65035dacf4ebac648dfbe29b1c23c1d42ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:25 +0000
Subject: [PATCH 10/53] fix: detect conflicting objects that arrive at the same
 time

---
 gossiper/Interface.go       | 8 ++++----
 gossiper/gossiper_server.go | 8 ++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index 562c505..a3beb30 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -134,8 +134,8 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	switch gossip_object.Type {
 	case definition.STH_INIT:
 		ctx.Gossip_object_storage.STH_INIT_LOCK.Lock()
-		// if it is a duplicate, ignore it
-		if ctx.DupCheckInLock(gossip_object) {
+		// the first object of the period stays, whether this one is a duplicate or in conflict with it
+		if _, ok := ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()]; ok {
 			ctx.Gossip_object_storage.STH_INIT_LOCK.Unlock()
 			return false
 		}
@@ -147,8 +147,8 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		}
 	case definition.REV_INIT:
 		ctx.Gossip_object_storage.REV_INIT_LOCK.Lock()
-		// if it is a duplicate, ignore it
-		if ctx.DupCheckInLock(gossip_object) {
+		// the first object of the period stays, whether this one is a duplicate or in conflict with it
+		if _, ok := ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()]; ok {
 			ctx.Gossip_object_storage.REV_INIT_LOCK.Unlock()
 			return false
 		}
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 06d4a25..f796471 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -231,6 +231,10 @@ func Handle_STH_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	// if not malicious, we store the object
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		// a conflicting object may have been stored since the check above
+		if c.IsMalicious(gossip_obj) {
+			Handle_Gossip_object(c, c.Generate_CON_INIT(c.GetObject(gossip_obj.GetID(), gossip_obj.Type), gossip_obj))
+		}
 		return
 	}
 	// we send the object to the gossipers
@@ -273,6 +277,10 @@ func Handle_REV_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	// we send the object to the gossipers
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		// a conflicting object may have been stored since the check above
+		if c.IsMalicious(gossip_obj) {
+			Handle_Gossip_object(c, c.Generate_CON_INIT(c.GetObject(gossip_obj.GetID(), gossip_obj.Type), gossip_obj))
+		}
 		return
 	}
 	c.Send_to_Gossipers(gossip_obj)
-- 
2.43.0


From 55c34bdb8759ad90be9b77f738cd528c7bd65b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:22 +0000
Subject: [PATCH 11/53] fix: gossiper storage is saved and wiped under its
 locks

---
 gossiper/Interface.go       | 119 +++++++++++++++++++++++++++---------
 gossiper/gossiper_server.go |   2 +
 2 files changed, 92 insertions(+), 29 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index a3beb30..00fefe3 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -79,28 +79,52 @@ func (ctx *GossiperContext) GetREVrequested(gid definition.Gossip_ID) definition
 
 func (ctx *GossiperContext) Save() {
 	Period, _ := strconv.Atoi(util.GetCurrentPeriod())
+	storage := ctx.Gossip_object_storage
 	g_log_entry := Gossiper_log_entry{
-		Period:                 Period,
-		Converge_time:          ctx.Converge_time,
-		Converge_time_init:     ctx.Converge_time_init,
-		Total_traffic_received: ctx.Total_traffic_received,
-		Total_traffic_sent:     ctx.Total_traffic_sent,
-		NUM_STH_INIT:           len(ctx.Gossip_object_storage.STH_INIT),
-		NUM_REV_INIT:           len(ctx.Gossip_object_storage.REV_INIT),
-		NUM_ACC_INIT:           len(ctx.Gossip_object_storage.ACC_INIT),
-		NUM_CON_INIT:           len(ctx.Gossip_object_storage.CON_INIT),
-		NUM_STH_FRAG:           0,
-		NUM_REV_FRAG:           0,
-		NUM_ACC_FRAG:           0,
-		NUM_STH_FULL:           len(ctx.Gossip_object_storage.STH_FULL),
-		NUM_REV_FULL:           len(ctx.Gossip_object_storage.REV_FULL),
-		NUM_ACC_FULL:           len(ctx.Gossip_object_storage.ACC_FULL),
-		NUM_BLACKLIST_PERM:     len(ctx.Gossip_blacklist.BLACKLIST_PERM),
-		Timerlist:              ctx.Timerlist,
+		Period: Period,
 	}
-	g_log_entry.NUM_STH_FRAG = countFragments(ctx.Gossip_object_storage.STH_FRAG)
-	g_log_entry.NUM_REV_FRAG = countFragments(ctx.Gossip_object_storage.REV_FRAG)
-	g_log_entry.NUM_ACC_FRAG = countFragments(ctx.Gossip_object_storage.ACC_FRAG)
+	ctx.Counter1_lock.Lock()
+	g_log_entry.Converge_time = ctx.Converge_time
+	g_log_entry.Converge_time_init = ctx.Converge_time_init
+	g_log_entry.Total_traffic_received = ctx.Total_traffic_received
+	g_log_entry.Timerlist = append([]float64(nil), ctx.Timerlist...)
+	ctx.Counter1_lock.Unlock()
+	ctx.Counter2_lock.Lock()
+	g_log_entry.Total_traffic_sent = ctx.Total_traffic_sent
+	ctx.Counter2_lock.Unlock()
+	storage.STH_INIT_LOCK.RLock()
+	g_log_entry.NUM_STH_INIT = len(storage.STH_INIT)
+	storage.STH_INIT_LOCK.RUnlock()
+	storage.REV_INIT_LOCK.RLock()
+	g_log_entry.NUM_REV_INIT = len(storage.REV_INIT)
+	storage.REV_INIT_LOCK.RUnlock()
+	storage.ACC_INIT_LOCK.RLock()
+	g_log_entry.NUM_ACC_INIT = len(storage.ACC_INIT)
+	storage.ACC_INIT_LOCK.RUnlock()
+	storage.CON_INIT_LOCK.RLock()
+	g_log_entry.NUM_CON_INIT = len(storage.CON_INIT)
+	storage.CON_INIT_LOCK.RUnlock()
+	storage.STH_FRAG_LOCK.RLock()
+	g_log_entry.NUM_STH_FRAG = countFragments(storage.STH_FRAG)
+	storage.STH_FRAG_LOCK.RUnlock()
+	storage.REV_FRAG_LOCK.RLock()
+	g_log_entry.NUM_REV_FRAG = countFragments(storage.REV_FRAG)
+	storage.REV_FRAG_LOCK.RUnlock()
+	storage.ACC_FRAG_LOCK.RLock()
+	g_log_entry.NUM_ACC_FRAG = countFragments(storage.ACC_FRAG)
+	storage.ACC_FRAG_LOCK.RUnlock()
+	storage.STH_FULL_LOCK.RLock()
+	g_log_entry.NUM_STH_FULL = len(storage.STH_FULL)
+	storage.STH_FULL_LOCK.RUnlock()
+	storage.REV_FULL_LOCK.RLock()
+	g_log_entry.NUM_REV_FULL = len(storage.REV_FULL)
+	storage.REV_FULL_LOCK.RUnlock()
+	storage.ACC_FULL_LOCK.RLock()
+	g_log_entry.NUM_ACC_FULL = len(storage.ACC_FULL)
+	storage.ACC_FULL_LOCK.RUnlock()
+	ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.RLock()
+	g_log_entry.NUM_BLACKLIST_PERM = len(ctx.Gossip_blacklist.BLACKLIST_PERM)
+	ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.RUnlock()
 
 	// if not all entries are zero, log it
 	if g_log_entry.NUM_STH_INIT != 0 || g_log_entry.NUM_REV_INIT != 0 || g_log_entry.NUM_ACC_INIT != 0 || g_log_entry.NUM_CON_INIT != 0 ||
@@ -130,7 +154,9 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	}
 	clock := util.GetCurrentSecond()
 	clock_float, _ := strconv.ParseFloat(clock, 64)
+	ctx.Counter1_lock.Lock()
 	ctx.Timerlist = append(ctx.Timerlist, clock_float)
+	ctx.Counter1_lock.Unlock()
 	switch gossip_object.Type {
 	case definition.STH_INIT:
 		ctx.Gossip_object_storage.STH_INIT_LOCK.Lock()
@@ -142,8 +168,10 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.STH_INIT_LOCK.Unlock()
 		if ctx.IsInitConvergent() {
+			ctx.Counter1_lock.Lock()
 			ctx.Converge_time_init = util.GetCurrentSecond()
 			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
+			ctx.Counter1_lock.Unlock()
 		}
 	case definition.REV_INIT:
 		ctx.Gossip_object_storage.REV_INIT_LOCK.Lock()
@@ -155,8 +183,10 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.REV_INIT_LOCK.Unlock()
 		if ctx.IsInitConvergent() {
+			ctx.Counter1_lock.Lock()
 			ctx.Converge_time_init = util.GetCurrentSecond()
 			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
+			ctx.Counter1_lock.Unlock()
 		}
 	case definition.ACC_INIT:
 		ctx.Gossip_object_storage.ACC_INIT_LOCK.Lock()
@@ -168,8 +198,10 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		ctx.Gossip_object_storage.ACC_INIT[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.ACC_INIT_LOCK.Unlock()
 		if ctx.IsInitConvergent() {
+			ctx.Counter1_lock.Lock()
 			ctx.Converge_time_init = util.GetCurrentSecond()
 			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
+			ctx.Counter1_lock.Unlock()
 		}
 	case definition.CON_INIT:
 		ctx.Gossip_object_storage.CON_INIT_LOCK.Lock()
@@ -187,8 +219,10 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 			ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.Unlock()
 		}
 		if ctx.IsInitConvergent() {
+			ctx.Counter1_lock.Lock()
 			ctx.Converge_time_init = util.GetCurrentSecond()
 			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
+			ctx.Counter1_lock.Unlock()
 		}
 	case definition.STH_FRAG:
 		ctx.Gossip_object_storage.STH_FRAG_LOCK.Lock()
@@ -616,6 +650,8 @@ func (ctx *GossiperContext) IsConvergent() bool {
 	defer ctx.Gossip_object_storage.STH_FULL_LOCK.RUnlock()
 	ctx.Gossip_object_storage.ACC_FULL_LOCK.RLock()
 	defer ctx.Gossip_object_storage.ACC_FULL_LOCK.RUnlock()
+	ctx.Gossip_object_storage.CON_INIT_LOCK.RLock()
+	defer ctx.Gossip_object_storage.CON_INIT_LOCK.RUnlock()
 	count1 := len(ctx.Gossip_object_storage.REV_FULL)
 	count2 := len(ctx.Gossip_object_storage.STH_FULL)
 	count3 := len(ctx.Gossip_object_storage.ACC_FULL)
@@ -659,15 +695,40 @@ func (ctx *GossiperContext) IsMalicious(obj definition.Gossip_object) bool {
 }
 
 func (ctx *GossiperContext) WipeStorage() {
-	// clear all storage
-	CON_INIT := ctx.Gossip_object_storage.CON_INIT
-	*ctx.Gossip_object_storage = *InitializeGossipObjectStorage()
-	ctx.Gossip_object_storage.CON_INIT = CON_INIT
-	// clear all temperary blacklist
-	Blacklistperm := ctx.Gossip_blacklist.BLACKLIST_PERM
-	*ctx.Gossip_blacklist = *InitializeGossipBlacklist()
-	ctx.Gossip_blacklist.BLACKLIST_PERM = Blacklistperm
-	// clear all PoM counter and gossiper log
+	// clear all storage except for CON_INIT and the permanent blacklist
+	// the locks stay in place, other goroutines may be holding them
+	storage := ctx.Gossip_object_storage
+	empty := InitializeGossipObjectStorage()
+	storage.STH_INIT_LOCK.Lock()
+	storage.STH_INIT = empty.STH_INIT
+	storage.STH_INIT_LOCK.Unlock()
+	storage.REV_INIT_LOCK.Lock()
+	storage.REV_INIT = empty.REV_INIT
+	storage.REV_INIT_LOCK.Unlock()
+	storage.ACC_INIT_LOCK.Lock()
+	storage.ACC_INIT = empty.ACC_INIT
+	storage.ACC_INIT_LOCK.Unlock()
+	storage.STH_FRAG_LOCK.Lock()
+	storage.STH_FRAG = empty.STH_FRAG
+	storage.STH_FRAG_LOCK.Unlock()
+	storage.REV_FRAG_LOCK.Lock()
+	storage.REV_FRAG = empty.REV_FRAG
+	storage.REV_FRAG_LOCK.Unlock()
+	storage.ACC_FRAG_LOCK.Lock()
+	storage.ACC_FRAG = empty.ACC_FRAG
+	storage.ACC_FRAG_LOCK.Unlock()
+	storage.STH_FULL_LOCK.Lock()
+	storage.STH_FULL = empty.STH_FULL
+	storage.STH_FULL_LOCK.Unlock()
+	storage.REV_FULL_LOCK.Lock()
+	storage.REV_FULL = empty.REV_FULL
+	storage.REV_FULL_LOCK.Unlock()
+	storage.ACC_FULL_LOCK.Lock()
+	storage.ACC_FULL = empty.ACC_FULL
+	storage.ACC_FULL_LOCK.Unlock()
+	storage.REV_PAYLOAD_LOCK.Lock()
+	storage.REV_PAYLOAD = empty.REV_PAYLOAD
+	storage.REV_PAYLOAD_LOCK.Unlock()
 }
 
 func (ctx *GossiperContext) CleanUpGossiperStorage() {
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index f796471..c3cf87b 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -392,8 +392,10 @@ func Handle_OBJ_FULL(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		c.Send_to_Monitor(gossip_obj)
 	}
 	if c.IsConvergent() {
+		c.Counter1_lock.Lock()
 		c.Converge_time = util.GetCurrentSecond()
 		fmt.Println(util.BLUE, "Converge time: ", c.Converge_time, util.RESET)
+		c.Counter1_lock.Unlock()
 	}
 
 	return
-- 
2.43.0


From 70cc9fb876ad64df7e7dc6d98acdf4be71398b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:15 +0000
Subject: [PATCH 12/53] fix: the monitor verifies what it is sent before
 storing it

---
 monitor/monitor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 2b56a0e..8ce7200 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -46,6 +46,13 @@ func handle_gossip_from_gossiper(c *MonitorContext, w http.ResponseWriter, r *ht
 	r.Body.Close()
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
+	}
+	// Nothing is accepted on the word of the sender alone.
+	if err = gossip_obj.Verify(c.Monitor_crypto_config); err != nil {
+		fmt.Println(util.RED+"received invalid object from gossiper: "+err.Error(), util.RESET)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	if c.IsDuplicate(gossip_obj) {
 		// If the object is already stored, still return OK.{
-- 
2.43.0


From cb5b016f2d7a415eb995f21128ed65f1f0fa3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:16 +0000
Subject: [PATCH 13/53] fix: the monitor finds conflict PoMs of any period

---
 monitor/monitor.go |  7 +------
 monitor/types.go   | 28 +++++++++++++++-------------
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 8ce7200..a6f95ac 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -387,12 +387,7 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
-	GID2 := definition.Gossip_ID{
-		Period:     "0",
-		Type:       definition.CON_INIT,
-		Entity_URL: Accused,
-	}
-	if _, ok := (*c.Storage_CONFLICT_POM)[GID2]; ok {
+	if c.HasConflictPoM(Accused) {
 		fmt.Println(util.BLUE + "Entity has Conflict_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
diff --git a/monitor/types.go b/monitor/types.go
index 8c537a1..380f93a 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -85,26 +85,28 @@ func (c *MonitorContext) GetObjectNumber(objtype string) int {
 	}
 	return 0
 }
+
+// HasConflictPoM tells whether there is a conflict PoM on file against the entity, in whichever period it was found
+func (c *MonitorContext) HasConflictPoM(Entity_URL string) bool {
+	c.CONFLICT_POM_lock.RLock()
+	defer c.CONFLICT_POM_lock.RUnlock()
+	for key := range *c.Storage_CONFLICT_POM {
+		if key.Entity_URL == Entity_URL {
+			return true
+		}
+	}
+	return false
+}
+
 func (c *MonitorContext) Clean_Conflicting_Object() {
-	GID := definition.Gossip_ID{}
 	for key := range *c.Storage_STH_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
 	for key := range *c.Storage_REV_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
 			delete(*c.Storage_REV_FULL, key)
 		}
-- 
2.43.0


From 10bf3e4cb1d636e746f97e8546dae6e41fed90da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 14/53] fix: monitor storage is accessed under its locks

---
 monitor/monitor.go | 19 ++++++++++++++++++-
 monitor/types.go   | 36 ++++++++++++++++++++++++++++++------
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index a6f95ac..7a80947 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -330,14 +330,18 @@ func Wait_then_accuse(c *MonitorContext, Accused string, Entity_type string) {
 				Type:       definition.STH_INIT,
 				Entity_URL: Accused,
 			}
+			c.TEMP_lock.RLock()
 			_, ok = (*c.Storage_TEMP)[GID]
+			c.TEMP_lock.RUnlock()
 		} else if Entity_type == "ca" {
 			GID = definition.Gossip_ID{
 				Period:     util.GetCurrentPeriod(),
 				Type:       definition.REV_INIT,
 				Entity_URL: Accused,
 			}
+			c.TEMP_lock.RLock()
 			_, ok = (*c.Storage_TEMP)[GID]
+			c.TEMP_lock.RUnlock()
 		}
 		if Check_entity_pom(c, Accused) == false && !ok {
 			AccuseEntity(c, Accused)
@@ -383,7 +387,10 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		Type:       definition.ACC_FULL,
 		Entity_URL: Accused,
 	}
-	if _, ok := (*c.Storage_ACCUSATION_POM)[GID]; ok {
+	c.ACCUSATION_POM_lock.RLock()
+	_, ok := (*c.Storage_ACCUSATION_POM)[GID]
+	c.ACCUSATION_POM_lock.RUnlock()
+	if ok {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
@@ -417,18 +424,26 @@ func GenerateUpdate(c *MonitorContext) ClientUpdate {
 	storageList_rev_full := []definition.Gossip_object{}
 	storageList_pom_con := []definition.Gossip_object{}
 	storageList_pom_acc := []definition.Gossip_object{}
+	c.STH_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_STH_FULL {
 		storageList_sth_full = append(storageList_sth_full, gossipObject)
 	}
+	c.STH_FULL_lock.RUnlock()
+	c.REV_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_REV_FULL {
 		storageList_rev_full = append(storageList_rev_full, gossipObject)
 	}
+	c.REV_FULL_lock.RUnlock()
+	c.CONFLICT_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
 		storageList_pom_con = append(storageList_pom_con, gossipObject)
 	}
+	c.CONFLICT_POM_lock.RUnlock()
+	c.ACCUSATION_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_ACCUSATION_POM_DELTA {
 		storageList_pom_acc = append(storageList_pom_acc, gossipObject)
 	}
+	c.ACCUSATION_POM_lock.RUnlock()
 	CTupdate := ClientUpdate{
 		STHs:      storageList_sth_full,
 		REVs:      storageList_rev_full,
@@ -494,6 +509,8 @@ func Process_valid_object(c *MonitorContext, g definition.Gossip_object) {
 
 func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
 	// find the corresponding CRV
+	ctx.CRV_lock.Lock()
+	defer ctx.CRV_lock.Unlock()
 	CRV_old := ctx.Storage_CRV[CAID]
 	if CRV_old == nil {
 		CRV_old = dCRV
diff --git a/monitor/types.go b/monitor/types.go
index 380f93a..7a8f8c5 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -75,12 +75,20 @@ type Monitor_public_config struct {
 func (c *MonitorContext) GetObjectNumber(objtype string) int {
 	switch objtype {
 	case definition.CON_INIT:
+		c.CONFLICT_POM_lock.RLock()
+		defer c.CONFLICT_POM_lock.RUnlock()
 		return len(*c.Storage_CONFLICT_POM)
 	case definition.ACC_FULL:
+		c.ACCUSATION_POM_lock.RLock()
+		defer c.ACCUSATION_POM_lock.RUnlock()
 		return len(*c.Storage_ACCUSATION_POM)
 	case definition.STH_FULL:
+		c.STH_FULL_lock.RLock()
+		defer c.STH_FULL_lock.RUnlock()
 		return len(*c.Storage_STH_FULL)
 	case definition.REV_FULL:
+		c.REV_FULL_lock.RLock()
+		defer c.REV_FULL_lock.RUnlock()
 		return len(*c.Storage_REV_FULL)
 	}
 	return 0
@@ -99,18 +107,22 @@ func (c *MonitorContext) HasConflictPoM(Entity_URL string) bool {
 }
 
 func (c *MonitorContext) Clean_Conflicting_Object() {
+	c.STH_FULL_lock.Lock()
 	for key := range *c.Storage_STH_FULL {
 		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
 	for key := range *c.Storage_REV_FULL {
 		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Unlock()
 }
 
 func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
@@ -123,11 +135,13 @@ func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
 	util.WriteData(clientUpdate_path, update)
 	//save CRV
 	var crvstorage = make(map[string][]byte)
+	c.CRV_lock.Lock()
 	for key, value := range c.Storage_CRV {
 		crvbin, _ := value.MarshalBinary()
 		crvstorage[key], _ = util.CompressData(crvbin)
 		//crvstorage[key], _ = value.MarshalBinary()
 	}
+	c.CRV_lock.Unlock()
 	util.WriteData(c.StorageFile_CRV, crvstorage)
 	fmt.Println(util.BLUE, "File Storage Complete for Period: ", util.GetCurrentPeriod(), util.RESET)
 	return nil
@@ -221,15 +235,15 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 	case definition.CON_INIT:
 		c.CONFLICT_POM_lock.Lock()
 		(*c.Storage_CONFLICT_POM)[o.GetID()] = o
-		c.CONFLICT_POM_lock.Unlock()
 		(*c.Storage_CONFLICT_POM_DELTA)[o.GetID()] = o
+		c.CONFLICT_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "CONFLICT_POM Stored", util.RESET)
 	case definition.ACC_FULL:
 		//ACCUSATION POM does not need to be stored, but this function is here for testing purposes
 		c.ACCUSATION_POM_lock.Lock()
 		(*c.Storage_ACCUSATION_POM)[o.GetID()] = o
-		c.ACCUSATION_POM_lock.Unlock()
 		(*c.Storage_ACCUSATION_POM_DELTA)[o.GetID()] = o
+		c.ACCUSATION_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "ACCUSATION_POM Stored", util.RESET)
 	case definition.STH_FULL:
 		c.STH_FULL_lock.Lock()
@@ -251,50 +265,60 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 		//Update CRV
 		// look for CRV first
 		f := func() {
+			c.CRV_lock.Lock()
+			defer c.CRV_lock.Unlock()
 			if _, ok := c.Storage_CRV[key]; !ok {
-				c.CRV_lock.Lock()
 				c.Storage_CRV[key] = &DCRV
-				c.CRV_lock.Unlock()
 			} else {
-				c.CRV_lock.Lock()
 				c.Storage_CRV[key].Union(&DCRV)
-				c.CRV_lock.Unlock()
 			}
 		}
 		time.AfterFunc(20*time.Second, f)
 		fmt.Println(util.BLUE, "REV_FULL Stored", util.RESET)
 	default:
+		c.TEMP_lock.Lock()
 		(*c.Storage_TEMP)[o.GetID()] = o
+		c.TEMP_lock.Unlock()
 	}
 
 }
 
 // wipe all temp data
 func (c *MonitorContext) WipeStorage() {
+	c.TEMP_lock.Lock()
 	for key := range *c.Storage_TEMP {
 		delete(*c.Storage_TEMP, key)
 	}
+	c.TEMP_lock.Unlock()
 	// we can clear All STH and REV storage, because we will write them to file at the end of the period
+	c.STH_FULL_lock.Lock()
 	for key := range *c.Storage_STH_FULL {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
 	for key := range *c.Storage_REV_FULL {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Unlock()
+	c.CONFLICT_POM_lock.Lock()
 	for key := range *c.Storage_CONFLICT_POM_DELTA {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_CONFLICT_POM_DELTA, key)
 		}
 	}
+	c.CONFLICT_POM_lock.Unlock()
+	c.ACCUSATION_POM_lock.Lock()
 	for key := range *c.Storage_ACCUSATION_POM_DELTA {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_ACCUSATION_POM_DELTA, key)
 		}
 	}
+	c.ACCUSATION_POM_lock.Unlock()
 	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
 }
 
-- 
2.43.0


From 0407f1fb544ef4003cac0563ba6a4d97f29bf4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:07 +0000
Subject: [PATCH 15/53] fix: a request for an update the monitor does not have
 is answered, not a nil dereference

---
 monitor/client-update-monitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monitor/client-update-monitor.go b/monitor/client-update-monitor.go
index 30fe80d..266da1d 100644
--- a/monitor/client-update-monitor.go
+++ b/monitor/client-update-monitor.go
@@ -45,10 +45,15 @@ func requestupdate(c *MonitorContext, w http.ResponseWriter, r *http.Request) {
 	err := json.NewDecoder(r.Body).Decode(&periodnum)
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//get the file path
 	filepath := c.StorageDirectory + "/Period_" + periodnum + "/ClientUpdate.json"
-	ctupdate, _ := PrepareClientUpdate(c, filepath)
+	ctupdate, err := PrepareClientUpdate(c, filepath)
+	if err != nil {
+		http.Error(w, "No update for this period.", http.StatusNotFound)
+		return
+	}
 	fmt.Println(ctupdate.Period)
 	msg, _ := json.Marshal(ctupdate)
 	json.NewEncoder(w).Encode(msg)
-- 
2.43.0


From d1739b5d70314523dee62ce9e16122b536253b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:07 +0000
Subject: [PATCH 16/53] fix: only a current statement of the queried entity
 answers a monitor's query

---
 monitor/monitor.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 7a80947..a859996 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -3,6 +3,7 @@ package monitor
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"log"
@@ -138,6 +139,14 @@ func QueryLoggers(c *MonitorContext) {
 
 }*/
 
+// VerifyResponse checks that the answer to a query is a valid statement of the queried entity for the current period
+func (c *MonitorContext) VerifyResponse(g definition.Gossip_object, expectedType string, Entity_URL string) error {
+	if g.Type != expectedType || g.Signer != Entity_URL || g.Period != util.GetCurrentPeriod() {
+		return errors.New(definition.Mislabel)
+	}
+	return g.Verify(c.Monitor_crypto_config)
+}
+
 func QueryLoggers(c *MonitorContext) {
 	for _, logger := range c.Monitor_private_config.Logger_URLs {
 		if Check_entity_pom(c, logger) {
@@ -164,7 +173,7 @@ func QueryLoggers(c *MonitorContext) {
 						log.Println(util.RED+err2.Error(), util.RESET)
 						Wait_then_accuse(c, loggerURL, "logger")
 					} else {
-						err3 := STH.Verify(c.Monitor_crypto_config)
+						err3 := c.VerifyResponse(STH, definition.STH_INIT, loggerURL)
 						if err3 != nil {
 							log.Println(util.RED+"STH signature verification failed"+err3.Error(), util.RESET)
 							Wait_then_accuse(c, loggerURL, "logger")
@@ -269,7 +278,7 @@ func QueryAuthorities(c *MonitorContext) {
 					return
 				}
 
-				err4 := REV.Verify(c.Monitor_crypto_config)
+				err4 := c.VerifyResponse(REV, definition.REV_INIT, CAURL)
 				if err4 != nil {
 					log.Println(util.RED+"Revocation information signature verification failed", err4.Error(), util.RESET)
 					Wait_then_accuse(c, CAURL, "ca")
-- 
2.43.0


From d84aa7f3bf3aba49a393aac7c399b340641e358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:36 +0000
Subject: [PATCH 17/53] fix: every PoM reaches a client update, also one
 received after the update of its period was made

---
 monitor/monitor.go |  1 +
 monitor/types.go   | 18 +++++++++---------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index a859996..3149404 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -491,6 +491,7 @@ func PeriodicTasks(c *MonitorContext) {
 		offsetint, _ := strconv.Atoi(c.Period_Offset)
 		PeriodIO := strconv.Itoa(current - offsetint)
 		c.SaveStorage(PeriodIO, update)
+		c.WipeDelta(update)
 	}
 	time.AfterFunc(time.Duration(c.Monitor_public_config.MMD-20)*time.Second, f1)
 }
diff --git a/monitor/types.go b/monitor/types.go
index 7a8f8c5..bf80b7c 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -305,21 +305,21 @@ func (c *MonitorContext) WipeStorage() {
 		}
 	}
 	c.REV_FULL_lock.Unlock()
+	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
+}
+
+// a PoM leaves the delta once it has been published, however late in its period it came in
+func (c *MonitorContext) WipeDelta(update ClientUpdate) {
 	c.CONFLICT_POM_lock.Lock()
-	for key := range *c.Storage_CONFLICT_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_CONFLICT_POM_DELTA, key)
-		}
+	for _, pom := range update.POM_CONs {
+		delete(*c.Storage_CONFLICT_POM_DELTA, pom.GetID())
 	}
 	c.CONFLICT_POM_lock.Unlock()
 	c.ACCUSATION_POM_lock.Lock()
-	for key := range *c.Storage_ACCUSATION_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_ACCUSATION_POM_DELTA, key)
-		}
+	for _, pom := range update.POM_ACCs {
+		delete(*c.Storage_ACCUSATION_POM_DELTA, pom.GetID())
 	}
 	c.ACCUSATION_POM_lock.Unlock()
-	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
 }
 
 func (c *MonitorContext) InitializeMonitorStorage(filepath string) {
-- 
2.43.0


From bbe126fbb65c4d67ef937331169b8fb0be25e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:02 +0000
Subject: [PATCH 18/53] fix: revocations of every period accumulate at the CA,
 the monitor and the client

Union returns a new set, so the second and later deltas were dropped; the CA's
previous vector was an alias of its current one, so it never produced a second
delta; and the SRH, which covers the vector after the update, was checked
against the one before it and for any signer.
---
 CA/CRV.go          |  3 +++
 CA/server.go       |  2 +-
 client/client.go   | 16 +++++++++++-----
 monitor/monitor.go | 18 ++++++++++++------
 monitor/types.go   |  2 +-
 5 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/CA/CRV.go b/CA/CRV.go
index 2c15353..aff31ec 100644
--- a/CA/CRV.go
+++ b/CA/CRV.go
@@ -114,6 +114,9 @@ func Generate_Revocation(c *CAContext, Period string, REV_type int) definition.G
 		if err != nil {
 			panic(err)
 		}
+		// the fake SRH covers the CRV this delta leads to
+		hashmsg, _ = c.CRV.CRV_current.Union(&m2).MarshalBinary()
+		hash, _ = crypto.GenerateSHA256(hashmsg)
 	}
 	hash_delta, _ := crypto.GenerateSHA256(hashmsgdelta)
 	// hash Period||hash CRVcurrent||hash delta CRV
diff --git a/CA/server.go b/CA/server.go
index 6ce314c..5eb810b 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -413,7 +413,7 @@ func PeriodicTask(ctx *CAContext) {
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
-		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current
+		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
 		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
diff --git a/client/client.go b/client/client.go
index f8054fa..6d39d32 100644
--- a/client/client.go
+++ b/client/client.go
@@ -100,12 +100,13 @@ func fetch(url string) ([]byte, error) {
 
 func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
 	// find the corresponding CRV
-	CRV_old := ctx.CRV_database[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	// the SRH covers the CRV after the update
+	CRV_new := dCRV
+	if CRV_old := ctx.CRV_database[CAID]; CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
 	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
 	hash1, _ := crypto.GenerateSHA256(hashmsg1)
 	hash2, _ := crypto.GenerateSHA256(hashmsg2)
@@ -116,6 +117,11 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 	rsasig, err := crypto.RSASigFromString(srh)
 	if err != nil {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
+	}
+	if rsasig.ID.String() != CAID {
+		fmt.Println("The SRH is signed by another entity")
+		return false
 	}
 	ca_publickey := ctx.Crypto.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
@@ -150,7 +156,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		if _, ok := ctx.CRV_database[key]; !ok {
 			ctx.CRV_database[key] = &DCRV
 		} else {
-			ctx.CRV_database[key].Union(&DCRV)
+			ctx.CRV_database[key].InPlaceUnion(&DCRV)
 		}
 	}
 	ctx.CRV_DB_RWLock.Unlock()
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 3149404..313a66f 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -521,22 +521,28 @@ func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID strin
 	// find the corresponding CRV
 	ctx.CRV_lock.Lock()
 	defer ctx.CRV_lock.Unlock()
-	CRV_old := ctx.Storage_CRV[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	// the SRH covers the CRV after the update
+	CRV_new := dCRV
+	if CRV_old := ctx.Storage_CRV[CAID]; CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
 	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
-	hash_old, _ := crypto.GenerateSHA256(hashmsg1)
+	hash_new, _ := crypto.GenerateSHA256(hashmsg1)
 	hash_delta, _ := crypto.GenerateSHA256(hashmsg2)
 
-	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_old) + string(hash_delta)))
+	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_new) + string(hash_delta)))
 	// the localhash will be te message we used to verify the Signature on the SRH
 	// verify the signature
 	rsasig, err := crypto.RSASigFromString(srh)
 	if err != nil {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
+	}
+	if rsasig.ID.String() != CAID {
+		fmt.Println("The SRH is signed by another entity")
+		return false
 	}
 	ca_publickey := ctx.Monitor_crypto_config.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
diff --git a/monitor/types.go b/monitor/types.go
index bf80b7c..4a76230 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -270,7 +270,7 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 			if _, ok := c.Storage_CRV[key]; !ok {
 				c.Storage_CRV[key] = &DCRV
 			} else {
-				c.Storage_CRV[key].Union(&DCRV)
+				c.Storage_CRV[key].InPlaceUnion(&DCRV)
 			}
 		}
 		time.AfterFunc(20*time.Second, f)
-- 
2.43.0


From b7e06e09519bb26c28835b585b09f3ecf6094e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:58 +0000
Subject: [PATCH 19/53] fix: a restarted client remembers the PoMs it has seen

---
 client/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/types.go b/client/types.go
index f16cb50..d4112c3 100644
--- a/client/types.go
+++ b/client/types.go
@@ -131,5 +131,6 @@ func (ctx *ClientContext) InitializeClientContext() {
 	if ctx.Status != "NEW" {
 		LoadSTHDatabase(ctx)
 		LoadCRVDatabase(ctx)
+		LoadPoMdatabase(ctx)
 	}
 }
-- 
2.43.0


From 492267f279999bae640abfa7a0b98bdac7628848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:58 +0000
Subject: [PATCH 20/53] fix: the client applies all of an update or nothing,
 and never returns holding a lock

---
 client/client.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/client/client.go b/client/client.go
index 6d39d32..22f7c05 100644
--- a/client/client.go
+++ b/client/client.go
@@ -133,8 +133,26 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 	return true
 }
 
-func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool, newmonitor bool) bool {
+// HandleUpdate applies the update, or nothing of it if any part of it is not valid
+func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool, newmonitor bool) (accepted bool) {
 	ctx.CRV_DB_RWLock.Lock()
+	defer ctx.CRV_DB_RWLock.Unlock()
+	ctx.STH_DB_RWLock.Lock()
+	defer ctx.STH_DB_RWLock.Unlock()
+	ctx.POM_DB_RWLock.Lock()
+	defer ctx.POM_DB_RWLock.Unlock()
+	CRV_previous := ctx.CRV_database
+	ctx.CRV_database = make(map[string]*bitset.BitSet)
+	for key, crv := range CRV_previous {
+		ctx.CRV_database[key] = crv
+	}
+	defer func() {
+		if !accepted {
+			ctx.CRV_database = CRV_previous
+		}
+	}()
+	STH_new := make(map[string]string)
+	POM_new := make(map[string]definition.Gossip_object)
 	for _, rev := range update.REVs {
 		if verify {
 			err := rev.Verify(ctx.Crypto)
@@ -156,11 +174,9 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		if _, ok := ctx.CRV_database[key]; !ok {
 			ctx.CRV_database[key] = &DCRV
 		} else {
-			ctx.CRV_database[key].InPlaceUnion(&DCRV)
+			ctx.CRV_database[key] = ctx.CRV_database[key].Union(&DCRV)
 		}
 	}
-	ctx.CRV_DB_RWLock.Unlock()
-	ctx.STH_DB_RWLock.Lock()
 	for _, sth := range update.STHs {
 		if verify {
 			err := sth.Verify(ctx.Crypto)
@@ -181,10 +197,8 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		//verify STH_FULL
 		//Update STH
 		// look for STH first
-		ctx.STH_database[key] = newrecord
+		STH_new[key] = newrecord
 	}
-	ctx.STH_DB_RWLock.Unlock()
-	ctx.POM_DB_RWLock.Lock()
 	for _, pom := range update.POM_ACCs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
@@ -195,7 +209,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		}
 		//Update POM
 		key := pom.Payload[0]
-		ctx.POM_database[key] = pom
+		POM_new[key] = pom
 	}
 	for _, pom := range update.POM_CONs {
 		if verify {
@@ -207,9 +221,14 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		}
 		//Update POM
 		key := pom.Payload[0]
+		POM_new[key] = pom
+	}
+	for key, record := range STH_new {
+		ctx.STH_database[key] = record
+	}
+	for key, pom := range POM_new {
 		ctx.POM_database[key] = pom
 	}
-	ctx.POM_DB_RWLock.Unlock()
 	return true
 }
 
-- 
2.43.0


From d94a804be7ab5b3dde8d8b651377244d04cdccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:58 +0000
Subject: [PATCH 21/53] fix: each part of a client update must hold objects of
 its own type

---
 client/client.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/client/client.go b/client/client.go
index 22f7c05..048fb17 100644
--- a/client/client.go
+++ b/client/client.go
@@ -5,6 +5,7 @@ import (
 	"crypto/x509"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -133,6 +134,15 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 	return true
 }
 
+// verifyAs checks that the object is a valid one of the given type: only threshold signed
+// objects and conflict PoMs are proof of what they say
+func verifyAs(g definition.Gossip_object, expectedType string, c *crypto.CryptoConfig) error {
+	if g.Type != expectedType {
+		return errors.New(definition.Mislabel)
+	}
+	return g.Verify(c)
+}
+
 // HandleUpdate applies the update, or nothing of it if any part of it is not valid
 func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool, newmonitor bool) (accepted bool) {
 	ctx.CRV_DB_RWLock.Lock()
@@ -155,7 +165,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	POM_new := make(map[string]definition.Gossip_object)
 	for _, rev := range update.REVs {
 		if verify {
-			err := rev.Verify(ctx.Crypto)
+			err := verifyAs(rev, definition.REV_FULL, ctx.Crypto)
 			if err != nil {
 				fmt.Println("REV verification failed")
 				return false
@@ -179,7 +189,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	}
 	for _, sth := range update.STHs {
 		if verify {
-			err := sth.Verify(ctx.Crypto)
+			err := verifyAs(sth, definition.STH_FULL, ctx.Crypto)
 			if err != nil {
 				fmt.Println("sth verification failed")
 				return false
@@ -201,7 +211,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	}
 	for _, pom := range update.POM_ACCs {
 		if verify {
-			err := pom.Verify(ctx.Crypto)
+			err := verifyAs(pom, definition.ACC_FULL, ctx.Crypto)
 			if err != nil {
 				fmt.Println("pom verification failed")
 				return false
@@ -213,7 +223,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	}
 	for _, pom := range update.POM_CONs {
 		if verify {
-			err := pom.Verify(ctx.Crypto)
+			err := verifyAs(pom, definition.CON_INIT, ctx.Crypto)
 			if err != nil {
 				fmt.Println("pom verification failed")
 				return false
-- 
2.43.0


From 09a2b2d0103d69d4995885a5231582ace93f72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:14 +0000
Subject: [PATCH 22/53] fix: certificate checks read the client's databases
 under their locks, and need the issuer's revocation vector

A certificate of an issuer without revocation information was a nil dereference. The blacklist is looked up by the signed name of the logger.
---
 client/client.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 048fb17..85f539b 100644
--- a/client/client.go
+++ b/client/client.go
@@ -243,6 +243,12 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 }
 
 func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
+	ctx.CRV_DB_RWLock.RLock()
+	defer ctx.CRV_DB_RWLock.RUnlock()
+	ctx.STH_DB_RWLock.RLock()
+	defer ctx.STH_DB_RWLock.RUnlock()
+	ctx.POM_DB_RWLock.RLock()
+	defer ctx.POM_DB_RWLock.RUnlock()
 	var CTngext CA.CTngExtension
 	CTngext = CA.ParseCTngextension(cert)
 	var total int
@@ -252,7 +258,7 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 	Precert := util.ParseTBSCertificate(cert)
 	for _, loggerinfo := range CTngext.LoggerInformation {
 		// if logger is blacklisted already
-		if _, ok := ctx.POM_database[loggerinfo.STH.Signer]; ok {
+		if _, ok := ctx.POM_database[loggerinfo.STH.Payload[0]]; ok {
 			fmt.Println("Logger is blacklisted")
 			faulty_logger++
 		} else {
@@ -297,7 +303,11 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 	}
 
 	RID := CA.GetRIDfromCert(cert)
-	CRV_to_check := ctx.CRV_database[cert.Issuer.CommonName]
+	CRV_to_check, ok := ctx.CRV_database[cert.Issuer.CommonName]
+	if !ok {
+		fmt.Println("No revocation information from the issuer of the certificate")
+		return false
+	}
 	if CRV_to_check.Test(uint(RID)) {
 		fmt.Println("Certificate has been revoked")
 		return false
-- 
2.43.0


From 27541064c0edeac3a86e5a88c4ea34e19a737126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:13 +0000
Subject: [PATCH 23/53] fix: Merkle trees and proofs do not share a hash state

---
 crypto/MerkleTree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crypto/MerkleTree.go b/crypto/MerkleTree.go
index 2332d0b..161bdad 100644
--- a/crypto/MerkleTree.go
+++ b/crypto/MerkleTree.go
@@ -1,6 +1,7 @@
 package crypto
 
 import (
+	"crypto/sha256"
 	"crypto/x509"
 	"strconv"
 
@@ -52,8 +53,14 @@ func GenerateDataBlocks(certs []x509.Certificate) (dataBlocks []merkletree.DataB
 	return
 }
 
+// the default hash function of the library works on one digest shared by all trees and proofs
+func merkleHash(data []byte) ([]byte, error) {
+	hash := sha256.Sum256(data)
+	return hash[:], nil
+}
+
 func GenerateMerkleTree(blocks []merkletree.DataBlock) (tree *merkletree.MerkleTree, error error) {
-	tree, error = merkletree.New(nil, blocks)
+	tree, error = merkletree.New(&merkletree.Config{HashFunc: merkleHash}, blocks)
 	return
 }
 
@@ -67,6 +74,6 @@ func GeneratePOI(tree *merkletree.MerkleTree) (proofs []*merkletree.Proof) {
 }
 
 func VerifyPOI(rootHash []byte, poi *merkletree.Proof, cert x509.Certificate) (ok bool, err error) {
-	ok, err = merkletree.Verify(&Certblock{Content: cert}, poi, rootHash, nil)
+	ok, err = merkletree.Verify(&Certblock{Content: cert}, poi, rootHash, &merkletree.Config{HashFunc: merkleHash})
 	return
 }
-- 
2.43.0


From 40ad4ed0f1de7cc4cc726de36ca1e798d3de1f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:14 +0000
Subject: [PATCH 24/53] fix: a logger with one or no precertificate in a period
 still issues a tree head

---
 Logger/server.go     | 4 +++-
 crypto/MerkleTree.go | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/Logger/server.go b/Logger/server.go
index fd9aecc..03040cb 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -227,7 +227,9 @@ func PeriodicTask(ctx *LoggerContext) {
 		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
 		// duplicate the STH for testing
 		certlist2 := ctx.CurrentPrecertPool.GetCerts()
-		certlist2 = append(certlist2, certlist2[0])
+		if len(certlist2) > 0 {
+			certlist2 = append(certlist2, certlist2[0])
+		}
 		fmt.Println("len of certlist2: ", len(certlist2))
 		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
 		//fmt.Println("STH: ", STH)
diff --git a/crypto/MerkleTree.go b/crypto/MerkleTree.go
index 161bdad..49d7374 100644
--- a/crypto/MerkleTree.go
+++ b/crypto/MerkleTree.go
@@ -60,6 +60,14 @@ func merkleHash(data []byte) ([]byte, error) {
 }
 
 func GenerateMerkleTree(blocks []merkletree.DataBlock) (tree *merkletree.MerkleTree, error error) {
+	// the library needs two blocks: a single leaf is paired with itself, as the last one of an odd row is
+	switch len(blocks) {
+	case 0:
+		root, _ := merkleHash(nil)
+		return &merkletree.MerkleTree{Root: root}, nil
+	case 1:
+		blocks = append(blocks, blocks[0])
+	}
 	tree, error = merkletree.New(&merkletree.Config{HashFunc: merkleHash}, blocks)
 	return
 }
-- 
2.43.0


From b5d04afccbf32aeff7915687122de6657d17e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:14 +0000
Subject: [PATCH 25/53] fix: precertificates of different CAs with the same
 subject are different precertificates

---
 crypto/certpool.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/certpool.go b/crypto/certpool.go
index dd95625..33eec3e 100644
--- a/crypto/certpool.go
+++ b/crypto/certpool.go
@@ -71,7 +71,10 @@ func (s *CertPool) contains(cert *x509.Certificate) bool {
 
 	candidates := s.byName[string(cert.RawSubject)]
 	for _, c := range candidates {
-		if s.certs[c].Equal(cert) {
+		// precertificates have no raw form, what identifies them is issuer, serial number and key
+		if s.certs[c].Equal(cert) && s.certs[c].Issuer.String() == cert.Issuer.String() &&
+			fmt.Sprint(s.certs[c].SerialNumber) == fmt.Sprint(cert.SerialNumber) &&
+			string(s.certs[c].SubjectKeyId) == string(cert.SubjectKeyId) {
 			return true
 		}
 	}
-- 
2.43.0


From 62b1b821e7cfbcaaa041a7a5afa3ec1326bf2668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:14 +0000
Subject: [PATCH 26/53] fix: the logger rejects malformed precertificates and
 those not signed by one of its CAs

A body that is not a certificate ended the logger (log.Fatalf), and Verifyprecert was never called.
---
 Logger/server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index 03040cb..df61765 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -11,7 +11,6 @@ import (
 	"strconv"
 	"time"
 
-	"github.com/jik18001/CTngV2/CA"
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
 	"github.com/jik18001/CTngV2/util"
@@ -117,7 +116,16 @@ func receive_pre_cert(c *LoggerContext, w http.ResponseWriter, r *http.Request)
 		return
 	}
 	// Parse the DER-encoded certificate
-	cert_ca = CA.Unmarshall_Signed_PreCert(body)
+	cert_ca, err = x509.ParseCertificate(body)
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
+	}
+	// Only precerts signed by one of the CAs of this logger are logged
+	if !Verifyprecert(*cert_ca, *c) {
+		http.Error(w, "Precert verification failed.", http.StatusBadRequest)
+		return
+	}
 	// remove signature
 	precert := util.ParseTBSCertificate(cert_ca)
 	fmt.Println(precert.SubjectKeyId)
-- 
2.43.0


From a6747de04ce7fc1a2a42ff350646c735b6b62ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:15 +0000
Subject: [PATCH 27/53] fix: a CA or logger that is down does not take its
 peers down

---
 CA/server.go     |  3 ++-
 Logger/server.go | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 5eb810b..dd8ff1c 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -267,8 +267,9 @@ func Send_Signed_PreCert_To_Logger(c *CAContext, precert *x509.Certificate, logg
 	resp, err := c.Client.Post(PROTOCOL+logger+"/Logger/receive-precerts", "application/json", bytes.NewBuffer(precert_json))
 	if err != nil {
 		fmt.Println("Failed to send precert to loggers: ", err)
+	} else {
+		defer resp.Body.Close()
 	}
-	defer resp.Body.Close()
 }
 
 // send a signed precert to all loggers
diff --git a/Logger/server.go b/Logger/server.go
index df61765..3db93a0 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -161,8 +161,9 @@ func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string
 	resp, err := c.Client.Post(PROTOCOL+ca+"/CA/receive-poi", "application/json", bytes.NewBuffer(poi_json))
 	if err != nil {
 		fmt.Println("Failed to send POI to CA: ", err)
+	} else {
+		defer resp.Body.Close()
 	}
-	defer resp.Body.Close()
 }
 
 func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, roothash []byte) {
@@ -171,11 +172,16 @@ func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, root
 		// create POI, using merkle node.ProofofInclusion and node.SubjectKeyId
 		if len(POIs[i].SubjectKeyId) != 0 {
 			//fmt.Println([]byte(POIs[i].SubjectKeyId))
+			c.CertPool_lock.Lock()
 			precert := c.CurrentPrecertPool.GetCertBySubjectKeyID(string(POIs[i].SubjectKeyId))
+			c.CertPool_lock.Unlock()
+			if precert == nil {
+				continue
+			}
 			pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, *precert)
 			if err != nil || pass == false {
 				fmt.Println("POI verification failed: ", err)
-				return
+				continue
 			}
 			// Get the Issuer CA
 			ca := POIs[i].Issuer
-- 
2.43.0


From 7a5c7baaf141d58fee64410669311225dce8ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:15 +0000
Subject: [PATCH 28/53] fix: every precertificate the logger accepts ends up in
 a tree, and its storage is accessed under its locks

---
 Logger/Types.go  |  2 ++
 Logger/server.go | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/Logger/Types.go b/Logger/Types.go
index e1696e3..432d41a 100644
--- a/Logger/Types.go
+++ b/Logger/Types.go
@@ -168,7 +168,9 @@ func GenerateLogger_crypto_config_template() *crypto.StoredCryptoConfig {
 }
 
 func SaveToStorage(ctx LoggerContext) {
+	ctx.CertPool_lock.Lock()
 	certs := ctx.CurrentPrecertPool.GetCerts()
+	ctx.CertPool_lock.Unlock()
 	data := [][]any{}
 	for _, cert := range certs {
 		cert_json, _ := json.Marshal(cert)
diff --git a/Logger/server.go b/Logger/server.go
index 3db93a0..6a31e46 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -235,12 +235,14 @@ func PeriodicTask(ctx *LoggerContext) {
 			period = "0" + period
 		}
 		// update STH
+		ctx.CertPool_lock.Lock()
 		certlist := ctx.CurrentPrecertPool.GetCerts()
+		ctx.CertPool_lock.Unlock()
 		fmt.Println("len of certlist: ", len(certlist))
 		//fmt.Println("certlist: ", certlist)
 		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
 		// duplicate the STH for testing
-		certlist2 := ctx.CurrentPrecertPool.GetCerts()
+		certlist2 := append([]x509.Certificate{}, certlist...)
 		if len(certlist2) > 0 {
 			certlist2 = append(certlist2, certlist2[0])
 		}
@@ -248,8 +250,10 @@ func PeriodicTask(ctx *LoggerContext) {
 		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
 		//fmt.Println("STH: ", STH)
 		// update STH storage
+		ctx.Request_Count_lock.Lock()
 		ctx.STH_storage[period] = STH
 		ctx.STH_storage_fake[period] = STH_FAKE
+		ctx.Request_Count_lock.Unlock()
 		// send STH to all CAs
 		// fmt.Println(ctx.Logger_public_config.All_CA_URLs)
 		for i := 0; i < len(ctx.Logger_public_config.All_CA_URLs); i++ {
@@ -263,8 +267,14 @@ func PeriodicTask(ctx *LoggerContext) {
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
-		// clear the cert pool
-		ctx.CurrentPrecertPool = crypto.NewCertPool()
+		// clear the cert pool, but for the precerts that came in since the tree was built: they belong to the next one
+		ctx.CertPool_lock.Lock()
+		nextPool := crypto.NewCertPool()
+		for _, precert := range ctx.CurrentPrecertPool.GetCertList()[len(certlist):] {
+			nextPool.AddCert(precert)
+		}
+		ctx.CurrentPrecertPool = nextPool
+		ctx.CertPool_lock.Unlock()
 	}
 	time.AfterFunc(time.Duration(ctx.Logger_public_config.MMD-20)*time.Second, f1)
 }
-- 
2.43.0


From 17d1d4e916dbf1508afb307b9f59bb7ac2096b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:52 +0000
Subject: [PATCH 29/53] fix: the CA answers malformed tree heads and proofs
 with an error, and takes tree heads only

---
 CA/server.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index dd8ff1c..56a67bc 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -212,13 +212,15 @@ func receive_sth(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	decoder := json.NewDecoder(r.Body)
 	err := decoder.Decode(&gossip_sth)
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//fmt.Println("STH received from logger: ", gossip_sth.Signer)
 	// Verify the STH
 	err = gossip_sth.Verify(c.CA_crypto_config)
-	if err != nil {
-		panic(err)
+	if err != nil || gossip_sth.Type != definition.STH_INIT {
+		http.Error(w, "STH verification failed.", http.StatusBadRequest)
+		return
 	}
 	// Update the STH storage
 	//fmt.Println("STH passed verification")
@@ -235,7 +237,8 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	decoder := json.NewDecoder(r.Body)
 	err := decoder.Decode(&poi)
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//fmt.Println("POI received: ", poi)
 	//fmt.Println("Logger ID in this poi: ", poi.LoggerID)
-- 
2.43.0


From 21da20bc31f5604cc4d0cd773f76a954e8920887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:52 +0000
Subject: [PATCH 30/53] fix: a certificate gets logger information only with a
 valid proof, and none is lost when proofs arrive together

---
 CA/server.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 56a67bc..9e2ff72 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -243,7 +243,13 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	//fmt.Println("POI received: ", poi)
 	//fmt.Println("Logger ID in this poi: ", poi.LoggerID)
 	// Get the STH of the logger
-	sth := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Lock()
+	sth, ok := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Unlock()
+	if !ok {
+		http.Error(w, "No STH from this logger.", http.StatusBadRequest)
+		return
+	}
 	//fmt.Println("sth: ", sth, c.STH_storage)
 	// Construct the logger info
 
@@ -251,13 +257,23 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		STH: sth,
 		POI: poi,
 	}
+	c.Certpool_lock.Lock()
+	defer c.Certpool_lock.Unlock()
 	target_cert := c.CurrentCertificatePool.GetCertBySubjectKeyID(string(poi.SubjectKeyId))
 	if target_cert != nil {
 		//fmt.Println(poi.SubjectKeyId)
+		// the proof must show that the certificate is in the tree of this STH
+		roothash, err := definition.ExtractRootHash(sth)
+		if err != nil {
+			http.Error(w, err.Error(), http.StatusBadRequest)
+			return
+		}
+		if pass, err := crypto.VerifyPOI(roothash, poi.Poi, *target_cert); err != nil || !pass {
+			http.Error(w, "POI verification failed.", http.StatusBadRequest)
+			return
+		}
 		target_cert = UpdateCTngExtension(target_cert, Logger_info)
-		c.Certpool_lock.Lock()
 		c.CurrentCertificatePool.UpdateCertBySubjectKeyID(string(poi.SubjectKeyId), target_cert)
-		c.Certpool_lock.Unlock()
 	}
 }
 
-- 
2.43.0


From a1c45f767180138b45795cbcb0800b7a416dce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:52 +0000
Subject: [PATCH 31/53] fix: CA storage is accessed under its locks

---
 CA/server.go | 43 +++++++++++++++++++++++++++++--------------
 CA/types.go  |  2 ++
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 9e2ff72..5e6e08b 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -149,19 +149,22 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	// convert int to string
 	// add a leading 0 if the string is only 1 digit
 	Period = fmt.Sprintf("%02d", periodnum)
+	c.Request_Count_lock.Lock()
+	rev, fake_rev, online_duration := c.REV_storage[Period], c.REV_storage_fake[Period], c.OnlineDuration
+	c.Request_Count_lock.Unlock()
 	switch c.CA_Type {
 	case 0:
 		//normal CA
-		json.NewEncoder(w).Encode(c.REV_storage[Period])
+		json.NewEncoder(w).Encode(rev)
 		return
 	case 1:
 		//split-world CA
-		if req_count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
-			json.NewEncoder(w).Encode(c.REV_storage_fake[Period])
+		if req_count%c.MisbehaviorInterval == 0 && online_duration == 1 {
+			json.NewEncoder(w).Encode(fake_rev)
 			fmt.Println("Fake REV sent")
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			fmt.Println("Real REV sent")
 			return
 		}
@@ -170,35 +173,35 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		return
 	case 3:
 		//sometimes unresponsive CA
-		if req_count%c.MisbehaviorInterval == 0 || c.OnlineDuration == 1 {
+		if req_count%c.MisbehaviorInterval == 0 || online_duration == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 	case 4:
 		// Split-world CA on second round since requested by monitor, behave normally on other rounds
-		if req_count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
-			json.NewEncoder(w).Encode(c.REV_storage_fake[Period])
+		if req_count%c.MisbehaviorInterval == 0 && online_duration == 1 {
+			json.NewEncoder(w).Encode(fake_rev)
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 		}
 		return
 	case 5:
 		// always unresponsive CA on second round since requested by monitor, behave normally on other rounds
-		if c.OnlineDuration == 1 {
+		if online_duration == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 
 	case 6:
 		// sometimes unreponsive on second round since requested by monitor, behave normally on other rounds
-		if req_count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
+		if req_count%c.MisbehaviorInterval == 0 && online_duration == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 	}
@@ -308,6 +311,8 @@ func Send_Signed_PreCert_To_Loggers(c *CAContext, precert *x509.Certificate, log
 }
 
 func wipeSTHstorage(c *CAContext) {
+	c.STH_storage_lock.Lock()
+	defer c.STH_storage_lock.Unlock()
 	for k := range c.STH_storage {
 		delete(c.STH_storage, k)
 	}
@@ -316,6 +321,8 @@ func wipeSTHstorage(c *CAContext) {
 func SignAllCerts(c *CAContext) []*x509.Certificate {
 	root := c.Rootcert
 	priv := c.CA_crypto_config.SignSecretKey
+	c.Certpool_lock.Lock()
+	defer c.Certpool_lock.Unlock()
 	certs := c.CurrentCertificatePool.GetCertList()
 	tbscerts := UpdateAllforSigning(certs)
 	var signed_certs []*x509.Certificate
@@ -380,7 +387,9 @@ func PeriodicTask(ctx *CAContext) {
 	// iterate over certs
 	for i := 0; i < len(certs); i++ {
 		//store in current cert pool
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool.AddCert(&tbscerts[i])
+		ctx.Certpool_lock.Unlock()
 		//fmt.Println(certs[i].SubjectKeyId)
 		Send_Signed_PreCert_To_Loggers(ctx, certs[i], ctx.CA_private_config.Loggerlist)
 	}
@@ -388,7 +397,9 @@ func PeriodicTask(ctx *CAContext) {
 	f1 := func() {
 		// want to see if the STHs and POIs are updated
 		var certlist []x509.Certificate
+		ctx.Certpool_lock.Lock()
 		certlist = ctx.CurrentCertificatePool.GetCerts()
+		ctx.Certpool_lock.Unlock()
 		for i := 0; i < len(certlist); i++ {
 			//var ctngexts []CTngExtension
 			//ctngexts = GetCTngExtensions(&certlist[i])
@@ -434,9 +445,11 @@ func PeriodicTask(ctx *CAContext) {
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
 		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
+		ctx.Request_Count_lock.Lock()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
-		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
+		ctx.Request_Count_lock.Unlock()
+		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(rev.Payload, fake_rev.Payload))
 		//fmt.Println(ctx.REV_storage_fake[period].Verify(ctx.CA_crypto_config))
 		//fmt.Println(ctx.REV_storage[period].Verify(ctx.CA_crypto_config))
 		fmt.Println("CA Finished Generating Revocation for next period")
@@ -447,7 +460,9 @@ func PeriodicTask(ctx *CAContext) {
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool = crypto.NewCertPool()
+		ctx.Certpool_lock.Unlock()
 	}
 	time.AfterFunc(time.Duration(ctx.CA_public_config.MMD-20)*time.Second, f1)
 }
diff --git a/CA/types.go b/CA/types.go
index 86f01d8..6106d97 100644
--- a/CA/types.go
+++ b/CA/types.go
@@ -269,7 +269,9 @@ func (ctx *CAContext) SaveToStorage() {
 	data1 := [][]any{}
 	data2 := [][]any{}
 	//fmt.Println(path)
+	ctx.Certpool_lock.Lock()
 	certs := ctx.CurrentCertificatePool.GetCerts()
+	ctx.Certpool_lock.Unlock()
 	signed_certs := SignAllCerts(ctx)
 
 	// iterate through all certs
-- 
2.43.0


From 695d61e68b20a850ffdbabf523459dc7f5efd13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:53 +0000
Subject: [PATCH 32/53] fix: certificates can be signed more than once in a
 period

Each call added another copy of the CTng extension, and a certificate with a duplicate extension ends the CA (log.Fatalf).
---
 CA/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CA/types.go b/CA/types.go
index 6106d97..e3eaf34 100644
--- a/CA/types.go
+++ b/CA/types.go
@@ -148,7 +148,7 @@ func UpdateforSigning(cert *x509.Certificate) *x509.Certificate {
 		Critical: false,
 		Value:    EncodeCTngExtension(CTngExtension),
 	}
-	cert.ExtraExtensions = append(cert.ExtraExtensions, new_ext)
+	cert.ExtraExtensions = []pkix.Extension{new_ext}
 	return cert
 }
 
-- 
2.43.0


From 723c376f7899a6d151827c272801aeba5db073eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:53 +0000
Subject: [PATCH 33/53] fix: a fixed latency (min equal to max) does not hang
 the sender

---
 util/helpers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/helpers.go b/util/helpers.go
index 421cfe1..5a49a15 100644
--- a/util/helpers.go
+++ b/util/helpers.go
@@ -138,6 +138,9 @@ func GetRandomLatency(min int, max int) int {
 }*/
 
 func GetRandomLatency(min int, max int) int {
+	if max <= min {
+		return min
+	}
 	multiplier := float64(max - min)
 	for {
 		value := rand.ExpFloat64()*multiplier + float64(min)
-- 
2.43.0


From 951d13f3af5f816dfb09856b69d3515f1662ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:28 +0000
Subject: [PATCH 34/53] fix: IP mapping gives every logger, CA and owner its
 own address

---
 Gen/IPmapping.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Gen/IPmapping.go b/Gen/IPmapping.go
index 1625c0e..209690a 100644
--- a/Gen/IPmapping.go
+++ b/Gen/IPmapping.go
@@ -245,7 +245,7 @@ func Map_local_to_Gossiper_IP_priv_config(priv_config_path string, ip_json_confi
 		gossiper_priv_config.Connected_Gossipers[index] = new_dest
 	}
 	semicolon_and_port_1 := gossiper_priv_config.Owner_URL[len(gossiper_priv_config.Owner_URL)-5:]
-	gossiper_priv_config.Owner_URL = ip_json_config.Gossiper_ip_map[MID-1] + semicolon_and_port_1
+	gossiper_priv_config.Owner_URL = ip_json_config.Monitor_ip_map[MID-1] + semicolon_and_port_1
 	fmt.Println("gossiper_priv_config.Owner_URL: ", gossiper_priv_config.Owner_URL)
 	util.WriteData(priv_config_path, gossiper_priv_config)
 }
@@ -262,8 +262,10 @@ func Map_local_to_CA_IP_priv_config(priv_config_path string, ip_json_config IP_J
 	for index, logger := range ca_priv_config.Loggerlist {
 		//change localhost to actual IP
 		//take the data out and slice out the last 5 characters
+		//index should be the last 3 characters of the port number (ignore leading 0)
+		sindex, _ := strconv.Atoi(logger[len(logger)-3:])
 		semicolon_and_port := logger[len(logger)-5:]
-		new_dest := ip_json_config.Logger_ip_map[MID-1] + semicolon_and_port
+		new_dest := ip_json_config.Logger_ip_map[sindex] + semicolon_and_port
 		ca_priv_config.Loggerlist[index] = new_dest
 	}
 	// iterate over MonitorList
@@ -293,6 +295,14 @@ func Map_local_to_Logger_IP_priv_config(priv_config_path string, ip_json_config
 	new_dest_1 := logger_ip + semicolon_and_port_1
 	logger_priv_config.Signer = new_dest_1
 	fmt.Println("logger_priv_config.Signer: ", logger_priv_config.Signer)
+	// iterate over CAlist
+	for index, ca := range logger_priv_config.CAlist {
+		//change localhost to actual IP
+		//index should be the last 3 characters of the port number (ignore leading 0)
+		sindex, _ := strconv.Atoi(ca[len(ca)-3:])
+		semicolon_and_port := ca[len(ca)-5:]
+		logger_priv_config.CAlist[index] = ip_json_config.CA_ip_map[sindex] + semicolon_and_port
+	}
 	// iterate over MonitorList
 	for index, monitor := range logger_priv_config.Monitorlist {
 		//change localhost to actual IP
-- 
2.43.0


From b9b0f64ed6dd86ed4eaf8d2160529e7e6496c9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 35/53] fix: a period has one label, so that conflicting
 statements cannot hide behind two spellings of it

---
 definition/Verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/definition/Verify.go b/definition/Verify.go
index d043d5a..16ef286 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -147,8 +147,8 @@ func Verify_Period(g Gossip_object) error {
 	if err != nil {
 		return errors.New(Mislabel)
 	}
-	label, err := strconv.Atoi(g.Period)
-	if err != nil || label != period {
+	// the label identifies the object: there is one spelling of each period
+	if g.Period != fmt.Sprintf("%02d", period) {
 		return errors.New(Mislabel)
 	}
 	if (kind == STH_INIT) != (g.Type == STH_INIT || g.Type == STH_FRAG || g.Type == STH_FULL) {
-- 
2.43.0


From f2135302d068c1359145c803d97439c5acf0ac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:03 +0000
Subject: [PATCH 36/53] fix: a revocation fragment that is sent whole keeps its
 payload

---
 gossiper/gen.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gossiper/gen.go b/gossiper/gen.go
index ea70667..4f4ef70 100644
--- a/gossiper/gen.go
+++ b/gossiper/gen.go
@@ -37,10 +37,12 @@ func (ctx *GossiperContext) ReconstructPayload(g definition.Gossip_object) defin
 	gid := g.GetID()
 	gid.Type = definition.REV_INIT
 	ctx.Gossip_object_storage.REV_PAYLOAD_LOCK.RLock()
-	var tbfpayload [3]string
-	tbfpayload = ctx.Gossip_object_storage.REV_PAYLOAD[gid].Payload
+	saved, ok := ctx.Gossip_object_storage.REV_PAYLOAD[gid]
 	ctx.Gossip_object_storage.REV_PAYLOAD_LOCK.RUnlock()
-	g.Payload = tbfpayload
+	// a small object is sent whole and its payload is not saved
+	if ok {
+		g.Payload = saved.Payload
+	}
 	return g
 }
 
-- 
2.43.0


From 93ec624141051dae09cf99b45824cf97c51e43e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:34 +0000
Subject: [PATCH 37/53] fix: every admitted precertificate gets its own
 inclusion proof, also when it shares its key with another

---
 Logger/server.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index 6a31e46..4b667ca 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -173,11 +173,13 @@ func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, root
 		if len(POIs[i].SubjectKeyId) != 0 {
 			//fmt.Println([]byte(POIs[i].SubjectKeyId))
 			c.CertPool_lock.Lock()
-			precert := c.CurrentPrecertPool.GetCertBySubjectKeyID(string(POIs[i].SubjectKeyId))
+			// the POIs are in the order of the pool; the key alone does not identify a precert
+			certs := c.CurrentPrecertPool.GetCertList()
 			c.CertPool_lock.Unlock()
-			if precert == nil {
+			if i >= len(certs) {
 				continue
 			}
+			precert := certs[i]
 			pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, *precert)
 			if err != nil || pass == false {
 				fmt.Println("POI verification failed: ", err)
-- 
2.43.0


From 8656529917ad021ca9e766cb96a982c21676b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:34 +0000
Subject: [PATCH 38/53] fix: a revocation vector with an absurd length does not
 crash monitors and clients

---
 client/parser.go |  3 +--
 monitor/types.go |  3 +--
 util/helpers.go  | 13 +++++++++++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/client/parser.go b/client/parser.go
index a041fbe..ca0467d 100644
--- a/client/parser.go
+++ b/client/parser.go
@@ -18,10 +18,9 @@ func Get_SRH_and_DCRV(rev definition.Gossip_object) (string, bitset.BitSet) {
 		fmt.Println(err)
 	}
 	newSRH := revocation.SRH
-	var newDCRV bitset.BitSet
 	// decompress Delta_CRV
 	decompressed_DCRV, _ := util.DecompressData(revocation.Delta_CRV)
-	err = newDCRV.UnmarshalBinary(decompressed_DCRV)
+	newDCRV, err := util.UnmarshalBitset(decompressed_DCRV)
 	if err != nil {
 		fmt.Println(err)
 	}
diff --git a/monitor/types.go b/monitor/types.go
index 4a76230..9d1f57e 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -393,10 +393,9 @@ func Get_SRH_and_DCRV(rev definition.Gossip_object) (string, bitset.BitSet) {
 		fmt.Println(err)
 	}
 	newSRH := revocation.SRH
-	var newDCRV bitset.BitSet
 	// decompress DCRV
 	decompressed_DCRV, err := util.DecompressData(revocation.Delta_CRV)
-	err = newDCRV.UnmarshalBinary(decompressed_DCRV)
+	newDCRV, err := util.UnmarshalBitset(decompressed_DCRV)
 	if err != nil {
 		fmt.Println(err)
 	}
diff --git a/util/helpers.go b/util/helpers.go
index 5a49a15..54e897c 100644
--- a/util/helpers.go
+++ b/util/helpers.go
@@ -7,6 +7,7 @@ import (
 	"crypto/x509"
 	"encoding/binary"
 	"encoding/pem"
+	"errors"
 	"io"
 	"math"
 	"math/rand"
@@ -17,6 +18,7 @@ import (
 	"time"
 
 	"github.com/Workiva/go-datastructures/bitarray"
+	"github.com/bits-and-blooms/bitset"
 )
 
 func BitsToBytes(ba bitarray.BitArray) []byte {
@@ -176,3 +178,14 @@ func DecompressData(compressedData []byte) ([]byte, error) {
 	}
 	return decompressedData, nil
 }
+
+// UnmarshalBitset reads a bitset made by MarshalBinary. The length it starts with is
+// checked first, because UnmarshalBinary allocates whatever the length says.
+func UnmarshalBitset(data []byte) (bitset.BitSet, error) {
+	var b bitset.BitSet
+	if len(data) < 8 || binary.BigEndian.Uint64(data) > uint64(len(data)-8)*8 {
+		return b, errors.New("bitset is shorter than its length says")
+	}
+	err := b.UnmarshalBinary(data)
+	return b, err
+}
-- 
2.43.0


From 43656de6cd6dd7092a7891115fbdda72776b16aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:34 +0000
Subject: [PATCH 39/53] fix: a revocation sent in chunks is passed on like any
 other

---
 gossiper/gossiper_server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index c3cf87b..b8ebd2e 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -156,7 +156,8 @@ func Gossip_object_handler(c *GossiperContext, w http.ResponseWriter, r *http.Re
 	c.Counter1_lock.Lock()
 	c.Total_traffic_received += int(bytecount)
 	c.Counter1_lock.Unlock()
-	if bytecount > int64(c.Optimization_threshold) && gossip_obj.Type == definition.REV_INIT {
+	// the length is not known (-1) when the object is sent in chunks
+	if (bytecount < 0 || bytecount > int64(c.Optimization_threshold)) && gossip_obj.Type == definition.REV_INIT {
 		c.SavePayload(gossip_obj)
 	}
 	if c.Optimization_mode == true && (gossip_obj.Type == definition.REV_FRAG) {
-- 
2.43.0


From 2a4bc870035f34d411a6eb3aab3ab131916d9231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:22 +0000
Subject: [PATCH 40/53] fix: logger copied its whole context, unlocked, while
 requests were changing it

---
 Logger/Types.go  |  4 ++--
 Logger/server.go | 14 ++++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/Logger/Types.go b/Logger/Types.go
index 432d41a..f256a4b 100644
--- a/Logger/Types.go
+++ b/Logger/Types.go
@@ -69,7 +69,7 @@ func inList(item string, list []string) bool {
 	return false
 }
 
-func Verifyprecert(precert x509.Certificate, ctx LoggerContext) bool {
+func Verifyprecert(precert x509.Certificate, ctx *LoggerContext) bool {
 	issuer := precert.Issuer.CommonName
 	//check if issuer is in CAlist
 	if !inList(issuer, ctx.Logger_private_config.CAlist) {
@@ -167,7 +167,7 @@ func GenerateLogger_crypto_config_template() *crypto.StoredCryptoConfig {
 	}
 }
 
-func SaveToStorage(ctx LoggerContext) {
+func SaveToStorage(ctx *LoggerContext) {
 	ctx.CertPool_lock.Lock()
 	certs := ctx.CurrentPrecertPool.GetCerts()
 	ctx.CertPool_lock.Unlock()
diff --git a/Logger/server.go b/Logger/server.go
index 4b667ca..df74d1f 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -122,7 +122,7 @@ func receive_pre_cert(c *LoggerContext, w http.ResponseWriter, r *http.Request)
 		return
 	}
 	// Only precerts signed by one of the CAs of this logger are logged
-	if !Verifyprecert(*cert_ca, *c) {
+	if !Verifyprecert(*cert_ca, c) {
 		http.Error(w, "Precert verification failed.", http.StatusBadRequest)
 		return
 	}
@@ -189,7 +189,7 @@ func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, root
 			ca := POIs[i].Issuer
 			// send POI to CA
 			Send_POI_to_CA(c, POIs[i], ca)
-			SaveToStorage(*c)
+			SaveToStorage(c)
 		}
 	}
 }
@@ -222,7 +222,9 @@ func PeriodicTask(ctx *LoggerContext) {
 	f1 := func() {
 		//fmt.Println(GerCurrentSecond())
 		// update online period
+		ctx.Request_Count_lock.Lock()
 		ctx.OnlinePeriod = ctx.OnlinePeriod + 1
+		ctx.Request_Count_lock.Unlock()
 		// Compute STH and POIs
 		period := util.GetCurrentPeriod()
 		// convert to int, and add 1 then convert back to string
@@ -239,17 +241,21 @@ func PeriodicTask(ctx *LoggerContext) {
 		// update STH
 		ctx.CertPool_lock.Lock()
 		certlist := ctx.CurrentPrecertPool.GetCerts()
+		// requests change the context while the trees are built
+		ctx.Request_Count_lock.Lock()
+		snapshot := *ctx
+		ctx.Request_Count_lock.Unlock()
 		ctx.CertPool_lock.Unlock()
 		fmt.Println("len of certlist: ", len(certlist))
 		//fmt.Println("certlist: ", certlist)
-		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
+		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, snapshot, periodint)
 		// duplicate the STH for testing
 		certlist2 := append([]x509.Certificate{}, certlist...)
 		if len(certlist2) > 0 {
 			certlist2 = append(certlist2, certlist2[0])
 		}
 		fmt.Println("len of certlist2: ", len(certlist2))
-		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
+		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, snapshot, periodint)
 		//fmt.Println("STH: ", STH)
 		// update STH storage
 		ctx.Request_Count_lock.Lock()
-- 
2.43.0


From 0820cedb96e96c80687e734a1d7880de997a05d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:54 +0000
Subject: [PATCH 41/53] fix: client saved its databases without holding their
 locks

---
 client/types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/types.go b/client/types.go
index d4112c3..4fc4cf4 100644
--- a/client/types.go
+++ b/client/types.go
@@ -43,10 +43,14 @@ type ClientContext struct {
 }
 
 func SaveSTHDatabase(ctx *ClientContext) {
+	ctx.STH_DB_RWLock.RLock()
+	defer ctx.STH_DB_RWLock.RUnlock()
 	util.WriteData(ctx.Config.STH_Storage_filepath, ctx.STH_database)
 }
 
 func SaveCRVDatabase(ctx *ClientContext) {
+	ctx.CRV_DB_RWLock.RLock()
+	defer ctx.CRV_DB_RWLock.RUnlock()
 	var crvstorage = make(map[string][]byte)
 	for key, value := range ctx.CRV_database {
 		crvstorage[key], _ = value.MarshalBinary()
@@ -55,6 +59,8 @@ func SaveCRVDatabase(ctx *ClientContext) {
 }
 
 func SavePomDatabase(ctx *ClientContext) {
+	ctx.POM_DB_RWLock.RLock()
+	defer ctx.POM_DB_RWLock.RUnlock()
 	util.WriteData(ctx.Config.PoM_Store_filepath, ctx.POM_database)
 }
 
-- 
2.43.0


From 297d258b16b5fa5b0b4fc7a7819b0beab2036615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:29 +0000
Subject: [PATCH 42/53] fix: configurations for another directory were not
 written

---
 Gen/Gen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Gen/Gen.go b/Gen/Gen.go
index ae4f649..c2d6679 100644
--- a/Gen/Gen.go
+++ b/Gen/Gen.go
@@ -325,7 +325,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate CA crypto config map
 	ca_crypto_config_map = GenerateCryptoconfig_map(Total, num_ca, Threshold, "CA")
 	// Create CA directory
-	os.Mkdir("ca_testconfig", 0777)
+	os.MkdirAll(config_path+"ca_testconfig", 0777)
 	// Generate Logger public config map
 	logger_public_config := GenerateLogger_public_config(L_list, C_list, MMD, MMD, []string{"1.1"})
 	// Generate Logger private config map
@@ -333,7 +333,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Logger crypto config map
 	logger_crypto_config_map = GenerateCryptoconfig_map(Total, num_logger, Threshold, "Logger")
 	// Create Logger directory
-	os.Mkdir("logger_testconfig", 0777)
+	os.MkdirAll(config_path+"logger_testconfig", 0777)
 	// write all CA public config, private config, crypto config to file
 	for i := 0; i < num_ca; i++ {
 		// create a new folder for each CA if not exist
@@ -373,7 +373,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Monitor crypto config map
 	monitor_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Monitor")
 	// Create Monitor directory
-	os.Mkdir("monitor_testconfig", 0777)
+	os.MkdirAll(config_path+"monitor_testconfig", 0777)
 	// write all Monitor public config, private config, crypto config to file
 	for i := 0; i < num_gossiper; i++ {
 		// create a new folder for each Monitor
@@ -399,7 +399,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Gossiper crypto config map
 	gossiper_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Gossiper")
 	// Create Gossiper directory
-	os.Mkdir("gossiper_testconfig", 0777)
+	os.MkdirAll(config_path+"gossiper_testconfig", 0777)
 	// write all Gossiper public config, private config, crypto config to file
 	for i := 0; i < num_gossiper; i++ {
 		// create a new folder for each Gossiper
-- 
2.43.0


From 61d3b04d9961f7550f758e4aa3d80501d0984f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:30 +0000
Subject: [PATCH 43/53] fix: generated configurations ignored the MRD asked for

---
 Gen/Gen.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Gen/Gen.go b/Gen/Gen.go
index c2d6679..93430f4 100644
--- a/Gen/Gen.go
+++ b/Gen/Gen.go
@@ -319,7 +319,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate BLS key pair
 	BLSPublicMap, BLSPrivateMap = BLS_gen_all(G_list)
 	// Generate CA public config map
-	ca_public_config := GenerateCA_public_config(L_list, C_list, MMD, MMD, []string{"1.1"})
+	ca_public_config := GenerateCA_public_config(L_list, C_list, MMD, MRD, []string{"1.1"})
 	// Generate CA private config map
 	ca_private_config_map = GenerateCA_private_config_map(G_list, M_list, L_list, num_ca, num_cert)
 	// Generate CA crypto config map
@@ -327,7 +327,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Create CA directory
 	os.MkdirAll(config_path+"ca_testconfig", 0777)
 	// Generate Logger public config map
-	logger_public_config := GenerateLogger_public_config(L_list, C_list, MMD, MMD, []string{"1.1"})
+	logger_public_config := GenerateLogger_public_config(L_list, C_list, MMD, MRD, []string{"1.1"})
 	// Generate Logger private config map
 	logger_private_config_map = GenerateLogger_private_config_map(G_list, M_list, C_list, num_logger)
 	// Generate Logger crypto config map
@@ -367,9 +367,9 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 		write_all_configs_to_file(logger_public_config, logger_private_config_map[L_list[i]], crypto_config, filepath, "Logger")
 	}
 	// Generate Monitor public config map
-	monitor_public_config := GenerateMonitor_public_config(G_list, M_list, C_list, L_list, MMD, MMD, 5, []string{"1.1"})
+	monitor_public_config := GenerateMonitor_public_config(G_list, M_list, C_list, L_list, MMD, MRD, 5, []string{"1.1"})
 	// Generate Monitor private config map
-	monitor_private_config_map = GenerateMonitor_private_config_map(G_list, M_list, C_list, L_list, MMD, MMD, 5, []string{"1.1"}, " ")
+	monitor_private_config_map = GenerateMonitor_private_config_map(G_list, M_list, C_list, L_list, MMD, MRD, 5, []string{"1.1"}, " ")
 	// Generate Monitor crypto config map
 	monitor_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Monitor")
 	// Create Monitor directory
@@ -393,9 +393,9 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 		write_all_configs_to_file(monitor_public_config, monitor_private_config, crypto_config, filepath, "Monitor")
 	}
 	// Generate Gossiper public config map
-	gossiper_public_config := GenerateGossiper_public_config(G_list, M_list, C_list, L_list, MMD, MMD, 5, 5, []string{"1.1"})
+	gossiper_public_config := GenerateGossiper_public_config(G_list, M_list, C_list, L_list, MMD, MRD, 5, 5, []string{"1.1"})
 	// Generate Gossiper private config map
-	gossiper_private_config_map = GenerateGossiper_private_config_map(G_list, M_list, C_list, L_list, MMD, MMD, 5, 5, []string{"1.1"}, " ")
+	gossiper_private_config_map = GenerateGossiper_private_config_map(G_list, M_list, C_list, L_list, MMD, MRD, 5, 5, []string{"1.1"}, " ")
 	// Generate Gossiper crypto config map
 	gossiper_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Gossiper")
 	// Create Gossiper directory
-- 
2.43.0


From e5b7ef9d61807720a0b31363438a01ae6e37ce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:41 +0000
Subject: [PATCH 44/53] fix: unreadable crypto configurations were read without
 an error

A file that is cut off or has a value of the wrong type gave a configuration
with zero values, a threshold of 0 for instance.
---
 crypto/crypto_IO.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crypto/crypto_IO.go b/crypto/crypto_IO.go
index 50be549..64b9c3a 100644
--- a/crypto/crypto_IO.go
+++ b/crypto/crypto_IO.go
@@ -81,7 +81,10 @@ func SaveCryptoFiles(directory string, configs []CryptoConfig) error {
 func ReadCryptoConfig(file string) (*CryptoConfig, error) {
 	scc := new(StoredCryptoConfig)
 	bytes, err := util.ReadByte(file)
-	json.Unmarshal(bytes, scc)
+	if err != nil {
+		return nil, err
+	}
+	err = json.Unmarshal(bytes, scc)
 	if err != nil {
 		return nil, err
 	}
@@ -92,7 +95,10 @@ func ReadCryptoConfig(file string) (*CryptoConfig, error) {
 func ReadVerifyOnlyCryptoConfig(file string) (*CryptoConfig, error) {
 	scc := new(StoredCryptoConfig)
 	bytes, err := util.ReadByte(file)
-	json.Unmarshal(bytes, scc)
+	if err != nil {
+		return nil, err
+	}
+	err = json.Unmarshal(bytes, scc)
 	if err != nil {
 		return nil, err
 	}
@@ -104,7 +110,10 @@ func ReadVerifyOnlyCryptoConfig(file string) (*CryptoConfig, error) {
 func ReadBasicCryptoConfig(file string) (*CryptoConfig, error) {
 	scc := new(StoredCryptoConfig)
 	bytes, err := util.ReadByte(file)
-	json.Unmarshal(bytes, scc)
+	if err != nil {
+		return nil, err
+	}
+	err = json.Unmarshal(bytes, scc)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 101754f7ca3eecbaa30221c261c1617753a36b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:41 +0000
Subject: [PATCH 45/53] fix: updates got negative period numbers after the hour

With a period offset the number of the period is counted from the start of
the monitor, and minutes wrap around.
---
 monitor/monitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 313a66f..7a0c012 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -489,7 +489,7 @@ func PeriodicTasks(c *MonitorContext) {
 		update := GenerateUpdate(c)
 		current, _ := strconv.Atoi(util.GetCurrentPeriod())
 		offsetint, _ := strconv.Atoi(c.Period_Offset)
-		PeriodIO := strconv.Itoa(current - offsetint)
+		PeriodIO := strconv.Itoa((current - offsetint + 60) % 60) // periods are minutes and wrap around every hour
 		c.SaveStorage(PeriodIO, update)
 		c.WipeDelta(update)
 	}
-- 
2.43.0


From 8bcd69fa1be4be4a7f9093c6030337302af65ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:49 +0000
Subject: [PATCH 46/53] fix: a precertificate is in one tree only, and the
 logger survives, when sending the proofs takes longer than a period

---
 Logger/server.go | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index df74d1f..e8319cf 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -166,19 +166,13 @@ func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string
 	}
 }
 
-func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, roothash []byte) {
+func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, certs []*x509.Certificate, roothash []byte) {
 	//iterate over the POIs
 	for i := 0; i < len(POIs); i++ {
 		// create POI, using merkle node.ProofofInclusion and node.SubjectKeyId
 		if len(POIs[i].SubjectKeyId) != 0 {
 			//fmt.Println([]byte(POIs[i].SubjectKeyId))
-			c.CertPool_lock.Lock()
-			// the POIs are in the order of the pool; the key alone does not identify a precert
-			certs := c.CurrentPrecertPool.GetCertList()
-			c.CertPool_lock.Unlock()
-			if i >= len(certs) {
-				continue
-			}
+			// the POIs are in the order of the precerts; the key alone does not identify one
 			precert := certs[i]
 			pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, *precert)
 			if err != nil || pass == false {
@@ -240,7 +234,10 @@ func PeriodicTask(ctx *LoggerContext) {
 		}
 		// update STH
 		ctx.CertPool_lock.Lock()
-		certlist := ctx.CurrentPrecertPool.GetCerts()
+		pool := ctx.CurrentPrecertPool
+		certlist := pool.GetCerts()
+		// the precerts that come in from now on belong to the next tree, however long it takes to send the POIs
+		ctx.CurrentPrecertPool = crypto.NewCertPool()
 		// requests change the context while the trees are built
 		ctx.Request_Count_lock.Lock()
 		snapshot := *ctx
@@ -268,21 +265,13 @@ func PeriodicTask(ctx *LoggerContext) {
 			Send_STH_to_CA(ctx, STH, ctx.Logger_public_config.All_CA_URLs[i])
 		}
 		// send POI to the Issuer CA
-		Send_POIs_to_CAs(ctx, POIs, sth)
+		Send_POIs_to_CAs(ctx, POIs, pool.GetCertList(), sth)
 		ctx.Request_Count_lock.Lock()
 		if ctx.Request_Count > 0 {
 			ctx.OnlineDuration = ctx.OnlineDuration + 1
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
-		// clear the cert pool, but for the precerts that came in since the tree was built: they belong to the next one
-		ctx.CertPool_lock.Lock()
-		nextPool := crypto.NewCertPool()
-		for _, precert := range ctx.CurrentPrecertPool.GetCertList()[len(certlist):] {
-			nextPool.AddCert(precert)
-		}
-		ctx.CurrentPrecertPool = nextPool
-		ctx.CertPool_lock.Unlock()
 	}
 	time.AfterFunc(time.Duration(ctx.Logger_public_config.MMD-20)*time.Second, f1)
 }
-- 
2.43.0


From 7fa4fca39cafc736a392908f62b0e90c47367b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:31 +0000
Subject: [PATCH 47/53] fix: the logger stores the precertificates of the tree
 it built, not those of the next one

---
 Logger/Types.go  | 6 ++----
 Logger/server.go | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/Logger/Types.go b/Logger/Types.go
index f256a4b..707cf90 100644
--- a/Logger/Types.go
+++ b/Logger/Types.go
@@ -167,10 +167,8 @@ func GenerateLogger_crypto_config_template() *crypto.StoredCryptoConfig {
 	}
 }
 
-func SaveToStorage(ctx *LoggerContext) {
-	ctx.CertPool_lock.Lock()
-	certs := ctx.CurrentPrecertPool.GetCerts()
-	ctx.CertPool_lock.Unlock()
+// save the precerts of the latest tree
+func SaveToStorage(ctx *LoggerContext, certs []*x509.Certificate) {
 	data := [][]any{}
 	for _, cert := range certs {
 		cert_json, _ := json.Marshal(cert)
diff --git a/Logger/server.go b/Logger/server.go
index e8319cf..ba77929 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -183,7 +183,7 @@ func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, cert
 			ca := POIs[i].Issuer
 			// send POI to CA
 			Send_POI_to_CA(c, POIs[i], ca)
-			SaveToStorage(c)
+			SaveToStorage(c, certs)
 		}
 	}
 }
-- 
2.43.0


From 480a5f45a343142b51352044d07aa883187664cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:32 +0000
Subject: [PATCH 48/53] fix: fetching certificates left connections open

---
 client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client.go b/client/client.go
index 85f539b..2aaf329 100644
--- a/client/client.go
+++ b/client/client.go
@@ -51,12 +51,15 @@ func FetchCertificate(url string) (x509.Certificate, error) {
 	// must disable it
 	tr := &http.Transport{
 		TLSClientConfig: &tls.Config{InsecureSkipVerify: true},
+		// the transport serves this one request
+		DisableKeepAlives: true,
 	}
 	client := &http.Client{Transport: tr}
 	res, err := client.Get(url)
 	if err != nil {
 		return x509.Certificate{}, err
 	}
+	defer res.Body.Close()
 
 	// if res.TLS != nil {
 	// 	certificates := res.TLS.PeerCertificates
@@ -86,6 +89,7 @@ func fetch(url string) ([]byte, error) {
 	if err != nil {
 		return []byte{}, err
 	}
+	defer res.Body.Close()
 
 	resBody, err := io.ReadAll(res.Body)
 	if err != nil {
-- 
2.43.0


From 742e2238301510fc43577d89fa15f4eb31ee6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:32 +0000
Subject: [PATCH 49/53] fix: a logger or CA that is slow or never answers held
 up the others, and the CA's revocations

---
 CA/server.go     | 16 +++++++++++-----
 Logger/server.go | 24 +++++++++++++++---------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 5e6e08b..3d77754 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -361,6 +361,7 @@ func PeriodicTask(ctx *CAContext) {
 	f := func() {
 		PeriodicTask(ctx)
 	}
+	start := time.Now()
 	time.AfterFunc(time.Duration(ctx.CA_public_config.MMD)*time.Second, f)
 	fmt.Println("——————————————————————————————————CA Running Tasks at Period ", GetCurrentPeriod(), "——————————————————————————————————")
 	// wipe STH storage
@@ -383,17 +384,20 @@ func PeriodicTask(ctx *CAContext) {
 	}
 	fmt.Println(len(certs))
 	fmt.Println(len(tbscerts))
-	//Send the pre-certificates to the log
-	// iterate over certs
 	for i := 0; i < len(certs); i++ {
 		//store in current cert pool
 		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool.AddCert(&tbscerts[i])
 		ctx.Certpool_lock.Unlock()
 		//fmt.Println(certs[i].SubjectKeyId)
-		Send_Signed_PreCert_To_Loggers(ctx, certs[i], ctx.CA_private_config.Loggerlist)
 	}
-	fmt.Println("CA Finished Sending Pre-Certs to Loggers")
+	//Send the pre-certificates to the log
+	// a logger that is slow, or never answers, holds up neither the others nor the revocations
+	for i := 0; i < len(certs); i++ {
+		for _, logger := range ctx.CA_private_config.Loggerlist {
+			go Send_Signed_PreCert_To_Loggers(ctx, certs[i], []string{logger})
+		}
+	}
 	f1 := func() {
 		// want to see if the STHs and POIs are updated
 		var certlist []x509.Certificate
@@ -464,7 +468,7 @@ func PeriodicTask(ctx *CAContext) {
 		ctx.CurrentCertificatePool = crypto.NewCertPool()
 		ctx.Certpool_lock.Unlock()
 	}
-	time.AfterFunc(time.Duration(ctx.CA_public_config.MMD-20)*time.Second, f1)
+	time.AfterFunc(time.Duration(ctx.CA_public_config.MMD-20)*time.Second-time.Since(start), f1)
 }
 
 // Our CA does not create certificate by requests
@@ -488,6 +492,8 @@ func StartCA(c *CAContext) {
 		ReadBufferSize:      1024 * 1024, // 1MB
 	}
 	c.Client = util.NewClient(c.CA_private_config.Signer, tr)
+	// an answer that takes longer than a period does not come
+	c.Client.Timeout = time.Duration(c.CA_public_config.MMD) * time.Second
 	// Start HTTP server loop on the main thread
 	go PeriodicTask(c)
 	handleCARequests(c)
diff --git a/Logger/server.go b/Logger/server.go
index ba77929..ec18be3 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -166,11 +166,12 @@ func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string
 	}
 }
 
-func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, certs []*x509.Certificate, roothash []byte) {
+// Send the POIs of the certs issued by the CA
+func Send_POIs_to_CA(c *LoggerContext, POIs []crypto.POI_for_transmission, certs []*x509.Certificate, roothash []byte, ca string) {
 	//iterate over the POIs
 	for i := 0; i < len(POIs); i++ {
 		// create POI, using merkle node.ProofofInclusion and node.SubjectKeyId
-		if len(POIs[i].SubjectKeyId) != 0 {
+		if len(POIs[i].SubjectKeyId) != 0 && POIs[i].Issuer == ca {
 			//fmt.Println([]byte(POIs[i].SubjectKeyId))
 			// the POIs are in the order of the precerts; the key alone does not identify one
 			precert := certs[i]
@@ -179,11 +180,8 @@ func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, cert
 				fmt.Println("POI verification failed: ", err)
 				continue
 			}
-			// Get the Issuer CA
-			ca := POIs[i].Issuer
 			// send POI to CA
 			Send_POI_to_CA(c, POIs[i], ca)
-			SaveToStorage(c, certs)
 		}
 	}
 }
@@ -259,13 +257,19 @@ func PeriodicTask(ctx *LoggerContext) {
 		ctx.STH_storage[period] = STH
 		ctx.STH_storage_fake[period] = STH_FAKE
 		ctx.Request_Count_lock.Unlock()
-		// send STH to all CAs
+		certs := pool.GetCertList()
+		if len(certs) > 0 {
+			SaveToStorage(ctx, certs)
+		}
+		// send STH to all CAs, a CA that is slow, or never answers, holds up no other
 		// fmt.Println(ctx.Logger_public_config.All_CA_URLs)
 		for i := 0; i < len(ctx.Logger_public_config.All_CA_URLs); i++ {
-			Send_STH_to_CA(ctx, STH, ctx.Logger_public_config.All_CA_URLs[i])
+			go func(ca string) {
+				Send_STH_to_CA(ctx, STH, ca)
+				// send POI to the Issuer CA
+				Send_POIs_to_CA(ctx, POIs, certs, sth, ca)
+			}(ctx.Logger_public_config.All_CA_URLs[i])
 		}
-		// send POI to the Issuer CA
-		Send_POIs_to_CAs(ctx, POIs, pool.GetCertList(), sth)
 		ctx.Request_Count_lock.Lock()
 		if ctx.Request_Count > 0 {
 			ctx.OnlineDuration = ctx.OnlineDuration + 1
@@ -286,6 +290,8 @@ func StartLogger(c *LoggerContext) {
 		ReadBufferSize:      1024 * 1024, // 1MB
 	}
 	c.Client = util.NewClient(c.Logger_private_config.Signer, tr)
+	// an answer that takes longer than a period does not come
+	c.Client.Timeout = time.Duration(c.Logger_public_config.MMD) * time.Second
 	// start at second 0
 	currentsecond := GerCurrentSecond()
 	// if current second is not 0
-- 
2.43.0


From 59ec889ca1890552276f7ac41d3cf2580d0d11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 50/53] fix: an entity that never answers was never accused

---
 monitor/monitor.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 7a0c012..64bca9c 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -147,6 +147,12 @@ func (c *MonitorContext) VerifyResponse(g definition.Gossip_object, expectedType
 	return g.Verify(c.Monitor_crypto_config)
 }
 
+// query asks an entity for its statement; one that takes too long to answer has not answered
+func (c *MonitorContext) query(url string) (*http.Response, error) {
+	client := &http.Client{Timeout: time.Duration(c.Monitor_public_config.MMD) * time.Second / 6}
+	return client.Get(url)
+}
+
 func QueryLoggers(c *MonitorContext) {
 	for _, logger := range c.Monitor_private_config.Logger_URLs {
 		if Check_entity_pom(c, logger) {
@@ -159,7 +165,7 @@ func QueryLoggers(c *MonitorContext) {
 				if c.Max_latency > 0 {
 					time.Sleep(time.Duration(util.GetRandomLatency(c.Min_latency, c.Max_latency)) * time.Millisecond) // Delay before sending
 				}
-				sthResp, err1 := http.Get(PROTOCOL + loggerURL + "/ctng/v2/get-sth/")
+				sthResp, err1 := c.query(PROTOCOL + loggerURL + "/ctng/v2/get-sth/")
 				if err1 != nil {
 					log.Println(util.RED+"Query Logger Failed, connection refused.", util.RESET)
 					Wait_then_accuse(c, loggerURL, "logger")
@@ -255,7 +261,7 @@ func QueryAuthorities(c *MonitorContext) {
 				if c.Max_latency > 0 {
 					time.Sleep(time.Duration(util.GetRandomLatency(c.Min_latency, c.Max_latency)) * time.Millisecond) // Delay before sending
 				}
-				revResp, err1 := http.Get(PROTOCOL + CAURL + "/ctng/v2/get-revocation/")
+				revResp, err1 := c.query(PROTOCOL + CAURL + "/ctng/v2/get-revocation/")
 				if err1 != nil {
 					log.Println(util.RED+"Query CA Failed, connection refused.", util.RESET)
 					Wait_then_accuse(c, CAURL, "ca")
-- 
2.43.0


From 4c74aefc95c8dd332d4533fae67ff59fe2655f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 51/53] fix: a gossiper that had the endorsed statement kept
 its own fragment from the others

---
 gossiper/gossiper_server.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index b8ebd2e..b3b7798 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -248,7 +248,7 @@ func Handle_STH_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 			return
 		}
 		STH_FRAG := c.Generate_Gossip_Object_FRAG(gossip_obj)
-		Handle_Gossip_object(c, STH_FRAG)
+		Contribute(c, STH_FRAG)
 	}
 	time.AfterFunc(time.Duration(c.Gossiper_public_config.Gossip_wait_time)*time.Second, f)
 	return
@@ -293,7 +293,7 @@ func Handle_REV_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 			return
 		}
 		REV_FRAG := c.Generate_Gossip_Object_FRAG(gossip_obj)
-		Handle_Gossip_object(c, REV_FRAG)
+		Contribute(c, REV_FRAG)
 	}
 	time.AfterFunc(time.Duration(c.Gossiper_public_config.Gossip_wait_time)*time.Second, f)
 	return
@@ -319,7 +319,7 @@ func Handle_ACC_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		return
 	}
 	ACC_FRAG := c.Generate_Gossip_Object_FRAG(gossip_obj)
-	Handle_Gossip_object(c, ACC_FRAG)
+	Contribute(c, ACC_FRAG)
 	return
 }
 
@@ -336,7 +336,20 @@ func Handle_CON_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	return
 }
 
-func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
+// Contribute adds the gossiper's own fragment, and passes it on even if it is not needed here any more:
+// fragments that were enough here may not have been usable elsewhere
+func Contribute(c *GossiperContext, gossip_obj definition.Gossip_object) {
+	dup, err := c.IsDuplicate(gossip_obj)
+	if err != nil || dup || c.InBlacklistPerm(gossip_obj.Payload[0]) {
+		return
+	}
+	if needed := Handle_OBJ_FRAG(c, gossip_obj); !needed {
+		c.Send_to_Gossipers(gossip_obj)
+	}
+}
+
+// Handle_OBJ_FRAG tells whether the fragment was needed, or must not be used
+func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) bool {
 	icount := 0
 	switch gossip_obj.Type {
 	case definition.STH_FRAG:
@@ -349,12 +362,12 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	if icount > 0 {
 		// we already have the full object, we just ignore the fragment
 		fmt.Println(util.BLUE, "Received a fragment for a full object.", util.RESET)
-		return
+		return false
 	}
 	// an invalid fragment must not count towards the threshold
 	if err := gossip_obj.Verify(c.Gossiper_crypto_config); err != nil {
 		fmt.Println(util.RED, "Invalid fragment "+definition.TypeString(gossip_obj.Type)+" signed by "+gossip_obj.Signer+".", util.RESET)
-		return
+		return true
 	}
 	itemcount := 0
 	switch gossip_obj.Type {
@@ -363,7 +376,7 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	}
 	if itemcount < 0 {
 		// this signer already contributed
-		return
+		return true
 	}
 	//fmt.Println(itemcount)
 	if itemcount == c.Gossiper_crypto_config.Threshold-1 {
@@ -380,8 +393,9 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	}
 	if itemcount < c.Gossiper_crypto_config.Threshold {
 		c.Send_to_Gossipers(gossip_obj)
+		return true
 	}
-	return
+	return false
 }
 
 func Handle_OBJ_FULL(c *GossiperContext, gossip_obj definition.Gossip_object) {
-- 
2.43.0


From 6aaf41c9002737134febeedde7fc133b9b3165f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:08 +0000
Subject: [PATCH 52/53] fix: a crash while saving destroyed what had been saved

---
 util/IO.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/util/IO.go b/util/IO.go
index d6c304c..c853773 100644
--- a/util/IO.go
+++ b/util/IO.go
@@ -9,7 +9,7 @@ import (
 	"io"
 	"log"
 	"os"
-	"strings"
+	"path/filepath"
 )
 
 //This read function reads from a Json file as a byte array and returns it.
@@ -34,27 +34,35 @@ func ReadByte(filename string) ([]byte, error) {
 
 // Writes arbitrary data as a JSON File.
 // If the file does not exist, it will be created.
+// A crash leaves the old or the new content, never a part.
 func WriteData(filename string, data interface{}) error {
-	jsonFile, err := os.Open(filename)
-	// if we os.Open returns an error then handle it
-	if err != nil && strings.Contains(err.Error(), "no such file or directory") {
-		jsonFile, err = os.Create(filename)
-	}
+	file, err := json.MarshalIndent(data, "", "  ")
 	if err != nil {
 		return err
 	}
-	// defer the closing of our jsonFile so that we can parse it later on
-	defer jsonFile.Close()
-	//write to the corresponding file
-	file, err := json.MarshalIndent(data, "", "  ")
+	// what is no file of its own (a link or device, say) is not replaced
+	if info, err := os.Lstat(filename); err == nil && !info.Mode().IsRegular() {
+		return os.WriteFile(filename, file, 0644)
+	}
+	// write it next to the corresponding file, then replace that
+	temp, err := os.CreateTemp(filepath.Dir(filename), filepath.Base(filename)+".tmp-*")
 	if err != nil {
 		return err
 	}
-	err = os.WriteFile(filename, file, 0644)
+	_, err = temp.Write(file)
+	if err == nil {
+		err = temp.Chmod(0644)
+	}
+	if closeErr := temp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(temp.Name(), filename)
+	}
 	if err != nil {
-		return err
+		os.Remove(temp.Name())
 	}
-	return nil
+	return err
 }
 
 func CreateFile(path string) {
-- 
2.43.0


From 0f4b3be8144d44a6f035e0185840ec2ec98e49bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:15 +0000
Subject: [PATCH 53/53] fix: an update request by a name that is no period was
 answered with any update

---
 monitor/client-update-monitor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monitor/client-update-monitor.go b/monitor/client-update-monitor.go
index 266da1d..4992383 100644
--- a/monitor/client-update-monitor.go
+++ b/monitor/client-update-monitor.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
+	"strconv"
 
 	"github.com/jik18001/CTngV2/definition"
 	"github.com/jik18001/CTngV2/util"
@@ -47,6 +48,11 @@ func requestupdate(c *MonitorContext, w http.ResponseWriter, r *http.Request) {
 		http.Error(w, err.Error(), http.StatusBadRequest)
 		return
 	}
+	// periods are numbers; other names could lead to any update
+	if _, err := strconv.Atoi(periodnum); err != nil {
+		http.Error(w, "No update for this period.", http.StatusNotFound)
+		return
+	}
 	//get the file path
 	filepath := c.StorageDirectory + "/Period_" + periodnum + "/ClientUpdate.json"
 	ctupdate, err := PrepareClientUpdate(c, filepath)
-- 
2.43.0

