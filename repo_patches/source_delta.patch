From c4cba89e36f95919cf841bf6862f7bc12a7c0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 01/52] fix: gRPC reads survive a response without envelopes

---
 pkg/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 53367ab..0ba1d5a 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -235,7 +235,7 @@ func (c *Client) grpcRead(ctx context.Context, sourceID string, start time.Time,
 	if err != nil {
 		return nil, err
 	}
-	return resp.Envelopes.Batch, nil
+	return resp.GetEnvelopes().GetBatch(), nil
 }
 
 // Meta returns meta information from the entire LogCache.
-- 
2.43.0


From af100f09ea635f25baf15b7f574d7db3cbdb43cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 02/52] fix: guard the cached OAuth2 token when it is cleared

---
 pkg/client/oauth2_http_client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/client/oauth2_http_client.go b/pkg/client/oauth2_http_client.go
index e56c903..eabc1a1 100644
--- a/pkg/client/oauth2_http_client.go
+++ b/pkg/client/oauth2_http_client.go
@@ -101,7 +101,9 @@ func (c *Oauth2HTTPClient) Do(req *http.Request) (*http.Response, error) {
 	}
 
 	if resp.StatusCode < http.StatusOK || resp.StatusCode >= http.StatusMultipleChoices {
+		c.mu.Lock()
 		c.token = ""
+		c.mu.Unlock()
 		return resp, nil
 	}
 
-- 
2.43.0


From 912473210195ab340b18597f9829cd235b22f3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 03/52] fix: refuse OAuth2 token responses without a token

---
 pkg/client/oauth2_http_client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/client/oauth2_http_client.go b/pkg/client/oauth2_http_client.go
index eabc1a1..1482ff7 100644
--- a/pkg/client/oauth2_http_client.go
+++ b/pkg/client/oauth2_http_client.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"net/url"
@@ -197,6 +198,10 @@ func (c *Oauth2HTTPClient) doTokenRequest(req *http.Request) (string, error) {
 		return "", fmt.Errorf("failed to unmarshal response from Oauth2 server: %s", err)
 	}
 
+	if token.AccessToken == "" {
+		return "", errors.New("response from Oauth2 server has no access token")
+	}
+
 	c.token = fmt.Sprintf("%s %s", token.TokenType, token.AccessToken)
 	return c.token, nil
 }
-- 
2.43.0


From da0d621436c502f9ba95a74d30c9dc17f829a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 04/52] fix: gateway reads sources whose id contains a colon

---
 pkg/rpc/logcache_v1/egress.pb.gw.go | 2 +-
 pkg/rpc/logcache_v1/generate.sh     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/rpc/logcache_v1/egress.pb.gw.go b/pkg/rpc/logcache_v1/egress.pb.gw.go
index 3ea2882..de99f10 100644
--- a/pkg/rpc/logcache_v1/egress.pb.gw.go
+++ b/pkg/rpc/logcache_v1/egress.pb.gw.go
@@ -180,7 +180,7 @@ func RegisterEgressHandlerClient(ctx context.Context, mux *runtime.ServeMux, cli
 }
 
 var (
-	pattern_Egress_Read_0 = runtime.MustPattern(runtime.NewPattern(1, []int{2, 0, 2, 1, 2, 2, 3, 0, 4, 1, 5, 3}, []string{"api", "v1", "read", "source_id"}, ""))
+	pattern_Egress_Read_0 = runtime.MustPattern(runtime.NewPattern(1, []int{2, 0, 2, 1, 2, 2, 3, 0, 4, 1, 5, 3}, []string{"api", "v1", "read", "source_id"}, "", runtime.AssumeColonVerbOpt(false)))
 
 	pattern_Egress_Meta_0 = runtime.MustPattern(runtime.NewPattern(1, []int{2, 0, 2, 1, 2, 2}, []string{"api", "v1", "meta"}, ""))
 )
diff --git a/pkg/rpc/logcache_v1/generate.sh b/pkg/rpc/logcache_v1/generate.sh
index d4b16d4..9ec3b78 100755
--- a/pkg/rpc/logcache_v1/generate.sh
+++ b/pkg/rpc/logcache_v1/generate.sh
@@ -25,7 +25,7 @@ protoc \
     $tmp_dir/log-cache/*.proto \
     --go_out=plugins=grpc,Mv2/envelope.proto=code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2:. \
     --proto_path=$tmp_dir/log-cache \
-    --grpc-gateway_out=logtostderr=true:. \
+    --grpc-gateway_out=logtostderr=true,allow_colon_final_segments=true:. \
     -I$GOPATH/src/github.com/grpc-ecosystem/grpc-gateway/third_party/googleapis \
     -I=/usr/local/include \
     -I=$tmp_dir/log-cache \
-- 
2.43.0


From 3fe0c0c036406d00f19fc38543b67ae4f1649fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 05/52] fix: gateway keeps source ids with empty or dot
 segments

---
 internal/gateway/gateway.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/gateway/gateway.go b/internal/gateway/gateway.go
index 7b5644e..6040c28 100644
--- a/internal/gateway/gateway.go
+++ b/internal/gateway/gateway.go
@@ -153,11 +153,17 @@ func (g *Gateway) listenAndServe() {
 		g.log.Fatalf("failed to register PromQLQuerier handler: %s", err)
 	}
 
-	topLevelMux := http.NewServeMux()
-	topLevelMux.HandleFunc("/api/v1/info", g.handleInfoEndpoint)
-	topLevelMux.Handle("/", mux)
+	// http.ServeMux would redirect to a cleaned path, which changes source IDs
+	// that contain empty or dot segments.
+	topLevelHandler := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+		if r.URL.Path == "/api/v1/info" {
+			g.handleInfoEndpoint(w, r)
+			return
+		}
+		mux.ServeHTTP(w, r)
+	})
 
-	server := &http.Server{Handler: topLevelMux}
+	server := &http.Server{Handler: topLevelHandler}
 	if err := server.ServeTLS(g.lis, g.certPath, g.keyPath); err != nil {
 		g.log.Fatalf("failed to serve HTTPS endpoint: %s", err)
 	}
-- 
2.43.0


From cfb92612172ab5216d516804e64c7d01135c0ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 06/52] fix: gateway info is valid JSON whatever the version

---
 internal/gateway/gateway.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/gateway/gateway.go b/internal/gateway/gateway.go
index 6040c28..9a3f832 100644
--- a/internal/gateway/gateway.go
+++ b/internal/gateway/gateway.go
@@ -1,6 +1,7 @@
 package gateway
 
 import (
+	"encoding/json"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -170,7 +171,13 @@ func (g *Gateway) listenAndServe() {
 }
 
 func (g *Gateway) handleInfoEndpoint(w http.ResponseWriter, r *http.Request) {
-	w.Write([]byte(fmt.Sprintf(`{"version":"%s","vm_uptime":"%d"}`+"\n", g.logCacheVersion, g.uptimeFn())))
+	version, err := json.Marshal(g.logCacheVersion)
+	if err != nil {
+		g.log.Printf("Failed to marshal version %q: %v", g.logCacheVersion, err)
+		http.Error(w, err.Error(), http.StatusInternalServerError)
+		return
+	}
+	w.Write([]byte(fmt.Sprintf(`{"version":%s,"vm_uptime":"%d"}`+"\n", version, g.uptimeFn())))
 }
 
 func uptimeInSeconds() int64 {
-- 
2.43.0


From 0ea64b6c18207ae301913ccf441ea8051142b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 07/52] fix: PromQL reads fail when a page cannot be read

---
 .../promql/data_reader/walking_data_reader.go | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/promql/data_reader/walking_data_reader.go b/internal/promql/data_reader/walking_data_reader.go
index e8f9956..10cb40e 100644
--- a/internal/promql/data_reader/walking_data_reader.go
+++ b/internal/promql/data_reader/walking_data_reader.go
@@ -24,12 +24,27 @@ func (r *WalkingDataReader) Read(
 	in *logcache_v1.ReadRequest,
 ) (*logcache_v1.ReadResponse, error) {
 
-	var result []*loggregator_v2.Envelope
+	var (
+		result  []*loggregator_v2.Envelope
+		readErr error
+	)
+
+	// Walk does not tell why it ended, so remember how the last read went.
+	reader := func(
+		ctx context.Context,
+		sourceID string,
+		start time.Time,
+		opts ...client.ReadOption,
+	) ([]*loggregator_v2.Envelope, error) {
+		var es []*loggregator_v2.Envelope
+		es, readErr = r.r(ctx, sourceID, start, opts...)
+		return es, readErr
+	}
 
 	client.Walk(ctx, in.GetSourceId(), func(es []*loggregator_v2.Envelope) bool {
 		result = append(result, es...)
 		return true
-	}, r.r,
+	}, reader,
 		client.WithWalkStartTime(time.Unix(0, in.GetStartTime())),
 		client.WithWalkEndTime(time.Unix(0, in.GetEndTime())),
 		client.WithWalkLimit(int(in.GetLimit())),
@@ -41,6 +56,10 @@ func (r *WalkingDataReader) Read(
 		return nil, err
 	}
 
+	if readErr != nil {
+		return nil, readErr
+	}
+
 	return &logcache_v1.ReadResponse{
 		Envelopes: &loggregator_v2.EnvelopeBatch{
 			Batch: result,
-- 
2.43.0


From 0d4212ee1bd28b961fe148d35dfe0856b71da4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:46 +0000
Subject: [PATCH 08/52] fix: blackbox expects the exact number of samples

---
 internal/blackbox/blackbox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index 10276c3..da8f943 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -228,7 +228,7 @@ func (rc ReliabilityCalculator) Calculate(client QueryableClient) (float64, erro
 }
 
 func (rc ReliabilityCalculator) ExpectedSamples() float64 {
-	return rc.WindowInterval.Seconds() / rc.EmissionInterval.Seconds()
+	return float64(rc.WindowInterval) / float64(rc.EmissionInterval)
 }
 
 func (rc ReliabilityCalculator) printMissingSamples(points []*logcache_v1.PromQL_Point, queryTimestamp time.Time) {
-- 
2.43.0


From 28ab5f05aba73b595d658f7facfd9eda9e083562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:46 +0000
Subject: [PATCH 09/52] fix: blackbox quotes its source id in queries

---
 internal/blackbox/blackbox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index da8f943..06db2ef 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -262,7 +262,7 @@ func (rc ReliabilityCalculator) printMissingSamples(points []*logcache_v1.PromQL
 }
 
 func (rc ReliabilityCalculator) CountMetricPoints(metricName string, client QueryableClient) (uint64, error) {
-	queryString := fmt.Sprintf(`%s{source_id="%s"}[%.0fs]`, metricName, rc.SourceId, rc.WindowInterval.Seconds())
+	queryString := fmt.Sprintf(`%s{source_id=%q}[%.0fs]`, metricName, rc.SourceId, rc.WindowInterval.Seconds())
 	rc.InfoLogger.Println("Issuing query:", queryString)
 
 	ctx, _ := context.WithTimeout(context.Background(), 10*time.Second)
-- 
2.43.0


From 0fb598aeb6b41bd1e407b998a25c7ccaa89bdbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:46 +0000
Subject: [PATCH 10/52] fix: blackbox logs test metrics it could not send

---
 internal/blackbox/blackbox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index 06db2ef..133fdb1 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -125,7 +125,7 @@ func emitTestMetrics(sourceId string, client logcache_v1.IngressClient, timestam
 
 	var err error
 	for retries := 5; retries > 0; retries-- {
-		_, err := client.Send(ctx, &logcache_v1.SendRequest{
+		_, err = client.Send(ctx, &logcache_v1.SendRequest{
 			Envelopes: &loggregator_v2.EnvelopeBatch{
 				Batch: batch,
 			},
-- 
2.43.0


From 18ad3349e87d65af6eb2ab38506ef8562ac35233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:46 +0000
Subject: [PATCH 11/52] fix: blackbox survives measuring without an HTTP data
 source

---
 internal/blackbox/blackbox.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index 133fdb1..009baa9 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -151,9 +151,16 @@ func EmitMeasuredMetrics(sourceId string, ingressClient logcache_v1.IngressClien
 		return
 	}
 
-	up, err := logCache.LogCacheVMUptime(context.TODO())
-	if err != nil {
-		log.Printf("Couldn't fetch vm uptime, ignoring it: %s", err.Error())
+	// Without an HTTP data source there is nobody to ask for the uptime.
+	var (
+		up  int64 = -1
+		err error
+	)
+	if logCache != nil {
+		up, err = logCache.LogCacheVMUptime(context.TODO())
+		if err != nil {
+			log.Printf("Couldn't fetch vm uptime, ignoring it: %s", err.Error())
+		}
 	}
 
 	if up >= 0 && up < TEN_MINUTES {
-- 
2.43.0


From 17b3089a97112dfe0cb84bbeee668ca9e81b5b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:46 +0000
Subject: [PATCH 12/52] fix: blackbox leaves the default HTTP client alone

---
 internal/blackbox/blackbox.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index 009baa9..7815139 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -69,8 +69,7 @@ func NewHttpEgressClient(httpAddr, uaaAddr, uaaClientId, uaaClientSecret string,
 }
 
 func buildHttpClient(skipTLSVerify bool) *http.Client {
-	client := http.DefaultClient
-	client.Timeout = 10 * time.Second
+	client := &http.Client{Timeout: 10 * time.Second}
 
 	if skipTLSVerify {
 		client.Transport = &http.Transport{
-- 
2.43.0


From b94d43810a3b6ec7c4d9d7f27aa714280185fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 13/52] fix: log-cache's gRPC server requires a client
 certificate

README promises mTLS-authenticated gRPC, but the mutual TLS config had no
ClientCAs and no ClientAuth, so a server using it accepted everybody.
---
 internal/tls/tls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tls/tls.go b/internal/tls/tls.go
index 640ade1..37a627e 100644
--- a/internal/tls/tls.go
+++ b/internal/tls/tls.go
@@ -61,6 +61,10 @@ func NewMutualTLSConfig(caPath, certPath, keyPath, cn string) (*tls.Config, erro
 
 	tlsConfig.RootCAs = caCertPool
 
+	// These apply when the config is used by a server.
+	tlsConfig.ClientCAs = caCertPool
+	tlsConfig.ClientAuth = tls.RequireAndVerifyClientCert
+
 	return tlsConfig, nil
 }
 
-- 
2.43.0


From 9a0fd0bd62a9b02b327bee715f1b4eb0aa32d5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 14/52] fix: gateway ignores aliases of source_id and query

grpc-gateway reads ?sourceId=b and ?query[b]= as source_id and query, which
overrode the source ID of the path, the one the auth proxy authorised.
---
 internal/gateway/gateway.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/gateway/gateway.go b/internal/gateway/gateway.go
index 9a3f832..52627ad 100644
--- a/internal/gateway/gateway.go
+++ b/internal/gateway/gateway.go
@@ -8,6 +8,8 @@ import (
 	"log"
 	"net"
 	"net/http"
+	"net/url"
+	"strings"
 
 	"github.com/grpc-ecosystem/grpc-gateway/runtime"
 	"github.com/shirou/gopsutil/host"
@@ -161,6 +163,7 @@ func (g *Gateway) listenAndServe() {
 			g.handleInfoEndpoint(w, r)
 			return
 		}
+		dropAliases(r.URL)
 		mux.ServeHTTP(w, r)
 	})
 
@@ -170,6 +173,22 @@ func (g *Gateway) listenAndServe() {
 	}
 }
 
+// dropAliases removes query parameters that grpc-gateway would take for another
+// spelling of source_id or query ("sourceId=a", "query[a]="). What a caller may
+// read is decided by the source ID in the path and by "query" alone.
+func dropAliases(u *url.URL) {
+	q := u.Query()
+	n := len(q)
+	for k := range q {
+		if k == "sourceId" || strings.Contains(k, "[") {
+			delete(q, k)
+		}
+	}
+	if len(q) != n {
+		u.RawQuery = q.Encode()
+	}
+}
+
 func (g *Gateway) handleInfoEndpoint(w http.ResponseWriter, r *http.Request) {
 	version, err := json.Marshal(g.logCacheVersion)
 	if err != nil {
-- 
2.43.0


From a33a10fcbdf8e68542a3440ae6b022c36e4ff559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 15/52] fix: store keeps envelopes in timestamp order and every
 duplicate

Keys were the timestamp plus a fudge for duplicates, so that envelopes a
few nanoseconds apart from duplicates were stored out of order, missed or
cut by reads, evicted in the wrong order, and overwritten beyond 4000.
---
 internal/cache/store/store.go | 99 ++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 53 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 1be4d84..25221a7 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -11,7 +11,6 @@ import (
 	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
 	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
 	"github.com/emirpasic/gods/trees/avltree"
-	"github.com/emirpasic/gods/utils"
 )
 
 type MetricsRegistry interface {
@@ -41,8 +40,7 @@ type Store struct {
 	count           int64
 	oldestTimestamp int64
 
-	maxPerSource      int
-	maxTimestampFudge int64
+	maxPerSource int
 
 	metrics Metrics
 	mc      MemoryConsultant
@@ -62,9 +60,8 @@ type Metrics struct {
 
 func NewStore(maxPerSource int, mc MemoryConsultant, m MetricsRegistry) *Store {
 	store := &Store{
-		maxPerSource:      maxPerSource,
-		maxTimestampFudge: 4000,
-		oldestTimestamp:   MIN_INT64,
+		maxPerSource:    maxPerSource,
+		oldestTimestamp: MIN_INT64,
 
 		metrics: Metrics{
 			incExpired:            m.NewCounter("log_cache_expired"),
@@ -98,7 +95,7 @@ func (store *Store) getOrInitializeStorage(sourceId string) (*storage, bool) {
 	if !existingSourceId {
 		envelopeStorage = &storage{
 			sourceId: sourceId,
-			Tree:     avltree.NewWith(utils.Int64Comparator),
+			Tree:     avltree.NewWith(compareKeys),
 		}
 		store.storageIndex.Store(sourceId, envelopeStorage.(*storage))
 		newStorage = true
@@ -113,8 +110,7 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 
 	// If we're at our maximum capacity, remove an envelope before inserting
 	if storage.Size() >= store.maxPerSource {
-		oldestTimestamp := storage.Left().Key.(int64)
-		storage.Remove(oldestTimestamp)
+		storage.Remove(storage.Left().Key)
 		storage.meta.Expired++
 		store.metrics.incExpired.Add(1)
 	} else {
@@ -122,22 +118,12 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 		store.metrics.setStoreSize.Set(float64(atomic.LoadInt64(&store.count)))
 	}
 
-	var timestampFudge int64
-	for timestampFudge = 0; timestampFudge < store.maxTimestampFudge; timestampFudge++ {
-		_, exists := storage.Get(e.Timestamp + timestampFudge)
+	storage.Put(key{timestamp: e.Timestamp, sequence: storage.sequence}, e)
+	storage.sequence++
 
-		if !exists {
-			break
-		}
-	}
+	storage.meta.NewestTimestamp = storage.Right().Key.(key).timestamp
 
-	storage.Put(e.Timestamp+timestampFudge, e)
-
-	if e.Timestamp > storage.meta.NewestTimestamp {
-		storage.meta.NewestTimestamp = e.Timestamp
-	}
-
-	oldestTimestamp := storage.Left().Key.(int64)
+	oldestTimestamp := storage.Left().Key.(key).timestamp
 	storage.meta.OldestTimestamp = oldestTimestamp
 	storeOldestTimestamp := atomic.LoadInt64(&store.oldestTimestamp)
 
@@ -191,7 +177,7 @@ func (store *Store) BuildExpirationHeap() *ExpirationHeap {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
-		oldestTimestamp := tree.(*storage).Left().Key.(int64)
+		oldestTimestamp := tree.(*storage).Left().Key.(key).timestamp
 		heap.Push(expirationHeap, storageExpiration{timestamp: oldestTimestamp, sourceId: sourceId.(string), tree: tree.(*storage)})
 		tree.(*storage).RUnlock()
 
@@ -263,7 +249,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 
 	oldestEnvelope := treeToPrune.Left()
 
-	treeToPrune.Remove(oldestEnvelope.Key.(int64))
+	treeToPrune.Remove(oldestEnvelope.Key)
 
 	if treeToPrune.Size() == 0 {
 		store.storageIndex.Delete(sourceId)
@@ -271,7 +257,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 	}
 
 	newOldestEnvelope := treeToPrune.Left()
-	oldestTimestampAfterRemoval := newOldestEnvelope.Key.(int64)
+	oldestTimestampAfterRemoval := newOldestEnvelope.Key.(key).timestamp
 
 	treeToPrune.meta.Expired++
 	treeToPrune.meta.OldestTimestamp = oldestTimestampAfterRemoval
@@ -305,6 +291,12 @@ func (store *Store) Get(
 
 	var res []*loggregator_v2.Envelope
 	traverser(tree.(*storage).Root, start.UnixNano(), end.UnixNano(), func(e *loggregator_v2.Envelope) bool {
+		// Return true to stop traversing, though never in the middle of a
+		// timestamp
+		if len(res) > 0 && len(res) >= limit && e.GetTimestamp() != res[len(res)-1].GetTimestamp() {
+			return true
+		}
+
 		e = store.filterByName(e, nameFilter)
 		if e == nil {
 			return false
@@ -314,8 +306,7 @@ func (store *Store) Get(
 			res = append(res, e)
 		}
 
-		// Return true to stop traversing
-		return len(res) >= limit
+		return false
 	})
 
 	store.metrics.incEgress.Add(float64(len(res)))
@@ -399,7 +390,7 @@ func (s *Store) treeAscTraverse(
 			return true
 		}
 
-		if (t >= end || f(e)) && !isNodeAFudgeSequenceMember(n, 1) {
+		if t >= end || f(e) {
 			return true
 		}
 	}
@@ -407,29 +398,6 @@ func (s *Store) treeAscTraverse(
 	return s.treeAscTraverse(n.Children[1], start, end, f)
 }
 
-func isNodeAFudgeSequenceMember(node *avltree.Node, nextChildIndex int) bool {
-	e := node.Value.(*loggregator_v2.Envelope)
-	timestamp := e.GetTimestamp()
-
-	// check if node is internal to a fudge sequence
-	if timestamp != node.Key.(int64) {
-		return true
-	}
-
-	// node is not internal, but could initiate a fudge sequence, so
-	// check next child
-	nextChild := node.Children[nextChildIndex]
-	if nextChild == nil {
-		return false
-	}
-
-	// if next child exists, check it for fudge sequence membership.
-	// if the child's timestamps don't match, then the parent is the first
-	// member of a fudge sequence.
-	nextEnvelope := nextChild.Value.(*loggregator_v2.Envelope)
-	return (nextEnvelope.GetTimestamp() != nextChild.Key.(int64))
-}
-
 func (s *Store) treeDescTraverse(
 	n *avltree.Node,
 	start int64,
@@ -448,7 +416,7 @@ func (s *Store) treeDescTraverse(
 			return true
 		}
 
-		if (t < start || f(e)) && !isNodeAFudgeSequenceMember(n, 0) {
+		if t < start || f(e) {
 			return true
 		}
 	}
@@ -504,9 +472,34 @@ func (store *Store) Meta() map[string]logcache_v1.MetaInfo {
 	return metaReport
 }
 
+// key orders a source's envelopes by timestamp, and those that share a
+// timestamp by arrival.
+type key struct {
+	timestamp int64
+	sequence  uint64
+}
+
+func compareKeys(a, b interface{}) int {
+	k, l := a.(key), b.(key)
+
+	switch {
+	case k.timestamp < l.timestamp:
+		return -1
+	case k.timestamp > l.timestamp:
+		return 1
+	case k.sequence < l.sequence:
+		return -1
+	case k.sequence > l.sequence:
+		return 1
+	default:
+		return 0
+	}
+}
+
 type storage struct {
 	sourceId string
 	meta     logcache_v1.MetaInfo
+	sequence uint64
 
 	*avltree.Tree
 	sync.RWMutex
-- 
2.43.0


From f97e280764040a58c79ed6b66b41d6cfebeaee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 16/52] fix: store keeps envelopes written while their source
 is pruned away

An envelope put into a source that a prune had just emptied and removed was
lost, and stayed in the store's count.
---
 internal/cache/store/store.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 25221a7..08d6818 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -104,10 +104,16 @@ func (store *Store) getOrInitializeStorage(sourceId string) (*storage, bool) {
 	return envelopeStorage.(*storage), newStorage
 }
 
-func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
+// insertOrSwap returns false when the storage has been removed from the store
+// and the envelope therefore has to go into a new one.
+func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) bool {
 	storage.Lock()
 	defer storage.Unlock()
 
+	if storage.removed {
+		return false
+	}
+
 	// If we're at our maximum capacity, remove an envelope before inserting
 	if storage.Size() >= store.maxPerSource {
 		storage.Remove(storage.Left().Key)
@@ -134,6 +140,8 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 
 	cachePeriod := calculateCachePeriod(storeOldestTimestamp)
 	store.metrics.setCachePeriod.Set(float64(cachePeriod))
+
+	return true
 }
 
 func (store *Store) WaitForTruncationToComplete() bool {
@@ -167,8 +175,12 @@ func (store *Store) truncationLoop(runInterval time.Duration) {
 func (store *Store) Put(envelope *loggregator_v2.Envelope, sourceId string) {
 	store.metrics.incIngress.Add(1)
 
-	envelopeStorage, _ := store.getOrInitializeStorage(sourceId)
-	envelopeStorage.insertOrSwap(store, envelope)
+	for {
+		envelopeStorage, _ := store.getOrInitializeStorage(sourceId)
+		if envelopeStorage.insertOrSwap(store, envelope) {
+			return
+		}
+	}
 }
 
 func (store *Store) BuildExpirationHeap() *ExpirationHeap {
@@ -252,6 +264,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 	treeToPrune.Remove(oldestEnvelope.Key)
 
 	if treeToPrune.Size() == 0 {
+		treeToPrune.removed = true
 		store.storageIndex.Delete(sourceId)
 		return 0, false
 	}
@@ -500,6 +513,7 @@ type storage struct {
 	sourceId string
 	meta     logcache_v1.MetaInfo
 	sequence uint64
+	removed  bool
 
 	*avltree.Tree
 	sync.RWMutex
-- 
2.43.0


From 2362c2980f2d8c06ad5d8530820f4843ea6d7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 17/52] fix: pruning survives a source that is just being
 created

---
 internal/cache/store/store.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 08d6818..7bde75e 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -189,9 +189,15 @@ func (store *Store) BuildExpirationHeap() *ExpirationHeap {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
+		defer tree.(*storage).RUnlock()
+
+		// The source's first envelope may be yet to come
+		if tree.(*storage).Size() == 0 {
+			return true
+		}
+
 		oldestTimestamp := tree.(*storage).Left().Key.(key).timestamp
 		heap.Push(expirationHeap, storageExpiration{timestamp: oldestTimestamp, sourceId: sourceId.(string), tree: tree.(*storage)})
-		tree.(*storage).RUnlock()
 
 		return true
 	})
@@ -218,7 +224,7 @@ func (store *Store) truncate() {
 	expirationHeap := store.BuildExpirationHeap()
 
 	// Remove envelopes one at a time, popping state from the expirationHeap
-	for i := 0; i < numberToPrune; i++ {
+	for i := 0; i < numberToPrune && expirationHeap.Len() > 0; i++ {
 		oldest := heap.Pop(expirationHeap)
 		newOldestTimestamp, valid := store.removeOldestEnvelope(oldest.(storageExpiration).tree, oldest.(storageExpiration).sourceId)
 		if valid {
-- 
2.43.0


From dea1791b8c270a4e4b2c8cf48283a4a87caa403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 18/52] fix: meta survives a source that is pruned away
 meanwhile

Counting a source that had gone since it was listed panicked.
---
 internal/cache/store/store.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 7bde75e..8c9e10a 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -472,22 +472,20 @@ func (store *Store) Meta() map[string]logcache_v1.MetaInfo {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
-		metaReport[sourceId.(string)] = tree.(*storage).meta
-		tree.(*storage).RUnlock()
+		defer tree.(*storage).RUnlock()
+
+		// A source whose first envelope is yet to come has nothing to report
+		if tree.(*storage).Size() == 0 {
+			return true
+		}
+
+		meta := tree.(*storage).meta
+		meta.Count = int64(tree.(*storage).Size())
+		metaReport[sourceId.(string)] = meta
 
 		return true
 	})
 
-	// Range over our local copy of metaReport
-	// TODO - shouldn't we just maintain Count on metaReport..?!
-	for sourceId, meta := range metaReport {
-		tree, _ := store.storageIndex.Load(sourceId)
-
-		tree.(*storage).RLock()
-		meta.Count = int64(tree.(*storage).Size())
-		tree.(*storage).RUnlock()
-		metaReport[sourceId] = meta
-	}
 	return metaReport
 }
 
-- 
2.43.0


From 728f966946a1b35042a4e71fc0ae5f7e853f1163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 19/52] fix: reading an unknown envelope type does not crash
 the node

---
 internal/cache/store/store.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 8c9e10a..12bb7d1 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -460,9 +460,8 @@ func (s *Store) checkEnvelopeType(e *loggregator_v2.Envelope, t logcache_v1.Enve
 	case logcache_v1.EnvelopeType_EVENT:
 		return e.GetEvent() != nil
 	default:
-		// This should never happen. This implies the store is being used
-		// poorly.
-		panic("unknown type")
+		// A type this version does not know matches nothing
+		return false
 	}
 }
 
-- 
2.43.0


From 2b04d27b674967bf34937f786a628da81c35c3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 20/52] fix: cache period follows the oldest envelope after a
 prune

---
 internal/cache/store/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 12bb7d1..b0d5602 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -247,7 +247,7 @@ func (store *Store) truncate() {
 	}
 
 	// Otherwise, grab the next oldest timestamp and use it to update the cache period
-	if oldest := expirationHeap.Pop(); oldest.(storageExpiration).tree != nil {
+	if oldest := heap.Pop(expirationHeap); oldest.(storageExpiration).tree != nil {
 		atomic.StoreInt64(&store.oldestTimestamp, oldest.(storageExpiration).timestamp)
 		cachePeriod := calculateCachePeriod(oldest.(storageExpiration).timestamp)
 		store.metrics.setCachePeriod.Set(float64(cachePeriod))
-- 
2.43.0


From 9dfd3c7bde6b1fbec372aa7690357befddcd9e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:51 +0000
Subject: [PATCH 21/52] fix: a send request without envelopes does not crash
 the node

---
 internal/routing/ingress_reverse_proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/routing/ingress_reverse_proxy.go b/internal/routing/ingress_reverse_proxy.go
index f30d4a7..7bcf24d 100644
--- a/internal/routing/ingress_reverse_proxy.go
+++ b/internal/routing/ingress_reverse_proxy.go
@@ -45,7 +45,7 @@ func (p *IngressReverseProxy) Send(ctx context.Context, r *rpc.SendRequest) (*rp
 
 	envelopesByNode := make(map[int][]*loggregator_v2.Envelope)
 
-	for _, e := range r.Envelopes.Batch {
+	for _, e := range r.GetEnvelopes().GetBatch() {
 		for _, idx := range p.l(e.GetSourceId()) {
 			envelopesByNode[idx] = append(envelopesByNode[idx], e)
 		}
-- 
2.43.0


From ba8bd98be0af6e3ba4c051172bca5f70024b1f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:51 +0000
Subject: [PATCH 22/52] fix: routing table leaves out unknown nodes

The ranges of an address the node does not know were given to node 0, and
an address without ranges crashed the node.
---
 internal/routing/routing_table.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/routing/routing_table.go b/internal/routing/routing_table.go
index 2f9a4f6..6710259 100644
--- a/internal/routing/routing_table.go
+++ b/internal/routing/routing_table.go
@@ -80,12 +80,18 @@ func (t *RoutingTable) SetRanges(ctx context.Context, in *rpc.SetRangesRequest)
 
 	t.table = nil
 	for addr, ranges := range in.Ranges {
-		for _, r := range ranges.Ranges {
+		idx, ok := t.addrs[addr]
+		if !ok {
+			// Not a node this one can route to
+			continue
+		}
+
+		for _, r := range ranges.GetRanges() {
 			var sr Range
 			sr.CloneRpcRange(r)
 
 			t.table = append(t.table, rangeInfo{
-				idx: t.addrs[addr],
+				idx: idx,
 				r:   sr,
 			})
 		}
-- 
2.43.0


From 3ede82649b39938a134ffa5f8e3970f4c982183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:51 +0000
Subject: [PATCH 23/52] fix: routing table lists each owner of an item once

A node whose ranges overlap was sent every envelope in them twice.
---
 internal/routing/routing_table.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/routing/routing_table.go b/internal/routing/routing_table.go
index 6710259..932c3f9 100644
--- a/internal/routing/routing_table.go
+++ b/internal/routing/routing_table.go
@@ -44,12 +44,23 @@ func (t *RoutingTable) Lookup(item string) []int {
 			// Outside of range
 			continue
 		}
-		result = append(result, r.idx)
+		result = appendIndex(result, r.idx)
 	}
 
 	return result
 }
 
+// appendIndex adds a node that has several ranges for an item only once.
+func appendIndex(indexes []int, idx int) []int {
+	for _, i := range indexes {
+		if i == idx {
+			return indexes
+		}
+	}
+
+	return append(indexes, idx)
+}
+
 // LookupAll returns every index that has a range where the item would
 // fall under.
 func (t *RoutingTable) LookupAll(item string) []int {
@@ -66,7 +77,7 @@ func (t *RoutingTable) LookupAll(item string) []int {
 		if i < 0 {
 			break
 		}
-		result = append(result, ranges[i].idx)
+		result = appendIndex(result, ranges[i].idx)
 		ranges = ranges[i+1:]
 	}
 
-- 
2.43.0


From b86e92c2a9ff67fdd566d2076238a3d22f4c6463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:07 +0000
Subject: [PATCH 24/52] fix: listed ranges do not change after the call

The list shared its memory with the agent, which removals then overwrote.
---
 internal/routing/orchestrator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/routing/orchestrator.go b/internal/routing/orchestrator.go
index 6c781ef..e8c2211 100644
--- a/internal/routing/orchestrator.go
+++ b/internal/routing/orchestrator.go
@@ -60,7 +60,7 @@ func (o *OrchestratorAgent) ListRanges(ctx context.Context, r *rpc.ListRangesReq
 	defer o.mu.RUnlock()
 
 	return &rpc.ListRangesResponse{
-		Ranges: o.ranges,
+		Ranges: append([]*rpc.Range(nil), o.ranges...),
 	}, nil
 }
 
-- 
2.43.0


From 7d2fa1e473c504dd406f74d252f9974a546c0fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:07 +0000
Subject: [PATCH 25/52] fix: range requests without a range are refused

One made every later removal crash the node.
---
 internal/routing/orchestrator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/routing/orchestrator.go b/internal/routing/orchestrator.go
index e8c2211..57eb14a 100644
--- a/internal/routing/orchestrator.go
+++ b/internal/routing/orchestrator.go
@@ -5,6 +5,8 @@ import (
 	"sync"
 
 	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
+	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
 )
 
 // OrchestratorAgent manages the Log Cache node's routes.
@@ -33,6 +35,10 @@ func (o *OrchestratorAgent) AddRange(ctx context.Context, r *rpc.AddRangeRequest
 	o.mu.Lock()
 	defer o.mu.Unlock()
 
+	if r.GetRange() == nil {
+		return nil, grpc.Errorf(codes.InvalidArgument, "a range is required")
+	}
+
 	o.ranges = append(o.ranges, r.Range)
 
 	return &rpc.AddRangeResponse{}, nil
@@ -44,6 +50,10 @@ func (o *OrchestratorAgent) RemoveRange(ctx context.Context, req *rpc.RemoveRang
 	o.mu.Lock()
 	defer o.mu.Unlock()
 
+	if req.GetRange() == nil {
+		return nil, grpc.Errorf(codes.InvalidArgument, "a range is required")
+	}
+
 	for i, r := range o.ranges {
 		if r.Start == req.Range.Start && r.End == req.Range.End {
 			o.ranges = append(o.ranges[:i], o.ranges[i+1:]...)
-- 
2.43.0


From 7f68094d30f49a27097d96fdba54c098db015394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:07 +0000
Subject: [PATCH 26/52] fix: a range added twice is listed once and removed
 once

---
 internal/routing/orchestrator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/routing/orchestrator.go b/internal/routing/orchestrator.go
index 57eb14a..8db9f5b 100644
--- a/internal/routing/orchestrator.go
+++ b/internal/routing/orchestrator.go
@@ -39,6 +39,12 @@ func (o *OrchestratorAgent) AddRange(ctx context.Context, r *rpc.AddRangeRequest
 		return nil, grpc.Errorf(codes.InvalidArgument, "a range is required")
 	}
 
+	for _, existing := range o.ranges {
+		if existing.Start == r.Range.Start && existing.End == r.Range.End {
+			return &rpc.AddRangeResponse{}, nil
+		}
+	}
+
 	o.ranges = append(o.ranges, r.Range)
 
 	return &rpc.AddRangeResponse{}, nil
-- 
2.43.0


From 3214dfd5938cbcb0a76d5d0650b8f70ff545a17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:07 +0000
Subject: [PATCH 27/52] fix: peer buffer takes envelopes from concurrent
 requests

The buffer was one for a single writer, so that concurrent requests lost
envelopes without counting them.
---
 internal/routing/batched_ingress_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/routing/batched_ingress_client.go b/internal/routing/batched_ingress_client.go
index 249520e..8d9cd21 100644
--- a/internal/routing/batched_ingress_client.go
+++ b/internal/routing/batched_ingress_client.go
@@ -18,7 +18,7 @@ import (
 type BatchedIngressClient struct {
 	c rpc.IngressClient
 
-	buffer   *diodes.OneToOne
+	buffer   *diodes.ManyToOne
 	size     int
 	interval time.Duration
 	log      *log.Logger
@@ -38,7 +38,7 @@ func NewBatchedIngressClient(
 		interval: interval,
 		log:      log,
 
-		buffer: diodes.NewOneToOne(10000, diodes.AlertFunc(func(dropped int) {
+		buffer: diodes.NewManyToOne(10000, diodes.AlertFunc(func(dropped int) {
 			log.Printf("dropped %d envelopes", dropped)
 			incDroppedMetric.Add(float64(dropped))
 		})),
-- 
2.43.0


From fd19cae7d98177529fa74879443233e16f12de6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 28/52] fix: PromQL times and steps that are not representable
 are refused

---
 internal/promql/parsing.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/internal/promql/parsing.go b/internal/promql/parsing.go
index c847123..1c6ccc9 100644
--- a/internal/promql/parsing.go
+++ b/internal/promql/parsing.go
@@ -4,15 +4,23 @@ import (
 	"fmt"
 	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/prometheus/common/model"
 )
 
+// minTime and maxTime are the first and the last whole second whose
+// neighbours fit into int64 nanoseconds since the epoch.
+const (
+	minTime = -9223372035
+	maxTime = 9223372035
+)
+
 func ParseStep(param string) (time.Duration, error) {
 	if step, err := strconv.ParseFloat(param, 64); err == nil {
 		stepInNanoSeconds := step * float64(time.Second)
-		if stepInNanoSeconds > float64(math.MaxInt64) || stepInNanoSeconds < float64(math.MinInt64) {
+		if math.IsNaN(stepInNanoSeconds) || stepInNanoSeconds >= float64(math.MaxInt64) || stepInNanoSeconds < float64(math.MinInt64) {
 			return 0, fmt.Errorf("cannot parse %q to a valid step. It overflows int64", param)
 		}
 		return time.Duration(stepInNanoSeconds), nil
@@ -29,14 +37,33 @@ func ParseDuration(param string) (time.Duration, error) {
 		return 0, fmt.Errorf("cannot parse %q to a valid duration", param)
 	}
 
+	// model.ParseDuration does not notice overflows.
+	number := strings.TrimRight(param, "ywdhms")
+	unit, err := model.ParseDuration("1" + param[len(number):])
+	if err != nil {
+		return 0, fmt.Errorf("cannot parse %q to a valid duration", param)
+	}
+	n, err := strconv.ParseInt(number, 10, 64)
+	if err != nil || n > math.MaxInt64/int64(unit) {
+		return 0, fmt.Errorf("cannot parse %q to a valid duration. It overflows int64", param)
+	}
+
 	return time.Duration(duration), nil
 }
 
 func ParseTime(param string) (time.Time, error) {
 	if decimalTime, err := strconv.ParseFloat(param, 64); err == nil {
-		return time.Unix(0, int64(decimalTime*1e9)), nil
+		seconds, fraction := math.Modf(decimalTime)
+		// This also refuses NaN.
+		if !(seconds >= minTime && seconds <= maxTime) {
+			return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid timestamp. It overflows int64 nanoseconds", param)
+		}
+		return time.Unix(int64(seconds), int64(math.Round(fraction*1000))*int64(time.Millisecond)), nil
 	}
 	if t, err := time.Parse(time.RFC3339Nano, param); err == nil {
+		if t.Unix() < minTime || t.Unix() > maxTime {
+			return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid timestamp. It overflows int64 nanoseconds", param)
+		}
 		return t, nil
 	}
 	return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid Unix or RFC3339 timestamp", param)
-- 
2.43.0


From 5a22568144c4693b16b529e5ca98d645a55196b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 29/52] fix: range queries with an impossible range or too many
 points are refused

---
 internal/promql/promql.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index e814c26..7fbc560 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -178,6 +178,10 @@ func (q *PromQL) toInstantQueryResult(r *promql.Result) (*logcache_v1.PromQL_Ins
 	}
 }
 
+// maxRangePoints is how many points a range query may yield per series. It is
+// the limit of Prometheus's API.
+const maxRangePoints = 11000
+
 func (q *PromQL) RangeQuery(ctx context.Context, req *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
 	var closureErr error
 	interval := time.Second
@@ -198,7 +202,6 @@ func (q *PromQL) RangeQuery(ctx context.Context, req *logcache_v1.PromQL_RangeQu
 		return nil, fmt.Errorf("couldn't parse step: %s", err)
 	}
 
-	// TODO: Should there be some boundary checking on Start and End?
 	startTime, err := ParseTime(req.Start)
 	if err != nil {
 		return nil, fmt.Errorf("couldn't parse start: %s", err)
@@ -209,6 +212,19 @@ func (q *PromQL) RangeQuery(ctx context.Context, req *logcache_v1.PromQL_RangeQu
 		return nil, fmt.Errorf("couldn't parse end: %s", err)
 	}
 
+	if endTime.Before(startTime) {
+		return nil, fmt.Errorf("end %q is before start %q", req.End, req.Start)
+	}
+
+	// Prometheus works in milliseconds.
+	if step < time.Millisecond {
+		return nil, fmt.Errorf("step %q is too small, the minimum is 1ms", req.Step)
+	}
+
+	if endTime.Sub(startTime)/step > maxRangePoints {
+		return nil, fmt.Errorf("exceeded maximum resolution of %d points per timeseries", maxRangePoints)
+	}
+
 	qq, err := queryable.NewRangeQuery(lcq, req.Query, startTime, endTime, step)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 874f1899a9739a684c181808d3fdb774e7acb2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 30/52] fix: deeply nested queries do not overflow the stack

---
 internal/promql/promql.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 7fbc560..59005e3 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -58,7 +58,23 @@ func New(
 	return q
 }
 
+// maxQueryLength is the length up to which a query is parsed. How deep the
+// parser and the engine recurse depends on the query, and a stack overflow
+// ends the process.
+const maxQueryLength = 64 * 1024
+
+func checkLength(query string) error {
+	if len(query) > maxQueryLength {
+		return fmt.Errorf("query is too long: %d bytes, the maximum is %d", len(query), maxQueryLength)
+	}
+	return nil
+}
+
 func (q *PromQL) InstantQuery(ctx context.Context, req *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
+	if err := checkLength(req.Query); err != nil {
+		return nil, err
+	}
+
 	var closureErr error
 	interval := time.Second
 	lcq := &logCacheQueryable{
@@ -183,6 +199,10 @@ func (q *PromQL) toInstantQueryResult(r *promql.Result) (*logcache_v1.PromQL_Ins
 const maxRangePoints = 11000
 
 func (q *PromQL) RangeQuery(ctx context.Context, req *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
+	if err := checkLength(req.Query); err != nil {
+		return nil, err
+	}
+
 	var closureErr error
 	interval := time.Second
 	lcq := &logCacheQueryable{
@@ -603,6 +623,10 @@ func (b *seriesSetBuilder) buildSeriesSet() storage.SeriesSet {
 
 // TODO - move elsewhere and clean up [#160353522]
 func ExtractSourceIds(query string) ([]string, error) {
+	if err := checkLength(query); err != nil {
+		return nil, err
+	}
+
 	expr, err := promql.ParseExpr(query)
 	if err != nil {
 		return nil, err
@@ -671,6 +695,10 @@ func addSourceIDsFromLabelMatcher(sourceIDs map[string]struct{}, labelMatcher *l
 }
 
 func ReplaceSourceIdSets(query string, sourceIDExpansions map[string][]string) (string, error) {
+	if err := checkLength(query); err != nil {
+		return "", err
+	}
+
 	expr, err := promql.ParseExpr(query)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 33ffcb3c400f23be02ab2f76efff6b1f8e7216e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 31/52] fix: selectors honour every label matcher

---
 internal/promql/promql.go | 91 +++++++++++++++++++++++++++------------
 1 file changed, 64 insertions(+), 27 deletions(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 59005e3..7a810f8 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -335,22 +335,17 @@ type LogCacheQuerier struct {
 func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Matcher) (storage.SeriesSet, error) {
 	var (
 		metric string
-		ls     []labels.Label
+		named  bool
 	)
 	sourceIDs := make(map[string]struct{})
-	for _, l := range ll {
-		if l.Name == "__name__" {
-			metric = l.Value
-			continue
+	for _, m := range ll {
+		if m.Name == "__name__" && m.Type == labels.MatchEqual {
+			metric = m.Value
+			named = true
 		}
-		if l.Name == "source_id" {
-			addSourceIDsFromLabelMatcher(sourceIDs, l)
-			continue
+		if m.Name == "source_id" {
+			addSourceIDsFromLabelMatcher(sourceIDs, m)
 		}
-		ls = append(ls, labels.Label{
-			Name:  l.Name,
-			Value: l.Value,
-		})
 	}
 
 	if len(sourceIDs) == 0 {
@@ -359,6 +354,12 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 		return nil, err
 	}
 
+	if !named {
+		err := fmt.Errorf("A selector does not have a metric name.")
+		l.errf(err)
+		return nil, err
+	}
+
 	builder := newSeriesBuilder()
 
 	for sourceID := range sourceIDs {
@@ -379,8 +380,21 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 			return nil, err
 		}
 
+		if !l.hasSourceID(sourceID, ll) {
+			continue
+		}
+
 		for _, e := range envelopeBatch.GetEnvelopes().GetBatch() {
-			if !l.hasLabels(e.GetTags(), ls) {
+			tags := make(map[string]string)
+			for k, v := range e.GetTags() {
+				tags[k] = v
+			}
+			tags["source_id"] = e.SourceId
+			if e.InstanceId != "" {
+				tags["instance_id"] = e.InstanceId
+			}
+
+			if !l.hasLabels(metric, tags, ll) {
 				continue
 			}
 
@@ -413,16 +427,6 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 
 			e.Timestamp = time.Unix(0, e.GetTimestamp()).Truncate(l.interval).UnixNano()
 
-			tags := e.GetTags()
-			if tags == nil {
-				tags = make(map[string]string)
-			}
-
-			tags["source_id"] = e.SourceId
-			if e.InstanceId != "" {
-				tags["instance_id"] = e.InstanceId
-			}
-
 			builder.add(tags, point{
 				t: e.GetTimestamp() / int64(time.Millisecond),
 				v: f,
@@ -463,10 +467,43 @@ func convertToLabels(tags map[string]string) []labels.Label {
 	return ls
 }
 
-func (l *LogCacheQuerier) hasLabels(tags map[string]string, ls []labels.Label) bool {
-	for _, l := range ls {
-		if v, ok := tags[l.Name]; !ok || v != l.Value {
-			return false
+// hasSourceID tells whether every source_id matcher accepts the source ID. The
+// alternatives of a regular expression stand for themselves.
+func (l *LogCacheQuerier) hasSourceID(sourceID string, ll []*labels.Matcher) bool {
+	for _, m := range ll {
+		if m.Name != "source_id" {
+			continue
+		}
+
+		switch m.Type {
+		case labels.MatchEqual, labels.MatchRegexp:
+			sourceIDs := make(map[string]struct{})
+			addSourceIDsFromLabelMatcher(sourceIDs, m)
+			if _, ok := sourceIDs[sourceID]; !ok {
+				return false
+			}
+		default:
+			if !m.Matches(sourceID) {
+				return false
+			}
+		}
+	}
+
+	return true
+}
+
+func (l *LogCacheQuerier) hasLabels(metric string, tags map[string]string, ll []*labels.Matcher) bool {
+	for _, m := range ll {
+		switch m.Name {
+		case "source_id":
+		case "__name__":
+			if !m.Matches(metric) {
+				return false
+			}
+		default:
+			if !m.Matches(tags[m.Name]) {
+				return false
+			}
 		}
 	}
 
-- 
2.43.0


From c77446136c5a0d9aa4ee99c6fae75504f610157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 32/52] fix: different label sets are different series

---
 internal/promql/promql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 7a810f8..e4e491b 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 	"time"
 
@@ -637,7 +638,7 @@ func (b *seriesSetBuilder) getSeriesID(tags map[string]string) string {
 
 	var seriesID string
 	for _, k := range keys {
-		seriesID = seriesID + "-" + k + "-" + tags[k]
+		seriesID = seriesID + strconv.Quote(k) + strconv.Quote(tags[k])
 	}
 
 	return seriesID
-- 
2.43.0


From fec47fed05fe597237f63ad297fffa563a8b68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 33/52] fix: reads of a query end with the query

---
 internal/promql/promql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index e4e491b..bf5759f 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -364,7 +364,7 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 	builder := newSeriesBuilder()
 
 	for sourceID := range sourceIDs {
-		ctx, _ := context.WithTimeout(context.Background(), 5*time.Second)
+		ctx, _ := context.WithTimeout(l.ctx, 5*time.Second)
 		envelopeBatch, err := l.dataReader.Read(ctx, &logcache_v1.ReadRequest{
 			SourceId:  sourceID,
 			StartTime: l.start.Add(-time.Second).UnixNano(),
-- 
2.43.0


From e553266f38eccce01175359122d30f69e9c35d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 34/52] fix: query windows beyond int64 nanoseconds do not wrap
 around

---
 internal/promql/promql.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index bf5759f..5d869db 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -315,14 +315,26 @@ func (l *logCacheQueryable) Querier(ctx context.Context, mint int64, maxt int64)
 	return &LogCacheQuerier{
 		log:        l.log,
 		ctx:        ctx,
-		start:      time.Unix(0, mint*int64(time.Millisecond)),
-		end:        time.Unix(0, maxt*int64(time.Millisecond)),
+		start:      queryTime(mint),
+		end:        queryTime(maxt),
 		interval:   l.interval,
 		dataReader: l.dataReader,
 		errf:       l.errf,
 	}, nil
 }
 
+// queryTime converts milliseconds into a time whose nanoseconds, and those a
+// second earlier, fit into an int64.
+func queryTime(ms int64) time.Time {
+	if ms < minTime*1000 {
+		ms = minTime * 1000
+	}
+	if ms > maxTime*1000 {
+		ms = maxTime * 1000
+	}
+	return time.Unix(0, ms*int64(time.Millisecond))
+}
+
 type LogCacheQuerier struct {
 	log        *log.Logger
 	ctx        context.Context
-- 
2.43.0


From f06d9e02b8986e4015cd18bd1cfd579f6176617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 35/52] fix: source ids without expansions stay in regular
 expressions

---
 internal/promql/promql.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 5d869db..024caab 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -822,7 +822,10 @@ func (s *sourceIdReplacementVisitor) replaceSourceIdsInRegexpMatcher(labelMatche
 	startingSourceIds := strings.Split(labelMatcher.Value, "|")
 
 	for _, sourceId := range startingSourceIds {
-		sourceIdExpansions := s.sourceIdSets[sourceId]
+		sourceIdExpansions, ok := s.sourceIdSets[sourceId]
+		if !ok {
+			sourceIdExpansions = []string{sourceId}
+		}
 		expansions = append(expansions, sourceIdExpansions...)
 	}
 
-- 
2.43.0


From 7c554936092d5aecf4b54f8aabbe6b6ac4c7130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 36/52] fix: replacing source ids keeps metric names given as
 labels

---
 internal/promql/promql.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 024caab..2bf00dd 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -782,14 +782,29 @@ func (s *sourceIdReplacementVisitor) Visit(node promql.Node, _ []promql.Node) (p
 
 	switch selector := node.(type) {
 	case *promql.VectorSelector:
+		selector.Name = metricName(selector.Name, selector.LabelMatchers)
 		s.replaceInMatchers(selector.LabelMatchers)
 	case *promql.MatrixSelector:
+		selector.Name = metricName(selector.Name, selector.LabelMatchers)
 		s.replaceInMatchers(selector.LabelMatchers)
 	}
 
 	return s, nil
 }
 
+var validMetricName = regexp.MustCompile(`^[a-zA-Z_:][a-zA-Z0-9_:]*$`)
+
+// metricName returns the name a selector is to be printed with. Prometheus
+// does not print the name if it is given by a matcher.
+func metricName(name string, labelMatchers []*labels.Matcher) string {
+	for _, m := range labelMatchers {
+		if name == "" && m.Name == "__name__" && m.Type == labels.MatchEqual && validMetricName.MatchString(m.Value) {
+			name = m.Value
+		}
+	}
+	return name
+}
+
 func (s *sourceIdReplacementVisitor) replaceInMatchers(labelMatchers []*labels.Matcher) {
 	for _, labelMatcher := range labelMatchers {
 		if labelMatcher.Name == "source_id" {
-- 
2.43.0


From f840b86521793ab41bafd087252ef3c79f34a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 37/52] fix: scheduler stops setting tables when it loses
 leadership

---
 internal/scheduler/scheduler.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/scheduler/scheduler.go b/internal/scheduler/scheduler.go
index c2baec8..d3caf4c 100644
--- a/internal/scheduler/scheduler.go
+++ b/internal/scheduler/scheduler.go
@@ -152,9 +152,7 @@ func (s *Scheduler) Start() {
 			// orchestrator to go and query for updates.
 			s.logCacheOrch.NextTerm(context.Background())
 
-			if s.isLeader() {
-				s.setRemoteTables(s.logCacheClients, s.convertWorkerState(s.logCacheOrch.LastActual()))
-			}
+			s.setRemoteTables(s.logCacheClients, s.convertWorkerState(s.logCacheOrch.LastActual()))
 		}
 	}()
 }
@@ -165,6 +163,11 @@ func (s *Scheduler) setRemoteTables(clients []clientInfo, m map[string]*rpc.Rang
 	}
 
 	for _, lc := range clients {
+		// A slow node may outlast the leadership.
+		if !s.isLeader() {
+			return
+		}
+
 		ctx, _ := context.WithTimeout(context.Background(), 5*time.Second)
 		if _, err := lc.l.SetRanges(ctx, req); err != nil {
 			s.log.Printf("failed to set remote table: %s", err)
-- 
2.43.0


From 04968d4f3385805066e1ced98edc10bb81650103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 38/52] fix: scheduler releases the connection to the
 leadership endpoint and gives up on it

---
 cmd/scheduler/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/scheduler/main.go b/cmd/scheduler/main.go
index ac9eca2..93c0979 100644
--- a/cmd/scheduler/main.go
+++ b/cmd/scheduler/main.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	_ "net/http/pprof"
 	"os"
+	"time"
 
 	envstruct "code.cloudfoundry.org/go-envstruct"
 	. "code.cloudfoundry.org/log-cache/internal/scheduler"
@@ -36,12 +37,14 @@ func main() {
 	}
 
 	if cfg.LeaderElectionEndpoint != "" {
+		client := &http.Client{Timeout: 5 * time.Second}
 		opts = append(opts, WithSchedulerLeadership(func() bool {
-			resp, err := http.Get(cfg.LeaderElectionEndpoint)
+			resp, err := client.Get(cfg.LeaderElectionEndpoint)
 			if err != nil {
 				log.Printf("failed to read from leaderhip endpoint: %s", err)
 				return false
 			}
+			defer resp.Body.Close()
 
 			return resp.StatusCode == http.StatusOK
 		}))
-- 
2.43.0


From 1106f151d8906c8e4ab506acdc6652c8435a150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 39/52] fix: syslog server crashed on messages with nil fields

---
 internal/syslog/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/syslog/server.go b/internal/syslog/server.go
index 7007d7b..d7c2f65 100644
--- a/internal/syslog/server.go
+++ b/internal/syslog/server.go
@@ -152,6 +152,10 @@ func (s *Server) parseListener(res *syslog.Result) {
 }
 
 func (s *Server) convertToEnvelope(msg syslog.Message) (*loggregator_v2.Envelope, error) {
+	if msg.Appname() == nil || msg.ProcID() == nil || msg.Timestamp() == nil {
+		return nil, errors.New("expected app name, process id and timestamp in message")
+	}
+
 	sourceType, instanceId := s.sourceTypeInstIdFromPID(*msg.ProcID())
 	env := &loggregator_v2.Envelope{
 		SourceId:   *msg.Appname(),
@@ -176,6 +180,10 @@ func (s *Server) convertToEnvelope(msg syslog.Message) (*loggregator_v2.Envelope
 		}
 	}
 
+	if msg.Message() == nil || msg.Priority() == nil {
+		return nil, errors.New("expected text and priority in log message")
+	}
+
 	env.Message = &loggregator_v2.Envelope_Log{
 		Log: &loggregator_v2.Log{
 			Payload: []byte(strings.TrimSpace(*msg.Message())),
-- 
2.43.0


From 785103aca8b6d3f17a9acf4de96028d9dcef6f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 40/52] fix: syslog timestamps beyond the range of nanoseconds
 were sent wrapped around

---
 internal/syslog/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/syslog/server.go b/internal/syslog/server.go
index d7c2f65..42513cc 100644
--- a/internal/syslog/server.go
+++ b/internal/syslog/server.go
@@ -156,10 +156,15 @@ func (s *Server) convertToEnvelope(msg syslog.Message) (*loggregator_v2.Envelope
 		return nil, errors.New("expected app name, process id and timestamp in message")
 	}
 
+	timestamp := msg.Timestamp().UnixNano()
+	if !time.Unix(0, timestamp).Equal(*msg.Timestamp()) {
+		return nil, fmt.Errorf("timestamp cannot be expressed in nanoseconds: %s", msg.Timestamp())
+	}
+
 	sourceType, instanceId := s.sourceTypeInstIdFromPID(*msg.ProcID())
 	env := &loggregator_v2.Envelope{
 		SourceId:   *msg.Appname(),
-		Timestamp:  msg.Timestamp().UnixNano(),
+		Timestamp:  timestamp,
 		InstanceId: instanceId,
 	}
 
-- 
2.43.0


From de7a0e12540381c80680e7ffbe3bdaa131c9e512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 41/52] fix: syslog server marked its writes local only, so
 they never reached the node that serves their source

---
 cmd/syslog-server/main.go                  |  2 +-
 internal/routing/batched_ingress_client.go | 22 +++++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cmd/syslog-server/main.go b/cmd/syslog-server/main.go
index c962159..586ee3a 100644
--- a/cmd/syslog-server/main.go
+++ b/cmd/syslog-server/main.go
@@ -49,7 +49,7 @@ func main() {
 
 	server := syslog.NewServer(
 		loggr,
-		routing.NewBatchedIngressClient(BATCH_CHANNEL_SIZE, BATCH_FLUSH_INTERVAL, client, egressDropped, loggr),
+		routing.NewBatchedIngressClient(BATCH_CHANNEL_SIZE, BATCH_FLUSH_INTERVAL, client, egressDropped, loggr, routing.WithLocalOnlyDisabled()),
 		m,
 		cfg.SyslogTLSCertPath,
 		cfg.SyslogTLSKeyPath,
diff --git a/internal/routing/batched_ingress_client.go b/internal/routing/batched_ingress_client.go
index 8d9cd21..560c496 100644
--- a/internal/routing/batched_ingress_client.go
+++ b/internal/routing/batched_ingress_client.go
@@ -22,6 +22,19 @@ type BatchedIngressClient struct {
 	size     int
 	interval time.Duration
 	log      *log.Logger
+
+	localOnly bool
+}
+
+// BatchedIngressClientOption configures a BatchedIngressClient.
+type BatchedIngressClientOption func(*BatchedIngressClient)
+
+// WithLocalOnlyDisabled lets the Log Cache node that receives the envelopes
+// route them to the nodes they belong to. By default it has to keep them.
+func WithLocalOnlyDisabled() BatchedIngressClientOption {
+	return func(b *BatchedIngressClient) {
+		b.localOnly = false
+	}
 }
 
 // NewBatchedIngressClient returns a new BatchedIngressClient.
@@ -31,6 +44,7 @@ func NewBatchedIngressClient(
 	c rpc.IngressClient,
 	incDroppedMetric metrics.Counter,
 	log *log.Logger,
+	opts ...BatchedIngressClientOption,
 ) *BatchedIngressClient {
 	b := &BatchedIngressClient{
 		c:        c,
@@ -42,6 +56,12 @@ func NewBatchedIngressClient(
 			log.Printf("dropped %d envelopes", dropped)
 			incDroppedMetric.Add(float64(dropped))
 		})),
+
+		localOnly: true,
+	}
+
+	for _, opt := range opts {
+		opt(b)
 	}
 
 	go b.start()
@@ -79,7 +99,7 @@ func (b *BatchedIngressClient) write(batch []interface{}) {
 
 	ctx, _ := context.WithTimeout(context.Background(), 3*time.Second)
 	_, err := b.c.Send(ctx, &rpc.SendRequest{
-		LocalOnly: true,
+		LocalOnly: b.localOnly,
 		Envelopes: &loggregator_v2.EnvelopeBatch{Batch: e},
 	})
 
-- 
2.43.0


From 30c2b34c9a5460c758f10af8c83803d35f482d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 42/52] fix: syslog server stopped for good when it could not
 accept a connection

---
 internal/syslog/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/syslog/server.go b/internal/syslog/server.go
index 42513cc..0399e4f 100644
--- a/internal/syslog/server.go
+++ b/internal/syslog/server.go
@@ -20,6 +20,10 @@ import (
 	"sync"
 )
 
+// acceptRetryInterval is how long the server waits after it could not accept
+// a connection, e.g. because it had too many of them.
+const acceptRetryInterval = 50 * time.Millisecond
+
 type Server struct {
 	sync.Mutex
 	port           int
@@ -91,6 +95,11 @@ func (s *Server) Start() {
 
 	for {
 		c, err := l.Accept()
+		if ne, ok := err.(net.Error); ok && ne.Temporary() {
+			s.loggr.Printf("syslog server could not accept a connection: %s", err)
+			time.Sleep(acceptRetryInterval)
+			continue
+		}
 		if err != nil {
 			s.loggr.Printf("syslog server no longer accepting connections: %s", err)
 			return
-- 
2.43.0


From 4a564870852556e5c679134fa368093ef9a904e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 43/52] fix: tokens whose key id or algorithm is no string made
 the auth proxy panic

---
 internal/auth/uaa_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index 81b6adb..9da9c88 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -179,10 +179,13 @@ func (c *UAAClient) Read(token string) (Oauth2ClientContext, error) {
 
 	payload, _, err := jose.Decode(trimBearer(token), func(headers map[string]interface{}, payload string) interface{} {
 		if headers["alg"] != "RS256" {
-			return AlgorithmError{Alg: headers["alg"].(string)}
+			return AlgorithmError{Alg: fmt.Sprint(headers["alg"])}
 		}
 
-		keyId := headers["kid"].(string)
+		keyId, ok := headers["kid"].(string)
+		if !ok {
+			return UnknownTokenKeyError{Kid: fmt.Sprint(headers["kid"])}
+		}
 
 		publicKey, err := c.loadOrFetchPublicKey(keyId)
 		if err != nil {
-- 
2.43.0


From 1049ad36ccff606b11956633901d574bf935cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 44/52] fix: UAA responses with an error status were never
 closed

---
 internal/auth/uaa_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index 9da9c88..5106bd9 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -100,11 +100,11 @@ func (c *UAAClient) RefreshTokenKeys() error {
 	if err != nil {
 		return fmt.Errorf("failed to get token keys from UAA: %s", err)
 	}
+	defer resp.Body.Close()
 
 	if resp.StatusCode != http.StatusOK {
 		return fmt.Errorf("got an invalid status code talking to UAA %v", resp.Status)
 	}
-	defer resp.Body.Close()
 
 	tokenKeys, err := unmarshalTokenKeys(resp.Body)
 	if err != nil {
-- 
2.43.0


From 1c58f0d4304d3dfcae68a67877b660332190f9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 45/52] fix: concurrent token reads asked UAA several times at
 once, or refused valid tokens while it was asked

---
 internal/auth/uaa_client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index 5106bd9..f8cb8ce 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -36,6 +36,7 @@ type UAAClient struct {
 	publicKeys             sync.Map
 	minimumRefreshInterval time.Duration
 	lastQueryTime          int64
+	refreshMu              sync.Mutex
 }
 
 func NewUAAClient(
@@ -76,6 +77,11 @@ func WithMinimumRefreshInterval(interval time.Duration) UAAOption {
 }
 
 func (c *UAAClient) RefreshTokenKeys() error {
+	// Concurrent callers wait for the refresh under way rather than going
+	// without its keys or asking UAA again.
+	c.refreshMu.Lock()
+	defer c.refreshMu.Unlock()
+
 	lastQueryTime := atomic.LoadInt64(&c.lastQueryTime)
 	nextAllowedRefreshTime := time.Unix(0, lastQueryTime).Add(c.minimumRefreshInterval)
 	if time.Now().Before(nextAllowedRefreshTime) {
-- 
2.43.0


From 3bcc9baea4a9bb088db9e704de9549c65178e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 46/52] fix: access log wrote requests with HTML entities in
 place of their characters

---
 internal/auth/access_log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/auth/access_log.go b/internal/auth/access_log.go
index f7c7d3d..ba16ef1 100644
--- a/internal/auth/access_log.go
+++ b/internal/auth/access_log.go
@@ -3,11 +3,11 @@ package auth
 import (
 	"bytes"
 	"fmt"
-	"html/template"
 	"log"
 	"net"
 	"net/http"
 	"strings"
+	"text/template"
 	"time"
 )
 
-- 
2.43.0


From 82779eeb6cc66168faf592c9a2679d6be049cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 47/52] fix: escaped line breaks in a request path added lines
 to the access log

---
 internal/auth/access_log.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/auth/access_log.go b/internal/auth/access_log.go
index ba16ef1..8fff938 100644
--- a/internal/auth/access_log.go
+++ b/internal/auth/access_log.go
@@ -44,9 +44,9 @@ func NewAccessLog(req *http.Request, ts time.Time, host, port string) *AccessLog
 
 func (al *AccessLog) String() string {
 	vcapRequestId := al.request.Header.Get(requestIDHeader)
-	path := al.request.URL.Path
+	path := al.request.URL.EscapedPath()
 	if al.request.URL.RawQuery != "" {
-		path = fmt.Sprintf("%s?%s", al.request.URL.Path, al.request.URL.RawQuery)
+		path = fmt.Sprintf("%s?%s", path, al.request.URL.RawQuery)
 	}
 	remoteHost, remotePort := al.extractRemoteInfo()
 
-- 
2.43.0


From 469cf3e8fd8f01837108ef1372e078fa60ca4997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 48/52] fix: request ids, source addresses and bars in a
 request could forge fields of the access log

---
 internal/auth/access_log.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/auth/access_log.go b/internal/auth/access_log.go
index 8fff938..5bf189e 100644
--- a/internal/auth/access_log.go
+++ b/internal/auth/access_log.go
@@ -15,11 +15,19 @@ const requestIDHeader = "X-Vcap-Request-ID"
 
 var logTemplate *template.Template
 
+// A bar ends a header field of a line in the Common Event Format, and an
+// equals sign after a space begins another extension.
+var (
+	headerEscaper    = strings.NewReplacer(`\`, `\\`, `|`, `\|`)
+	extensionEscaper = strings.NewReplacer(`\`, `\\`, `=`, `\=`)
+)
+
 type templateContext struct {
 	Timestamp       int64
 	RequestID       string
 	Path            string
 	Method          string
+	Name            string
 	SourceHost      string
 	SourcePort      string
 	DestinationHost string
@@ -52,10 +60,11 @@ func (al *AccessLog) String() string {
 
 	context := templateContext{
 		toMillis(al.timestamp),
-		vcapRequestId,
+		extensionEscaper.Replace(vcapRequestId),
 		path,
 		al.request.Method,
-		remoteHost,
+		headerEscaper.Replace(al.request.Method + " " + path),
+		extensionEscaper.Replace(remoteHost),
 		remotePort,
 		al.host,
 		al.port,
@@ -114,8 +123,8 @@ func init() {
 		"cloud_foundry",
 		"log_cache",
 		"1.0",
-		"{{ .Method }} {{ .Path }}",
-		"{{ .Method }} {{ .Path }}",
+		"{{ .Name }}",
+		"{{ .Name }}",
 		"0",
 		strings.Join(extensions, " "),
 	}
-- 
2.43.0


From 0dbc886ab574994f31d43b1c2ecc4eb8b50d1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 49/52] fix: access log lost the source address of requests
 forwarded for IPv6 clients

---
 internal/auth/access_log.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/auth/access_log.go b/internal/auth/access_log.go
index 5bf189e..3d57c50 100644
--- a/internal/auth/access_log.go
+++ b/internal/auth/access_log.go
@@ -92,6 +92,9 @@ func (al *AccessLog) extractRemoteInfo() (string, string) {
 	if !strings.Contains(remoteAddr, ":") {
 		remoteAddr += ":"
 	}
+	if net.ParseIP(remoteAddr) != nil {
+		return remoteAddr, ""
+	}
 	host, port, err := net.SplitHostPort(remoteAddr)
 	if err != nil {
 		log.Printf("Error splitting host and port for access log: %s\n", err)
-- 
2.43.0


From a40aceee8a9c1146a0b3d55ff76e411891fb45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 50/52] fix: nodes refuse and lose batches of more than 4 MB

gRPC accepts messages of up to 4 MB unless told otherwise. A batch of the
nozzle (512 envelopes) or for a peer (100 envelopes), and the answer of a peer
to a read (1000 envelopes) can take more than that with logs as long as
Loggregator allows (60 KB).
---
 internal/cache/log_cache.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/cache/log_cache.go b/internal/cache/log_cache.go
index 219c6ac..5daf87f 100644
--- a/internal/cache/log_cache.go
+++ b/internal/cache/log_cache.go
@@ -20,6 +20,10 @@ import (
 	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
 )
 
+// maxMessageSize bounds the gRPC messages that a node accepts. The default of
+// 4 MB is less than what a full batch of envelopes or a full read can take.
+const maxMessageSize = 50 * 1024 * 1024
+
 type Metrics interface {
 	NewCounter(name string, opts ...metrics.MetricOption) metrics.Counter
 	NewGauge(name string, opts ...metrics.MetricOption) metrics.Gauge
@@ -191,10 +195,14 @@ func (c *LogCache) setupRouting(s *store.Store) {
 
 	lcr := routing.NewLocalStoreReader(s)
 
+	dialOpts := append([]grpc.DialOption{
+		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxMessageSize)),
+	}, c.dialOpts...)
+
 	// Register peers and current node
 	for i, addr := range c.nodeAddrs {
 		if i != c.nodeIndex {
-			conn, err := grpc.Dial(addr, c.dialOpts...)
+			conn, err := grpc.Dial(addr, dialOpts...)
 			if err != nil {
 				log.Printf("failed to dial %s: %s", addr, err)
 				continue
@@ -232,13 +240,15 @@ func (c *LogCache) setupRouting(s *store.Store) {
 
 	promQL := promql.New(
 		data_reader.NewWalkingDataReader(
-			client.NewClient(c.Addr(), client.WithViaGRPC(c.dialOpts...)).Read,
+			client.NewClient(c.Addr(), client.WithViaGRPC(dialOpts...)).Read,
 		),
 		c.metrics,
 		c.log,
 		c.queryTimeout,
 	)
-	c.server = grpc.NewServer(c.serverOpts...)
+	c.server = grpc.NewServer(append([]grpc.ServerOption{
+		grpc.MaxRecvMsgSize(maxMessageSize),
+	}, c.serverOpts...)...)
 
 	go func() {
 		logcache_v1.RegisterIngressServer(c.server, ingressReverseProxy)
-- 
2.43.0


From ef63da4753d745b36b097a0e9c35702a4cf41c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 51/52] fix: the gateway fails reads of more than 4 MB

gRPC accepts messages of up to 4 MB unless told otherwise, and 1000 envelopes
with logs as long as Loggregator allows (60 KB) take more.
---
 internal/gateway/gateway.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/gateway/gateway.go b/internal/gateway/gateway.go
index 52627ad..4a30ef9 100644
--- a/internal/gateway/gateway.go
+++ b/internal/gateway/gateway.go
@@ -133,7 +133,10 @@ func (g *Gateway) listenAndServe() {
 
 	runtime.HTTPError = g.httpErrorHandler
 
-	conn, err := grpc.Dial(g.logCacheAddr, g.logCacheDialOpts...)
+	// A full read can take more than the 4 MB that gRPC accepts by default.
+	conn, err := grpc.Dial(g.logCacheAddr, append([]grpc.DialOption{
+		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(50 * 1024 * 1024)),
+	}, g.logCacheDialOpts...)...)
 	if err != nil {
 		g.log.Fatalf("failed to dial Log Cache: %s", err)
 	}
-- 
2.43.0


From efa3de01c1e5b893e9e33b4447ac20b2b472e667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 52/52] fix: keep no partial cluster meta when the caller gave
 up

---
 internal/routing/egress_reverse_proxy.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/routing/egress_reverse_proxy.go b/internal/routing/egress_reverse_proxy.go
index 86ab668..b01e800 100644
--- a/internal/routing/egress_reverse_proxy.go
+++ b/internal/routing/egress_reverse_proxy.go
@@ -126,6 +126,12 @@ func (e *EgressReverseProxy) remoteMeta(ctx context.Context, in *rpc.MetaRequest
 		return nil, errors.New("failed to read meta data from remote node")
 	}
 
+	// Nodes count as unreachable once the caller is gone. That is no answer to
+	// keep for others.
+	if len(errs) > 0 && ctx.Err() != nil {
+		return nil, ctx.Err()
+	}
+
 	atomic.StorePointer(&e.remoteMetaCache, unsafe.Pointer(&metaCache{
 		duration:  e.metaCacheDuration,
 		timestamp: time.Now(),
-- 
2.43.0

