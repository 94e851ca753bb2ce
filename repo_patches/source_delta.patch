From 4e8c8f71eaf0e5395db8cb2c8ab9bd15088c3fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 01/46] fix: WorkQueue.get lost wakeup when a woken consumer is
 cancelled

---
 dask-gateway-server/dask_gateway_server/workqueue.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/workqueue.py b/dask-gateway-server/dask_gateway_server/workqueue.py
index a479b47..5b1bd70 100644
--- a/dask-gateway-server/dask_gateway_server/workqueue.py
+++ b/dask-gateway-server/dask_gateway_server/workqueue.py
@@ -158,6 +158,10 @@ class WorkQueue:
                     self._waiting.remove(waiter)
                 except ValueError:
                     pass
+                if self._queue and not waiter.cancelled():
+                    # We were woken up, but cancelled before we could take the
+                    # item. Wake up the next consumer instead.
+                    self._wakeup_next()
                 raise
         return self._get()
 
-- 
2.43.0


From 85a7a44616885f198b086f4edbacae4248a9b163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 02/46] fix: clusters resumed as running after a restart have
 no last heartbeat

A cluster that had announced its address but was still SUBMITTED when the
gateway stopped becomes RUNNING on restart without a heartbeat. Comparing the
missing timestamp raised TypeError in every timeout check, for all clusters.
---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 1e34f59..97473ab 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1311,6 +1311,9 @@ class DBBackendBase(Backend):
     async def _cluster_to_running(self, cluster):
         self.log.info("Cluster %s is running", cluster.name)
         self.db.update_cluster(cluster, status=JobStatus.RUNNING)
+        if cluster.last_heartbeat is None:
+            # Resumed after a gateway restart, no heartbeat received yet
+            cluster.last_heartbeat = timestamp()
         cluster.ready.set()
 
     async def _check_cluster_proxied(self, cluster):
-- 
2.43.0


From aeda92251e4250369eb8afe33dfe874a89ba24f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 03/46] fix: stale status checks fail clusters and workers that
 moved on

Objects that reported in, or were asked to stop, while the backend's status
check was in progress were marked as failed when it returned.
---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 97473ab..1817ce5 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1096,7 +1096,8 @@ class DBBackendBase(Backend):
                 updates = [
                     (c, {"target": JobStatus.FAILED})
                     for c, ok in zip(clusters, statuses)
-                    if not ok
+                    # May have changed while the check was in progress
+                    if not ok and c.is_active() and c.status == JobStatus.SUBMITTED
                 ]
                 self.db.update_clusters(updates)
                 for c, _ in updates:
@@ -1129,7 +1130,8 @@ class DBBackendBase(Backend):
                 updates = [
                     (w, {"target": JobStatus.FAILED})
                     for w, ok in zip(workers, statuses)
-                    if not ok
+                    # May have changed while the check was in progress
+                    if not ok and w.is_active() and w.status == JobStatus.SUBMITTED
                 ]
                 self.db.update_workers(updates)
                 for w, _ in updates:
-- 
2.43.0


From 99781886a316c233beb1ee436a6c1602e0dbdf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 04/46] fix: worker that reported in before its start returned
 is no longer running

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 1817ce5..7ba5bbb 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1359,7 +1359,9 @@ class DBBackendBase(Backend):
                 async for state in self.do_start_worker(worker):
                     self.log.debug("State update for worker %s", worker.name)
                     self.db.update_worker(worker, state=state)
-            self.db.update_worker(worker, status=JobStatus.SUBMITTED)
+            if worker.status < JobStatus.SUBMITTED:
+                # May already be running, if a heartbeat mentioned it
+                self.db.update_worker(worker, status=JobStatus.SUBMITTED)
             self.log.info("Worker %s submitted", worker.name)
         except asyncio.CancelledError:
             raise
-- 
2.43.0


From a80b2ccc468b37cd72ad6fdd8476b2bbc5fb217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 05/46] fix: cluster stopped by the user ends as failed if its
 start fails

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 7ba5bbb..ae6d3d3 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1268,8 +1268,12 @@ class DBBackendBase(Backend):
                 self.log.warning(
                     "Failed to submit cluster %s", cluster.name, exc_info=exc
                 )
+            # Don't override an earlier request to stop
+            target = cluster.target
+            if target <= JobStatus.RUNNING:
+                target = JobStatus.FAILED
             self.db.update_cluster(
-                cluster, status=JobStatus.SUBMITTED, target=JobStatus.FAILED
+                cluster, status=JobStatus.SUBMITTED, target=target
             )
             self.queue.put(cluster)
 
-- 
2.43.0


From 623c1e27e505a75802830930ae38575204204d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 06/46] fix: heartbeat that doesn't mention a running worker is
 rejected

The assertion error turned every further heartbeat of the cluster into a 500
response. Only workers that haven't started yet count as pending.
---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index ae6d3d3..25186e9 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1004,8 +1004,7 @@ class DBBackendBase(Backend):
             else:
                 if worker.status == JobStatus.SUBMITTED:
                     submitted_workers.append(worker)
-                else:
-                    assert worker.status == JobStatus.CREATED
+                elif worker.status == JobStatus.CREATED:
                     created_workers.append(worker)
 
         n_pending = len(created_workers) + len(submitted_workers)
-- 
2.43.0


From 48858b671cdf85e75d6ab51426b1f3d6c734e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 07/46] fix: interrupted start is repeated after a restart,
 leaking the first one

If the gateway stopped after a start had checkpointed some state, the start was
run again on restart and its state overwritten. Treat it as a failed start, so
that what was started is stopped.
---
 .../dask_gateway_server/backends/db_base.py            | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 25186e9..d116ad5 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -852,9 +852,11 @@ class DBBackendBase(Backend):
         # Load all active clusters/workers into reconcilation queues
         for cluster in self.db.name_to_cluster.values():
             if cluster.status < JobStatus.STOPPED:
+                self._fail_interrupted_start(cluster, self.db.update_cluster)
                 self.queue.put(cluster)
                 for worker in cluster.workers.values():
                     if worker.status < JobStatus.STOPPED:
+                        self._fail_interrupted_start(worker, self.db.update_worker)
                         self.queue.put(worker)
 
         # Further backend-specific setup
@@ -864,6 +866,14 @@ class DBBackendBase(Backend):
             "Backend started, clusters will contact api server at %s", self.api_url
         )
 
+    def _fail_interrupted_start(self, obj, update):
+        """Mark a start that was interrupted after checkpointing state as failed"""
+        if obj.status == JobStatus.CREATED and obj.state:
+            if obj.target <= JobStatus.RUNNING:
+                update(obj, status=JobStatus.SUBMITTED, target=JobStatus.FAILED)
+            else:
+                update(obj, status=JobStatus.SUBMITTED)
+
     async def cleanup(self):
         if hasattr(self, "task_pool"):
             # Stop background tasks
-- 
2.43.0


From a973329705d16b2022abc29e1238538bd3979847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 08/46] fix: route event ids restart with the gateway, a proxy
 resuming from an old one misses routes

---
 .../dask_gateway_server/proxy/core.py               | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/proxy/core.py b/dask-gateway-server/dask_gateway_server/proxy/core.py
index 9b4c712..530861b 100644
--- a/dask-gateway-server/dask_gateway_server/proxy/core.py
+++ b/dask-gateway-server/dask_gateway_server/proxy/core.py
@@ -2,6 +2,7 @@ import asyncio
 import json
 import os
 import subprocess
+import time
 import uuid
 
 from aiohttp import web
@@ -276,10 +277,13 @@ class Proxy(LoggingConfigurable):
 
         # Internal state
         self.routes = {}
-        self.offset = 0
+        # Event ids must not overlap with those handed out by a previous
+        # gateway process, otherwise a proxy resuming from one of them would
+        # silently miss the events in between.
+        self.offset = int(time.time() * 1000)
         self.events = []
         self._watchers = set()
-        self._next_id = 1
+        self._next_id = self.offset + 1
 
         app.on_shutdown.append(self._on_shutdown)
 
@@ -358,11 +362,12 @@ class Proxy(LoggingConfigurable):
 
     def _events_after(self, last_id=0):
         index = last_id - self.offset
-        if index >= 0:
+        if 0 <= index <= len(self.events):
             events = self.events[index:]
             return events
         else:
-            # We've since dropped these events, client needs to reset
+            # We've since dropped these events (or never sent them), client
+            # needs to reset
             return None
 
     async def routes_handler(self, request):
-- 
2.43.0


From a54cefd80de3a9268f9b509a5e7f3fc735baace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 09/46] fix: malformed Authorization header answered with a
 server error

---
 dask-gateway-server/dask_gateway_server/auth.py     | 13 ++++++++-----
 .../dask_gateway_server/proxy/core.py               |  2 +-
 dask-gateway-server/dask_gateway_server/routes.py   |  2 +-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/auth.py b/dask-gateway-server/dask_gateway_server/auth.py
index 95a4c88..69972e1 100644
--- a/dask-gateway-server/dask_gateway_server/auth.py
+++ b/dask-gateway-server/dask_gateway_server/auth.py
@@ -195,12 +195,15 @@ class SimpleAuthenticator(Authenticator):
         if not auth_header:
             raise unauthorized("Basic")
 
-        auth_type, auth_key = auth_header.split(" ", 1)
+        auth_type, _, auth_key = auth_header.partition(" ")
         if auth_type != "Basic":
             raise unauthorized("Basic")
 
-        auth_key = base64.b64decode(auth_key).decode("ascii")
-        user, password = auth_key.split(":", 1)
+        try:
+            auth_key = base64.b64decode(auth_key).decode("ascii")
+            user, password = auth_key.split(":", 1)
+        except ValueError:
+            raise unauthorized("Basic")
 
         if self.password and password != self.password:
             raise unauthorized("Basic")
@@ -237,7 +240,7 @@ class KerberosAuthenticator(Authenticator):
         if not auth_header:
             raise unauthorized("Negotiate")
 
-        auth_type, auth_key = auth_header.split(" ", 1)
+        auth_type, _, auth_key = auth_header.partition(" ")
         if auth_type != "Negotiate":
             raise unauthorized("Negotiate")
 
@@ -408,7 +411,7 @@ class JupyterHubAuthenticator(Authenticator):
     def get_token(self, request):
         auth_header = request.headers.get("Authorization")
         if auth_header:
-            auth_type, auth_key = auth_header.split(" ", 1)
+            auth_type, _, auth_key = auth_header.partition(" ")
             if auth_type == "jupyterhub":
                 return auth_key
         return None
diff --git a/dask-gateway-server/dask_gateway_server/proxy/core.py b/dask-gateway-server/dask_gateway_server/proxy/core.py
index 530861b..b76e80a 100644
--- a/dask-gateway-server/dask_gateway_server/proxy/core.py
+++ b/dask-gateway-server/dask_gateway_server/proxy/core.py
@@ -377,7 +377,7 @@ class Proxy(LoggingConfigurable):
         if not auth_header:
             raise web.HTTPUnauthorized(headers={"WWW-Authenticate": "token"})
 
-        auth_type, auth_token = auth_header.split(" ", 1)
+        auth_type, _, auth_token = auth_header.partition(" ")
         if auth_type != "token" or auth_token != self.api_token:
             raise web.HTTPUnauthorized(headers={"WWW-Authenticate": "token"})
 
diff --git a/dask-gateway-server/dask_gateway_server/routes.py b/dask-gateway-server/dask_gateway_server/routes.py
index 5b8d0bf..3e80529 100644
--- a/dask-gateway-server/dask_gateway_server/routes.py
+++ b/dask-gateway-server/dask_gateway_server/routes.py
@@ -31,7 +31,7 @@ def _wrap_authenticated(handler, user=False, token=False):
             backend = request.app["backend"]
             auth_header = request.headers.get("Authorization")
             if auth_header:
-                auth_type, auth_token = auth_header.split(" ", 1)
+                auth_type, _, auth_token = auth_header.partition(" ")
                 if auth_type == "token":
                     cluster_name = request.match_info["cluster_name"]
                     cluster = await backend.get_cluster(cluster_name)
-- 
2.43.0


From e94450c8db040feb603430199ed18c7c589e353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:11 +0000
Subject: [PATCH 10/46] fix: proxy never catches up if the pending route events
 exceed 64 KiB

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index b6437af..b5abd75 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -274,6 +274,10 @@ func NewEvIter(body io.ReadCloser) *evIter {
 
 func (it *evIter) Next() bool {
 	if ok := it.scanner.Scan(); !ok {
+		if err := it.scanner.Err(); err == bufio.ErrTooLong {
+			// Resuming would fail the same way, need to do a full refresh
+			it.err = err
+		}
 		it.body.Close()
 		return false
 	}
-- 
2.43.0


From c24130d711b3b79d3865bd45c458b4a975ff9965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:11 +0000
Subject: [PATCH 11/46] fix: proxy closes the wrong direction of relayed
 connections, losing data in flight

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index b5abd75..c0c0470 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -534,8 +534,9 @@ func (p *Proxy) proxyConnections(wg *sync.WaitGroup, in, out sni.TcpConn) {
 	if _, err := io.Copy(in, out); err != nil {
 		p.logger.Debugf("Error proxying %q -> %q: %s", in.RemoteAddr(), out.RemoteAddr(), err)
 	}
-	in.CloseRead()
-	out.CloseWrite()
+	// The loop above copies from `out` to `in`
+	out.CloseRead()
+	in.CloseWrite()
 }
 
 func (p *Proxy) runTCP(ln net.Listener, forwarder *Forwarder) {
-- 
2.43.0


From 3ff4c576f58975395ccfa4ac5eded8513b6eb2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 12/46] fix: proxy crashes if accepting a connection fails

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index c0c0470..d83f412 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -544,6 +544,8 @@ func (p *Proxy) runTCP(ln net.Listener, forwarder *Forwarder) {
 		c, err := ln.Accept()
 		if err != nil {
 			p.logger.Debugf("Failed to accept new connection: %s", err)
+			time.Sleep(5 * time.Millisecond)
+			continue
 		}
 
 		go p.handleConnection(c.(*net.TCPConn), forwarder)
-- 
2.43.0


From 9b9b864db1153234ae5015bc009a998f1e3e573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 13/46] fix: connections with a TLS client hello over 4 KiB are
 not relayed

---
 dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go b/dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go
index c326b03..1fc97ae 100644
--- a/dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go
+++ b/dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go
@@ -58,7 +58,10 @@ func (c readonly) Read(p []byte) (int, error) { return c.r.Read(p) }
 func (readonly) Write(p []byte) (int, error)  { return 0, io.EOF }
 
 func ReadSNI(inConn *net.TCPConn) (string, bool, TcpConn, error) {
-	br := bufio.NewReader(inConn)
+	// Large enough for a full TLS record
+	const headerLen = 5
+	const maxRecordLen = 16*1024 + 2048
+	br := bufio.NewReaderSize(inConn, headerLen+maxRecordLen)
 	hdr, err := br.Peek(1)
 	if err != nil {
 		return "", false, nil, err
@@ -69,7 +72,6 @@ func ReadSNI(inConn *net.TCPConn) (string, bool, TcpConn, error) {
 		return "", false, wrapPeeked(inConn, br), nil
 	}
 
-	const headerLen = 5
 	hdr, err = br.Peek(headerLen)
 	if err != nil {
 		return "", false, wrapPeeked(inConn, br), nil
-- 
2.43.0


From c5a1ecb11c2be7af4f9bb36aa270ed6f470c4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 14/46] fix: proxy decodes escaped slashes in the path of
 requests to clusters

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index d83f412..ad5664c 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -404,6 +404,12 @@ func (p *Proxy) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 		req.URL.Scheme = target.Scheme
 		req.URL.Host = target.Host
 		req.Host = target.Host
+		if req.URL.RawPath != "" {
+			// Keep the encoding used by the client, `%2F` isn't the same as `/`
+			prefix := strings.TrimSuffix(req.URL.Path, path)
+			rawPath := strings.TrimPrefix(req.URL.RawPath, prefix)
+			req.URL.RawPath = singleJoiningSlash(target.EscapedPath(), rawPath)
+		}
 		req.URL.Path = singleJoiningSlash(target.Path, path)
 		if targetQuery == "" || req.URL.RawQuery == "" {
 			req.URL.RawQuery = targetQuery + req.URL.RawQuery
-- 
2.43.0


From 562f2be1612000bb1ab2720bb456d3e57d6f89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 15/46] fix: proxy decodes escaped slashes if the route's own
 path needs escaping

---
 .../cmd/dask-gateway-proxy/main.go            | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index ad5664c..7b98612 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -406,11 +406,14 @@ func (p *Proxy) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 		req.Host = target.Host
 		if req.URL.RawPath != "" {
 			// Keep the encoding used by the client, `%2F` isn't the same as `/`
-			prefix := strings.TrimSuffix(req.URL.Path, path)
-			rawPath := strings.TrimPrefix(req.URL.RawPath, prefix)
-			req.URL.RawPath = singleJoiningSlash(target.EscapedPath(), rawPath)
+			rawPath := skipEscaped(req.URL.RawPath, len(req.URL.Path)-len(path))
+			rawPath = singleJoiningSlash(target.EscapedPath(), rawPath)
+			if unescaped, err := url.PathUnescape(rawPath); err == nil {
+				req.URL.Path, req.URL.RawPath = unescaped, rawPath
+			}
+		} else {
+			req.URL.Path = singleJoiningSlash(target.Path, path)
 		}
-		req.URL.Path = singleJoiningSlash(target.Path, path)
 		if targetQuery == "" || req.URL.RawQuery == "" {
 			req.URL.RawQuery = targetQuery + req.URL.RawQuery
 		} else {
@@ -424,6 +427,18 @@ func (p *Proxy) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 	}
 }
 
+// Drop the part of an escaped path that stands for its first n unescaped bytes.
+func skipEscaped(path string, n int) string {
+	for ; n > 0 && path != ""; n-- {
+		if path[0] == '%' && len(path) >= 3 {
+			path = path[3:]
+		} else {
+			path = path[1:]
+		}
+	}
+	return path
+}
+
 func singleJoiningSlash(a, b string) string {
 	aslash := strings.HasSuffix(a, "/")
 	bslash := strings.HasPrefix(b, "/")
-- 
2.43.0


From 2382dda0de613c19216faa780e5fa5345e5a1116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 16/46] fix: cluster settings are related to each other before
 all of them are known

Limits were validated while only part of the settings (keyword arguments,
configuration, and again arguments overridden by the configuration, in
arbitrary order) had been applied. Depending on where each setting came from,
clusters could exceed their limits, or valid clusters were refused.
---
 .../dask_gateway_server/backends/base.py      | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/base.py b/dask-gateway-server/dask_gateway_server/backends/base.py
index 0c42b8e..7de554b 100644
--- a/dask-gateway-server/dask_gateway_server/backends/base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/base.py
@@ -296,7 +296,7 @@ class ClusterConfig(Configurable):
 
     @validate("worker_threads")
     def _validate_worker_threads(self, proposal):
-        if not proposal.value:
+        if not proposal.value and self._initialized:
             return self._default_worker_threads()
         return proposal.value
 
@@ -390,7 +390,26 @@ class ClusterConfig(Configurable):
         config=True,
     )
 
+    # Some settings depend on each other, so these relations are only enforced once
+    # all settings (from both the arguments and the configuration) are known.
+    _initialized = False
+
+    def __init__(self, **kwargs):
+        super().__init__(**kwargs)
+        self._initialized = True
+        if self.worker_threads is None:
+            self.worker_threads = self._default_worker_threads()
+        self._check_scheduler_memory(self.scheduler_memory, self.cluster_max_memory)
+        self._check_scheduler_cores(self.scheduler_cores, self.cluster_max_cores)
+        lim = self._worker_limit_from_resources()
+        if lim is not None and (
+            self.cluster_max_workers is None or self.cluster_max_workers > lim
+        ):
+            self.cluster_max_workers = lim
+
     def _check_scheduler_memory(self, scheduler_memory, cluster_max_memory):
+        if not self._initialized:
+            return
         if cluster_max_memory is not None and scheduler_memory > cluster_max_memory:
             memory = format_bytes(scheduler_memory)
             limit = format_bytes(cluster_max_memory)
@@ -400,6 +419,8 @@ class ClusterConfig(Configurable):
             )
 
     def _check_scheduler_cores(self, scheduler_cores, cluster_max_cores):
+        if not self._initialized:
+            return
         if cluster_max_cores is not None and scheduler_cores > cluster_max_cores:
             raise ValueError(
                 f"Scheduler cores request of {scheduler_cores} exceeds cluster "
@@ -407,6 +428,8 @@ class ClusterConfig(Configurable):
             )
 
     def _worker_limit_from_resources(self):
+        if not self._initialized:
+            return None
         inf = max_workers = float("inf")
         if self.cluster_max_memory is not None:
             max_workers = min(
-- 
2.43.0


From 71eeb3cb07c31b93d8df2e083e0d86f29b724ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 17/46] fix: booleans are accepted as values of numeric cluster
 options

---
 dask-gateway-server/dask_gateway_server/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/options.py b/dask-gateway-server/dask_gateway_server/options.py
index 88e6693..7749220 100644
--- a/dask-gateway-server/dask_gateway_server/options.py
+++ b/dask-gateway-server/dask_gateway_server/options.py
@@ -245,7 +245,7 @@ class Number(Field):
 )
 class Integer(Number):
     def validate(self, x):
-        if not isinstance(x, int):
+        if not isinstance(x, int) or isinstance(x, bool):
             raise TypeError(f"{self.field} must be an integer, got {x!r}")
         return super().validate(x)
 
@@ -266,7 +266,7 @@ class Integer(Number):
 )
 class Float(Number):
     def validate(self, x):
-        if isinstance(x, int):
+        if isinstance(x, int) and not isinstance(x, bool):
             x = float(x)
         if not isinstance(x, float):
             raise TypeError(f"{self.field} must be a float, got {x!r}")
-- 
2.43.0


From 806b1b38aa8db966f492bc062dc50cf6989ea399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 18/46] fix: nan passes the bounds of float cluster options

---
 dask-gateway-server/dask_gateway_server/options.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/options.py b/dask-gateway-server/dask_gateway_server/options.py
index 7749220..bb8063c 100644
--- a/dask-gateway-server/dask_gateway_server/options.py
+++ b/dask-gateway-server/dask_gateway_server/options.py
@@ -225,9 +225,10 @@ class Number(Field):
         super().__init__(field, default=default, label=label, target=target)
 
     def validate(self, x):
-        if self.min is not None and x < self.min:
+        # Written so that nan, which compares false to everything, is refused
+        if self.min is not None and not x >= self.min:
             raise ValueError(f"{self.field} must be >= {self.min:f}, got {x}")
-        if self.max is not None and x > self.max:
+        if self.max is not None and not x <= self.max:
             raise ValueError(f"{self.field} must be <= {self.max:f}, got {x}")
         return x
 
-- 
2.43.0


From 1c571b3299da1c208c778ab1199b1d772a8f29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 19/46] fix: invalid sizes are accepted in scale and adapt
 requests

Booleans were accepted as the number of workers, and anything at all as the
bounds of adaptive scaling: negative numbers were forwarded to the scheduler,
and strings failed with an internal error when the cluster had a limit.
---
 dask-gateway-server/dask_gateway_server/routes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/routes.py b/dask-gateway-server/dask_gateway_server/routes.py
index 3e80529..4e79d9b 100644
--- a/dask-gateway-server/dask_gateway_server/routes.py
+++ b/dask-gateway-server/dask_gateway_server/routes.py
@@ -193,7 +193,7 @@ async def scale_cluster(request):
 
     msg = await request.json()
     count = msg.get("count", None)
-    if not isinstance(count, int) or count < 0:
+    if not isinstance(count, int) or isinstance(count, bool) or count < 0:
         raise web.HTTPUnprocessableEntity(
             reason=f"Scale expects a non-negative integer, got {count}"
         )
@@ -235,6 +235,15 @@ async def adapt_cluster(request):
     minimum = msg.get("minimum", None)
     maximum = msg.get("maximum", None)
     active = msg.get("active", True)
+    for name, value in [("minimum", minimum), ("maximum", maximum)]:
+        if value is not None and (
+            not isinstance(value, (int, float))
+            or isinstance(value, bool)
+            or not value >= 0
+        ):
+            raise web.HTTPUnprocessableEntity(
+                reason=f"Adapt expects a non-negative number for {name}, got {value}"
+            )
 
     max_workers = cluster.config.get("cluster_max_workers")
     resp_msg = None
-- 
2.43.0


From e5ac1ae4f4a17199504b96bb3879b275c3189667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 20/46] fix: rate limiter forgets time that passed while a
 burst was waiting

---
 dask-gateway-server/dask_gateway_server/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/utils.py b/dask-gateway-server/dask_gateway_server/utils.py
index 06b5107..684f0f4 100644
--- a/dask-gateway-server/dask_gateway_server/utils.py
+++ b/dask-gateway-server/dask_gateway_server/utils.py
@@ -93,7 +93,6 @@ class RateLimiter:
         self.rate = float(rate)
         self.burst = float(burst)
         self._tokens = float(burst)
-        self._max_elapsed = burst / rate
 
         now = time.monotonic()
         self._last = now
@@ -101,7 +100,7 @@ class RateLimiter:
 
     def _delay(self):
         now = time.monotonic()
-        elapsed = min(now - self._last, self._max_elapsed)
+        elapsed = now - self._last
         tokens = min(self._tokens + elapsed * self.rate, self.burst)
 
         tokens -= 1
-- 
2.43.0


From 5b735d8d24080bf8c0ca4ba624d591a2585b3901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 21/46] fix: LRU cache evicts an entry that was just stored
 again

---
 dask-gateway-server/dask_gateway_server/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dask-gateway-server/dask_gateway_server/utils.py b/dask-gateway-server/dask_gateway_server/utils.py
index 684f0f4..81f4234 100644
--- a/dask-gateway-server/dask_gateway_server/utils.py
+++ b/dask-gateway-server/dask_gateway_server/utils.py
@@ -261,6 +261,7 @@ class LRUCache:
     def put(self, key, value):
         """Add an item to the cache"""
         self.cache[key] = value
+        self.cache.move_to_end(key)
         if len(self.cache) > self.max_size:
             self.cache.popitem(False)
 
-- 
2.43.0


From 2d4dd491b321e63963b76b0bf8b0c16d3a77ea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 22/46] fix: malformed list response ends a kubernetes informer

---
 .../dask_gateway_server/backends/kubernetes/utils.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/utils.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/utils.py
index 80db0be..d5639b5 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/utils.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/utils.py
@@ -147,6 +147,9 @@ class Informer(LoggingConfigurable):
         while True:
             try:
                 initial = await method(**self.method_kwargs)
+                initial = self.client.api_client.sanitize_for_serialization(initial)
+                res_ver = initial["metadata"]["resourceVersion"]
+                self.handle_initial(initial["items"])
             except asyncio.CancelledError:
                 raise
             except Exception as exc:
@@ -155,10 +158,7 @@ class Informer(LoggingConfigurable):
                 )
                 continue
 
-            initial = self.client.api_client.sanitize_for_serialization(initial)
-            self.handle_initial(initial["items"])
             self.initialized.set()
-            res_ver = initial["metadata"]["resourceVersion"]
 
             try:
                 while True:
-- 
2.43.0


From f66b61ef1e97bac42226a28fcba703fdf1e70801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 23/46] fix: worker and scheduler pods without container
 statuses are ignored

Pods that are pending, evicted or otherwise failed may have no container
statuses. Such worker pods were never counted, so that the controller waited
for (or made more) workers, and such scheduler pods never failed the cluster.
Also count running pods first seen between two starts of their container.
---
 .../backends/kubernetes/controller.py              | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 72ab030..cc4da2f 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -55,6 +55,10 @@ def get_container_state(pod, name):
     phase = pod["status"].get("phase", "Unknown")
     if phase == "Pending":
         return "waiting"
+    if phase in ("Succeeded", "Failed"):
+        # No containers of this pod are running, nor will be (the container
+        # status may be missing, e.g. if the pod was evicted)
+        return "terminated"
     cs = get_container_status(pod, name)
     if cs is not None:
         return next(iter(cs["state"]))
@@ -518,10 +522,6 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             phase = pod["status"].get("phase", "Unknown")
             if phase == "Unknown":
                 return
-            cs = get_container_status(pod, component)
-            if cs is None:
-                return
-
             info = self.cluster_info[cluster_key]
             trigger = False
             if phase == "Pending":
@@ -531,11 +531,15 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             elif phase == "Failed":
                 trigger = info.on_worker_failed(pod_name)
             else:
-                kind = next(iter(cs["state"]))
+                cs = get_container_status(pod, component)
+                kind = next(iter(cs["state"])) if cs is not None else None
                 if kind == "terminated" and cs["state"][kind]["exitCode"] == 0:
                     info.on_worker_succeeded(pod_name)
                 elif kind == "running":
                     info.on_worker_running(pod_name)
+                elif pod_name not in info.all_pods:
+                    # First seen between restarts of its container
+                    info.on_worker_pending(pod_name)
 
             if (trigger or info.should_trigger()) and not cluster_stopping:
                 self.queue.put(cluster_key)
-- 
2.43.0


From 9d56d067a57b10fc8e223616a1dd9a79792ea485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 24/46] fix: scale down deletes the wrong number of pending
 pods

With a negative delta, `pending[:delta]` is all but the first `delta` of the
pending pods; with a delta of zero and no running worker it is none.
---
 .../dask_gateway_server/backends/kubernetes/controller.py    | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index cc4da2f..e25afad 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -859,10 +859,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         namespace = cluster["metadata"]["namespace"]
         name = cluster["metadata"]["name"]
 
-        if info.pending:
-            pending = list(info.pending)[:delta]
-        else:
-            pending = []
+        pending = list(info.pending)[:-delta] if delta < 0 else []
 
         stopped = info.succeeded.union(info.failed)
         if pending or stopped:
-- 
2.43.0


From 880db9197bc3b2351abf0cdc2618c15dc6324011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 25/46] fix: AttributeError when deleting a pod that is already
 gone

ApiException has a `status`, no `code`.
---
 .../dask_gateway_server/backends/kubernetes/controller.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index e25afad..b736597 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -794,7 +794,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         except Exception as exc:
             if info is not None:
                 info.deletes -= 1
-            if isinstance(exc, ApiException) and exc.code == 404:
+            if isinstance(exc, ApiException) and exc.status == 404:
                 return
             self.log.warning(
                 "Failed to delete pod %s/%s", namespace, pod_name, exc_info=True
-- 
2.43.0


From bbadc9c0d5b4f600e48a277b8fbad6e5880d9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 26/46] fix: scheduler pod and credentials leak if not in the
 status when stopping

If a cluster is stopped while (or right after) its resources are created, the
status the controller works from doesn't contain their names, and they were
never deleted.
---
 .../backends/kubernetes/controller.py         | 43 +++++++++++--------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index b736597..b9915b3 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -643,7 +643,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
 
         if not active:
             self.log.info("Shutting down %s.%s", namespace, name)
-            await self.cleanup_cluster_resources(status, namespace)
+            await self.cleanup_cluster_resources(name, namespace)
             status = status.copy()
             status["phase"] = "Stopped"
             status["completionTime"] = k8s_timestamp()
@@ -712,7 +712,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             self.log.info(
                 "Scheduler for cluster %s.%s terminated, shutting down", namespace, name
             )
-            await self.cleanup_cluster_resources(status, namespace)
+            await self.cleanup_cluster_resources(name, namespace)
             status["phase"] = "Failed"
             status["completionTime"] = k8s_timestamp()
 
@@ -739,7 +739,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             self.log.info(
                 "Scheduler for cluster %s.%s terminated, shutting down", namespace, name
             )
-            await self.cleanup_cluster_resources(status, namespace)
+            await self.cleanup_cluster_resources(name, namespace)
             status["phase"] = "Failed"
             status["completionTime"] = k8s_timestamp()
 
@@ -891,21 +891,23 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             [{"op": "add", "path": "/status", "value": status}],
         )
 
-    async def cleanup_cluster_resources(self, status, namespace):
-        sched_pod = status.get("schedulerPod")
-        if sched_pod:
-            try:
-                await self.core_client.delete_namespaced_pod(sched_pod, namespace)
-            except ApiException as exc:
-                if exc.status != 404:
-                    raise
-        secret = status.get("credentials")
-        if secret:
-            try:
-                await self.core_client.delete_namespaced_secret(secret, namespace)
-            except ApiException as exc:
-                if exc.status != 404:
-                    raise
+    async def cleanup_cluster_resources(self, name, namespace):
+        # The resources may exist even if they're not (yet) in the status of
+        # the cluster, so don't rely on it for their names.
+        try:
+            await self.core_client.delete_namespaced_pod(
+                self.make_scheduler_pod_name(name), namespace
+            )
+        except ApiException as exc:
+            if exc.status != 404:
+                raise
+        try:
+            await self.core_client.delete_namespaced_secret(
+                self.make_secret_name(name), namespace
+            )
+        except ApiException as exc:
+            if exc.status != 404:
+                raise
 
     async def create_secret_if_not_exists(self, cluster):
         name = cluster["metadata"]["name"]
@@ -1196,10 +1198,13 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         if is_worker:
             pod["metadata"]["generateName"] = f"dask-worker-{cluster_name}-"
         else:
-            pod["metadata"]["name"] = f"dask-scheduler-{cluster_name}"
+            pod["metadata"]["name"] = self.make_scheduler_pod_name(cluster_name)
 
         return pod
 
+    def make_scheduler_pod_name(self, cluster_name):
+        return f"dask-scheduler-{cluster_name}"
+
     def make_secret_name(self, cluster_name):
         return f"dask-credentials-{cluster_name}"
 
-- 
2.43.0


From 9bbf54f53647f41dc0d1e4ea6629d132d97bbc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 27/46] fix: cluster stays pending if its scheduler pod
 vanishes unseen

A scheduler pod that was deleted before the informers saw it (e.g. while the
controller restarted) was waited for indefinitely.
---
 .../backends/kubernetes/controller.py         | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index b9915b3..c416420 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -676,11 +676,14 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             sched_pod = self.informers["pod"].get(f"{namespace}.{sched_pod_name}")
 
         if sched_pod is None:
-            # Scheduler pod was created in an earlier run, but hasn't been seen
-            # by the informers. Wait until it shows up to progress further.
-            return status, False
-
-        sched_state = get_container_state(sched_pod, "dask-scheduler")
+            # Scheduler pod was created in an earlier run, but isn't known by
+            # the informers. Either it hasn't been seen yet, in which case we
+            # wait until it shows up to progress further, or it's already gone.
+            if await self.scheduler_pod_exists(namespace, sched_pod_name):
+                return status, True
+            sched_state = "terminated"
+        else:
+            sched_state = get_container_state(sched_pod, "dask-scheduler")
 
         if sched_state == "running":
             service_name = status.get("service")
@@ -958,6 +961,15 @@ class KubeController(KubeBackendAndControllerMixin, Application):
 
         return pod_name, pod
 
+    async def scheduler_pod_exists(self, namespace, pod_name):
+        try:
+            await self.core_client.read_namespaced_pod(pod_name, namespace)
+        except ApiException as exc:
+            if exc.status == 404:
+                return False
+            raise
+        return True
+
     async def create_service_if_not_exists(self, cluster, sched_pod):
         name = cluster["metadata"]["name"]
         namespace = cluster["metadata"]["namespace"]
-- 
2.43.0


From 7cc6fe2177b25ef1e971ff764b6226ad0cd97033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 28/46] fix: cluster waits forever for pod events that were
 missed

Expectations time out, but nothing woke the cluster up when they did.
---
 .../backends/kubernetes/controller.py                 | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index c416420..6457819 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -102,9 +102,13 @@ class ClusterInfo:
         """Return true if all expectated pod operations have been seen"""
         return self.creates <= 0 and self.deletes <= 0
 
+    def expires_in(self):
+        """Time until expected pod operations have timed out"""
+        return self.timestamp + 600 - time.monotonic()
+
     def expectations_expired(self):
         """Return true if expected pod operations have timed out"""
-        return time.monotonic() - self.timestamp > 600
+        return self.expires_in() < 0
 
     def should_trigger(self):
         """Return true if our expectations indicate the cluster should be
@@ -760,6 +764,11 @@ class KubeController(KubeBackendAndControllerMixin, Application):
                     requeue = await self.handle_scale_down(
                         cluster, sched_pod, info, replicas, delta
                     )
+            if not info.should_trigger():
+                # Expected pod operations may never be seen (e.g. a pod that was
+                # deleted while the informers were disconnected). Ensure we're
+                # woken up again once they've timed out.
+                self.queue.put_after(cluster_key, info.expires_in() + 1)
         return status, requeue
 
     async def create_pod(self, namespace, pod, info=None):
-- 
2.43.0


From eaf6c26ab38cff7f5cb9be3fe9899b5552c6ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 29/46] fix: cluster status goes back to an earlier phase

A status computed from an outdated view of a cluster could overwrite a later
one, e.g. set a cluster back from Running to Pending.
---
 .../backends/kubernetes/controller.py         | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 6457819..d050a82 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -621,9 +621,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         status_update, requeue = await self.handle_cluster(cluster)
 
         if status_update is not None and status_update != cluster.get("status"):
-            namespace = cluster["metadata"]["namespace"]
-            name = cluster["metadata"]["name"]
-            await self.patch_cluster_status(namespace, name, status_update)
+            await self.patch_cluster_status(cluster, status_update)
         return requeue
 
     async def handle_cluster(self, cluster):
@@ -893,14 +891,25 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             return any(isinstance(r, Exception) for r in res)
         return False
 
-    async def patch_cluster_status(self, namespace, name, status):
+    async def patch_cluster_status(self, cluster, status):
+        # The status was computed from a possibly outdated view of the cluster,
+        # only apply it if the cluster hasn't changed since (if it has, the
+        # patch is rejected and the cluster is reconciled again).
+        metadata = cluster["metadata"]
         await self.custom_client.patch_namespaced_custom_object_status(
             "gateway.dask.org",
             self.crd_version,
-            namespace,
+            metadata["namespace"],
             "daskclusters",
-            name,
-            [{"op": "add", "path": "/status", "value": status}],
+            metadata["name"],
+            [
+                {
+                    "op": "test",
+                    "path": "/metadata/resourceVersion",
+                    "value": metadata["resourceVersion"],
+                },
+                {"op": "add", "path": "/status", "value": status},
+            ],
         )
 
     async def cleanup_cluster_resources(self, name, namespace):
-- 
2.43.0


From 550e043fbdd872c574f774ccd0be43fe65037a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 30/46] fix: requests with an empty token are accepted for
 clusters without a token

With the kubernetes backend the token of a cluster is unknown while it's being
created, and after it stopped. A request with the header `Authorization: token`
was authenticated as the cluster then, and could e.g. stop it.
---
 dask-gateway-server/dask_gateway_server/routes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/routes.py b/dask-gateway-server/dask_gateway_server/routes.py
index 4e79d9b..97f974a 100644
--- a/dask-gateway-server/dask_gateway_server/routes.py
+++ b/dask-gateway-server/dask_gateway_server/routes.py
@@ -35,7 +35,10 @@ def _wrap_authenticated(handler, user=False, token=False):
                 if auth_type == "token":
                     cluster_name = request.match_info["cluster_name"]
                     cluster = await backend.get_cluster(cluster_name)
-                    if cluster is not None and cluster.token == auth_token:
+                    # A cluster without a token yet (or anymore) matches no token
+                    if cluster is not None and cluster.token and (
+                        cluster.token == auth_token
+                    ):
                         # Use `none` to indicate api token authenticated
                         request["user"] = None
                         return await handler(request)
-- 
2.43.0


From a75f6a7da1ea73ff7cdaa4239cfa46aeb9dcc05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 31/46] fix: stopping a kubernetes cluster that's already
 deleted fails

---
 .../backends/kubernetes/backend.py            | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/backend.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/backend.py
index 89b3da1..86b2541 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/backend.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/backend.py
@@ -422,14 +422,19 @@ class KubeBackend(KubeBackendAndControllerMixin, Backend):
         self.log.info("Stopping cluster %s", cluster_name)
 
         namespace, name = cluster_name.split(".")
-        await self.custom_client.patch_namespaced_custom_object(
-            "gateway.dask.org",
-            self.crd_version,
-            namespace,
-            "daskclusters",
-            name,
-            [{"op": "add", "path": "/spec/active", "value": False}],
-        )
+        try:
+            await self.custom_client.patch_namespaced_custom_object(
+                "gateway.dask.org",
+                self.crd_version,
+                namespace,
+                "daskclusters",
+                name,
+                [{"op": "add", "path": "/spec/active", "value": False}],
+            )
+        except ApiException as exc:
+            # The cluster may already be deleted
+            if exc.status != 404:
+                raise
 
     async def get_cluster(self, cluster_name, wait=False):
         if wait:
-- 
2.43.0


From 670422f79f39d79529416a383635a6160ed1443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 32/46] fix: scheduler report is late if news comes while one
 is sent

---
 .../dask_gateway/scheduler_preload.py         | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index d7df9d5..16dfa66 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -22,27 +22,22 @@ logger.parent = scheduler_logger
 
 class Waiter:
     def __init__(self):
-        self.task = None
+        # An interrupt while nobody is waiting ends the next wait
+        self.event = asyncio.Event()
         self.timer = None
 
     async def wait(self, t):
-        self.triggered = False
-        self.task = asyncio.ensure_future(asyncio.sleep(t))
         try:
-            await self.task
-        except asyncio.CancelledError:
-            if not self.triggered:
-                raise
+            await asyncio.wait_for(self.event.wait(), t)
+        except asyncio.TimeoutError:
+            pass
+        self.event.clear()
         if self.timer is not None:
             self.timer.cancel()
             self.timer = None
-        return
 
-    async def interrupt(self):
-        if self.task is not None:
-            self.triggered = True
-            await cancel_task(self.task)
-            self.task = None
+    def interrupt(self):
+        self.event.set()
 
     def interrupt_soon(self):
         if self.timer is not None:
@@ -51,7 +46,7 @@ class Waiter:
 
     async def _interrupt_soon(self):
         await asyncio.sleep(3)
-        await self.interrupt()
+        self.interrupt()
 
 
 class BaseHandler(web.RequestHandler):
@@ -306,7 +301,7 @@ class GatewaySchedulerService:
         if count != self.count:
             logger.info("Requesting scale to %s workers from %s", count, self.count)
             self.count = count
-            await self.waiter.interrupt()
+            self.waiter.interrupt()
 
     async def adapt(self, minimum=None, maximum=None, active=True):
         if active:
-- 
2.43.0


From 9a8e93a351cb9831c6b61439eb5c3152dbbd0f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 33/46] fix: clusters with queued tasks are shut down as idle

---
 dask-gateway/dask_gateway/scheduler_preload.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index 16dfa66..c6e541d 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -224,7 +224,7 @@ class GatewaySchedulerService:
             await asyncio.sleep(self.idle_timeout / 4)
             if any(ws.processing for ws in self.scheduler.workers.values()):
                 continue
-            if self.scheduler.unrunnable:
+            if self.scheduler.unrunnable or getattr(self.scheduler, "queued", None):
                 continue
 
             last_action = (
-- 
2.43.0


From 2e6cb27f837ee23ee2e0df215a0b85fc9683c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 34/46] fix: idle cluster isn't shut down if the first request
 fails

---
 dask-gateway/dask_gateway/scheduler_preload.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index c6e541d..f727809 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -238,7 +238,10 @@ class GatewaySchedulerService:
                     "Cluster has been idle for %.2f seconds, shutting down",
                     self.idle_timeout,
                 )
-                await self.gateway.shutdown()
+                try:
+                    await self.gateway.shutdown()
+                except Exception as exc:
+                    logger.warning("Failed to shut down, will retry", exc_info=exc)
 
     async def heartbeat(self):
         if self.count < len(self.active_workers):
-- 
2.43.0


From a3b594477b955b0e6306545289bb93ae82b69ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 35/46] fix: workers that couldn't be retired count as closing
 forever

---
 dask-gateway/dask_gateway/scheduler_preload.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index f727809..df81ae6 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -271,9 +271,9 @@ class GatewaySchedulerService:
                 await self.scheduler.retire_workers(
                     names=closing_workers, remove=True, close_workers=True
                 )
-            except Exception:
+            finally:
+                # Workers that couldn't be retired aren't closing any more
                 self.closing_workers.difference_update(closing_workers)
-                raise
 
     async def heartbeat_loop(self):
         base_delay = 0.25
-- 
2.43.0


From 86aa8d9ca9959f2aae2084a45a9faa0debc81dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 36/46] fix: adapt requests are lost or ignored while adaptive
 scaling is on

---
 dask-gateway/dask_gateway/scheduler_preload.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index df81ae6..78c70c0 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -12,8 +12,6 @@ from distributed.scheduler import logger as scheduler_logger
 from tornado import web
 from tornado.httpclient import AsyncHTTPClient, HTTPRequest
 
-from .utils import cancel_task
-
 logger = logging.getLogger(__name__)
 logger.setLevel(logging.INFO)
 logger.propagate = True
@@ -313,12 +311,14 @@ class GatewaySchedulerService:
             )
             self.minimum = minimum
             self.maximum = maximum
-            if self.adapt_task is None:
-                self.adapt_task = asyncio.ensure_future(self.adapt_loop())
+            if self.adapt_task is not None:
+                # Start over, the new limits hold from now on
+                self.adapt_task.cancel()
+            self.adapt_task = asyncio.ensure_future(self.adapt_loop())
         else:
             if self.adapt_task is not None:
                 logger.info("Disabling adaptive scaling")
-                await cancel_task(self.adapt_task)
+                self.adapt_task.cancel()
                 self.adapt_task = None
 
     async def adapt_loop(self):
-- 
2.43.0


From 0e0536356011654ac9d4cd6f08f4fffad87b8f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 37/46] fix: cluster is asked to stop twice, or not at all if
 closing is interrupted

---
 dask-gateway/dask_gateway/client.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/dask-gateway/dask_gateway/client.py b/dask-gateway/dask_gateway/client.py
index e86fd3c..8d6145e 100644
--- a/dask-gateway/dask_gateway/client.py
+++ b/dask-gateway/dask_gateway/client.py
@@ -909,6 +909,8 @@ class GatewayCluster:
         self._cluster_kwargs = cluster_kwargs or {}
         self._start_task = None
         self._stop_task = None
+        self._close_task = None
+        self._shutdown_sent = False
 
         self.name = name
         self.scheduler_address = None
@@ -978,7 +980,19 @@ class GatewayCluster:
                 await comm.close()
 
     async def _stop_internal(self, shutdown=None):
-        self._instances.discard(self)
+        # Only the first call decides by default, others wait for it
+        if self._close_task is None or shutdown:
+            if shutdown is None:
+                shutdown = self.shutdown_on_close
+            self._close_task = asyncio.ensure_future(
+                self._close_async(shutdown, self._close_task)
+            )
+        # Closing goes on even if the caller is cancelled
+        await asyncio.shield(self._close_task)
+
+    async def _close_async(self, shutdown, previous):
+        if previous is not None:
+            await previous
         if self._stop_task is None:
             self._stop_task = asyncio.ensure_future(self._stop_async())
         try:
@@ -986,12 +1000,10 @@ class GatewayCluster:
         except Exception:
             logger.warning("Exception raised while closing clients", exc_info=True)
 
-        if shutdown is None:
-            shutdown = self.shutdown_on_close
-
-        if shutdown and self.name is not None:
+        if shutdown and self.name is not None and not self._shutdown_sent:
             try:
                 await self.gateway._stop_cluster(self.name)
+                self._shutdown_sent = True
             except Exception:
                 logger.error(
                     "Exception raised while shutting down cluster %s",
@@ -1000,6 +1012,8 @@ class GatewayCluster:
                 )
 
         await self.gateway._cleanup()
+        self.status = "closed"
+        self._instances.discard(self)
 
     async def _stop_async(self):
         if self._start_task is not None:
@@ -1017,8 +1031,6 @@ class GatewayCluster:
             await client._close()
             self._clients.discard(client)
 
-        self.status = "closed"
-
     def __await__(self):
         return self.__aenter__().__await__()
 
-- 
2.43.0


From bdfd7797e1718ce02f9ae78dc95b1116d2ca8be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 38/46] fix: cluster is left behind if its start is cancelled

---
 dask-gateway/dask_gateway/client.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/dask-gateway/dask_gateway/client.py b/dask-gateway/dask_gateway/client.py
index 8d6145e..394f71a 100644
--- a/dask-gateway/dask_gateway/client.py
+++ b/dask-gateway/dask_gateway/client.py
@@ -920,7 +920,12 @@ class GatewayCluster:
         if name is not None:
             self.status = "starting"
         if not self.asynchronous:
-            self.gateway.sync(self._start_internal)
+            try:
+                self.gateway.sync(self._start_internal)
+            except BaseException:
+                # If interrupted, wait for the cleanup
+                self.close()
+                raise
 
     @property
     def loop(self):
@@ -934,7 +939,8 @@ class GatewayCluster:
         if self._start_task is None:
             self._start_task = asyncio.ensure_future(self._start_async())
         try:
-            await self._start_task
+            # If the caller is cancelled the cleanup cancels the task, once
+            await asyncio.shield(self._start_task)
         except BaseException:
             # On exception, cleanup
             await self._stop_internal()
@@ -947,9 +953,19 @@ class GatewayCluster:
         # Start cluster if not already started
         if self.status == "created":
             self.status = "starting"
-            self.name = await self.gateway._submit(
-                cluster_options=self._cluster_options, **self._cluster_kwargs
+            submit = asyncio.ensure_future(
+                self.gateway._submit(
+                    cluster_options=self._cluster_options, **self._cluster_kwargs
+                )
             )
+            try:
+                self.name = await asyncio.shield(submit)
+            except asyncio.CancelledError:
+                # The cluster may exist already, its name is needed to stop it
+                await asyncio.wait([submit])
+                if not submit.cancelled() and submit.exception() is None:
+                    self.name = submit.result()
+                raise
         # Connect to cluster
         try:
             report = await self.gateway._wait_for_start(self.name)
-- 
2.43.0


From f160cd1a11089b361ebe41e93c89505273c66736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 39/46] fix: hostnames can't be resolved while stopping
 clusters at exit

---
 dask-gateway/dask_gateway/client.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dask-gateway/dask_gateway/client.py b/dask-gateway/dask_gateway/client.py
index 394f71a..07cdaee 100644
--- a/dask-gateway/dask_gateway/client.py
+++ b/dask-gateway/dask_gateway/client.py
@@ -9,6 +9,7 @@ import tempfile
 import traceback
 import warnings
 import weakref
+from concurrent.futures import Future, ThreadPoolExecutor
 from datetime import datetime
 from urllib.parse import urlparse
 
@@ -752,8 +753,30 @@ _widget_status_template = """
 """
 
 
+class _InlineExecutor(ThreadPoolExecutor):
+    """Runs everything in the calling thread"""
+
+    def submit(self, fn, *args, **kwargs):
+        future = Future()
+        try:
+            future.set_result(fn(*args, **kwargs))
+        except BaseException as exc:
+            future.set_exception(exc)
+        return future
+
+
 @atexit.register
 def cleanup_lingering_clusters():
+    for o in list(GatewayCluster._instances):
+        # Executors with threads no longer work at exit, but one is needed to
+        # resolve hostnames
+        try:
+            if not o.asynchronous:
+                loop = o.loop.asyncio_loop
+                loop.call_soon_threadsafe(loop.set_default_executor, _InlineExecutor())
+        except Exception:
+            # Closed already
+            pass
     for o in list(GatewayCluster._instances):
         try:
             if not o.asynchronous:
-- 
2.43.0


From fce5e56b3b7b08abf2801658cfe6f85b987972cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 40/46] fix: cancel the job of a cluster even if its staging
 directory is gone or can't be removed

---
 .../backends/jobqueue/launcher.py             | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
index 6926ab3..97d7f04 100644
--- a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
+++ b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
@@ -28,7 +28,7 @@ def run_command(cmd, env, stdin=None):
 
     stdout, stderr = proc.communicate(stdin)
 
-    finish(
+    return dict(
         ok=True,
         returncode=proc.returncode,
         stdout=stdout.decode("utf8", "replace"),
@@ -49,22 +49,22 @@ def start(cmd, env, stdin=None, staging_dir=None, files=None):
                 error=f"Error setting up staging directory {staging_dir}: {exc}",
             )
             return
-    run_command(cmd, env, stdin=stdin)
+    finish(**run_command(cmd, env, stdin=stdin))
 
 
 def stop(cmd, env, staging_dir=None):
-    if staging_dir:
-        if not os.path.exists(staging_dir):
-            return
+    # The job is always stopped, whatever happens to its files
+    error = None
+    if staging_dir and os.path.exists(staging_dir):
         try:
             shutil.rmtree(staging_dir)
         except Exception as exc:
-            finish(
-                ok=False,
-                error=f"Error removing staging directory {staging_dir}: {exc}",
-            )
-            return
-    run_command(cmd, env)
+            error = f"Error removing staging directory {staging_dir}: {exc}"
+    result = run_command(cmd, env)
+    if error is not None:
+        finish(ok=False, error=error)
+    else:
+        finish(**result)
 
 
 def main():
-- 
2.43.0


From 0e1bb4d86568973dbc47a39900f8e391dcc53d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 41/46] fix: give the TLS files of local clusters to their
 users, not the directories above them

---
 dask-gateway-server/dask_gateway_server/backends/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/local.py b/dask-gateway-server/dask_gateway_server/backends/local.py
index d54f800..f4c9f68 100644
--- a/dask-gateway-server/dask_gateway_server/backends/local.py
+++ b/dask-gateway-server/dask_gateway_server/backends/local.py
@@ -176,7 +176,7 @@ class LocalBackend(DBBackendBase):
         for path, data in [(cert_path, cluster.tls_cert), (key_path, cluster.tls_key)]:
             with os.fdopen(os.open(path, flags, 0o600), "wb") as fil:
                 fil.write(data)
-                paths.extend(path)
+                paths.append(path)
 
         self.set_file_permissions(paths, cluster.username)
 
-- 
2.43.0


From 053bd29b87f336adef8521a5b6e20c2a0a45700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 42/46] fix: remove the staging directory if no job was
 submitted

---
 .../backends/jobqueue/launcher.py             | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
index 97d7f04..4ae0469 100644
--- a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
+++ b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
@@ -40,16 +40,32 @@ def start(cmd, env, stdin=None, staging_dir=None, files=None):
     if staging_dir:
         try:
             os.makedirs(staging_dir, mode=0o700, exist_ok=False)
-            for name, value in files.items():
-                with open(os.path.join(staging_dir, name), "w") as f:
-                    f.write(value)
         except Exception as exc:
             finish(
                 ok=False,
                 error=f"Error setting up staging directory {staging_dir}: {exc}",
             )
             return
-    finish(**run_command(cmd, env, stdin=stdin))
+    submitted = False
+    try:
+        if staging_dir:
+            try:
+                for name, value in files.items():
+                    with open(os.path.join(staging_dir, name), "w") as f:
+                        f.write(value)
+            except Exception as exc:
+                finish(
+                    ok=False,
+                    error=f"Error setting up staging directory {staging_dir}: {exc}",
+                )
+                return
+        result = run_command(cmd, env, stdin=stdin)
+        submitted = result["returncode"] == 0
+    finally:
+        # Nothing else removes these files if there's no job
+        if staging_dir and not submitted:
+            shutil.rmtree(staging_dir, ignore_errors=True)
+    finish(**result)
 
 
 def stop(cmd, env, staging_dir=None):
-- 
2.43.0


From fc4afd894a4504640dcb8d6eadc5e6cd41199b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 43/46] fix: remove the working directory of a local cluster if
 it can't be set up

---
 .../dask_gateway_server/backends/local.py      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/local.py b/dask-gateway-server/dask_gateway_server/backends/local.py
index f4c9f68..bf08047 100644
--- a/dask-gateway-server/dask_gateway_server/backends/local.py
+++ b/dask-gateway-server/dask_gateway_server/backends/local.py
@@ -164,6 +164,19 @@ class LocalBackend(DBBackendBase):
             workdir = os.path.join(self.clusters_directory, cluster.name)
         else:
             workdir = tempfile.mkdtemp(prefix="dask", suffix=cluster.name)
+        try:
+            self.populate_working_directory(workdir, cluster)
+        except BaseException:
+            # Not known to the cluster yet, so nothing else would remove it
+            self.cleanup_working_directory(workdir)
+            raise
+
+        self.log.debug(
+            "Working directory %s for cluster %s created", workdir, cluster.name
+        )
+        return workdir
+
+    def populate_working_directory(self, workdir, cluster):  # pragma: nocover
         certsdir = self.get_certs_directory(workdir)
         logsdir = self.get_logs_directory(workdir)
 
@@ -180,11 +193,6 @@ class LocalBackend(DBBackendBase):
 
         self.set_file_permissions(paths, cluster.username)
 
-        self.log.debug(
-            "Working directory %s for cluster %s created", workdir, cluster.name
-        )
-        return workdir
-
     def cleanup_working_directory(self, workdir):
         if os.path.exists(workdir):
             try:
-- 
2.43.0


From f086775a63324f2c6c7c80506918f757e461a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 44/46] fix: wait for the deletion of the worker pods asked
 for, not of as many others

Expected deletions were only counted, so any other pod that vanished (or a pod
found to be already deleted, counted twice) made the controller believe that its
deletions were done. It then counted pods that were still shutting down as
workers, and deleted further pending ones in their place.
---
 .../backends/kubernetes/controller.py             | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index d050a82..ade6144 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -90,17 +90,19 @@ class ClusterInfo:
         self.failed = set()
         self.set_expectations()
 
-    def set_expectations(self, creates=0, deletes=0):
+    def set_expectations(self, creates=0, deletes=0, deleting=()):
         """Indicate that this cluster expects to see ``creates``/``deletes`` pod
-        operations before being woken up again.
+        operations, and the pods named in ``deleting`` deleted, before being
+        woken up again.
         """
         self.creates = creates
         self.deletes = deletes
+        self.deleting = set(deleting)
         self.timestamp = time.monotonic()
 
     def expectations_fulfilled(self):
         """Return true if all expectated pod operations have been seen"""
-        return self.creates <= 0 and self.deletes <= 0
+        return self.creates <= 0 and self.deletes <= 0 and not self.deleting
 
     def expires_in(self):
         """Time until expected pod operations have timed out"""
@@ -143,6 +145,7 @@ class ClusterInfo:
         return self._update("failed", pod_name)
 
     def on_worker_deleted(self, pod_name):
+        self.deleting.discard(pod_name)
         if pod_name in self.all_pods:
             self.deletes -= 1
             self.all_pods.discard(pod_name)
@@ -803,7 +806,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             raise
         except Exception as exc:
             if info is not None:
-                info.deletes -= 1
+                info.deleting.discard(pod_name)
             if isinstance(exc, ApiException) and exc.status == 404:
                 return
             self.log.warning(
@@ -849,7 +852,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             }
         ]
         to_delete = info.succeeded.union(info.failed)
-        info.set_expectations(creates=delta, deletes=len(to_delete))
+        info.set_expectations(creates=delta, deleting=to_delete)
         self.log.info(
             "Cluster %s.%s scaled to %d - creating %d workers, deleting %d stopped workers",
             namespace,
@@ -883,7 +886,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             )
             pods = pending
             pods.extend(stopped)
-            info.set_expectations(deletes=len(pods))
+            info.set_expectations(deleting=pods)
             res = await asyncio.gather(
                 *(self.delete_pod(namespace, p, info) for p in pods),
                 return_exceptions=True,
-- 
2.43.0


From a06e4b86d1c12a13a64d93ffd2e869375a04520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:16 +0000
Subject: [PATCH 45/46] fix: YARN status checks must not mix up the workers of
 different clusters

The loop over clusters reused the name of the list of all workers, so only
the statuses of the last cluster's workers were returned, and attributed to
the first workers asked about.
---
 dask-gateway-server/dask_gateway_server/backends/yarn.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/yarn.py b/dask-gateway-server/dask_gateway_server/backends/yarn.py
index 6513803..5554d35 100644
--- a/dask-gateway-server/dask_gateway_server/backends/yarn.py
+++ b/dask-gateway-server/dask_gateway_server/backends/yarn.py
@@ -265,7 +265,7 @@ class YarnBackend(DBBackendBase):
             grouped[w.cluster].append(w)
 
         results = {}
-        for cluster, workers in grouped.items():
+        for cluster, cluster_workers in grouped.items():
             app = await self._get_app_client(cluster)
             try:
                 containers = await self.async_apply(
@@ -273,7 +273,10 @@ class YarnBackend(DBBackendBase):
                 )
                 active = {c.id for c in containers}
                 results.update(
-                    {w.name: w.state.get("container_id") in active for w in workers}
+                    {
+                        w.name: w.state.get("container_id") in active
+                        for w in cluster_workers
+                    }
                 )
             except Exception as exc:
                 self.log.debug(
@@ -281,6 +284,6 @@ class YarnBackend(DBBackendBase):
                     cluster.name,
                     exc_info=exc,
                 )
-                results.update({w.name: False for w in workers})
+                results.update({w.name: False for w in cluster_workers})
 
         return [results[w.name] for w in workers]
-- 
2.43.0


From 2ce7ac3ac79fd83bde85d3e419aa5f73546dc79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:16 +0000
Subject: [PATCH 46/46] fix: trouble with one YARN application must not fail
 the status checks of others

An application that is no longer running made looking up its client raise,
and with that the check of the workers of all clusters.
---
 dask-gateway-server/dask_gateway_server/backends/yarn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/yarn.py b/dask-gateway-server/dask_gateway_server/backends/yarn.py
index 5554d35..0aca8d8 100644
--- a/dask-gateway-server/dask_gateway_server/backends/yarn.py
+++ b/dask-gateway-server/dask_gateway_server/backends/yarn.py
@@ -266,8 +266,8 @@ class YarnBackend(DBBackendBase):
 
         results = {}
         for cluster, cluster_workers in grouped.items():
-            app = await self._get_app_client(cluster)
             try:
+                app = await self._get_app_client(cluster)
                 containers = await self.async_apply(
                     app.get_containers, services=("dask.worker",)
                 )
-- 
2.43.0

