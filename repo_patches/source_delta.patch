From aa0c2a08384bc069865378c0896b8e2c4a095cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 01/52] fix: report errors from MapTreeHash, and return a
 well-formed head for an empty map

Errors (for example a size beyond the map) were replaced with a nil response
and a nil error, and a map without mutations had no head at all.
---
 verifiable/service_map_tree_hash.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/verifiable/service_map_tree_hash.go b/verifiable/service_map_tree_hash.go
index f3df948..1c62b96 100644
--- a/verifiable/service_map_tree_hash.go
+++ b/verifiable/service_map_tree_hash.go
@@ -56,6 +56,15 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 			return status.Errorf(codes.InvalidArgument, "bad tree size")
 		}
 
+		// An empty map has no mutation log head or root node stored
+		if treeSize == 0 {
+			rv = &pb.MapTreeHashResponse{
+				RootHash:    defaultLeafValues[0],
+				MutationLog: &pb.LogTreeHashResponse{},
+			}
+			return nil
+		}
+
 		// Need this for response
 		mutHead, err := lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
 		if err != nil {
@@ -87,6 +96,7 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		if !ok {
 			err = status.Errorf(codes.Internal, "unknown err: %s", err)
 		}
+		return nil, err
 	}
 
 	return rv, nil
-- 
2.43.0


From 5795e7f144c4233349e6c607ed22113bc3d15c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:14 +0000
Subject: [PATCH 02/52] fix: batch mutator must not drop the mutation that ends
 a batch

When a mutation for another namespace arrived, the first mutation of the
batch was carried over instead of it, so an acknowledged mutation was lost.
---
 mutator/batch/mutator_batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index e1ba19f..d82938f 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -121,7 +121,7 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 	cnt := bm.Conf.BatchSize
 	for {
 		if !bytes.Equal(seed.ns, obj.ns) {
-			return curSize, seed, nil
+			return curSize, obj, nil
 		}
 		curSize, err = verifiable.ApplyMutation(ctx, kw, curSize, obj.mut)
 		if err != nil {
-- 
2.43.0


From 8f43518fa7d6d56ec9533cb25c87086f74af65c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 03/52] fix: refuse map mutations that cannot be applied

A mutation with an unknown action was queued: the batch mutator then terminated
the process, and the instant mutator failed half way through the update. A
missing value to set caused a panic in the same place, it is now the same as an
empty value.
---
 verifiable/insertion_map.go         | 4 ++--
 verifiable/service_map_set_value.go | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/verifiable/insertion_map.go b/verifiable/insertion_map.go
index ca6fe20..94b9dbe 100644
--- a/verifiable/insertion_map.go
+++ b/verifiable/insertion_map.go
@@ -35,12 +35,12 @@ var (
 func mutationLeafHash(mut *pb.MapMutation, prevLeafHash []byte) ([]byte, error) {
 	switch mut.Action {
 	case "set":
-		return merkle.LeafHash(mut.Value.LeafInput), nil
+		return merkle.LeafHash(mut.Value.GetLeafInput()), nil
 	case "delete":
 		return nullLeafHash, nil
 	case "update":
 		if bytes.Equal(prevLeafHash, mut.PreviousLeafHash) {
-			return merkle.LeafHash(mut.Value.LeafInput), nil
+			return merkle.LeafHash(mut.Value.GetLeafInput()), nil
 		}
 		return prevLeafHash, nil
 	default:
diff --git a/verifiable/service_map_set_value.go b/verifiable/service_map_set_value.go
index 81ed69d..633d0e3 100644
--- a/verifiable/service_map_set_value.go
+++ b/verifiable/service_map_set_value.go
@@ -51,6 +51,13 @@ func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueR
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
 	}
 
+	// A mutation that cannot be applied must not get as far as the mutator
+	switch req.Mutation.GetAction() {
+	case "set", "update", "delete":
+	default:
+		return nil, status.Errorf(codes.InvalidArgument, "unknown mutation action")
+	}
+
 	// Since this whacks in timestamp (deliberately, so that mutation log receives unique mutations),
 	// we must keep this rather than regenerate another object.
 	mm, err := makeJSONMutationEntry(req)
-- 
2.43.0


From ba9ef387d9db085ad41091df34dbb9957d1a3a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 04/52] fix: refuse requests without a log, map, account or
 value instead of crashing

A nil dereference on such a request terminates a gRPC server.
---
 verifiable/service_log_add_entry.go | 4 ++++
 verifiable/util_permissions.go      | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index e91ffaf..d771528 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -37,6 +37,10 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.InvalidArgument, "wrong log type")
 	}
 
+	if req.Value == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "no value to add")
+	}
+
 	ns, err := logBucket(req.Log)
 	if err != nil {
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 2b89308..8d1a814 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -55,15 +55,21 @@ var (
 )
 
 func (s *localServiceImpl) verifyAccessForMap(ctx context.Context, vmap *pb.MapRef, perm pb.Permission) (*AccessModifier, error) {
+	if vmap.GetAccount() == nil {
+		return nil, ErrInvalidRequest
+	}
 	return s.AccessPolicy.VerifyAllowed(ctx, vmap.Account.Id, vmap.Account.ApiKey, vmap.Name, perm)
 }
 
 func (s *localServiceImpl) verifyAccessForLog(ctx context.Context, log *pb.LogRef, perm pb.Permission) (*AccessModifier, error) {
+	if log.GetAccount() == nil {
+		return nil, ErrInvalidRequest
+	}
 	return s.AccessPolicy.VerifyAllowed(ctx, log.Account.Id, log.Account.ApiKey, log.Name, perm)
 }
 
 func (s *localServiceImpl) verifyAccessForLogOperation(ctx context.Context, log *pb.LogRef, op int) (*AccessModifier, error) {
-	perm, ok := operationForLogType[log.LogType][op]
+	perm, ok := operationForLogType[log.GetLogType()][op]
 	if !ok {
 		return nil, ErrNotAuthorized
 	}
-- 
2.43.0


From 9d2c7bb648ade31ab61103be3e7ed3a7d5d27f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 05/52] fix: let readers limited to certain fields read
 deletions and absent values

---
 verifiable/util_permissions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 8d1a814..84c72af 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -81,6 +81,10 @@ func filterLeafData(ld *pb.LeafData, am *AccessModifier) (*pb.LeafData, error) {
 	if am.FieldFilter == AllFields {
 		return ld, nil
 	}
+	// Nothing to filter, e.g. the value of a delete, or of a key that isn't set
+	if ld == nil || (len(ld.LeafInput) == 0 && len(ld.ExtraData) == 0) {
+		return ld, nil
+	}
 	// Largely just for show, but saves us working on the wrong data type
 	switch ld.Format {
 	case pb.DataFormat_JSON:
-- 
2.43.0


From 008391e4ec91af0a5b05c3fc5e3afa40ef802b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 06/52] fix: verify map proofs of any length without crashing

---
 verifiable/service_map_get_value.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index 7a6c64c..cce6880 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -150,14 +150,17 @@ var (
 
 // VerifyMapInclusionProof verifies an inclusion proof against a MapTreeHead
 func VerifyMapInclusionProof(self *pb.MapGetValueResponse, key []byte, head *pb.MapTreeHashResponse) error {
-	if self.TreeSize != head.MutationLog.TreeSize {
+	if self.TreeSize != head.GetMutationLog().GetTreeSize() {
 		return ErrVerificationFailed
 	}
 
 	kp := merkle.ConstructMapKeyPath(key)
 	t := merkle.LeafHash(self.Value.GetLeafInput())
 	for i := len(kp) - 1; i >= 0; i-- {
-		p := self.AuditPath[i]
+		var p []byte
+		if i < len(self.AuditPath) { // trailing default elements may be omitted
+			p = self.AuditPath[i]
+		}
 		if len(p) == 0 { // some transport layers change nil to zero length, so we handle either in the same way
 			p = defaultLeafValues[i+1]
 		}
-- 
2.43.0


From 20efd4b9745b78cd1b69195a825773fdf4b516fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:03 +0000
Subject: [PATCH 07/52] fix: ignore negative proof indices in REST client
 instead of crashing

---
 server/httprest/client_http_rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index dbc848e..5427b01 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -283,7 +283,7 @@ func parseHeadersForProof(headers http.Header) ([][]byte, error) {
 					if err != nil {
 						return nil, err
 					}
-					if idx < 256 {
+					if idx >= 0 && idx < 256 {
 						prv[idx] = bs
 					}
 				}
-- 
2.43.0


From aad012c32f1c2bcc095d9dc9b2efbddb6376e047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 08/52] fix: CalcK must terminate for sizes above 2^62

---
 merkle/util_merkle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle/util_merkle.go b/merkle/util_merkle.go
index 90e91bc..5a01e15 100644
--- a/merkle/util_merkle.go
+++ b/merkle/util_merkle.go
@@ -75,7 +75,7 @@ func IsPow2(n int64) bool {
 // CalcK returns the largest value that is a power of 2, less than n
 func CalcK(n int64) int64 {
 	k := int64(1)
-	for (k << 1) < n {
+	for k < n-k { // ie (k << 1) < n, without overflow
 		k <<= 1
 	}
 	return k
-- 
2.43.0


From ffaead5863c2591f95358ceed6533ef05aa169f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 09/52] fix: map audit must compare each mutation with the map
 just before it

Without this, once one mutation had changed the map, every later mutation
was compared with the initial map instead, so the audit function was called
for mutations that changed nothing and not for those that restored it.
---
 verifiable/util_map_audit.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index ab8f4bc..79a7b89 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -265,7 +265,6 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 				if err != nil {
 					return err
 				}
-				return nil
 			}
 
 			// Save for next time
-- 
2.43.0


From a1fdc4e6cbcff206affed649bc1ff678ede70c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 10/52] fix: map audit must not check the value of mutations
 that carry none

---
 verifiable/util_map_audit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index 79a7b89..8490d1f 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -225,7 +225,7 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 				return err
 			}
 
-			if a.LeafDataAuditFunction != nil {
+			if a.LeafDataAuditFunction != nil && mutation.Value != nil {
 				err = a.LeafDataAuditFunction(ctx, mutation.Value)
 				if err != nil {
 					return err
-- 
2.43.0


From af0878e537856e3f3a0dd2caa49ded71433cd4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 11/52] fix: fail the audit of malformed entries and proofs
 instead of crashing

---
 verifiable/api_highlevel_log.go |  3 +++
 verifiable/util_json.go         | 10 +++++-----
 verifiable/util_map_audit.go    |  9 +++++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index aa791e0..0baa90b 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -240,6 +240,9 @@ func (log *Log) VerifyEntries(ctx context.Context, prev *pb.LogTreeHashResponse,
 
 		merkleTreeStack = append(merkleTreeStack, mtlHash)
 		for z := idx; (z & 1) == 1; z >>= 1 {
+			if len(merkleTreeStack) < 2 {
+				return ErrVerificationFailed
+			}
 			merkleTreeStack = append(merkleTreeStack[:len(merkleTreeStack)-2], merkle.NodeHash(merkleTreeStack[len(merkleTreeStack)-2], merkleTreeStack[len(merkleTreeStack)-1]))
 		}
 
diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index 8f325ca..e548744 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -116,7 +116,7 @@ func CreateJSONLeafDataFromObject(o interface{}) (*pb.LeafData, error) {
 // It ignores the format field.
 func ValidateJSONLeafData(ctx context.Context, entry *pb.LeafData) error {
 	var o interface{}
-	err := json.Unmarshal(entry.ExtraData, &o)
+	err := json.Unmarshal(entry.GetExtraData(), &o)
 	if err != nil {
 		return ErrVerificationFailed
 	}
@@ -124,7 +124,7 @@ func ValidateJSONLeafData(ctx context.Context, entry *pb.LeafData) error {
 	if err != nil {
 		return ErrVerificationFailed
 	}
-	if !bytes.Equal(entry.LeafInput, h) {
+	if !bytes.Equal(entry.GetLeafInput(), h) {
 		return ErrVerificationFailed
 	}
 	return nil
@@ -183,8 +183,8 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 // It ignores the format field.
 func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
 	var o *pb.MapMutation
-	err := json.Unmarshal(entry.ExtraData, &o)
-	if err != nil {
+	err := json.Unmarshal(entry.GetExtraData(), &o)
+	if err != nil || o == nil {
 		return ErrVerificationFailed
 	}
 	if o.Value != nil {
@@ -206,7 +206,7 @@ func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
 	if err != nil {
 		return ErrVerificationFailed
 	}
-	if !bytes.Equal(entry.LeafInput, h) {
+	if !bytes.Equal(entry.GetLeafInput(), h) {
 		return ErrVerificationFailed
 	}
 
diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index 8490d1f..bb92823 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -154,12 +154,12 @@ func addMutationToTree(root *mapAuditNode, mut *pb.MapMutation) ([]byte, error)
 
 	switch mut.Action {
 	case "set":
-		head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
+		head.LeafHash = merkle.LeafHash(mut.Value.GetLeafInput())
 	case "delete":
 		head.LeafHash = defaultLeafValues[256]
 	case "update":
 		if bytes.Equal(head.LeafHash, mut.PreviousLeafHash) {
-			head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
+			head.LeafHash = merkle.LeafHash(mut.Value.GetLeafInput())
 		}
 	default:
 		return nil, ErrVerificationFailed
@@ -304,6 +304,11 @@ func (a *auditState) CheckTreeHeadEntry(ctx context.Context, idx int64, entry *p
 		return err
 	}
 
+	// Size 1 is the first meaningful
+	if mth.GetMutationLog().GetTreeSize() < 1 {
+		return ErrVerificationFailed
+	}
+
 	// Advance the state of the auditor to at least this size
 	err = a.ProcessUntilAtLeast(ctx, mth.MutationLog.TreeSize)
 	if err != nil {
-- 
2.43.0


From ab0f49eabe064f34fff4b03fb9a135ce88e534c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 12/52] fix: REST update with an empty previous leaf hash must
 not become a set

---
 server/httprest/server_http_handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index fc8ef01..889396f 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -664,13 +664,13 @@ func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[s
 		return
 	}
 
-	if len(prevLeafHash) == 0 {
+	if len(r.Header.Values("X-Previous-LeafHash")) == 0 {
 		as.queueMapMutation(vmap, &pb.MapMutation{
 			Action: "set",
 			Key:    key,
 			Value:  ld,
 		}, w, r)
-	} else { // must be an update
+	} else { // must be an update, even if the header is empty
 		as.queueMapMutation(vmap, &pb.MapMutation{
 			Action:           "update",
 			Key:              key,
-- 
2.43.0


From 1d64d70da8ba14678dcca54015ee09775be869f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 13/52] fix: map values must not overwrite mutation log entries
 with the same leaf input

---
 verifiable/insertion_map.go         |  2 +-
 verifiable/service_map_get_value.go |  2 +-
 verifiable/util_service_data.go     | 21 +++++++++++++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/verifiable/insertion_map.go b/verifiable/insertion_map.go
index 94b9dbe..c224784 100644
--- a/verifiable/insertion_map.go
+++ b/verifiable/insertion_map.go
@@ -154,7 +154,7 @@ func setMapValue(ctx context.Context, db KeyWriter, vmap *pb.MapRef, mutationInd
 
 	// Time to start writing our data
 	if !bytes.Equal(nextLeafHash, nullLeafHash) {
-		err = writeDataByLeafHash(ctx, db, pb.LogType_STRUCT_TYPE_MUTATION_LOG, nextLeafHash, mut.Value)
+		err = writeMapValueByLeafHash(ctx, db, nextLeafHash, mut.Value)
 		if err != nil {
 			return nil, err
 		}
diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index cce6880..1006ab2 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -97,7 +97,7 @@ func (s *localServiceImpl) MapGetValue(ctx context.Context, req *pb.MapGetValueR
 				if bytes.Equal(cur.LeafHash, nullLeafHash) {
 					dataRv = &pb.LeafData{} // empty value
 				} else {
-					dataRv, err = lookupDataByLeafHash(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, cur.LeafHash)
+					dataRv, err = lookupMapValueByLeafHash(ctx, kr, cur.LeafHash)
 					if err != nil {
 						return err
 					}
diff --git a/verifiable/util_service_data.go b/verifiable/util_service_data.go
index 31bebb5..3c0fc55 100644
--- a/verifiable/util_service_data.go
+++ b/verifiable/util_service_data.go
@@ -67,6 +67,7 @@ var (
 
 	objSizeKey    = []byte("metadata/size")
 	mapNodeBucket = []byte("map_node/")
+	mapDataBucket = []byte("map_data/")
 )
 
 // Start pair
@@ -92,6 +93,26 @@ func lookupDataByLeafHash(ctx context.Context, kr KeyReader, lt pb.LogType, lh [
 	return &m, nil
 }
 
+// Map values have a bucket of their own, so that a value with the same leaf input as
+// a mutation log entry can't replace the data for that entry.
+func writeMapValueByLeafHash(ctx context.Context, kr KeyWriter, lh []byte, data *pb.LeafData) error {
+	return kr.Set(ctx, makeStorageKey(mapDataBucket, lh), data)
+}
+
+func lookupMapValueByLeafHash(ctx context.Context, kr KeyReader, lh []byte) (*pb.LeafData, error) {
+	var m pb.LeafData
+	err := kr.Get(ctx, makeStorageKey(mapDataBucket, lh), &m)
+	switch err {
+	case nil:
+		return &m, nil
+	case ErrNoSuchKey:
+		// older values were stored alongside the mutation log entries
+		return lookupDataByLeafHash(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, lh)
+	default:
+		return nil, err
+	}
+}
+
 // Start pair
 
 func writeLeafNodeByIndex(ctx context.Context, kr KeyWriter, lt pb.LogType, idx int64, data *pb.LeafNode) error {
-- 
2.43.0


From 0ce3769ca1464d132c24635de9a4ac10ae9a1042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 14/52] fix: inclusion proof for a hash that is not in the log
 is a not found error

---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index abb7716..5d42382 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -74,6 +74,9 @@ func (s *localServiceImpl) LogInclusionProof(ctx context.Context, req *pb.LogInc
 		} else {
 			// Then we must fetch the index
 			ei, err := lookupIndexByLeafHash(ctx, kr, req.Log.LogType, req.MtlHash)
+			if err == ErrNoSuchKey {
+				return status.Errorf(codes.NotFound, "cannot find it")
+			}
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 633cde3b94b015b212a697577eb583f46c3c5410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 15/52] fix: badger storage must not report every error as a
 missing key

---
 storage/badger/storage_badger.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 0e2a117..8ac55d3 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -129,9 +129,12 @@ type badgerReaderWriter struct {
 
 func (db *badgerReaderWriter) Get(ctx context.Context, key []byte, value proto.Message) error {
 	item, err := db.Tx.Get(key)
-	if err != nil {
+	if err == badger.ErrKeyNotFound {
 		return verifiable.ErrNoSuchKey
 	}
+	if err != nil {
+		return err
+	}
 	return item.Value(func(bb []byte) error {
 		return proto.Unmarshal(bb, value)
 	})
-- 
2.43.0


From e4e6c7c129283374c8bfbbd69d6a0de1c50db482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 16/52] fix: a verified head or map state must be for the size
 that was asked for

---
 verifiable/api_highlevel_log.go | 5 +++++
 verifiable/api_highlevel_map.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index 0baa90b..978e2ec 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -150,6 +150,11 @@ func (log *Log) VerifiedTreeHead(ctx context.Context, prev *pb.LogTreeHashRespon
 		return nil, err
 	}
 
+	// If we asked for a specific size, that's what we must get
+	if treeSize != 0 && head.GetTreeSize() != treeSize {
+		return nil, ErrVerificationFailed
+	}
+
 	if prev != nil {
 		err = log.VerifyConsistency(ctx, prev, head)
 		if err != nil {
diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index ed1db5f..9ea662e 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -105,6 +105,11 @@ func (vmap *Map) VerifiedMapState(ctx context.Context, prev *MapTreeState, treeS
 		return nil, err
 	}
 
+	// If we asked for a specific size, that's what we must get
+	if treeSize != 0 && mapHead.GetMutationLog().GetTreeSize() != treeSize {
+		return nil, ErrVerificationFailed
+	}
+
 	// Short-cut: If prev is nil, and we have no size yet, then we are nil too
 	// since while a map head may be valid, the logs can't be.
 	if prev == nil && mapHead.GetMutationLog().GetTreeSize() == 0 {
-- 
2.43.0


From 5f7f9ebf3516dd50ffe3a736f41ae47f5980959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 17/52] fix: batched log entries must not change when the
 caller re-uses its request

---
 verifiable/service_log_add_entry.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index d771528..5d3b786 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -24,6 +24,7 @@ import (
 	"golang.org/x/net/context"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/proto"
 )
 
 // LogAddEntry adds an entry to a log
@@ -46,14 +47,16 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
 	}
 
+	// Queue a copy, since mutators may apply it after we return, by when the caller may have re-used theirs
+	queued := proto.Clone(req).(*pb.LogAddEntryRequest)
 	err = s.Mutator.QueueMutation(ctx, ns, &pb.Mutation{
-		LogAddEntry: req,
+		LogAddEntry: queued,
 	})
 	if err != nil {
 		return nil, status.Errorf(codes.Internal, "error queuing mutation: %s", err)
 	}
 
 	return &pb.LogAddEntryResponse{
-		LeafHash: merkle.LeafHash(req.Value.LeafInput),
+		LeafHash: merkle.LeafHash(queued.Value.LeafInput),
 	}, nil
 }
-- 
2.43.0


From 2b82667dda3b4acee2838eb271866993ce02e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:00 +0000
Subject: [PATCH 18/52] fix: REST client must not address other objects by
 names that are not valid in a URL

---
 server/httprest/client_http_rest.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index 5427b01..9ef6690 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -24,6 +24,7 @@ import (
 	"io"
 	"log"
 	"net/http"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -66,7 +67,25 @@ func (c *Client) MustDial() pb.VerifiableDataStructuresServiceServer {
 
 type httpRestImpl Client
 
+var (
+	// The account IDs and log / map names that the REST API can address. Anything else must not
+	// be made part of a URL, where it could end up addressing some other object.
+	addressableAccount = regexp.MustCompile("^[0-9]+$")
+	addressableName    = regexp.MustCompile("^[0-9a-z-_]+$")
+)
+
+func checkAddressable(account *pb.AccountRef, name string) error {
+	if !addressableAccount.MatchString(account.GetId()) || !addressableName.MatchString(name) {
+		return status.Error(codes.InvalidArgument, "account or name cannot be used with the REST API")
+	}
+	return nil
+}
+
 func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	err := checkAddressable(log.GetAccount(), log.GetName())
+	if err != nil {
+		return nil, nil, err
+	}
 	prefix := ""
 	switch log.LogType {
 	case pb.LogType_STRUCT_TYPE_LOG:
@@ -82,6 +101,10 @@ func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data
 }
 
 func (c *httpRestImpl) makeMapRequest(vmap *pb.MapRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	err := checkAddressable(vmap.GetAccount(), vmap.GetName())
+	if err != nil {
+		return nil, nil, err
+	}
 	return c.makeRequest(vmap.Account, method, fmt.Sprintf("/account/%s/map/%s", vmap.Account.Id, vmap.Name)+path, data, headers)
 }
 
@@ -218,7 +241,7 @@ func (c *httpRestImpl) LogConsistencyProof(ctx context.Context, req *pb.LogConsi
 
 // MapSetValue sets a value in the map
 func (c *httpRestImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
-	switch req.Mutation.Action {
+	switch req.Mutation.GetAction() {
 	case "delete":
 		contents, _, err := c.makeMapRequest(req.Map, "DELETE", "/key/h/"+hex.EncodeToString(req.Mutation.Key), nil, nil)
 		if err != nil {
-- 
2.43.0


From d45c2edede33ce7c25a8e71b824e77f54b95ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 19/52] fix: REST server must answer malformed requests with
 400, not 500

---
 server/httprest/server_http_handler.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index 889396f..5c096fc 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -284,6 +284,15 @@ func writeResponseHeader(logger *log.Logger, w http.ResponseWriter, err error) {
 		logger.Println(err.Error())
 	}
 
+	switch err {
+	case verifiable.ErrInvalidRequest:
+		w.WriteHeader(http.StatusBadRequest)
+		return
+	case verifiable.ErrNotFound:
+		w.WriteHeader(http.StatusNotFound)
+		return
+	}
+
 	s, ok := status.FromError(err)
 	if !ok {
 		w.WriteHeader(http.StatusInternalServerError)
-- 
2.43.0


From 47b08cd1aa3e853200f9555bdb18a7c6742da0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 20/52] fix: inclusion proofs with surplus elements must not
 verify

---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index 5d42382..671893a 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -145,6 +145,9 @@ func VerifyLogInclusionProof(self *pb.LogInclusionProofResponse, leafHash []byte
 	fn, sn := self.LeafIndex, self.TreeSize-1
 	r := leafHash
 	for _, p := range self.AuditPath {
+		if sn == 0 { // more elements than there are levels
+			return ErrVerificationFailed
+		}
 		if (fn == sn) || ((fn & 1) == 1) {
 			r = merkle.NodeHash(p, r)
 			for !((fn == 0) || ((fn & 1) == 1)) {
-- 
2.43.0


From edb190b05c1aff0bccc91e6a55b0563f554344f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 21/52] fix: inclusion proofs must be of a whole leaf hash

---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index 671893a..de4c0f5 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -135,6 +135,9 @@ func VerifyLogInclusionProof(self *pb.LogInclusionProofResponse, leafHash []byte
 	if self.TreeSize != head.TreeSize {
 		return ErrVerificationFailed
 	}
+	if len(leafHash) != 32 {
+		return ErrVerificationFailed
+	}
 	if self.LeafIndex >= self.TreeSize {
 		return ErrVerificationFailed
 	}
-- 
2.43.0


From 516294ffcab77b267277fc8e9429fb5a2b1e3d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 22/52] fix: Badger storage opens again after a crash in the
 middle of a write

A process that is killed while writing can leave an incomplete transaction at
the end of the value log, and Badger then refuses to open the database unless
truncation is allowed. Acknowledged transactions precede what is truncated.
---
 storage/badger/storage_badger.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 8ac55d3..99de68a 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -91,8 +91,9 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
 		return rv, nil
 	}
 
-	// Get or create on disk
-	db, err := badger.Open(badger.DefaultOptions(filepath.Join(bbs.Path, key)))
+	// Get or create on disk. If we crashed during a write then the value log ends with an incomplete
+	// transaction, and unless we allow for it to be truncated then Badger refuses to open it.
+	db, err := badger.Open(badger.DefaultOptions(filepath.Join(bbs.Path, key)).WithTruncate(true))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 36ad9698c6d03743a675b919152c38ef45b28e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 23/52] fix: REST client calls end with their context

---
 server/httprest/client_http_rest.go | 34 ++++++++++++++---------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index 9ef6690..f749f17 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -81,7 +81,7 @@ func checkAddressable(account *pb.AccountRef, name string) error {
 	return nil
 }
 
-func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+func (c *httpRestImpl) makeLogRequest(ctx context.Context, log *pb.LogRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
 	err := checkAddressable(log.GetAccount(), log.GetName())
 	if err != nil {
 		return nil, nil, err
@@ -97,21 +97,21 @@ func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data
 	default:
 		return nil, nil, verifiable.ErrInvalidRequest
 	}
-	return c.makeRequest(log.Account, method, prefix+path, data, headers)
+	return c.makeRequest(ctx, log.Account, method, prefix+path, data, headers)
 }
 
-func (c *httpRestImpl) makeMapRequest(vmap *pb.MapRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+func (c *httpRestImpl) makeMapRequest(ctx context.Context, vmap *pb.MapRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
 	err := checkAddressable(vmap.GetAccount(), vmap.GetName())
 	if err != nil {
 		return nil, nil, err
 	}
-	return c.makeRequest(vmap.Account, method, fmt.Sprintf("/account/%s/map/%s", vmap.Account.Id, vmap.Name)+path, data, headers)
+	return c.makeRequest(ctx, vmap.Account, method, fmt.Sprintf("/account/%s/map/%s", vmap.Account.Id, vmap.Name)+path, data, headers)
 }
 
 // Intended for internal use, MakeRequest makes an HTTP request and converts the error
 // code to those appropriate for the rest of the library.
-func (c *httpRestImpl) makeRequest(account *pb.AccountRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
-	req, err := http.NewRequest(method, c.BaseURL+restAPIVersion+path, bytes.NewReader(data))
+func (c *httpRestImpl) makeRequest(ctx context.Context, account *pb.AccountRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	req, err := http.NewRequestWithContext(ctx, method, c.BaseURL+restAPIVersion+path, bytes.NewReader(data))
 	if err != nil {
 		return nil, nil, err
 	}
@@ -158,7 +158,7 @@ func (c *httpRestImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryReque
 	if err != nil {
 		return nil, err
 	}
-	contents, _, err := c.makeLogRequest(req.Log, "POST", "/entry/extra", reqData, nil)
+	contents, _, err := c.makeLogRequest(ctx, req.Log, "POST", "/entry/extra", reqData, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -172,7 +172,7 @@ func (c *httpRestImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryReque
 
 // LogFetchEntries fetches entries from the log
 func (c *httpRestImpl) LogFetchEntries(ctx context.Context, req *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
-	contents, _, err := c.makeLogRequest(req.Log, "GET", fmt.Sprintf("/entries/%d-%d%s", req.First, req.Last, "/extra"), nil, nil)
+	contents, _, err := c.makeLogRequest(ctx, req.Log, "GET", fmt.Sprintf("/entries/%d-%d%s", req.First, req.Last, "/extra"), nil, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -187,7 +187,7 @@ func (c *httpRestImpl) LogFetchEntries(ctx context.Context, req *pb.LogFetchEntr
 
 // LogTreeHash fetches the tree hash from the log
 func (c *httpRestImpl) LogTreeHash(ctx context.Context, req *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
-	contents, _, err := c.makeLogRequest(req.Log, "GET", fmt.Sprintf("/tree/%d", req.TreeSize), nil, nil)
+	contents, _, err := c.makeLogRequest(ctx, req.Log, "GET", fmt.Sprintf("/tree/%d", req.TreeSize), nil, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -202,7 +202,7 @@ func (c *httpRestImpl) LogTreeHash(ctx context.Context, req *pb.LogTreeHashReque
 // LogInclusionProof fetches an inclusion proof from the logs
 func (c *httpRestImpl) LogInclusionProof(ctx context.Context, req *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
 	if len(req.MtlHash) == 0 {
-		contents, _, err := c.makeLogRequest(req.Log, "GET", fmt.Sprintf("/tree/%d/inclusion/%d", req.TreeSize, req.LeafIndex), nil, nil)
+		contents, _, err := c.makeLogRequest(ctx, req.Log, "GET", fmt.Sprintf("/tree/%d/inclusion/%d", req.TreeSize, req.LeafIndex), nil, nil)
 		if err != nil {
 			return nil, err
 		}
@@ -213,7 +213,7 @@ func (c *httpRestImpl) LogInclusionProof(ctx context.Context, req *pb.LogInclusi
 		}
 		return &rv, nil
 	}
-	contents, _, err := c.makeLogRequest(req.Log, "GET", fmt.Sprintf("/tree/%d/inclusion/h/%s", req.TreeSize, hex.EncodeToString(req.MtlHash)), nil, nil)
+	contents, _, err := c.makeLogRequest(ctx, req.Log, "GET", fmt.Sprintf("/tree/%d/inclusion/h/%s", req.TreeSize, hex.EncodeToString(req.MtlHash)), nil, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -227,7 +227,7 @@ func (c *httpRestImpl) LogInclusionProof(ctx context.Context, req *pb.LogInclusi
 
 // LogConsistencyProof fetches a consistency proof from the log
 func (c *httpRestImpl) LogConsistencyProof(ctx context.Context, req *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
-	contents, _, err := c.makeLogRequest(req.Log, "GET", fmt.Sprintf("/tree/%d/consistency/%d", req.TreeSize, req.FromSize), nil, nil)
+	contents, _, err := c.makeLogRequest(ctx, req.Log, "GET", fmt.Sprintf("/tree/%d/consistency/%d", req.TreeSize, req.FromSize), nil, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -243,7 +243,7 @@ func (c *httpRestImpl) LogConsistencyProof(ctx context.Context, req *pb.LogConsi
 func (c *httpRestImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
 	switch req.Mutation.GetAction() {
 	case "delete":
-		contents, _, err := c.makeMapRequest(req.Map, "DELETE", "/key/h/"+hex.EncodeToString(req.Mutation.Key), nil, nil)
+		contents, _, err := c.makeMapRequest(ctx, req.Map, "DELETE", "/key/h/"+hex.EncodeToString(req.Mutation.Key), nil, nil)
 		if err != nil {
 			return nil, err
 		}
@@ -258,7 +258,7 @@ func (c *httpRestImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueReque
 		if err != nil {
 			return nil, err
 		}
-		contents, _, err := c.makeMapRequest(req.Map, "PUT", "/key/h/"+hex.EncodeToString(req.Mutation.Key)+"/extra", reqData, nil)
+		contents, _, err := c.makeMapRequest(ctx, req.Map, "PUT", "/key/h/"+hex.EncodeToString(req.Mutation.Key)+"/extra", reqData, nil)
 		if err != nil {
 			return nil, err
 		}
@@ -273,7 +273,7 @@ func (c *httpRestImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueReque
 		if err != nil {
 			return nil, err
 		}
-		contents, _, err := c.makeMapRequest(req.Map, "PUT", "/key/h/"+hex.EncodeToString(req.Mutation.Key)+"/extra", reqData, [][2]string{
+		contents, _, err := c.makeMapRequest(ctx, req.Map, "PUT", "/key/h/"+hex.EncodeToString(req.Mutation.Key)+"/extra", reqData, [][2]string{
 			[2]string{"X-Previous-LeafHash", hex.EncodeToString(req.Mutation.PreviousLeafHash)},
 		})
 		if err != nil {
@@ -318,7 +318,7 @@ func parseHeadersForProof(headers http.Header) ([][]byte, error) {
 
 // MapGetValue gets the value from the map
 func (c *httpRestImpl) MapGetValue(ctx context.Context, req *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
-	value, headers, err := c.makeMapRequest(req.Map, "GET", fmt.Sprintf("/tree/%d/key/h/%s%s", req.TreeSize, hex.EncodeToString(req.Key), "/extra"), nil, nil)
+	value, headers, err := c.makeMapRequest(ctx, req.Map, "GET", fmt.Sprintf("/tree/%d/key/h/%s%s", req.TreeSize, hex.EncodeToString(req.Key), "/extra"), nil, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -348,7 +348,7 @@ func (c *httpRestImpl) MapGetValue(ctx context.Context, req *pb.MapGetValueReque
 
 // MapTreeHash gets the tree hash from the map
 func (c *httpRestImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
-	contents, _, err := c.makeMapRequest(req.Map, "GET", fmt.Sprintf("/tree/%d", req.TreeSize), nil, nil)
+	contents, _, err := c.makeMapRequest(ctx, req.Map, "GET", fmt.Sprintf("/tree/%d", req.TreeSize), nil, nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 128859c46a6151d4622291b953598578b78e1733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 24/52] fix: waiting for an entry or a map size ends with the
 context, and survives a head without a mutation log

---
 verifiable/api_highlevel_log.go |  6 +++++-
 verifiable/api_highlevel_map.go | 12 ++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index 978e2ec..22a7015 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -109,7 +109,11 @@ func (log *Log) BlockUntilPresent(ctx context.Context, leaf []byte) (*pb.LogTree
 			// no luck, snooze a bit longer
 			timeToSleep *= 2
 		}
-		time.Sleep(timeToSleep)
+		select {
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		case <-time.After(timeToSleep):
+		}
 	}
 }
 
diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index 9ea662e..69690cd 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -51,18 +51,22 @@ func (vmap *Map) BlockUntilSize(ctx context.Context, treeSize int64) (*pb.MapTre
 		if err != nil {
 			return nil, err
 		}
-		if lth.MutationLog.TreeSize >= treeSize {
+		if lth.GetMutationLog().GetTreeSize() >= treeSize {
 			return lth, nil
 		}
-		if lth.MutationLog.TreeSize > lastHead {
-			lastHead = lth.MutationLog.TreeSize
+		if lth.GetMutationLog().GetTreeSize() > lastHead {
+			lastHead = lth.GetMutationLog().GetTreeSize()
 			// since we got a new tree head, reset sleep time
 			timeToSleep = time.Second
 		} else {
 			// no luck, snooze a bit longer
 			timeToSleep *= 2
 		}
-		time.Sleep(timeToSleep)
+		select {
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		case <-time.After(timeToSleep):
+		}
 	}
 }
 
-- 
2.43.0


From 1fabcaaf147669d90d57ddb73e65a4194bb4a14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 25/52] fix: redactable and REST JSON with already redacted
 values gets the leaf input that validates

---
 server/httprest/server_http_handler.go | 22 ++++------------------
 verifiable/util_json.go                |  2 +-
 2 files changed, 5 insertions(+), 19 deletions(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index 5c096fc..3f9bc32 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -29,7 +29,6 @@ import (
 
 	"google.golang.org/grpc/status"
 
-	"github.com/continusec/objecthash"
 	"github.com/continusec/verifiabledatastructures/assets"
 	"github.com/continusec/verifiabledatastructures/merkle"
 	"github.com/continusec/verifiabledatastructures/pb"
@@ -612,30 +611,17 @@ func createLeafData(body []byte, ef int) (*pb.LeafData, error) {
 	case rawEntry:
 		return &pb.LeafData{LeafInput: body}, nil
 	case jsonEntry:
-		oh, err := objecthash.CommonJSONHash(body)
+		ld, err := verifiable.CreateJSONLeafData(body)
 		if err != nil {
 			return nil, verifiable.ErrInvalidRequest
 		}
-		return &pb.LeafData{LeafInput: oh, ExtraData: body, Format: pb.DataFormat_JSON}, nil
+		return ld, nil
 	case redactedEntry:
-		var obj interface{}
-		err := json.Unmarshal(body, &obj)
+		ld, err := verifiable.CreateRedactableJSONLeafData(body)
 		if err != nil {
 			return nil, verifiable.ErrInvalidRequest
 		}
-		redactable, err := objecthash.Redactable(obj)
-		if err != nil {
-			return nil, verifiable.ErrInvalidRequest
-		}
-		oh, err := objecthash.ObjectHash(redactable)
-		if err != nil {
-			return nil, verifiable.ErrInvalidRequest
-		}
-		rb, err := json.Marshal(redactable)
-		if err != nil {
-			return nil, verifiable.ErrInvalidRequest
-		}
-		return &pb.LeafData{LeafInput: oh, ExtraData: rb, Format: pb.DataFormat_JSON}, nil
+		return ld, nil
 	case extraEntry:
 		var req pb.LeafData
 		err := json.Unmarshal(body, &req)
diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index e548744..a1de5f1 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -166,7 +166,7 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 		return nil, err
 	}
 
-	bflh, err := objecthash.ObjectHash(o)
+	bflh, err := objecthash.ObjectHashWithStdRedaction(o)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3c59e7e140d1a3bd89c1eb96c67a4424b4ead4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 26/52] fix: JavaScript client refuses proofs with an index out
 of range, no path or surplus elements

---
 assets/static/continusec.js | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index ca09554..f672b9e 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1019,14 +1019,14 @@ LogConsistencyProof.prototype.verify = function (first, second) {
     }
 
     if (newProof.length === 0) {
-        return false;
+        throw CONTINUSEC_VERIFICATION_ERROR;
     }
 
     var fr = newProof[0];
     var sr = newProof[0];
     for (i = 1; i < newProof.length; i++) {
         if (sn === 0) {
-            return false;
+            throw CONTINUSEC_VERIFICATION_ERROR;
         }
         if (((fn & 1) == 1) || (fn == sn)) {
             fr = nodeMerkleTreeHash(newProof[i], fr);
@@ -1107,8 +1107,12 @@ LogInclusionProof.prototype.verify = function (head) {
     	throw CONTINUSEC_VERIFICATION_ERROR;
 	}
 
-    if ((this.leafIndex >= this.treeSize) || (this.leafIndex < 0)) {
-        return false;
+    if (!((this.leafIndex >= 0) && (this.leafIndex < this.treeSize))) {
+        throw CONTINUSEC_VERIFICATION_ERROR;
+    }
+
+    if (this.leafHash === null || this.leafHash.length != 32) {
+        throw CONTINUSEC_VERIFICATION_ERROR;
     }
 
     var fn = this.leafIndex;
@@ -1116,6 +1120,9 @@ LogInclusionProof.prototype.verify = function (head) {
     var r = this.leafHash;
 
     for (var i = 0; i < this.auditPath.length; i++) {
+        if (sn === 0) {
+            throw CONTINUSEC_VERIFICATION_ERROR;
+        }
         if ((fn == sn) || ((fn & 1) == 1)) {
             r = nodeMerkleTreeHash(this.auditPath[i], r);
             while (!((fn === 0) || ((fn & 1) == 1))) {
-- 
2.43.0


From f7d2cc767e1515d2a7b647631bf454035ef45866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 27/52] fix: JavaScript client verifies proofs in logs of over
 2^31 entries

---
 assets/static/continusec.js | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index f672b9e..5d9032b 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -637,7 +637,7 @@ function secondStageVerifyEntries(stack, log, prev, head, factory, each, success
         each(idx, entry);
 
         stack.push(entry.getLeafHash());
-        for (var z = idx; (z & 1) == 1; z >>= 1) {
+        for (var z = idx; (z % 2) == 1; z = Math.floor(z / 2)) {
             var right = stack.pop();
             var left = stack.pop();
             stack.push(nodeMerkleTreeHash(left, right));
@@ -1013,9 +1013,9 @@ LogConsistencyProof.prototype.verify = function (first, second) {
 
     var fn = this.firstSize - 1;
     var sn = this.secondSize - 1;
-    while ((fn & 1) == 1) {
-        fn >>= 1;
-        sn >>= 1;
+    while ((fn % 2) == 1) {
+        fn = Math.floor(fn / 2);
+        sn = Math.floor(sn / 2);
     }
 
     if (newProof.length === 0) {
@@ -1028,18 +1028,18 @@ LogConsistencyProof.prototype.verify = function (first, second) {
         if (sn === 0) {
             throw CONTINUSEC_VERIFICATION_ERROR;
         }
-        if (((fn & 1) == 1) || (fn == sn)) {
+        if (((fn % 2) == 1) || (fn == sn)) {
             fr = nodeMerkleTreeHash(newProof[i], fr);
             sr = nodeMerkleTreeHash(newProof[i], sr);
-            while (!((fn === 0) || ((fn & 1) == 1))) {
-                fn >>= 1;
-                sn >>= 1;
+            while (!((fn === 0) || ((fn % 2) == 1))) {
+                fn = Math.floor(fn / 2);
+                sn = Math.floor(sn / 2);
             }
         } else {
             sr = nodeMerkleTreeHash(sr, newProof[i]);
         }
-        fn >>= 1;
-        sn >>= 1;
+        fn = Math.floor(fn / 2);
+        sn = Math.floor(sn / 2);
     }
 
     if (sn != 0) {
@@ -1123,17 +1123,17 @@ LogInclusionProof.prototype.verify = function (head) {
         if (sn === 0) {
             throw CONTINUSEC_VERIFICATION_ERROR;
         }
-        if ((fn == sn) || ((fn & 1) == 1)) {
+        if ((fn == sn) || ((fn % 2) == 1)) {
             r = nodeMerkleTreeHash(this.auditPath[i], r);
-            while (!((fn === 0) || ((fn & 1) == 1))) {
-                fn >>= 1;
-                sn >>= 1;
+            while (!((fn === 0) || ((fn % 2) == 1))) {
+                fn = Math.floor(fn / 2);
+                sn = Math.floor(sn / 2);
             }
         } else {
             r = nodeMerkleTreeHash(r, this.auditPath[i]);
         }
-        fn >>= 1;
-        sn >>= 1;
+        fn = Math.floor(fn / 2);
+        sn = Math.floor(sn / 2);
     }
 
     if (sn != 0) {
-- 
2.43.0


From ea91791b3e353afab72bed806f97576b915a8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 28/52] fix: JavaScript client reads single entries and
 inclusion proofs by index

---
 assets/static/continusec.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 5d9032b..98d3502 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -549,7 +549,7 @@ VerifiableLog.prototype.getTreeHead = function (treeSize, success, failure) {
  */
 VerifiableLog.prototype.getEntry = function (idx, factory, success, failure) {
     this.client.makeRequest("GET", this.path + "/entry/" + idx + "/extra", null, function (data, req) {
-        success(factory.createFromLeafData(data, idx));
+        success(factory.createFromLeafData(JSON.parse(data)));
     }, function (reason) {
         failure(reason);
     });
@@ -695,8 +695,8 @@ VerifiableLog.prototype.getInclusionProofByIndex = function (treeSize, leafIndex
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize + "/inclusion/" + leafIndex, null, function (data, req) {
         var obj = JSON.parse(data);
         var auditPath = [];
-        for (var i = 0; i < obj.proof.length; i++) {
-            auditPath.push(atob(obj.proof[i]));
+        for (var i = 0; i < obj.audit_path.length; i++) {
+            auditPath.push(atob(obj.audit_path[i]));
         }
         success(new LogInclusionProof(null, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), auditPath));
     }, function (reason) {
-- 
2.43.0


From 5ec409782e290d8f582d3b6ce8e37da11448bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 29/52] fix: JavaScript client copes with heads of empty logs
 and maps, and absent redacted values

---
 assets/static/continusec.js | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 98d3502..396cd23 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -210,6 +210,13 @@ function protoNumber(n) {
     }
 }
 
+/**
+ * likewise for empty bytes, including those of an empty log which has no root hash.
+ */
+function protoBytes(b) {
+    return b == undefined ? "" : atob(b);
+}
+
 
 /**
  * Failure callback is called upon error. Typically the reason passed is one of the
@@ -395,7 +402,7 @@ VerifiableMap.prototype.deleteValue = function (key, success, failure) {
 VerifiableMap.prototype.getTreeHead = function (treeSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize, null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new MapTreeHead(new LogTreeHead(protoNumber(obj.mutation_log.tree_size), atob(obj.mutation_log.root_hash)), atob(obj.root_hash)));
+        success(new MapTreeHead(new LogTreeHead(protoNumber(obj.mutation_log.tree_size), protoBytes(obj.mutation_log.root_hash)), protoBytes(obj.root_hash)));
     }, function (reason) {
         failure(reason);
     });
@@ -533,7 +540,7 @@ VerifiableLog.prototype.add = function (value, success, failure) {
 VerifiableLog.prototype.getTreeHead = function (treeSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize, null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new LogTreeHead(protoNumber(obj.tree_size), obj.root_hash === null ? null : atob(obj.root_hash)));
+        success(new LogTreeHead(protoNumber(obj.tree_size), protoBytes(obj.root_hash)));
     }, function (reason) {
         failure(reason);
     });
@@ -1295,7 +1302,7 @@ RedactedJsonEntryFactory.prototype.getFormat = function () { return "/xjson"; };
  * @param {string} bytes the bytes as returned by the server.
  * @return {RedactedJsonEntry} the new entry.
  */
-RedactedJsonEntryFactory.prototype.createFromLeafData = function (b) { return new RedactedJsonEntry(atob(b.extra_data)); };
+RedactedJsonEntryFactory.prototype.createFromLeafData = function (b) { return new RedactedJsonEntry(protoBytes(b.extra_data)); };
 
 /**
  * Singleton instance of RedactedJsonEntryFactory ready for your use.
@@ -1441,7 +1448,7 @@ var RedactedJsonEntry = function (data) {
  * @return {string} the data
  */
 RedactedJsonEntry.prototype.getData = function () {
-	return JSON.stringify(shedRedactedWithStdRedaction(JSON.parse(this.data)));
+	return this.data == "" ? "" : JSON.stringify(shedRedactedWithStdRedaction(JSON.parse(this.data)));
 }
 
 /**
-- 
2.43.0


From 8418596eac058315dfeac264cc42c8d51621690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 30/52] fix: JavaScript client hashes JSON outside ASCII as the
 server does, and uploads bytes as such

---
 assets/static/continusec.js | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 396cd23..24bc975 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1275,7 +1275,7 @@ JsonEntryFactory.prototype.getFormat = function () { return "/xjson"; };
  * @param {string} bytes the bytes as returned by the server.
  * @return {JsonEntry} the new entry.
  */
-JsonEntryFactory.prototype.createFromLeafData = function (b) { return new JsonEntry(b.extra_data == undefined ? "" : atob(b.extra_data)); };
+JsonEntryFactory.prototype.createFromLeafData = function (b) { return new JsonEntry(decodeUTF8(protoBytes(b.extra_data))); };
 
 /**
  * Singleton instance of JsonEntryFactory ready for your use.
@@ -1302,7 +1302,7 @@ RedactedJsonEntryFactory.prototype.getFormat = function () { return "/xjson"; };
  * @param {string} bytes the bytes as returned by the server.
  * @return {RedactedJsonEntry} the new entry.
  */
-RedactedJsonEntryFactory.prototype.createFromLeafData = function (b) { return new RedactedJsonEntry(protoBytes(b.extra_data)); };
+RedactedJsonEntryFactory.prototype.createFromLeafData = function (b) { return new RedactedJsonEntry(decodeUTF8(protoBytes(b.extra_data))); };
 
 /**
  * Singleton instance of RedactedJsonEntryFactory ready for your use.
@@ -1336,7 +1336,7 @@ RawDataEntry.prototype.getFormat = function () {
  * @return {string} the data
  */
 RawDataEntry.prototype.getDataForUpload = function () {
-	return this.data;
+	return stringToBinaryArray(this.data);
 }
 
 /**
@@ -1591,6 +1591,34 @@ function binaryArrayToString(d) {
     return rv;
 }
 
+/**
+ * A string with a byte per character as such bytes, since a string itself would be sent encoded as UTF-8.
+ * @private
+ */
+function stringToBinaryArray(s) {
+    var rv = new Uint8Array(s.length);
+    for (var i = 0; i < s.length; i++) {
+        var c = s.charCodeAt(i);
+        if (c > 255) { // not bytes
+            return s;
+        }
+        rv[i] = c;
+    }
+    return rv;
+}
+
+/**
+ * Decode the bytes of JSON text.
+ * @private
+ */
+function decodeUTF8(b) {
+    try {
+        return decodeURIComponent(escape(b));
+    } catch (err) { // not UTF-8
+        return b;
+    }
+}
+
 /**
  * @private
  */
-- 
2.43.0


From ad41ba42ecf1be01f10fcfa8805ccd32ab1e3dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 31/52] fix: JavaScript client only verifies heads of the size
 asked for

---
 assets/static/continusec.js | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 24bc975..c91f3f6 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -475,7 +475,9 @@ VerifiableMap.prototype.getVerifiedMapState = function (prev, treeSize, success,
     } else {
         var map = this;
         map.getTreeHead(treeSize, function (mapHead) {
-            if (prev != null) {
+            if ((treeSize != 0) && (mapHead.getTreeSize() != treeSize)) {
+                failure(CONTINUSEC_VERIFICATION_ERROR);
+            } else if (prev != null) {
                 map.getMutationLog().verifyConsistency(prev.getMapHead().getMutationLogTreeHead(), mapHead.getMutationLogTreeHead(), function () {
                     secondStageMapVerified(map, prev, mapHead, success, failure);
                 }, failure);
@@ -833,7 +835,9 @@ VerifiableLog.prototype.getVerifiedTreeHead = function (prev, treeSize, success,
     } else {
         var log = this;
         this.getTreeHead(treeSize, function (head) {
-            if (prev == null) {
+            if ((treeSize != 0) && (head.getTreeSize() != treeSize)) {
+                failure(CONTINUSEC_VERIFICATION_ERROR);
+            } else if (prev == null) {
                 success(head);
             } else {
                 log.verifyConsistency(prev, head, function () {
-- 
2.43.0


From 57aac6d13178e8904e6e719def44dcdedc097b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 32/52] fix: JavaScript client's blockUntilPresent waits for an
 entry that is not found yet

---
 assets/static/continusec.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index c91f3f6..c14584b 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -880,7 +880,7 @@ VerifiableLog.prototype.verifySuppliedInclusionProof = function (prev, proof, su
  * @param {failureCallback} failure called on failure
  */
 VerifiableLog.prototype.blockUntilPresent = function (leaf, success, failure) {
-    doBlockRound(this, -1, 0, leaf, success, failure);
+    doBlockRound(this, 0, 0.5, leaf, success, failure);
 }
 
 /**
@@ -892,7 +892,7 @@ function doBlockRound(log, lastHead, secsToSleep, leaf, success, failure) {
             log.verifyInclusion(lth, leaf, function () {
                 success(lth);
             }, function (reason) {
-                if (reason == CONTINUSEC_INVALID_RANGE_ERROR) {
+                if (reason == CONTINUSEC_INVALID_RANGE_ERROR || reason == CONTINUSEC_NOT_FOUND_ERROR) {
                     secsToSleep = 1;
                     setTimeout(function () { doBlockRound(log, lth.getTreeSize(), secsToSleep, leaf, success, failure); }, secsToSleep * 1000);
                 } else {
-- 
2.43.0


From 6ccacfc25f52f3315ede0150587164773cf140a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:32 +0000
Subject: [PATCH 33/52] fix: JavaScript client fetches and verifies no entries
 without failing

---
 assets/static/continusec.js | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index c14584b..f2688d9 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -579,8 +579,9 @@ VerifiableLog.prototype.getEntries = function (startIdx, endIdx, factory, each,
     this.client.makeRequest("GET", this.path + "/entries/" + startIdx + "-" + endIdx + "/extra", null, function (data, req) {
     	try {
 			var obj = JSON.parse(data);
-			for (var i = 0; i < obj.values.length; i++) {
-				each(startIdx + i, factory.createFromLeafData(obj.values[i]));
+			var values = obj.values || []; // not present if there are none
+			for (var i = 0; i < values.length; i++) {
+				each(startIdx + i, factory.createFromLeafData(values[i]));
 			}
 		} catch (err) {
 			failure(err);
@@ -604,7 +605,7 @@ VerifiableLog.prototype.getEntries = function (startIdx, endIdx, factory, each,
  * @param {failureCallback} failure called on failure
  */
 VerifiableLog.prototype.verifyEntries = function (prev, head, factory, each, success, failure) {
-    if ((prev == null) || (prev.getTreeSize() < head.getTreeSize())) {
+    if ((head.getTreeSize() > 0) && ((prev == null) || (prev.getTreeSize() < head.getTreeSize()))) {
         var log = this;
         var stack = [];
         if ((prev != null) && (prev.getTreeSize() > 0)) {
-- 
2.43.0


From f72b8ce1b0963d1b63d2c2378aa5088a19c39f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:32 +0000
Subject: [PATCH 34/52] fix: JavaScript client's object hash ends for numbers
 beyond the range of a float

---
 assets/static/continusec.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index f2688d9..b9829cf 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1794,6 +1794,9 @@ function objectHashWithRedaction(o, prefix) {
 		if (o == 0.0) { // special case 0
 			return sha256('f+0:');
 		}
+		if (!isFinite(o)) { // JSON number too large
+			throw CONTINUSEC_VERIFICATION_ERROR;
+		}
 		var s = "+";
 		if (o < 0) {
 			s = "-";
-- 
2.43.0


From 9dc5f63c3f71fefae32813434dc06dba747d1809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:57 +0000
Subject: [PATCH 35/52] fix: JavaScript client accepts inclusion proofs with an
 empty audit path, as those in a log of one entry are

---
 assets/static/continusec.js | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index b9829cf..6140922 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -684,8 +684,9 @@ VerifiableLog.prototype.getInclusionProof = function (treeSize, leaf, success, f
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize + "/inclusion/h/" + hexString(lh), null, function (data, req) {
         var obj = JSON.parse(data);
         var auditPath = [];
-        for (var i = 0; i < obj.audit_path.length; i++) {
-            auditPath.push(atob(obj.audit_path[i]));
+        var path = obj.audit_path || []; // not present if it is empty
+        for (var i = 0; i < path.length; i++) {
+            auditPath.push(atob(path[i]));
         }
         success(new LogInclusionProof(lh, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), auditPath));
     }, function (reason) {
@@ -705,8 +706,9 @@ VerifiableLog.prototype.getInclusionProofByIndex = function (treeSize, leafIndex
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize + "/inclusion/" + leafIndex, null, function (data, req) {
         var obj = JSON.parse(data);
         var auditPath = [];
-        for (var i = 0; i < obj.audit_path.length; i++) {
-            auditPath.push(atob(obj.audit_path[i]));
+        var path = obj.audit_path || []; // not present if it is empty
+        for (var i = 0; i < path.length; i++) {
+            auditPath.push(atob(path[i]));
         }
         success(new LogInclusionProof(null, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), auditPath));
     }, function (reason) {
@@ -747,8 +749,9 @@ VerifiableLog.prototype.getConsistencyProof = function (firstSize, secondSize, s
     this.client.makeRequest("GET", this.path + "/tree/" + secondSize + "/consistency/" + firstSize, null, function (data, req) {
         var obj = JSON.parse(data);
         var auditPath = [];
-        for (var i = 0; i < obj.audit_path.length; i++) {
-            auditPath.push(atob(obj.audit_path[i]));
+        var path = obj.audit_path || []; // not present if it is empty
+        for (var i = 0; i < path.length; i++) {
+            auditPath.push(atob(path[i]));
         }
         success(new LogConsistencyProof(protoNumber(obj.from_size), protoNumber(obj.tree_size), auditPath));
     }, function (reason) {
-- 
2.43.0


From 3c027228f1f581c1f4a3d36924d1043f40bc9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 36/52] fix: JavaScript client tells refused access by the
 status the server sends

---
 assets/static/continusec.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 6140922..dca4f8c 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -144,6 +144,7 @@ ContinusecClient.prototype.makeRequest = function (method, path, data, success,
         case 400:
             failure(CONTINUSEC_INVALID_RANGE_ERROR);
             break;
+        case 401:
         case 403:
             failure(CONTINUSEC_UNAUTHORIZED_ERROR);
             break;
-- 
2.43.0


From 656a72aa43a9e8da8fd23b35566c2e1371316b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:21 +0000
Subject: [PATCH 37/52] fix: head of an empty map must be the caller's own

---
 verifiable/service_map_tree_hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/service_map_tree_hash.go b/verifiable/service_map_tree_hash.go
index 1c62b96..4d31eda 100644
--- a/verifiable/service_map_tree_hash.go
+++ b/verifiable/service_map_tree_hash.go
@@ -59,7 +59,7 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		// An empty map has no mutation log head or root node stored
 		if treeSize == 0 {
 			rv = &pb.MapTreeHashResponse{
-				RootHash:    defaultLeafValues[0],
+				RootHash:    append([]byte(nil), defaultLeafValues[0]...), // a copy, since it becomes the caller's
 				MutationLog: &pb.LogTreeHashResponse{},
 			}
 			return nil
-- 
2.43.0


From fd3726e43bd7e193555bf8058428e5d845aa2c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 38/52] fix: a client can carry the head of an empty log
 forward

---
 verifiable/api_highlevel_log.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index 22a7015..00ee451 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -159,7 +159,8 @@ func (log *Log) VerifiedTreeHead(ctx context.Context, prev *pb.LogTreeHashRespon
 		return nil, ErrVerificationFailed
 	}
 
-	if prev != nil {
+	// every log extends the empty one
+	if prev.GetTreeSize() != 0 {
 		err = log.VerifyConsistency(ctx, prev, head)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 1edc4e1a4bb232ca19e38ca98c6ceffc6afd58d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 39/52] fix: JavaScript client can carry the head of an empty
 log forward

---
 assets/static/continusec.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index dca4f8c..3af2154 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -842,7 +842,7 @@ VerifiableLog.prototype.getVerifiedTreeHead = function (prev, treeSize, success,
         this.getTreeHead(treeSize, function (head) {
             if ((treeSize != 0) && (head.getTreeSize() != treeSize)) {
                 failure(CONTINUSEC_VERIFICATION_ERROR);
-            } else if (prev == null) {
+            } else if (prev == null || prev.getTreeSize() == 0) { // every log extends the empty one
                 success(head);
             } else {
                 log.verifyConsistency(prev, head, function () {
-- 
2.43.0


From 2d59c13f1bbdc6ebd19ed52f8192a68ac73a7600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 40/52] fix: gRPC client accepts the DER certificate its field
 is documented to hold

---
 server/grpc/client_grpc.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/grpc/client_grpc.go b/server/grpc/client_grpc.go
index 8bbc05d..8a22616 100644
--- a/server/grpc/client_grpc.go
+++ b/server/grpc/client_grpc.go
@@ -41,7 +41,7 @@ type Client struct {
 	NoGrpcSecurity bool
 
 	// CertDer is an ASN.1 DER X.509 certificate that the certificate presented by the server
-	// must be signed by. This can be either a self-signed, or private CA cert.
+	// must be signed by. This can be either a self-signed, or private CA cert. PEM is also accepted.
 	// If not set, the system CA pool is used.
 	CertDer []byte
 
@@ -59,7 +59,9 @@ func (g *Client) Dial() (pb.VerifiableDataStructuresServiceServer, error) {
 	} else if len(g.CertDer) != 0 {
 		// use baked in cert
 		cp := x509.NewCertPool()
-		if !cp.AppendCertsFromPEM([]byte(g.CertDer)) {
+		if cert, err := x509.ParseCertificate(g.CertDer); err == nil {
+			cp.AddCert(cert)
+		} else if !cp.AppendCertsFromPEM(g.CertDer) {
 			return nil, ErrNoCertsFound
 		}
 		dialOptions = append(dialOptions, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{RootCAs: cp})))
-- 
2.43.0


From fc263773c37bc032740f4d424bf6931b306f8a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:28 +0000
Subject: [PATCH 41/52] fix: PostgreSQL storage uses a connection pool, not one
 connection for all transactions

---
 storage/postgres/storage-postgres.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 908a9a1..659d95a 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -16,7 +16,9 @@ import (
 // Storage implements a Postgresql backed storage layer, suitable for use with the
 // verifiabledatastructures library.
 type Storage struct {
-	Pool *pgxpool.Conn
+	// Pool is where connections for transactions are taken from. Transactions run concurrently,
+	// which a single connection could not do.
+	Pool *pgxpool.Pool
 
 	knownTableMutex sync.RWMutex
 	knownTables     map[string]string
-- 
2.43.0


From 493df7ebc4340819bed333a2dab3ab960bdfb599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:56 +0000
Subject: [PATCH 42/52] fix: reads of the PostgreSQL storage see one state of
 the table

---
 storage/postgres/storage-postgres.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 659d95a..296725b 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -119,7 +119,8 @@ func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 		return err
 	}
 
-	tx, err := pgs.Pool.Begin(ctx)
+	// All reads must see the same state of the table, whatever is committed meanwhile
+	tx, err := pgs.Pool.BeginTx(ctx, pgx.TxOptions{IsoLevel: pgx.RepeatableRead, AccessMode: pgx.ReadOnly})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c5af2bbbe8a64189f1851797f6a4a4b9183b43dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 43/52] fix: the server program ends if it can't serve REST,
 rather than run on without it

---
 cmd/vdbserver/vdbserver-main.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cmd/vdbserver/vdbserver-main.go b/cmd/vdbserver/vdbserver-main.go
index 7ce31a8..088fa0e 100644
--- a/cmd/vdbserver/vdbserver-main.go
+++ b/cmd/vdbserver/vdbserver-main.go
@@ -43,16 +43,19 @@ func demoMode() {
 	bind := ":8092"
 
 	db := &memory.TransientStorage{}
-	go httprest.StartServer(&pb.ServerConfig{
-		RestListenBind:           bind,
-		InsecureServerForTesting: true,
-	}, (&verifiable.Service{
+	service := (&verifiable.Service{
 		AccessPolicy: policy.Open,
 		Mutator: &instant.Mutator{
 			Writer: db,
 		},
 		Reader: db,
-	}).MustCreate())
+	}).MustCreate()
+	go func() {
+		log.Fatalf("Error serving REST: %v\n", httprest.StartServer(&pb.ServerConfig{
+			RestListenBind:           bind,
+			InsecureServerForTesting: true,
+		}, service))
+	}()
 
 	url := "http://localhost" + bind
 	log.Println("Navigate to: " + url)
@@ -97,7 +100,9 @@ func realMode(confPath string) {
 		go grpc.StartServer(conf, service)
 	}
 	if conf.RestServer {
-		go httprest.StartServer(conf, service)
+		go func() {
+			log.Fatalf("Error serving REST: %v\n", httprest.StartServer(conf, service))
+		}()
 	}
 	select {} // wait forever
 }
-- 
2.43.0


From 343b12920e485e1a09ab203011bd90098cd8d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 44/52] fix: explorer page draws an inclusion proof for the
 tree head that it fetched, not a later one

---
 assets/static/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assets/static/index.html b/assets/static/index.html
index 75a9394..55012ec 100644
--- a/assets/static/index.html
+++ b/assets/static/index.html
@@ -413,7 +413,7 @@
                 } else {
                     var log = getVerLog();
                     log.getTreeHead(x, function (treeHead) {
-                        log.getInclusionProof(x, entry, function (ipr) {
+                        log.getInclusionProof(treeHead.getTreeSize(), entry, function (ipr) {
                             var canv = $("<canvas />");
                             $("#result").removeClass("inputError");
                             $("#result").empty();
-- 
2.43.0


From 2e28e2ad8ce71f3091fdb7385ed3e0c0f3dc681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 45/52] fix: explorer page says that it draws no tree of
 exactly 50 entries, rather than an empty canvas

---
 assets/static/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assets/static/index.html b/assets/static/index.html
index 55012ec..ec81ddd 100644
--- a/assets/static/index.html
+++ b/assets/static/index.html
@@ -509,7 +509,7 @@
                         $("#result").append(results);
 
                         /* don't draw if more than 50, since about there hits a 32000 pixel limit for width in Chrome */
-                        if ((lastIdx >= 0) && (lastIdx < 50) && (x == 0)) {
+                        if ((lastIdx >= 0) && ((lastIdx + 1) < 50) && (x == 0)) {
                             var shouldDraw = false;
                             /* try to get leaf hash now in order to weed out any bad JSON */
                             try {
-- 
2.43.0


From 54ad4a26ce774ae4749eb5d5855f3f55379d906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 46/52] fix: explorer page shows JSON with characters outside
 ASCII

---
 assets/static/index.html | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/assets/static/index.html b/assets/static/index.html
index ec81ddd..86e2ef6 100644
--- a/assets/static/index.html
+++ b/assets/static/index.html
@@ -397,6 +397,11 @@
                 });
             });
 
+            /* JSON is text as it is, only raw data may be any bytes */
+            function displayEntry(entry) {
+                return (entry instanceof RawDataEntry) ? displayStuff(entry.getData()) : entry.getData();
+            }
+
             function getLogInclusion(entry) {
                 $("#result").removeClass("inputError");
                 $("#result").text("Fetching...");
@@ -450,7 +455,7 @@
                             $("#result").removeClass("inputError");
                             $("#result").empty();
 
-                            $("#result").append($("<div />").text("Value: " + displayStuff(mer.getValue().getData())));
+                            $("#result").append($("<div />").text("Value: " + displayEntry(mer.getValue())));
                             $("#result").append($("<div />").text("Tree size: " + displayStuff(mer.getTreeSize())));
 
                             var canv = $("<canvas />");
@@ -500,7 +505,7 @@
                     var entryArray = [];
                     var lastIdx = -1;
                     getVerLog().getEntries(x, y, factory, function (idx, entry) {
-                        results.append($("<div />").text(idx + " - " + displayStuff(entry.getData())));
+                        results.append($("<div />").text(idx + " - " + displayEntry(entry)));
                         entryArray.push(entry);
                         lastIdx = idx;
                     }, function () {
-- 
2.43.0


From 869f78937c3966f3289b788b25c62dd7ee3276eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 47/52] fix: explorer page treats keys and raw data typed
 outside ASCII as UTF-8 throughout

---
 assets/static/index.html | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/assets/static/index.html b/assets/static/index.html
index 86e2ef6..4f099e1 100644
--- a/assets/static/index.html
+++ b/assets/static/index.html
@@ -269,7 +269,7 @@
                 });
 
                 $("#addRawLog").click(function () {
-                    addToLog(new RawDataEntry($("#logEntryText").val()));
+                    addToLog(new RawDataEntry(utf8($("#logEntryText").val())));
                     return false;
                 });
                 $("#addJSONLog").click(function () {
@@ -289,7 +289,7 @@
                     return false;
                 });
                 $("#inclRawLog").click(function () {
-                    getLogInclusion(new RawDataEntry($("#inclEntryText").val()));
+                    getLogInclusion(new RawDataEntry(utf8($("#inclEntryText").val())));
                     return false;
                 });
                 $("#inclJSONLog").click(function () {
@@ -298,7 +298,7 @@
                 });
 
                 $("#addRawMap").click(function () {
-                    addToMap(new RawDataEntry($("#mapEntryText").val()));
+                    addToMap(new RawDataEntry(utf8($("#mapEntryText").val())));
                     return false;
                 });
                 $("#addJSONMap").click(function () {
@@ -402,6 +402,11 @@
                 return (entry instanceof RawDataEntry) ? displayStuff(entry.getData()) : entry.getData();
             }
 
+            /* the bytes that text is stored as, one per character */
+            function utf8(s) {
+                return unescape(encodeURIComponent(s));
+            }
+
             function getLogInclusion(entry) {
                 $("#result").removeClass("inputError");
                 $("#result").text("Fetching...");
@@ -439,7 +444,7 @@
                 } else {
                     x = Number(x);
                 }
-                var key = $("#mapValueKey").val();
+                var key = utf8($("#mapValueKey").val());
                 if (isNaN(x)) {
                     $("#result").addClass("inputError");
                     $("#result").text("Invalid tree size. Please enter a number or 'head' for latest.");
@@ -469,7 +474,7 @@
             function addToMap(entry) {
                 $("#result").removeClass("inputError");
                 $("#result").text("Adding...");
-                getVerMap().setValue($("#mapEntryKey").val(), entry, function (aer) {
+                getVerMap().setValue(utf8($("#mapEntryKey").val()), entry, function (aer) {
                     $("#result").removeClass("inputError");
                     $("#result").text("Entry received by map. Leaf hash of mutation log entry: " + btoa(aer.getLeafHash()));
                 }, createFailer("addMapEntry", "result"));
-- 
2.43.0


From 944fe5942bd9e5112459913a9fe269a7bfc112bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 48/52] fix: explorer page draws no tree if some of its entries
 aren't JSON

---
 assets/static/index.html | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/assets/static/index.html b/assets/static/index.html
index 4f099e1..7eb2979 100644
--- a/assets/static/index.html
+++ b/assets/static/index.html
@@ -524,9 +524,12 @@
                             /* try to get leaf hash now in order to weed out any bad JSON */
                             try {
                                 for (var i = 0; i < entryArray.length; i++) {
+                                    if (entryArray[i].getData() === "") { /* not stored as JSON */
+                                        throw CONTINUSEC_INTERNAL_ERROR;
+                                    }
                                     entryArray[i].getLeafHash();
-                                    shouldDraw = true;
                                 }
+                                shouldDraw = true;
                             } catch (err) {
                                 $("#result").append($("<div />").text("Tree not drawn - check each entry contains valid JSON."));
                             }
-- 
2.43.0


From a42fc92b8bebe501d415c17774912cd298ecaeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 49/52] fix: explorer page draws proofs in logs of over 2^30
 entries

---
 assets/static/log.js | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/assets/static/log.js b/assets/static/log.js
index f9858a2..98e6462 100644
--- a/assets/static/log.js
+++ b/assets/static/log.js
@@ -2,8 +2,8 @@
 
 function ReallyCalcK(n) {
 	var k = 1;
-	while ((k << 1) < n) {
-		k <<= 1;
+	while ((k * 2) < n) {
+		k *= 2;
 	}
 	return k;
 }
@@ -49,7 +49,7 @@ function SubProof(m, start_n, end_n, b) {
 }
 
 function lsb(x) {
-	return (x & 1) == 1;
+	return (x % 2) == 1;
 }
 
 function IsPow2(k) {
@@ -505,8 +505,8 @@ function DrawInclusionProof(c, leaf_index, mtlHash, tree_size, tree_hash, proof)
 			y += 1;
 
 			while (!(lsb(fn) || (fn == 0))) {
-				fn >>= 1;
-				sn >>= 1;
+				fn = Math.floor(fn / 2);
+				sn = Math.floor(sn / 2);
 			}
 		} else {
 			r = nodeMerkleTreeHash(r, proof[i]);
@@ -514,8 +514,8 @@ function DrawInclusionProof(c, leaf_index, mtlHash, tree_size, tree_hash, proof)
 			x = (ourUIIndex + x) / 2.0;
 			y += 1;
 		}
-		fn >>= 1;
-		sn >>= 1;
+		fn = Math.floor(fn / 2);
+		sn = Math.floor(sn / 2);
 	}
 
 	for (var i = 0; i < sortedProofs.length; i++) {
@@ -567,8 +567,8 @@ function DrawConsistencyProofInContext(ctx, first_size, first_hash, second_size,
 	var fn = first_size - 1;
 	var sn = second_size - 1;
 	while (lsb(fn)) {
-		fn >>= 1;
-		sn >>= 1;
+		fn = Math.floor(fn / 2);
+		sn = Math.floor(sn / 2);
 	}
 
 	var fr = proof[0];
@@ -593,8 +593,8 @@ function DrawConsistencyProofInContext(ctx, first_size, first_hash, second_size,
 			sy += 1;
 
 			while (!((fn == 0) || lsb(fn))) {
-				fn >>= 1;
-				sn >>= 1;
+				fn = Math.floor(fn / 2);
+				sn = Math.floor(sn / 2);
 			}
 		} else {
 			sr = nodeMerkleTreeHash(sr, proof[i]);
@@ -602,8 +602,8 @@ function DrawConsistencyProofInContext(ctx, first_size, first_hash, second_size,
 			sx = (ourUIIndex + sx) / 2.0;
 			sy += 1;
 		}
-		fn >>= 1;
-		sn >>= 1;
+		fn = Math.floor(fn / 2);
+		sn = Math.floor(sn / 2);
 	}
 
 	for (var i = 0; i < sortedProofs.length; i++) {
@@ -624,8 +624,8 @@ function DrawConsistencyProof(c, first_size, first_hash, second_size, second_has
 	var fn = first_size - 1;
 	var sn = second_size - 1;
 	while (lsb(fn)) {
-		fn >>= 1;
-		sn >>= 1;
+		fn = Math.floor(fn / 2);
+		sn = Math.floor(sn / 2);
 	}
 	var fy = 0;
 	var sy = 0;
@@ -634,14 +634,14 @@ function DrawConsistencyProof(c, first_size, first_hash, second_size, second_has
 			fy += 1;
 			sy += 1;
 			while (!((fn == 0) || lsb(fn))) {
-				fn >>= 1;
-				sn >>= 1;
+				fn = Math.floor(fn / 2);
+				sn = Math.floor(sn / 2);
 			}
 		} else {
 			sy += 1;
 		}
-		fn >>= 1;
-		sn >>= 1;
+		fn = Math.floor(fn / 2);
+		sn = Math.floor(sn / 2);
 	}
 
 	// Now we know width and height...
-- 
2.43.0


From c9aa9b8694721c94917168d0ae27b1b3f1c1514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 50/52] fix: waiting for a log entry goes on asking for its
 proof after a failed attempt at the last tree head

---
 verifiable/api_highlevel_log.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index 00ee451..e176a02 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -91,18 +91,19 @@ func (log *Log) BlockUntilPresent(ctx context.Context, leaf []byte) (*pb.LogTree
 		if err != nil {
 			return nil, err
 		}
+		// ask even if this is no new tree head, as we may have failed to get a proof for other reasons than that it isn't there
+		err = log.VerifyInclusion(ctx, lth, leaf)
+		switch err {
+		case nil: // we found it
+			return lth, nil
+		case ErrNotFound:
+			// no good, continue
+		default:
+			// Should return error, but we're struggling to differentiate not found vs other errors
+			//return nil, err
+		}
 		if lth.TreeSize > lastHead {
 			lastHead = lth.TreeSize
-			err = log.VerifyInclusion(ctx, lth, leaf)
-			switch err {
-			case nil: // we found it
-				return lth, nil
-			case ErrNotFound:
-				// no good, continue
-			default:
-				// Should return error, but we're struggling to differentiate not found vs other errors
-				//return nil, err
-			}
 			// since we got a new tree head, reset sleep time
 			timeToSleep = time.Second
 		} else {
-- 
2.43.0


From f2120de31f346ec31c33b08083dff511e8956034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 51/52] fix: batch mutator holds mutations no longer than its
 timeout, even while more keep arriving

---
 mutator/batch/mutator_batch.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index d82938f..640da0b 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -119,6 +119,9 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 	obj := seed
 	var ok bool
 	cnt := bm.Conf.BatchSize
+	// one timer for the whole batch, else it could be held for as long as mutations keep arriving
+	timer := time.NewTimer(bm.Conf.Timeout)
+	defer timer.Stop()
 	for {
 		if !bytes.Equal(seed.ns, obj.ns) {
 			return curSize, obj, nil
@@ -136,7 +139,7 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 			if !ok {
 				return curSize, nil, nil
 			}
-		case <-time.After(bm.Conf.Timeout):
+		case <-timer.C:
 			return curSize, nil, nil
 		}
 	}
-- 
2.43.0


From 3b1bf513192c6b4ebec9d047cdc0217f78165593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 52/52] fix: a service without a mutator refuses additions and
 mutations instead of crashing

---
 verifiable/service_log_add_entry.go | 5 +++++
 verifiable/service_map_set_value.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index 5d3b786..60e99b7 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -47,6 +47,11 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
 	}
 
+	// Without a mutator we are readonly
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.FailedPrecondition, "service is readonly")
+	}
+
 	// Queue a copy, since mutators may apply it after we return, by when the caller may have re-used theirs
 	queued := proto.Clone(req).(*pb.LogAddEntryRequest)
 	err = s.Mutator.QueueMutation(ctx, ns, &pb.Mutation{
diff --git a/verifiable/service_map_set_value.go b/verifiable/service_map_set_value.go
index 633d0e3..072aeeb 100644
--- a/verifiable/service_map_set_value.go
+++ b/verifiable/service_map_set_value.go
@@ -75,6 +75,11 @@ func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueR
 		return nil, status.Errorf(codes.Internal, "unknown err: %s", err)
 	}
 
+	// Without a mutator we are readonly
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.FailedPrecondition, "service is readonly")
+	}
+
 	err = s.Mutator.QueueMutation(ctx, ns, &pb.Mutation{
 		LogAddEntry: &pb.LogAddEntryRequest{
 			Log: &pb.LogRef{
-- 
2.43.0

