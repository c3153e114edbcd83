From 0da39fd058cd4cbdbee34c52cda30b5a62cbcb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 01/10] fix: get-entry-and-proof fetches the final data tile at
 its published width

A leaf in the final, partial data tile was looked up in a tile just wide
enough to hold it, which is not published unless the leaf is the last one.
---
 internal/ctmonitor/logic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index b2eccfc..2ffcd15 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -474,6 +474,12 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	tile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, leafIndex))
 	tile.L = -1
 
+	// Special case the final tile to ensure we always fetch a tile that exists
+	sthFinalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, int64(sth.TreeSize)-1))
+	if tile.N == sthFinalTile.N {
+		tile.W = sthFinalTile.W
+	}
+
 	// TODO: add a cache
 	data, err := f.getTile(ctx, tile)
 	if err != nil {
-- 
2.43.0


From 0b9e13ff734897754c4b2a9279103cb873f6603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 02/10] fix: get-entries rejects a start beyond the published
 tree

A large start overflowed the stored hash index and panicked, and on an
empty tree any request did.
---
 internal/ctmonitor/logic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 2ffcd15..ae6ca67 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -292,6 +292,9 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 	if err != nil {
 		return nil, 521, err
 	}
+	if start >= int64(sth.TreeSize) {
+		return nil, 400, fmt.Errorf("start is beyond the current sth")
+	}
 	if end >= int64(sth.TreeSize) {
 		end = int64(sth.TreeSize) - 1
 	}
-- 
2.43.0


From 42c071f2908546e837ac37c01dee04c6e598e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 03/10] fix: verify RSA tree head signatures over the signature
 alone

The verifier was given the whole RFC6962NoteSignature, timestamp and
algorithm bytes included, so that no RSA signature ever verified.
---
 internal/sunlight/checkpoint_ol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sunlight/checkpoint_ol.go b/internal/sunlight/checkpoint_ol.go
index 08a1a58..c50b40f 100644
--- a/internal/sunlight/checkpoint_ol.go
+++ b/internal/sunlight/checkpoint_ol.go
@@ -221,7 +221,7 @@ func NewRFC6962Verifier(name string, key crypto.PublicKey, tf func(uint64)) (not
 			if sigAlg != 1 {
 				return false
 			}
-			return rsa.VerifyPKCS1v15(key, crypto.SHA256, digest[:], sig) == nil
+			return rsa.VerifyPKCS1v15(key, crypto.SHA256, digest[:], signature) == nil
 		case *ecdsa.PublicKey:
 			if sigAlg != 3 {
 				return false
-- 
2.43.0


From 3dba9487b1a31b7c09f20c054745e26a21993582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 04/10] fix: refuse checkpoints whose root hash is not
 canonical base64

DecodeString skips carriage returns and ignores trailing bits.
---
 internal/sunlight/checkpoint_ol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sunlight/checkpoint_ol.go b/internal/sunlight/checkpoint_ol.go
index c50b40f..ea73971 100644
--- a/internal/sunlight/checkpoint_ol.go
+++ b/internal/sunlight/checkpoint_ol.go
@@ -135,7 +135,7 @@ func ParseCheckpoint(text string) (Checkpoint, error) {
 	}
 
 	h, err := base64.StdEncoding.DecodeString(lines[2])
-	if err != nil || len(h) != tlog.HashSize {
+	if err != nil || len(h) != tlog.HashSize || lines[2] != base64.StdEncoding.EncodeToString(h) {
 		return Checkpoint{}, errors.New("malformed checkpoint")
 	}
 
-- 
2.43.0


From 13bd4b633366b5e95ee34388820146cbae96f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 05/10] fix: refuse precertificate chains that lack the final
 issuer

A chain that validates to a precertificate signing certificate that is
itself an accepted root made the handler panic.
---
 internal/ctsubmit/logic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 757712b..6a81f43 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -140,8 +140,14 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// Preissuer means that the intermediate that issued the precert is only valid
 		// for issuing precertificates.
 		var preIssuer *x509.Certificate
+		if len(chain) < 2 {
+			return nil, http.StatusBadRequest, fmt.Errorf("precertificate chain has no issuer")
+		}
 		issuer := chain[1]
 		if ct.IsPreIssuer(chain[1]) {
+			if len(chain) < 3 {
+				return nil, http.StatusBadRequest, fmt.Errorf("precertificate chain has no issuer for the final certificate")
+			}
 			preIssuer = chain[1]
 			issuer = chain[2]
 		}
-- 
2.43.0


From cf6884286a44d7f590d9961d9bcf1fea3df230f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 06/10] fix: time out submissions that cannot be handed to the
 sequencer

The timeout only covered waiting for the answer; with a stalled
sequencer and a full queue a submitter waited forever.
---
 internal/ctsubmit/logic.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 6a81f43..2e828d5 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -179,14 +179,19 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// This channel is buffered so it doesn't block if an attempt is made to send
 		// after the timeout fires.
 		returnPath := make(chan sunlight.LogEntry, 1)
-		d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}
+		timeout := time.After(5 * time.Second)
+		select {
+		case d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}:
+		case <-timeout:
+			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out waiting for sequencer")
+		}
 
 		// If we recieve something here, that means that the entry has been both sequenced
 		// and uploaded with a newly signed STH, so we can issue a SCT.
 		select {
 		case completeEntry = <-returnPath:
 		// Nominally, this should complete in under 2 seconds.
-		case <-time.After(5 * time.Second):
+		case <-timeout:
 			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out waiting for sequencer")
 		}
 	}
-- 
2.43.0


From f245972c8eabffdf79b39ba8661d3b49eac53961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 07/10] fix: report a missing object as not found in local
 fastly reads

The error returned first, so that partial tiles were never tried.
---
 internal/ctmonitor/fastly.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internal/ctmonitor/fastly.go b/internal/ctmonitor/fastly.go
index 75c3c5b..bf54eb5 100644
--- a/internal/ctmonitor/fastly.go
+++ b/internal/ctmonitor/fastly.go
@@ -206,12 +206,9 @@ func (f *FastlyStorage) Get(ctx context.Context, key string) (data []byte, notfo
 	} else {
 		entry, err := cacheFunc()
 		if err != nil {
-			return nil, false, err
+			return nil, notFound, err
 		}
 		reader = entry.Body
-		if notFound {
-			return nil, true, errors.New("not found")
-		}
 	}
 
 	body, err := io.ReadAll(reader)
-- 
2.43.0


From e1874ef2b62c311bd5d741f91afe7cce786bb6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 08/10] fix: check the request error before using the fastly
 request

---
 internal/ctmonitor/fastly.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ctmonitor/fastly.go b/internal/ctmonitor/fastly.go
index bf54eb5..6d8a348 100644
--- a/internal/ctmonitor/fastly.go
+++ b/internal/ctmonitor/fastly.go
@@ -127,12 +127,12 @@ func (f *FastlyStorage) Get(ctx context.Context, key string) (data []byte, notfo
 		f.requests++
 
 		req, err := fsthttp.NewRequest("GET", url, nil)
-		req.CacheOptions = fsthttp.CacheOptions{
-			Pass: true,
-		}
 		if err != nil {
 			return simple.CacheEntry{}, err
 		}
+		req.CacheOptions = fsthttp.CacheOptions{
+			Pass: true,
+		}
 		resp, err := req.Send(ctx, f.backend)
 		if err != nil {
 			return simple.CacheEntry{}, err
-- 
2.43.0


From 9671b4a13227f7341b2655188ed4ac1b7d7e6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 09/10] fix: report a key file without a PEM block instead of
 panicking

---
 internal/ctsubmit/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index b2267cb..7311893 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -180,6 +180,9 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			return nil, fmt.Errorf("unable to read key: %v", err)
 		}
 		keyBlock, _ := pem.Decode(keyPEM)
+		if keyBlock == nil {
+			return nil, fmt.Errorf("unable to decode key: no PEM block found")
+		}
 
 		key, err = x509.ParseECPrivateKey(keyBlock.Bytes)
 		if err != nil {
-- 
2.43.0


From cc991be741031840c4b47a0e930fdf5f6024ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 10/10] fix: set-up reports a key file without a PEM block
 instead of panicking

---
 internal/ctsetup/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ctsetup/main.go b/internal/ctsetup/main.go
index b47b771..cb54268 100644
--- a/internal/ctsetup/main.go
+++ b/internal/ctsetup/main.go
@@ -6,6 +6,7 @@ import (
 	"crypto/x509"
 	"encoding/json"
 	"encoding/pem"
+	"errors"
 	"log"
 	"os"
 	"time"
@@ -96,6 +97,9 @@ func uploadEmptySth(ctx context.Context, signingKey string, gc ctsubmit.GlobalCo
 		return err
 	}
 	keyBlock, _ := pem.Decode(keyPEM)
+	if keyBlock == nil {
+		return errors.New("no PEM block found in signing key")
+	}
 
 	// keyDecrypted, err := x509.DecryptPEMBlock(keyBlock, []byte("dirk"))
 	// if err != nil {
-- 
2.43.0

