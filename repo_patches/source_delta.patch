From 6435b416e7f3bf563107f7b7dc476bd0cd910d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:33 +0000
Subject: [PATCH 01/24] fix: mod: WriteAt must not merge with a pending write
 it does not cover or continue

A WriteAt at the start of a longer pending write was appended to it instead
of overwriting its beginning, and a WriteAt elsewhere left the current offset
behind, so that a later write at the stale offset joined the wrong buffer.
---
 mod/dagmodifier.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 6cc484a..2d5fc93 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -91,12 +91,14 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
-	if offset == int64(dm.writeStart) && dm.wrBuf != nil {
-		// If we would overwrite the previous write
-		if len(b) >= dm.wrBuf.Len() {
-			dm.wrBuf.Reset()
-		}
-	} else if uint64(offset) != dm.curWrOff {
+	switch {
+	case dm.wrBuf != nil && uint64(offset) == dm.writeStart && len(b) >= dm.wrBuf.Len():
+		// We would overwrite the whole pending write, replace it.
+		dm.wrBuf.Reset()
+		dm.curWrOff = dm.writeStart
+	case dm.wrBuf != nil && uint64(offset) == dm.writeStart+uint64(dm.wrBuf.Len()):
+		// We continue the pending write.
+	default:
 		size, err := dm.Size()
 		if err != nil {
 			return 0, err
@@ -113,6 +115,7 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 			return 0, err
 		}
 		dm.writeStart = uint64(offset)
+		dm.curWrOff = uint64(offset)
 	}
 
 	return dm.Write(b)
-- 
2.43.0


From a022126ca04cfee7cd8448933316d621fcff140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 02/24] fix: mod: a Write that follows a Read goes to the
 current offset

Reading advances the current offset but the start of the next write buffer
was left where the last Seek or Sync had put it. Also release the context of
the reader a Write replaces.
---
 mod/dagmodifier.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 2d5fc93..eb8d2c7 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -146,11 +146,10 @@ func (dm *DagModifier) expandSparse(size int64) error {
 
 // Write continues writing to the dag at the current offset
 func (dm *DagModifier) Write(b []byte) (int, error) {
-	if dm.read != nil {
-		dm.read = nil
-	}
+	dm.closeReader()
 	if dm.wrBuf == nil {
 		dm.wrBuf = new(bytes.Buffer)
+		dm.writeStart = dm.curWrOff
 	}
 
 	n, err := dm.wrBuf.Write(b)
@@ -202,10 +201,7 @@ func (dm *DagModifier) Sync() error {
 	}
 
 	// If we have an active reader, kill it
-	if dm.read != nil {
-		dm.read = nil
-		dm.readCancel()
-	}
+	dm.closeReader()
 
 	// Number of bytes we're going to write
 	buflen := dm.wrBuf.Len()
@@ -423,6 +419,15 @@ func (dm *DagModifier) readPrep() error {
 	return nil
 }
 
+// closeReader drops the active reader (if any), the next read starts a new one
+// on the current node.
+func (dm *DagModifier) closeReader() {
+	if dm.read != nil {
+		dm.read = nil
+		dm.readCancel()
+	}
+}
+
 // CtxReadFull reads data from this dag starting at the current offset
 func (dm *DagModifier) CtxReadFull(ctx context.Context, b []byte) (int, error) {
 	err := dm.readPrep()
-- 
2.43.0


From 93a9cb90b0d1b8075cd7c4bc0483d3bc4ee4f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 03/24] fix: mod: Seek relative to the end is size plus offset,
 negative positions fail

As for any io.Seeker (and the DagReader in this module). A negative position
used to wrap around and was accepted.
---
 mod/dagmodifier.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index eb8d2c7..db38174 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -88,6 +88,10 @@ func NewDagModifier(ctx context.Context, from ipld.Node, serv ipld.DAGService, s
 
 // WriteAt will modify a dag file in place
 func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
+	if offset < 0 {
+		return 0, ErrSeekFail
+	}
+
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
@@ -467,34 +471,38 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 		return 0, err
 	}
 
-	var newoffset uint64
+	var newoffset int64
 	switch whence {
 	case io.SeekCurrent:
-		newoffset = dm.curWrOff + uint64(offset)
+		newoffset = int64(dm.curWrOff) + offset
 	case io.SeekStart:
-		newoffset = uint64(offset)
+		newoffset = offset
 	case io.SeekEnd:
-		newoffset = uint64(fisize) - uint64(offset)
+		newoffset = fisize + offset
 	default:
 		return 0, ErrUnrecognizedWhence
 	}
+	if newoffset < 0 {
+		return 0, ErrSeekFail
+	}
 
-	if int64(newoffset) > fisize {
-		if err := dm.expandSparse(int64(newoffset) - fisize); err != nil {
+	if newoffset > fisize {
+		if err := dm.expandSparse(newoffset - fisize); err != nil {
 			return 0, err
 		}
 	}
-	dm.curWrOff = newoffset
-	dm.writeStart = newoffset
 
 	if dm.read != nil {
-		_, err = dm.read.Seek(offset, whence)
+		_, err = dm.read.Seek(newoffset, io.SeekStart)
 		if err != nil {
+			dm.closeReader()
 			return 0, err
 		}
 	}
+	dm.curWrOff = uint64(newoffset)
+	dm.writeStart = uint64(newoffset)
 
-	return int64(dm.curWrOff), nil
+	return newoffset, nil
 }
 
 // Truncate truncates the current Node to 'size' and replaces it with the
-- 
2.43.0


From 394487610b6e78e2237cea792bb43b0ed279441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:06 +0000
Subject: [PATCH 04/24] fix: mod: drop the active reader when the file is
 truncated or expanded

It kept reading the node of before. Also make the expanded node the current
one explicitly, this only worked when it was modified in place.
---
 mod/dagmodifier.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index db38174..1a462cb 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -145,7 +145,14 @@ func (dm *DagModifier) expandSparse(size int64) error {
 		return err
 	}
 	err = dm.dagserv.Add(dm.ctx, nnode)
-	return err
+	if err != nil {
+		return err
+	}
+
+	// The active reader (if any) is reading the old node.
+	dm.closeReader()
+	dm.curNode = nnode
+	return nil
 }
 
 // Write continues writing to the dag at the current offset
@@ -536,6 +543,8 @@ func (dm *DagModifier) Truncate(size int64) error {
 		return err
 	}
 
+	// The active reader (if any) is reading the old node.
+	dm.closeReader()
 	dm.curNode = nnode
 	return nil
 }
-- 
2.43.0


From fac5c0d709a02b1d2b6bcff9f241c2b1c2f5bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:31 +0000
Subject: [PATCH 05/24] fix: mod: don't change the links of nodes shared with
 the caller

Copies of a ProtoNode share their links, so overwriting data through a
DagModifier changed the links of the node it was created from and of the
nodes GetNode had returned before.
---
 mod/dagmodifier.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 1a462cb..2c850ac 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -345,7 +345,11 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
-			node.Links()[i].Cid = k
+			// Don't modify the link in place, it may be shared with
+			// copies of this node.
+			lnk := *node.Links()[i]
+			lnk.Cid = k
+			node.Links()[i] = &lnk
 
 			// Recache serialized node
 			_, err = node.EncodeProtobuf(true)
-- 
2.43.0


From b74109b54592ec5885da503d6973b75cea2b1bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:31 +0000
Subject: [PATCH 06/24] fix: mod: a failed Sync or Truncate must not lose data

Flushing consumes the write buffer and changed the current node in place, so
after an error the pending data was gone (the next Sync wrote nothing and
reported success) and the node could be half modified. Work on a copy of the
node and keep the data until everything is stored.
---
 mod/dagmodifier.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 2c850ac..8ee5af0 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -140,7 +140,7 @@ func (zr zeroReader) Read(b []byte) (int, error) {
 func (dm *DagModifier) expandSparse(size int64) error {
 	r := io.LimitReader(zeroReader{}, size)
 	spl := chunker.NewSizeSplitter(r, 4096)
-	nnode, err := dm.appendData(dm.curNode, spl)
+	nnode, err := dm.appendData(dm.curNode.Copy(), spl)
 	if err != nil {
 		return err
 	}
@@ -217,6 +217,23 @@ func (dm *DagModifier) Sync() error {
 	// Number of bytes we're going to write
 	buflen := dm.wrBuf.Len()
 
+	// If we fail the data still has to be written, keep it (writing it
+	// consumes the buffer).
+	pending := dm.wrBuf.Bytes()
+	if err := dm.flush(); err != nil {
+		dm.wrBuf = bytes.NewBuffer(pending)
+		return err
+	}
+
+	dm.writeStart += uint64(buflen)
+	dm.wrBuf = nil
+
+	return nil
+}
+
+// flush writes the contents of 'dm.wrBuf' to the dag and makes the result the
+// current node.
+func (dm *DagModifier) flush() error {
 	fs, err := fileSize(dm.curNode)
 	if err != nil {
 		return err
@@ -228,32 +245,30 @@ func (dm *DagModifier) Sync() error {
 	}
 
 	// overwrite existing dag nodes
-	thisc, err := dm.modifyDag(dm.curNode, dm.writeStart)
+	thisc, err := dm.modifyDag(dm.curNode.Copy(), dm.writeStart)
 	if err != nil {
 		return err
 	}
 
-	dm.curNode, err = dm.dagserv.Get(dm.ctx, thisc)
+	nnode, err := dm.dagserv.Get(dm.ctx, thisc)
 	if err != nil {
 		return err
 	}
 
 	// need to write past end of current dag
 	if dm.wrBuf.Len() > 0 {
-		dm.curNode, err = dm.appendData(dm.curNode, dm.splitter(dm.wrBuf))
+		nnode, err = dm.appendData(nnode, dm.splitter(dm.wrBuf))
 		if err != nil {
 			return err
 		}
 
-		err = dm.dagserv.Add(dm.ctx, dm.curNode)
+		err = dm.dagserv.Add(dm.ctx, nnode)
 		if err != nil {
 			return err
 		}
 	}
 
-	dm.writeStart += uint64(buflen)
-	dm.wrBuf = nil
-
+	dm.curNode = nnode
 	return nil
 }
 
@@ -537,7 +552,7 @@ func (dm *DagModifier) Truncate(size int64) error {
 		return dm.expandSparse(int64(size) - realSize)
 	}
 
-	nnode, err := dm.dagTruncate(dm.ctx, dm.curNode, uint64(size))
+	nnode, err := dm.dagTruncate(dm.ctx, dm.curNode.Copy(), uint64(size))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7610958a291b719a69740347796070aad84aba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 07/24] fix: mod: append to files that are a single node

A raw node was rejected with ErrNotProtobuf, and a ProtoNode with the data
inside got links besides its data, which readers then skip. Make the old node
the first child of a new one.
---
 mod/dagmodifier.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 8ee5af0..84001b6 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -399,12 +399,47 @@ func (dm *DagModifier) appendData(nd ipld.Node, spl chunker.Splitter) (ipld.Node
 		if err != nil {
 			return nil, err
 		}
-		return trickle.Append(dm.ctx, nd, db)
+		base, err := dm.branchNode(nd, db)
+		if err != nil {
+			return nil, err
+		}
+		return trickle.Append(dm.ctx, base, db)
 	default:
 		return nil, ErrNotUnixfs
 	}
 }
 
+// branchNode returns a node to which children can be appended: a file that
+// consists of a single node with its data inside becomes the first child of a
+// new node, any other is returned as it is.
+func (dm *DagModifier) branchNode(nd ipld.Node, db *help.DagBuilderHelper) (ipld.Node, error) {
+	if len(nd.Links()) > 0 {
+		return nd, nil
+	}
+
+	if pbn, ok := nd.(*mdag.ProtoNode); ok {
+		fsn, err := ft.FSNodeFromBytes(pbn.Data())
+		if err != nil {
+			return nil, err
+		}
+		if fsn.Type() == ft.TFile && len(fsn.Data()) == 0 {
+			return nd, nil
+		}
+	}
+
+	size, err := fileSize(nd)
+	if err != nil {
+		return nil, err
+	}
+	root := db.NewFSNodeOverDag(ft.TFile)
+	if size > 0 {
+		if err := root.AddChild(nd, size, db); err != nil {
+			return nil, err
+		}
+	}
+	return root.Commit()
+}
+
 // Read data from this dag starting at the current offset
 func (dm *DagModifier) Read(b []byte) (int, error) {
 	err := dm.readPrep()
-- 
2.43.0


From f8dbab79c4a9bd84d332f0b2499370e6d344539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 08/24] fix: trickle: don't append into a leaf

When a node has more direct blocks than Maxlinks its last child is a leaf and
not a subtree. Appending failed with ErrNotProtobuf if it was a raw node and
otherwise gave it links besides its data, which readers then skip.
---
 importer/trickle/trickledag.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index c2e6d03..214e63d 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -163,6 +163,11 @@ func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, r
 	// Recursive step, grab last child
 	last := fsn.NumChildren() - 1
 	lastChild, err := fsn.GetChild(ctx, last, db.GetDagServ())
+	if err == dag.ErrNotProtobuf || err == nil && lastChild.NumChildren() == 0 {
+		// A leaf (this DAG was built with more direct blocks per node),
+		// there is no tree to fill.
+		return nil
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 831e1680f3cca672a936575f3c4266a3f9edea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:59 +0000
Subject: [PATCH 09/24] fix: mod: flush pending data before expanding the file

The expansion is computed on the size including the pending data but applied
to the node without it, so when the flush failed after it the file was left
with a length nobody asked for.
---
 mod/dagmodifier.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 84001b6..f138db5 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -103,6 +103,11 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 	case dm.wrBuf != nil && uint64(offset) == dm.writeStart+uint64(dm.wrBuf.Len()):
 		// We continue the pending write.
 	default:
+		err := dm.Sync()
+		if err != nil {
+			return 0, err
+		}
+
 		size, err := dm.Size()
 		if err != nil {
 			return 0, err
@@ -113,11 +118,6 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 				return 0, err
 			}
 		}
-
-		err = dm.Sync()
-		if err != nil {
-			return 0, err
-		}
 		dm.writeStart = uint64(offset)
 		dm.curWrOff = uint64(offset)
 	}
-- 
2.43.0


From 476b127af49b07684b91b9638a1e7506213a25a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:58 +0000
Subject: [PATCH 10/24] fix: io: count the bytes a failing writer accepted in
 the DagReader offset

---
 io/dagreader.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/io/dagreader.go b/io/dagreader.go
index 7284bdc..70cdd93 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -265,9 +265,8 @@ func (dr *dagReader) readNodeDataBuffer(out []byte) int {
 func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 
 	n, err := dr.currentNodeData.WriteTo(w)
-	if err != nil {
-		return n, err
-	}
+	// Even if the writer failed, it may have accepted part of the data.
+	dr.offset += int64(n)
 
 	if dr.currentNodeData.Len() == 0 {
 		dr.currentNodeData = nil
@@ -276,8 +275,7 @@ func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 		// single node's data, not the entire DAG.
 	}
 
-	dr.offset += int64(n)
-	return n, nil
+	return n, err
 }
 
 // WriteTo writes to the given writer.
-- 
2.43.0


From eb0c80070883aebfee34064223fc39b568dd2a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 11/24] fix: io: don't leave the DagReader mid-DAG after a
 failed Seek

---
 io/dagreader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/dagreader.go b/io/dagreader.go
index 70cdd93..53dfecf 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -460,6 +460,9 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 		})
 
 		if err != nil {
+			// The walker stopped somewhere in the middle of the DAG,
+			// bring it back to match the offset.
+			dr.resetPosition()
 			return 0, err
 		}
 
-- 
2.43.0


From 49ebeb0ca1dc22444d92602c5b22ead600d5ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 12/24] fix: io: don't modify a HAMT directory while its size
 is still being computed

---
 io/directory.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index a0ec307..717e9ed 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -516,10 +516,17 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 	partialSize := 0
 
 	// We stop the enumeration once we have enough information and exit this function.
-	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
+	enumCtx, cancel := context.WithCancel(ctx)
+	linkResults := d.EnumLinksAsync(enumCtx)
+	defer func() {
+		cancel()
+		// The enumeration goes through the shards in memory, wait for it
+		// to stop as our caller is about to modify them.
+		for range linkResults {
+		}
+	}()
 
-	for linkResult := range d.EnumLinksAsync(ctx) {
+	for linkResult := range linkResults {
 		if linkResult.Err != nil {
 			return false, linkResult.Err
 		}
-- 
2.43.0


From df174396f6932e9267fb590e85157044dda46e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 13/24] fix: hamt: EnumLinks must report that its context ended
 the enumeration early

---
 hamt/hamt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index e789aa8..80d5b93 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -398,7 +398,8 @@ func (ds *Shard) EnumLinks(ctx context.Context) ([]*ipld.Link, error) {
 		}
 		links = append(links, linkResult.Link)
 	}
-	return links, nil
+	// The enumeration ends early, and without an error, if the context is done.
+	return links, ctx.Err()
 }
 
 // ForEachLink walks the Shard and calls the given function.
-- 
2.43.0


From 3d37ca3c3ee52f11744f368dec137345990171fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:24 +0000
Subject: [PATCH 14/24] fix: io: don't take an interrupted size estimation of a
 HAMT directory for a complete one

---
 io/directory.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/io/directory.go b/io/directory.go
index 717e9ed..9575466 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -539,6 +539,11 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 		}
 	}
 
+	// The enumeration ends early, and without an error, if the context is done.
+	if err := ctx.Err(); err != nil {
+		return false, err
+	}
+
 	// We enumerated *all* links in all shards and didn't reach the threshold.
 	return true, nil
 }
-- 
2.43.0


From e2707a7a2ac56370bd20db260b4335723f363d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:14 +0000
Subject: [PATCH 15/24] fix: trickle: don't build subtrees one level too deep
 when appending

After the last, partially filled layer has been completed the depth of the
next layer is one more. When the last layer was complete already (or there
was none) it is not: the next subtrees were built one level deeper than the
layout allows, which VerifyTrickleDagStructure rejects.
---
 importer/trickle/trickledag.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index 214e63d..ac94577 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -127,8 +127,9 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 		return nil, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// after appendFillLastChild a partially filled layer is complete (if there
+	// is data left), our depth is now increased by one
+	if repeatNumber != 0 && !db.Done() {
 		depth++
 	}
 
@@ -233,8 +234,9 @@ func appendRec(ctx context.Context, fsn *h.FSNodeOverDag, db *h.DagBuilderHelper
 		return nil, 0, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// after appendFillLastChild a partially filled layer is complete (if there
+	// is data left), our depth is now increased by one
+	if repeatNumber != 0 && !db.Done() {
 		depth++
 	}
 
-- 
2.43.0


From 198c5f47efee2f1245ff7a715752f087cf1f167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 16/24] fix: hamt: reject shards whose bitfield does not fit
 their width or links

---
 hamt/hamt.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 80d5b93..53f6c4e 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -165,7 +165,9 @@ func NewHamtFromDag(dserv ipld.DAGService, nd ipld.Node) (*Shard, error) {
 		return nil, err
 	}
 
-	ds.childer.makeChilder(fsn.Data(), pbnd.Links())
+	if err := ds.childer.makeChilder(fsn.Data(), pbnd.Links()); err != nil {
+		return nil, err
+	}
 
 	ds.hashFunc = fsn.HashType()
 	ds.builder = pbnd.CidBuilder()
@@ -797,15 +799,22 @@ func newChilder(ds ipld.DAGService, size int) (*childer, error) {
 	}, nil
 }
 
-func (s *childer) makeChilder(data []byte, links []*ipld.Link) *childer {
-	s.children = make([]*Shard, len(links))
+func (s *childer) makeChilder(data []byte, links []*ipld.Link) error {
+	if len(data) > len(s.bitfield) {
+		return fmt.Errorf("hamt bitfield of %d bytes is too big for the shard's width", len(data))
+	}
 	s.bitfield.SetBytes(data)
+	if ones := s.bitfield.Ones(); ones != len(links) {
+		return fmt.Errorf("hamt bitfield has %d bits set for %d links", ones, len(links))
+	}
+
+	s.children = make([]*Shard, len(links))
 	if len(links) > 0 {
 		s.links = make([]*ipld.Link, len(links))
 		copy(s.links, links)
 	}
 
-	return s
+	return nil
 }
 
 // Return the `sliceIndex` associated with a child.
-- 
2.43.0


From 2568a41d03785f5b368b3cc4832d5023d8cfea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 17/24] fix: mod: report files whose recorded sizes are wrong,
 and negative sizes, instead of panicking

---
 mod/dagmodifier.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index f138db5..1f7061e 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"math"
 
 	ft "github.com/ipfs/go-unixfs"
 	help "github.com/ipfs/go-unixfs/importer/helpers"
@@ -29,6 +30,10 @@ var (
 	ErrNotUnixfs = errors.New("dagmodifier only supports unixfs nodes (proto or raw)")
 )
 
+// errMalformed is returned when the sizes recorded in a file do not match what
+// is in it.
+var errMalformed = errors.New("malformed unixfs file")
+
 // 2MB
 var writebufferSize = 1 << 21
 
@@ -196,6 +201,9 @@ func fileSize(n ipld.Node) (uint64, error) {
 		if err != nil {
 			return 0, err
 		}
+		if fsn.FileSize() > math.MaxInt64 {
+			return 0, errMalformed
+		}
 		return fsn.FileSize(), nil
 	case *mdag.RawNode:
 		return uint64(len(nd.RawData())), nil
@@ -284,6 +292,9 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
+			if offset > uint64(len(fsn.Data())) {
+				return cid.Cid{}, errMalformed
+			}
 			_, err = dm.wrBuf.Read(fsn.Data()[offset:])
 			if err != nil && err != io.EOF {
 				return cid.Cid{}, err
@@ -306,6 +317,9 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 			return nd.Cid(), nil
 		case *mdag.RawNode:
 			origData := nd0.RawData()
+			if offset > uint64(len(origData)) {
+				return cid.Cid{}, errMalformed
+			}
 			bytes := make([]byte, len(origData))
 
 			// copy orig data up to offset
@@ -346,6 +360,10 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 		return cid.Cid{}, err
 	}
 
+	if fsn.NumChildren() != len(node.Links()) {
+		return cid.Cid{}, errMalformed
+	}
+
 	var cur uint64
 	for i, bs := range fsn.BlockSizes() {
 		// We found the correct child to write into
@@ -569,6 +587,10 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 // Truncate truncates the current Node to 'size' and replaces it with the
 // new one.
 func (dm *DagModifier) Truncate(size int64) error {
+	if size < 0 {
+		return ErrSeekFail
+	}
+
 	err := dm.Sync()
 	if err != nil {
 		return err
@@ -613,9 +635,15 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 			if err != nil {
 				return nil, err
 			}
+			if size > uint64(len(fsn.Data())) {
+				return nil, errMalformed
+			}
 			nd.SetData(ft.WrapData(fsn.Data()[:size]))
 			return nd, nil
 		case *mdag.RawNode:
+			if size > uint64(len(nd.RawData())) {
+				return nil, errMalformed
+			}
 			return mdag.NewRawNodeWPrefix(nd.RawData()[:size], nd.Cid().Prefix())
 		}
 	}
@@ -663,6 +691,10 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 		ndata.AddBlockSize(childsize)
 	}
 
+	if modified == nil {
+		return nil, errMalformed
+	}
+
 	err = dm.dagserv.Add(ctx, modified)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4648cb97b7cfa41f012cfb878962f455e8f48b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:09 +0000
Subject: [PATCH 18/24] fix: importer: reject nodes that do not have one size
 for each link

---
 importer/helpers/dagbuilder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/importer/helpers/dagbuilder.go b/importer/helpers/dagbuilder.go
index f858c74..8160c8e 100644
--- a/importer/helpers/dagbuilder.go
+++ b/importer/helpers/dagbuilder.go
@@ -3,6 +3,7 @@ package helpers
 import (
 	"context"
 	"errors"
+	"fmt"
 	"io"
 	"os"
 
@@ -322,6 +323,9 @@ func NewFSNFromDag(nd *dag.ProtoNode) (*FSNodeOverDag, error) {
 	if err != nil {
 		return nil, err
 	}
+	if mb.NumChildren() != len(nd.Links()) {
+		return nil, fmt.Errorf("node has %d links but sizes for %d children", len(nd.Links()), mb.NumChildren())
+	}
 
 	return &FSNodeOverDag{
 		dag:  nd,
-- 
2.43.0


From fb6bb5b62968df91892334eedbbf4d3ceee2a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 19/24] fix: hamt: reject link names shorter than the prefix,
 also when collapsing shards

---
 hamt/hamt.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 53f6c4e..e17dfd0 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -751,7 +751,12 @@ func (ds *Shard) swapValue(ctx context.Context, hv *hashBits, key string, value
 				}
 				if lnkType == shardValueLink {
 					// sub-shard with a single value element, collapse it
-					ds.childer.setLink(slnk, i)
+					// (its prefix may be of another width than ours)
+					schild, err = child.makeShardValue(slnk)
+					if err != nil {
+						return nil, err
+					}
+					ds.childer.set(schild, i)
 				}
 				return oldValue, nil
 			}
@@ -807,6 +812,11 @@ func (s *childer) makeChilder(data []byte, links []*ipld.Link) error {
 	if ones := s.bitfield.Ones(); ones != len(links) {
 		return fmt.Errorf("hamt bitfield has %d bits set for %d links", ones, len(links))
 	}
+	for _, lnk := range links {
+		if _, err := s.sd.childLinkType(lnk); err != nil {
+			return err
+		}
+	}
 
 	s.children = make([]*Shard, len(links))
 	if len(links) > 0 {
@@ -857,11 +867,6 @@ func (s *childer) set(sd *Shard, i int) {
 	s.links[i] = nil
 }
 
-func (s *childer) setLink(lnk *ipld.Link, i int) {
-	s.children[i] = nil
-	s.links[i] = lnk
-}
-
 func (s *childer) rm(childIndex int) error {
 	i := s.sliceIndex(childIndex)
 
-- 
2.43.0


From 38f68753d799e1bfc686cfcc2aae69c0ddf8f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:47 +0000
Subject: [PATCH 20/24] fix: io: don't skip the data of a malformed leaf when
 reading on after the error

---
 io/dagreader.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/io/dagreader.go b/io/dagreader.go
index 53dfecf..401fd13 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -122,6 +122,11 @@ type dagReader struct {
 	// `readNodeDataBuffer` operation.
 	currentNodeData *bytes.Reader
 
+	// Error of the last visited node if its data couldn't be extracted. The
+	// `dagWalker` has moved past that node, to not skip its data no more can
+	// be read until the position is reset.
+	nodeErr error
+
 	// Implements the `Size()` API.
 	size uint64
 
@@ -159,6 +164,10 @@ func (dr *dagReader) Read(b []byte) (int, error) {
 // It uses the `Walker` structure to iterate the file DAG and read
 // every node's data into the `out` buffer.
 func (dr *dagReader) CtxReadFull(ctx context.Context, out []byte) (n int, err error) {
+	if dr.nodeErr != nil {
+		return 0, dr.nodeErr
+	}
+
 	// Set the `dagWalker`'s context to the `ctx` argument, it will be used
 	// to fetch the child node promises (see
 	// `ipld.NavigableIPLDNode.FetchChild` for details).
@@ -226,6 +235,7 @@ func (dr *dagReader) CtxReadFull(ctx context.Context, out []byte) (n int, err er
 func (dr *dagReader) saveNodeData(node ipld.Node) error {
 	extractedNodeData, err := unixfs.ReadUnixFSNodeData(node)
 	if err != nil {
+		dr.nodeErr = err
 		return err
 	}
 
@@ -286,6 +296,10 @@ func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 // TODO: This implementation is very similar to `CtxReadFull`,
 // the common parts should be abstracted away.
 func (dr *dagReader) WriteTo(w io.Writer) (n int64, err error) {
+	if dr.nodeErr != nil {
+		return 0, dr.nodeErr
+	}
+
 	// Use the internal reader's context to fetch the child node promises
 	// (see `ipld.NavigableIPLDNode.FetchChild` for details).
 	dr.dagWalker.SetContext(dr.ctx)
@@ -357,7 +371,7 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 			return dr.offset, errors.New("invalid offset")
 		}
 
-		if offset == dr.offset {
+		if offset == dr.offset && dr.nodeErr == nil {
 			return offset, nil
 			// Already at the requested `offset`, nothing to do.
 		}
@@ -491,6 +505,7 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 // in the `SeekStart` case.
 func (dr *dagReader) resetPosition() {
 	dr.currentNodeData = nil
+	dr.nodeErr = nil
 	dr.offset = 0
 
 	dr.dagWalker = ipld.NewWalker(dr.ctx, ipld.NewNavigableIPLDNode(dr.rootNode, dr.serv))
-- 
2.43.0


From 4125a9106333e8e8c4cf5198e21013d08437d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:48 +0000
Subject: [PATCH 21/24] fix: MetadataFromBytes drops the recorded size

---
 unixfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unixfs.go b/unixfs.go
index f5020e0..643dbf6 100644
--- a/unixfs.go
+++ b/unixfs.go
@@ -365,6 +365,7 @@ func MetadataFromBytes(b []byte) (*Metadata, error) {
 	}
 	md := new(Metadata)
 	md.MimeType = pbm.GetMimeType()
+	md.Size = pbd.GetFilesize()
 	return md, nil
 }
 
-- 
2.43.0


From 1fd319c7f69d4455db7bbf044126f50523e1d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 22/24] fix: resolving an empty path on a sharded directory
 panicked

---
 io/resolve.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/io/resolve.go b/io/resolve.go
index 0c2cb6e..9f26ab1 100644
--- a/io/resolve.go
+++ b/io/resolve.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"context"
+	"errors"
 
 	dag "github.com/ipfs/go-merkledag"
 	ft "github.com/ipfs/go-unixfs"
@@ -24,6 +25,10 @@ func ResolveUnixfsOnce(ctx context.Context, ds ipld.NodeGetter, nd ipld.Node, na
 		}
 
 		if fsn.Type() == ft.THAMTShard {
+			if len(names) == 0 {
+				return nil, nil, errors.New("end of path, no more links to resolve")
+			}
+
 			rods := dag.NewReadOnlyDagService(ds)
 			s, err := hamt.NewHamtFromDag(rods, nd)
 			if err != nil {
-- 
2.43.0


From ac0369d339c9384ac6eff2d9a3c2af7eeb90d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:29 +0000
Subject: [PATCH 23/24] fix: io: a directory that falls below the sharding
 threshold again stayed sharded

---
 io/directory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/directory.go b/io/directory.go
index 9575466..902d516 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -605,6 +605,9 @@ func (d *DynamicDirectory) AddChild(ctx context.Context, name string, nd ipld.No
 	if err != nil {
 		return err
 	}
+	// The directory has reached the threshold only now, with this child:
+	// later changes in size count from here, not from before it was added.
+	hamtDir.sizeChange = 0
 	d.Directory = hamtDir
 	return nil
 }
-- 
2.43.0


From 0403b6f34aa220be31daef877dd4cafde0843e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:24 +0000
Subject: [PATCH 24/24] fix: io: adding to an emptied sharded directory could
 make it plain above the threshold

---
 io/directory.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index 902d516..d0ccb9e 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -544,8 +544,9 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 		return false, err
 	}
 
-	// We enumerated *all* links in all shards and didn't reach the threshold.
-	return true, nil
+	// We enumerated *all* links in all shards and didn't reach the threshold
+	// (without any links it has not been compared with the change yet).
+	return partialSize+sizeChange < HAMTShardingSize, nil
 }
 
 // DynamicDirectory wraps a Directory interface and provides extra logic
-- 
2.43.0

