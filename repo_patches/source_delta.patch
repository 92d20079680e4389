From 144b8a4c97abc6e9137dc043c38f270dcbb4f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 1/4] fix: reject composites with negative or absurdly large
 dimensions

The dimensions of the header were used unchecked to allocate the plain data:
negative ones ("GP-450x-450", "BG-46-46") and overflowing or huge ones
panicked or exhausted the memory.
---
 data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data.go b/data.go
index a9c3e0b..a4da1d7 100644
--- a/data.go
+++ b/data.go
@@ -14,6 +14,9 @@ const (
 	unknown
 )
 
+// maxDim is the largest edge length that fits the header fields (fortran format I4)
+const maxDim = 9999
+
 // parsing methods
 var parse = [4]func(c *Composite, rd *bufio.Reader) error{}
 
@@ -50,6 +53,9 @@ func (c *Composite) parseData(reader *bufio.Reader) error {
 	if c.Px == 0 || c.Py == 0 {
 		return newError("parseData", "parsed header data required")
 	}
+	if c.Px < 0 || c.Py < 0 || c.Px > maxDim || c.Py > maxDim {
+		return newError("parseData", "invalid dimensions")
+	}
 
 	// create Data fields
 	c.PlainData = make([][]float32, c.Py)
-- 
2.43.0


From 26d24c348a5fa8cc009de410558bc5acd577b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 2/4] fix: do not give a trailing header key the value of the
 previous field

splitHeader kept the value range of the preceding field, so a header ending in
a key without value ("... VS 3INT   5VV") assigned INT's value to VV.
---
 header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/header.go b/header.go
index 97581e0..6f2a5ea 100644
--- a/header.go
+++ b/header.go
@@ -19,6 +19,7 @@ func splitHeader(header string) (m map[string]string) {
 			if dispatch {
 				m[header[beginKey:endKey]] = header[beginValue:endValue]
 				beginKey = i
+				beginValue, endValue = 0, 0 // key without value so far
 				dispatch = false
 			}
 			endKey = i + 1
-- 
2.43.0


From 375675f67428f03fd4940dfe0646a7748eae49aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 3/4] fix: keep the catalogued resolution of local pictures

calibrateProjection overwrote the resolution which parseHeader had looked up in
the dimension catalog with NaN, so it was never available.
---
 projection.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projection.go b/projection.go
index 3e95f1f..7f16b2d 100644
--- a/projection.go
+++ b/projection.go
@@ -90,8 +90,10 @@ func (c *Composite) cornerPoints(detectedGrid grid) (originTop, originLeft, edge
 
 // calibrateProjection initializes fields that are necessary for coordinate transformation
 func (c *Composite) calibrateProjection() {
-	c.Rx = math.NaN()
-	c.Ry = math.NaN()
+	if c.Rx == 0 || c.Ry == 0 { // keep catalogued resolution of local pictures
+		c.Rx = math.NaN()
+		c.Ry = math.NaN()
+	}
 	c.offx = math.NaN()
 	c.offy = math.NaN()
 
-- 
2.43.0


From 2bdf20f27c996822e20b40251b38bc982f9d459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 4/4] fix: bound how much of an archive entry is read

A sparse entry of a few hundred bytes can claim any size, so looking for the
end of its header exhausted the memory. Read no more of an entry than the
largest possible composite needs.
---
 radolan.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radolan.go b/radolan.go
index ddf20a5..05c7847 100644
--- a/radolan.go
+++ b/radolan.go
@@ -153,6 +153,10 @@ func NewComposite(rd io.Reader) (comp *Composite, err error) {
 	return
 }
 
+// maxEntry limits the bytes read of an archive entry, whose size can be anything for sparse
+// files. It is more than the largest possible composite needs.
+const maxEntry = 1 << 28
+
 // NewComposites reads .tar.bz2 data from rd and returns the parsed composites sorted by
 // ForecastTime in ascending order.
 func NewComposites(rd io.Reader) ([]*Composite, error) {
@@ -170,7 +174,7 @@ func NewComposites(rd io.Reader) ([]*Composite, error) {
 			return nil, err
 		}
 
-		c, err := NewComposite(tarReader)
+		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0

