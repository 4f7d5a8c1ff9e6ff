From ec6ec2aa0d19df68454a19f0c02c2c5e65e0ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 01/97] fix: do not give boxes that span the simulation a layer
 of pixels too many

A box as wide as the simulation was given Cells + 1 pixels per side. The extra
layer aliases the first one, is never written to, and biased the mean over the
projection axis by Cells / (Cells + 1).
---
 render/box.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/box.go b/render/box.go
index 08bbd8a..f86d34e 100644
--- a/render/box.go
+++ b/render/box.go
@@ -163,6 +163,8 @@ func newBox2D(
 			math.Floor((width[j] + origin[j]) / cellWidth),
 		)
 		b.cb.Width[j] -= b.cb.Origin[j]
+		// A periodic box never contains more than cells distinct cells.
+		if b.cb.Width[j] > cells { b.cb.Width[j] = cells }
 	}
 
 	b.cells = cells
@@ -199,6 +201,8 @@ func newBox3D(
 			math.Floor((width[j] + origin[j]) / cellWidth),
 		)
 		b.cb.Width[j] -= b.cb.Origin[j]
+		// A periodic box never contains more than cells distinct cells.
+		if b.cb.Width[j] > cells { b.cb.Width[j] = cells }
 	}
 
 	b.cells = cells
-- 
2.43.0


From 5bed7e9ddcf4f292b2097d9293e2345904899e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 02/97] fix: remove a debug print that made small velocity
 renders panic

---
 render/density/buffer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 595258c..4375006 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -295,9 +295,6 @@ func (buf *velocityBuffer) FinalizedVectorBuffer() (xs, ys, zs []float32, ok boo
 	ys = make([]float32, len(buf.vecs))
 	zs = make([]float32, len(buf.vecs))
 	for i, vec := range buf.vecs {
-		if i % (len(buf.vecs) / 30) == 0 {
-			fmt.Println(i, buf.num[i], vec[0], vec[1], vec[2])
-		}
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		xs[i], ys[i], zs[i] = float32(vec[0])/n, float32(vec[1])/n, float32(vec[2])/n
-- 
2.43.0


From a99fd545f1737c818acc063cc66c9cb09fd1f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 03/97] fix: do not divide projected velocities by the depth of
 the box

---
 render/box.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/render/box.go b/render/box.go
index f86d34e..b27e1a0 100644
--- a/render/box.go
+++ b/render/box.go
@@ -503,10 +503,11 @@ func (w *segmentOverlap2D) Interpolate(
 	kOffset := w.domCb.Origin[kDim] - w.bufCb.Origin[kDim]
 
 	length := w.bufCb.Width[iDim]
-	ptVal /= float64(w.domCb.Width[kDim])
 
 	wlen := bweights.Length()
 	buf, scalar := bbuf.ScalarBuffer()
+	// Velocities are averaged over the points in the column, not its depth.
+	if scalar { ptVal /= float64(w.domCb.Width[kDim]) }
 	wbuf, _ := bweights.ScalarBuffer()
 	vbuf, _ := bbuf.VectorBuffer()
 	vwbuf, _ := bweights.VectorBuffer()
@@ -602,10 +603,11 @@ func (w *domainOverlap2D) Interpolate(
 	}
 
 	length := w.bufCb.Width[iDim]
-	ptVal /= float64(w.bufCb.Width[kDim])
 
 	wlen := bweights.Length()
 	buf, scalar := bbuf.ScalarBuffer()
+	// Velocities are averaged over the points in the column, not its depth.
+	if scalar { ptVal /= float64(w.bufCb.Width[kDim]) }
 	wbuf, _ := bweights.ScalarBuffer()
 	vbuf, _ := bbuf.VectorBuffer()
 	vwbuf, _ := bweights.VectorBuffer()
-- 
2.43.0


From d785c0a984cd60561e433e6dd79b4c6fe36a2cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 04/97] fix: set IsVectorGrid before the header is written

---
 render/io/output.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io/output.go b/render/io/output.go
index cdf611d..c5f91ab 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -152,12 +152,13 @@ func WriteBuffer(
 	hd.Render = render
 	hd.Loc = loc
 
-	binary.Write(wr, end, &hd)
 	if xs, ok := buf.FinalizedScalarBuffer(); ok {
 		hd.Type.IsVectorGrid = 0
+		binary.Write(wr, end, &hd)
 		binary.Write(wr, end, xs)
 	} else if xs, ys, zs, ok := buf.FinalizedVectorBuffer(); ok {
 		hd.Type.IsVectorGrid = 1
+		binary.Write(wr, end, &hd)
 		binary.Write(wr, end, xs)
 		binary.Write(wr, end, ys)
 		binary.Write(wr, end, zs)
-- 
2.43.0


From e9b9374ea40a7c0ddac0316b4ac7d24e31bd1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 05/97] fix: let ReadGrid read projected grids

---
 render/io/output.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/io/output.go b/render/io/output.go
index c5f91ab..3b6f781 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -78,8 +78,12 @@ func ReadGrid(fname string) ([]float64, error) {
         return nil, fmt.Errorf("io.ReadGrid() can only read scalar grids.")
     }
 
-    sp := hd.Loc.PixelSpan
-    val32s := make([]float32, sp[0] * sp[1] * sp[2])
+    // Projected grids have no extent along the projection axis.
+    n := int64(1)
+    for i, sp := range hd.Loc.PixelSpan {
+        if int64(i) != hd.Render.ProjectionAxis { n *= sp }
+    }
+    val32s := make([]float32, n)
     err = binary.Read(f, end, val32s)
     if err != nil { return nil, err }
 
-- 
2.43.0


From b32b43f3ea31aa7eedf62fae653dfd96fad004b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 06/97] fix: write the pixels, particles and axis that were
 rendered to gtet headers

---
 render/main/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 1de47f8..63277bf 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -583,9 +583,11 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 			hd.Cosmo.OmegaL, hd.Cosmo.Z, hd.TotalWidth,
 		)
 
+		// Not every quantity can be projected.
+		axis := ""
+		if _, ok := box.ProjectionAxis(); ok { axis = cBox.ProjectionAxis }
 		renderInfo := io.NewRenderInfo(
-			con.Particles, con.TotalPixels, con.SubsampleLength,
-			cBox.ProjectionAxis,
+			box.Points(), box.Cells(), con.SubsampleLength, axis,
 		)
 
 		io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
-- 
2.43.0


From 0926f41bb502e371e283e666f422a746d4bf682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 07/97] fix: keep balls that touch the edge of the simulation
 inside of it

---
 render/io/config.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 39f8354..a7d0445 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -391,29 +391,23 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 
 	box.XWidth, box.YWidth, box.ZWidth = 2 * rad, 2 * rad, 2 * rad
 
-	if ball.X > rad {
-		box.X = ball.X - rad
-	} else {
-		box.X = ball.X - rad + totalWidth
-	}
-
-	if ball.Y > rad {
-		box.Y = ball.Y - rad
-	} else {
-		box.Y = ball.Y - rad + totalWidth
-	}
-
-	if ball.Z > rad {
-		box.Z = ball.Z - rad
-	} else {
-		box.Z = ball.Z - rad + totalWidth
-	}
+	box.X = ballEdge(ball.X, rad, totalWidth)
+	box.Y = ballEdge(ball.Y, rad, totalWidth)
+	box.Z = ballEdge(ball.Z, rad, totalWidth)
 
 	box.Name = ball.Name
 
 	return box
 }
 
+// ballEdge returns the lower edge of a ball, which is in [0, totalWidth).
+func ballEdge(x, rad, totalWidth float64) float64 {
+	lo := x - rad
+	if lo < 0 { lo += totalWidth }
+	if lo >= totalWidth { lo -= totalWidth }
+	return lo
+}
+
 type BoxConfig struct {
 	// Required
 	X, Y, Z float64
-- 
2.43.0


From 41050196d3418692b71884e4fc00ab4da8133174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 08/97] fix: reject balls with a negative radius

---
 render/io/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/config.go b/render/io/config.go
index a7d0445..87001cc 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -349,7 +349,7 @@ type BallConfig struct {
 }
 
 func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
-	if ball.Radius == 0 {
+	if ball.Radius <= 0 {
 		return fmt.Errorf(
 			"Need to specify a positive radius for Ball '%s'.", name,
 		)
-- 
2.43.0


From d6d36e1c1278e2be56ba58d134d6b47b1a5686da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 09/97] fix: support the documented ProjectionAxis of Balls

---
 render/io/config.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 87001cc..705891d 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -345,6 +345,7 @@ type BallConfig struct {
 
 	// Optional
 	RadiusMultiplier float64
+	ProjectionAxis string
 	Name string
 }
 
@@ -372,6 +373,15 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
+	axis, ok := parseAxis(ball.ProjectionAxis)
+	if !ok {
+		return fmt.Errorf(
+			"ProjectionAxis of Ball '%s' must be one of [X | Y | Z]. '%s' is " + 
+				"not recognized.", name, ball.ProjectionAxis,
+		)
+	}
+	ball.ProjectionAxis = axis
+
 	ball.Name = name
 	if ball.RadiusMultiplier == 0 {
 		ball.RadiusMultiplier = 1
@@ -396,6 +406,7 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 	box.Z = ballEdge(ball.Z, rad, totalWidth)
 
 	box.Name = ball.Name
+	box.ProjectionAxis = ball.ProjectionAxis
 
 	return box
 }
@@ -452,24 +463,26 @@ func (box *BoxConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
-	tmp := box.ProjectionAxis
-	box.ProjectionAxis = strings.Trim(strings.ToUpper(box.ProjectionAxis), " ")
-	if box.ProjectionAxis != "" &&
-		box.ProjectionAxis != "X" &&
-		box.ProjectionAxis != "Y" &&
-		box.ProjectionAxis != "Z" {
-
+	axis, ok := parseAxis(box.ProjectionAxis)
+	if !ok {
 		return fmt.Errorf(
 			"ProjectionAxis of Box '%s' must be one of [X | Y | Z]. '%s' is " + 
-				"not recognized.", name, tmp,
+				"not recognized.", name, box.ProjectionAxis,
 		)
 	}
+	box.ProjectionAxis = axis
 
 	box.Name = name
 
 	return nil
 }
 
+// parseAxis normalizes a ProjectionAxis value.
+func parseAxis(str string) (axis string, ok bool) {
+	axis = strings.Trim(strings.ToUpper(str), " ")
+	return axis, axis == "" || axis == "X" || axis == "Y" || axis == "Z"
+}
+
 func (box *BoxConfig) IsProjection() bool { return box.ProjectionAxis != "" }
 
 type BoundsConfig struct {
-- 
2.43.0


From 494499976f2c605bcee05b1f00d05218c4cb96cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 10/97] fix: let Density be printed

---
 render/density/quantity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/quantity.go b/render/density/quantity.go
index b17327e..7a201b7 100644
--- a/render/density/quantity.go
+++ b/render/density/quantity.go
@@ -15,7 +15,7 @@ const (
 )
 
 func (q Quantity) String() string {
-	if q <= 0 || q >= EndQuantity {
+	if q < 0 || q >= EndQuantity {
 		panic(fmt.Sprintf("Value %d out of range for Quantity type.", q))
 	}
 
-- 
2.43.0


From 25da8c9a6f527c261d144e7d04669baeabd817aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 11/97] fix: reject SubsampleLengths that are not powers of two

---
 render/io/config.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 705891d..a6a565b 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -322,7 +322,7 @@ func (con *RenderConfig) ValidParticles() bool {
 	return con.Particles > 0
 }
 func (con *RenderConfig) ValidSubsampleLength() bool {
-	return con.SubsampleLength > 0
+	return isPowTwo(con.SubsampleLength)
 }
 func (con *RenderConfig) ValidImagePixels() bool {
 	return con.ImagePixels > 0
@@ -581,12 +581,9 @@ func (con *TetraHistConfig) ValidHistScale() bool {
 }
 
 func (con *TetraHistConfig) ValidSubsampleLength() bool {
-	s := con.SubsampleLength
-	if s <= 0 { return false }
+	return isPowTwo(con.SubsampleLength)
+}
 
-	for {
-		if s == 1 { return true }
-		if s % 2 == 1 { return false }
-		s /= 2
-	}
+func isPowTwo(x int) bool {
+	return x > 0 && x & (x - 1) == 0
 }
-- 
2.43.0


From 6c3b429088b043f0fd9881a6b4fe8d7eb5861d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 12/97] fix: check the required settings of [TetraHist]

---
 render/io/config.go | 4 ++++
 render/main/main.go | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index a6a565b..21d8b35 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -580,6 +580,10 @@ func (con *TetraHistConfig) ValidHistScale() bool {
 	return con.HistScale == "Linear" || con.HistScale == "Log"
 }
 
+func (con *TetraHistConfig) ValidParticles() bool {
+	return con.Particles > 0
+}
+
 func (con *TetraHistConfig) ValidSubsampleLength() bool {
 	return isPowTwo(con.SubsampleLength)
 }
diff --git a/render/main/main.go b/render/main/main.go
index 63277bf..074e9bf 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -152,6 +152,14 @@ func main() {
 		} else if !con.ValidSubsampleLength() {
 			log.Fatalf("Invalid 'SubsampleLength' value, %d.",
 				con.SubsampleLength)
+		} else if !con.ValidQuantity() {
+			log.Fatalf("Invalid 'Quantity' value, %s.", con.Quantity)
+		} else if !con.ValidGridFile() {
+			log.Fatal("Invalid/non-existent 'GridFile' value.")
+		} else if !con.ValidParticles() {
+			log.Fatalf("Invalid 'Particles' value, %d.", con.Particles)
+		} else if !con.ValidHistBins() {
+			log.Fatalf("Invalid 'HistBins' value, %d.", con.HistBins)
 		} else if !con.ValidHistScale() {
 			log.Fatalf("Invalid 'HistScale' value, %s.", con.HistScale)
 		} else if !con.ValidHistMin() || !con.ValidHistMax() {
-- 
2.43.0


From 3635fa617ebe5993a889ce6c6d94a9f8979e9ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 13/97] fix: read headers in binary mode in gotetra.py

---
 python/gotetra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gotetra.py b/python/gotetra.py
index 1e5ebc3..6771b76 100644
--- a/python/gotetra.py
+++ b/python/gotetra.py
@@ -66,7 +66,7 @@ def read_header(filename):
     """ read_header returns the header information at the top of a gotetra
     output file as a Header object.
     """
-    with open(filename, "r") as fp:
+    with open(filename, "rb") as fp:
         flag_s = fp.read(8)
         ver = _read_version(flag_s)
         sizes = Sizes(ver)
-- 
2.43.0


From 8d23f20bc54b6b4102b2d6a15e0b06bda9dc3eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 14/97] fix: give the cosmology fields of gtet.File their right
 names

---
 python/gtet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/gtet.py b/python/gtet.py
index 46c59e0..3f47d05 100644
--- a/python/gtet.py
+++ b/python/gtet.py
@@ -24,7 +24,9 @@ class File(object):
 
         Header fields:
                   z - Redshift.
+              scale - Scale factor, 1 / (1 + z).
             omega_m - (rho_m/rho_c)(z=0).
+            omega_l - (rho_lambda/rho_c)(z=0).
                h100 - H0 / 100 (km/s/Mpx).
               count - Number of paritlces in the box.
         count_width - count^(1/3).
@@ -50,7 +52,8 @@ class File(object):
         position_bounds = struct.unpack("ffffff", fp.read(6*4))
         velocity_bounds = struct.unpack("ffffff", fp.read(6*4))
         
-        self.z, self.scale, self.omega_m, self.h100 = cosmo_info
+        self.z, self.omega_m, self.omega_l, self.h100 = cosmo_info
+        self.scale = 1 / (1 + self.z)
         (self.count, self.count_width,
          self.segment_width, self.grid_width, self.grid_count,
          self.file_idx, self.file_cells) = index_info
-- 
2.43.0


From ae5d7a0379161f4c4559c0f027a5cad381b64eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 15/97] fix: read Gadget headers in the byte order that was
 asked for

---
 render/io/io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 7f351b7..97ba3e8 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -142,7 +142,7 @@ func ReadGadgetHeader(path string, order binary.ByteOrder, variant string) *Cata
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	binary.Read(f, order, gh)
 
 	h := gh.Standardize()
 	return h
@@ -168,7 +168,7 @@ func ReadGadgetParticlesAt(
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	binary.Read(f, order, gh)
 	_ = readInt32(f, order)
 
 	h := gh.Standardize()
-- 
2.43.0


From 89e1bc14e2f8739d106410e8b0f08b27387a3bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 16/97] fix: read 32-bit Gadget IDs as unsigned integers

---
 render/io/io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 97ba3e8..6cf2317 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -522,11 +522,11 @@ func readInt64AsByte(rd io.Reader, end binary.ByteOrder, buf []int64) error {
 	return nil
 }
 
-// readInt64AsByte reads int32 values from rd and converts them into an int64
+// readInt32AsByte reads uint32 values from rd and converts them into an int64
 // buffer.
 func readInt32AsByte(rd io.Reader, end binary.ByteOrder, buf64 []int64) error {
 	bufLen := len(buf64)
-	buf := make([]int32, bufLen)
+	buf := make([]uint32, bufLen)
 	
 	hd := *(*reflect.SliceHeader)(unsafe.Pointer(&buf))
 	hd.Len *= 4
-- 
2.43.0


From 361293353459e68c301013dfac3d6f1fed6502e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 17/97] fix: keep wrapped Gadget positions inside of the box

---
 render/io/io.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/io/io.go b/render/io/io.go
index 6cf2317..5bced09 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -241,6 +241,8 @@ func ReadGadgetParticlesAt(
 	for i := range xs {
 		for j := 0; j < 3; j++ {
 			xs[i][j] = float32(gh.WrapDistance(float64(xs[i][j])))
+			// Rounding to float32 can move small negative positions to BoxSize.
+			if float64(xs[i][j]) >= gh.BoxSize { xs[i][j] = 0 }
 			vs[i][j] = vs[i][j] * rootA
 		}
 	}
-- 
2.43.0


From 9cce08486f64a06a64e9e9bf40611ee36bda310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 18/97] fix: swap all eight bytes of double precision Gadget
 vectors

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index 5bced09..9bc7182 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -450,7 +450,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	if !isSysOrder(end) {
 		for i := 0; i < bufLen * 3; i++ {
 			for j := 0; j < 4; j++ {
-				idx1, idx2 := i*8 + j, i*8 + 3 - j
+				idx1, idx2 := i*8 + j, i*8 + 7 - j
 				byteBuf[idx1], byteBuf[idx2] = byteBuf[idx2], byteBuf[idx1]
 			}
 		}
-- 
2.43.0


From ab14e45ebae85a0a2ca40edf2fe6229e9e9d7bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 19/97] fix: return errors for sheet files with bad starts

---
 render/io/io.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 9bc7182..40b719a 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -283,10 +283,22 @@ func readSheetHeaderAt(
 	f, err := os.OpenFile(file, os.O_RDONLY, os.ModePerm)
 	if err != nil { return nil, binary.LittleEndian, err }
 
+	// Don't leak the file if it turns out not to be a sheet.
+	ok := false
+	defer func() { if !ok { f.Close() } }()
+
 	// order doesn't matter for this read, since flags are symmetric.
-	order := endianness(readInt32(f, binary.LittleEndian))
+	var flag, headerSize int32
+	err = binary.Read(f, binary.LittleEndian, &flag)
+	if err != nil { return nil, binary.LittleEndian, err }
+	if flag != 0 && flag != -1 {
+		return nil, binary.LittleEndian,
+		fmt.Errorf("Unrecognized endianness flag, %d, in %s.", flag, file)
+	}
+	order := endianness(flag)
 
-	headerSize := readInt32(f, order)
+	err = binary.Read(f, order, &headerSize)
+	if err != nil { return nil, binary.LittleEndian, err }
 	if headerSize != int32(unsafe.Sizeof(SheetHeader{})) {
 		return nil, binary.LittleEndian, 
 		fmt.Errorf("Expected catalog.SheetHeader size of %d, found %d.",
@@ -301,6 +313,7 @@ func readSheetHeaderAt(
 	if err != nil { return nil, binary.LittleEndian, err }
 
 	hdBuf.Count = hdBuf.CountWidth*hdBuf.CountWidth*hdBuf.CountWidth
+	ok = true
 	return f, order, nil
 }
 
-- 
2.43.0


From 8da0408e6e7264c0ad86607350f06483992d1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 20/97] fix: report the errors of ReadSheetPositionsAt

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index 40b719a..cf0ffc5 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -329,7 +329,7 @@ func ReadSheetHeaderAt(file string, hdBuf *SheetHeader) error {
 func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
-	if err != nil { return nil }
+	if err != nil { return err }
 
 	if h.GridCount != int64(len(xsBuf)) {
 		return fmt.Errorf("Position buffer has length %d, but file %s has %d "+ 
-- 
2.43.0


From 33124761867349d352a17d6f2559bb0eb5781e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 21/97] fix: do not accept partially read particle blocks

---
 render/io/io.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index cf0ffc5..3904cb0 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -430,7 +430,7 @@ func readVecAsByte(rd io.Reader, end binary.ByteOrder, buf []geom.Vec) error {
 	hd.Cap *= 12
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -457,7 +457,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	hd.Cap *= 24
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -519,7 +519,7 @@ func readInt64AsByte(rd io.Reader, end binary.ByteOrder, buf []int64) error {
 	hd.Cap *= 8
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -548,7 +548,7 @@ func readInt32AsByte(rd io.Reader, end binary.ByteOrder, buf64 []int64) error {
 	hd.Cap *= 4
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
-- 
2.43.0


From f42a2610e9a2c76267e56a30da9483dce1768ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 22/97] fix: panic on files without a Gadget header

---
 render/io/io.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 3904cb0..f19f3ca 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -128,6 +128,16 @@ func (h *gadgetHeader) WrapDistance(x float64) float64 {
 	return x
 }
 
+// readGadgetHeader reads the first block of a Gadget file, up to its trailing
+// size, into gh.
+func readGadgetHeader(r io.Reader, order binary.ByteOrder, gh *gadgetHeader) {
+	size := readInt32(r, order)
+	if size != int32(unsafe.Sizeof(gadgetHeader{})) {
+		panic(fmt.Sprintf("Expected a Gadget header of %d bytes, but found %d (this is probably not a Gadget-2 file or has a different endianness)", unsafe.Sizeof(gadgetHeader{}), size))
+	}
+	if err := binary.Read(r, order, gh); err != nil { panic(err) }
+}
+
 // ReadGadgetHeader reads a Gadget catalog and returns a standardized
 // gotetra containing its information. variant is a string that specifies
 // which of the Gadget-2 variants is being used. Currently supported:
@@ -141,8 +151,7 @@ func ReadGadgetHeader(path string, order binary.ByteOrder, variant string) *Cata
 
 	gh := &gadgetHeader{}
 
-	_ = readInt32(f, order)
-	binary.Read(f, order, gh)
+	readGadgetHeader(f, order, gh)
 
 	h := gh.Standardize()
 	return h
@@ -167,8 +176,7 @@ func ReadGadgetParticlesAt(
 	defer f.Close()
 	gh := &gadgetHeader{}
 
-	_ = readInt32(f, order)
-	binary.Read(f, order, gh)
+	readGadgetHeader(f, order, gh)
 	_ = readInt32(f, order)
 
 	h := gh.Standardize()
-- 
2.43.0


From 77678c88b92d55df0ccc719bb3c7337f6af70474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 23/97] fix: panic on Gadget files with truncated blocks

---
 render/io/io.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index f19f3ca..8ce275f 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -210,10 +210,11 @@ func ReadGadgetParticlesAt(
 	}
 
 	if readF32 {
-		readVecAsByte(f, order, xs)
+		err = readVecAsByte(f, order, xs)
 	} else {
-		readVec64AsByte(f, order, xs)
+		err = readVec64AsByte(f, order, xs)
 	}
+	if err != nil { panic(err) }
 	_ = readInt32(f, order)
 
 
@@ -226,22 +227,24 @@ func ReadGadgetParticlesAt(
 		panic(fmt.Sprintf("Internal error: Expected positions block to have header %d or %d, but actually has header %d\n (this is probably a binary file format issues)", f32Size, 2*f32Size, xSize))
 	}
 	if readF32 {
-		readVecAsByte(f, order, vs)
+		err = readVecAsByte(f, order, vs)
 	} else {
-		readVec64AsByte(f, order, vs)
+		err = readVec64AsByte(f, order, vs)
 	}
+	if err != nil { panic(err) }
 	_ = readInt32(f, order)
 	_ = readInt32(f, order)
 
 	if idSize == 64 {
-		readInt64AsByte(f, order, ids)
+		err = readInt64AsByte(f, order, ids)
 	} else if idSize == 32 {
 		runtime.GC()
-		readInt32AsByte(f, order, ids)
+		err = readInt32AsByte(f, order, ids)
 		runtime.GC()
 	} else {
 		panic("ID size other than 32 bits or 64 bits given.")
 	}
+	if err != nil { panic(err) }
 	//_ = readInt32(f, order)
 	
 	// Convert gadget velocities out of code units.
-- 
2.43.0


From 66dc22e6179b2e19bc959503b198b776bd55afa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 24/97] fix: panic if the Gadget IDs are not of the given size

---
 render/io/io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index 8ce275f..cd09a4e 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -233,8 +233,11 @@ func ReadGadgetParticlesAt(
 	}
 	if err != nil { panic(err) }
 	_ = readInt32(f, order)
-	_ = readInt32(f, order)
 
+	idBlock := readInt32(f, order)
+	if uint32(idBlock) != uint32(h.Count * int64(idSize / 8)) {
+		panic(fmt.Sprintf("Expected ID block to have header %d for %d-bit IDs, but actually has header %d (this is probably an incorrect ID size)", h.Count * int64(idSize / 8), idSize, idBlock))
+	}
 	if idSize == 64 {
 		err = readInt64AsByte(f, order, ids)
 	} else if idSize == 32 {
-- 
2.43.0


From 6ca439e91b5fd94df339345e39e9c291d1fda682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 25/97] fix: reject files which are not grids in ReadGrid and
 ReadGridHeader

---
 render/io/output.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/render/io/output.go b/render/io/output.go
index 3b6f781..faeac83 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -60,9 +60,20 @@ func ReadGridHeader(fname string) (*GridHeader, error) {
     f, err := os.Open(fname)
     defer f.Close()
     if err != nil { return nil, err }
+    return readGridHeader(f)
+}
+
+// readGridHeader reads the header at the start of a gotetra grid file.
+func readGridHeader(r io.Reader) (*GridHeader, error) {
     hd := &GridHeader{}
-    err = binary.Read(f, end, hd)
+    err := binary.Read(r, end, hd)
     if err != nil { return nil, err }
+    if hd.EndiannessVersion != EndiannessVersionFlag(end) {
+        return nil, fmt.Errorf(
+            "Not a version %d gotetra grid file, first 8 bytes are %x.",
+            Version, hd.EndiannessVersion,
+        )
+    }
     return hd, nil
 }
 
@@ -70,8 +81,7 @@ func ReadGrid(fname string) ([]float64, error) {
     f, err := os.Open(fname)
     defer f.Close()
     if err != nil { return nil, err }
-    hd := &GridHeader{}
-    err = binary.Read(f, end, hd)
+    hd, err := readGridHeader(f)
     if err != nil { return nil, err }
 
     if hd.Type.IsVectorGrid == 1 {
-- 
2.43.0


From 22779fd04c0e993f1015c69e6b023a554ac25388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 26/97] fix: check the length of binary halo catalogs

---
 render/halo/io.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/render/halo/io.go b/render/halo/io.go
index 3765abe..3d35255 100644
--- a/render/halo/io.go
+++ b/render/halo/io.go
@@ -2,6 +2,7 @@ package halo
 
 import (
 	"encoding/binary"
+	"fmt"
 	"os"
 	"sort"
 
@@ -269,10 +270,19 @@ func asciiColGetter(file string, colIdxs []int) ([][]float64, error) {
 func binaryColGetter(file string, colIdxs []int) ([][]float64, error) {
 	f, err := os.Open(file)
 	if err != nil { return nil, err }
+	defer f.Close()
 
 	n := int64(0)
 	err = binary.Read(f, binary.LittleEndian, &n)
 	if err != nil { return nil, err }
+	info, err := f.Stat()
+	if err != nil { return nil, err }
+	if rowSize := 8 * int64(valNum); n < 0 || n > (info.Size() - 8) / rowSize {
+		return nil, fmt.Errorf(
+			"%s is too short to be a binary Rockstar catalog of %d halos.",
+			file, n,
+		)
+	}
 
 	jump := n * 8
 	cols := make([][]float64, len(colIdxs))
-- 
2.43.0


From 8bc7fbbb1f80e34bf385596b1bab5308e8462f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 27/97] fix: give every sheet segment a file name of its own

---
 render/main/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index 074e9bf..1839b0d 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -392,13 +392,17 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 	shd.GridCount = int64(shd.GridWidth * shd.GridWidth * shd.GridWidth)
 	shd.Cells = int64(cells)
 
+	// All indices are given the same number of digits so that different cells
+	// can't have the same file name.
+	digits := len(fmt.Sprint(cells - 1))
+
 	// Write the data. (x, y, z) indexes over the files.
 	for z := int64(0); z < shd.Cells; z++ {
 		for y := int64(0); y < shd.Cells; y++ {
 			for x := int64(0); x < shd.Cells; x++ {
 				copyToSegment(shd, xs, vs, xsSeg, vsSeg)
 				file := path.Join(outDir, fmt.Sprintf(
-					"sheet%d%d%d.dat", x, y, z,
+					"sheet%0*d%0*d%0*d.dat", digits, x, digits, y, digits, z,
 				))
 				io.WriteSheet(file, shd, xsSeg, vsSeg)
 				runtime.GC()
-- 
2.43.0


From 08acc442987e5bfd230b63daab2bab3d742acb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 28/97] fix: iterate over snapshots until an invalid one if
 IterationEnd is not set

---
 render/main/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index 1839b0d..817148f 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -253,10 +253,12 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 		con.IterationStart = 0
 		con.IterationEnd = 0
 	}
+	// Without an end, iterate until an invalid directory is found.
+	openEnded := !con.ValidIterationEnd()
 
 	// If the user supplied format strings for iterated output, loop over the
 	// iteration range. Otherwise, just use the supplied snapshot.
-	for i := con.IterationStart; i <= con.IterationEnd; i++ {
+	for i := con.IterationStart; openEnded || i <= con.IterationEnd; i++ {
 		input, output := con.Input, con.Output
 		if con.ValidIteratedInput() {
 			input = fmt.Sprintf(con.IteratedInput, i)
@@ -264,6 +266,7 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 		}
 
 		infos, err := ioutil.ReadDir(input)
+		if err != nil && openEnded && i > con.IterationStart { return }
 		if err != nil { log.Fatal(err.Error()) }
 		files := make([]string, len(infos))
 		
-- 
2.43.0


From ad0cb7156a75574edf718f5b077db01fe5de1034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 29/97] fix: reject numbers of Cells which do not divide the
 particle lattice

---
 render/main/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 817148f..3257730 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -359,6 +359,10 @@ func createGrids(
 	}
 
 	hs[0].CountWidth = intCubeRoot(hs[0].TotalCount)
+	if hs[0].CountWidth % int64(con.Cells) != 0 {
+		log.Fatalf("Cannot split %d^3 particles into %d^3 cells.",
+			hs[0].CountWidth, con.Cells)
+	}
 
 	return &hs[0], xs, vs
 }
-- 
2.43.0


From 50471d18beb8e9393e13f3821a3c8fc6299ec04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 30/97] fix: reject incomplete snapshots

---
 render/main/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 3257730..b5ffcce 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -298,6 +298,13 @@ func createGrids(
 	}
 	log.Printf("Input header: %v\n", hs[0])
 
+	count := int64(0)
+	for i := range hs { count += hs[i].Count }
+	if count != hs[0].TotalCount {
+		log.Fatalf("Found %d particles in a snapshot of %d particles.",
+			count, hs[0].TotalCount)
+	}
+
 	// Monitor memory usage.
 	ms := &runtime.MemStats{}
 	runtime.ReadMemStats(ms)
-- 
2.43.0


From 195bf045ed7510dfb03008d7675b6ca3a99b109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 31/97] fix: write the number of particles in the snapshot to
 sheet headers

---
 render/main/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index b5ffcce..2e7b7db 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -397,7 +397,7 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 	shd := &io.SheetHeader{}
 	shd.Cosmo = hd.Cosmo
 	shd.CountWidth = hd.CountWidth
-	shd.Count = hd.Count
+	shd.Count = hd.TotalCount
 	shd.Mass = hd.Mass
 	shd.TotalWidth = hd.TotalWidth
 
-- 
2.43.0


From 77baf155d0a4b8900708d3d2566dde2d9d75792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 32/97] fix: convert the width of the box along with the
 positions

---
 render/main/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/main/main.go b/render/main/main.go
index 2e7b7db..c63725e 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -295,6 +295,7 @@ func createGrids(
 	for i := range hs {
 		hs[i] = *io.ReadGadgetHeader(catalogs[i], gadgetEndianness, con.InputFormat)
 		hs[i].Mass *= con.MUnits
+		hs[i].TotalWidth *= con.XUnits
 	}
 	log.Printf("Input header: %v\n", hs[0])
 
-- 
2.43.0


From fc3318a7c5afcfda2603dbb6e878f32051b50324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 33/97] fix: compute velocity bounds from the particles of the
 segment

---
 render/main/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index c63725e..42f54c2 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -500,8 +500,8 @@ func copyToSegment(shd *io.SheetHeader, xs, vs, xsSeg, vsSeg []geom.Vec) {
 
 	// smallidx is the index within the segment.
 	smallIdx := 0
-	vMin := vs[0]
-	vMax := vs[0]
+	vMin := vs[xStart + N * yStart + N2 * zStart]
+	vMax := vMin
 
 	for z := zStart; z < zStart + shd.GridWidth; z++ {
 		zIdx := z
-- 
2.43.0


From 784a2b4ecc3eaadfd1fc10c08ffcf0aa0782932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 34/97] fix: unwrap tetrahedra which cross the edge of the box
 in histograms

---
 render/hist.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 6f5e5d8..af92ea0 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -352,7 +352,8 @@ func (man *HistManager) getDensities(
 		&man.xs[idxBuf[0]], &man.xs[idxBuf[1]],
 		&man.xs[idxBuf[2]], &man.xs[idxBuf[3]],
 	)
-	
+	man.periodizeTetra(&tet, L)
+
 	bufIdx := rand.Int63n(int64(len(man.unitBufs)))
 	tet.DistributeTetra(man.unitBufs[bufIdx], vecBuf)
 
@@ -403,7 +404,7 @@ func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
 func (man *HistManager) periodizeTetra(tet *geom.Tetra, L float32) {
 	for i := 1; i < 4; i++ {
 		for k := 0; k < 3; k++ {
-			delta := tet.Corners[i][k] - tet.Corners[i][0]
+			delta := tet.Corners[i][k] - tet.Corners[0][k]
 			if delta > L/2 { tet.Corners[i][k] -= L }
 			if delta < -L/2 { tet.Corners[i][k] += L }
 		}
-- 
2.43.0


From c3ea79ad7c6c61106f9b22aebce21a822ebf7513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 35/97] fix: count every cube in subsampled histograms

---
 render/hist.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index af92ea0..40b607c 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -243,9 +243,7 @@ func (man *HistManager) chanHistogram(
 			for y := 0; y < segWidth; y += man.skip {
 				for x := 0; x < segWidth; x += man.skip {
 					idx := x + y*gridWidth + z*gridWidth*gridWidth
-					if idx%(man.skip*man.skip*man.skip*man.workers) != worker {
-						continue
-					}
+					if idx/man.skip%man.workers != worker { continue }
 
 					if !man.cubeIntersects(idx) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
-- 
2.43.0


From d9f1493fffb244649e8087c8a795313779fe24e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 36/97] fix: include the lower edge when looking for points in
 histogram boxes

---
 render/hist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 40b607c..4ba65a9 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -217,7 +217,7 @@ func intersect1D(a, aSpan, b, bSpan, L float64) bool {
 // can be within [0, 2*L).
 func contains1D(a, aSpan, b, L float64) bool {
 	if b >= L { b -= L }
-	return (b > a && a + aSpan > b) ||
+	return (b >= a && a + aSpan > b) ||
 		(b < a && a + aSpan - L > b)
 }
 
-- 
2.43.0


From 717058a743e151cfea4067c1f644b7d821224717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 37/97] fix: cull cubes of histograms by their own bounding box

---
 render/hist.go | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 4ba65a9..0a686fc 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -245,7 +245,7 @@ func (man *HistManager) chanHistogram(
 					idx := x + y*gridWidth + z*gridWidth*gridWidth
 					if idx/man.skip%man.workers != worker { continue }
 
-					if !man.cubeIntersects(idx) { continue }
+					if !man.cubeIntersects(idx, box) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
 						man.getDensities(idx, dir, box, vecBuf, qs, inBox)
 						histogram(qs, inBox, info, hist)
@@ -260,9 +260,9 @@ func (man *HistManager) chanHistogram(
 	out <- worker
 }
 
-// tetIntersects returns true if the cube at idx intersects with the currently
-// loaded sheet.
-func (man *HistManager) cubeIntersects(idx int) bool {
+// cubeIntersects returns true if the cube at idx intersects with the given
+// box.
+func (man *HistManager) cubeIntersects(idx int, box *HistBox) bool {
 	w := int(man.hd.GridWidth)
 	ix := idx % w
 	iy := (idx / w) % w
@@ -272,7 +272,7 @@ func (man *HistManager) cubeIntersects(idx int) bool {
 	if ix < 0 || man.skip + ix >= w ||
 		iy < 0 || man.skip + iy >= w ||
 		iz < 0 || man.skip + iz >= w {
-		panic(fmt.Sprint("Internal inconsistency: attempting to analyze " + 
+		panic(fmt.Sprintf("Internal inconsistency: attempting to analyze " + 
 			"particle (%d %d %d), but SegmentWidth = %d", ix, iy, iz, w))
 	}
 
@@ -280,8 +280,7 @@ func (man *HistManager) cubeIntersects(idx int) bool {
 
 	for k := 0; k < 3; k++ {
 		if !intersect1D(
-			float64(man.hd.Origin[k]), float64(man.hd.Width[k]),
-			float64(origin[k]), float64(span[k]), man.hd.TotalWidth,
+			origin[k], span[k], box.Origin[k], box.Span[k], man.hd.TotalWidth,
 		) {
 			return false
 		}
@@ -289,35 +288,37 @@ func (man *HistManager) cubeIntersects(idx int) bool {
 	return true
 }
 
+// cubeBoundingBox returns the bounding box of the Lagrangian cube at
+// (ix, iy, iz).
 func (man *HistManager) cubeBoundingBox(
 	ix, iy, iz int,
-) (origin, span geom.Vec) {
+) (origin, span [3]float64) {
 	jump := man.skip
-	w, L := int(man.hd.GridWidth), float32(man.hd.TotalWidth)
-	origin, span = man.xs[ix + iy*w + iz*w*w], geom.Vec{ }
+	w, L := int(man.hd.GridWidth), man.hd.TotalWidth
+	for k, x := range man.xs[ix + iy*w + iz*w*w] { origin[k] = float64(x) }
 
-	for dz := 0; dz < jump; dz += jump {
-		for dy := 0; dy < jump; dy += jump {
-			for dx := 0; dx < jump; dx += jump {
+	for dz := 0; dz <= jump; dz += jump {
+		for dy := 0; dy <= jump; dy += jump {
+			for dx := 0; dx <= jump; dx += jump {
 				// Get the vector in each corner of the Lagrangian cube.
 				x, y, z := ix + dx, iy + dy, iz + dz
 				vec := man.xs[x + y*w + z*w*w]
 
 				// Update origin and span in each dimension.
 				for k := 0; k < 3; k++ {
-					delta := vec[k] - origin[k]
+					delta := float64(vec[k]) - origin[k]
 					if delta > L/2 {
 						delta -= L 
 					} else if delta < -L/2 {
 						delta += L 
 					}
 
-					if delta > 0 && delta > span[k] {
+					if delta > span[k] {
 						span[k] = delta
 					} else if delta < 0 {
-						origin[k] -= delta
+						origin[k] += delta
 						if origin[k] < 0 { origin[k] += L }
-						span[k] += delta
+						span[k] -= delta
 					}
 				}
 			}
-- 
2.43.0


From 2f7f0189ab03479bc6ac406ec21deef4cde1b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 38/97] fix: stop when sheet positions cannot be read for a
 histogram

---
 render/hist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 0a686fc..e7fba02 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -167,7 +167,8 @@ func (man *HistManager) HistFromFile(file string, info *HistInfo) error {
 	for bi := range man.boxes {
 		if !histIntersect(&man.hd, &man.boxes[bi]) { continue }
 
-		io.ReadSheetPositionsAt(file, man.xs)
+		err = io.ReadSheetPositionsAt(file, man.xs)
+		if err != nil { return err }
 
 		for id := 0; id < man.workers; id++ {
 			go man.chanHistogram(id, &man.boxes[bi], info, out)
-- 
2.43.0


From b865fada36e07ee339f6d98d169f9f944415ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 39/97] fix: include all four corners in the barycenter of a
 tetrahedron

---
 render/geom/tetra.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 79412a5..c554b89 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -453,7 +453,8 @@ func (t *Tetra) Barycenter() *Vec {
 	}
 
 	for i := 0; i < 3; i++ {
-		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] + t.Corners[2][i]) / 4.0
+		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] +
+			t.Corners[2][i] + t.Corners[3][i]) / 4.0
 	}
 
 	t.baryValid = true
-- 
2.43.0


From 73f657183e8e8d5ae55c1c516ff416cccf974888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 40/97] fix: check y and z when centering tetrahedra on a
 particle

---
 render/geom/tetra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index c554b89..0cecac8 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -122,9 +122,9 @@ func compressCoordsCheck(
 
 	if newX >= countWidth || newX < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 {
+	} else if newY >= countWidth || newY < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 { 
+	} else if newZ >= countWidth || newZ < 0 {
 		return -1, false
 	}	
 
-- 
2.43.0


From bc75a9a01843b8b6993e3a5dd5e7d7c88f52e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 41/97] fix: do not round the upper edge of a tetrahedron in
 CellBounds

---
 render/geom/tetra.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 0cecac8..168058c 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -489,17 +489,8 @@ func (t *Tetra) CellBoundsAt(cellWidth float64, cb *CellBounds) {
 	}
 
 	for i := 0; i < 3; i++ {
-		maxes[i] -= mins[i]
-	}
-	width := maxes
-	origin := mins
-
-
-	for i := 0; i < 3; i++ {
-		cb.Origin[i] = int(math.Floor(float64(origin[i]) / cellWidth))
-		cb.Width[i] = 1 + int(math.Floor(
-			float64(width[i] + origin[i]) / cellWidth),
-		)
+		cb.Origin[i] = int(math.Floor(float64(mins[i]) / cellWidth))
+		cb.Width[i] = 1 + int(math.Floor(float64(maxes[i]) / cellWidth))
 		cb.Width[i] -= cb.Origin[i]
 	}
 }
-- 
2.43.0


From c3f3ce0f353fc2008bcb9d5b550e4ff537c8ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 42/97] fix: compute v1 x v2 rather than v2 x v1 in Vec.Cross

---
 render/geom/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index 7ba4d3f..4b7cbc5 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -125,7 +125,7 @@ func (v1 *Vec) CrossSelf(v2 *Vec) *Vec {
 	return v1.CrossAt(v2, v1)
 }
 
-func (v2 *Vec) CrossAt(v1, out *Vec) *Vec {
+func (v1 *Vec) CrossAt(v2, out *Vec) *Vec {
 	out0 := v1[1]*v2[2] - v1[2]*v2[1]
 	out1 := v1[2]*v2[0] - v1[0]*v2[2]
 	out2 := v1[0]*v2[1] - v1[1]*v2[0]
-- 
2.43.0


From 31d0788af15d94c435fffb2e6301dc6293e3e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 43/97] fix: keep Vec.Mod within the box

---
 render/geom/vec.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index 4b7cbc5..037d669 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -42,12 +42,14 @@ func (v *Vec) ModSelf(width float64) *Vec {
 func (v *Vec) ModAt(width float64, out *Vec) *Vec {
 	w := float32(width)
 	for i := 0; i < 3; i++ {
-		out[i] = v[i]
-		if out[i] >= w {
-			out[i] -= w
-		} else if out[i] < 0 {
+		out[i] = float32(math.Mod(float64(v[i]), float64(w)))
+		if out[i] < 0 {
 			out[i] += w
 		}
+		// Small negative values can be rounded up to the width.
+		if out[i] >= w {
+			out[i] = 0
+		}
 	}
 	return out
 }
-- 
2.43.0


From ce5a2f76f3c9830f85568e35b391171737ac4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 44/97] fix: keep particles on the lower edge of their block
 when scaling

---
 render/geom/grid.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index f8bf107..0320da9 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -167,7 +167,7 @@ func (vcb *CellBounds) ScaleVecsSegment(
 		for j := 0; j < 3; j++ { 
 			vs[i][j] *= scale
 			vs[i][j] = vs[i][j] - origin[j]
-			if vs[i][j] < 0 { vs[i][j] += fCells }
+			vs[i][j] = wrapOffset(vs[i][j], fCells)
 		}
 	}
 }
@@ -202,12 +202,22 @@ func (vcb *CellBounds) ScaleVecsDomain(
 		for j := 0; j < 3; j++ { 
 			vs[i][j] *= scale
 			vs[i][j] = vs[i][j] - origin[j]
-			if vs[i][j] < 0 { vs[i][j] += fCells }
+			vs[i][j] = wrapOffset(vs[i][j], fCells)
 			vs[i][j] += diff[j]
 		}
 	}
 }
 
+// wrapOffset moves an offset from the origin of a block of cells into the
+// periodic domain. Offsets which are only negative because of rounding stay on
+// the lower edge of the block instead of being moved to the other side of the
+// domain.
+func wrapOffset(x, cells float32) float32 {
+	if x >= 0 { return x }
+	if x > -1e-6 * cells { return 0 }
+	return x + cells
+}
+
 func maxV(vs []Vec, dim int) float32 {
 	max := vs[0][dim]
 	for i := range vs {
-- 
2.43.0


From 240f524cd0dea8b34baa7aaac010fb5cc75b63b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:26 +0000
Subject: [PATCH 45/97] fix: make Grid.Coords the inverse of Grid.Idx

---
 render/geom/grid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index 0320da9..97310fb 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -88,7 +88,7 @@ func (g *Grid) Coords(idx int) (x, y, z int) {
 	x = idx % g.Length
 	y = (idx % g.Area) / g.Length
 	z = idx / g.Area
-	return x, y, z
+	return x + g.Origin[0], y + g.Origin[1], z + g.Origin[2]
 }
 /*
 // pMod computes the positive modulo x % y.
-- 
2.43.0


From 0eeec5d1d5cd1e8aebef17e2d88b42c969c096e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 46/97] fix: use the z neighbours at the z edges of grid
 derivatives

---
 render/geom/deriv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 81f1036..b254f14 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -95,7 +95,7 @@ func (g *Grid) wrapDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.wrapDeriv(idx, 1, pos, g.Width[2])
+					d.wrapDeriv(idx, g.Area, pos, g.Width[2])
 				}
 			}
 		}
@@ -132,7 +132,7 @@ func (g *Grid) edgesDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.edgeDeriv(idx, 1, pos)
+					d.edgeDeriv(idx, g.Area, pos)
 				}
 			}
 		}
-- 
2.43.0


From a42a2b55560b0998d700952ef3e00a90ee6f6f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 47/97] fix: leave the options of Curl and Divergence alone

---
 render/geom/deriv.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index b254f14..a161438 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -324,11 +324,9 @@ func (g *GridLocation) Curl(
 	op *DerivOptions,
 ) {
 	// We can't change and revert due to thread safety.
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 
 	g.Deriv(vecs[2], out[0], 1, op)
 	g.Deriv(vecs[0], out[1], 2, op)
@@ -344,11 +342,9 @@ func (g *GridLocation) Divergence(
 	vecs [3][]float32, out []float32,
 	op *DerivOptions,
 ) {
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 	g.Deriv(vecs[0], out, 0, op)
 	op.Op = Add
 	g.Deriv(vecs[1], out, 1, op)
-- 
2.43.0


From 9b897381456a685e43def3b92732ee1cb768ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 48/97] fix: use the y velocity in velocity divergences

---
 render/density/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 4375006..d4b8a55 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -351,7 +351,7 @@ func (buf *divergenceBuffer) FinalizedScalarBuffer() (vals []float32, ok bool) {
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		vecs[0][i] = float32(vec[0])/n
-		vecs[1][i] = float32(vec[0])/n
+		vecs[1][i] = float32(vec[1])/n
 		vecs[2][i] = float32(vec[2])/n
 	} 
 
-- 
2.43.0


From 80af1d6d29ad3b0ad4b45fbc80cf65cd98557811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 49/97] fix: interpolate along z with the z nodes

---
 math/interpolate/linear_interpolators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/linear_interpolators.go b/math/interpolate/linear_interpolators.go
index 5b24db6..f059edd 100644
--- a/math/interpolate/linear_interpolators.go
+++ b/math/interpolate/linear_interpolators.go
@@ -282,7 +282,7 @@ func NewUniformTriLinear(
 func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	ix := tri.xs.search(x)
 	iy := tri.ys.search(y)
-	iz := tri.ys.search(z)
+	iz := tri.zs.search(z)
 
 	dix, diy, diz := 1, tri.nx, tri.nx*tri.ny
 	i := ix + iy*tri.nx + iz*tri.ny*tri.nx
@@ -298,7 +298,7 @@ func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	
 	x1, x2 := tri.xs.val(ix), tri.xs.val(ix + 1)
 	y1, y2 := tri.ys.val(iy), tri.ys.val(iy + 1)
-	z1, z2 := tri.ys.val(iz), tri.ys.val(iz + 1)
+	z1, z2 := tri.zs.val(iz), tri.zs.val(iz + 1)
 	
 	xd := (x - x1) / (x2 - x1)
 	yd := (y - y1) / (y2 - y1)
-- 
2.43.0


From 85dabb0beffbedff0c53a9a467de68a2e801fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 50/97] fix: let linear interpolators look up decreasing nodes

---
 math/interpolate/search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/math/interpolate/search.go b/math/interpolate/search.go
index a417fe9..bd9f0b2 100644
--- a/math/interpolate/search.go
+++ b/math/interpolate/search.go
@@ -33,7 +33,9 @@ func (s *searcher) unifInit(x0, dx float64, n int) {
 
 
 func (s *searcher) search(x float64) int {
-	if x > s.lim || x < s.x0 {
+	lo, hi := s.x0, s.lim
+	if !s.incr { lo, hi = hi, lo }
+	if x > hi || x < lo {
 		panic(fmt.Sprintf(
 			"Value %g out of range bounds [%g, %g]", x, s.x0, s.lim,
 		))
-- 
2.43.0


From d7649fb6d72dd3d4ad3de91b07e4bd34b66584a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 51/97] fix: integrate splines from points between the nodes

---
 math/interpolate/spline.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 5f84666..8c3965d 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -144,21 +144,25 @@ func (sp *Spline) Integrate(lo, hi float64) float64 {
 
 	iLo, iHi := sp.bsearch(lo), sp.bsearch(hi)
 	if iLo == iHi {
-		return integTerm(&sp.coeffs[iLo], lo, hi)
+		return sp.integTerm(iLo, lo, hi)
 	}
-	sum := integTerm(&sp.coeffs[iLo], lo, sp.xs[iLo+1]) +
-		integTerm(&sp.coeffs[iHi], sp.xs[iHi], hi)
+	sum := sp.integTerm(iLo, lo, sp.xs[iLo+1]) +
+		sp.integTerm(iHi, sp.xs[iHi], hi)
 
 	for i := iLo + 1; i < iHi; i++ {
-		sum += integTerm(&sp.coeffs[i], sp.xs[i], sp.xs[i + 1])
+		sum += sp.integTerm(i, sp.xs[i], sp.xs[i + 1])
 	}
 	return sum
 }
 
-func integTerm(coeff *splineCoeff, lo, hi float64) float64 {
+// integTerm integrates the cubic starting at the ith node from lo to hi.
+func (sp *Spline) integTerm(i int, lo, hi float64) float64 {
+	coeff := &sp.coeffs[i]
 	a, b, c, d := coeff.a, coeff.b, coeff.c, coeff.d
-	dx := hi - lo
-	return a*dx*dx*dx*dx/4 + b*dx*dx*dx/3 + c*dx*dx/2 + d*dx
+	prim := func(dx float64) float64 {
+		return dx*(d + dx*(c/2 + dx*(b/3 + dx*a/4)))
+	}
+	return prim(hi - sp.xs[i]) - prim(lo - sp.xs[i])
 }
 
 // bsearch returns the the index of the largest element in xs which is smaller
-- 
2.43.0


From 4ff1e55d4d24237202954c13f65b75cbe8602593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 52/97] fix: make splines through two points

---
 math/interpolate/spline.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 8c3965d..899dd4c 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -206,6 +206,7 @@ func (sp *Spline) calcY2s() {
 	// zero. Better yet, they could be set to something computed via finite
 	// differences.
 	sp.y2s[0], sp.y2s[n-1] = 0, 0
+	if n == 2 { return }
 
 	xs, ys := sp.xs, sp.ys
 	for i := range rs {
-- 
2.43.0


From 4120dd61347a9f92f8a0afbab319b6e8be03ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 53/97] fix: differentiate and integrate splines with
 decreasing nodes

---
 math/interpolate/spline.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 899dd4c..d071d73 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -109,7 +109,7 @@ func (sp *Spline) EvalAll(xs []float64, out ...[]float64) []float64 {
 //
 // x must be within the range of x values given to NewSpline().
 func (sp *Spline) Deriv(x float64, order int) float64 {
-	if x < sp.xs[0] == sp.incr || x > sp.xs[len(sp.xs)-1] == sp.incr {
+	if !sp.contains(x) {
 		panic(fmt.Sprintf("Point %g given to Spline.Differentiate() " + 
 			"out of bounds.", x))
 	}
@@ -133,11 +133,11 @@ func (sp *Spline) Deriv(x float64, order int) float64 {
 
 // Integrate integrates the spline from lo to hi.
 func (sp *Spline) Integrate(lo, hi float64) float64 {
-	if lo > hi { return -sp.Integrate(hi, lo) }
-	if lo < sp.xs[0] == sp.incr || lo > sp.xs[len(sp.xs)-1] == sp.incr {
+	if lo != hi && lo > hi == sp.incr { return -sp.Integrate(hi, lo) }
+	if !sp.contains(lo) {
 		panic(fmt.Sprintf("Low bound %g in Spline.Integrate() " + 
 			"out of bounds.", lo))
-	} else if hi < sp.xs[0] == sp.incr || hi > sp.xs[len(sp.xs)-1] == sp.incr {
+	} else if !sp.contains(hi) {
 		panic(fmt.Sprintf("High bound %g in Spline.Integrate() " + 
 			"out of bounds.", hi))
 	}
@@ -165,6 +165,14 @@ func (sp *Spline) integTerm(i int, lo, hi float64) float64 {
 	return prim(hi - sp.xs[i]) - prim(lo - sp.xs[i])
 }
 
+// contains returns true if x is within the range of x values given to
+// NewSpline().
+func (sp *Spline) contains(x float64) bool {
+	lo, hi := sp.xs[0], sp.xs[len(sp.xs)-1]
+	if !sp.incr { lo, hi = hi, lo }
+	return x >= lo && x <= hi
+}
+
 // bsearch returns the the index of the largest element in xs which is smaller
 // than x.
 func (sp *Spline) bsearch(x float64) int {
-- 
2.43.0


From 47b90fccff8f101ebc5419bbe21fd74eefa258c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 54/97] fix: place products of non-square matrices by their own
 width

---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index fd1dcf3..a1c6e0e 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -66,7 +66,7 @@ func (m1 *Matrix) MultAt(m2, out *Matrix) *Matrix {
 	for i := 0; i < m1.Height; i++ {
 		off := i*m1.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := i*m2.Width + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 2532a08..10e2f21 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -59,7 +59,7 @@ func (m1 *Matrix32) MultAt(m2, out *Matrix32) *Matrix32 {
 	for i := 0; i < m1.Height; i++ {
 		off := i*m1.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := i*m2.Width + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
-- 
2.43.0


From f813f8761fa71a8af8630dfeb4860254ce8c4308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 55/97] fix: apply the row exchanges of LU factors in order

---
 math/mat/mat.go   | 3 ++-
 math/mat/mat32.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index a1c6e0e..c00c73e 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -297,8 +297,9 @@ func (luf *LUFactors) SolveVector(bs, xs []float64) []float64 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst(n int, pivot []int, lu, bs, ys []float64) {
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := 0.0
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 10e2f21..2b77051 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -201,8 +201,9 @@ func (luf *LUFactors32) SolveVector(bs, xs []float32) []float32 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst32(n int, pivot []int, lu, bs, ys []float32) {
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := float32(0.0)
-- 
2.43.0


From 3378ce5faef0f1238b18094ca94811b69fe02ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 56/97] fix: solve for the given right-hand side in SolveMatrix

---
 math/mat/mat.go   | 4 ++--
 math/mat/mat32.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index c00c73e..8a804b7 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -326,7 +326,7 @@ func backSubst(n int, lu, ys, xs []float64) {
 // 
 // x and b may point to the same physical memory.
 func (luf *LUFactors) SolveMatrix(b, x *Matrix) *Matrix {
-	xs := x.Vals
+	bs, xs := b.Vals, x.Vals
 	n := luf.lu.Width
 
 	if b.Width != b.Height {
@@ -343,7 +343,7 @@ func (luf *LUFactors) SolveMatrix(b, x *Matrix) *Matrix {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = bs[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 2b77051..a1cb737 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -230,7 +230,7 @@ func backSubst32(n int, lu, ys, xs []float32) {
 // 
 // x and b may point to the same physical memory.
 func (luf *LUFactors32) SolveMatrix(b, x *Matrix32) *Matrix32 {
-	xs := x.Vals
+	bs, xs := b.Vals, x.Vals
 	n := luf.lu.Width
 
 	if b.Width != b.Height {
@@ -247,7 +247,7 @@ func (luf *LUFactors32) SolveMatrix(b, x *Matrix32) *Matrix32 {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = bs[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
-- 
2.43.0


From b1718fdbcf773814ae6997790c4647a374b79e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 57/97] fix: keep rows in place where a column has no pivot

---
 math/mat/mat.go   | 1 +
 math/mat/mat32.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index 8a804b7..8bd001a 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -241,6 +241,7 @@ func (lu *LUFactors) factorizeInPlace() {
 	var imax int
 	for k := 0; k < n; k++ {
 		big := 0.0
+		imax = k
 		for i := k; i < n; i++ {
 			tmp := vv[i] * math.Abs(m.Vals[i*n + k])
 			if tmp > big {
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index a1cb737..ea686c6 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -145,6 +145,7 @@ func (lu *LUFactors32) factorizeInPlace() {
 	var imax int
 	for k := 0; k < n; k++ {
 		big := float32(0.0)
+		imax = k
 		for i := k; i < n; i++ {
 			tmp := vv[i] * float32(math.Abs(float64(m.Vals[i*n + k])))
 			if tmp > big {
-- 
2.43.0


From d99080a8161a44617a72a57b8b2240593eddb57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 58/97] fix: wrap series at their length under periodic
 boundaries

---
 math/interpolate/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index f4ae577..1b57fc0 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -33,7 +33,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	switch {
 	case i < 0:
 		switch b {
-		case Periodic: return xs[len(xs) - 1 + i]
+		case Periodic: return xs[len(xs) + i]
 		case Reflection: return xs[-(i + 1)]
 		case ZeroPad: return 0
 		case Extension: return xs[0]
@@ -94,7 +94,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			idx := i + j - k.center
 			if idx < 0 {
 				switch b {
-				case Periodic: x = xs[(n - 1) + idx]
+				case Periodic: x = xs[n + idx]
 				case Reflection: x = xs[-(idx - 1)]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
-- 
2.43.0


From 3e737161027edeb67db633b17992304a0b7a7d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:35 +0000
Subject: [PATCH 59/97] fix: reflect series about their ends in the same way
 everywhere

---
 math/interpolate/filter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index 1b57fc0..f5fca3f 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -42,7 +42,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	case i >= len(xs):
 		switch b {
 		case Periodic: return xs[i - len(xs)]
-		case Reflection: return xs [(len(xs)-1) - (i - len(xs)-1)]
+		case Reflection: return xs[(len(xs)-1) - (i - len(xs))]
 		case ZeroPad: return 0
 		case Extension: return xs[len(xs) - 1]
 		}
@@ -95,7 +95,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			if idx < 0 {
 				switch b {
 				case Periodic: x = xs[n + idx]
-				case Reflection: x = xs[-(idx - 1)]
+				case Reflection: x = xs[-(idx + 1)]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
 				}
@@ -121,7 +121,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			if idx >= n {
 				switch b {
 				case Periodic: x = xs[idx - n]
-				case Reflection: x = xs[2*(n-1) - idx]
+				case Reflection: x = xs[(n - 1) - (idx - n)]
 				case ZeroPad: x = 0
 				case Extension: x = xs[n - 1]
 				}
-- 
2.43.0


From 35145c2ef10b8ac536285361fff71dcd05e019d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 60/97] fix: start Sobol sequences at their first point

---
 math/rand/sobol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 9d6cad6..09ba0da 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -87,12 +87,11 @@ func (seq *SobolSequence) NextAt(target []float64) {
 		)
 	}
 
-	seq.seqNum++
-
 	zeroIdx := uint32(0)
 	for zeroIdx = 0; zeroIdx < MaxBit; zeroIdx++ {
 		if (seq.seqNum & (1<<zeroIdx)) == 0 { break }
 	}
+	seq.seqNum++
 
 	im := zeroIdx * MaxDim
 	for k := uint32(0); k < dim; k++ {
-- 
2.43.0


From 2bdaff7ccf2935fba6d0b45c49635e5d001d5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 61/97] fix: restart Sobol sequences from the first point

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 09ba0da..a44230d 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -39,8 +39,8 @@ func NewSobolSequence() *SobolSequence {
 // See Press et al. 2007.
 func (seq *SobolSequence) Init() {
 	for i := range seq.ix { seq.ix[i] = 0 }
-	if seq.isInit { return }
 	seq.seqNum = 0
+	if seq.isInit { return }
 
 	seq.iv = initIv
 	seq.ip = initIp
-- 
2.43.0


From ee81da74f99ad6f2be7c86da280d76897f2d5e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 62/97] fix: combine the right direction numbers of Sobol
 sequences

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index a44230d..e9525f5 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -58,7 +58,7 @@ func (seq *SobolSequence) Init() {
 			i ^= (i >> deg)
 
 			for l := deg - 1; l >= 1; l-- {
-				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - 1) + k] }
+				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - l) + k] }
 				ipp >>= 1
 			}
 
-- 
2.43.0


From e5fcef1eb86c5ca5122a92b8bebaf4073f93a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 63/97] fix: count the values of percentiles from one

---
 math/sort/median.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index c6c0d45..22bdad8 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -10,7 +10,7 @@ func Percentile(xs []float64, p float64, buf ...[]float64) float64 {
 	n := int(p * float64(len(xs)))
 	if n == len(xs) { n-- }
 
-	return NthLargest(xs, n, buf...)
+	return NthLargest(xs, n + 1, buf...)
 }
 
 func Median(xs []float64, buf ...[]float64) float64 {
-- 
2.43.0


From df52a34d57a9e54bf8e99d7a1a886c4485b9a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 64/97] fix: take the middle value as the median of odd numbers
 of values

---
 math/sort/median.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index 22bdad8..5ea5d65 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -18,7 +18,7 @@ func Median(xs []float64, buf ...[]float64) float64 {
 		panic("xs empty in call to Median(xs)")
 	}
 
-	return NthLargest(xs, len(xs) / 2, buf...)
+	return NthLargest(xs, (len(xs) + 1) / 2, buf...)
 }
 
 // Remember that this function is 1-indexed.
-- 
2.43.0


From 2a33a941621a40b867156cd25ec6ff492947d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 65/97] fix: return the values themselves as derivatives of
 order zero

---
 math/calc/deriv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index 31d4adc..c9ffa60 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -34,7 +34,7 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 	}
 
 	if order == 0 {
-		for i := range xs { out[i] = xs[i] }
+		for i := range ys { out[i] = ys[i] }
 	} else if order == 2 {
 		for i := 1; i < n - 1; i++ {
 			out[i] = (ys[i+1] - ys[i-1]) / (xs[i+1] - xs[i-1])
-- 
2.43.0


From 1bb83bd196e6f075480597f56b40ee69ac560018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 66/97] fix: divide fourth-order derivatives by the width of
 their stencil

---
 math/calc/deriv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index c9ffa60..a8b04fe 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -44,7 +44,7 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 	} else if order == 4 {
 		for i := 2; i < n - 2; i++ {
 			out[i] = (-ys[i+2] + 8*ys[i+1] - 8*ys[i-1] + ys[i-2]) /
-				(3*(xs[i+2] - xs[i-1]))
+				(3*(xs[i+2] - xs[i-2]))
 		}
 
 		out[0] = ((-3*ys[4] + 16*ys[3] - 36*ys[2] + 48*ys[1] -
-- 
2.43.0


From 43d5bbacc9c3bfbc3b0bb9658e66ceca50643a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:54 +0000
Subject: [PATCH 67/97] fix: differentiate unevenly spaced points

---
 math/calc/deriv.go | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index a8b04fe..c7bfe55 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -35,28 +35,33 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 
 	if order == 0 {
 		for i := range ys { out[i] = ys[i] }
-	} else if order == 2 {
-		for i := 1; i < n - 1; i++ {
-			out[i] = (ys[i+1] - ys[i-1]) / (xs[i+1] - xs[i-1])
+	} else if order == 2 || order == 4 {
+		for i := range out {
+			// The order + 1 points closest to i on both sides.
+			lo := i - order/2
+			if lo + order >= n { lo = n - 1 - order }
+			if lo < 0 { lo = 0 }
+			out[i] = polyDeriv(xs[lo: lo+order+1], ys[lo: lo+order+1], i - lo)
 		}
-		out[0] = (-3*ys[0] + 4*ys[1] - ys[2]) / (xs[2] - xs[0])
-		out[n-1] = -(-3*ys[n-1] + 4*ys[n-2] - ys[n-3]) / (xs[n-1] - xs[n-3])
-	} else if order == 4 {
-		for i := 2; i < n - 2; i++ {
-			out[i] = (-ys[i+2] + 8*ys[i+1] - 8*ys[i-1] + ys[i-2]) /
-				(3*(xs[i+2] - xs[i-2]))
-		}
-
-		out[0] = ((-3*ys[4] + 16*ys[3] - 36*ys[2] + 48*ys[1] -
-			25*ys[0]) / (3*(xs[4] - xs[0])))
-		out[n-2]= ((-3*ys[n-1] - 10*ys[n-2] + 18*ys[n-3] - 6*ys[n-4] +
-			ys[n-5]) / (3*(xs[n-5] - xs[n-1])))
-		out[1]= ((-3*ys[0] - 10*ys[1] + 18*ys[2] - 6*ys[3] +
-			ys[4]) / (3*(xs[4] - xs[0])))
-		out[n-1] = ((-3*ys[n-5] + 16*ys[n-4] - 36*ys[n-3] + 48*ys[n-2] -
-			25*ys[n-1]) / (3*(xs[n-5] - xs[n-1])))
 	} else {
 		panic("Invalid order.")
 	}
 	return out
 }
+
+// polyDeriv returns the derivative at xs[i] of the polynomial which passes
+// through every point.
+func polyDeriv(xs, ys []float64, i int) float64 {
+	sum := 0.0
+	for j := range xs {
+		if j == i { continue }
+		// Derivative of the jth Lagrange polynomial at xs[i]. Those of all of
+		// them sum to zero.
+		c := 1 / (xs[j] - xs[i])
+		for k := range xs {
+			if k != i && k != j { c *= (xs[i] - xs[k]) / (xs[j] - xs[k]) }
+		}
+		sum += c * (ys[j] - ys[i])
+	}
+	return sum
+}
-- 
2.43.0


From 01e9b98b28deff3ad660325e7eea76178de0127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 68/97] fix: put halos at the upper face of the box into the
 search grid

---
 render/halo/grid.go | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/render/halo/grid.go b/render/halo/grid.go
index 5415716..41c6c7e 100644
--- a/render/halo/grid.go
+++ b/render/halo/grid.go
@@ -40,25 +40,7 @@ func (g *Grid) Length(idx int) int {
 
 func (g *Grid) Insert(xs, ys, zs []float64) {
 	for i := range xs {
-		x, y, z := xs[i], ys[i], zs[i]
-		if x > g.Width {
-			x -= g.Width
-		} else if x < 0 {
-			x += g.Width
-		}
-		if y > g.Width {
-			y -= g.Width
-		} else if y < 0 {
-			y += g.Width
-		}
-		if z > g.Width {
-			z -= g.Width
-		} else if z < 0 {
-			z += g.Width
-		}
-				
-
-		ix, iy, iz := int(x/g.cw), int(y/g.cw), int(z/g.cw)
+		ix, iy, iz := g.cell(xs[i]), g.cell(ys[i]), g.cell(zs[i])
 		idx := ix + iy * g.Cells + iz * g.Cells * g.Cells
 
 		g.Next[i] = g.Heads[idx]
@@ -66,6 +48,18 @@ func (g *Grid) Insert(xs, ys, zs []float64) {
 	}
 }
 
+// cell returns the index of the cell that a coordinate is in along its axis.
+func (g *Grid) cell(x float64) int {
+	if x >= g.Width {
+		x -= g.Width
+	} else if x < 0 {
+		x += g.Width
+	}
+	i := int(x / g.cw)
+	if i == g.Cells { i-- } // Rounding.
+	return i
+}
+
 func (g *Grid) TotalCells() int {
 	return len(g.Heads)
 }
-- 
2.43.0


From b2e5c4e186921e287a6bce58afe572dcc714f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 69/97] fix: leave the radii given to FindSubhalos alone

---
 render/halo/finder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index ff98df4..129ced4 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -73,7 +73,9 @@ func (sf *SubhaloFinder) FindSubhalos(
 	c := sf.g.Cells
 	
 	buf := make([]int, 0, sf.g.MaxLength())
-	for i := range rs { rs[i] *= mult }
+	scaledRs := make([]float64, len(rs))
+	for i := range rs { scaledRs[i] = rs[i] * mult }
+	rs = scaledRs
 	cMax := cumulativeMax(rs)
 
 	vol := 0.0
@@ -107,7 +109,6 @@ func (sf *SubhaloFinder) FindSubhalos(
 	}
 
 	sf.crossMatch()
-	for i := range rs { rs[i] /= mult }
 }
 
 func (sf *SubhaloFinder) StartEnd(ih int) (start, end int) {
-- 
2.43.0


From 4122659e4d7dab5044cc2f011a5e2d5096c4bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 70/97] fix: find subhalos across the faces of the box

---
 render/halo/finder.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 129ced4..72f4268 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -219,13 +219,24 @@ func (sf *SubhaloFinder) markSubhalos(
 	for _, j := range idxs {
 		if j <= ih { continue }
 		sx, sy, sz, sr := xs[j], ys[j], zs[j], rs[j]
-		dx, dy, dz, dr := hx - sx, hy - sy, hz - sz, hr + sr
+		dx, dy, dz, dr := sf.sep(hx, sx), sf.sep(hy, sy), sf.sep(hz, sz), hr + sr
 		if dr*dr >= dx*dx + dy*dy + dz*dz {
 			sf.subhalos = append(sf.subhalos, j)
 		}
 	}
 }
 
+// sep returns the separation of two coordinates within the periodic box.
+func (sf *SubhaloFinder) sep(x1, x2 float64) float64 {
+	dx, width := x1 - x2, sf.g.Width
+	if dx > width / 2 {
+		dx -= width
+	} else if dx < -width / 2 {
+		dx += width
+	}
+	return dx
+}
+
 func cumulativeMax(xs []float64) []float64 {
 	ms := make([]float64, len(xs))
 	max := xs[len(xs) - 1]
-- 
2.43.0


From a1a95a7faa8a83440cabe2df42dadb8195e696bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 71/97] fix: do not visit grid cells twice when looking for
 subhalos

---
 render/halo/finder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 72f4268..d06bbc8 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -85,6 +85,10 @@ func (sf *SubhaloFinder) FindSubhalos(
 
 		pos[0], pos[1], pos[2] = xs[ih], ys[ih], zs[ih]
 		b.SphereBounds(pos, rh + maxSR, sf.g.cw, sf.g.Width)
+		for i := range b.Span {
+			// Do not visit a cell twice.
+			if b.Span[i] > c { b.Span[i] = c }
+		}
 		vol += float64(b.Span[0] * b.Span[1] * b.Span[2])
 
 		for dz := 0; dz < b.Span[2]; dz++ {
-- 
2.43.0


From bce12e9e8595a428c3ad90a3b510c875fb69ab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 72/97] fix: find the subhalos of an empty catalogue

---
 render/halo/finder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index d06bbc8..d574155 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -243,6 +243,7 @@ func (sf *SubhaloFinder) sep(x1, x2 float64) float64 {
 
 func cumulativeMax(xs []float64) []float64 {
 	ms := make([]float64, len(xs))
+	if len(xs) == 0 { return ms }
 	max := xs[len(xs) - 1]
 	for i := len(xs) - 1; i >= 0; i-- {
 		x := xs[i]
-- 
2.43.0


From 202973252dc02d6b60ae1c2c5fda8e5c711d6995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 73/97] fix: forget the previous search in FindSubhalos

---
 render/halo/finder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index d574155..b2c13b2 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -78,6 +78,7 @@ func (sf *SubhaloFinder) FindSubhalos(
 	rs = scaledRs
 	cMax := cumulativeMax(rs)
 
+	sf.subhalos = sf.subhalos[:0]
 	vol := 0.0
 	for ih, rh := range rs {
 		sf.startSubhalos(ih)
-- 
2.43.0


From d5bbc430e7e54715d88ef95e1496db422fecbdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 74/97] fix: find halos whose search spheres reach around the
 box

---
 render/halo/finder.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index b2c13b2..8311324 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -21,8 +21,7 @@ type Bounds struct {
 func (b *Bounds) SphereBounds(pos [3]float64, r, cw, width float64) {
 	for i := 0; i < 3; i++ {
 		min, max := pos[i] - r, pos[i] + r
-		if min < 0 { min += width }
-		if min > max { max +=  width }
+		for min < 0 { min, max = min + width, max + width }
 		minCell, maxCell := int(min / cw), int(max / cw)
 		b.Origin[i] = minCell
 		b.Span[i] = maxCell - minCell + 1
-- 
2.43.0


From 1eecb49322d881757fe49b0537c0bf7073cc2d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 75/97] fix: read the high word of a Gadget snapshot's particle
 count

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index cd09a4e..8706a7a 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -104,7 +104,7 @@ func (gh *gadgetHeader) Standardize() *CatalogHeader {
 	h := &CatalogHeader{}
 
 	h.Count = int64(gh.NPart[1] + gh.NPart[0]<<32)
-	h.TotalCount = int64(gh.NPartTotal[1] + gh.NPartTotal[0]<<32)
+	h.TotalCount = int64(gh.NPartTotal[1]) + int64(gh.NPartTotal[0])<<32
 	h.Mass = float64(gh.Mass[1])
 	h.TotalWidth = float64(gh.BoxSize)
 	h.Width = -1.0
-- 
2.43.0


From 98ddd698e21d4c26f54635486f325823100cf4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 76/97] fix: wrap indices beyond the upper face of the box

---
 render/halo/finder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 8311324..1c97735 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -31,11 +31,11 @@ func (b *Bounds) SphereBounds(pos [3]float64, r, cw, width float64) {
 // ConvertIndices converts non-periodic indices to periodic indices.
 func (b *Bounds) ConvertIndices(x, y, z, width int) (bx, by, bz int) {
 	bx = x - b.Origin[0]
-	if bx < 0 { bx += width }
+	if bx < 0 { bx += width } else if bx >= width { bx -= width }
 	by = y - b.Origin[1]
-	if by < 0 { by += width }
+	if by < 0 { by += width } else if by >= width { by -= width }
 	bz = z - b.Origin[2]
-	if bz < 0 { bz += width }
+	if bz < 0 { bz += width } else if bz >= width { bz -= width }
 	return bx, by, bz
 }
 
-- 
2.43.0


From 7c7e63687435d1bc6fb6fe714a6c0b3a560a789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 77/97] fix: use the given derivative in log_to_linear

---
 render/scripts/deriv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/scripts/deriv.py b/render/scripts/deriv.py
index 3ce4eb1..cc3c4ed 100644
--- a/render/scripts/deriv.py
+++ b/render/scripts/deriv.py
@@ -49,9 +49,9 @@ def log_to_linear(log_xs, log_ys, dlogy_dlogxs, base=None):
     base -- The log base. None indicates the natural base (default = None)
     """
     if base is None:
-        return dlogx_dlogys * np.exp(log_ys - log_xs)
+        return dlogy_dlogxs * np.exp(log_ys - log_xs)
     else:
-        return dlogx_dlogys * base**(log_ys - log_xs)
+        return dlogy_dlogxs * base**(log_ys - log_xs)
 
 def linear_to_log(xs, ys, dy_dxs, base=None):
     """ Function linear_to_log converts a linear derivative to a logarithmic
-- 
2.43.0


From fc5ca6d2f82db6eef78db2e26db3440eab07c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 78/97] fix: report failures to write outputs, and close them

---
 render/io/io.go           |  4 ++++
 render/io/output.go       | 14 +++++++-------
 render/main/main.go       | 18 +++++++++++-------
 render/scripts/profile.go | 12 ++++++++----
 4 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 8706a7a..9380039 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -391,6 +391,7 @@ func WriteSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
 	}
 
 	f, err := os.Create(file)
+	if err != nil { log.Fatal(err.Error()) }
 	endiannessFlag := int32(0)
 	order := endianness(endiannessFlag)
 
@@ -412,6 +413,9 @@ func WriteSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
 	if err = writeVecAsByte(f, order, vs); err != nil {
 		log.Fatalf(err.Error())
 	}
+	if err = f.Close(); err != nil {
+		log.Fatal(err.Error())
+	}
 }
 
 // CellBounds returns the bounds  of a given sheet aligned to the boundaries of
diff --git a/render/io/output.go b/render/io/output.go
index faeac83..0652fe4 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -156,7 +156,7 @@ func WriteBuffer(
 	buf density.Buffer,
 	cosmo CosmoInfo, render RenderInfo, loc LocationInfo,
 	wr io.Writer,
-) {
+) error {
 	hd := GridHeader{}
 	hd.EndiannessVersion = EndiannessVersionFlag(end)
 	hd.Type.HeaderSize = int64(unsafe.Sizeof(hd))
@@ -168,14 +168,14 @@ func WriteBuffer(
 
 	if xs, ok := buf.FinalizedScalarBuffer(); ok {
 		hd.Type.IsVectorGrid = 0
-		binary.Write(wr, end, &hd)
-		binary.Write(wr, end, xs)
+		if err := binary.Write(wr, end, &hd); err != nil { return err }
+		return binary.Write(wr, end, xs)
 	} else if xs, ys, zs, ok := buf.FinalizedVectorBuffer(); ok {
 		hd.Type.IsVectorGrid = 1
-		binary.Write(wr, end, &hd)
-		binary.Write(wr, end, xs)
-		binary.Write(wr, end, ys)
-		binary.Write(wr, end, zs)
+		if err := binary.Write(wr, end, &hd); err != nil { return err }
+		if err := binary.Write(wr, end, xs); err != nil { return err }
+		if err := binary.Write(wr, end, ys); err != nil { return err }
+		return binary.Write(wr, end, zs)
 	} else {
 		panic("Buffer is neither scalar nor vector.")
 	}
diff --git a/render/main/main.go b/render/main/main.go
index 42f54c2..96c7973 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -1,5 +1,6 @@
 package main
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"path"
@@ -599,7 +600,6 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 
 		log.Printf("Writing to %s", out)
 		f, err := os.Create(out)
-		defer f.Close()
 		if err != nil { log.Fatalf("Could not create %s.", out) }
 		
 		loc := io.NewLocationInfo(
@@ -617,7 +617,9 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 			box.Points(), box.Cells(), con.SubsampleLength, axis,
 		)
 
-		io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
+		err = io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
+		if err != nil { log.Fatal(err.Error()) }
+		if err = f.Close(); err != nil { log.Fatal(err.Error()) }
 	}
 }
 
@@ -833,16 +835,18 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 
 		log.Printf("Writing to %s", out)
 		f, err := os.Create(out)
-		defer f.Close()
 		if err != nil { log.Fatalf("Could not create %s.", out) }
 		
-		fmt.Fprintf(f, "# %s histogram ranging from %g to %g " +
+		wr := bufio.NewWriter(f)
+		fmt.Fprintf(wr, "# %s histogram ranging from %g to %g " +
 			"# with %d bins (%s scaled).\n", con.Quantity, con.HistMin,
 			con.HistMax, con.HistBins, strings.ToLower(con.HistScale))
-		fmt.Fprintf(f, "# Column 0 - bin centers.\n")
-		fmt.Fprintf(f, "# Column 1 - bin counts.\n")
+		fmt.Fprintf(wr, "# Column 0 - bin centers.\n")
+		fmt.Fprintf(wr, "# Column 1 - bin counts.\n")
 		for j := range box.Counts {
-			fmt.Fprintf(f, "%8.4g %d\n", box.Centers[j], box.Counts[j])
+			fmt.Fprintf(wr, "%8.4g %d\n", box.Centers[j], box.Counts[j])
 		}
+		if err = wr.Flush(); err != nil { log.Fatal(err.Error()) }
+		if err = f.Close(); err != nil { log.Fatal(err.Error()) }
 	}	
 }
diff --git a/render/scripts/profile.go b/render/scripts/profile.go
index 02cad5d..0889703 100644
--- a/render/scripts/profile.go
+++ b/render/scripts/profile.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bufio"
 	"fmt"
 	goio "io"
 	"log"
@@ -72,10 +73,13 @@ func main() {
 func printData(fname string, vecs [][3]float64, rProfs, rhoProfs [][]float64) {
 	f, err := os.Create(fname)
 	if err != nil { log.Fatal(err.Error()) }
-	fmt.Fprintln(f, "# The first three rows are unit vector components.")
-	printVecs(f, vecs)
-	fmt.Fprintln(f, "# The rest are individual profiles.")
-	printProfiles(f, rProfs, rhoProfs)
+	wr := bufio.NewWriter(f)
+	fmt.Fprintln(wr, "# The first three rows are unit vector components.")
+	printVecs(wr, vecs)
+	fmt.Fprintln(wr, "# The rest are individual profiles.")
+	printProfiles(wr, rProfs, rhoProfs)
+	if err = wr.Flush(); err != nil { log.Fatal(err.Error()) }
+	if err = f.Close(); err != nil { log.Fatal(err.Error()) }
 }
 
 func lineProfiles(
-- 
2.43.0


From e7387f9f2d03ebb23244d8e03785fda18f11fdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 79/97] fix: refuse fewer than one thread

---
 render/main/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 96c7973..44bf7f1 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -94,6 +94,9 @@ func main() {
 	)
 	
 	flag.Parse()
+	if render.NumCores < 1 {
+		log.Fatalf("Invalid 'Threads' value, %d.", render.NumCores)
+	}
 
 	// Figure out the mode and fail with a descriptive error is the user gave 
 	// incorrect flags.
-- 
2.43.0


From 4d62245cc07f4f9dccbb663aad20b0520a2c1a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 80/97] fix: refuse two boxes with the same name

---
 render/main/main.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 44bf7f1..f7da5e5 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -566,6 +566,7 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 		if err != nil { log.Fatal(err.Error()) }
 		configBoxes = append(configBoxes, boxes...)
 	}
+	checkNames(configBoxes)
 
 	// Figure out which quantity we're rendering.
 	q, ok := density.QuantityFromString(con.Quantity)
@@ -626,6 +627,17 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 	}
 }
 
+// checkNames fails if two boxes would be written to the same file.
+func checkNames(boxes []io.BoxConfig) {
+	names := map[string]bool{}
+	for i := range boxes {
+		if names[boxes[i].Name] {
+			log.Fatalf("More than one box is named '%s'.", boxes[i].Name)
+		}
+		names[boxes[i].Name] = true
+	}
+}
+
 // toFloat32 converts a float64 array to a float32 array.
 func toFloat32(xs []float64) []float32 {
 	ys := make([]float32, len(xs))
@@ -804,6 +816,7 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 		if err != nil { log.Fatal(err.Error()) }
 		configBoxes = append(configBoxes, boxes...)
 	}
+	checkNames(configBoxes)
 
 	// Figure out cell sizes, pixel sizes, and particle counts.
 	boxes := make([]render.HistBox, len(configBoxes))
-- 
2.43.0


From ac17e1586150d91443a02306ae1e2f32af9c2ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 81/97] fix: log and profile files for conversions

---
 render/main/main.go | 62 ++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index f7da5e5..d55b23c 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -32,6 +32,29 @@ type FileGroup struct {
 	log, prof *os.File
 }
 
+// openFileGroup starts logging and profiling to the files in con.
+func openFileGroup(con *io.SharedConfig) *FileGroup {
+	var err error
+	fg := new(FileGroup)
+
+	// Set up log file.
+	if con.ValidLogFile() {
+		fg.log, err = os.Create(con.LogFile)
+		if err != nil { log.Fatal(err.Error()) }
+		log.SetOutput(fg.log)
+	}
+
+	// Set up profile file.
+	if con.ValidProfileFile() {
+		fg.prof, err = os.Create(con.ProfileFile)
+		if err != nil { log.Fatal(err.Error()) }
+		err = pprof.StartCPUProfile(fg.prof)
+		if err != nil { log.Fatal(err.Error()) }
+	}
+
+	return fg
+}
+
 // Close closes the files inside FileGroup.
 func (fg *FileGroup) Close() {
 	if fg.log != nil {
@@ -253,6 +276,9 @@ func getModeName(vars map[string]*string) (string, error) {
 // lGadget2Main converts a set of LGadget-2 snapshots to gotetra files
 // based on the input config file.
 func lGadget2Main(con *io.ConvertSnapshotConfig) {
+	fg := openFileGroup(&con.SharedConfig)
+	defer fg.Close()
+
 	if !con.ValidIteratedInput() {
 		con.IterationStart = 0
 		con.IterationEnd = 0
@@ -654,25 +680,9 @@ func densitySetupIO(con *io.RenderConfig) (
 	hd *io.SheetHeader,
 	fg *FileGroup,
 ) {
-	var err error
-	fg = new(FileGroup)
+	fg = openFileGroup(&con.SharedConfig)
 	hd = new(io.SheetHeader)
 
-	// Set up log file.
-	if con.ValidLogFile() {
-		fg.log, err = os.Create(con.LogFile)
-		if err != nil { log.Fatal(err.Error()) }
-		log.SetOutput(fg.log)
-	}
-
-	// Set up profile file.
-	if con.ValidProfileFile() {
-		fg.prof, err = os.Create(con.ProfileFile)
-		if err != nil { log.Fatal(err.Error()) }
-		err = pprof.StartCPUProfile(fg.prof)
-		if err != nil { log.Fatal(err.Error()) }
-	}
-
 	// Get file names.
 	infos, err := ioutil.ReadDir(con.Input)
 	if err != nil { log.Fatal(err.Error()) }
@@ -692,25 +702,9 @@ func tetraHistSetupIO(con *io.TetraHistConfig) (
 	hd *io.SheetHeader,
 	fg *FileGroup,
 ) {
-	var err error
-	fg = new(FileGroup)
+	fg = openFileGroup(&con.SharedConfig)
 	hd = new(io.SheetHeader)
 
-	// Set up log file.
-	if con.ValidLogFile() {
-		fg.log, err = os.Create(con.LogFile)
-		if err != nil { log.Fatal(err.Error()) }
-		log.SetOutput(fg.log)
-	}
-
-	// Set up profile file.
-	if con.ValidProfileFile() {
-		fg.prof, err = os.Create(con.ProfileFile)
-		if err != nil { log.Fatal(err.Error()) }
-		err = pprof.StartCPUProfile(fg.prof)
-		if err != nil { log.Fatal(err.Error()) }
-	}
-
 	// Get file names.
 	infos, err := ioutil.ReadDir(con.Input)
 	if err != nil { log.Fatal(err.Error()) }
-- 
2.43.0


From 33d9d2b7c2032d5f41b8746e49c2c823c794f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 82/97] fix: samples on the lower edge of a pixel belong to it

---
 render/box.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/render/box.go b/render/box.go
index b27e1a0..4bfc2c5 100644
--- a/render/box.go
+++ b/render/box.go
@@ -689,11 +689,7 @@ func (w *domainOverlap3D) Interpolate(
 }
 
 func intFloor(x float32) int {
-	if x > 0 {
-		return int(x)
-	} else {
-		return int(x - 1)
-	}
+	return int(math.Floor(float64(x)))
 }
 
 func cbSubtr(cb1, cb2 *geom.CellBounds) (i, j, k int) {
-- 
2.43.0


From 609b62859857d1ed350ab76c5e7a78239b872a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 83/97] fix: balls larger than the simulation begin inside of
 it

---
 render/io/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io/config.go b/render/io/config.go
index 21d8b35..cf6065e 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"gopkg.in/gcfg.v1"
@@ -413,7 +414,7 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 
 // ballEdge returns the lower edge of a ball, which is in [0, totalWidth).
 func ballEdge(x, rad, totalWidth float64) float64 {
-	lo := x - rad
+	lo := math.Mod(x - rad, totalWidth)
 	if lo < 0 { lo += totalWidth }
 	if lo >= totalWidth { lo -= totalWidth }
 	return lo
-- 
2.43.0


From 4a7fc699a29cb9993521f3091ea5dd9b343bcbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 84/97] fix: bounds which aren't numbers are rejected

---
 render/io/config.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index cf6065e..0298d02 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -351,6 +351,10 @@ type BallConfig struct {
 }
 
 func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
+	if !finite(ball.X, ball.Y, ball.Z, ball.Radius, ball.RadiusMultiplier) {
+		return fmt.Errorf("Every value of Ball '%s' must be finite.", name)
+	}
+
 	if ball.Radius <= 0 {
 		return fmt.Errorf(
 			"Need to specify a positive radius for Ball '%s'.", name,
@@ -433,6 +437,10 @@ type BoxConfig struct {
 }
 
 func (box *BoxConfig) CheckInit(name string, totalWidth float64) error {
+	if !finite(box.X, box.Y, box.Z, box.XWidth, box.YWidth, box.ZWidth) {
+		return fmt.Errorf("Every value of Box '%s' must be finite.", name)
+	}
+
 	if box.XWidth <= 0 {
 		return fmt.Errorf(
 			"Need to specify a positive XWidth for Box '%s'", name,
@@ -478,6 +486,14 @@ func (box *BoxConfig) CheckInit(name string, totalWidth float64) error {
 	return nil
 }
 
+// finite returns true if every value is a number which is not infinite.
+func finite(xs ...float64) bool {
+	for _, x := range xs {
+		if math.IsNaN(x) || math.IsInf(x, 0) { return false }
+	}
+	return true
+}
+
 // parseAxis normalizes a ProjectionAxis value.
 func parseAxis(str string) (axis string, ok bool) {
 	axis = strings.Trim(strings.ToUpper(str), " ")
-- 
2.43.0


From 2617550fc1f6938952e4149a317d4ceea5f542b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 85/97] fix: subsampling which doesn't divide the segments is
 rejected

---
 render/main/main.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index d55b23c..3903f65 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -584,6 +584,7 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 	// Get the I/O essentials.
 	fileNames, hd, fg := densitySetupIO(con)
 	defer fg.Close()
+	checkSubsample(con.SubsampleLength, hd)
 
 	// Generate bounds files.
 	configBoxes := make([]io.BoxConfig, 0)
@@ -727,6 +728,15 @@ func round(x float64) int {
 	}
 }
 
+// checkSubsample exits if the particles of a sheet segment cannot be subsampled:
+// parts of the segments would be left out.
+func checkSubsample(length int, hd *io.SheetHeader) {
+	if hd.SegmentWidth % int64(length) != 0 {
+		log.Fatalf("SubsampleLength is %d, but must divide the width of the " +
+			"sheet segments, %d.", length, hd.SegmentWidth)
+	}
+}
+
 // totalPixels counts the number of pixels implied by the 
 func totalPixels(
 	con *io.RenderConfig, box *io.BoxConfig, boxWidth float64,
@@ -802,6 +812,7 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 	// Get the I/O essentials.
 	fileNames, hd, fg := tetraHistSetupIO(con)
 	defer fg.Close()
+	checkSubsample(con.SubsampleLength, hd)
 
 	// Generate bounds files.
 	configBoxes := make([]io.BoxConfig, 0)
-- 
2.43.0


From 6b56fce8c11f5523f5de245e9f214b9885c83e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 86/97] fix: bound sheets which span half of the box or more

---
 render/main/main.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 3903f65..3610c7c 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -471,7 +471,7 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 // boundingBox is the smallest bounding box which contains a group of particles
 // in a periodic simulation box. The algorithm I used here is not perfect, but
 // avoids needing to sort the particles. It is only garuanteed to work if the
-// particles span less than half the width of the box.
+// particles are less than half the width of the box away from its center.
 type boundingBox struct {
 	Width float64
 	Center geom.Vec
@@ -494,14 +494,6 @@ func (box *boundingBox) Add(pt *geom.Vec) {
 			box.ToMin[i], box.ToMax[i], box.ToPt[i],
 		)
 	}
-
-	//ToPt is now a buffer for the neccesary shift in the center.
-	// I don't really understand how this works or why this is so complicated.
-	box.ToMax.AddAt(&box.ToMin, &box.ToPt)
-	box.ToPt.ScaleSelf(0.5)
-	box.Center.AddSelf(&box.ToPt)
-    box.ToMax.SubSelf(&box.ToPt, box.Width)
-    box.ToMin.SubSelf(&box.ToPt, box.Width)
 }
 
 // minMax returns the minimum and maximum of (min, max, x), given the min < max.
@@ -526,7 +518,11 @@ func copyToSegment(shd *io.SheetHeader, xs, vs, xsSeg, vsSeg []geom.Vec) {
 	N, N2 := shd.CountWidth, shd.CountWidth * shd.CountWidth
 
 	box := &boundingBox{}
-	box.Init(&xs[xStart + N * yStart + N2 * zStart], shd.TotalWidth)
+	mid := shd.SegmentWidth / 2
+	box.Init(
+		&xs[xStart + mid + N * (yStart + mid) + N2 * (zStart + mid)],
+		shd.TotalWidth,
+	)
 
 	// smallidx is the index within the segment.
 	smallIdx := 0
@@ -567,7 +563,7 @@ func copyToSegment(shd *io.SheetHeader, xs, vs, xsSeg, vsSeg []geom.Vec) {
 	
 	box.Center.AddAt(&box.ToMin, &shd.Origin)
 	shd.Origin.ModSelf(shd.TotalWidth)
-	box.ToMax.ScaleAt(2.0, &shd.Width)
+	for dim := range shd.Width { shd.Width[dim] = box.ToMax[dim] - box.ToMin[dim] }
 
 	shd.VelocityOrigin = vMin
 	for dim := range vMax { shd.VelocityWidth[dim] = vMax[dim] - vMin[dim] }
-- 
2.43.0


From e524bde85ae96668892aaf44db8262c4bb99f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:37 +0000
Subject: [PATCH 87/97] fix: bin angles which round up to 2 pi

---
 render/scripts/2d_kde.py | 2 +-
 render/scripts/kde.py    | 2 +-
 render/scripts/mcarlo.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/scripts/2d_kde.py b/render/scripts/2d_kde.py
index 179b911..6687f35 100644
--- a/render/scripts/2d_kde.py
+++ b/render/scripts/2d_kde.py
@@ -15,7 +15,7 @@ def bin_by_thetas(rs, thetas, bins):
     width = 2 * np.pi
     dtheta = width / bins
     for r, theta in zip(rs, thetas):
-        idx = int((theta % width) / dtheta)
+        idx = min(int((theta % width) / dtheta), bins - 1)
         pt_bins[idx].append(r)
     theta_bins = 2 * np.pi * (np.arange(bins) + 0.5) / bins
     return theta_bins, pt_bins
diff --git a/render/scripts/kde.py b/render/scripts/kde.py
index a4d5ce5..b62f3a2 100644
--- a/render/scripts/kde.py
+++ b/render/scripts/kde.py
@@ -15,7 +15,7 @@ def bin_by_thetas(rs, thetas, bins):
     width = 2 * np.pi
     dtheta = width / bins
     for r, theta in zip(rs, thetas):
-        idx = int((theta % width) / dtheta)
+        idx = min(int((theta % width) / dtheta), bins - 1)
         pt_bins[idx].append(r)
     theta_bins = 2 * np.pi * (np.arange(bins) + 0.5) / bins
     return theta_bins, pt_bins
diff --git a/render/scripts/mcarlo.py b/render/scripts/mcarlo.py
index fe58ce1..3034bee 100644
--- a/render/scripts/mcarlo.py
+++ b/render/scripts/mcarlo.py
@@ -59,7 +59,7 @@ def bin_by_thetas(rs, thetas, bins):
     width = 2 * np.pi
     dtheta = width / bins
     for r, theta in zip(rs, thetas):
-        idx = int((theta % width) / dtheta)
+        idx = min(int((theta % width) / dtheta), bins - 1)
         pt_bins[idx].append(r)
     theta_bins = 2 * np.pi * (np.arange(bins) + 0.5) / bins
     return theta_bins, pt_bins
-- 
2.43.0


From d9a8ff818b2b5fe33d38b65a998556ca8d2c1b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:37 +0000
Subject: [PATCH 88/97] fix: drop the edge of a bin which is left out

---
 render/scripts/plot_profile.py        | 5 ++++-
 render/scripts/plot_savgol_profile.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/render/scripts/plot_profile.py b/render/scripts/plot_profile.py
index 01814ec..9135ca2 100644
--- a/render/scripts/plot_profile.py
+++ b/render/scripts/plot_profile.py
@@ -37,7 +37,10 @@ class SplinedBinConverter(object):
         first = self._first_bin(edges, xs, sp)
         mid = self._mid_bins(edges, xs, sp)
         last = self._last_bin(edges, xs, sp)
-        
+
+        if len(first) == 0: edges = edges[1:]
+        if len(last) == 0: edges = edges[:-1]
+
         return edges, append(first, mid, last)
         
     def _first_bin(self, edges, xs, sp):
diff --git a/render/scripts/plot_savgol_profile.py b/render/scripts/plot_savgol_profile.py
index e876091..03c9688 100644
--- a/render/scripts/plot_savgol_profile.py
+++ b/render/scripts/plot_savgol_profile.py
@@ -37,7 +37,10 @@ class SplinedBinConverter(object):
         first = self._first_bin(edges, xs, sp)
         mid = self._mid_bins(edges, xs, sp)
         last = self._last_bin(edges, xs, sp)
-        
+
+        if len(first) == 0: edges = edges[1:]
+        if len(last) == 0: edges = edges[:-1]
+
         return edges, append(first, mid, last)
         
     def _first_bin(self, edges, xs, sp):
-- 
2.43.0


From a37cd80377b0daeec17e9ad1448202e000860d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:38 +0000
Subject: [PATCH 89/97] fix: step of smoothed profiles

---
 render/scripts/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/scripts/profile.py b/render/scripts/profile.py
index f1f1b36..833f978 100644
--- a/render/scripts/profile.py
+++ b/render/scripts/profile.py
@@ -304,7 +304,7 @@ class SmoothedProfile(AbstractProfile):
         for lrs, lrhos in zip(lrs_group, lrhos_group):
             if len(lrs) <= sg_window: continue
             sm_rhos = signal.savgol_filter(lrhos, sg_window, 4)
-            dlr = (lrs[-1] - lrs[0]) / len(lrs)
+            dlr = (lrs[-1] - lrs[0]) / (len(lrs) - 1)
             sm_lderivs = signal.savgol_filter(
                 lrhos, sg_window, 4, deriv=1, delta=dlr
             )
-- 
2.43.0


From 1d22c0b88d3bc01246cf7d9d6242b31c456489a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:29 +0000
Subject: [PATCH 90/97] fix: profiles with one smoothing window

---
 render/scripts/profile.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/render/scripts/profile.py b/render/scripts/profile.py
index 833f978..4d19ad1 100644
--- a/render/scripts/profile.py
+++ b/render/scripts/profile.py
@@ -338,7 +338,6 @@ class MultiSmoothedProfile(AbstractProfile):
 
     def _multi_smooth(self, lrs, lrhos, unit):
         profs = []
-        rs = []
         prev_r = None
         for window in xrange(5, self._max_window, 2):
             prof = SmoothedProfile([lrs], [lrhos], unit, window)
@@ -350,14 +349,9 @@ class MultiSmoothedProfile(AbstractProfile):
                 return profs, False
             prev_r = r
             profs.append(prof)
-            rs.append(r)
 
         if len(profs) <= self._prof_idx: return profs, False
 
-        rs = np.array(rs)
-        r_mean, r_std = np.mean(rs), np.std(rs)
-        dr_max = np.max(rs[1:] - rs[:-1])
-        dr_r, std_r = dr_max / r_mean, r_std / r_mean
         return profs, True
 
     def segments(self):
-- 
2.43.0


From 4e7ac344ebe1507d49c5a57657b3b386ad862738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:35 +0000
Subject: [PATCH 91/97] fix: render.py saves volumes and images that are not
 square at one pixel per pixel

---
 python/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/render.py b/python/render.py
index 7373762..bd53b32 100644
--- a/python/render.py
+++ b/python/render.py
@@ -143,7 +143,7 @@ for rhos, vmin, vmax in zip(rho_list, vmins, vmaxes):
         extent[0], extent[1], extent[2], extent[3] = extent[2], extent[3], extent[1], extent[0]
 
         if savefile is not None:
-            fig = plt.figure(frameon=False, figsize=(px/300.0, py/300.0))
+            fig = plt.figure(frameon=False, figsize=(py/300.0, px/300.0))
             ax = fig.add_axes([0, 0, 1, 1])
             ax.axis("off")
             ax.imshow(img, cmap=cmap, vmin=vmin, vmax=vmax,
-- 
2.43.0


From a6be4d5a3e000ffe725ecb608dcb1a4e0391df37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 92/97] fix: render.py titles slices with their own position

---
 python/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/render.py b/python/render.py
index bd53b32..d608606 100644
--- a/python/render.py
+++ b/python/render.py
@@ -80,7 +80,7 @@ for rhos, vmin, vmax in zip(rho_list, vmins, vmaxes):
         # conditionals and copy/pasted code.
 
         if hd.axis == -1:
-            mid = hd.loc.origin[axis_x] + c[axis_x] * hd.pw
+            mid = hd.loc.origin[axis_x] + c[axis] * hd.pw
         else:
             mid = hd.loc.origin[axis_x] + hd.loc.span[axis_x] / 2
 
-- 
2.43.0


From ba0af40e4800ef75af5a3cc008bea585f0a9ec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 93/97] fix: render.py averages what there is of slices deeper
 than the volume

---
 python/render.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/render.py b/python/render.py
index d608606..89274fd 100644
--- a/python/render.py
+++ b/python/render.py
@@ -86,7 +86,7 @@ for rhos, vmin, vmax in zip(rho_list, vmins, vmaxes):
 
         if dim == "Z":
             if hd.axis == -1:
-                slice = rhos[c[axis] - depth / 2: c[axis] + depth / 2 + 1, :, :]
+                slice = rhos[max(c[axis] - depth / 2, 0): c[axis] + depth / 2 + 1, :, :]
             else:
                 slice = rhos
             extent = [hd.loc.origin[1], hd.loc.origin[1] + hd.loc.span[1],
@@ -102,7 +102,7 @@ for rhos, vmin, vmax in zip(rho_list, vmins, vmaxes):
 
         elif dim == "Y":
             if hd.axis == -1:
-                slice = rhos[:, c[axis] - depth / 2: c[axis] + depth / 2 + 1, :]
+                slice = rhos[:, max(c[axis] - depth / 2, 0): c[axis] + depth / 2 + 1, :]
             else:
                 slice = rhos
             extent = [hd.loc.origin[2], hd.loc.origin[2] + hd.loc.span[2],
@@ -118,7 +118,7 @@ for rhos, vmin, vmax in zip(rho_list, vmins, vmaxes):
 
         else:
             if hd.axis == -1:
-                slice = rhos[:, :, c[axis] - depth / 2: c[axis] + depth / 2 + 1]
+                slice = rhos[:, :, max(c[axis] - depth / 2, 0): c[axis] + depth / 2 + 1]
             else:
                 slice = rhos
             extent = [hd.loc.origin[2], hd.loc.origin[2] + hd.loc.span[2],
-- 
2.43.0


From 73c3bc5acf1daf1a34a0609d2c8853c6b136baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 94/97] fix: the mean densities of read_halo.py grow as (1+z)^3

---
 render/scripts/read_halo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/scripts/read_halo.py b/render/scripts/read_halo.py
index 65d0eca..34ec05c 100644
--- a/render/scripts/read_halo.py
+++ b/render/scripts/read_halo.py
@@ -36,10 +36,10 @@ def rho_c_h(z):
     return rho_c_mks(z) * mpc_mks_h * mpc_mks_h * mpc_mks_h / msun_mks_h
 
 def rho_m(z):
-    return rho_c(z) * omega_M * (1+z)**3.0
+    return rho_c(0) * omega_M * (1+z)**3.0
 
 def rho_m_h(z):
-    return rho_c_h(z) * omega_M * (1+z)**3.0
+    return rho_c_h(0) * omega_M * (1+z)**3.0
 
 def m_to_r(m, rho):
     v = m / rho
-- 
2.43.0


From 72af3c9a7c43d5c75b54321715c007e1187bcccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:14 +0000
Subject: [PATCH 95/97] fix: chains without statistics can be sampled

---
 render/scripts/mcarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/scripts/mcarlo.py b/render/scripts/mcarlo.py
index 3034bee..08e6025 100644
--- a/render/scripts/mcarlo.py
+++ b/render/scripts/mcarlo.py
@@ -22,7 +22,7 @@ class AbstractMetropolis(object):
                 if dE < 0 or rand.random() < np.exp(-dE/T):
                     self.change(update)
                     accepts += 1
-            if self.tracks_stats and burn_in <= step:
+            if self.tracks_stats() and burn_in <= step:
                 self.update_stats()
             if sample_rate is not None and step % sample_rate == 0:
                 snapshots.append(self.state())
-- 
2.43.0


From 0e060bea3b04dfccb676e7e65e0a517da03089d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:15 +0000
Subject: [PATCH 96/97] fix: standard deviations of membranes are those of
 their radii

---
 render/scripts/mcarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/scripts/mcarlo.py b/render/scripts/mcarlo.py
index 08e6025..6b0801e 100644
--- a/render/scripts/mcarlo.py
+++ b/render/scripts/mcarlo.py
@@ -98,7 +98,7 @@ class Membrane(AbstractMetropolis):
         return self.rs_sum / self.trials
 
     def get_std(self):
-        return np.sqrt(self.rs_sqr - self.rs_mean**2)
+        return np.sqrt(self.rs_sqr / self.trials - self.get_mean()**2)
 
     def update_candidates(self):
         idx = rand.randint(self.bins)
-- 
2.43.0


From a4edb2929c7d8009d55b4dae81a8d34672a3c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:16 +0000
Subject: [PATCH 97/97] fix: snapshots of membranes keep the state they were
 taken in

---
 render/scripts/mcarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/scripts/mcarlo.py b/render/scripts/mcarlo.py
index 6b0801e..79f97ae 100644
--- a/render/scripts/mcarlo.py
+++ b/render/scripts/mcarlo.py
@@ -128,7 +128,7 @@ class Membrane(AbstractMetropolis):
         self.rs[idx] = r
 
     def state(self):
-        return self.rs, self.angle_edges
+        return self.rs.copy(), self.angle_edges.copy()
 
 def pretty_fig(n):
     plt.figure(n, figsize=(8, 8))
-- 
2.43.0

