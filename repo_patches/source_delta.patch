From 7630e9c9df5f12dd247ac7d4be85f3283a4acbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 01/21] fix: reader reports a failure while loading the stl
 file

---
 reader/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reader/reader.go b/reader/reader.go
index bd2ef49..0b901e6 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -116,7 +116,9 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if _, err := os.Stat(filename); errors.Is(err, os.ErrNotExist) {
 		return model, os.ErrNotExist
 	}
-	stl.CopyFile(filename, model)
+	if err := stl.CopyFile(filename, model); err != nil {
+		return model, err
+	}
 	return model, nil
 }
 
-- 
2.43.0


From a19ed74b449d1aca85dd4cd00260699c588857b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:59 +0000
Subject: [PATCH 02/21] fix: report failed clipping operations in the brim and
 support generators

---
 modifier/brim.go    | 11 ++++++++++-
 modifier/support.go |  7 +++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index c775d1c..fce1862 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -1,6 +1,7 @@
 package modifier
 
 import (
+	"errors"
 	"fmt"
 	"github.com/aligator/goslice/clip"
 	"github.com/aligator/goslice/data"
@@ -98,10 +99,18 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 		}
 	}
 
+	if len(allOuterPerimeters) == 0 {
+		// There is nothing to generate a brim for.
+		return nil
+	}
+
 	cl := clip.NewClipper()
 
 	// Get the top level polys e.g. the polygons which are not inside another.
-	topLevelPerimeters, _ := cl.TopLevelPolygons(allOuterPerimeters)
+	topLevelPerimeters, ok := cl.TopLevelPolygons(allOuterPerimeters)
+	if !ok {
+		return errors.New("error while calculating the top level perimeters for the brim")
+	}
 	allOuterPerimeters = nil
 	for _, p := range topLevelPerimeters {
 		allOuterPerimeters = append(allOuterPerimeters, data.NewBasicLayerPart(p, nil))
diff --git a/modifier/support.go b/modifier/support.go
index 89045b4..2f48376 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -213,7 +213,14 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 			}
 			if brimArea != nil {
 				interfaceParts, ok = c.Difference(interfaceParts, brimArea)
+				if !ok {
+					return errors.New("error while removing the brim from the interface parts")
+				}
+
 				actualWithoutInterfaceParts, ok = c.Difference(actualWithoutInterfaceParts, brimArea)
+				if !ok {
+					return errors.New("error while removing the brim from the support parts")
+				}
 			}
 		}
 
-- 
2.43.0


From d8925efe65230c7acac61a5b45b60358a76c05c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:08 +0000
Subject: [PATCH 03/21] fix: writer reports an error while closing the gcode
 file

---
 writer/writer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index 25c5d3d..d90d9a9 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -18,8 +18,10 @@ func (w writer) Write(gcode string, filename string) error {
 		return err
 	}
 
-	defer buf.Close()
-
 	_, err = buf.WriteString(gcode)
+	if closeErr := buf.Close(); err == nil {
+		// Some write errors are only reported when the file gets closed.
+		err = closeErr
+	}
 	return err
 }
-- 
2.43.0


From d9d5d285e61979709ae4f865972e115e28f36413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:46 +0000
Subject: [PATCH 04/21] fix: slicer handles layers which are not crossed by any
 face

---
 slicer/slicer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index e3cd091..5a6412f 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -111,6 +111,11 @@ func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 	c := clip.NewClipper()
 
 	for i, layer := range layers {
+		if layer == nil {
+			// No face crosses the height of this layer, so it is just empty.
+			layer = newLayer(i, s.options)
+		}
+
 		layer.makePolygons(m, s.options.Slicing.JoinPolygonSnapDistance, s.options.Slicing.FinishPolygonSnapDistance)
 		lp, ok := c.GenerateLayerParts(layer)
 
-- 
2.43.0


From b56838a1ac4e93538a9cedaf0ca840f8052be368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 05/21] fix: clipping empty areas does not fail

---
 clip/clip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clip/clip.go b/clip/clip.go
index 1b119fb..a72ad5b 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -301,7 +301,7 @@ func (c clipperClipper) Union(parts []data.LayerPart, toMerge []data.LayerPart)
 }
 
 func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.LayerPart, toClip []data.LayerPart) (clippedParts []data.LayerPart, ok bool) {
-	if parts == nil && toClip == nil {
+	if len(parts) == 0 && len(toClip) == 0 {
 		return nil, true
 	}
 
-- 
2.43.0


From 54d4590d20564209e5c6fdf7ca01a1b3763620a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 06/21] fix: infill modifiers do not stop at a layer without
 perimeters

---
 modifier/infill.go          | 12 ++++++++++--
 modifier/internal_infill.go |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/modifier/infill.go b/modifier/infill.go
index dbf51be..d34ef87 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -43,14 +43,22 @@ func TopInfill(layer data.PartitionedLayer) ([]data.LayerPart, error) {
 func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil {
+			// There is nothing to fill in this layer.
+			continue
+		}
 
 		perimeters, err := Perimeters(layers[layerNr])
-		if err != nil || perimeters == nil {
+		if err != nil {
 			return err
 		}
+		if perimeters == nil {
+			// There is nothing to fill in this layer.
+			continue
+		}
 
 		var bottomInfill []data.LayerPart
 		var topInfill []data.LayerPart
diff --git a/modifier/internal_infill.go b/modifier/internal_infill.go
index bf9ccbe..fb77b49 100644
--- a/modifier/internal_infill.go
+++ b/modifier/internal_infill.go
@@ -27,9 +27,13 @@ func NewInternalInfillModifier(options *data.Options) handler.LayerModifier {
 func (m internalInfillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil {
+			// There is nothing to fill in this layer.
+			continue
+		}
 
 		bottomInfill, err := BottomInfill(layers[layerNr])
 		if err != nil {
-- 
2.43.0


From e7fe0f7bda4cb08b4a4a2c20c5ace5932ef426d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 07/21] fix: keep the old option value if the new one could not
 be parsed

---
 data/option.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data/option.go b/data/option.go
index bbce068..9ed9364 100644
--- a/data/option.go
+++ b/data/option.go
@@ -21,8 +21,11 @@ func (m Micrometer) String() string {
 
 func (m *Micrometer) Set(s string) error {
 	v, err := strconv.ParseInt(s, 0, 64)
+	if err != nil {
+		return err
+	}
 	*m = Micrometer(v)
-	return err
+	return nil
 }
 
 func (m Micrometer) Type() string {
@@ -35,8 +38,11 @@ func (m Millimeter) String() string {
 
 func (m *Millimeter) Set(s string) error {
 	v, err := strconv.ParseFloat(s, 32)
+	if err != nil {
+		return err
+	}
 	*m = Millimeter(v)
-	return err
+	return nil
 }
 
 func (m Millimeter) Type() string {
-- 
2.43.0


From ceb4db89d2f00401f04476ce9f720a596018390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 08/21] fix: do not interpret custom gcode and comments as
 format string

---
 gcode/renderer/infill.go | 2 +-
 gcode/renderer/layer.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gcode/renderer/infill.go b/gcode/renderer/infill.go
index cf5a22b..b34b362 100644
--- a/gcode/renderer/infill.go
+++ b/gcode/renderer/infill.go
@@ -44,7 +44,7 @@ func (i *Infill) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.
 
 	for _, part := range infillParts {
 		for _, c := range i.Comments {
-			b.AddComment(c)
+			b.AddComment("%s", c)
 		}
 
 		infill, err := i.pattern.Fill(layerNr, part)
diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 4c424ef..d68cd6c 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -48,7 +48,7 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 			if strings.Contains(instruction, HotendTempTemplate) {
 				instruction = strings.Replace(instruction, HotendTempTemplate, fmt.Sprint(options.Filament.InitialHotEndTemperature), -1)
 			}
-			b.AddCommand(instruction)
+			b.AddCommand("%s", instruction)
 		}
 
 		b.AddCommand("G92 E0 ; reset extrusion distance")
@@ -118,7 +118,7 @@ func (PostLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.
 			}
 		}
 		for _, instruction := range options.Printer.EndGCode.GCodeLines {
-			b.AddCommand(instruction)
+			b.AddCommand("%s", instruction)
 		}
 
 	}
-- 
2.43.0


From 0d8bfd65581cbd0722c90d6a0d332115e00f64d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 09/21] fix: do not add a bed temperature command if there is
 no heated bed

---
 gcode/renderer/layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index d68cd6c..1a205a4 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -89,7 +89,9 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 		// set the normal temperature
 		// this is done without waiting
 		b.AddComment("SET_TEMP")
-		b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		if options.Printer.HasHeatedBed {
+			b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		}
 		b.AddCommand("M104 S%d", options.Filament.HotEndTemperature)
 	}
 
-- 
2.43.0


From dbd5c5be12629479c9e755ef4c3318bce8937f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 10/21] fix: use the outer perimeter speed only for the outer
 perimeters

---
 gcode/renderer/perimeter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcode/renderer/perimeter.go b/gcode/renderer/perimeter.go
index 297308a..03ce8c3 100644
--- a/gcode/renderer/perimeter.go
+++ b/gcode/renderer/perimeter.go
@@ -55,5 +55,8 @@ func (p Perimeter) Render(b *gcode.Builder, layerNr int, maxLayer int, layer dat
 		}
 	}
 
+	// Everything which follows the perimeters has to use the normal speed again.
+	b.SetExtrudeSpeed(options.Print.LayerSpeed)
+
 	return nil
 }
-- 
2.43.0


From 89b5b9ffd01dccbdb87999625a8e9c41c2fb9e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:43 +0000
Subject: [PATCH 11/21] fix: clip the support by the model also if there is no
 top gap

---
 modifier/support.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modifier/support.go b/modifier/support.go
index 2f48376..b5ff466 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -134,8 +134,8 @@ func NewSupportGeneratorModifier(options *data.Options) handler.LayerModifier {
 func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 	var lastSupport []data.LayerPart = nil
 
-	// for each layer starting at the 2nd top layer (the top layer won't need support)
-	for layerNr := len(layers) - 2; layerNr >= 0; layerNr-- {
+	// for each layer starting at the top layer (always the support for the layer below is generated)
+	for layerNr := len(layers) - 1; layerNr >= 0; layerNr-- {
 		if !m.options.Print.Support.Enabled || layerNr == 0 {
 			return nil
 		}
-- 
2.43.0


From dbb63be551e20cb7a0d1fadede1409b5175384de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:01 +0000
Subject: [PATCH 12/21] fix: simplifying a path does not modify the given path

---
 data/2d.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/2d.go b/data/2d.go
index 52994bc..d511e4b 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -43,7 +43,7 @@ func douglasPeucker(points Path, ep Micrometer, depth int) Path {
 		// TODO: check if implementation without recursion would be possible and if it is more performant
 		left := douglasPeucker(points[:idx+1], ep, depth+1)
 		right := douglasPeucker(points[idx:], ep, depth+1)
-		return append(left[:len(left)-1], right...)
+		return append(left[:len(left)-1:len(left)-1], right...)
 	}
 
 	// If the most distant point fails to pass the threshold test, then just return the two points
-- 
2.43.0


From 9a0d48614f120066e80d535b33d7e33701b827ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 13/21] fix: slicer returns an error if the layer thickness
 does not allow to slice the model

---
 slicer/slicer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index 5a6412f..ff78f39 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -15,6 +15,7 @@
 package slicer
 
 import (
+	"errors"
 	"fmt"
 	"github.com/aligator/goslice/clip"
 	"github.com/aligator/goslice/data"
@@ -31,8 +32,16 @@ func NewSlicer(options *data.Options) handler.ModelSlicer {
 }
 
 func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
+	if s.options.Print.LayerThickness <= 0 {
+		return nil, errors.New("the layer thickness has to be greater than 0")
+	}
+
 	layerCount := (m.Size().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
 
+	if layerCount <= 0 {
+		return nil, errors.New("the model is not high enough to be sliced with the given initial layer thickness")
+	}
+
 	layers := make([]*layer, layerCount)
 
 	for i := 0; i < m.FaceCount(); i++ {
-- 
2.43.0


From c52990617cdf82ffae89c8944a257378e1012858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 14/21] fix: optimizer supports a meld distance of 0

---
 optimizer/optimizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index a8ae8ef..9802c59 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -60,6 +60,10 @@ FacesLoop:
 			// create hash for the pos
 			// points which are within the meldDistance fall into the same category of the indices map
 			meldDistanceHash := pointHash(o.options.Slicing.MeldDistance)
+			if meldDistanceHash == 0 {
+				// only identical points fall into the same category
+				meldDistanceHash = 1
+			}
 			hash := ((pointHash(currentPoint.X()) + meldDistanceHash/2) / meldDistanceHash) ^
 				(((pointHash(currentPoint.Y()) + meldDistanceHash/2) / meldDistanceHash) << 10) ^
 				(((pointHash(currentPoint.Z()) + meldDistanceHash/2) / meldDistanceHash) << 20)
-- 
2.43.0


From e7d85f6c8281a58141e89b7269ce4025a19d1c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 15/21] fix: linear pattern returns an error if the lines have
 no distance

---
 clip/linear.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clip/linear.go b/clip/linear.go
index 8c9c18a..35b2655 100644
--- a/clip/linear.go
+++ b/clip/linear.go
@@ -179,6 +179,10 @@ func (p linear) sortInfill(unsorted data.Paths, zigZag bool, part data.LayerPart
 func (p linear) getInfill(min data.MicroPoint, max data.MicroPoint, outline clipper.Path, holes clipper.Paths, overlap float32, smallerLines data.Micrometer) (clipper.Paths, error) {
 	var result clipper.Paths
 
+	if p.lineDistance <= 0 {
+		return nil, errors.New("the distance between the infill lines has to be greater than 0")
+	}
+
 	// clip the paths with the lines using intersection
 	exset := clipper.Paths{outline}
 
-- 
2.43.0


From 5c256f7828210968d5701dc721c003247c9c2ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 16/21] fix: no crash on an extrusion width of 0

---
 goslice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/goslice.go b/goslice.go
index e58c8f1..7aff076 100644
--- a/goslice.go
+++ b/goslice.go
@@ -101,6 +101,11 @@ func NewGoSlice(options data.Options) *GoSlice {
 				// TODO: the calculation of the percentage is currently very basic and may not be correct.
 
 				if options.Print.InfillPercent != 0 {
+					if options.Printer.ExtrusionWidth <= 0 {
+						// Without a valid width no distance can be calculated, the pattern fails as soon as it has to fill anything.
+						return clip.NewLinearPattern(options.Printer.ExtrusionWidth, 0, min, max, options.Print.InfillRotationDegree, true, options.Print.InfillZigZag)
+					}
+
 					mm10 := data.Millimeter(10).ToMicrometer()
 					linesPer10mmFor100Percent := mm10 / options.Printer.ExtrusionWidth
 					linesPer10mmForInfillPercent := float64(linesPer10mmFor100Percent) * float64(options.Print.InfillPercent) / 100.0
-- 
2.43.0


From 136c6266852e537bf672c8e5614c66af1e555b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 17/21] fix: crossing test does not fail for a line without any
 length

---
 clip/clip.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clip/clip.go b/clip/clip.go
index a72ad5b..5e98641 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -325,6 +325,11 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 }
 
 func (c clipperClipper) IsCrossingPerimeter(parts []data.LayerPart, line data.Path) (result, ok bool) {
+	if len(line) == 2 && line[0].X() == line[1].X() && line[0].Y() == line[1].Y() {
+		// A line without any length cannot cross anything.
+		return false, true
+	}
+
 	// TODO: Is there a more performant way to detect this?
 	cl := clipper.NewClipper(clipper.IoReverseSolution) // inverse solution so that it is basically LINE - PARTS
 
-- 
2.43.0


From e7550ec441790d82d195880f6d69fccbc29f92a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:43 +0000
Subject: [PATCH 18/21] fix: the support keeps the whole configured gap to the
 model

---
 modifier/support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modifier/support.go b/modifier/support.go
index b5ff466..35fc136 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -169,7 +169,7 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 		}
 
 		// make the layer a bit bigger to create a gap between the support and the model
-		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()/2).ToOneDimension()
+		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()).ToOneDimension()
 
 		// subtract the model from the result
 		actualSupport, ok := cl.Difference(result, biggerLayer)
-- 
2.43.0


From 991e98edf5d32b27ecefbb559973facd4fbfe20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:43 +0000
Subject: [PATCH 19/21] fix: offset the layer by the whole distance to detect
 the needed support

---
 modifier/support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modifier/support.go b/modifier/support.go
index 35fc136..3e8f1e2 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -89,7 +89,7 @@ func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
 
 		// offset layer by d
 		cl := clip.NewClipper()
-		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), data.Micrometer(-math.Round(distance)), 1, -data.Micrometer(-math.Round(distance))/2).ToOneDimension()
+		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), data.Micrometer(-math.Round(distance)), 1, data.Micrometer(math.Round(distance))).ToOneDimension()
 
 		// subtract result from the next layer
 		support, ok := cl.Difference(layers[layerNr+1].LayerParts(), offsetLayer)
-- 
2.43.0


From b0b44176338a2d3c98afa010c65f5bf0dc84e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:44 +0000
Subject: [PATCH 20/21] fix: no support interface if there are no interface
 layers

---
 modifier/support.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modifier/support.go b/modifier/support.go
index 3e8f1e2..f9203bc 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -196,6 +196,11 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 				return err
 			}
 
+			if m.options.Print.Support.InterfaceLayers == 0 {
+				// Without any interface layers no part of the support is an interface.
+				supportAboveInterface = actualSupport
+			}
+
 			interfaceParts, ok = c.Difference(actualSupport, supportAboveInterface)
 			if !ok {
 				return errors.New("error while calculating interface parts")
-- 
2.43.0


From 03588f14e7d07555ab9a1e5fde517aaefa7d2476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:45 +0000
Subject: [PATCH 21/21] fix: generate the brim for all pieces of the outer
 perimeters

---
 modifier/brim.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index fce1862..b6381c6 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -92,10 +92,8 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 
 	for _, part := range perimeters {
 		for _, wall := range part {
-			if len(wall) > 0 {
-				// wall[0] is the outer perimeter
-				allOuterPerimeters = append(allOuterPerimeters, wall[0])
-			}
+			// One wall may consist of several pieces.
+			allOuterPerimeters = append(allOuterPerimeters, wall...)
 		}
 	}
 
-- 
2.43.0

