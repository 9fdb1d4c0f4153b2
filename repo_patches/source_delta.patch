From 132ae6af4eb7355fcf6dbea284be41a28ff07b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 1/4] fix: reject non-positive and oversized dimensions instead
 of panicking

---
 header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/header.go b/header.go
index 97581e0..d4375a3 100644
--- a/header.go
+++ b/header.go
@@ -119,6 +119,11 @@ func (c *Composite) parseHeader(reader *bufio.Reader) error {
 		c.Rx, c.Ry = v.rx, v.ry // data resolution
 	}
 
+	// Reject dimensions that do not fit the header format (four digits)
+	if c.Px < 1 || c.Px > 9999 || c.Py < 1 || c.Py > 9999 {
+		return newError("parseHeader", "invalid dimensions")
+	}
+
 	// Parse Precision - Example: "PR E-01" or "PR E+00"
 	if prec, ok := section["E"]; ok { // not that nice
 		if _, err := fmt.Sscanf(prec, "%d", &c.precision); err != nil {
-- 
2.43.0


From bb58f59543c3bae5724f330c2527ca9003606e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 2/4] fix: do not give a trailing header label the value of the
 previous field

---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index d4375a3..e888c90 100644
--- a/header.go
+++ b/header.go
@@ -33,6 +33,9 @@ func splitHeader(header string) (m map[string]string) {
 			endValue = i + 1
 		}
 	}
+	if !dispatch { // last key has no value
+		beginValue, endValue = 0, 0
+	}
 	m[header[beginKey:endKey]] = header[beginValue:endValue]
 
 	return
-- 
2.43.0


From 45a9d775d5e435690ed4ce528a5dcfd5c73c662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 3/4] fix: reject capture times that contain characters other
 than digits

---
 header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/header.go b/header.go
index e888c90..b8fc401 100644
--- a/header.go
+++ b/header.go
@@ -69,6 +69,11 @@ func (c *Composite) parseHeader(reader *bufio.Reader) error {
 
 	// Parse CaptureTime - Example: "PG262115100000616" or "FZ211615100000716"
 	date := header[2:8] + header[13:17] // cut WMO number
+	for _, r := range date {
+		if r < '0' || r > '9' { // time.Parse accepts a sign in the year
+			return newError("parseHeader", "could not parse capture time: not a digit")
+		}
+	}
 	c.CaptureTime, err = time.Parse("0215040106", date)
 	if err != nil {
 		return newError("parseHeader", "could not parse capture time: "+err.Error())
-- 
2.43.0


From 9d90fefd4c32de2c8992d1a4f740bd40fb353199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 4/4] fix: keep the catalogued resolution of local products
 without projection

---
 projection.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projection.go b/projection.go
index 3e95f1f..e3e6f67 100644
--- a/projection.go
+++ b/projection.go
@@ -90,8 +90,10 @@ func (c *Composite) cornerPoints(detectedGrid grid) (originTop, originLeft, edge
 
 // calibrateProjection initializes fields that are necessary for coordinate transformation
 func (c *Composite) calibrateProjection() {
-	c.Rx = math.NaN()
-	c.Ry = math.NaN()
+	if c.Rx == 0 || c.Ry == 0 { // keep resolution of local products
+		c.Rx = math.NaN()
+		c.Ry = math.NaN()
+	}
 	c.offx = math.NaN()
 	c.offy = math.NaN()
 
-- 
2.43.0

