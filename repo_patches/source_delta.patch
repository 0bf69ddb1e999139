From 189baf8f4e5bac4534f6760fdc6b57d36a3c252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 01/30] fix: circular interpolation takes the shorter way for
 every pair of angles and reports the ratio relative to the start

---
 libs/mathlib/include/interpolation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index ef3ae0c..2eeaa02 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -178,14 +178,14 @@ Vec3<Real> lerp(const Vec3<Real>& from, const Vec3<Real>& to, Real ratio, Interp
 template <class Real>
 Real clerp(Real from, Real to, Real ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	return from + delta * ratio;
 }
 
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
@@ -195,11 +195,11 @@ Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle, Real& ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
-	ratio = angle / delta;
+	ratio = (delta == Real(0)) ? Real(1) : (angle - from) / delta;
 	return angle;
 }
 
-- 
2.43.0


From 340bed29e78d3e0adcf870e21ff7cdc0e7cec09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 02/30] fix: Vec3 slerp and slerpMaxAngle work beyond 90
 degrees and for opposite vectors

---
 libs/mathlib/include/impl/vec3.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index d29fc18..890fee0 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -124,9 +124,10 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 	else
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
-		Real sinAngle = n * n.normalized();
+		Real sinAngle = n.length();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
 
-		if (MATHLIB_NS::abs(sinAngle) < 0.05f)
+		if (sinAngle < Real(0.05) && cosAngle > Real(0))
 		{
 			x = u.x + (v.x - u.x) * ratio;
 			y = u.y + (v.y - u.y) * ratio;
@@ -135,7 +136,11 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 		}
 		else
 		{
-			Real angle = asin(sinAngle);
+			Real angle = ::atan2(sinAngle, cosAngle);
+
+			// Opposite vectors: any perpendicular axis
+			if (sinAngle == Real(0))
+				n = u % u.minorCoord();
 
 			Quat<Real> q;
 			q.set(n, angle * ratio);
@@ -170,16 +175,19 @@ Vec3<Real>& Vec3<Real>::slerpMaxAngle(const Vec3<Real>& u, const Vec3<Real>& v,
 	else
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
-		Real sinAngle = n * n.normalized();
+		Real sinAngle = n.length();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
 
-		Real angle = asin(sinAngle);
+		Real angle = ::atan2(sinAngle, cosAngle);
 
 		if (angle == Real(0))
 			return set(v);
 
-		Real actualAngle = (angle >= Real(0))
-			? ((angle > maxAngle) ? maxAngle : angle)
-			: ((angle < -maxAngle) ? -maxAngle : angle);
+		// Opposite vectors: any perpendicular axis
+		if (sinAngle == Real(0))
+			n = u % u.minorCoord();
+
+		Real actualAngle = (angle > maxAngle) ? maxAngle : angle;
 
 		Real ratio = actualAngle / angle;
 
-- 
2.43.0


From 8214286c9c14b19a2f36ac25ce4ed36494a9a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 03/30] fix: the product of matrices is classified by its own
 entries

---
 libs/mathlib/include/impl/mat2.h | 10 ++++++++--
 libs/mathlib/include/impl/mat3.h | 26 ++++++++++++++++++++------
 libs/mathlib/include/impl/mat4.h |  5 ++++-
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 2f23f9b..2e21286 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -103,7 +103,10 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 	y.x = ta * m.y.x + tb * m.y.y;
 	x.y = td * m.x.x + te * m.x.y;
 	y.y = td * m.y.x + te * m.y.y;
-	flags &= m.flags;
+	// Normal columns or orthogonal columns alone are not preserved by a product.
+	// As before, a product does not become an identity.
+	optimize();
+	flags &= ~Flags::Identity;
 	return *this;
 }
 
@@ -536,7 +539,10 @@ void Mat2<Real>::multiply(Mat2& dest, const Mat2& a, const Mat2& b)
 		dest.y.x = a.x.x * b.y.x + a.y.x * b.y.y;
 		dest.x.y = a.x.y * b.x.x + a.y.y * b.x.y;
 		dest.y.y = a.x.y * b.y.x + a.y.y * b.y.y;
-		dest.flags = a.flags & b.flags;
+		// Normal columns or orthogonal columns alone are not preserved by a product.
+		// As before, a product does not become an identity.
+		dest.optimize();
+		dest.flags &= ~Flags::Identity;
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 81736e5..4fa829f 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -336,7 +336,10 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 	x.z = tg * m.x.x + th * m.x.y + z.z * m.x.z;
 	y.z = tg * m.y.x + th * m.y.y + z.z * m.y.z;
 	z.z = tg * m.z.x + th * m.z.y + z.z * m.z.z;
-	flags &= m.flags;
+	// Normal columns or orthogonal columns alone are not preserved by a product.
+	// As before, a product does not become an identity.
+	optimize();
+	flags &= ~Flags::Identity;
 	return *this;
 }
 
@@ -448,7 +451,10 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
 	z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
-	flags &= m.flags;
+	// Normal columns or orthogonal columns alone are not preserved by a product.
+	// As before, a product does not become an identity.
+	optimize();
+	flags &= ~Flags::Identity;
 
 	return *this;
 }
@@ -543,7 +549,10 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
 	z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
-	flags &= m.flags;
+	// Normal columns or orthogonal columns alone are not preserved by a product.
+	// As before, a product does not become an identity.
+	optimize();
+	flags &= ~Flags::Identity;
 
 	return *this;
 }
@@ -716,7 +725,8 @@ Mat3<Real> Mat3<Real>::rotated(const Mat3& m) const
     r.y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
     r.z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
-    r.flags = flags & m.flags;
+    r.optimize();
+    r.flags &= ~Flags::Identity;
 
     return r;
 }
@@ -808,7 +818,8 @@ Mat3<Real> Mat3<Real>::rotatedPre(const Mat3& m) const
     r.y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
     r.z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
-    r.flags = flags & m.flags;
+    r.optimize();
+    r.flags &= ~Flags::Identity;
 
     return r;
 }
@@ -1084,7 +1095,10 @@ void Mat3<Real>::multiply(Mat3& dest, const Mat3& a, const Mat3& b)
 		dest.x.z = a.x.z * b.x.x + a.y.z * b.x.y + a.z.z * b.x.z;
 		dest.y.z = a.x.z * b.y.x + a.y.z * b.y.y + a.z.z * b.y.z;
 		dest.z.z = a.x.z * b.z.x + a.y.z * b.z.y + a.z.z * b.z.z;
-		dest.flags = a.flags & b.flags;
+		// Normal columns or orthogonal columns alone are not preserved by a product.
+		// As before, a product does not become an identity.
+		dest.optimize();
+		dest.flags &= ~Flags::Identity;
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index b10e63c..5810034 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1304,7 +1304,10 @@ void Mat4<Real>::multiply(Mat4& dest, const Mat4& a, const Mat4& b)
 		dest.z.w = a.x.w * b.z.x + a.y.w * b.z.y + a.z.w * b.z.z + a.t.w * b.z.w;
 		dest.t.w = a.x.w * b.t.x + a.y.w * b.t.y + a.z.w * b.t.z + a.t.w * b.t.w;
 
-		dest.flags = a.flags & b.flags;
+		// Normal columns or orthogonal columns alone are not preserved by a product.
+		// As before, a product does not become an identity.
+		dest.optimize();
+		dest.flags &= ~Flags::Identity;
 	}
 }
 
-- 
2.43.0


From 8d1a9eea199d944b465375edf89c046bf65ee1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 04/30] fix: rotating a Mat3 about a coordinate axis updates
 its classification

---
 libs/mathlib/include/impl/mat3.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 4fa829f..474fd85 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -525,7 +525,7 @@ Mat3<Real>& Mat3<Real>::rotate(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -623,7 +623,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -791,7 +791,7 @@ Mat3<Real> Mat3<Real>::rotated(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
@@ -884,7 +884,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
-- 
2.43.0


From 6de29fa8688fdfde831469eb9aedd1d4525086e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 05/30] fix: a matrix can be multiplied with itself in place

---
 libs/mathlib/include/impl/mat2.h  | 2 ++
 libs/mathlib/include/impl/mat3.h  | 8 ++++++++
 libs/mathlib/include/impl/mat34.h | 2 +-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 2e21286..a7bd0bf 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -94,6 +94,8 @@ Mat2<Real>& Mat2<Real>::operator*=(Real k)
 template <class Real>
 Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 {
+	if (this == &m)
+		return *this *= Mat2(m);
 	if (m.isIdentity())
 		return *this;
 	if (isIdentity())
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 474fd85..aa5381b 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -322,6 +322,8 @@ Mat3<Real>& Mat3<Real>::operator*=(Real k)
 template <class Real>
 Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 {
+	if (this == &m)
+		return *this *= Mat3(m);
 	if (m.isIdentity())
 		return *this;
 	if (isIdentity())
@@ -433,6 +435,9 @@ Mat3<Real>& Mat3<Real>::scale(const Vec3<Real>& coefficients)
 template <class Real>
 Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 {
+	if (this == &m)
+		return rotate(Mat3(m));
+
 	if (m.isIdentity())
 		return *this;
 
@@ -531,6 +536,9 @@ Mat3<Real>& Mat3<Real>::rotate(Coord axis, Real angle)
 template <class Real>
 Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 {
+	if (this == &m)
+		return rotatePre(Mat3(m));
+
 	if (m.isIdentity())
 		return *this;
 
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index b7f1428..6d8746f 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -342,8 +342,8 @@ Mat34<Real>& Mat34<Real>::transform(const Mat3<Real>& m)
 {
 	// r * v = m * (rs * v + t)
 	//       = (m * rs) * v + (m * t)
-	rs.rotate(m);
 	t = m * t;
+	rs.rotate(m);
 	return *this;
 }
 
-- 
2.43.0


From e77cacfa1a8c360eb07f8abe63b07943dda2f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 06/30] fix: a transposed matrix is classified by its own
 entries

---
 libs/mathlib/include/impl/mat2.h | 5 ++---
 libs/mathlib/include/impl/mat3.h | 5 ++---
 libs/mathlib/include/impl/mat4.h | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index a7bd0bf..f78280a 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -254,8 +254,7 @@ template <class Real>
 Mat2<Real>& Mat2<Real>::transpose()
 {
 	Real t = x.y; x.y = y.x; y.x = t;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -364,7 +363,7 @@ Mat2<Real> Mat2<Real>::transposed() const
 	r.x.y = y.x;
 	r.y.x = x.y;
 	r.y.y = y.y;
-	r.flags = flags;
+	r.optimize();
 	return r;
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index aa5381b..598157e 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -680,8 +680,7 @@ Mat3<Real>& Mat3<Real>::transpose()
 	t = x.y; x.y = y.x; y.x = t;
 	t = x.z; x.z = z.x; z.x = t;
 	t = y.z; y.z = z.y; z.y = t;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -909,7 +908,7 @@ Mat3<Real> Mat3<Real>::transposed() const
 	r.z.x = x.z;
 	r.z.y = y.z;
 	r.z.z = z.z;
-	r.flags = flags;
+	r.optimize();
 	return r;
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 5810034..5c1e2ef 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -645,8 +645,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 	r = y.z; y.z = z.y; z.y = r;
 	r = y.w; y.w = t.y; t.y = r;
 	r = z.w; z.w = t.z; t.z = r;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -914,7 +913,7 @@ Mat4<Real> Mat4<Real>::transposed() const
 	r.t.z = z.w;
 	r.t.w = t.w;
 
-	r.flags = flags;
+	r.optimize();
 
 	return r;
 }
-- 
2.43.0


From 6ce7e85ae8beb9bdc670f81484ac5c672af09da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 07/30] fix: a matrix can transform vectors in place

---
 libs/mathlib/include/impl/mat2.h  |  5 +++--
 libs/mathlib/include/impl/mat3.h  |  7 ++++---
 libs/mathlib/include/impl/mat34.h |  7 ++++---
 libs/mathlib/include/impl/mat4.h  | 32 +++++++++++++++++--------------
 4 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index f78280a..71e2f89 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -494,8 +494,9 @@ Mat2<CastReturnType> Mat2<Real>::cast() const
 template <class Real>
 void Mat2<Real>::transform(Vec2<Real>& dest, const Vec2<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x;
-	dest.y = src.x * x.y + src.y * y.y;
+	const Vec2<Real> u = src; // dest may be src
+	dest.x = u.x * x.x + u.y * y.x;
+	dest.y = u.x * x.y + u.y * y.y;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 598157e..6768895 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -1050,9 +1050,10 @@ Mat3<CastReturnType> Mat3<Real>::cast() const
 template <class Real>
 void Mat3<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	const Vec3<Real> u = src; // dest may be src
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index 6d8746f..e98c8e9 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -556,9 +556,10 @@ Mat34<CastReturnType> Mat34<Real>::cast() const
 template <class Real>
 void Mat34<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * rs.x.x + src.y * rs.y.x + src.z * rs.z.x + t.x;
-	dest.y = src.x * rs.x.y + src.y * rs.y.y + src.z * rs.z.y + t.y;
-	dest.z = src.x * rs.x.z + src.y * rs.y.z + src.z * rs.z.z + t.z;
+	const Vec3<Real> u = src; // dest may be src
+	dest.x = u.x * rs.x.x + u.y * rs.y.x + u.z * rs.z.x + t.x;
+	dest.y = u.x * rs.x.y + u.y * rs.y.y + u.z * rs.z.y + t.y;
+	dest.z = u.x * rs.x.z + u.y * rs.y.z + u.z * rs.z.z + t.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 5c1e2ef..1c898ab 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1145,9 +1145,10 @@ Mat4<CastReturnType> Mat4<Real>::cast() const
 template <class Real>
 void Mat4<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + t.z;
+	const Vec3<Real> u = src; // dest may be src
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x + t.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y + t.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z + t.z;
 }
 
 template <class Real>
@@ -1176,10 +1177,11 @@ void Mat4<Real>::transform(Vec3<Real>* dest, const Vec3<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transform(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + src.w * t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + src.w * t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + src.w * t.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w + src.w * t.w;
+	const Vec4<Real> u = src; // dest may be src
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x + u.w * t.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y + u.w * t.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z + u.w * t.z;
+	dest.w = u.x * x.w + u.y * y.w + u.z * z.w + u.w * t.w;
 }
 
 template <class Real>
@@ -1208,9 +1210,10 @@ void Mat4<Real>::transform(Vec4<Real>* dest, const Vec4<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transformVector(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	const Vec3<Real> u = src; // dest may be src
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z;
 }
 
 template <class Real>
@@ -1239,10 +1242,11 @@ void Mat4<Real>::transformVector(Vec3<Real>* dest, const Vec3<Real>* src, size_t
 template <class Real>
 void Mat4<Real>::transformVector(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w;
+	const Vec4<Real> u = src; // dest may be src
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z;
+	dest.w = u.x * x.w + u.y * y.w + u.z * z.w;
 }
 
 template <class Real>
-- 
2.43.0


From aad3d4c626eea903ee4fcefa29e10395e9de26d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 08/30] fix: Mat4 inversion takes the rigid path only for rigid
 matrices and classifies its result

---
 libs/mathlib/include/impl/mat4.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 1c898ab..1947c05 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -651,7 +651,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 template <class Real>
 Mat4<Real>& Mat4<Real>::invert()
 {
-	if (isOrthonormal())
+	if (isTrs() && isOrthonormal())
 	{
 		Real r;
 		r = x.y; x.y = y.x; y.x = r;
@@ -666,9 +666,7 @@ Mat4<Real>& Mat4<Real>::invert()
 		t.y = -ty;
 		t.z = -tz;
 
-		// flags unchanged by transposition
-
-		return *this;
+		return optimize();
 	}
 
 	Real CF00 = (z.z * t.w - z.w * t.z);
@@ -713,7 +711,14 @@ Mat4<Real>& Mat4<Real>::invert()
 
 	Real det = x.x * inv.x.x + x.y * inv.y.x + x.z * inv.z.x + x.w * inv.t.x;
 
-	return (det == Real(0)) ? set(Zero) : set(inv / det);
+	if (det == Real(0))
+		return set(Zero);
+
+	inv /= det;
+
+	inv.optimize();
+
+	return set(inv);
 }
 
 
@@ -950,7 +955,7 @@ Real Mat4<Real>::determinant() const
 template <class Real>
 Mat4<Real> Mat4<Real>::inversed() const
 {
-	if (isOrthonormal())
+	if (isTrs() && isOrthonormal())
 	{
 		Mat4<Real> result;
 
@@ -974,7 +979,7 @@ Mat4<Real> Mat4<Real>::inversed() const
 		result.t.z = -(result.x.z * t.x + result.y.z * t.y + result.z.z * t.z);
 		result.t.w = Real(1);
 
-		result.flags = flags;
+		result.optimize();
 
 		return result;
 	}
-- 
2.43.0


From de16022e8961df190113c49f30d9f83cec31829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 09/30] fix: Mat4 translation and scaling update the
 classification

---
 libs/mathlib/include/impl/mat4.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 1947c05..c7ac1c6 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -480,6 +480,7 @@ Mat4<Real>& Mat4<Real>::translate(const Vec3<Real>& translation)
 	t += translation;
 	if (!translation.isNull())
 	{
+		optimize();
 		flags &= ~Flags::Identity;
 	}
 	return *this;
@@ -498,8 +499,8 @@ Mat4<Real>& Mat4<Real>::scale(const Vec3<Real>& coefficients)
 	t.z *= coefficients.z;
 	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
 	{
+		optimize();
 		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
 	}
 	return *this;
 }
@@ -553,6 +554,7 @@ Mat4<Real>& Mat4<Real>::translatePre(const Vec3<Real>& translation)
 	t += delta;
 	if (!translation.isNull())
 	{
+		optimize();
 		flags &= ~Flags::Identity;
 	}
 	return *this;
@@ -568,8 +570,8 @@ Mat4<Real>& Mat4<Real>::scalePre(const Vec3<Real>& coefficients)
 	z *= coefficients.z;
 	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
 	{
+		optimize();
 		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
 	}
 	return *this;
 }
-- 
2.43.0


From 6e9b697eb466669f795e0d7c1f958af46ef573d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 10/30] fix: box hits() compares the entry with the exit
 parameter and accepts starts within a slab

---
 libs/mathlib/include/impl/aabb2.h | 45 +++++++++++++++--------
 libs/mathlib/include/impl/aabb3.h | 61 ++++++++++++++++++++-----------
 2 files changed, 70 insertions(+), 36 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index d6f290d..40f6ab7 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -384,7 +384,8 @@ bool AABB2<Real>::contains(const AABB2<Real>& box) const
 template <class Real>
 bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
 {
-    t = Real(0);
+    t = std::numeric_limits<Real>::lowest();
+    Real t2 = std::numeric_limits<Real>::max();
 
     if (ray.direction.x == Real(0))
     {
@@ -401,10 +402,12 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
     if (ray.direction.y == Real(0))
@@ -422,19 +425,26 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
+    // The ray has to enter the box
+    if (t < Real(0))
+        return false;
+
     return true;
 }
 
 template <class Real>
 bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
 {
-    t = Real(0);
+    t = std::numeric_limits<Real>::lowest();
+    Real t2 = std::numeric_limits<Real>::max();
 
     Vec2<Real> delta = line.end - line.start;
 
@@ -453,10 +463,12 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
     if (delta.y == Real(0))
@@ -474,13 +486,16 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
-    if (t > Real(1))
+    // The line has to enter the box
+    if (t < Real(0) || t > Real(1))
         return false;
     
     return true;
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index 8670fb4..e6e7e55 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -405,7 +405,8 @@ bool AABB3<Real>::contains(const AABB3<Real>& box) const
 template <class Real>
 bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
 {
-    t = Real(0);
+    t = std::numeric_limits<Real>::lowest();
+    Real t2 = std::numeric_limits<Real>::max();
 
     if (ray.direction.x == Real(0))
     {
@@ -422,10 +423,12 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
     if (ray.direction.y == Real(0))
@@ -443,10 +446,12 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
     if (ray.direction.z == Real(0))
@@ -464,19 +469,26 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
+    // The ray has to enter the box
+    if (t < Real(0))
+        return false;
+
     return true;
 }
 
 template <class Real>
 bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
 {
-    t = Real(0);
+    t = std::numeric_limits<Real>::lowest();
+    Real t2 = std::numeric_limits<Real>::max();
 
     Vec3<Real> delta = line.end - line.start;
 
@@ -495,10 +507,12 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
     if (delta.y == Real(0))
@@ -516,10 +530,12 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
     if (delta.z == Real(0))
@@ -537,13 +553,16 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
-    if (t > Real(1))
+    // The line has to enter the box
+    if (t < Real(0) || t > Real(1))
         return false;
     
     return true;
-- 
2.43.0


From b6d224ad5474d358f113f5156a81f9c18df02ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 11/30] fix: Plane::project along a direction honours the
 plane's distance

---
 libs/mathlib/include/impl/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/plane.h b/libs/mathlib/include/impl/plane.h
index 753c692..0ea12d5 100644
--- a/libs/mathlib/include/impl/plane.h
+++ b/libs/mathlib/include/impl/plane.h
@@ -214,7 +214,7 @@ bool Plane<Real>::project(Vec3<Real>& projection, const Vec3<Real>& point, const
 	if (f == Real(0))
 		return false;
 
-	projection = point - direction * ((point * normal) / f);
+	projection = point - direction * ((point * normal - d) / f);
 
 	return true;
 }
-- 
2.43.0


From d2b8705a1cf805a2685ba5d7101e8576a61ae259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 12/30] fix: distance to a ray is that to its nearest point,
 also collinear with or behind the start

---
 libs/mathlib/include/impl/ray2.h |  5 ++++-
 libs/mathlib/include/impl/ray3.h | 10 ++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/libs/mathlib/include/impl/ray2.h b/libs/mathlib/include/impl/ray2.h
index e727d67..e08c847 100644
--- a/libs/mathlib/include/impl/ray2.h
+++ b/libs/mathlib/include/impl/ray2.h
@@ -45,7 +45,10 @@ Vec2<Real> Ray2<Real>::pointAt(Real dist) const
 template <class Real>
 Real Ray2<Real>::distance(const Vec2<Real> &point) const
 {
-	return MATHLIB_NS::abs(-direction.y * (point.x - start.x) + direction.x * (point.y - start.y));
+	Vec2<Real> delta = point - start;
+	return (delta * direction <= Real(0))
+		? delta.length()
+		: MATHLIB_NS::abs(-direction.y * delta.x + direction.x * delta.y);
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/ray3.h b/libs/mathlib/include/impl/ray3.h
index 6361383..cad4a8e 100644
--- a/libs/mathlib/include/impl/ray3.h
+++ b/libs/mathlib/include/impl/ray3.h
@@ -45,12 +45,10 @@ Vec3<Real> Ray3<Real>::pointAt(Real dist) const
 template <class Real>
 Real Ray3<Real>::distance(const Vec3<Real>& point) const
 {
-	Vec3<Real> northo = (point - start) % direction;
-	Vec3<Real> n = direction % northo;
-	Real l = n.normalize();
-	return (l == Real(0))
-		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+	Vec3<Real> delta = point - start;
+	return (delta * direction <= Real(0))
+		? delta.length()
+		: (direction % delta).length();
 }
 
 template <class Real>
-- 
2.43.0


From 3372924db57eadda76df2ee69bfd8ee985148796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:43 +0000
Subject: [PATCH 13/30] fix: Line3::distance to a collinear point is zero

---
 libs/mathlib/include/impl/line3.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/line3.h b/libs/mathlib/include/impl/line3.h
index 4c5f560..36c2472 100644
--- a/libs/mathlib/include/impl/line3.h
+++ b/libs/mathlib/include/impl/line3.h
@@ -64,12 +64,10 @@ template <class Real>
 Real Line3<Real>::distance(const Vec3<Real>& point) const
 {
 	Vec3<Real> d = end - start;
-	Vec3<Real> northo = (point - start) % d;
-	Vec3<Real> n = d % northo;
-	Real l = n.normalize();
+	Real l = d.normalize();
 	return (l == Real(0))
 		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+		: (d % (point - start)).length();
 }
 
 template <class Real>
-- 
2.43.0


From ecaef942d6da0903d257185786baebbd1bdd9538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 14/30] fix: Frustum tests keep the distance in the frustum's
 own precision

---
 libs/mathlib/include/impl/frustum.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/frustum.h b/libs/mathlib/include/impl/frustum.h
index 4504c6a..77497b2 100644
--- a/libs/mathlib/include/impl/frustum.h
+++ b/libs/mathlib/include/impl/frustum.h
@@ -85,9 +85,9 @@ bool Frustum<Real>::contains(const Vec3<Real>& point) const
 {
 	for (int i = 0; i < 6; i++)
     {
-		float distance = planes[i].distance(point);
+		Real distance = planes[i].distance(point);
 
-        if (distance > 0.0f)
+        if (distance > Real(0))
         {
 			return false;
         }
@@ -107,7 +107,7 @@ bool Frustum<Real>::contains(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > -sphere.radius)
         {
@@ -123,7 +123,7 @@ bool Frustum<Real>::intersects(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > sphere.radius)
         {
-- 
2.43.0


From 50139b188173d69a3252073589d7a74f9066b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 15/30] fix: GaussJordan leaves the inverse in the matrix, as
 documented

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index f532b34..958ce6e 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -202,9 +202,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 
 		// Normalize row
 		pivinv = Real(1) / a[icol*n+icol];
+		a[icol*n+icol] = Real(1);
 		for (l = 0; l < n; l++)
 			a[icol*n+l] *= pivinv;
-		a[icol*n+icol] = Real(1);
 		for (l = 0; l < m; l++)
 			b[icol*m+l] *= pivinv;
 
@@ -215,9 +215,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 			{
 				// ...except for the pivot one, of course.
 				dum = a[ll*n+icol];
+				a[ll*n+icol] = Real(0);
 				for (l = 0; l < n; l++)
 					a[ll*n+l] -= a[icol*n+l]*dum;
-				a[ll*n+icol] = Real(0);
 				for (l = 0; l < m; l++)
 					b[ll*m+l] -= b[icol*m+l]*dum;
 			}
-- 
2.43.0


From e730a47f17f9fd9f7c7e5cf5d03329d81ec14c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 16/30] fix: TriDiagonal::solveCyclic reports a singular system
 instead of dividing by zero

---
 libs/mathlib/include/impl/linearequations.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index 958ce6e..a51fbf0 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -103,11 +103,16 @@ bool TriDiagonal<Real>::solveCyclic(const Real* a, const Real* b, const Real* c,
 		if (result)
 		{
 			// Form v · x / (1 + v · z).
-			Real fact = (x[0] + beta * x[n-1] / gamma) / (Real(1) + z[0] + beta * z[n-1] / gamma);
+			Real den = Real(1) + z[0] + beta * z[n-1] / gamma;
+			result = den != Real(0);
+			if (result)
+			{
+				Real fact = (x[0] + beta * x[n-1] / gamma) / den;
 
-			// Now get the solution vector x
-			for (int i = 0; i < n; i++)
-				x[i] -= fact * z[i];
+				// Now get the solution vector x
+				for (int i = 0; i < n; i++)
+					x[i] -= fact * z[i];
+			}
 		}
 	}
 	
-- 
2.43.0


From 4631db2f86c5c061848f6255df8f008c0e069728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 17/30] fix: GaussJordan compares pivots in the precision of
 the matrix

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index a51fbf0..b9c332c 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -160,9 +160,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 				{
 					if (ipiv[k] == -1)
 					{
-						if (fabsf(a[j*n+k]) >= big)
+						if (MATHLIB_NS::abs(a[j*n+k]) >= big)
 						{
-							big = fabsf(a[j*n+k]);
+							big = MATHLIB_NS::abs(a[j*n+k]);
 							irow = j;
 							icol = k;
 						}
-- 
2.43.0


From 36835dc759b99b5fb9bfc56ce7824ad2005993b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 18/30] fix: fmodPositive stays below the divisor for a tiny
 negative argument

---
 libs/mathlib/include/functions.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 91baa75..cd7c495 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -124,7 +124,13 @@ Real fmodPositive(Real x, Real y)
 {
 	assert(y > Real(0));
 	Real r = ::fmod(x, y);
-	return (r >= Real(0)) ? r : y + r;
+	if (r < Real(0))
+	{
+		r += y;
+		if (r >= y)	// rounded up to the divisor
+			r = Real(0);
+	}
+	return r;
 }
 
 template <class Real>
-- 
2.43.0


From 46e1b0daa0edf2064a9d06c31707fec28ab20cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 19/30] fix: quartic and quintic easing compute in the
 precision of the ratio

---
 libs/mathlib/include/interpolation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index 2eeaa02..83d3380 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -72,11 +72,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuarticIn:	return t * t * t * t;
 	case InterpolationMode::QuarticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return -t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuarticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? Real(8) * t * t * t * t
 			: -Real(0.5) * (t0 * t0 * t0 * t0 - Real(2));
@@ -84,11 +84,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuinticIn:	return t * t * t * t * t;
 	case InterpolationMode::QuinticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return t0 * t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuinticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? 16.0f * t * t * t * t * t
 			: Real(0.5) * (t0 * t0 * t0 * t0 * t0 + Real(2));
-- 
2.43.0


From 6fa24e4665d77b96edecbb644fb8a4c288f93fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 20/30] fix: the hue of a colour stays below 360 degrees when a
 tiny negative one is wrapped

---
 libs/mathlib/include/impl/colorrgb.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/colorrgb.h b/libs/mathlib/include/impl/colorrgb.h
index 70787b1..546777e 100644
--- a/libs/mathlib/include/impl/colorrgb.h
+++ b/libs/mathlib/include/impl/colorrgb.h
@@ -237,7 +237,8 @@ ColorHSV<Real> ColorRGB<Real>::toHSV() const
         {
             h += Real(6);
         }
-        else if (h >= Real(6))
+
+        if (h >= Real(6))
         {
             h -= Real(6);
         }
-- 
2.43.0


From 6d39eea5812bd86ff66569121818b5bc76c4f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 21/30] fix: dividing quaternions multiplies by the inverse of
 the divisor

---
 libs/mathlib/include/impl/quat.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 62e67a9..1e8d7d8 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -461,10 +461,8 @@ Quat<Real> Quat<Real>::operator - () const
 template <class Real>
 Quat<Real> Quat<Real>::operator / (const Quat &q) const
 {
-	//invert q; r = q^(-1), assumes q is normalized
-	Quat r = Quat(-q.x, -q.y, -q.z, q.w);
-	Real s = Real(1) / (r.w * r.w - r.x * r.x - r.y * r.y - r.z * r.z);
-	Quat p = *this * q;
+	Real s = Real(1) / (q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w);
+	Quat p = *this * q.inverse();
 	p.x *= s;
 	p.y *= s;
 	p.z *= s;
-- 
2.43.0


From 02937343927744c78966d784be4b81340e9e02ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 22/30] fix: toAxisAngle keeps small rotations and accepts a
 rounded unit quaternion

---
 libs/mathlib/include/impl/quat.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 1e8d7d8..07de4e2 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -572,19 +572,14 @@ Quat<Real> Quat<Real>::inverse() const
 template <class Real>
 void Quat<Real>::toAxisAngle(Vec3<Real> &axis, Real &angle) const
 {
-	assert(w >= Real(-1) && w <= Real(1));
-
-	Real s2 = Real(1) - w * w;
-	Real len = (Real)(x * x + y * y + z * z);
-    if (len > Real(DELTA) && s2 > Real(0))
+	Real len = sqrt(x * x + y * y + z * z);
+	if (len > Real(0))
 	{
-	    angle = (Real)(Real(2) * acos(w));
-		Real recip = Real(1) / sqrt(s2);
-		axis.x = x * recip;
-		axis.y = y * recip;
-		axis.z = z * recip;
-		axis.normalize();
-    }
+		angle = Real(2) * ::atan2(len, w);
+		axis.x = x / len;
+		axis.y = y / len;
+		axis.z = z / len;
+	}
     else
 	{
 		axis = Vec3<Real>::OneX;
-- 
2.43.0


From 0340758934520bdfdaae5f2ee7f0e2f2b04c3aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 23/30] fix: slerpMaxAngle turns from the start along the
 shorter arc

---
 libs/mathlib/include/impl/quat.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 07de4e2..08aa20f 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -229,11 +229,21 @@ Quat<Real>& Quat<Real>::slerpMaxAngle(const Quat& from, const Quat& to, Real max
 
 	Quat fromto = from.inverse() * to;
 
+	// Shorter arc
+	if (fromto.w < Real(0))
+		fromto = -fromto;
+
 	Vec3<Real> axis;
 	Real angle;
 	fromto.toAxisAngle(axis, angle);
 
-	return set(axis, min(angle, maxAngle));
+	if (angle <= maxAngle)
+		return set(to);
+
+	Quat turn;
+	turn.set(axis, maxAngle);
+
+	return set(from * turn);
 }
 
 template <class Real>
-- 
2.43.0


From 1a9e328b859900dd3875c0ba393b51d9c0790f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 24/30] fix: the rotation between two directions handles
 opposite and nearly parallel ones

---
 libs/mathlib/include/impl/quat.h | 33 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 08aa20f..e097f1c 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -143,31 +143,26 @@ Quat<Real>& Quat<Real>::set(const Vec3<Real>& from2, const Vec3<Real>& to2)
 	Vec3<Real> from = from2.normalized();
 	Vec3<Real> to = to2.normalized();
 
-	Real cost = from * to;
-	if (cost > Real(0.99999))
+	// from % to, without cancellation for nearly opposite vectors
+	Vec3<Real> sum = from + to;
+	Vec3<Real> t = from % sum;
+	if (t.length() <= Real(4) * std::numeric_limits<Real>::epsilon())
 	{
-		x = Real(0);
-		y = Real(0);
-		z = Real(0);
-		w = Real(1);
-		return *this;
-	}
-	if (cost < Real(-0.99999))
-	{
-		x = Real(0);
-		y = Real(0);
-		z = Real(0);
-		w = Real(-1);
-		return *this;
-	}
+		if (from * to >= Real(0))
+		{
+			return setIdentity();
+		}
 
-	Vec3<Real> t = (from % to).normalized();
+		// Opposite vectors: any perpendicular axis
+		t = from % from.minorCoord();
+	}
+	t.normalize();
 
-	Real s = sqrt(Real(0.5) * (Real(1) - cost));
+	Real s = (from - to).length() * Real(0.5);
 	x = t.x * s;
 	y = t.y * s;
 	z = t.z * s;
-	w = sqrt(Real(0.5) * (Real(1) + cost));
+	w = sum.length() * Real(0.5);
 	return *this;
 }
 
-- 
2.43.0


From e3103d699b7f55a1d3c0e0bd9484574c0b031bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 25/30] fix: Quat::set(from, via, to) compiles

---
 libs/mathlib/include/impl/quat.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index e097f1c..4855fc8 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -288,11 +288,13 @@ Quat<Real>& Quat<Real>::set(const Quat& from, const Quat& via, const Quat& to)
 	qni.z = -via.z;
 	qni.w = via.w;
 
-	Quat tmp = log(qni * from) + log(qni * to);
-	tmp.x *= -0.25f;
-	tmp.y *= -0.25f;
-	tmp.z *= -0.25f;
-	tmp.w *= -0.25f;
+	Quat a = log(qni * from);
+	Quat b = log(qni * to);
+	Quat tmp;
+	tmp.x = (a.x + b.x) * Real(-0.25);
+	tmp.y = (a.y + b.y) * Real(-0.25);
+	tmp.z = (a.z + b.z) * Real(-0.25);
+	tmp.w = (a.w + b.w) * Real(-0.25);
 
 	return set(via * exp(tmp));
 }
-- 
2.43.0


From 967b994befc24636d1e00dc80288d36af0f8b042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 26/30] fix: slerp of vectors that are opposite up to rounding

---
 libs/mathlib/include/impl/vec3.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index 890fee0..8fec947 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -123,7 +123,9 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 	}
 	else
 	{
-		Vec3<Real> n = (u % v) / (lengthU * lengthV);
+		// u % v, without cancellation for nearly opposite vectors
+		Vec3<Real> a = u / lengthU;
+		Vec3<Real> n = a % (a + v / lengthV);
 		Real sinAngle = n.length();
 		Real cosAngle = (u * v) / (lengthU * lengthV);
 
@@ -139,7 +141,7 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 			Real angle = ::atan2(sinAngle, cosAngle);
 
 			// Opposite vectors: any perpendicular axis
-			if (sinAngle == Real(0))
+			if (sinAngle <= Real(4) * std::numeric_limits<Real>::epsilon())
 				n = u % u.minorCoord();
 
 			Quat<Real> q;
@@ -174,7 +176,9 @@ Vec3<Real>& Vec3<Real>::slerpMaxAngle(const Vec3<Real>& u, const Vec3<Real>& v,
 	}
 	else
 	{
-		Vec3<Real> n = (u % v) / (lengthU * lengthV);
+		// u % v, without cancellation for nearly opposite vectors
+		Vec3<Real> a = u / lengthU;
+		Vec3<Real> n = a % (a + v / lengthV);
 		Real sinAngle = n.length();
 		Real cosAngle = (u * v) / (lengthU * lengthV);
 
@@ -184,7 +188,7 @@ Vec3<Real>& Vec3<Real>::slerpMaxAngle(const Vec3<Real>& u, const Vec3<Real>& v,
 			return set(v);
 
 		// Opposite vectors: any perpendicular axis
-		if (sinAngle == Real(0))
+		if (sinAngle <= Real(4) * std::numeric_limits<Real>::epsilon() && cosAngle < Real(0))
 			n = u % u.minorCoord();
 
 		Real actualAngle = (angle > maxAngle) ? maxAngle : angle;
-- 
2.43.0


From a30c221a80246558710c40b798aed785297ded2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 27/30] fix: log of a quaternion keeps small rotations and
 those near a full turn

---
 libs/mathlib/include/impl/quat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 4855fc8..4886ea5 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -620,8 +620,8 @@ Quat<CastReturnType> Quat<Real>::cast() const
 template <class Real>
 Quat<Real> Quat<Real>::log(const Quat &q)
 {
-	Real a = acos(q.w);
-	Real sina = sin(a);
+	Real sina = sqrt(q.x * q.x + q.y * q.y + q.z * q.z);
+	Real a = ::atan2(sina, q.w);
 
 	Quat ret;
 	ret.w = Real(0);
-- 
2.43.0


From 76111df0acd4a091030dd50b08fdb3d68cd883d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 28/30] fix: cubic segments may be set from, or split into,
 themselves

---
 libs/mathlib/include/impl/spline3.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 77f11ed..cd1118a 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -23,10 +23,7 @@ HermiteSplineSegment3<Real>::HermiteSplineSegment3(const Vec3<Real>& p1, const V
 template <class Real>
 void HermiteSplineSegment3<Real>::set(const Vec3<Real>& p1, const Vec3<Real>& p4, const Vec3<Real>& r1, const Vec3<Real>& r4)
 {
-	P1 = p1;
-	P4 = p4;
-	R1 = r1;
-	R4 = r4;
+	*this = HermiteSplineSegment3(p1, p4, r1, r4);
 }
 
 template <class Real>
@@ -160,10 +157,7 @@ BezierSegment3<Real>::BezierSegment3(const Vec3<Real>& p1, const Vec3<Real>& p2,
 template <class Real>
 void BezierSegment3<Real>::set(const Vec3<Real>& p1, const Vec3<Real>& p2, const Vec3<Real>& p3, const Vec3<Real>& p4)
 {
-	P1 = p1;
-	P2 = p2;
-	P3 = p3;
-	P4 = p4;
+	*this = BezierSegment3(p1, p2, p3, p4);
 }
 
 template <class Real>
@@ -290,6 +284,9 @@ void BezierSegment3<Real>::split(Real a, BezierSegment3 &start, BezierSegment3 &
 	Real ca2 = ca * ca;
 	Real ca3 = ca * ca2;
 
+	// start or end may be this segment
+	const Vec3<Real> P1 = this->P1, P2 = this->P2, P3 = this->P3, P4 = this->P4;
+
 	start.P1	= P1;
 	start.P2	= P1 * ca	+ P2 * a;
 	start.P3	= P1 * ca2	+ P2 * (Real(2)*a*ca)	+ P3 * a2;
-- 
2.43.0


From f4c680277d7b4cd3e2101e7c430df22479dca245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 29/30] fix: the forward-difference aliases name the existing
 class

---
 libs/mathlib/include/common.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/common.h b/libs/mathlib/include/common.h
index b63626b..8b46987 100644
--- a/libs/mathlib/include/common.h
+++ b/libs/mathlib/include/common.h
@@ -80,7 +80,7 @@ template <class Real> class Circle;
 template <class Real> class Sphere;
 template <class Real> class HermiteSplineSegment3;
 template <class Real> class BezierSegment3;
-template <class Real> class BezierSegmentFwdDiff3;
+template <class Real> class BezierSegment3FwdDiff;
 template <class Real> class SplineSolver3;
 template <class Real> class Frustum;
 
@@ -112,7 +112,7 @@ typedef Circle<float> Circlef;
 typedef Sphere<float> Spheref;
 typedef HermiteSplineSegment3<float> HermiteSplineSegment3f;
 typedef BezierSegment3<float> BezierSegment3f;
-typedef BezierSegmentFwdDiff3<float> BezierSegmentFwdDiff3f;
+typedef BezierSegment3FwdDiff<float> BezierSegmentFwdDiff3f;
 typedef SplineSolver3<float> SplineSolver3f;
 typedef Frustum<float> Frustumf;
 
@@ -144,7 +144,7 @@ typedef Circle<double> Circled;
 typedef Sphere<double> Sphered;
 typedef HermiteSplineSegment3<double> HermiteSplineSegment3d;
 typedef BezierSegment3<double> BezierSegment3d;
-typedef BezierSegmentFwdDiff3<double> BezierSegmentFwdDiff3d;
+typedef BezierSegment3FwdDiff<double> BezierSegmentFwdDiff3d;
 typedef SplineSolver3<double> SplineSolver3d;
 typedef Frustum<double> Frustumd;
 
-- 
2.43.0


From 3ec03e7546ef64a3417eef18d53b89cec816a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 30/30] fix: closed spline through two points is smooth

---
 libs/mathlib/include/impl/spline3.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index cd1118a..f864f81 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -617,8 +617,9 @@ bool SplineSolver3<Real>::closedBezierSpline(int n, const Vec3<Real>* p1, Vec3<R
 		a[i*n+i+1]	= Real(1);
 	}
 
-	a[0]       = Real(4);	a[1]           = Real(1);	a[n-1]         = Real(1);
-	a[(n-1)*n] = Real(1);	a[(n-1)*n+n-2] = Real(1);	a[(n-1)*n+n-1] = Real(4);
+	// with two points the other one is both neighbours
+	a[0]       = Real(4);	a[1]           += Real(1);	a[n-1]         += Real(1);
+	a[(n-1)*n] += Real(1);	a[(n-1)*n+n-2] += Real(1);	a[(n-1)*n+n-1] = Real(4);
 
 	for (i = 0; i < n-1; i++)
 	{
-- 
2.43.0

