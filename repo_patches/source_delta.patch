From f638de4fa81e789c6da0359a1f158ba5411eb7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 01/34] fix: circular interpolation takes the short way for
 every pair of angles

fmod keeps the sign of its argument, so angles whose difference is below -PI were
interpolated the long way round; the ratio reported by clerpMaxAngle was that of the
resulting angle instead of the performed turn (and 0/0 for equal angles).
---
 libs/mathlib/include/interpolation.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index ef3ae0c..dbafc0a 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -178,14 +178,14 @@ Vec3<Real> lerp(const Vec3<Real>& from, const Vec3<Real>& to, Real ratio, Interp
 template <class Real>
 Real clerp(Real from, Real to, Real ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	return from + delta * ratio;
 }
 
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
@@ -195,12 +195,12 @@ Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle, Real& ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
-	Real angle = (delta >= 0)
-		? (from + ((delta > maxAngle) ? maxAngle : delta))
-		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
-	ratio = angle / delta;
-	return angle;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
+	Real actualDelta = (delta >= 0)
+		? ((delta > maxAngle) ? maxAngle : delta)
+		: ((delta < -maxAngle) ? -maxAngle : delta);
+	ratio = (actualDelta == delta) ? Real(1) : (actualDelta / delta);
+	return from + actualDelta;
 }
 
 MATHLIB_NS_END
-- 
2.43.0


From ac654cf0cc33ba09d4b349b57c1ee0168eb9eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 02/34] fix: Vec3 slerp and slerpMaxAngle for angles above 90
 degrees

The angle was taken from its sine alone, so vectors at an obtuse angle were only
turned by the supplementary angle, and (nearly) opposite ones were blended through
the origin.
---
 libs/mathlib/include/impl/vec3.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index d29fc18..bbbacad 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -124,9 +124,10 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 	else
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
-		Real sinAngle = n * n.normalized();
+		Real sinAngle = n.length();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
 
-		if (MATHLIB_NS::abs(sinAngle) < 0.05f)
+		if (sinAngle < Real(0.05) && cosAngle > Real(0))
 		{
 			x = u.x + (v.x - u.x) * ratio;
 			y = u.y + (v.y - u.y) * ratio;
@@ -135,7 +136,11 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 		}
 		else
 		{
-			Real angle = asin(sinAngle);
+			Real angle = atan2(sinAngle, cosAngle);
+
+			// Opposite vectors: any perpendicular axis will do
+			if (sinAngle <= Real(4) * std::numeric_limits<Real>::epsilon())
+				n = u % u.minorCoord();
 
 			Quat<Real> q;
 			q.set(n, angle * ratio);
@@ -170,16 +175,19 @@ Vec3<Real>& Vec3<Real>::slerpMaxAngle(const Vec3<Real>& u, const Vec3<Real>& v,
 	else
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
-		Real sinAngle = n * n.normalized();
+		Real sinAngle = n.length();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
 
-		Real angle = asin(sinAngle);
+		Real angle = atan2(sinAngle, cosAngle);
 
 		if (angle == Real(0))
 			return set(v);
 
-		Real actualAngle = (angle >= Real(0))
-			? ((angle > maxAngle) ? maxAngle : angle)
-			: ((angle < -maxAngle) ? -maxAngle : angle);
+		// Opposite vectors: any perpendicular axis will do
+		if (cosAngle < Real(0) && sinAngle <= Real(4) * std::numeric_limits<Real>::epsilon())
+			n = u % u.minorCoord();
+
+		Real actualAngle = (angle > maxAngle) ? maxAngle : angle;
 
 		Real ratio = actualAngle / angle;
 
-- 
2.43.0


From 0ca2f83197cbd7d3b8861757809aba4c9f903590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 03/34] fix: Vec2(Vec3, Coord::Y) agrees with
 Vec3::toVec2(Coord::Y)

The remaining coordinates are taken in cyclic order by toVec2 and by the
Vec3(Vec2, Coord) constructor; this constructor swapped them.
---
 libs/mathlib/include/impl/vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/vec2.h b/libs/mathlib/include/impl/vec2.h
index 82dac3b..2e94e78 100644
--- a/libs/mathlib/include/impl/vec2.h
+++ b/libs/mathlib/include/impl/vec2.h
@@ -38,7 +38,7 @@ Vec2<Real>::Vec2(const Vec3<Real>& u, Coord drop)
 	switch (drop)
 	{
 	case Coord::X: x = u.y; y = u.z; break;
-	case Coord::Y: x = u.x; y = u.z; break;
+	case Coord::Y: x = u.z; y = u.x; break;
 	case Coord::Z: x = u.x; y = u.y; break;
 	default: assert(0);
 	}
-- 
2.43.0


From d12100922d59c89d6e5bc4489fd5b9cf07b09ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 04/34] fix: quartic and quintic easing of doubles was computed
 in single precision

---
 libs/mathlib/include/interpolation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index dbafc0a..6cbe1b0 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -72,11 +72,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuarticIn:	return t * t * t * t;
 	case InterpolationMode::QuarticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return -t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuarticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? Real(8) * t * t * t * t
 			: -Real(0.5) * (t0 * t0 * t0 * t0 - Real(2));
@@ -84,11 +84,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuinticIn:	return t * t * t * t * t;
 	case InterpolationMode::QuinticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return t0 * t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuinticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? 16.0f * t * t * t * t * t
 			: Real(0.5) * (t0 * t0 * t0 * t0 * t0 + Real(2));
-- 
2.43.0


From 735fb3c2a391d9cddb8bea02af652a35e8c812de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 05/34] fix: fmodPositive returned the divisor itself for tiny
 negative arguments

---
 libs/mathlib/include/functions.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 91baa75..2297d59 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -124,7 +124,9 @@ Real fmodPositive(Real x, Real y)
 {
 	assert(y > Real(0));
 	Real r = ::fmod(x, y);
-	return (r >= Real(0)) ? r : y + r;
+	if (r < Real(0))
+		r += y;
+	return (r < y) ? r : Real(0);
 }
 
 template <class Real>
-- 
2.43.0


From 139549894174ce95042d67ec0be0aca5c585007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 06/34] fix: randAmplitude(from, to) never returned a negative
 amplitude

---
 libs/mathlib/include/functions.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 2297d59..0b9cff3 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -106,10 +106,8 @@ Real randAmplitude(Real f)
 template <class Real>
 Real randAmplitude(Real from, Real to)
 {
-	int r = ::rand();
-	return (r >= 0)
-		? (from + Real(r) * (to - from) / Real(RAND_MAX))
-		: -(from + Real(r) * (to - from) / Real(RAND_MAX));
+	Real r = randAmplitude(to - from);
+	return (r >= Real(0)) ? from + r : -from + r;
 }
 
 template <class Real>
-- 
2.43.0


From 39b4cf9b6edd50c5fc3b07aaff1d12de64b0501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 07/34] fix: a product of merely normal or orthogonal matrices
 claimed to be so too

---
 libs/mathlib/include/impl/mat2.h |  5 ++---
 libs/mathlib/include/impl/mat3.h | 17 ++++++-----------
 libs/mathlib/include/impl/mat4.h |  2 +-
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 2f23f9b..988fd86 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -103,8 +103,7 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 	y.x = ta * m.y.x + tb * m.y.y;
 	x.y = td * m.x.x + te * m.x.y;
 	y.y = td * m.y.x + te * m.y.y;
-	flags &= m.flags;
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -536,7 +535,7 @@ void Mat2<Real>::multiply(Mat2& dest, const Mat2& a, const Mat2& b)
 		dest.y.x = a.x.x * b.y.x + a.y.x * b.y.y;
 		dest.x.y = a.x.y * b.x.x + a.y.y * b.x.y;
 		dest.y.y = a.x.y * b.y.x + a.y.y * b.y.y;
-		dest.flags = a.flags & b.flags;
+		dest.optimize();
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 81736e5..948da0e 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -336,8 +336,7 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 	x.z = tg * m.x.x + th * m.x.y + z.z * m.x.z;
 	y.z = tg * m.y.x + th * m.y.y + z.z * m.y.z;
 	z.z = tg * m.z.x + th * m.z.y + z.z * m.z.z;
-	flags &= m.flags;
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -448,9 +447,7 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
 	z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
-	flags &= m.flags;
-
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -543,9 +540,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
 	z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
-	flags &= m.flags;
-
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -716,7 +711,7 @@ Mat3<Real> Mat3<Real>::rotated(const Mat3& m) const
     r.y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
     r.z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
-    r.flags = flags & m.flags;
+    r.optimize();
 
     return r;
 }
@@ -808,7 +803,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(const Mat3& m) const
     r.y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
     r.z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
-    r.flags = flags & m.flags;
+    r.optimize();
 
     return r;
 }
@@ -1084,7 +1079,7 @@ void Mat3<Real>::multiply(Mat3& dest, const Mat3& a, const Mat3& b)
 		dest.x.z = a.x.z * b.x.x + a.y.z * b.x.y + a.z.z * b.x.z;
 		dest.y.z = a.x.z * b.y.x + a.y.z * b.y.y + a.z.z * b.y.z;
 		dest.z.z = a.x.z * b.z.x + a.y.z * b.z.y + a.z.z * b.z.z;
-		dest.flags = a.flags & b.flags;
+		dest.optimize();
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index b10e63c..4151134 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1304,7 +1304,7 @@ void Mat4<Real>::multiply(Mat4& dest, const Mat4& a, const Mat4& b)
 		dest.z.w = a.x.w * b.z.x + a.y.w * b.z.y + a.z.w * b.z.z + a.t.w * b.z.w;
 		dest.t.w = a.x.w * b.t.x + a.y.w * b.t.y + a.z.w * b.t.z + a.t.w * b.t.w;
 
-		dest.flags = a.flags & b.flags;
+		dest.optimize();
 	}
 }
 
-- 
2.43.0


From 73d3fd252cc709223f2553f6af141bbfde0f84c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 08/34] fix: Mat3 rotated about a coordinate axis still claimed
 to be the identity

---
 libs/mathlib/include/impl/mat3.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 948da0e..0dce9d8 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -516,7 +516,7 @@ Mat3<Real>& Mat3<Real>::rotate(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -609,7 +609,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -776,7 +776,7 @@ Mat3<Real> Mat3<Real>::rotated(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
@@ -868,7 +868,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
-- 
2.43.0


From 1d1a1b34542fade315d370788851f1ee17477844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 09/34] fix: a transposed matrix kept flags that only held for
 the original

---
 libs/mathlib/include/impl/mat2.h | 5 ++---
 libs/mathlib/include/impl/mat3.h | 5 ++---
 libs/mathlib/include/impl/mat4.h | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 988fd86..707bff1 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -248,8 +248,7 @@ template <class Real>
 Mat2<Real>& Mat2<Real>::transpose()
 {
 	Real t = x.y; x.y = y.x; y.x = t;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -358,7 +357,7 @@ Mat2<Real> Mat2<Real>::transposed() const
 	r.x.y = y.x;
 	r.y.x = x.y;
 	r.y.y = y.y;
-	r.flags = flags;
+	r.optimize();
 	return r;
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 0dce9d8..3c5f8e5 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -658,8 +658,7 @@ Mat3<Real>& Mat3<Real>::transpose()
 	t = x.y; x.y = y.x; y.x = t;
 	t = x.z; x.z = z.x; z.x = t;
 	t = y.z; y.z = z.y; z.y = t;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -885,7 +884,7 @@ Mat3<Real> Mat3<Real>::transposed() const
 	r.z.x = x.z;
 	r.z.y = y.z;
 	r.z.z = z.z;
-	r.flags = flags;
+	r.optimize();
 	return r;
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 4151134..51f9e35 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -645,8 +645,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 	r = y.z; y.z = z.y; z.y = r;
 	r = y.w; y.w = t.y; t.y = r;
 	r = z.w; z.w = t.z; t.z = r;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -914,7 +913,7 @@ Mat4<Real> Mat4<Real>::transposed() const
 	r.t.z = z.w;
 	r.t.w = t.w;
 
-	r.flags = flags;
+	r.optimize();
 
 	return r;
 }
-- 
2.43.0


From 276c7cc20f3260fbbabcfaa9c8fbab162b742949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 10/34] fix: Mat4 inversion took the rigid-transform shortcut
 for matrices that are not affine

---
 libs/mathlib/include/impl/mat4.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 51f9e35..dc4fe7d 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -651,7 +651,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 template <class Real>
 Mat4<Real>& Mat4<Real>::invert()
 {
-	if (isOrthonormal())
+	if (isOrthonormal() && isTrs())
 	{
 		Real r;
 		r = x.y; x.y = y.x; y.x = r;
@@ -666,9 +666,7 @@ Mat4<Real>& Mat4<Real>::invert()
 		t.y = -ty;
 		t.z = -tz;
 
-		// flags unchanged by transposition
-
-		return *this;
+		return optimize();
 	}
 
 	Real CF00 = (z.z * t.w - z.w * t.z);
@@ -713,7 +711,7 @@ Mat4<Real>& Mat4<Real>::invert()
 
 	Real det = x.x * inv.x.x + x.y * inv.y.x + x.z * inv.z.x + x.w * inv.t.x;
 
-	return (det == Real(0)) ? set(Zero) : set(inv / det);
+	return (det == Real(0)) ? set(Zero) : set(inv / det).optimize();
 }
 
 
@@ -950,7 +948,7 @@ Real Mat4<Real>::determinant() const
 template <class Real>
 Mat4<Real> Mat4<Real>::inversed() const
 {
-	if (isOrthonormal())
+	if (isOrthonormal() && isTrs())
 	{
 		Mat4<Real> result;
 
@@ -974,7 +972,7 @@ Mat4<Real> Mat4<Real>::inversed() const
 		result.t.z = -(result.x.z * t.x + result.y.z * t.y + result.z.z * t.z);
 		result.t.w = Real(1);
 
-		result.flags = flags;
+		result.optimize();
 
 		return result;
 	}
@@ -1068,7 +1066,10 @@ Real Mat4<Real>::orthogonalError() const
 		Real xy = x * y;
 		Real xz = x * z;
 		Real yz = y * z;
-		return xy * xy + xz * xz + yz * yz;
+		Real xt = x * t;
+		Real yt = y * t;
+		Real zt = z * t;
+		return xy * xy + xz * xz + yz * yz + xt * xt + yt * yt + zt * zt;
 	}
 }
 
-- 
2.43.0


From 71a3fdefb630022186cca510bf17173612088fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 11/34] fix: multiplying a matrix by itself in place read
 entries already overwritten

---
 libs/mathlib/include/impl/mat2.h | 2 ++
 libs/mathlib/include/impl/mat3.h | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 707bff1..df68e50 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -98,6 +98,8 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 		return *this;
 	if (isIdentity())
 		return set(m);
+	if (&m == this)
+		return set(*this * m);
 	Real ta = x.x, tb = y.x, td = x.y, te = y.y;
 	x.x = ta * m.x.x + tb * m.x.y;
 	y.x = ta * m.y.x + tb * m.y.y;
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 3c5f8e5..d22524e 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -326,6 +326,8 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 		return *this;
 	if (isIdentity())
 		return set(m);
+	if (&m == this)
+		return set(*this * m);
 	Real ta = x.x, tb = y.x, td = x.y, te = y.y, tg = x.z, th = y.z;
 	x.x = ta * m.x.x + tb * m.x.y + z.x * m.x.z;
 	y.x = ta * m.y.x + tb * m.y.y + z.x * m.y.z;
@@ -435,6 +437,9 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	if (isIdentity())
 		return set(m);
 
+	if (&m == this)
+		return set(*this * m);
+
 	Real x_x = x.x, y_x = y.x, z_x = z.x, x_y = x.y, y_y = y.y, z_y = z.y;
 
 	x.x = m.x.x * x_x + m.y.x * x_y + m.z.x * x.z;
@@ -528,6 +533,9 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	if (isIdentity())
 		return set(m);
 
+	if (&m == this)
+		return set(*this * m);
+
 	Real x_x = x.x, x_y = x.y, x_z = x.z, y_x = y.x, y_y = y.y, y_z = y.z;
 
 	x.x = x_x * m.x.x + y_x * m.x.y + z.x * m.x.z;
-- 
2.43.0


From 799ea14182c85ce2d9a3f3353791aacf33c80d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 12/34] fix: transforming a vector in place read components
 already overwritten

---
 libs/mathlib/include/impl/mat2.h  |  5 +++--
 libs/mathlib/include/impl/mat3.h  |  7 ++++---
 libs/mathlib/include/impl/mat34.h |  7 ++++---
 libs/mathlib/include/impl/mat4.h  | 32 +++++++++++++++++--------------
 4 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index df68e50..e1e2d27 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -490,8 +490,9 @@ Mat2<CastReturnType> Mat2<Real>::cast() const
 template <class Real>
 void Mat2<Real>::transform(Vec2<Real>& dest, const Vec2<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x;
-	dest.y = src.x * x.y + src.y * y.y;
+	const Vec2<Real> u = src; // dest may be src
+	dest.x = u.x * x.x + u.y * y.x;
+	dest.y = u.x * x.y + u.y * y.y;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index d22524e..6a11381 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -1034,9 +1034,10 @@ Mat3<CastReturnType> Mat3<Real>::cast() const
 template <class Real>
 void Mat3<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	const Vec3<Real> u = src; // dest may be src
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index b7f1428..805dcf9 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -556,9 +556,10 @@ Mat34<CastReturnType> Mat34<Real>::cast() const
 template <class Real>
 void Mat34<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * rs.x.x + src.y * rs.y.x + src.z * rs.z.x + t.x;
-	dest.y = src.x * rs.x.y + src.y * rs.y.y + src.z * rs.z.y + t.y;
-	dest.z = src.x * rs.x.z + src.y * rs.y.z + src.z * rs.z.z + t.z;
+	const Vec3<Real> u = src; // dest may be src
+	dest.x = u.x * rs.x.x + u.y * rs.y.x + u.z * rs.z.x + t.x;
+	dest.y = u.x * rs.x.y + u.y * rs.y.y + u.z * rs.z.y + t.y;
+	dest.z = u.x * rs.x.z + u.y * rs.y.z + u.z * rs.z.z + t.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index dc4fe7d..fb8e77e 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1146,9 +1146,10 @@ Mat4<CastReturnType> Mat4<Real>::cast() const
 template <class Real>
 void Mat4<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + t.z;
+	const Vec3<Real> u = src; // dest may be src
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x + t.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y + t.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z + t.z;
 }
 
 template <class Real>
@@ -1177,10 +1178,11 @@ void Mat4<Real>::transform(Vec3<Real>* dest, const Vec3<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transform(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + src.w * t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + src.w * t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + src.w * t.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w + src.w * t.w;
+	const Vec4<Real> u = src; // dest may be src
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x + u.w * t.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y + u.w * t.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z + u.w * t.z;
+	dest.w = u.x * x.w + u.y * y.w + u.z * z.w + u.w * t.w;
 }
 
 template <class Real>
@@ -1209,9 +1211,10 @@ void Mat4<Real>::transform(Vec4<Real>* dest, const Vec4<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transformVector(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	const Vec3<Real> u = src; // dest may be src
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z;
 }
 
 template <class Real>
@@ -1240,10 +1243,11 @@ void Mat4<Real>::transformVector(Vec3<Real>* dest, const Vec3<Real>* src, size_t
 template <class Real>
 void Mat4<Real>::transformVector(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w;
+	const Vec4<Real> u = src; // dest may be src
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z;
+	dest.w = u.x * x.w + u.y * y.w + u.z * z.w;
 }
 
 template <class Real>
-- 
2.43.0


From a31faeb2075d122a386b80560f8b1ab0b2f7cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:03 +0000
Subject: [PATCH 13/34] fix: products dropped small rotations and translations,
 taking them for the identity

---
 libs/mathlib/include/impl/mat2.h | 2 +-
 libs/mathlib/include/impl/mat3.h | 2 +-
 libs/mathlib/include/impl/mat4.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index e1e2d27..945155b 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -9,7 +9,7 @@ template <class Real>
 const Mat2<Real> Mat2<Real>::One = Mat2<Real>(Real(1));
 
 template <class Real>
-const typename Mat2<Real>::Tolerance Mat2<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(0.001) };
+const typename Mat2<Real>::Tolerance Mat2<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(100) * std::numeric_limits<Real>::epsilon() * std::numeric_limits<Real>::epsilon() };
 
 //
 //  Constructors
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 6a11381..ba7190b 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -9,7 +9,7 @@ template <class Real>
 const Mat3<Real> Mat3<Real>::One = Mat3<Real>(Real(1));
 
 template <class Real>
-const typename Mat3<Real>::Tolerance Mat3<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(0.001) };
+const typename Mat3<Real>::Tolerance Mat3<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(100) * std::numeric_limits<Real>::epsilon() * std::numeric_limits<Real>::epsilon() };
 
 //
 //  Constructors
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index fb8e77e..b030445 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -14,7 +14,7 @@ template <class Real>
 const Mat4<Real> Mat4<Real>::One = Mat4<Real>(Real(1));
 
 template <class Real>
-const typename Mat4<Real>::Tolerance Mat4<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(0.001) };
+const typename Mat4<Real>::Tolerance Mat4<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(100) * std::numeric_limits<Real>::epsilon() * std::numeric_limits<Real>::epsilon() };
 
 //
 //  Constructors
-- 
2.43.0


From 362e6c6e2a66606be5d87d7d3d1306f922a3fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 14/34] fix: a scaled or translated Mat4 still claimed to be
 orthogonal or normal

---
 libs/mathlib/include/impl/mat4.h | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index b030445..7dff938 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -478,11 +478,7 @@ template <class Real>
 Mat4<Real>& Mat4<Real>::translate(const Vec3<Real>& translation)
 {
 	t += translation;
-	if (!translation.isNull())
-	{
-		flags &= ~Flags::Identity;
-	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -496,12 +492,7 @@ Mat4<Real>& Mat4<Real>::scale(const Vec3<Real>& coefficients)
 	t.x *= coefficients.x;
 	t.y *= coefficients.y;
 	t.z *= coefficients.z;
-	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
-	{
-		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
-	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -551,11 +542,7 @@ Mat4<Real>& Mat4<Real>::translatePre(const Vec3<Real>& translation)
 	Vec3<Real> delta;
 	transformVector(delta, translation);
 	t += delta;
-	if (!translation.isNull())
-	{
-		flags &= ~Flags::Identity;
-	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -566,12 +553,7 @@ Mat4<Real>& Mat4<Real>::scalePre(const Vec3<Real>& coefficients)
 	x *= coefficients.x;
 	y *= coefficients.y;
 	z *= coefficients.z;
-	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
-	{
-		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
-	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
-- 
2.43.0


From 101744a164f781d19c05f5ec103d8c64c6656b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 15/34] fix: Mat4 could not be built from a Mat3, the declared
 functions had no definition

---
 libs/mathlib/include/impl/mat4.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 7dff938..d28b926 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -40,6 +40,13 @@ Mat4<Real>::Mat4(Real k)
 	}
 }
 
+template <class Real>
+Mat4<Real>::Mat4(const Mat3<Real>& m, const Vec3<Real>& t)
+	: flags(Flags::Uninitialized)
+{
+	set(m, t);
+}
+
 template <class Real>
 Mat4<Real>::Mat4(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3<Real>& z, const Vec3<Real>& t)
 	: flags(Flags::Uninitialized)
@@ -81,6 +88,12 @@ Mat4<Real>& Mat4<Real>::set(const Mat4<Real>& m)
 	return *this;
 }
 
+template <class Real>
+Mat4<Real>& Mat4<Real>::set(const Mat3<Real>& rs, const Vec3<Real>& t)
+{
+	return set(rs.x, rs.y, rs.z, t);
+}
+
 template <class Real>
 Mat4<Real>& Mat4<Real>::set(const Quat<Real>& q, const Vec3<Real>& t)
 {
-- 
2.43.0


From bff4dc816628df8a582174d2f98d56ac51ff68b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 16/34] fix: dividing quaternions multiplied by the divisor

---
 libs/mathlib/include/impl/quat.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 62e67a9..9a6b5e0 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -461,10 +461,9 @@ Quat<Real> Quat<Real>::operator - () const
 template <class Real>
 Quat<Real> Quat<Real>::operator / (const Quat &q) const
 {
-	//invert q; r = q^(-1), assumes q is normalized
-	Quat r = Quat(-q.x, -q.y, -q.z, q.w);
-	Real s = Real(1) / (r.w * r.w - r.x * r.x - r.y * r.y - r.z * r.z);
-	Quat p = *this * q;
+	//p = this * q^(-1)
+	Real s = Real(1) / (q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w);
+	Quat p = *this * q.inverse();
 	p.x *= s;
 	p.y *= s;
 	p.z *= s;
-- 
2.43.0


From ffc97006d930395d4f461d74c35ed79aa0ef698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:51 +0000
Subject: [PATCH 17/34] fix: Quat slerpMaxAngle started at the identity instead
 of the first rotation

---
 libs/mathlib/include/impl/quat.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 9a6b5e0..6d2ae53 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -228,12 +228,16 @@ Quat<Real>& Quat<Real>::slerpMaxAngle(const Quat& from, const Quat& to, Real max
 	assert(maxAngle >= Real(0));
 
 	Quat fromto = from.inverse() * to;
+	if (fromto.w < Real(0))
+	{
+		fromto = -fromto;
+	}
 
 	Vec3<Real> axis;
 	Real angle;
 	fromto.toAxisAngle(axis, angle);
 
-	return set(axis, min(angle, maxAngle));
+	return set(from * Quat::from(axis, min(angle, maxAngle)));
 }
 
 template <class Real>
-- 
2.43.0


From 843b53f77a6aeae972e843ef0ce0b01c307eb3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 18/34] fix: Quat between opposite or nearly equal directions
 was the identity

---
 libs/mathlib/include/impl/quat.h | 37 +++++++++++++-------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 6d2ae53..b1f721f 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -143,32 +143,25 @@ Quat<Real>& Quat<Real>::set(const Vec3<Real>& from2, const Vec3<Real>& to2)
 	Vec3<Real> from = from2.normalized();
 	Vec3<Real> to = to2.normalized();
 
-	Real cost = from * to;
-	if (cost > Real(0.99999))
+	// twice the cosine of the half angle squared
+	Real cost1 = Real(1) + from * to;
+	if (cost1 < Real(8) * std::numeric_limits<Real>::epsilon())
 	{
-		x = Real(0);
-		y = Real(0);
-		z = Real(0);
-		w = Real(1);
-		return *this;
-	}
-	if (cost < Real(-0.99999))
-	{
-		x = Real(0);
-		y = Real(0);
-		z = Real(0);
-		w = Real(-1);
+		// opposite: half a turn about any perpendicular axis
+		Vec3<Real> t = (from % from.minorCoord()).normalized();
+		x = t.x;
+		y = t.y;
+		z = t.z;
+		w = Real(0);
 		return *this;
 	}
 
-	Vec3<Real> t = (from % to).normalized();
-
-	Real s = sqrt(Real(0.5) * (Real(1) - cost));
-	x = t.x * s;
-	y = t.y * s;
-	z = t.z * s;
-	w = sqrt(Real(0.5) * (Real(1) + cost));
-	return *this;
+	Vec3<Real> t = from % to;
+	x = t.x;
+	y = t.y;
+	z = t.z;
+	w = cost1;
+	return normalize();
 }
 
 template <class Real>
-- 
2.43.0


From 8fd369e01ff92f2ea8553cadf92effc0bd420606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:18 +0000
Subject: [PATCH 19/34] fix: Quat toAxisAngle took small rotations for the
 identity

---
 libs/mathlib/include/impl/quat.h | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index b1f721f..6466fda 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -2,8 +2,6 @@
 
 MATHLIB_NS_BEGIN
 
-const double DELTA = 1e-6f;
-
 template <class Real>
 const Quat<Real> Quat<Real>::One = Quat<Real>(0, 0, 0, 1, false);
 
@@ -570,18 +568,11 @@ Quat<Real> Quat<Real>::inverse() const
 template <class Real>
 void Quat<Real>::toAxisAngle(Vec3<Real> &axis, Real &angle) const
 {
-	assert(w >= Real(-1) && w <= Real(1));
-
-	Real s2 = Real(1) - w * w;
-	Real len = (Real)(x * x + y * y + z * z);
-    if (len > Real(DELTA) && s2 > Real(0))
+	axis = Vec3<Real>(x, y, z);
+	Real len = axis.normalize();
+    if (len > Real(0))
 	{
-	    angle = (Real)(Real(2) * acos(w));
-		Real recip = Real(1) / sqrt(s2);
-		axis.x = x * recip;
-		axis.y = y * recip;
-		axis.z = z * recip;
-		axis.normalize();
+	    angle = (Real)(Real(2) * atan2(len, w));
     }
     else
 	{
-- 
2.43.0


From 5c8d149133d33c30b7ba29b052aae02e3b7223c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 20/34] fix: Quat::set(from, via, to) did not compile

---
 libs/mathlib/include/impl/quat.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 6466fda..0643f3f 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -278,11 +278,13 @@ Quat<Real>& Quat<Real>::set(const Quat& from, const Quat& via, const Quat& to)
 	qni.z = -via.z;
 	qni.w = via.w;
 
-	Quat tmp = log(qni * from) + log(qni * to);
-	tmp.x *= -0.25f;
-	tmp.y *= -0.25f;
-	tmp.z *= -0.25f;
-	tmp.w *= -0.25f;
+	Quat tmp1 = log(qni * from);
+	Quat tmp2 = log(qni * to);
+	Quat tmp;
+	tmp.x = (tmp1.x + tmp2.x) * Real(-0.25);
+	tmp.y = (tmp1.y + tmp2.y) * Real(-0.25);
+	tmp.z = (tmp1.z + tmp2.z) * Real(-0.25);
+	tmp.w = (tmp1.w + tmp2.w) * Real(-0.25);
 
 	return set(via * exp(tmp));
 }
-- 
2.43.0


From 59638f69373359d53c434a7c2c8a21e5f6c18021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 21/34] fix: Quat slerpNoInvert between nearly opposite
 quaternions divided by zero

---
 libs/mathlib/include/impl/quat.h | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 0643f3f..c1931cf 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -240,16 +240,30 @@ Quat<Real>& Quat<Real>::slerpNoInvert(const Quat& from, const Quat& to, Real wei
 
 	if (dot < 0.95f)
 	{
-		Real angle = (Real)(acos(dot));
-		Real sina = sin(angle);
-		Real sinat = sin(angle * weight);
-		Real sinaomt = sin(angle * (Real(1) - weight));
-		Real recipsina = Real(1) / sina;
+		// the part of to that is perpendicular to from
+		Quat perp;
+		perp.x = to.x - from.x * dot;
+		perp.y = to.y - from.y * dot;
+		perp.z = to.z - from.z * dot;
+		perp.w = to.w - from.w * dot;
+		Real sina = sqrt(perp.x * perp.x + perp.y * perp.y + perp.z * perp.z + perp.w * perp.w);
+		Real angle = (Real)atan2(sina, dot);
+		if (sina < Real(4) * std::numeric_limits<Real>::epsilon())
+		{
+			// opposite: any arc will do
+			perp.x = -from.y;
+			perp.y = from.x;
+			perp.z = -from.w;
+			perp.w = from.z;
+			sina = Real(1);
+		}
+		Real cosat = cos(angle * weight);
+		Real sinat = sin(angle * weight) / sina;
 
-		x = (from.x * sinaomt + to.x * sinat) * recipsina;
-		y = (from.y * sinaomt + to.y * sinat) * recipsina;
-		z = (from.z * sinaomt + to.z * sinat) * recipsina;
-		w = (from.w * sinaomt + to.w * sinat) * recipsina;
+		x = from.x * cosat + perp.x * sinat;
+		y = from.y * cosat + perp.y * sinat;
+		z = from.z * cosat + perp.z * sinat;
+		w = from.w * cosat + perp.w * sinat;
 
 		return *this;
 	}
-- 
2.43.0


From 60e831cad8a98fb81f05b8286949f03283c1e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:03 +0000
Subject: [PATCH 22/34] fix: Quat::slerpNoInvert of nearly opposite quaternions
 keeps unit length

---
 libs/mathlib/include/impl/quat.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index c1931cf..936fe51 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -246,6 +246,12 @@ Quat<Real>& Quat<Real>::slerpNoInvert(const Quat& from, const Quat& to, Real wei
 		perp.y = to.y - from.y * dot;
 		perp.z = to.z - from.z * dot;
 		perp.w = to.w - from.w * dot;
+		// once more, for what rounding leaves when they are nearly opposite
+		Real rest = from.x * perp.x + from.y * perp.y + from.z * perp.z + from.w * perp.w;
+		perp.x -= from.x * rest;
+		perp.y -= from.y * rest;
+		perp.z -= from.z * rest;
+		perp.w -= from.w * rest;
 		Real sina = sqrt(perp.x * perp.x + perp.y * perp.y + perp.z * perp.z + perp.w * perp.w);
 		Real angle = (Real)atan2(sina, dot);
 		if (sina < Real(4) * std::numeric_limits<Real>::epsilon())
-- 
2.43.0


From f67fe1e3404ba1edff6299cd9055845997de0bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:42 +0000
Subject: [PATCH 23/34] fix: Quat logarithm of small rotations

---
 libs/mathlib/include/impl/quat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 936fe51..83349a2 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -629,8 +629,8 @@ Quat<CastReturnType> Quat<Real>::cast() const
 template <class Real>
 Quat<Real> Quat<Real>::log(const Quat &q)
 {
-	Real a = acos(q.w);
-	Real sina = sin(a);
+	Real sina = sqrt(q.x * q.x + q.y * q.y + q.z * q.z);
+	Real a = (Real)atan2(sina, q.w);
 
 	Quat ret;
 	ret.w = Real(0);
-- 
2.43.0


From ee972bda31ba5251ccb9cbb984550c1bac2ea610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 24/34] fix: AABB2/AABB3 hits() of rays and lines that start
 within one slab or miss the box

---
 libs/mathlib/include/impl/aabb2.h | 47 ++++++++++++++++-------
 libs/mathlib/include/impl/aabb3.h | 63 +++++++++++++++++++++----------
 2 files changed, 78 insertions(+), 32 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index d6f290d..139a5bb 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -386,6 +386,9 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
 {
     t = Real(0);
 
+    Real t1 = std::numeric_limits<Real>::lowest();
+    Real t2 = std::numeric_limits<Real>::max();
+
     if (ray.direction.x == Real(0))
     {
         // Ray is parallel to the slab. Check if the start point is outside the slab.
@@ -401,10 +404,12 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        // Narrow down the intersection interval [t1, t2]
+        t1 = std::max(t1, tinf);
+        t2 = std::min(t2, tsup);
 
-        t = std::max(t, tinf);
+        if (t2 < t1)
+            return false;
     }
 
     if (ray.direction.y == Real(0))
@@ -422,12 +427,19 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        // Narrow down the intersection interval [t1, t2]
+        t1 = std::max(t1, tinf);
+        t2 = std::min(t2, tsup);
 
-        t = std::max(t, tinf);
+        if (t2 < t1)
+            return false;
     }
 
+    // The ray has to enter the box from outside
+    if (t1 < Real(0))
+        return false;
+
+    t = t1;
     return true;
 }
 
@@ -436,6 +448,9 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
 {
     t = Real(0);
 
+    Real t1 = std::numeric_limits<Real>::lowest();
+    Real t2 = std::numeric_limits<Real>::max();
+
     Vec2<Real> delta = line.end - line.start;
 
     if (delta.x == Real(0))
@@ -453,10 +468,12 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        // Narrow down the intersection interval [t1, t2]
+        t1 = std::max(t1, tinf);
+        t2 = std::min(t2, tsup);
 
-        t = std::max(t, tinf);
+        if (t2 < t1)
+            return false;
     }
 
     if (delta.y == Real(0))
@@ -474,15 +491,19 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        // Narrow down the intersection interval [t1, t2]
+        t1 = std::max(t1, tinf);
+        t2 = std::min(t2, tsup);
 
-        t = std::max(t, tinf);
+        if (t2 < t1)
+            return false;
     }
 
-    if (t > Real(1))
+    // The line has to enter the box between its ends
+    if (t1 < Real(0) || t1 > Real(1))
         return false;
     
+    t = t1;
     return true;
 }
 
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index 8670fb4..6af5b6b 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -407,6 +407,9 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
 {
     t = Real(0);
 
+    Real t1 = std::numeric_limits<Real>::lowest();
+    Real t2 = std::numeric_limits<Real>::max();
+
     if (ray.direction.x == Real(0))
     {
         // Ray is parallel to the slab. Check if the start point is outside the slab.
@@ -422,10 +425,12 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        // Narrow down the intersection interval [t1, t2]
+        t1 = std::max(t1, tinf);
+        t2 = std::min(t2, tsup);
 
-        t = std::max(t, tinf);
+        if (t2 < t1)
+            return false;
     }
 
     if (ray.direction.y == Real(0))
@@ -443,10 +448,12 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        // Narrow down the intersection interval [t1, t2]
+        t1 = std::max(t1, tinf);
+        t2 = std::min(t2, tsup);
 
-        t = std::max(t, tinf);
+        if (t2 < t1)
+            return false;
     }
 
     if (ray.direction.z == Real(0))
@@ -464,12 +471,19 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        // Narrow down the intersection interval [t1, t2]
+        t1 = std::max(t1, tinf);
+        t2 = std::min(t2, tsup);
 
-        t = std::max(t, tinf);
+        if (t2 < t1)
+            return false;
     }
 
+    // The ray has to enter the box from outside
+    if (t1 < Real(0))
+        return false;
+
+    t = t1;
     return true;
 }
 
@@ -478,6 +492,9 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
 {
     t = Real(0);
 
+    Real t1 = std::numeric_limits<Real>::lowest();
+    Real t2 = std::numeric_limits<Real>::max();
+
     Vec3<Real> delta = line.end - line.start;
 
     if (delta.x == Real(0))
@@ -495,10 +512,12 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        // Narrow down the intersection interval [t1, t2]
+        t1 = std::max(t1, tinf);
+        t2 = std::min(t2, tsup);
 
-        t = std::max(t, tinf);
+        if (t2 < t1)
+            return false;
     }
 
     if (delta.y == Real(0))
@@ -516,10 +535,12 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        // Narrow down the intersection interval [t1, t2]
+        t1 = std::max(t1, tinf);
+        t2 = std::min(t2, tsup);
 
-        t = std::max(t, tinf);
+        if (t2 < t1)
+            return false;
     }
 
     if (delta.z == Real(0))
@@ -537,15 +558,19 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        // Narrow down the intersection interval [t1, t2]
+        t1 = std::max(t1, tinf);
+        t2 = std::min(t2, tsup);
 
-        t = std::max(t, tinf);
+        if (t2 < t1)
+            return false;
     }
 
-    if (t > Real(1))
+    // The line has to enter the box between its ends
+    if (t1 < Real(0) || t1 > Real(1))
         return false;
     
+    t = t1;
     return true;
 }
 
-- 
2.43.0


From 87f06898446519a48bcf4a274114c4f2232d3df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:17 +0000
Subject: [PATCH 25/34] fix: Plane::project along a direction ignored the
 plane's distance to the origin

---
 libs/mathlib/include/impl/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/plane.h b/libs/mathlib/include/impl/plane.h
index 753c692..0ea12d5 100644
--- a/libs/mathlib/include/impl/plane.h
+++ b/libs/mathlib/include/impl/plane.h
@@ -214,7 +214,7 @@ bool Plane<Real>::project(Vec3<Real>& projection, const Vec3<Real>& point, const
 	if (f == Real(0))
 		return false;
 
-	projection = point - direction * ((point * normal) / f);
+	projection = point - direction * ((point * normal - d) / f);
 
 	return true;
 }
-- 
2.43.0


From f26aae6c358057aa4c7c6b5dd29e69e476c6ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 26/34] fix: Line3/Ray3 distance of points exactly on the line
 was the distance to the start

---
 libs/mathlib/include/impl/line3.h | 6 ++----
 libs/mathlib/include/impl/ray3.h  | 9 ++++-----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/libs/mathlib/include/impl/line3.h b/libs/mathlib/include/impl/line3.h
index 4c5f560..c2e06c8 100644
--- a/libs/mathlib/include/impl/line3.h
+++ b/libs/mathlib/include/impl/line3.h
@@ -64,12 +64,10 @@ template <class Real>
 Real Line3<Real>::distance(const Vec3<Real>& point) const
 {
 	Vec3<Real> d = end - start;
-	Vec3<Real> northo = (point - start) % d;
-	Vec3<Real> n = d % northo;
-	Real l = n.normalize();
+	Real l = d.normalize();
 	return (l == Real(0))
 		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+		: ((point - start) % d).length();
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/ray3.h b/libs/mathlib/include/impl/ray3.h
index 6361383..7d6c5b7 100644
--- a/libs/mathlib/include/impl/ray3.h
+++ b/libs/mathlib/include/impl/ray3.h
@@ -45,12 +45,11 @@ Vec3<Real> Ray3<Real>::pointAt(Real dist) const
 template <class Real>
 Real Ray3<Real>::distance(const Vec3<Real>& point) const
 {
-	Vec3<Real> northo = (point - start) % direction;
-	Vec3<Real> n = direction % northo;
-	Real l = n.normalize();
-	return (l == Real(0))
+	Vec3<Real> d = point - start;
+	Real l = (d % direction).length();
+	return (l == Real(0) && d * direction <= Real(0))
 		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+		: l;
 }
 
 template <class Real>
-- 
2.43.0


From 3c32ff06178d8c86bef281bc5e93d96e26c72945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 27/34] fix: Frustum narrowed distances to float in double
 precision

---
 libs/mathlib/include/impl/frustum.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/frustum.h b/libs/mathlib/include/impl/frustum.h
index 4504c6a..77497b2 100644
--- a/libs/mathlib/include/impl/frustum.h
+++ b/libs/mathlib/include/impl/frustum.h
@@ -85,9 +85,9 @@ bool Frustum<Real>::contains(const Vec3<Real>& point) const
 {
 	for (int i = 0; i < 6; i++)
     {
-		float distance = planes[i].distance(point);
+		Real distance = planes[i].distance(point);
 
-        if (distance > 0.0f)
+        if (distance > Real(0))
         {
 			return false;
         }
@@ -107,7 +107,7 @@ bool Frustum<Real>::contains(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > -sphere.radius)
         {
@@ -123,7 +123,7 @@ bool Frustum<Real>::intersects(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > sphere.radius)
         {
-- 
2.43.0


From 7db04714975ab87c4b01aeb8aebc49b79133d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:09 +0000
Subject: [PATCH 28/34] fix: GaussJordan::solve left the identity instead of
 the documented inverse

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index f532b34..958ce6e 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -202,9 +202,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 
 		// Normalize row
 		pivinv = Real(1) / a[icol*n+icol];
+		a[icol*n+icol] = Real(1);
 		for (l = 0; l < n; l++)
 			a[icol*n+l] *= pivinv;
-		a[icol*n+icol] = Real(1);
 		for (l = 0; l < m; l++)
 			b[icol*m+l] *= pivinv;
 
@@ -215,9 +215,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 			{
 				// ...except for the pivot one, of course.
 				dum = a[ll*n+icol];
+				a[ll*n+icol] = Real(0);
 				for (l = 0; l < n; l++)
 					a[ll*n+l] -= a[icol*n+l]*dum;
-				a[ll*n+icol] = Real(0);
 				for (l = 0; l < m; l++)
 					b[ll*m+l] -= b[icol*m+l]*dum;
 			}
-- 
2.43.0


From 6c7ae3bc50aba65220b8b0c6a64dc5d70ecdbea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:41 +0000
Subject: [PATCH 29/34] fix: TriDiagonal::solveCyclic reported success for
 singular systems after dividing by zero

---
 libs/mathlib/include/impl/linearequations.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index 958ce6e..232d95e 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -103,11 +103,19 @@ bool TriDiagonal<Real>::solveCyclic(const Real* a, const Real* b, const Real* c,
 		if (result)
 		{
 			// Form v · x / (1 + v · z).
-			Real fact = (x[0] + beta * x[n-1] / gamma) / (Real(1) + z[0] + beta * z[n-1] / gamma);
+			Real den = Real(1) + z[0] + beta * z[n-1] / gamma;
+			if (den == Real(0))
+			{
+				result = false; // Singular matrix
+			}
+			else
+			{
+				Real fact = (x[0] + beta * x[n-1] / gamma) / den;
 
-			// Now get the solution vector x
-			for (int i = 0; i < n; i++)
-				x[i] -= fact * z[i];
+				// Now get the solution vector x
+				for (int i = 0; i < n; i++)
+					x[i] -= fact * z[i];
+			}
 		}
 	}
 	
-- 
2.43.0


From 171279f7b2174a486b3e8d3127912042fbb64f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:46 +0000
Subject: [PATCH 30/34] fix: GaussJordan::solve chose pivots in single
 precision for double systems

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index 232d95e..caeb891 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -163,9 +163,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 				{
 					if (ipiv[k] == -1)
 					{
-						if (fabsf(a[j*n+k]) >= big)
+						if (MATHLIB_NS::abs(a[j*n+k]) >= big)
 						{
-							big = fabsf(a[j*n+k]);
+							big = MATHLIB_NS::abs(a[j*n+k]);
 							irow = j;
 							icol = k;
 						}
-- 
2.43.0


From 5b9a3c8fdeecf1a192660a1f808146417d48bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 31/34] fix: closed Bezier splines through two points are
 smooth

---
 libs/mathlib/include/impl/spline3.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 77f11ed..7396527 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -620,8 +620,9 @@ bool SplineSolver3<Real>::closedBezierSpline(int n, const Vec3<Real>* p1, Vec3<R
 		a[i*n+i+1]	= Real(1);
 	}
 
-	a[0]       = Real(4);	a[1]           = Real(1);	a[n-1]         = Real(1);
-	a[(n-1)*n] = Real(1);	a[(n-1)*n+n-2] = Real(1);	a[(n-1)*n+n-1] = Real(4);
+	// with two points each is both the previous and the next one of the other
+	a[0]           = Real(4);	a[1]       += Real(1);	a[n-1]         += Real(1);
+	a[(n-1)*n+n-1] = Real(4);	a[(n-1)*n] += Real(1);	a[(n-1)*n+n-2] += Real(1);
 
 	for (i = 0; i < n-1; i++)
 	{
-- 
2.43.0


From 89245b5fcf34fe7c56ea8748dd4b0243251a83ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 32/34] fix: the forward-difference typedefs name the class
 that exists

---
 libs/mathlib/include/common.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/common.h b/libs/mathlib/include/common.h
index b63626b..8b46987 100644
--- a/libs/mathlib/include/common.h
+++ b/libs/mathlib/include/common.h
@@ -80,7 +80,7 @@ template <class Real> class Circle;
 template <class Real> class Sphere;
 template <class Real> class HermiteSplineSegment3;
 template <class Real> class BezierSegment3;
-template <class Real> class BezierSegmentFwdDiff3;
+template <class Real> class BezierSegment3FwdDiff;
 template <class Real> class SplineSolver3;
 template <class Real> class Frustum;
 
@@ -112,7 +112,7 @@ typedef Circle<float> Circlef;
 typedef Sphere<float> Spheref;
 typedef HermiteSplineSegment3<float> HermiteSplineSegment3f;
 typedef BezierSegment3<float> BezierSegment3f;
-typedef BezierSegmentFwdDiff3<float> BezierSegmentFwdDiff3f;
+typedef BezierSegment3FwdDiff<float> BezierSegmentFwdDiff3f;
 typedef SplineSolver3<float> SplineSolver3f;
 typedef Frustum<float> Frustumf;
 
@@ -144,7 +144,7 @@ typedef Circle<double> Circled;
 typedef Sphere<double> Sphered;
 typedef HermiteSplineSegment3<double> HermiteSplineSegment3d;
 typedef BezierSegment3<double> BezierSegment3d;
-typedef BezierSegmentFwdDiff3<double> BezierSegmentFwdDiff3d;
+typedef BezierSegment3FwdDiff<double> BezierSegmentFwdDiff3d;
 typedef SplineSolver3<double> SplineSolver3d;
 typedef Frustum<double> Frustumd;
 
-- 
2.43.0


From 2b0299f1d89b31a6c330f65d5a9128e79447897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 33/34] fix: the hue of a colour is less than 360

---
 libs/mathlib/include/impl/colorrgb.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/colorrgb.h b/libs/mathlib/include/impl/colorrgb.h
index 70787b1..2ff6859 100644
--- a/libs/mathlib/include/impl/colorrgb.h
+++ b/libs/mathlib/include/impl/colorrgb.h
@@ -237,7 +237,9 @@ ColorHSV<Real> ColorRGB<Real>::toHSV() const
         {
             h += Real(6);
         }
-        else if (h >= Real(6))
+
+        // also when adding to a tiny negative hue was rounded up
+        if (h >= Real(6))
         {
             h -= Real(6);
         }
-- 
2.43.0


From 272c6ff167987b6bb34dfdbb080d2eac4fb61587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 34/34] fix: blend hues more than a turn apart the short way

---
 libs/mathlib/include/impl/colorhsv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/colorhsv.h b/libs/mathlib/include/impl/colorhsv.h
index be02388..2651acf 100644
--- a/libs/mathlib/include/impl/colorhsv.h
+++ b/libs/mathlib/include/impl/colorhsv.h
@@ -75,7 +75,7 @@ ColorHSV<Real>& ColorHSV<Real>::interp(const ColorHSV<Real>& a, const ColorHSV<R
 	if (ratio == Real(1))
 		return set(b);
 
-    Real d = b.h - a.h;
+    Real d = ::fmod(b.h - a.h, Real(360));
     Real delta = d + ((MATHLIB_NS::abs(d) > Real(180)) ? ((d < Real(0)) ? Real(360) : -Real(360)) : Real(0));
 
 	this->h = fmodPositive(a.h + delta * ratio, Real(360));
-- 
2.43.0

