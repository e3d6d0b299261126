From c766c7078fc800fd6858995ba206982f5ba8e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:23 +0000
Subject: [PATCH 01/73] fix: fill the whole 6x6 matrix when converting to and
 from C arrays

MoorDyn_GetBodyM() and MoorDyn_GetRodM() left the last three rows unset.
---
 source/Misc.hpp | 42 ++++++------------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index c106fb5..f2258aa 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -422,24 +422,9 @@ template<typename T>
 inline void
 mat62array(const mat6& v, T a[6][6])
 {
-	a[0][0] = (T)v(0, 0);
-	a[0][1] = (T)v(0, 1);
-	a[0][2] = (T)v(0, 2);
-	a[0][3] = (T)v(0, 3);
-	a[0][4] = (T)v(0, 4);
-	a[0][5] = (T)v(0, 5);
-	a[1][0] = (T)v(1, 0);
-	a[1][1] = (T)v(1, 1);
-	a[1][2] = (T)v(1, 2);
-	a[1][3] = (T)v(1, 3);
-	a[1][4] = (T)v(1, 4);
-	a[1][5] = (T)v(1, 5);
-	a[2][0] = (T)v(2, 0);
-	a[2][1] = (T)v(2, 1);
-	a[2][2] = (T)v(2, 2);
-	a[2][3] = (T)v(2, 3);
-	a[2][4] = (T)v(2, 4);
-	a[2][5] = (T)v(2, 5);
+	for (unsigned int i = 0; i < 6; i++)
+		for (unsigned int j = 0; j < 6; j++)
+			a[i][j] = (T)v(i, j);
 }
 
 /** @brief Convert a C-ish array to a matrix
@@ -450,24 +435,9 @@ template<typename T>
 inline void
 array2mat6(const T a[6][6], mat6& v)
 {
-	v(0, 0) = (moordyn::real)a[0][0];
-	v(0, 1) = (moordyn::real)a[0][1];
-	v(0, 2) = (moordyn::real)a[0][2];
-	v(0, 3) = (moordyn::real)a[0][3];
-	v(0, 4) = (moordyn::real)a[0][4];
-	v(0, 5) = (moordyn::real)a[0][5];
-	v(1, 0) = (moordyn::real)a[1][0];
-	v(1, 1) = (moordyn::real)a[1][1];
-	v(1, 2) = (moordyn::real)a[1][2];
-	v(1, 3) = (moordyn::real)a[1][3];
-	v(1, 4) = (moordyn::real)a[1][4];
-	v(1, 5) = (moordyn::real)a[1][5];
-	v(2, 0) = (moordyn::real)a[2][0];
-	v(2, 1) = (moordyn::real)a[2][1];
-	v(2, 2) = (moordyn::real)a[2][2];
-	v(2, 3) = (moordyn::real)a[2][3];
-	v(2, 4) = (moordyn::real)a[2][4];
-	v(2, 5) = (moordyn::real)a[2][5];
+	for (unsigned int i = 0; i < 6; i++)
+		for (unsigned int j = 0; j < 6; j++)
+			v(i, j) = (moordyn::real)a[i][j];
 }
 
 /** Slice a C++ vector
-- 
2.43.0


From af257a6641838954adbc53370f0ef6c4bfe6ba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:23 +0000
Subject: [PATCH 02/73] fix: read the second column of the tabulated curves

The first column was used for both axes, so a tabulated stiffness was
replaced by the strain itself.
---
 source/MoorDyn2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 1f6c4ae..db2b951 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -740,7 +740,7 @@ class MoorDyn final : public io::IO
 				return MOORDYN_INVALID_INPUT;
 			}
 			x.push_back(atof(entries[0].c_str()));
-			y.push_back(atof(entries[0].c_str()));
+			y.push_back(atof(entries[1].c_str()));
 			LOGDBG << "(" << x.back() << ", " << y.back() << ")" << std::endl;
 		}
 
-- 
2.43.0


From 3321b8bb39c7051a6bfaa8989e876a6ea9730cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:38 +0000
Subject: [PATCH 03/73] fix: accept tabulated curve files that end with a new
 line

---
 source/MoorDyn2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index db2b951..a9a37df 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -732,6 +732,8 @@ class MoorDyn final : public io::IO
 
 		for (auto fline : flines) {
 			vector<string> entries = moordyn::str::split(fline, ' ');
+			if (entries.empty())
+				continue; // blank line, e.g. after the last end of line
 			if (entries.size() < 2) {
 				LOGERR << "Error: Bad curve point" << std::endl
 				       << "\t'" << fline << "'" << std::endl
-- 
2.43.0


From 4081849eec3d6023dc5ba15d226142a54fc1ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:38 +0000
Subject: [PATCH 04/73] fix: restore the unstretched length of the lines

A restored line kept reporting (and paying out from) the unstretched
length it had before the state was loaded.
---
 source/Line.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index 75b9f3a..219c93a 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1430,6 +1430,8 @@ Line::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, q);
 	ptr = io::IO::Deserialize(ptr, qs);
 	ptr = io::IO::Deserialize(ptr, l);
+	// The segments evenly share the unstretched length
+	UnstrLen = N * l[0];
 	ptr = io::IO::Deserialize(ptr, lstr);
 	ptr = io::IO::Deserialize(ptr, ldstr);
 	ptr = io::IO::Deserialize(ptr, Kurv);
-- 
2.43.0


From bbbb27fa6aaf6e6ce40b42af481053ddff0f3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:42 +0000
Subject: [PATCH 05/73] fix: pack any floating point number when saving the
 state

Infinities hung pack754(), while NaNs and denormals were not recovered.
---
 source/IO.cpp | 118 +++++++++++---------------------------------------
 1 file changed, 26 insertions(+), 92 deletions(-)

diff --git a/source/IO.cpp b/source/IO.cpp
index 895b5c1..7e8e07e 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -30,8 +30,10 @@
 
 #include "IO.hpp"
 #include <climits>
+#include <cstring>
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <stdlib.h>
 
 namespace moordyn {
@@ -47,114 +49,46 @@ namespace io {
 #define MOORDYN_MINOR_VERSION 0
 #endif
 
-/** @brief Pack a floating point number into an integer
+static_assert(std::numeric_limits<double>::is_iec559 &&
+                  (sizeof(double) == sizeof(uint64_t)),
+              "64 bits IEEE 754 double precision numbers are required");
+
+/** @brief Pack an IEEE754 64bits double number into an integer
  *
- * This operation can be reverted with unpack754(). However, the result is still
- * non-portable, since the resulting integer must have different endianness
+ * This operation can be reverted with unpack754_64(). However, the result is
+ * still non-portable, since the resulting integer might have different
+ * endianness
  * @param f The floating point number
- * @param bits The number of bits of the mantissa
- * @param expbits The number of bits of the exponent
  * @return Packed number
- * @see unpack754()
+ * @see unpack754_64()
  * @see is_big_endian()
  * @see swap_endian
  */
-long long
-pack754(long double f, unsigned bits, unsigned expbits)
-{
-	long double fnorm;
-	int shift;
-	long long sign, exp, significand;
-	unsigned significandbits = bits - expbits - 1; // -1 for sign bit
-
-	if (f == 0.0)
-		return 0; // get this special case out of the way
-
-	// check sign and begin normalization
-	if (f < 0) {
-		sign = 1;
-		fnorm = -f;
-	} else {
-		sign = 0;
-		fnorm = f;
-	}
-
-	// get the normalized form of f and track the exponent
-	shift = 0;
-	while (fnorm >= 2.0) {
-		fnorm /= 2.0;
-		shift++;
-	}
-	while (fnorm < 1.0) {
-		fnorm *= 2.0;
-		shift--;
-	}
-	fnorm = fnorm - 1.0;
-
-	// calculate the binary form (non-float) of the significant data
-	significand = fnorm * ((1LL << significandbits) + 0.5f);
-
-	// get the biased exponent
-	exp = shift + ((1 << (expbits - 1)) - 1); // shift + bias
-
-	// return the final answer
-	return (sign << (bits - 1)) | (exp << (bits - expbits - 1)) | significand;
+int64_t
+pack754_64(double f)
+{
+	int64_t i;
+	memcpy(&i, &f, sizeof(i));
+	return i;
 }
 
-/** @brief Unpack a floating point number from an integer
+/** @brief Unpack an IEEE754 64bits double number from an integer
  *
- * This operation is the inverse of pack754()
+ * This operation is the inverse of pack754_64()
  * @param i The packed integer
- * @param bits The number of bits of the mantissa
- * @param expbits The number of bits of the exponent
  * @return The unpacket floating point number
- * @see pack754()
+ * @see pack754_64()
  * @see is_big_endian()
  * @see swap_endian
  */
-long double
-unpack754(long long i, unsigned bits, unsigned expbits)
-{
-	long double result;
-	long long shift;
-	unsigned bias;
-	unsigned significandbits = bits - expbits - 1; // -1 for sign bit
-
-	if (i == 0)
-		return 0.0;
-
-	// pull the significand
-	result = (i & ((1LL << significandbits) - 1)); // mask
-	result /= (1LL << significandbits);            // convert back to float
-	result += 1.0f;                                // add the one back on
-
-	// deal with the exponent
-	bias = (1 << (expbits - 1)) - 1;
-	shift = ((i >> significandbits) & ((1LL << expbits) - 1)) - bias;
-	while (shift > 0) {
-		result *= 2.0;
-		shift--;
-	}
-	while (shift < 0) {
-		result /= 2.0;
-		shift++;
-	}
-
-	// sign it
-	result *= (i >> (bits - 1)) & 1 ? -1.0 : 1.0;
-
-	return result;
+double
+unpack754_64(uint64_t i)
+{
+	double f;
+	memcpy(&f, &i, sizeof(f));
+	return f;
 }
 
-/// Pack IEEE754 32bits float numbers
-#define pack754_32(f) (pack754((f), 32, 8))
-/// Pack IEEE754 64bits double numbers
-#define pack754_64(f) (pack754((f), 64, 11))
-/// Unpack IEEE754 32bits float numbers
-#define unpack754_32(i) (unpack754((i), 32, 8))
-/// Unpack IEEE754 64bits double numbers
-#define unpack754_64(i) (unpack754((i), 64, 11))
-
 /** @brief CHeck if the platform is big endian
  * @return true for big endian platforms, false otherwise
  */
-- 
2.43.0


From 0a09ca93f804296a99d49c5f3540cc95d8969ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:05 +0000
Subject: [PATCH 06/73] fix: save the local time step counters with the state

The local time step Euler scheme was restarting the counter of each line
after restoring a saved state, so the resumed simulation departed from the
uninterrupted one.
---
 source/Time.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/source/Time.hpp b/source/Time.hpp
index 58c5f0c..d2da18f 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -890,6 +890,42 @@ class LocalTimeSchemeBase : public TimeSchemeBase<NSTATE, NDERIV>
 		ComputeDt();
 	}
 
+	/** @brief Produce the packed data to be saved
+	 *
+	 * The produced data can be used afterwards to restore the saved information
+	 * afterwards calling Deserialize(void).
+	 * @return The packed data
+	 */
+	virtual std::vector<uint64_t> Serialize(void)
+	{
+		std::vector<uint64_t> data =
+		    TimeSchemeBase<NSTATE, NDERIV>::Serialize();
+		// We append the already integrated time of each line, which are the
+		// only entities with their own time step
+		_dt.lines.resize((std::max)(_dt.lines.size(), this->lines.size()), 0.0);
+		for (unsigned int i = 0; i < this->lines.size(); i++)
+			data.push_back(io::IO::Serialize(_dt.lines[i]));
+
+		return data;
+	}
+
+	/** @brief Unpack the data to restore the Serialized information
+	 *
+	 * This is the function that each inherited class must implement, and should
+	 * be the inverse of Serialize(void)
+	 * @param data The packed data
+	 * @return A pointer to the end of the file, for debugging purposes
+	 */
+	virtual uint64_t* Deserialize(const uint64_t* data)
+	{
+		uint64_t* ptr = TimeSchemeBase<NSTATE, NDERIV>::Deserialize(data);
+		_dt.lines.resize((std::max)(_dt.lines.size(), this->lines.size()), 0.0);
+		for (unsigned int i = 0; i < this->lines.size(); i++)
+			ptr = io::IO::Deserialize(ptr, _dt.lines[i]);
+
+		return ptr;
+	}
+
   protected:
 	/** @brief Costructor
 	 * @param log Logging handler
-- 
2.43.0


From e45539c69b1b6ed3da68db269ddbc01553bc4d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:49 +0000
Subject: [PATCH 07/73] fix: initialize the loads and accelerations of rods and
 bodies

The net force of the fixed rods and bodies is never computed, so
MoorDyn_GetRodForce() and MoorDyn_GetBodyForce() were returning uninitialized
memory.
---
 source/Body.cpp |  8 ++++++++
 source/Rod.cpp  | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/source/Body.cpp b/source/Body.cpp
index 0a68ced..31c968f 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -40,6 +40,14 @@ namespace moordyn {
 
 Body::Body(moordyn::Log* log, size_t id)
   : io::IO(log)
+  , body_rCG(vec::Zero())
+  , v6(vec6::Zero())
+  , a6(vec6::Zero())
+  , r_ves(vec6::Zero())
+  , rd_ves(vec6::Zero())
+  , rdd_ves(vec6::Zero())
+  , F6net(vec6::Zero())
+  , M(mat6::Zero())
   , bodyId(id)
 {
 #ifdef USE_VTK
diff --git a/source/Rod.cpp b/source/Rod.cpp
index d111f62..5fda367 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -56,6 +56,18 @@ namespace moordyn {
 Rod::Rod(moordyn::Log* log, size_t rodId)
   : io::IO(log)
   , seafloor(nullptr)
+  , v6(vec6::Zero())
+  , acc6(vec6::Zero())
+  , FextA(vec::Zero())
+  , FextB(vec::Zero())
+  , Mext(vec::Zero())
+  , F6net(vec6::Zero())
+  , M6net(mat6::Zero())
+  , h0(0.0)
+  , t(0.0)
+  , r_ves(vec6::Zero())
+  , rd_ves(vec6::Zero())
+  , rdd_ves(vec6::Zero())
   , rodId(rodId)
 {
 }
-- 
2.43.0


From 008c1809bf5cecb15e3551c279b2b3e8fd360b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:49 +0000
Subject: [PATCH 08/73] fix: save the accelerations of rods and bodies with the
 state

---
 source/Body.cpp | 3 +++
 source/Rod.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/source/Body.cpp b/source/Body.cpp
index 31c968f..81fed15 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -681,6 +681,8 @@ Body::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(OrMat);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(a6);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -696,6 +698,7 @@ Body::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, F6net);
 	ptr = io::IO::Deserialize(ptr, M);
 	ptr = io::IO::Deserialize(ptr, OrMat);
+	ptr = io::IO::Deserialize(ptr, a6);
 
 	return ptr;
 }
diff --git a/source/Rod.cpp b/source/Rod.cpp
index 5fda367..69ef996 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -1479,6 +1479,8 @@ Rod::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(rd_ves);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(acc6);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -1514,6 +1516,7 @@ Rod::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, h0);
 	ptr = io::IO::Deserialize(ptr, r_ves);
 	ptr = io::IO::Deserialize(ptr, rd_ves);
+	ptr = io::IO::Deserialize(ptr, acc6);
 
 	return ptr;
 }
-- 
2.43.0


From a46a1a2acc28a13dc38d78f3b7e607bd96a403bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:34 +0000
Subject: [PATCH 09/73] fix: start the free and pinned rods at their original
 direction

The initial orientation was computed as the rotation between the direction of
the rod and the position of its end B, so the lines attached to the end B were
initialized at a wrong location.
---
 source/Rod.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 69ef996..9167408 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -162,13 +162,14 @@ Rod::setup(int number_in,
 	if (type == FREE) {
 		// For an independent rod, set the position right off the bat
 		r7.pos = endCoords.head<3>();
-		r7.quat = quaternion::FromTwoVectors(q0, endCoords.tail<3>());
+		// The orientation is always relative to the original direction, q0
+		r7.quat = quaternion::Identity();
 		v6 = vec6::Zero();
 	} else if ((type == PINNED) || (type == CPLDPIN)) {
 		// for a pinned rod, just set the orientation (position will be set
 		// later by parent object) 
 		r7.pos = vec3::Zero(); 
-		r7.quat = quaternion::FromTwoVectors(q0, endCoords.tail<3>()); // TODO: Check this is right
+		r7.quat = quaternion::Identity();
 		v6(Eigen::seqN(3, 3)) = vec::Zero();
 	}
 	// otherwise (for a fixed rod) the positions will be set by the parent body
-- 
2.43.0


From 0b4e5dfc9982ce74a00832d2b4503d8e8a31d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:34 +0000
Subject: [PATCH 10/73] fix: do not let exceptions escape from MoorDyn_Init and
 MoorDyn_Step

---
 source/MoorDyn2.cpp | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 7e6a452..eef5b1e 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2401,14 +2401,34 @@ int DECLDIR
 MoorDyn_Init(MoorDyn system, const double* x, const double* xd)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Init(x, xd);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Init(x, xd);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (!err_msg.empty()) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
 MoorDyn_Init_NoIC(MoorDyn system, const double* x, const double* xd)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Init(x, xd, true);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Init(x, xd, true);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (!err_msg.empty()) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
@@ -2420,7 +2440,17 @@ MoorDyn_Step(MoorDyn system,
              double* dt)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Step(x, xd, f, *t, *dt);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Step(x, xd, f, *t, *dt);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (!err_msg.empty()) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
-- 
2.43.0


From 63517248c7adbb1b6cb1b24d5c5eda580c0330f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:10 +0000
Subject: [PATCH 11/73] fix: refuse null kinematics when there are coupled
 degrees of freedom

---
 source/MoorDyn2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index eef5b1e..b515151 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -405,10 +405,11 @@ moordyn::MoorDyn::icStationary()
 moordyn::error_id
 moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 {
-	if (NCoupledDOF() && !x) {
+	if (NCoupledDOF() && (!x || !xd)) {
 		LOGERR << "ERROR: "
-		       << "MoorDyn::Init received a Null position vector, "
+		       << "MoorDyn::Init received a Null position or velocity vector, "
 		       << "but " << NCoupledDOF() << "components are required" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	// <<<<<<<<< need to add bodys
@@ -629,6 +630,7 @@ moordyn::MoorDyn::Step(const double* x,
 	if (NCoupledDOF() && (!x || !xd || !f)) {
 		LOGERR << "Null Pointer received in " << __FUNC_NAME__ << " ("
 		       << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	unsigned int ix = 0;
-- 
2.43.0


From 74f2178138c86afb792038002da23ec099dbb4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:44 +0000
Subject: [PATCH 12/73] fix: refuse saved states that do not match the system

MoorDyn_Load() was unpacking the data before checking its size, so files saved
from other systems were read out of bounds and left the system corrupted.
---
 source/IO.cpp | 57 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/source/IO.cpp b/source/IO.cpp
index 7e8e07e..08fdef2 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -209,33 +209,38 @@ IO::Load(const std::string filepath)
 	uint64_t length;
 	f.read((char*)&length, sizeof(uint64_t));
 	const uint64_t size = length * sizeof(uint64_t);
-	if (size != fsize - header_size) {
+	if ((length > fsize / sizeof(uint64_t)) || (size != fsize - header_size)) {
 		LOGERR << fsize - header_size
 		       << " bytes of data are available in file '" << filepath
 		       << "' but " << size << " bytes are declared" << endl;
 		throw moordyn::input_error("Invalid size");
 	}
 
-	// Read the data and close the file, which we do not need anymore
-	uint64_t* data = (uint64_t*)malloc(size);
-	if (!data) {
-		LOGERR << "Failure allocating the " << size << " bytes to read '"
-		       << filepath << "'" << endl;
-		throw moordyn::mem_error("Allocation error");
+	// And that it matches the one that this very same instance would generate.
+	// It also serves to recover the current state if something fails
+	const std::vector<uint64_t> backup = Serialize();
+	if (length != backup.size()) {
+		LOGERR << "The file '" << filepath << "' has " << size
+		       << " bytes of data, but "
+		       << backup.size() * sizeof(uint64_t)
+		       << " bytes are required" << endl;
+		throw moordyn::input_error("Invalid size");
 	}
-	f.read((char*)data, size);
+
+	// Read the data and close the file, which we do not need anymore
+	std::vector<uint64_t> data(length);
+	f.read((char*)data.data(), size);
 	f.close();
 
 	// So do the unpacking job
-	const uint64_t* end = Deserialize(data);
-	if (data + length != end) {
-		const uint64_t l = end - data;
-		LOGERR << l * sizeof(uint64_t) << " bytes (vs. " << size
-		       << " bytes expected) unpacked from '" << filepath << "'" << endl;
-		throw moordyn::mem_error("Allocation error");
+	try {
+		Deserialize(data.data());
+	} catch (moordyn::input_error const&) {
+		LOGERR << "The data in the file '" << filepath
+		       << "' does not match this system" << endl;
+		Deserialize(backup.data());
+		throw;
 	}
-
-	free(data);
 }
 
 uint64_t
@@ -473,11 +478,27 @@ IO::Deserialize(const uint64_t* in, XYZQuat& out)
 	return remaining;
 }
 
+/** @brief Check that a list to be unpacked has the expected length
+ *
+ * The length of all the packed lists is well known from the definition file, so
+ * it never depends on the packed data
+ * @param n Packed length
+ * @param expected Expected length
+ * @throw moordyn::input_error If the lengths do not match
+ */
+static void
+check_size(const uint64_t& n, const size_t& expected)
+{
+	if (n != expected)
+		throw moordyn::input_error("Invalid size");
+}
+
 uint64_t*
 IO::Deserialize(const uint64_t* in, std::vector<real>& out)
 {
 	uint64_t n;
 	uint64_t* remaining = Deserialize(in, n);
+	check_size(n, out.size());
 	out.clear();
 	out.reserve(n);
 	for (unsigned int i = 0; i < n; i++) {
@@ -493,6 +514,7 @@ IO::Deserialize(const uint64_t* in, std::vector<vec>& out)
 {
 	uint64_t n;
 	uint64_t* remaining = Deserialize(in, n);
+	check_size(n, out.size());
 	out.clear();
 	out.reserve(n);
 	for (unsigned int i = 0; i < n; i++) {
@@ -508,6 +530,7 @@ IO::Deserialize(const uint64_t* in, std::vector<vec6>& out)
 {
 	uint64_t n;
 	uint64_t* remaining = Deserialize(in, n);
+	check_size(n, out.size());
 	out.clear();
 	out.reserve(n);
 	for (unsigned int i = 0; i < n; i++) {
@@ -523,6 +546,7 @@ IO::Deserialize(const uint64_t* in, std::vector<mat>& out)
 {
 	uint64_t n;
 	uint64_t* remaining = Deserialize(in, n);
+	check_size(n, out.size());
 	out.clear();
 	out.reserve(n);
 	for (unsigned int i = 0; i < n; i++) {
@@ -538,6 +562,7 @@ IO::Deserialize(const uint64_t* in, std::vector<mat6>& out)
 {
 	uint64_t n;
 	uint64_t* remaining = Deserialize(in, n);
+	check_size(n, out.size());
 	out.clear();
 	out.reserve(n);
 	for (unsigned int i = 0; i < n; i++) {
-- 
2.43.0


From 04971d2368558129342fc7aaeeae28de207c53f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:48 +0000
Subject: [PATCH 13/73] fix: report the failures writing the saved state

---
 source/IO.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/IO.cpp b/source/IO.cpp
index 08fdef2..f5a93db 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -167,6 +167,10 @@ IO::Save(const std::string filepath)
 		f.write((char*)&v, sizeof(uint64_t));
 	}
 	f.close();
+	if (!f) {
+		LOGERR << "Failure writing the file '" << filepath << "'" << endl;
+		throw moordyn::output_file_error("Invalid file");
+	}
 }
 
 void
-- 
2.43.0


From bc20d6912fcb2b85e613e13cd9132d6c88b1f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:13 +0000
Subject: [PATCH 14/73] fix: tabulated internal damping and bending stiffness
 at rest

The tabulated damping forces were not divided by the cross-sectional area, had
the wrong sign when the line is contracting and were NaN when the strain rate
is null. The tabulated bending stiffness was NaN for straight line ends.
---
 source/Line.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 219c93a..901f2e7 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -84,6 +84,9 @@ Line::getNonlinearEI(real curv) const
 		return EI;
 
 	real Xi = curv;
+	// For straight lines the initial stiffness is considered
+	for (unsigned int i = 0; (Xi == 0.0) && (i < nEIpoints); i++)
+		Xi = bstiffXs[i];
 	real Yi = interp(bstiffXs, bstiffYs, Xi);
 
 	// calculate equivalent bending stiffness (since that's what MoorDyn works
@@ -107,15 +110,16 @@ Line::getNonlinearC(real ld_stretched, real l_unstretched) const
 	} else {
 		// if no compressing data given, we'll flip-mirror so stretching and
 		// compressing are same
-		real Xsign = 1.0;
-		if (Xi < 0) {
-			Xsign = -1.0;
+		if (Xi < 0)
 			Xi = -Xi;
-		}
 		Yi = interp(dampXs, dampYs, Xi);
-		Yi *= Xsign;
 	}
 
+	// The damping force is proportional to the rate, i.e. there is no damping
+	// force whatever the coefficient is
+	if (Xi == 0.0)
+		return 0.0;
+
 	// calculate equivalent damping coefficient (since that's what MoorDyn works
 	// with)
 	return Yi / Xi;
@@ -181,7 +185,7 @@ Line::setup(int number_in,
 	nCpoints = props->nCpoints;
 	for (unsigned int I = 0; I < nCpoints; I++) {
 		dampXs.push_back(props->dampXs[I]);
-		dampYs.push_back(props->dampYs[I]);
+		dampYs.push_back(props->dampYs[I] / A);
 	}
 
 	// Initialize API provided info
-- 
2.43.0


From 71ef30e08578af18a7737ab2c2132b9581c1cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:49 +0000
Subject: [PATCH 15/73] fix: submergence of the segments rising from the free
 surface

When the first node of a segment was exactly at the free surface and the second
one above it, the segment was considered as fully submerged.
---
 source/Line.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 901f2e7..1b50639 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -629,8 +629,9 @@ Line::calcSubSeg(unsigned int firstNodeIdx,
 		return 0.5; // Segment halfway submerged
 	} else {
 		// Segment partially submerged - figure out which node is above water
-		vec lowerEnd = firstNodeZ < 0.0 ? r[firstNodeIdx] : r[secondNodeIdx];
-		vec upperEnd = firstNodeZ < 0.0 ? r[secondNodeIdx] : r[firstNodeIdx];
+		const bool ascending = firstNodeZ < secondNodeZ;
+		vec lowerEnd = ascending ? r[firstNodeIdx] : r[secondNodeIdx];
+		vec upperEnd = ascending ? r[secondNodeIdx] : r[firstNodeIdx];
 		lowerEnd.z() -= surface_height;
 		upperEnd.z() -= surface_height;
 
-- 
2.43.0


From 491fa89b786f9de471390a9cf49ae99ad0a25dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:49 +0000
Subject: [PATCH 16/73] fix: report the constant stiffness lines as such

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index 608a693..eaca43d 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -414,7 +414,7 @@ class Line final : public io::IO, public NatFreqCFL
 	 * @return true if the stiffness of the line is constant, false if a
 	 * non-linear stiffness has been set
 	 */
-	inline bool isConstantEA() const { return nEApoints > 0; }
+	inline bool isConstantEA() const { return nEApoints == 0; }
 
 	/** @brief Get the constant stiffness of the line
 	 *
-- 
2.43.0


From 268c5025b212fa7b4d395b8a089c8cabc796cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:49 +0000
Subject: [PATCH 17/73] fix: do not report the bending forces as seabed
 reactions

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index eaca43d..9b9dfd1 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -614,7 +614,7 @@ class Line final : public io::IO, public NatFreqCFL
 			       << ", which only has " << N + 1 << " nodes" << std::endl;
 			throw moordyn::invalid_value_error("Invalid node index");
 		}
-		return B[i] + Bs[i];
+		return B[i];
 	};
 
 	/** @brief Get the line curvature at a node position
-- 
2.43.0


From cd4df3b6ffbb541d6ba0aa8308fbdd0d08b345f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:49 +0000
Subject: [PATCH 18/73] fix: consider the fairlead node in
 MoorDyn_GetLineMaxTen

---
 source/Line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 1b50639..c3b8f7b 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1843,7 +1843,7 @@ MoorDyn_GetLineMaxTen(MoorDynLine l, double* t)
 {
 	CHECK_LINE(l);
 	double t_max = 0.0;
-	for (unsigned int i = 0; i < ((moordyn::Line*)l)->getN(); i++) {
+	for (unsigned int i = 0; i <= ((moordyn::Line*)l)->getN(); i++) {
 		const double t_candidate = ((moordyn::Line*)l)->getNodeTen(i).norm();
 		if (t_candidate > t_max)
 			t_max = t_candidate;
-- 
2.43.0


From c1b430dcf02f299b00a8f11c10ad4918e5ede0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:42 +0000
Subject: [PATCH 19/73] fix: keep unpacking the lists which size is not known
 beforehand

The lists of the generic serializable entities shall be resized when they are
unpacked, the length is just fixed for the entities of the system
---
 source/IO.cpp       | 20 +++++++++++---------
 source/IO.hpp       |  8 ++++++++
 source/Line.hpp     |  5 +++++
 source/MoorDyn2.hpp |  5 +++++
 source/Rod.hpp      |  5 +++++
 source/Time.hpp     |  5 +++++
 6 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/source/IO.cpp b/source/IO.cpp
index f5a93db..136a05a 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -223,7 +223,7 @@ IO::Load(const std::string filepath)
 	// And that it matches the one that this very same instance would generate.
 	// It also serves to recover the current state if something fails
 	const std::vector<uint64_t> backup = Serialize();
-	if (length != backup.size()) {
+	if (isSizeFixed() && (length != backup.size())) {
 		LOGERR << "The file '" << filepath << "' has " << size
 		       << " bytes of data, but "
 		       << backup.size() * sizeof(uint64_t)
@@ -483,9 +483,6 @@ IO::Deserialize(const uint64_t* in, XYZQuat& out)
 }
 
 /** @brief Check that a list to be unpacked has the expected length
- *
- * The length of all the packed lists is well known from the definition file, so
- * it never depends on the packed data
  * @param n Packed length
  * @param expected Expected length
  * @throw moordyn::input_error If the lengths do not match
@@ -502,7 +499,8 @@ IO::Deserialize(const uint64_t* in, std::vector<real>& out)
 {
 	uint64_t n;
 	uint64_t* remaining = Deserialize(in, n);
-	check_size(n, out.size());
+	if (isSizeFixed())
+		check_size(n, out.size());
 	out.clear();
 	out.reserve(n);
 	for (unsigned int i = 0; i < n; i++) {
@@ -518,7 +516,8 @@ IO::Deserialize(const uint64_t* in, std::vector<vec>& out)
 {
 	uint64_t n;
 	uint64_t* remaining = Deserialize(in, n);
-	check_size(n, out.size());
+	if (isSizeFixed())
+		check_size(n, out.size());
 	out.clear();
 	out.reserve(n);
 	for (unsigned int i = 0; i < n; i++) {
@@ -534,7 +533,8 @@ IO::Deserialize(const uint64_t* in, std::vector<vec6>& out)
 {
 	uint64_t n;
 	uint64_t* remaining = Deserialize(in, n);
-	check_size(n, out.size());
+	if (isSizeFixed())
+		check_size(n, out.size());
 	out.clear();
 	out.reserve(n);
 	for (unsigned int i = 0; i < n; i++) {
@@ -550,7 +550,8 @@ IO::Deserialize(const uint64_t* in, std::vector<mat>& out)
 {
 	uint64_t n;
 	uint64_t* remaining = Deserialize(in, n);
-	check_size(n, out.size());
+	if (isSizeFixed())
+		check_size(n, out.size());
 	out.clear();
 	out.reserve(n);
 	for (unsigned int i = 0; i < n; i++) {
@@ -566,7 +567,8 @@ IO::Deserialize(const uint64_t* in, std::vector<mat6>& out)
 {
 	uint64_t n;
 	uint64_t* remaining = Deserialize(in, n);
-	check_size(n, out.size());
+	if (isSizeFixed())
+		check_size(n, out.size());
 	out.clear();
 	out.reserve(n);
 	for (unsigned int i = 0; i < n; i++) {
diff --git a/source/IO.hpp b/source/IO.hpp
index 0a0c75b..9ad4512 100644
--- a/source/IO.hpp
+++ b/source/IO.hpp
@@ -108,6 +108,14 @@ class IO : public LogUser
 	virtual uint64_t* Deserialize(const uint64_t* data) = 0;
 
   protected:
+	/** @brief Whether the size of the packed data is already known
+	 *
+	 * In such a case the packed lists which length does not match are refused,
+	 * while otherwise the lists are resized to allocate the packed data
+	 * @return true if the length of the lists cannot change, false otherwise
+	 */
+	virtual bool isSizeFixed() const { return false; }
+
 	/** @brief Pack an unsigned integer to make it writable
 	 * @param i The unsigned integer number
 	 * @return The packed number
diff --git a/source/Line.hpp b/source/Line.hpp
index 9b9dfd1..2be9a88 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -886,6 +886,11 @@ class Line final : public io::IO, public NatFreqCFL
 	 */
 	uint64_t* Deserialize(const uint64_t* data);
 
+	/** @brief The size of the packed data only depends on the definition file
+	 * @return true
+	 */
+	bool isSizeFixed() const override { return true; }
+
 #ifdef USE_VTK
 	/** @brief Produce a VTK object
 	 * @return The new VTK object
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index a9a37df..6ade48d 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -285,6 +285,11 @@ class MoorDyn final : public io::IO
 	 */
 	uint64_t* Deserialize(const uint64_t* data);
 
+	/** @brief The size of the packed data only depends on the definition file
+	 * @return true
+	 */
+	bool isSizeFixed() const override { return true; }
+
 #ifdef USE_VTK
 	/** @brief Produce a VTK object of the whole system
 	 * @return The new VTK object
diff --git a/source/Rod.hpp b/source/Rod.hpp
index 9851a40..e59c87e 100644
--- a/source/Rod.hpp
+++ b/source/Rod.hpp
@@ -590,6 +590,11 @@ class Rod final : public io::IO, public SuperCFL
 	 */
 	uint64_t* Deserialize(const uint64_t* data);
 
+	/** @brief The size of the packed data only depends on the definition file
+	 * @return true
+	 */
+	bool isSizeFixed() const override { return true; }
+
 #ifdef USE_VTK
 	/** @brief Produce a VTK object
 	 * @return The new VTK object
diff --git a/source/Time.hpp b/source/Time.hpp
index d2da18f..b76637e 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -269,6 +269,11 @@ class TimeScheme : public io::IO
 	inline virtual void SetState(const MoorDynState& state, unsigned int i=0)
 	{};
 
+	/** @brief The size of the packed data only depends on the definition file
+	 * @return true
+	 */
+	bool isSizeFixed() const override { return true; }
+
   protected:
 	/** @brief Constructor
 	 * @param log Logging handler
-- 
2.43.0


From 2d72c7671111bd460bb9e2bc0fbf24b6f0e7b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:32 +0000
Subject: [PATCH 20/73] fix: read the first drag coefficient of the bodies when
 3 or 6 are given

---
 source/MoorDyn2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index b515151..eaa2c53 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1866,12 +1866,12 @@ moordyn::MoorDyn::readBody(string inputText)
 			CdA[i + 3] = CdA[3];
 		}
 	} else if (entries_CdA.size() == 3) {
-		for (unsigned int i = 1; i < 3; i++) {
+		for (unsigned int i = 0; i < 3; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 			CdA[i + 3] = CdA[i];
 		}
 	} else if (entries_CdA.size() == 6) {
-		for (unsigned int i = 1; i < 6; i++) {
+		for (unsigned int i = 0; i < 6; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 		}
 	} else {
-- 
2.43.0


From d3794d64060f98a618da7f1e4b9cb81352c4245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:55 +0000
Subject: [PATCH 21/73] fix: submergence of the rods crossing the free surface
 upside down

---
 source/Rod.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 9167408..4d63228 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -972,10 +972,10 @@ Rod::doRHS()
 		// get scalar for submerged portion
 
 		if (h0 < 0.0) { // Upside down case
-			if (Lsum + dL >= h0) // if fully submerged
+			if (Lsum >= -h0) // if fully submerged
 				VOF0 = 1.0;
-			else if (Lsum > h0) // if partially below waterline
-				VOF0 = (h0 - Lsum) / dL;
+			else if (Lsum + dL > -h0) // if partially below waterline
+				VOF0 = (Lsum + dL + h0) / dL;
 			else // must be out of water
 				VOF0 = 0.0;
 		}
@@ -1199,7 +1199,8 @@ Rod::doRHS()
 	} // i - done looping through nodes
 
 	// ----- add waterplane moment of inertia moment if applicable -----
-	if ((r[0][2] < zeta_i) && (r[N][2] > zeta_i)) {
+	if (((r[0][2] < zeta_i) && (r[N][2] > zeta_i)) ||
+	    ((r[N][2] < zeta_i) && (r[0][2] > zeta_i))) {
 		// the water plane is crossing the rod
 		real Mtemp = 1.0 / 16.0 * pi * d * d * d * d * env->rho_w * env->g *
 		             sinPhi * cosPhi; // Matches fortran
-- 
2.43.0


From 940cb467f3aaf64a80f30f779a65b9644c0af79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:55 +0000
Subject: [PATCH 22/73] fix: keep the end acceleration of the pinned rods for
 the inertial loads

---
 source/Rod.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 4d63228..f12bf8f 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -687,13 +687,18 @@ Rod::getStateDeriv()
 		// of the matrix. See
 		// https://eigen.tuxfamily.org/dox/group__TutorialLinearAlgebra.html
 		const mat M_out3 = M_out6(Eigen::seqN(3, 3), Eigen::seqN(3, 3));
-		acc6(Eigen::seqN(0, 3)) = vec::Zero();
 		acc6(Eigen::seqN(3, 3)) = M_out3.inverse() * Fnet_out3;
 
 		// dxdt = V   (velocities)
 		vel7.pos = vec::Zero();
 		vel7.quat =
 		    0.5 * (quaternion(0.0, v6[3], v6[4], v6[5]) * r7.quat).coeffs();
+
+		// The end A is driven by the parent, so it is not integrated. However,
+		// its acceleration is still required to compute the inertial loads
+		vec6 acc = acc6;
+		acc(Eigen::seqN(0, 3)) = vec::Zero();
+		return std::make_pair(vel7, acc);
 	}
 
 	return std::make_pair(vel7, acc6);
-- 
2.43.0


From 2d006c4b94ee47af0342c22c22ae3ebe6e5db14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:55 +0000
Subject: [PATCH 23/73] fix: apply the bending moments of the cantilevered
 lines on the rods

---
 source/Line.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index c3b8f7b..ae36657 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -932,6 +932,8 @@ Line::getStateDeriv()
 		Bs[i] = vec::Zero();
 		Pb[i] = vec::Zero();
 	}
+	endMomentA = vec::Zero();
+	endMomentB = vec::Zero();
 
 	// and now compute them (if possible)
 	if (isEI) {
@@ -966,6 +968,9 @@ Line::getStateDeriv()
 					// apply these forces to the node forces
 					Bs[i] += Mforce_i;
 					Bs[i + 1] += Mforce_ip1;
+
+					// record the bending moment to be applied on the rod
+					endMomentA = Kurvi * EI * pvec[i];
 				}
 			}
 			// end node A case (only if attached to a Rod, i.e. a cantilever
@@ -996,6 +1001,9 @@ Line::getStateDeriv()
 					// apply these forces to the node forces
 					Bs[i - 1] += Mforce_im1;
 					Bs[i] += Mforce_i;
+
+					// record the bending moment to be applied on the rod
+					endMomentB = -Kurvi * EI * pvec[i];
 				}
 			}
 			// internal node
-- 
2.43.0


From d0c5cafd3c578ac4a890658bb257617efe0e02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:23 +0000
Subject: [PATCH 24/73] fix: do not let exceptions escape from the external
 wave kinematics API

---
 source/MoorDyn2.cpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index eaa2c53..c9813f9 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2510,15 +2510,23 @@ MoorDyn_ExternalWaveKinGetCoordinates(MoorDyn system, double* r)
 {
 	CHECK_SYSTEM(system);
 
-	auto r_list = ((moordyn::MoorDyn*)system)->ExternalWaveKinGetPoints();
-	for (unsigned int i = 0; i < r_list.size(); i++) {
-		const auto r_i = r_list[i];
-		for (unsigned int j = 0; j < 3; j++) {
-			r[3 * i + j] = r_i[j];
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		auto r_list = ((moordyn::MoorDyn*)system)->ExternalWaveKinGetPoints();
+		for (unsigned int i = 0; i < r_list.size(); i++) {
+			const auto r_i = r_list[i];
+			for (unsigned int j = 0; j < 3; j++) {
+				r[3 * i + j] = r_i[j];
+			}
 		}
 	}
-
-	return MOORDYN_SUCCESS;
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
@@ -2544,8 +2552,17 @@ MoorDyn_ExternalWaveKinSet(MoorDyn system,
 		ud.push_back(moordyn::vec(Ud[3 * i], Ud[3 * i + 1], Ud[3 * i + 2]));
 	}
 
-	((moordyn::MoorDyn*)system)->ExternalWaveKinSet(u, ud, t);
-	return MOORDYN_SUCCESS;
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		((moordyn::MoorDyn*)system)->ExternalWaveKinSet(u, ud, t);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
-- 
2.43.0


From f749b37248e2b5ad50baf9fadc43dfa990175d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 25/73] fix: use the right number of derivatives in the
 Adams-Bashforth schemes

The AB2, AB3 and AB4 schemes were using the formulas with 3, 4 and 5
derivatives respectively.
---
 source/Time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index bf0ef08..555aad9 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -456,7 +456,7 @@ ABScheme<order, local>::Step(real& dt)
 	shift();
 
 	// Get the new derivative
-	if (local && (n_steps == order))
+	if (local && (n_steps == order - 1))
 		SetCalcMask(dt);
 	CalcStateDeriv(0);
 
@@ -483,7 +483,7 @@ ABScheme<order, local>::Step(real& dt)
 			       rd[3] * (dt * 637.0 / 360.0) + rd[4] * (dt * 251.0 / 720.0);
 	}
 
-	n_steps = (std::min)(n_steps + 1, order);
+	n_steps = (std::min)(n_steps + 1, order - 1);
 	t += dt;
 	Update(dt, 0);
 	TimeSchemeBase::Step(dt);
-- 
2.43.0


From ea3f6c06f0796af9d51c4a12088cfd12e81a5064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:19 +0000
Subject: [PATCH 26/73] fix: do not add an identity quaternion to the attitude
 rates of the implicit schemes

XYZQuat::fromVec6() of a small correction is close to the identity
quaternion, so the Newmark, Wilson and Anderson corrections were adding 1 to
the real part of the attitude rate of the free rods and bodies.
---
 source/State.cpp | 13 ++++++++++---
 source/Time.cpp  | 12 ++++++++----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index ea42afb..3f030b9 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -476,7 +476,10 @@ StateVarDeriv<XYZQuat, vec6>::Newmark(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const vec6 acc_gamma = (1 - gamma) * acc + gamma * visitor.acc;
 	const vec6 acc_beta = (0.5 - beta) * acc + beta * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(dt * acc_beta);
+	// The quaternion rate of change cannot be corrected with the acceleration
+	// alone
+	ret.vel = vel;
+	ret.vel.pos += dt * acc_beta.head<3>();
 	ret.acc = acc_gamma;
 	return ret;
 }
@@ -535,8 +538,12 @@ StateVarDeriv<XYZQuat, vec6>::Wilson(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(0.5 * dt * (
-		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc));
+	// The quaternion rate of change cannot be corrected with the acceleration
+	// alone
+	const vec6 dvel = 0.5 * dt * (
+		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc);
+	ret.vel = vel;
+	ret.vel.pos += dvel.head<3>();
 	return ret;
 }
 
diff --git a/source/Time.cpp b/source/Time.cpp
index 555aad9..6a5d95d 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -617,14 +617,18 @@ AndersonSchemeBase<NSTATE, NDERIV>::qr(unsigned int iter,
 	}
 	for (unsigned int i = 0; i < this->rods.size(); i++) {
 		this->rd[dst].rods[i].acc =  acc(Eigen::seqN(n, 6), 0);
-		this->rd[dst].rods[i].vel = this->rd[org].rods[i].vel + XYZQuat::fromVec6(
-			dt * (this->rd[dst].rods[i].acc - this->rd[org].rods[i].acc));
+		this->rd[dst].rods[i].vel = this->rd[org].rods[i].vel;
+		this->rd[dst].rods[i].vel.pos += dt * (
+			vec3(this->rd[dst].rods[i].acc(Eigen::seqN(0, 3))) -
+			vec3(this->rd[org].rods[i].acc(Eigen::seqN(0, 3))));
 		n += 6;
 	}
 	for (unsigned int i = 0; i < this->bodies.size(); i++) {
 		this->rd[dst].bodies[i].acc =  acc(Eigen::seqN(n, 6), 0);
-		this->rd[dst].bodies[i].vel = this->rd[org].bodies[i].vel + XYZQuat::fromVec6(
-			dt * (this->rd[dst].bodies[i].acc - this->rd[org].bodies[i].acc));
+		this->rd[dst].bodies[i].vel = this->rd[org].bodies[i].vel;
+		this->rd[dst].bodies[i].vel.pos += dt * (
+			vec3(this->rd[dst].bodies[i].acc(Eigen::seqN(0, 3))) -
+			vec3(this->rd[org].bodies[i].acc(Eigen::seqN(0, 3))));
 		n += 6;
 	}
 
-- 
2.43.0


From c4edb9891c31f96ea0a6c380cf3c0479062878ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:19 +0000
Subject: [PATCH 27/73] fix: Wilson scheme time and positions

The time was advanced (2 theta - 1) dt per step instead of dt, and the
positions were corrected with dt instead of tau.
---
 source/State.cpp | 8 ++++----
 source/Time.cpp  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 3f030b9..ebc9686 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -510,7 +510,7 @@ StateVarDeriv<vec>::Wilson(
 	StateVarDeriv<vec> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + 0.5 * dt * (
+	ret.vel = vel + 0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc);
 	return ret;
 }
@@ -523,7 +523,7 @@ StateVarDeriv<vec6>::Wilson(
 	StateVarDeriv<vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + 0.5 * dt * (
+	ret.vel = vel + 0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc);
 	return ret;
 }
@@ -540,7 +540,7 @@ StateVarDeriv<XYZQuat, vec6>::Wilson(
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
 	// The quaternion rate of change cannot be corrected with the acceleration
 	// alone
-	const vec6 dvel = 0.5 * dt * (
+	const vec6 dvel = 0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc);
 	ret.vel = vel;
 	ret.vel.pos += dvel.head<3>();
@@ -562,7 +562,7 @@ StateVarDeriv<std::vector<vec>>::Wilson(
 	const real f3 = 1.0 / 3.0 * f;
 	for (unsigned int i = 0; i < vel.size(); i++) {
 		ret.acc.push_back((1 - f2) * acc[i] + f2 * visitor.acc[i]);
-		ret.vel.push_back(vel[i] + 0.5 * dt * (
+		ret.vel.push_back(vel[i] + 0.5 * tau * (
 			(1 - f3) * acc[i] + f3 * visitor.acc[i]));
 	}
 	return ret;
diff --git a/source/Time.cpp b/source/Time.cpp
index 6a5d95d..7c9b2ab 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -798,7 +798,7 @@ ImplicitWilsonScheme::Step(real& dt)
 	}
 
 	// Apply
-	t -= (1.f - _theta) * dt;
+	t += (1.f - _theta) * dt;
 	r[1] = r[0] + rd[0].Wilson(rd[1], dt, tdt) * dt;
 	r[0] = r[1];
 	rd[0] = rd[1];
-- 
2.43.0


From 392455c4395c53df8c88b8645a60806f0988dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:19 +0000
Subject: [PATCH 28/73] fix: subtract, and do not add, the states of rods and
 bodies

---
 source/State.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index ebc9686..672c970 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -115,8 +115,8 @@ StateVar<XYZQuat, vec6>
 StateVar<XYZQuat, vec6>::operator-(const StateVar<XYZQuat, vec6>& rhs)
 {
 	StateVar<XYZQuat, vec6> out;
-	out.pos = pos + rhs.pos;
-	out.vel = vel + rhs.vel;
+	out.pos = pos - rhs.pos;
+	out.vel = vel - rhs.vel;
 	return out;
 }
 
-- 
2.43.0


From 4c5719f8ebd631cf5f40b9991b68930aee571b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:19 +0000
Subject: [PATCH 29/73] fix: keep the interior nodes of the rods on the segment
 between the ends

---
 source/Rod.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index f12bf8f..1b7c082 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -572,6 +572,12 @@ Rod::setDependentStates()
 		r[N] = r[0] + rRel;
 		const vec w = v6.tail<3>();
 		rd[N] = rd[0] + w.cross(rRel);
+		// and keep the interior nodes consistent with the ends
+		for (unsigned int i = 1; i < N; i++) {
+			const real f = i / (real)N;
+			r[i] = r[0] + f * (r[N] - r[0]);
+			rd[i] = rd[0] + f * (rd[N] - rd[0]);
+		}
 	}
 
 	// pass end node kinematics to any attached lines (this is just like what a
-- 
2.43.0


From f8f29f88be094cc1bd27bb9bc54a0766178d09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:02 +0000
Subject: [PATCH 30/73] fix: use the last currents after the end of the time
 series

---
 source/Waves.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index 1d7781f..b341fe4 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -219,8 +219,11 @@ CurrentGrid::getCurrentKin(const vec3& pos,
 		it = floor(quot);
 		ft = quot - it;
 		it++; // We use the upper bound
-		while (it > nt - 1)
-			it -= nt;
+		if (it > nt - 1) {
+			// Out of the time range, so take the nearest value
+			it = nt - 1;
+			ft = 1.0;
+		}
 	}
 
 	// real stretched_z = 0.0;
-- 
2.43.0


From 23cf431219fb753ed105cab6e26227e12b113cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:02 +0000
Subject: [PATCH 31/73] fix: read the first grid point of the 4D currents

---
 source/Waves/WaveGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 933a11b..86fde0f 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -827,7 +827,7 @@ construct4DCurrentGrid(const std::string& folder,
 	}
 
 	// Read values into 4D array
-	for (int i = 6; i < (int)lines.size(); i++) {
+	for (int i = 5; i < (int)lines.size(); i++) {
 		vector<string> entry = moordyn::str::split(lines[i]);
 
 		// Need to get indices (don't match coord values)
-- 
2.43.0


From 367f47f69e01793143daf7dbc22435b298e6babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:02 +0000
Subject: [PATCH 32/73] fix: match the 4D currents coordinates by value

---
 source/Waves/WaveGrid.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 86fde0f..388e4a5 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -779,33 +779,33 @@ construct4DCurrentGrid(const std::string& folder,
 	// Need to keep track of
 
 	// And a map to keep track of coord->idx mapping...
-	map<string, unsigned int> XMap;
-	map<string, unsigned int> YMap;
-	map<string, unsigned int> ZMap;
-	map<string, unsigned int> TMap;
+	map<real, unsigned int> XMap;
+	map<real, unsigned int> YMap;
+	map<real, unsigned int> ZMap;
+	map<real, unsigned int> TMap;
 
 	auto entry = moordyn::str::split(lines[1]);
 	for (unsigned int i = 0; i < nxCurGrid; i++) {
 		UProfileX.push_back(stod(entry[i]));
-		XMap[entry[i]] = i;
+		XMap[UProfileX.back()] = i;
 	}
 
 	entry = moordyn::str::split(lines[2]);
 	for (unsigned int i = 0; i < nyCurGrid; i++) {
 		UProfileY.push_back(stod(entry[i]));
-		YMap[entry[i]] = i;
+		YMap[UProfileY.back()] = i;
 	}
 
 	entry = moordyn::str::split(lines[3]);
 	for (unsigned int i = 0; i < nzCurGrid; i++) {
 		UProfileZ.push_back(stod(entry[i]));
-		ZMap[entry[i]] = i;
+		ZMap[UProfileZ.back()] = i;
 	}
 
 	entry = moordyn::str::split(lines[4]);
 	for (unsigned int i = 0; i < ntCurGrid; i++) {
 		UProfileT.push_back(stod(entry[i]));
-		TMap[entry[i]] = i;
+		TMap[UProfileT.back()] = i;
 	}
 
 	// Need 3 4D grids - one for each component of current velocity:
@@ -831,10 +831,10 @@ construct4DCurrentGrid(const std::string& folder,
 		vector<string> entry = moordyn::str::split(lines[i]);
 
 		// Need to get indices (don't match coord values)
-		auto ix = XMap[entry[0]];
-		auto iy = YMap[entry[1]];
-		auto iz = ZMap[entry[2]];
-		auto it = TMap[entry[3]];
+		auto ix = XMap.at(stod(entry[0]));
+		auto iy = YMap.at(stod(entry[1]));
+		auto iz = ZMap.at(stod(entry[2]));
+		auto it = TMap.at(stod(entry[3]));
 
 		// Need to set velocity components in three separate vectors
 		// at the coordinate above
-- 
2.43.0


From ed666840b4e811a6c3dea24db271cbfe0617c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:02 +0000
Subject: [PATCH 33/73] fix: accept currents with a single time

---
 source/Waves/WaveGrid.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 388e4a5..4601a00 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -717,10 +717,11 @@ constructDynamicCurrentGrid(const std::string& folder,
 		unsigned iti = 1;
 		for (unsigned int it = 0; it < currentGrid->nt; it++) {
 			iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+			const unsigned int it0 = iti > 0 ? iti - 1 : 0;
 
-			auto x = lerp(UProfileUx[iz][iti - 1], UProfileUx[iz][iti], ft);
-			auto y = lerp(UProfileUy[iz][iti - 1], UProfileUy[iz][iti], ft);
-			auto z = lerp(UProfileUz[iz][iti - 1], UProfileUz[iz][iti], ft);
+			auto x = lerp(UProfileUx[iz][it0], UProfileUx[iz][iti], ft);
+			auto y = lerp(UProfileUy[iz][it0], UProfileUy[iz][iti], ft);
+			auto z = lerp(UProfileUz[iz][it0], UProfileUz[iz][iti], ft);
 			currentGrid->CurrentVel()[0][0][iz][it] = vec3(x, y, z);
 			// TODO: approximate fluid accelerations using finite
 			//       differences
@@ -865,14 +866,15 @@ construct4DCurrentGrid(const std::string& folder,
 				unsigned iti = 1;
 				for (unsigned int it = 0; it < currentGrid->nt; it++) {
 					iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+					const unsigned int it0 = iti > 0 ? iti - 1 : 0;
 
-					auto x = lerp(currentGridUx[ix][iy][iz][iti - 1],
+					auto x = lerp(currentGridUx[ix][iy][iz][it0],
 					              currentGridUx[ix][iy][iz][iti],
 					              ft);
-					auto y = lerp(currentGridUy[ix][iy][iz][iti - 1],
+					auto y = lerp(currentGridUy[ix][iy][iz][it0],
 					              currentGridUy[ix][iy][iz][iti],
 					              ft);
-					auto z = lerp(currentGridUz[ix][iy][iz][iti - 1],
+					auto z = lerp(currentGridUz[ix][iy][iz][it0],
 					              currentGridUz[ix][iy][iz][iti],
 					              ft);
 					currentGrid->CurrentVel()[ix][iy][iz][it] = vec3(x, y, z);
-- 
2.43.0


From c5417245f6828afa92797cd3ed4106d0b579a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:02 +0000
Subject: [PATCH 34/73] fix: look for the water kinematics files of a model in
 the working directory

---
 source/MoorDyn2.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index c9813f9..eaaa293 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -106,7 +106,9 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
 		const std::size_t lastSlash = _filepath.find_last_of("/\\");
 		const std::size_t lastDot = _filepath.find_last_of('.');
 		_basename = _filepath.substr(lastSlash + 1, lastDot - lastSlash - 1);
-		_basepath = _filepath.substr(0, lastSlash + 1);
+		_basepath = lastSlash == std::string::npos
+		                ? "./"
+		                : _filepath.substr(0, lastSlash + 1);
 	}
 
 	LOGMSG << "\n Running MoorDyn (v"
-- 
2.43.0


From 2537d1991c50117f2e753b663b699b6e8fd89d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:59 +0000
Subject: [PATCH 35/73] fix: save the bending moments of the line ends

---
 source/Line.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index ae36657..b11ace8 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1429,6 +1429,10 @@ Line::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(F);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(endMomentA);
+	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(endMomentB);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -1461,6 +1465,8 @@ Line::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, B);
 	ptr = io::IO::Deserialize(ptr, Fnet);
 	ptr = io::IO::Deserialize(ptr, F);
+	ptr = io::IO::Deserialize(ptr, endMomentA);
+	ptr = io::IO::Deserialize(ptr, endMomentB);
 
 	return ptr;
 }
-- 
2.43.0


From 78edc7e92647fb3557d4a0797c5de10e8a9a45bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:19 +0000
Subject: [PATCH 36/73] fix: write the header of the output files of fixed and
 coupled bodies

---
 source/Body.cpp | 78 +++++++++++++++++++++++++++++--------------------
 source/Body.hpp |  9 ++++++
 2 files changed, 55 insertions(+), 32 deletions(-)

diff --git a/source/Body.cpp b/source/Body.cpp
index 81fed15..75640d3 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -74,6 +74,7 @@ Body::setup(int number_in,
 	number = number_in;
 	type = type_in;
 	outfile = outfile_pointer.get(); // make outfile point to the right place
+	openedoutfile = false;
 
 	// We better store the body initial position in all cases so the state is
 	// correctly initialized, and MoorDyn_GetBodyState() would be successfully
@@ -219,38 +220,9 @@ Body::initialize()
 			attached->initialize();
 	}
 
-	// create output file for writing output (and write channel header and units
-	// lines) if applicable
-
-	if (outfile) // check it's not null.  Null signals no individual line output
-	             // files
-	{
-		if (!outfile->is_open()) {
-			LOGERR << "Unable to write file Body" << number << ".out" << endl;
-			throw moordyn::output_file_error("Invalid line file");
-		}
-		// ------------- write channel names line --------------------
-
-		// output time
-		*outfile << "Time"
-		         << "\t ";
-
-		*outfile << "x\ty\tz\troll\tpitch\tyaw";
-
-		*outfile << "\n";
-
-		// ----------- write units line ---------------
-
-		if (env->WriteUnits > 0) {
-			// output time
-			*outfile << "(s)"
-			         << "\t ";
-
-			*outfile << "(m)\t(m)\t(m)\t(deg)\t(deg)\t(deg)";
-
-			*outfile << "\n"; // should also write units at some point!
-		}
-	}
+	// write the channels header and the units lines of the output file, if
+	// applicable
+	openoutput();
 
 	LOGDBG << "Initialized Body " << number << endl;
 
@@ -328,6 +300,46 @@ Body::setDependentStates()
 	}
 }
 
+void
+Body::openoutput()
+{
+	if (openedoutfile)
+		return;
+	// create output file for writing output (and write channel header and units
+	// lines) if applicable
+
+	if (outfile) // check it's not null.  Null signals no individual line output
+	             // files
+	{
+		if (!outfile->is_open()) {
+			LOGERR << "Unable to write file Body" << number << ".out" << endl;
+			throw moordyn::output_file_error("Invalid line file");
+		}
+		// ------------- write channel names line --------------------
+
+		// output time
+		*outfile << "Time"
+		         << "\t ";
+
+		*outfile << "x\ty\tz\troll\tpitch\tyaw";
+
+		*outfile << "\n";
+
+		// ----------- write units line ---------------
+
+		if (env->WriteUnits > 0) {
+			// output time
+			*outfile << "(s)"
+			         << "\t ";
+
+			*outfile << "(m)\t(m)\t(m)\t(deg)\t(deg)\t(deg)";
+
+			*outfile << "\n"; // should also write units at some point!
+		}
+	}
+	openedoutfile = true;
+}
+
 real
 Body::GetBodyOutput(OutChanProps outChan)
 {
@@ -649,6 +661,8 @@ Body::Output(real time)
 			LOGWRN << "Unable to write to output file " << endl;
 			return;
 		}
+		// the fixed and coupled bodies have not written the header yet
+		openoutput();
 		// output time
 		*outfile << time << "\t ";
 
diff --git a/source/Body.hpp b/source/Body.hpp
index 96908a2..57af91e 100644
--- a/source/Body.hpp
+++ b/source/Body.hpp
@@ -154,6 +154,15 @@ class Body final : public io::IO, public SuperCFL
 	/// Pointer to moordyn::MoorDyn::outfileMain
 	ofstream* outfile;
 
+	/// Flag for printing channels and units in body outfile
+	bool openedoutfile = false;
+
+	/** @brief Write the channels and units in the output file, just once
+	 * @throws moordyn::output_file_error If an outfile has been provided, but
+	 * it cannot be written
+	 */
+	void openoutput();
+
 	/** @brief Types of bodies
 	 */
 	typedef enum
-- 
2.43.0


From cd8e41a99deb2e5208ea8e76b8093068b29b30e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:19 +0000
Subject: [PATCH 37/73] fix: initialize the acceleration of the points

---
 source/Point.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/Point.cpp b/source/Point.cpp
index 1016252..bd5c45b 100644
--- a/source/Point.cpp
+++ b/source/Point.cpp
@@ -92,6 +92,7 @@ Point::setup(int number_in,
 	// Start also the variables that will be serialized, just to avoid floating
 	// point exceptions
 	Fnet = vec::Zero();
+	acc = vec::Zero();
 	M = pointM * mat::Identity();
 
 	LOGDBG << "   Set up Point " << number << ", type '" << TypeName(type)
-- 
2.43.0


From 9759197fd1318f986acd1c3aacd520494fd51087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:18 +0000
Subject: [PATCH 38/73] fix: do not read past the end of the input files
 without a closing header

---
 source/MoorDyn2.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index eaaa293..e5d7b47 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -863,7 +863,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OPTIONS" })) != -1) {
 		LOGDBG << "   Reading options:" << endl;
 		// Parse options until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 2) {
 				i++;
@@ -886,7 +886,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OPTIONS" })) != -1) {
 		LOGDBG << "   Reading options:" << endl;
 		// Parse options until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 2) {
 				i++;
@@ -930,7 +930,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading line types:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			LineProps* obj = readLineProps(in_txt[i]);
 			if (obj)
 				LinePropList.push_back(obj);
@@ -947,7 +947,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading rod types:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			RodProps* obj = readRodProps(in_txt[i]);
 
 			if (obj)
@@ -965,7 +965,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading body list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Body* obj = readBody(in_txt[i]);
 
 			if (obj) {
@@ -987,7 +987,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading point list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 9) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1108,7 +1108,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading rod list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Rod* obj = readRod(in_txt[i]);
 			RodList.push_back(obj);
 
@@ -1126,7 +1126,7 @@ moordyn::MoorDyn::ReadInFile()
 		}
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 7) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1253,7 +1253,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "FAILURE" })) != -1) {
 		LOGDBG << "   Reading failure conditions:" << endl;
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 4) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1353,7 +1353,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OUTPUT" })) != -1) {
 		LOGDBG << "   Reading output options:" << endl;
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 
 			for (unsigned int j = 0; j < entries.size();
-- 
2.43.0


From d702552caf7a43d536f8e0017e5d17c4067ca958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:18 +0000
Subject: [PATCH 39/73] fix: refuse the models with invalid rods

---
 source/MoorDyn2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index e5d7b47..106ec5f 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1110,6 +1110,8 @@ moordyn::MoorDyn::ReadInFile()
 		// parse until the next header or the end of the file
 		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Rod* obj = readRod(in_txt[i]);
+			if (!obj)
+				return MOORDYN_INVALID_INPUT;
 			RodList.push_back(obj);
 
 			i++;
-- 
2.43.0


From b14fb1e873b676147ff890d17a4c0740b340ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:18 +0000
Subject: [PATCH 40/73] fix: refuse the lines and rods with an invalid number
 of segments

---
 source/MoorDyn2.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 106ec5f..856e71b 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1145,6 +1145,14 @@ moordyn::MoorDyn::ReadInFile()
 			int NumSegs = atoi(entries[5].c_str()); // addition vs. MAP
 			string outchannels = entries[6];
 
+			if (NumSegs < 1) {
+				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
+				       << endl
+				       << "'" << in_txt[i] << "'" << endl
+				       << "The lines shall have 1 segment at least" << endl;
+				return MOORDYN_INVALID_INPUT;
+			}
+
 			int TypeNum = -1;
 			for (unsigned int J = 0; J < LinePropList.size(); J++) {
 				if (LinePropList[J]->type == type)
@@ -1968,6 +1976,13 @@ moordyn::MoorDyn::readRod(string inputText)
 	int NumSegs = atoi(entries[9].c_str());
 	string outchannels = entries[10];
 
+	if (NumSegs < 0) {
+		LOGERR << "Error in " << _filepath << ":"
+		       << "'" << inputText << "'" << endl
+		       << "The number of segments cannot be negative" << endl;
+		return nullptr;
+	}
+
 	std::string let1, num1, let2, num2, let3;
 	// divided outWord into letters and numbers
 	str::decomposeString(entries[2], let1, num1, let2, num2, let3);
-- 
2.43.0


From 9a91d41956a375cb9b9795a949e4e917f8d5545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:18 +0000
Subject: [PATCH 41/73] fix: require the 5 fields which are read from the
 failure conditions

---
 source/MoorDyn2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 856e71b..2f8988c 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1265,11 +1265,11 @@ moordyn::MoorDyn::ReadInFile()
 		// parse until the next header or the end of the file
 		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
-			if (entries.size() < 4) {
+			if (entries.size() < 5) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
 				       << endl
 				       << "'" << in_txt[i] << "'" << endl
-				       << "4 fields are required, but just " << entries.size()
+				       << "5 fields are required, but just " << entries.size()
 				       << " are provided" << endl;
 				return MOORDYN_INVALID_INPUT;
 			}
-- 
2.43.0


From 3ad6494a20c90466c5bf060087f7a134b2f0f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:26 +0000
Subject: [PATCH 42/73] fix: ignore the output channels of objects and nodes
 which do not exist

---
 source/MoorDyn2.cpp | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 2f8988c..38bdc04 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1378,6 +1378,26 @@ moordyn::MoorDyn::ReadInFile()
 				OutChanProps dummy;
 				dummy.Name = entries[j];
 
+				// object number, which shall be the one of an existing object
+				dummy.ObjID = atoi(num1.c_str());
+				unsigned int n_objs = 0;
+				if (str::isOneOf(let1, { "FAIRTEN", "ANCHTEN", "L", "LINE" }))
+					n_objs = LineList.size();
+				else if (str::isOneOf(let1, { "P", "POINT" }))
+					n_objs = PointList.size();
+				else if (str::isOneOf(let1, { "R", "ROD" }))
+					n_objs = RodList.size();
+				else if (str::isOneOf(let1, { "B", "BODY" }))
+					n_objs = BodyList.size();
+				if ((dummy.ObjID < 1) || ((unsigned int)dummy.ObjID > n_objs)) {
+					LOGWRN << "Warning in " << _filepath << ":" << i + 1
+					       << "..." << endl
+					       << "'" << in_txt[i] << "'" << endl
+					       << "invalid output specifier: " << entries[j]
+					       << ".  There is not such an object." << endl;
+					continue;
+				}
+
 				// figure out what type of output it is and process
 				// accordingly
 				// TODO: add checks of first char of num1,2, let1,2,3 not
@@ -1390,7 +1410,6 @@ moordyn::MoorDyn::ReadInFile()
 					dummy.OType = 1;
 					dummy.QType = Ten;
 					dummy.Units = moordyn::UnitList[Ten];
-					dummy.ObjID = atoi(num1.c_str());
 					dummy.NodeID = LineList[dummy.ObjID - 1]->getN();
 				}
 				// achor tension case (changed to just be for single line,
@@ -1399,15 +1418,11 @@ moordyn::MoorDyn::ReadInFile()
 					dummy.OType = 1;
 					dummy.QType = Ten;
 					dummy.Units = moordyn::UnitList[Ten];
-					dummy.ObjID = atoi(num1.c_str());
 					dummy.NodeID = 0;
 				}
 				// more general case
 				else {
 
-					// object number
-					dummy.ObjID = atoi(num1.c_str());
-
 					// get object type and node number if applicable
 					// Line case:  L?N?xxxx
 					if (str::isOneOf(let1, { "L", "LINE" })) {
@@ -1579,6 +1594,23 @@ moordyn::MoorDyn::ReadInFile()
 					}
 				}
 
+				// the node shall exist
+				int n_nodes = 0;
+				if (dummy.OType == 1)
+					n_nodes = LineList[dummy.ObjID - 1]->getN();
+				else if (dummy.OType == 3)
+					n_nodes = RodList[dummy.ObjID - 1]->getN();
+				if ((dummy.OType > 0) &&
+				    ((dummy.NodeID > n_nodes) ||
+				     ((dummy.OType == 1) && (dummy.NodeID < 0)))) {
+					LOGWRN << "Warning in " << _filepath << ":" << i + 1
+					       << "..." << endl
+					       << "'" << in_txt[i] << "'" << endl
+					       << "invalid output specifier: " << entries[j]
+					       << ".  There is not such a node." << endl;
+					continue;
+				}
+
 				// some name adjusting for special cases (maybe should
 				// handle this elsewhere...)
 				if ((dummy.OType == 3) && (dummy.QType == Ten)) {
-- 
2.43.0


From 4aa3bb36e5066c1a5e3a440783407e05d036417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:56 +0000
Subject: [PATCH 43/73] fix: do not let the exceptions of the standard library
 leave the C API

---
 source/Misc.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index f2258aa..1fb9d44 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -572,9 +572,8 @@ MAKE_EXCEPTION(unhandled_error)
 	}
 
 /// Catch thrown exceptions and convert them in an error_id. It also gives the
-/// message on the Exception. This macro will only handle known exceptions, i.e.
-/// the ones declared in moordyn_errors. You can add more catch() instances
-/// afterwards
+/// message on the Exception. The exceptions which are not declared in
+/// moordyn_errors are considered as unhandled errors
 #define MOORDYN_CATCHER(err, msg)                                              \
 	catch (moordyn::input_file_error const& e)                                 \
 	{                                                                          \
@@ -607,6 +606,11 @@ MAKE_EXCEPTION(unhandled_error)
 		msg = e.what();                                                        \
 	}                                                                          \
 	catch (moordyn::unhandled_error const& e)                                  \
+	{                                                                          \
+		err = MOORDYN_UNHANDLED_ERROR;                                         \
+		msg = e.what();                                                        \
+	}                                                                          \
+	catch (std::exception const& e)                                            \
 	{                                                                          \
 		err = MOORDYN_UNHANDLED_ERROR;                                         \
 		msg = e.what();                                                        \
-- 
2.43.0


From 7e10b1d864326de2817196280485f6851d05f7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:56 +0000
Subject: [PATCH 44/73] fix: refuse the wave and current modes which are not
 implemented

---
 source/Waves.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index b341fe4..f0eeef7 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -490,6 +490,13 @@ Waves::setup(EnvCondRef env_in,
 	// waveGrid stores a temporary value that should have been moved out
 	assert(!waveGrid);
 
+	if ((wave_mode != WAVES_NONE) && (wave_mode != WAVES_EXTERNAL) &&
+	    !waveKinematics) {
+		LOGERR << "The WaveKin option " << wave_mode
+		       << " is not implemented yet" << endl;
+		throw moordyn::invalid_value_error("Invalid settings");
+	}
+
 	// either there are no waves (or external waves), or waveKinematics is not
 	// null
 	assert((wave_mode == WAVES_NONE || wave_mode == WAVES_EXTERNAL) !=
@@ -501,6 +508,11 @@ Waves::setup(EnvCondRef env_in,
 	if (current_mode != CURRENTS_NONE) {
 		// if currents are defined, either wave or current kinematics should be
 		// defined
+		if (waves::is_currents_node(current_mode)) {
+			LOGERR << "The Currents option " << current_mode
+			       << " is not implemented yet" << endl;
+			throw moordyn::invalid_value_error("Invalid settings");
+		}
 		assert((bool)(waveKinematics) || (bool)(currentKinematics));
 	} else {
 		// if currents are not defined, current kinematics should not be defined
-- 
2.43.0


From 92412e5273d4993ff874a7d9447cd108866a0035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:56 +0000
Subject: [PATCH 45/73] fix: check the number of ticks of the bathymetry files

---
 source/Seafloor.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/Seafloor.cpp b/source/Seafloor.cpp
index 3422a3f..693bcd2 100644
--- a/source/Seafloor.cpp
+++ b/source/Seafloor.cpp
@@ -68,8 +68,17 @@ Seafloor::setup(EnvCondRef env, const string& filepath)
 
 		// Setup nx, ny
 		vector<string> entries = moordyn::str::split(fLines[0]);
+		if (entries.size() < 2) {
+			LOGERR << "There should be 2 entries in line 1"
+			       << " of the input file.\n";
+			throw moordyn::input_file_error("Invalid no. of axes");
+		}
 		nx = stoi(entries[0]);
 		ny = stoi(entries[1]);
+		if (!nx || !ny) {
+			LOGERR << "There should be at least 1 tick per axis.\n";
+			throw moordyn::input_file_error("Invalid no. of ticks");
+		}
 
 		// Setup px (x-axis ticks):
 		entries = moordyn::str::split(fLines[1]);
-- 
2.43.0


From 7ab05ea7c12e44b590c99fcec531c9b7d270e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:56 +0000
Subject: [PATCH 46/73] fix: refuse the lattices of the water grids without
 first value, last value and at least 2 points

---
 source/Waves.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index f0eeef7..2de57c0 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -76,10 +76,13 @@ gridAxisCoords(Waves::coordtypes coordtype, vector<string>& entries)
 		n = 1;
 	else if (coordtype == Waves::GRID_LIST)
 		n = static_cast<unsigned int>(entries.size());
-	else if (coordtype == Waves::GRID_LATTICE)
+	else if ((coordtype == Waves::GRID_LATTICE) && (entries.size() >= 3))
 		n = static_cast<unsigned int>(stoul(entries[2]));
 	else
 		return coordarray;
+	// A lattice has at least its two ends
+	if ((coordtype == Waves::GRID_LATTICE) && (n < 2))
+		return coordarray;
 
 	// fill in coordinates
 	if (coordtype == Waves::GRID_SINGLE)
-- 
2.43.0


From e1a393764e9a2eb80236656b8fcb32b0cedc7ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:21 +0000
Subject: [PATCH 47/73] fix: check the number of entries of the 4D currents
 file

---
 source/Waves/WaveGrid.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 4601a00..a80ec46 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -766,6 +766,12 @@ construct4DCurrentGrid(const std::string& folder,
 	// The first line must contain the number of x, y, z, t values in the
 	// input meshgrid (1-indexed, space delimited)
 	vector<string> gridDimensions = moordyn::str::split(lines[0]);
+	if (gridDimensions.size() < 4) {
+		LOGERR << "The file '" << CurrentsFilename
+		       << "' should have the 4 dimensions of the grid in the first line"
+		       << endl;
+		throw moordyn::input_file_error("Invalid file format");
+	}
 	unsigned int nxCurGrid = stoul(gridDimensions[0]);
 	unsigned int nyCurGrid = stoul(gridDimensions[1]);
 	unsigned int nzCurGrid = stoul(gridDimensions[2]);
@@ -787,25 +793,25 @@ construct4DCurrentGrid(const std::string& folder,
 
 	auto entry = moordyn::str::split(lines[1]);
 	for (unsigned int i = 0; i < nxCurGrid; i++) {
-		UProfileX.push_back(stod(entry[i]));
+		UProfileX.push_back(stod(entry.at(i)));
 		XMap[UProfileX.back()] = i;
 	}
 
 	entry = moordyn::str::split(lines[2]);
 	for (unsigned int i = 0; i < nyCurGrid; i++) {
-		UProfileY.push_back(stod(entry[i]));
+		UProfileY.push_back(stod(entry.at(i)));
 		YMap[UProfileY.back()] = i;
 	}
 
 	entry = moordyn::str::split(lines[3]);
 	for (unsigned int i = 0; i < nzCurGrid; i++) {
-		UProfileZ.push_back(stod(entry[i]));
+		UProfileZ.push_back(stod(entry.at(i)));
 		ZMap[UProfileZ.back()] = i;
 	}
 
 	entry = moordyn::str::split(lines[4]);
 	for (unsigned int i = 0; i < ntCurGrid; i++) {
-		UProfileT.push_back(stod(entry[i]));
+		UProfileT.push_back(stod(entry.at(i)));
 		TMap[UProfileT.back()] = i;
 	}
 
@@ -830,6 +836,11 @@ construct4DCurrentGrid(const std::string& folder,
 	// Read values into 4D array
 	for (int i = 5; i < (int)lines.size(); i++) {
 		vector<string> entry = moordyn::str::split(lines[i]);
+		if (entry.size() < 7) {
+			LOGERR << "The file '" << CurrentsFilename
+			       << "' should have at least 7 columns" << endl;
+			throw moordyn::input_file_error("Invalid file format");
+		}
 
 		// Need to get indices (don't match coord values)
 		auto ix = XMap.at(stod(entry[0]));
-- 
2.43.0


From b4ddc96d3f919673621b4d655a5169aa13ce8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:21 +0000
Subject: [PATCH 48/73] fix: check the entries of the coordinates of the water
 grids

---
 source/Waves/WaveGrid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index a80ec46..7c5242a 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -313,7 +313,7 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 	Waves::coordtypes coordtype;
 
 	entries = moordyn::str::split(lines[3]);
-	coordtype = (Waves::coordtypes)stoi(entries[0]);
+	coordtype = (Waves::coordtypes)stoi(entries.at(0));
 	entries = moordyn::str::split(lines[4]);
 	auto px = gridAxisCoords(coordtype, entries);
 	if (px.empty()) {
@@ -323,7 +323,7 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 	}
 
 	entries = moordyn::str::split(lines[5]);
-	coordtype = (Waves::coordtypes)stoi(entries[0]);
+	coordtype = (Waves::coordtypes)stoi(entries.at(0));
 	entries = moordyn::str::split(lines[6]);
 	auto py = gridAxisCoords(coordtype, entries);
 	if (py.empty()) {
@@ -333,7 +333,7 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 	}
 
 	entries = moordyn::str::split(lines[7]);
-	coordtype = (Waves::coordtypes)stoi(entries[0]);
+	coordtype = (Waves::coordtypes)stoi(entries.at(0));
 	entries = moordyn::str::split(lines[8]);
 	auto pz = gridAxisCoords(coordtype, entries);
 	if (pz.empty()) {
-- 
2.43.0


From f0b467bc881ea5107a1fe9e6cb3dca007f700e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:31 +0000
Subject: [PATCH 49/73] fix: refuse the water kinematics files with invalid
 times

---
 source/Waves/WaveGrid.cpp | 41 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 7c5242a..7c644c8 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -406,6 +406,34 @@ constructWaveGridSpectrumData(const std::string& folder,
 	                    env,
 	                    _log);
 }
+
+/** @brief Number of samples, with a constant time step, which are covered by a
+ * list of times
+ * @param times The times read from the file
+ * @param dt The time step
+ * @param filepath The file, for the error messages
+ * @param _log Logging handler
+ * @return The number of samples
+ * @throws moordyn::input_file_error If the times are not sorted, or the time
+ * step is not valid
+ */
+unsigned int
+countSamples(const std::vector<real>& times,
+             real dt,
+             const std::string& filepath,
+             moordyn::Log* _log)
+{
+	bool valid = !times.empty() && (dt > 0.0);
+	for (unsigned int i = 1; i < times.size(); i++)
+		valid = valid && (times[i] >= times[i - 1]);
+	const real n = valid ? floor(times.back() / dt) + 1 : 0.0;
+	if (!(n >= 1.0 && n < std::numeric_limits<int>::max())) {
+		LOGERR << "Invalid times in the file '" << filepath << "'" << endl;
+		throw moordyn::input_file_error("Invalid times");
+	}
+	return (unsigned int)n;
+}
+
 std::unique_ptr<WaveGrid>
 constructWaveGridElevationData(const std::string& folder,
                                const EnvCondRef env,
@@ -452,7 +480,12 @@ constructWaveGridElevationData(const std::string& folder,
 	// this makes the implicit assumption that dtWave >= interval between
 	// samples the 1 extra is for the point at zero, [0.0, 1.0, 2.0] is 3
 	// points even though 2.0/1.0 = 2
-	unsigned int nt = floor(wavetimes.back() / dtWave) + 1;
+	unsigned int nt = countSamples(wavetimes, dtWave, WaveFilename, _log);
+	if (nt < 2) {
+		LOGERR << "The file '" << WaveFilename
+		       << "' should have at least 2 samples" << endl;
+		throw moordyn::input_file_error("Invalid file format");
+	}
 	LOGDBG << "Number of wave time samples = " << nt << "(" << wavetimes.size()
 	       << " samples provided in the file)" << endl;
 
@@ -705,7 +738,8 @@ constructDynamicCurrentGrid(const std::string& folder,
 	for (unsigned int i = 1; i < ntin; i++)
 		if (UProfileT[i] - UProfileT[i - 1] < dtWave)
 			dtWave = UProfileT[i] - UProfileT[i - 1];
-	unsigned int nt = floor(UProfileT[ntin - 1] / dtWave) + 1;
+	unsigned int nt =
+	    countSamples(UProfileT, dtWave, CurrentsFilename, _log);
 
 	auto currentGrid =
 	    make_unique<CurrentGrid>(_log, px, py, UProfileZ, nt, dtWave);
@@ -863,7 +897,8 @@ construct4DCurrentGrid(const std::string& folder,
 			dtWave = UProfileT[i] - UProfileT[i - 1];
 
 	// set number of timesteps
-	unsigned int nt = floor(UProfileT[ntCurGrid - 1] / dtWave) + 1;
+	unsigned int nt =
+	    countSamples(UProfileT, dtWave, CurrentsFilename, _log);
 
 	auto currentGrid = make_unique<CurrentGrid>(
 	    _log, UProfileX, UProfileY, UProfileZ, nt, dtWave);
-- 
2.43.0


From 59cadbc5bba8c3d92743d343bf1212aa8ada100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:10 +0000
Subject: [PATCH 50/73] fix: refuse the curve files without points

---
 source/MoorDyn2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 6ade48d..d1280bd 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -750,6 +750,10 @@ class MoorDyn final : public io::IO
 			y.push_back(atof(entries[1].c_str()));
 			LOGDBG << "(" << x.back() << ", " << y.back() << ")" << std::endl;
 		}
+		if (x.empty()) {
+			LOGERR << "Error: Not enough curve data in curve file" << endl;
+			return MOORDYN_INVALID_INPUT;
+		}
 
 		LOGMSG << (i-3) << " lines of curve successfully loaded" << std::endl;
 		return MOORDYN_SUCCESS;
-- 
2.43.0


From 20bdef741e56c1af41ff2fb2c22c41cc4329631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:53 +0000
Subject: [PATCH 51/73] fix: MoorDyn_SetTimeScheme keeps the time, the state
 and the waves

The waves kept a pointer to the deleted integrator, the time went back to
0, and all the free objects were initialized again (including a second
header on the line output files).
---
 source/MoorDyn2.cpp | 2 --
 source/MoorDyn2.hpp | 9 +++++++--
 source/Waves.hpp    | 5 +++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 38bdc04..fe1526e 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2794,9 +2794,7 @@ MoorDyn_SetTimeScheme(MoorDyn system, const char* name)
 		     << err_msg << endl;
 		return err;
 	}
-	auto state = sys->GetTimeScheme()->GetState();
 	sys->SetTimeScheme(tscheme);
-	tscheme->SetState(state);
 
 	return MOORDYN_SUCCESS;
 }
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index d1280bd..f383a4d 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -374,8 +374,12 @@ class MoorDyn final : public io::IO
 	 * @return The time integrator
 	 */
 	inline void SetTimeScheme(TimeScheme* tscheme) {
-		if (_t_integrator) delete _t_integrator;
+		// The new integrator takes over the state and time of the old one
+		const MoorDynState state = _t_integrator->GetState();
+		const real time = _t_integrator->GetTime();
+		delete _t_integrator;
 		_t_integrator = tscheme;
+		waves->SetTimeScheme(tscheme);
 		_t_integrator->SetGround(GroundBody);
 		for (auto obj : BodyList)
 			_t_integrator->AddBody(obj);
@@ -386,7 +390,8 @@ class MoorDyn final : public io::IO
 		for (auto obj : LineList)
 			_t_integrator->AddLine(obj);
 		_t_integrator->SetCFL(cfl);
-		_t_integrator->Init();
+		_t_integrator->SetState(state);
+		_t_integrator->SetTime(time);
 	}
 
   protected:
diff --git a/source/Waves.hpp b/source/Waves.hpp
index 118a9ab..13ae22b 100644
--- a/source/Waves.hpp
+++ b/source/Waves.hpp
@@ -674,6 +674,11 @@ class Waves : public LogUser
 	           SeafloorRef seafloor,
 	           TimeScheme* t,
 	           const char* folder = "Mooring/");
+
+	/** @brief Replace the time integration scheme
+	 * @param t The new time integration scheme
+	 */
+	inline void SetTimeScheme(TimeScheme* t) { _t_integrator = t; }
 };
 
 // other relevant functions being thrown into this file for now (should move to
-- 
2.43.0


From 69bb3229aac2b979161ebfd4b8d152989621100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:31 +0000
Subject: [PATCH 52/73] fix: local time schemes recompute the time steps of the
 lines

The new time steps were appended to the former ones, which were the ones
used, e.g. when the scheme was set before the initialization.
---
 source/Time.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/Time.cpp b/source/Time.cpp
index 7c9b2ab..b1f6fdb 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -297,6 +297,14 @@ LocalTimeSchemeBase<NSTATE, NDERIV>::ComputeDt()
 	for (auto obj : this->bodies)
 		dt = (std::min)(dt, obj->cfl2dt(this->cfl));
 
+	// Drop the values of a previous call
+	for (auto deltas : { &_dt0, &_dt }) {
+		deltas->lines.clear();
+		deltas->points.clear();
+		deltas->rods.clear();
+		deltas->bodies.clear();
+	}
+
 	for (auto line : this->lines) {
 		const real dt_line = line->cfl2dt(this->cfl);
 		_dt0.lines.push_back(0.999 * dt_line);
-- 
2.43.0


From 4bb5714019fc7b3dc7aed6a56f7c678d66f0f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:43 +0000
Subject: [PATCH 53/73] fix: the rates of change of the orientations start as
 null quaternions

---
 source/Time.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/Time.hpp b/source/Time.hpp
index b76637e..8c97f95 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -449,6 +449,7 @@ class TimeSchemeBase : public TimeScheme
 		}
 		DRodStateDt dstate;
 		dstate.vel = XYZQuat::Zero();
+		dstate.vel.quat = quaternion(0.0, 0.0, 0.0, 0.0);
 		dstate.acc = vec6::Zero();
 		for (unsigned int i = 0; i < rd.size(); i++) {
 			rd[i].rods.push_back(dstate);
@@ -499,6 +500,7 @@ class TimeSchemeBase : public TimeScheme
 		}
 		DBodyStateDt dstate;
 		dstate.vel = XYZQuat::Zero();
+		dstate.vel.quat = quaternion(0.0, 0.0, 0.0, 0.0);
 		dstate.acc = vec6::Zero();
 		for (unsigned int i = 0; i < rd.size(); i++) {
 			rd[i].bodies.push_back(dstate);
-- 
2.43.0


From 27fa82289a216a04c9dd1f1ce0928cb3988bb312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:43 +0000
Subject: [PATCH 54/73] fix: rods pinned to a body take their orientation in
 the body axes

---
 source/Body.cpp |  4 ++++
 source/Rod.cpp  |  2 ++
 source/Rod.hpp  | 11 +++++++++++
 3 files changed, 17 insertions(+)

diff --git a/source/Body.cpp b/source/Body.cpp
index 75640d3..2bf0f00 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -189,6 +189,8 @@ Body::initializeUnfreeBody(vec6 r6_in, vec6 v6_in, vec6 a6_in)
 	for (auto attached : attachedR)
 		if (attached->type == Rod::FIXED)
 			attached->initialize();
+		else if (attached->type == Rod::PINNED)
+			attached->setOrientation(r7.quat);
 	// If there's an attached Point, initialize it now because it won't be
 	// initialized otherwise
 	for (auto attached : attachedP)
@@ -214,6 +216,8 @@ Body::initialize()
 		for (auto attached : attachedR)
 			if (attached->type == Rod::FIXED)
 				attached->initialize();
+			else if (attached->type == Rod::PINNED)
+				attached->setOrientation(r7.quat);
 		// If there's an attached Point, initialize it now because it won't be
 		// initialized otherwise
 		for (auto attached : attachedP)
diff --git a/source/Rod.cpp b/source/Rod.cpp
index 1b7c082..5781b20 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -347,6 +347,8 @@ Rod::initialize()
 	vec6 vel = vec6::Zero();
 	if (type == FREE)
 		pos.pos = r[0];
+	else if (type == PINNED)
+		pos.quat = r7.quat; // as given by the parent body
 
 	LOGMSG << "Initialized Rod " << number << endl;
 	return std::make_pair(pos, vel);
diff --git a/source/Rod.hpp b/source/Rod.hpp
index e59c87e..14631d8 100644
--- a/source/Rod.hpp
+++ b/source/Rod.hpp
@@ -511,6 +511,17 @@ class Rod final : public io::IO, public SuperCFL
 	 */
 	void setKinematics(vec6 r, vec6 rd);
 
+	/** @brief Set the initial orientation of the rods pinned to a body
+	 *
+	 * The coordinates of those rods are relative to the body axes
+	 * @param quat Orientation of the body
+	 */
+	inline void setOrientation(const quaternion& quat)
+	{
+		r7.quat = quat.normalized();
+		q = r7.quat.toRotationMatrix() * q0;
+	}
+
 	/** @brief Set the end kinematics then set the states (positions and
 	 * velocities) of any line ends attached to this rod.
 	 *
-- 
2.43.0


From 3a7d8479e3a7f95e25fb93f3086742b62d131818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:38 +0000
Subject: [PATCH 55/73] fix: dtIC of the dynamic initial condition is not
 divided twice

---
 source/MoorDyn2.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index fe1526e..2930b34 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -224,7 +224,6 @@ moordyn::MoorDyn::icLegacy()
 	real best_score_t = 0.0;
 	unsigned int best_score_line = 0;
 
-	ICdt = ICdt / (convergence_iters+1);
 	while ((ICTmax - t) > (std::numeric_limits<real>::min)()) {
 		// Integrate one ICD timestep (ICdt)
 		real t_target = ICdt;
-- 
2.43.0


From 1136b430860284752eba97d58498c78ef9d0d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:38 +0000
Subject: [PATCH 56/73] fix: the stationary initial condition keeps the
 orientation of free objects at rest

---
 source/State.cpp | 14 +++++++++-----
 source/State.hpp | 12 +++++++++++-
 source/Time.cpp  |  4 ++--
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 672c970..b79e0ff 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -419,10 +419,14 @@ real StateVarDeriv<vec6>::MakeStationary(const real &dt)
 }
 
 template<>
-real StateVarDeriv<XYZQuat, vec6>::MakeStationary(const real &dt)
+real StateVarDeriv<XYZQuat, vec6>::MakeStationary(const real &dt,
+                                                  const XYZQuat& pos)
 {
 	real ret = acc.head<3>().norm();
-	vel = XYZQuat::fromVec6(0.5 * dt * acc);
+	const vec6 v6 = 0.5 * dt * acc;
+	vel.pos = v6.head<3>();
+	vel.quat =
+	    0.5 * (quaternion(0.0, v6[3], v6[4], v6[5]) * pos.quat).coeffs();
 	acc = vec6::Zero();
 	return ret;
 }
@@ -847,7 +851,7 @@ DMoorDynStateDt::operator-(const DMoorDynStateDt& rhs)
 }
 
 real
-DMoorDynStateDt::MakeStationary(const real &dt)
+DMoorDynStateDt::MakeStationary(const real &dt, const MoorDynState& state)
 {
 	real ret = 0.0;
 	for (unsigned int i = 0; i < lines.size(); i++)
@@ -855,9 +859,9 @@ DMoorDynStateDt::MakeStationary(const real &dt)
 	for (unsigned int i = 0; i < points.size(); i++)
 		ret += points[i].MakeStationary(dt);
 	for (unsigned int i = 0; i < rods.size(); i++)
-		ret += rods[i].MakeStationary(dt);
+		ret += rods[i].MakeStationary(dt, state.rods[i].pos);
 	for (unsigned int i = 0; i < bodies.size(); i++)
-		ret += bodies[i].MakeStationary(dt);
+		ret += bodies[i].MakeStationary(dt, state.bodies[i].pos);
 	return ret;
 }
 
diff --git a/source/State.hpp b/source/State.hpp
index 0bbdf95..4ff396f 100644
--- a/source/State.hpp
+++ b/source/State.hpp
@@ -170,6 +170,15 @@ class StateVarDeriv
 	 */
 	real MakeStationary(const real &dt);
 
+	/** @brief Transform the variation rate to a stationary case
+	 *
+	 * The variation rate of the orientations depends on the orientation itself
+	 * @param dt Time step.
+	 * @param pos The current position and orientation
+	 * @return The module of the linear acceleration
+	 */
+	real MakeStationary(const real &dt, const T& pos);
+
 	/** @brief Carry out a Newmark step
 	 *
 	 * The resulting state rate of change will have the following velocity
@@ -374,9 +383,10 @@ class DMoorDynStateDt
 	 *
 	 * This can be use therefore to look for stationary solutions
 	 * @param dt Time step.
+	 * @param state The state at which the variation rate was computed
 	 * @return The sum of the linear acceleration norms
 	 */
-	real MakeStationary(const real &dt);
+	real MakeStationary(const real &dt, const MoorDynState& state);
 
 	/** @brief Carry out a Newmark step
 	 *
diff --git a/source/Time.cpp b/source/Time.cpp
index b1f6fdb..7b5c0d6 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -179,7 +179,7 @@ StationaryScheme::Step(real& dt)
 	Update(0.0, 0);
 	CalcStateDeriv(0);
 	const real error_prev = _error;
-	_error = rd[0].MakeStationary(dt);
+	_error = rd[0].MakeStationary(dt, r[0]);
 	if (error_prev != 0.0) {
 		if (error_prev >= _error) {
 			// Let's try to boost the convergence
@@ -192,7 +192,7 @@ StationaryScheme::Step(real& dt)
 			r[0].Mix(r[1], STATIONARY_RELAX);
 			Update(0.0, 0);
 			CalcStateDeriv(0);
-			_error = rd[0].MakeStationary(dt);
+			_error = rd[0].MakeStationary(dt, r[0]);
 		}
 	}
 	if (_booster > STATIONARY_MAX_BOOSTING)
-- 
2.43.0


From 872da1e68a6e3e089bb9eaf84dd137e6e4a6d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:56 +0000
Subject: [PATCH 57/73] fix: GetFairTen returns -1 for the lines which do not
 exist

---
 source/MoorDyn.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn.cpp b/source/MoorDyn.cpp
index 42e2a21..7fa40c6 100644
--- a/source/MoorDyn.cpp
+++ b/source/MoorDyn.cpp
@@ -238,7 +238,8 @@ GetFairTen(int l)
 		return -1;
 	double t;
 	auto line = MoorDyn_GetLine(md_singleton, l);
-	MoorDyn_GetLineFairTen(line, &t);
+	if (MoorDyn_GetLineFairTen(line, &t))
+		return -1;
 	return t;
 }
 
-- 
2.43.0


From 6a5571793535a9e5899a3a3f07011c12f392b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:56 +0000
Subject: [PATCH 58/73] fix: MoorDynInit releases the system when it fails to
 initialize it

---
 source/MoorDyn.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn.cpp b/source/MoorDyn.cpp
index 7fa40c6..28d0503 100644
--- a/source/MoorDyn.cpp
+++ b/source/MoorDyn.cpp
@@ -148,8 +148,10 @@ MoorDynInit(const double x[], const double xd[], const char* infilename)
 		return MOORDYN_UNHANDLED_ERROR;
 
 	int err = MoorDyn_Init(instance, x, xd);
-	if (err)
+	if (err) {
+		MoorDyn_Close(instance);
 		return err;
+	}
 
 	if (md_singleton)
 		MoorDyn_Close(md_singleton); // We do not care if this fails
-- 
2.43.0


From 325fb915abcbb34c340194e825e57e5e80f21b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:43 +0000
Subject: [PATCH 59/73] fix: the systems which fail to load the input file
 release their objects

---
 source/MoorDyn2.cpp | 17 +++++++++++++++--
 source/MoorDyn2.hpp |  7 +++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 2930b34..52923e4 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -141,9 +141,16 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
 
 	waves = std::make_shared<moordyn::Waves>(_log);
 
-	const moordyn::error_id err = ReadInFile();
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	try {
+		err = ReadInFile();
+	} catch (...) {
+		// The destructor is not called if the constructor fails
+		Release();
+		throw;
+	}
 	if (err != MOORDYN_SUCCESS) {
-		delete GetLogger();
+		Release();
 	}
 	MOORDYN_THROW(err, "Exception while reading the input file");
 
@@ -166,6 +173,12 @@ moordyn::MoorDyn::~MoorDyn()
 		if (outfile && outfile->is_open())
 			outfile->close();
 
+	Release();
+}
+
+void
+moordyn::MoorDyn::Release()
+{
 	delete _t_integrator;
 
 	delete GroundBody;
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index f383a4d..3e00318 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -407,6 +407,13 @@ class MoorDyn final : public io::IO
 	 */
 	moordyn::error_id ReadInFile();
 
+	/** @brief Delete all the objects owned by this instance
+	 *
+	 * This function is called from the destructor, and from the constructor
+	 * when the input file cannot be loaded
+	 */
+	void Release();
+
 	/** @brief Read the input file and store it as a set of strings, one per
 	 * line
 	 * @param in_txt The output list of strings
-- 
2.43.0


From 247d0be8e3ecb238a18acda60964541bea6f5f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:43 +0000
Subject: [PATCH 60/73] fix: the line types with invalid curves are released

---
 source/MoorDyn2.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 52923e4..7bb7e4f 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1795,22 +1795,28 @@ moordyn::MoorDyn::readLineProps(string inputText)
 	                 &(obj->nEApoints),
 	                 obj->stiffXs,
 	                 obj->stiffYs);
-	if (err)
+	if (err) {
+		delete obj;
 		return nullptr;
+	}
 	err = read_curve(entries[4].c_str(),
 	                 &(obj->c),
 	                 &(obj->nCpoints),
 	                 obj->dampXs,
 	                 obj->dampYs);
-	if (err)
+	if (err) {
+		delete obj;
 		return nullptr;
+	}
 	err = read_curve(entries[5].c_str(),
 	                 &(obj->EI),
 	                 &(obj->nEIpoints),
 	                 obj->bstiffXs,
 	                 obj->bstiffYs);
-	if (err)
+	if (err) {
+		delete obj;
 		return nullptr;
+	}
 
 	LOGDBG << "\t'" << obj->type << "'"
 	       << " - with id " << LinePropList.size() << endl
-- 
2.43.0


From c339bb9177c42836e3208cb0c711eed9986e7878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 61/73] fix: the smallest time step is used when both dtM and
 CFL are given

---
 source/MoorDyn2.cpp | 10 +++++++---
 source/MoorDyn2.hpp |  3 +++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 7bb7e4f..cea7e77 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -88,6 +88,7 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
   , WaveKinTemp(waves::WAVES_NONE)
   , dtM0((std::numeric_limits<real>::max)())
   , cfl(0.5)
+  , cflGiven(false)
   , dtOut(0.0)
   , _t_integrator(NULL)
   , ICgenDynamic(false)
@@ -514,7 +515,9 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 		ix += 3;
 	}
 
-	if (dtM0 < (0.9 * (std::numeric_limits<real>::max)()))
+	// If just the time step is provided it is used whatever the CFL is. If both
+	// are provided, then the smallest time step is used
+	if (!cflGiven && (dtM0 < (0.9 * (std::numeric_limits<real>::max)())))
 		cfl = (std::numeric_limits<real>::max)(); // Is 90% of max sufficient tolerance for this check?
 
 	// Compute the timestep
@@ -2178,9 +2181,10 @@ moordyn::MoorDyn::readOptionsLine(vector<string>& in_txt, int i)
 	// DT is old way, should phase out
 	if ((name == "dtM") || (name == "DT"))
 		dtM0 = atof(entries[0].c_str());
-	else if ((name == "CFL") || (name == "cfl"))
+	else if ((name == "CFL") || (name == "cfl")) {
 		cfl = atof(entries[0].c_str());
-	else if (name == "writeLog") {
+		cflGiven = true;
+	} else if (name == "writeLog") {
 		// This was actually already did, so we do not need to do that again
 		// But we really want to have this if to avoid showing a warning for
 		// Unrecognized option writeLog
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 3e00318..bbae870 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -332,6 +332,7 @@ class MoorDyn final : public io::IO
 	 */
 	inline void SetDt(real dt) {
 		this->dtM0 = dt;
+		this->cflGiven = false;
 		this->cfl = 0.0;
 		for (auto obj : LineList)
 			cfl = (std::max)(cfl, obj->dt2cfl(dtM0));
@@ -574,6 +575,8 @@ class MoorDyn final : public io::IO
 	real dtM0;
 	/// desired mooring line model maximum CFL factor
 	real cfl;
+	/// true if the CFL factor is given in the input file
+	bool cflGiven;
 	/// (s) desired output interval (the default zero value provides output at
 	/// every call to MoorDyn)
 	real dtOut;
-- 
2.43.0


From 7c37237ec6c66db151682db18228445a3f1bb6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 62/73] fix: ExternalWaveKinGetN of the Python module gives the
 number of points

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 6363779..2ce264b 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -303,7 +303,7 @@ def ExternalWaveKinGetN(instance):
     int: The number of points
     """
     import cmoordyn
-    return cmoordyn.ext_wave_init(instance)
+    return cmoordyn.ext_wave_n(instance)
 
 
 def GetWaveKinCoordinates(instance):
-- 
2.43.0


From 1c8c2d78cde423cffbcf88d065725ff4969f2ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 63/73] fix: IsLinePressBend of the Python module raised a
 NameError

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 2ce264b..8fcb42d 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -1146,7 +1146,7 @@ def IsLinePressBend(instance):
     b: True if the pressure bending of the line is enabled, False otherwise
     """
     import cmoordyn
-    return cmoordyn.line_is_pbend(b)
+    return cmoordyn.line_is_pbend(instance)
 
 
 def SetLinePressBend(instance, b):
-- 
2.43.0


From 75b6834599f832de409c80dea138c41b8eea4c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 64/73] fix: SetLinePressBend of the Python module read an
 uninitialized value

---
 wrappers/python/cmoordyn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index d1597aa..605ebd5 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -2235,7 +2235,7 @@ line_set_pbend(PyObject*, PyObject* args)
 	PyObject* capsule;
 	int b;
 
-	if (!PyArg_ParseTuple(args, "Ob", &capsule, &b))
+	if (!PyArg_ParseTuple(args, "Op", &capsule, &b))
 		return NULL;
 
 	MoorDynLine instance =
-- 
2.43.0


From 1f5e70607fdf2aeeea2bc3c5b12f22e91043e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 65/73] fix: GetLineNodeSeabedForce of the Python module gave
 the Froude-Krylov force

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 8fcb42d..7f764ed 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -1309,7 +1309,7 @@ def GetLineNodeSeabedForce(instance, i):
     f: The node force (a 3 components tuple)
     """
     import cmoordyn
-    return cmoordyn.line_get_node_froudekrylov(instance, i)
+    return cmoordyn.line_get_node_seabed(instance, i)
 
 
 def GetLineNodeCurv(instance, i):
-- 
2.43.0


From 740029dd9fc940d293a42428d764d45aae8631c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 66/73] fix: UseBodyVTK of the Python module raised an
 AttributeError

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 7f764ed..c5bf121 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -793,7 +793,7 @@ def UseBodyVTK(instance, filename):
     int: 0 uppon success, an error code otherwise
     """
     import cmoordyn
-    return cmoordyn.use_save_vtk(instance, filename)
+    return cmoordyn.body_use_vtk(instance, filename)
 
 #                                  Rod.h
 #  =============================================================================
-- 
2.43.0


From 0b183ea2a2c28b82a402a1b9f83528d26f900e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 67/73] fix: GetWavesKin of the Python module raised a
 TypeError

---
 wrappers/python/cmoordyn.cpp       | 2 +-
 wrappers/python/moordyn/moordyn.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index 605ebd5..4fce58e 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -1018,7 +1018,7 @@ waves_getkin(PyObject*, PyObject* args)
 {
 	PyObject* capsule;
 	double x, y, z;
-	PyObject* seafloor;
+	PyObject* seafloor = Py_None;
 
 	if (!PyArg_ParseTuple(args, "Oddd|O", &capsule, &x, &y, &z, &seafloor))
 		return NULL;
diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index c5bf121..4050252 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -594,7 +594,7 @@ def GetWavesKin(instance, x, y, z, t, seafloor=None):
     pdyn: The dynamic pressure
     """
     import cmoordyn
-    return cmoordyn.waves_getkin(instance, x, y, z, t, seafloor)
+    return cmoordyn.waves_getkin(instance, x, y, z, seafloor)
 
 
 #                                  Seafloor.h
-- 
2.43.0


From 99f02ad842666db15764a0cb06509e6cb8493398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 68/73] fix: Deserialize of the Python module reported a
 SystemError for wrong types

---
 wrappers/python/cmoordyn.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index 4fce58e..fbe9c73 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -919,8 +919,12 @@ deserialize(PyObject*, PyObject* args)
 
 	MoorDyn system =
 	    (MoorDyn)PyCapsule_GetPointer(capsule, moordyn_capsule_name);
-	if (!system || !PyBytes_Check(bytes))
+	if (!system)
+		return NULL;
+	if (!PyBytes_Check(bytes)) {
+		PyErr_SetString(PyExc_TypeError, "2nd argument must be bytes");
 		return NULL;
+	}
 
 	char* array = PyBytes_AsString(bytes);
 	const int err = MoorDyn_Deserialize(system, (uint64_t*)array);
-- 
2.43.0


From 3d5d28dee58eef24a81fd862e0c2b6581c999731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 69/73] fix: the bodies of the Python generator could not be
 created

---
 wrappers/python/moordyn/Generator/Body.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/Generator/Body.py b/wrappers/python/moordyn/Generator/Body.py
index 5fdd199..4048b88 100644
--- a/wrappers/python/moordyn/Generator/Body.py
+++ b/wrappers/python/moordyn/Generator/Body.py
@@ -45,7 +45,7 @@ class BodyPoint():
 class Body(Entity):
     """A body
     """
-    def __init__(self, t, p, r, m, cog, inertia, cda, v):
+    def __init__(self, t, p, r, m, cog, inertia, cda, v, ca=0):
         """Constructor
 
         Parameters
-- 
2.43.0


From ff33664523ad4d90def16da0e598d5f354cff7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 70/73] fix: the columns of the bodies of the Python generator
 are those of the input file

---
 wrappers/python/moordyn/Generator/Body.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/moordyn/Generator/Body.py b/wrappers/python/moordyn/Generator/Body.py
index 4048b88..ed012bb 100644
--- a/wrappers/python/moordyn/Generator/Body.py
+++ b/wrappers/python/moordyn/Generator/Body.py
@@ -52,7 +52,7 @@ class Body(Entity):
         ----------
         t (BodyPoint): The type of body point
         p (list): Point (3 components)
-        r (list): Rotation (3 components, radians)
+        r (list): Rotation (3 components, degrees)
         m (float): Node mass in the case of clump weights (kg)
         cog (float/list): The center of gravity (3 components). If just a single
                           number is provided, then (0, 0, cog) is considered
@@ -68,8 +68,8 @@ class Body(Entity):
         Entity.__init__(
             self,
             "BODIES",
-            field_names=["ID", "Type", "X   Y   Z  ", "Roll  Pitch Yaw", "Mass", "CoG", "Volume", "Inertia", "CdA", "Ca"],
-            field_units=["(#)", "(name)", "(m) (m) (m)", "(rad) (rad) (rad)", "(kg)", "(m)", "(m^3)", "(kg*m^2)", "(m^2)", "(-)"])
+            field_names=["ID", "Type", "X   Y   Z  ", "Roll  Pitch Yaw", "Mass", "CoG", "Inertia", "Volume", "CdA", "Ca"],
+            field_units=["(#)", "(name)", "(m) (m) (m)", "(deg) (deg) (deg)", "(kg)", "(m)", "(kg*m^2)", "(m^3)", "(m^2)", "(-)"])
         self.__name = 0
         self.__t = t
         self.__p = PropsList(p, " ")
@@ -179,7 +179,7 @@ class Body(Entity):
                          self.__r,
                          self.__m,
                          self.__cog,
-                         self.__v,
                          self.__I,
+                         self.__v,
                          self.__cda,
                          self.__ca])
-- 
2.43.0


From 7fdffce923b1198a9042ed58be54bbe9ee915c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 71/73] fix: the points of the Python generator can be attached
 to bodies

---
 wrappers/python/moordyn/Generator/Body.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wrappers/python/moordyn/Generator/Body.py b/wrappers/python/moordyn/Generator/Body.py
index ed012bb..b09adcb 100644
--- a/wrappers/python/moordyn/Generator/Body.py
+++ b/wrappers/python/moordyn/Generator/Body.py
@@ -172,6 +172,15 @@ class Body(Entity):
         self.__ca = PropsList(v, "|")
         self.__set_values()
 
+    def __str__(self):
+        """Get the string
+
+        Returns
+        -------
+        str: The word to attach other entities to this body
+        """
+        return "BODY" + str(self.__name)
+
     def __set_values(self):
         self.set_values([self.__name,
                          self.__t,
-- 
2.43.0


From 3ca129979cadd41fe5c16083c757f8d8a1a92cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 72/73] fix: the lines of the Python generator are attached to
 the chosen rod end

---
 wrappers/python/moordyn/Generator/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/Generator/Line.py b/wrappers/python/moordyn/Generator/Line.py
index 0cd76ef..a7297b9 100644
--- a/wrappers/python/moordyn/Generator/Line.py
+++ b/wrappers/python/moordyn/Generator/Line.py
@@ -176,7 +176,7 @@ class LinePoint():
         str: The point string
         """
         if isinstance(self.__obj, Rod):
-            return "R" + str(self.__obj.name)
+            return "R" + str(self.__obj.name) + str(self.__end_point)
         return str(self.__obj.name)
 
 
-- 
2.43.0


From 3b824c93c857dba094bdc75084832956df191d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 73/73] fix: the material of the rods of the Python generator
 can be set

---
 wrappers/python/moordyn/Generator/Rod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/Generator/Rod.py b/wrappers/python/moordyn/Generator/Rod.py
index 46c4384..d06de2a 100644
--- a/wrappers/python/moordyn/Generator/Rod.py
+++ b/wrappers/python/moordyn/Generator/Rod.py
@@ -218,7 +218,7 @@ class Rod(Entity):
         return self.__mat
 
     @material.setter
-    def d(self, material):
+    def material(self, material):
         self.__mat = material
         self.__set_values()
 
-- 
2.43.0

