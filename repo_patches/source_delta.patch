From f75742f78f07878753a5aa8c35cd231251c43660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:03 +0000
Subject: [PATCH 01/30] fix: fast_tan and fast_tanf return NaN for denormal
 arguments

1/res overflows to infinity for denormal arguments and the blending
multiplied it by zero. Select the wanted value instead.
---
 include/tan.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/tan.h b/include/tan.h
index c1ec59d..009cc82 100644
--- a/include/tan.h
+++ b/include/tan.h
@@ -114,11 +114,12 @@ inline double fast_tan(double x){
     // A no branching way to say: if j&2 res = -1/res. You can!!!
     quad &=2;
     quad >>=1;
-    const int32_t alt = quad^1;
     // Avoid fpe generated by 1/0 if res is 0
     const double zeroIfXNonZero = (x==0.);
     res += zeroIfXNonZero;
-    res = quad * (-1./res) + alt * res; // one coeff is one and one is 0!
+    // 1/res overflows if x is denormal: select, 0*inf would be a NaN
+    const double minusInvRes = -1./res;
+    res = quad ? minusInvRes : res;
 
     // Again, return 0 if res==0, the correct result otherwhise
     return details::dpXORuint64(res,sign_mask) * (1.-zeroIfXNonZero);
@@ -151,11 +152,12 @@ inline float fast_tanf(float x){
     // A no branching way to say: if j&2 res = -1/res. You can!!!
     quad &=2;
     quad >>=1;
-    const int32_t alt = quad^1;
     // Avoid fpe generated by 1/0 if res is 0
     const float zeroIfXNonZero = (x==0.f);
     res += zeroIfXNonZero;
-    res = quad * (-1.f/res) + alt * res; // one coeff is one and one is 0!
+    // 1/res overflows if x is denormal: select, 0*inf would be a NaN
+    const float minusInvRes = -1.f/res;
+    res = quad ? minusInvRes : res;
 
     return details::spXORuint32(res,sign_mask) * (1.f-zeroIfXNonZero);
 
-- 
2.43.0


From 16cc9160ce5b91e144139ffa1ee2096c630c2cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:03 +0000
Subject: [PATCH 02/30] fix: fast_atan2f raises an invalid fpe when both
 arguments are zero

The protection against 0/0 was commented out in single precision.
---
 include/atan2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/atan2.h b/include/atan2.h
index 62f9249..bf70eef 100644
--- a/include/atan2.h
+++ b/include/atan2.h
@@ -105,7 +105,7 @@ inline float fast_atan2f( float y, float x ) {
     // To avoid the fpe, we protect against /0.
     const float oneIfXXZero = (xx==0.f);
     
-    float t=yy/(xx/*+oneIfXXZero*/);
+    float t=yy/(xx+oneIfXXZero);
     float z=t;
     if( t > 0.4142135623730950f ) // * tan pi/8
             z = (t-1.0f)/(t+1.0f);
-- 
2.43.0


From 494ff0c0f296797a40a754c5c4c0a65fc7b346fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:03 +0000
Subject: [PATCH 03/30] fix: fast_expf overflows to infinity before the end of
 its range

Between 88.38 and the documented limit 88.72 the scale factor 2^128 was
built, which is infinity. At the other end 2^-127 became zero.
---
 include/exp.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/exp.h b/include/exp.h
index 363b356..6c00723 100644
--- a/include/exp.h
+++ b/include/exp.h
@@ -140,8 +140,10 @@ inline float fast_expf(float initial_x) {
     z *= x2;
     z += x + 1.0f;
 
-    /* multiply by power of 2 */
-    z *=  details::uint322sp((n+0x7f)<<23);
+    /* multiply by power of 2, in two steps since 2^128 is not representable */
+    const int32_t n1 = n>>1;
+    z *=  details::uint322sp((n1+0x7f)<<23);
+    z *=  details::uint322sp((n-n1+0x7f)<<23);
 
     if (initial_x > details::MAXLOGF) z=std::numeric_limits<float>::infinity();
     if (initial_x < details::MINLOGF) z=0.f;
-- 
2.43.0


From e1ec5718f9dad2df35e03022a861499a61a4add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:03 +0000
Subject: [PATCH 04/30] fix: fast_log and fast_logf return a finite number for
 NaN

The comparison with the lower limit is false for a NaN argument.
---
 include/log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/log.h b/include/log.h
index ddda848..834e52c 100644
--- a/include/log.h
+++ b/include/log.h
@@ -118,7 +118,7 @@ inline double fast_log(double x){
 
 	if (original_x > details::LOG_UPPER_LIMIT)
 		res = std::numeric_limits<double>::infinity();
-	if (original_x < details::LOG_LOWER_LIMIT) // THIS IS NAN!
+	if (!(original_x >= details::LOG_LOWER_LIMIT)) // THIS IS NAN!
 		res =  - std::numeric_limits<double>::quiet_NaN();
 
 	return res;
@@ -193,7 +193,7 @@ inline float fast_logf( float x ) {
 
 	if (original_x > details::LOGF_UPPER_LIMIT)
 		res = std::numeric_limits<float>::infinity();
-	if (original_x < details::LOGF_LOWER_LIMIT)
+	if (!(original_x >= details::LOGF_LOWER_LIMIT))
 		res = -std::numeric_limits<float>::quiet_NaN();
 
 	return res;
-- 
2.43.0


From f8c8a2c8d15c1cc0817e629a3fd3853445fe051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:28 +0000
Subject: [PATCH 05/30] fix: diffbit converts -inf for identical numbers and
 rounds up near powers of 2

log2 of zero was converted to an unsigned integer, which is undefined. For
differences just below a large power of two log2 rounded up and the result
was one bit too much. Count the bits of the integer difference instead.
---
 include/diagnostic/vdtdiag_helper.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 6dcb6f5..34c2d85 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -178,8 +178,11 @@ uint16_t diffbit(const T a,const T b ){
 	uint64_t ib = fp2uint64(b);
 	uint64_t c = ia>ib? ia-ib : ib -ia;
 	//uint64_t c = ia^ib;
-	/// return the log2+1
-	return log2(c)+1;
+	/// return the log2+1, 0 if identical
+	uint16_t nbits = 0;
+	for (;c!=0;c>>=1)
+		nbits++;
+	return nbits;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 061b40756281e1b76f42a3070fd1d367ed61051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:42 +0000
Subject: [PATCH 06/30] fix: timer loses intervals which cross a second
 boundary

The negative difference of the nanoseconds was wrapped to an unsigned
integer and then summed in double precision.
---
 include/diagnostic/vdtdiag_helper.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 34c2d85..631525c 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -383,8 +383,9 @@ private:
 		timespec temp;
 		temp.tv_sec = m_time2.tv_sec-m_time1.tv_sec;
 		temp.tv_nsec = m_time2.tv_nsec-m_time1.tv_nsec;
-		uint64_t elapsed_time = temp.tv_nsec;
-		elapsed_time += 1e9*temp.tv_sec;
+		// tv_nsec is negative if a second boundary was crossed
+		int64_t elapsed_time = temp.tv_nsec;
+		elapsed_time += INT64_C(1000000000)*temp.tv_sec;
 		return elapsed_time;
 	}
 
-- 
2.43.0


From 5250534ec8af5a6dcf506375ac3e2e7055e5cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:42 +0000
Subject: [PATCH 07/30] fix: reading a comparison stops at the first non finite
 input

The decimal column is skipped as text: "nan" and "inf" cannot be
extracted as numbers.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 8078e80..308bc34 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -66,7 +66,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy;	//input value for Python, now useless
+			std::string dummy;	//input value for Python, now useless
 			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff >> dummy) {
 				m_input.push_back(in_val.getValue());
 				IfcnComparison<T>::m_out1.push_back(out1_val.getValue());
@@ -182,7 +182,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val1, in_val2, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy1, dummy2;	//input value for Python, now useless
+			std::string dummy1, dummy2;	//input value for Python, now useless
 			while(ifile >> in_val1 >> in_val2 >> out1_val >> out2_val >> tmp_diff >> dummy1 >> dummy2) {
 				m_input1.push_back(in_val1.getValue());
 				m_input2.push_back(in_val2.getValue());
-- 
2.43.0


From 4b3b66be094f4cab4bf4eed90438bcc472a21139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:49 +0000
Subject: [PATCH 08/30] fix: identity.h and stdwrap.h do not compile when
 included alone

---
 include/identity.h | 2 ++
 include/stdwrap.h  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/identity.h b/include/identity.h
index 88fc726..2587c9d 100644
--- a/include/identity.h
+++ b/include/identity.h
@@ -24,6 +24,8 @@
 #ifndef IDENTITY_H_
 #define IDENTITY_H_
 
+#include "inttypes.h"
+
 namespace vdt{
 
 // Identity double precision ---------------------------------------------------
diff --git a/include/stdwrap.h b/include/stdwrap.h
index fc0c958..1f51c59 100644
--- a/include/stdwrap.h
+++ b/include/stdwrap.h
@@ -1,6 +1,8 @@
 #ifndef _VDT_STD_H_
 #define _VDT_STD_H_
 
+#include <cmath>
+
 // wrapper around std function just to benefit of naming
 // to be used in vectorized wrappers
 
-- 
2.43.0


From e2f751726f2373a4f87456b1fef5c66607763079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:40 +0000
Subject: [PATCH 09/30] fix: numpy and Vc wrapper generators do not run with
 Python 3

The file builtin was removed from the language.
---
 src/numpy_wrapper_generator.py | 8 ++++----
 src/vc_wrapper_generator.py    | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/numpy_wrapper_generator.py b/src/numpy_wrapper_generator.py
index 2bf8c6e..41dcaf4 100644
--- a/src/numpy_wrapper_generator.py
+++ b/src/numpy_wrapper_generator.py
@@ -256,7 +256,7 @@ def create_python():
       for fcn_name in sorted(FUNCTIONS_LIST):
         code+=get_python_function(fcn_name,is_double,is_vector)
 
-  ofile=file(VDT_PYTHON_MODULE,'w')
+  ofile=open(VDT_PYTHON_MODULE,'w')
   ofile.write(code)
   ofile.close()
 
@@ -296,7 +296,7 @@ def create_numpy_header():
   code+=data+fname+fdoc;
 
 
-  ofile=file(VDT_NUMPY_WRAPPER_HEADER,'w')
+  ofile=open(VDT_NUMPY_WRAPPER_HEADER,'w')
   ofile.write(code)
   ofile.close()
 
@@ -332,14 +332,14 @@ def get_impl_file():
 #------------------------------------------------------------------
 
 def create_header():
-  ofile=file(VDT_WRAPPER_HEADER,'w')
+  ofile=open(VDT_WRAPPER_HEADER,'w')
   ofile.write(get_header_file())
   ofile.close()
   
 #------------------------------------------------------------------
 
 def create_impl():
-  ofile=file(VDT_WRAPPER_IMPL,'w')
+  ofile=open(VDT_WRAPPER_IMPL,'w')
   ofile.write(get_impl_file())
   ofile.close()
 
diff --git a/src/vc_wrapper_generator.py b/src/vc_wrapper_generator.py
index 057e6dc..529ffdd 100644
--- a/src/vc_wrapper_generator.py
+++ b/src/vc_wrapper_generator.py
@@ -153,14 +153,14 @@ def get_impl_file():
 #------------------------------------------------------------------
 
 def create_header():
-  ofile=file(VC_WRAPPER_HEADER,'w')
+  ofile=open(VC_WRAPPER_HEADER,'w')
   ofile.write(get_header_file())
   ofile.close()
   
 #------------------------------------------------------------------
 
 def create_impl():
-  ofile=file(VC_WRAPPER_IMPL,'w')
+  ofile=open(VC_WRAPPER_IMPL,'w')
   ofile.write(get_impl_file())
   ofile.close()
 
-- 
2.43.0


From 948303047b645a2723f352d8c7b1bae138940660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:40 +0000
Subject: [PATCH 10/30] fix: double precision fma of the fat library returns a
 float

---
 src/fatlib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fatlib.h b/src/fatlib.h
index b4e81b2..9685405 100644
--- a/src/fatlib.h
+++ b/src/fatlib.h
@@ -64,7 +64,7 @@ namespace {
 
 extern "C" {
   float myfmaF(float x, float y, float z) { return myfmaCPP(x,y,z);} 
-  float myfmaD(double x, double y, double z) { return myfmaCPP(x,y,z);} 
+  double myfmaD(double x, double y, double z) { return myfmaCPP(x,y,z);} 
 }
 
 #endif
-- 
2.43.0


From 9506ab1e7d96aa127d31849eac5202898d69130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:38 +0000
Subject: [PATCH 11/30] fix: writing an object read from file back to the same
 file loses the data

The output file was truncated before its content was copied.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 24 ++++++++++++++--------
 include/diagnostic/vdtdiag_fcnResponse.h   | 24 ++++++++++++++--------
 include/diagnostic/vdtdiag_random.h        | 24 ++++++++++++++--------
 3 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 308bc34..fb594a9 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -111,15 +111,17 @@ public:
   /// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance comparison file (the first 5 lines are the header)\n");
+		// Read first, the input and the output file can be the same
+		std::stringstream source;
+		source << std::ifstream( IfcnComparison<T>::m_ifile_name ).rdbuf();
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (IfcnComparison<T>::m_from_file){
 			std::string line;
-			std::ifstream ifile ( IfcnComparison<T>::m_ifile_name );
-			getline(ifile,line);
+			getline(source,line);
 			ofile << "Dumped by an object initialised by " << IfcnComparison<T>::m_ifile_name << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
@@ -228,15 +230,17 @@ public:
   /// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance comparison file (the first 5 lines are the header)\n");
+		// Read first, the input and the output file can be the same
+		std::stringstream source;
+		source << std::ifstream( IfcnComparison<T>::m_ifile_name ).rdbuf();
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (IfcnComparison<T>::m_from_file){
 			std::string line;
-			std::ifstream ifile ( IfcnComparison<T>::m_ifile_name );
-			getline(ifile,line);
+			getline(source,line);
 			ofile << "Dumped by an object initialised by " << IfcnComparison<T>::m_ifile_name << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
@@ -393,15 +397,17 @@ public:
   /// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance comparison file (the first 5 lines are the header)\n");
+		// Read first, the input and the output file can be the same
+		std::stringstream source;
+		source << std::ifstream( m_ifile_name ).rdbuf();
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (m_from_file){
 			std::string line;
-			std::ifstream ifile ( m_ifile_name );
-			getline(ifile,line);
+			getline(source,line);
 			ofile << "Dumped by an object initialised by " << m_ifile_name << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
diff --git a/include/diagnostic/vdtdiag_fcnResponse.h b/include/diagnostic/vdtdiag_fcnResponse.h
index c3d2cf2..67571bc 100644
--- a/include/diagnostic/vdtdiag_fcnResponse.h
+++ b/include/diagnostic/vdtdiag_fcnResponse.h
@@ -99,15 +99,17 @@ public:
 	/// Dump on ascii file
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT function arithmetics performance 1 input file (the first 5 lines are the header)\n");
+		// Read first, the input and the output file can be the same
+		std::stringstream source;
+		source << std::ifstream( IfcnResponse<T>::getIfileName() ).rdbuf();
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (IfcnResponse<T>::isFromFile()){
 			std::string line;
-			std::ifstream ifile ( IfcnResponse<T>::getIfileName() );
-			getline(ifile,line);
+			getline(source,line);
 			ofile << "Dumped by an object initialised by " << IfcnResponse<T>::getIfileName() << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
@@ -217,15 +219,17 @@ public:
 	/// Dump on ascii file
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT function arithmetics performance 1 input file (the first 5 lines are the header)\n");
+		// Read first, the input and the output file can be the same
+		std::stringstream source;
+		source << std::ifstream( IfcnResponse<T>::getIfileName() ).rdbuf();
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (IfcnResponse<T>::isFromFile()){
 			std::string line;
-			std::ifstream ifile ( IfcnResponse<T>::getIfileName() );
-			getline(ifile,line);
+			getline(source,line);
 			ofile << "Dumped by an object initialised by " << IfcnResponse<T>::getIfileName() << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
@@ -340,15 +344,17 @@ public:
 	/// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance file (the first 5 lines are the header)\n");
+		// Read first, the input and the output file can be the same
+		std::stringstream source;
+		source << std::ifstream( m_ifile_name ).rdbuf();
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (m_from_file){
 			std::string line;
-			std::ifstream ifile ( m_ifile_name );
-			getline(ifile,line);
+			getline(source,line);
 			ofile << "Dumped by an object initialised by " << m_ifile_name << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
diff --git a/include/diagnostic/vdtdiag_random.h b/include/diagnostic/vdtdiag_random.h
index b8e4f94..7297fd2 100644
--- a/include/diagnostic/vdtdiag_random.h
+++ b/include/diagnostic/vdtdiag_random.h
@@ -77,15 +77,17 @@ public:
 	/// Write numbers on disk in the form of an ascii file. The numbers are in HEX format.
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT Random numbers file (the first 5 lines are the header)\n");
+		// Read first, the input and the output file can be the same
+		std::stringstream source;
+		source << std::ifstream( getFileName() ).rdbuf();
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (getSize()==0 ){
 			std::string line;
-			std::ifstream ifile ( getFileName() );
-			getline(ifile,line);
+			getline(source,line);
 			ofile << "Dumped by an object initialised by " << getFileName() << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
@@ -176,15 +178,17 @@ public:
 	/// Write numbers on disk in the form of an ascii file. The numbers are in HEX format.
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT Random numbers file 2D (the first 5 lines are the header)\n");
+		// Read first, the input and the output file can be the same
+		std::stringstream source;
+		source << std::ifstream( getFileName() ).rdbuf();
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (getSize()==0 ){
 			std::string line;
-			std::ifstream ifile ( getFileName() );
-			getline(ifile,line);
+			getline(source,line);
 			ofile << "Dumped by an object initialised by " << getFileName() << " - "
 				  << preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
@@ -294,15 +298,17 @@ public:
 	/// Write numbers on disk in the form of an ascii file. The numbers are in HEX format.
 	void writeFile(const std::string output_filename) const{
 		const std::string preamble("VDT Random numbers file (the first 5 lines are the header)\n");
+		// Read first, the input and the output file can be the same
+		std::stringstream source;
+		source << std::ifstream( m_ifile_name ).rdbuf();
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (m_size==0 ){
 			std::string line;
-			std::ifstream ifile ( m_ifile_name );
-			getline(ifile,line);
+			getline(source,line);
 			ofile << "Dumped by an object initialised by " << m_ifile_name << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
-- 
2.43.0


From 884ac6d16c8e872f007b0886bdb2681ff351d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:37 +0000
Subject: [PATCH 12/30] fix: average time is wrong when more than 2^32 calls
 are timed

The number of calls was multiplied in 32 bits.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 0787314..fa809d4 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -205,7 +205,7 @@ private:
   delete [] results_arr;
   
   // Calculate mean and error on the mean
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
   //-----------------------------------------------------------------------------
@@ -253,7 +253,7 @@ private:
     delete [] results_arr;
 
     // Calculate mean and error on the mean
-    const uint64_t iterations = size * m_repetitions;
+    const uint64_t iterations = uint64_t(size) * m_repetitions;
     calculate_mean_and_err(t,t2,iterations);
     }
 //-----------------------------------------------------------------------------
@@ -289,7 +289,7 @@ private:
      fool_optimisation(results);
     }
     
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
 
@@ -327,7 +327,7 @@ void measureTime2Dv(){
 			 fool_optimisation(results);
 			}
 
-		const uint64_t iterations = size * m_repetitions;
+		const uint64_t iterations = uint64_t(size) * m_repetitions;
 		calculate_mean_and_err(t,t2,iterations);
 		}
 
-- 
2.43.0


From 6b25cf3f88c7014cfc28a892193b8c4c873f23f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:37 +0000
Subject: [PATCH 13/30] fix: timing error is NaN for equal or long repetitions

The sum of the squared nanoseconds overflows 64 bits as soon as the
repetitions take a few seconds, and rounding makes the variance of equal
measurements negative.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index fa809d4..089789e 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -167,7 +167,7 @@ private:
   
   // momenta to calculate mean and rms, they will be filled later
   uint64_t t=0;
-  uint64_t t2=0;
+  double t2=0;
 
   // An useful quantity
   const uint32_t size=m_input.size();
@@ -195,7 +195,7 @@ private:
     if (irep>=warm_up){
       deltat=fcntimer.get_elapsed_time();      
       t+=deltat;
-      t2+=deltat*deltat;
+      t2+=double(deltat)*deltat;
       }
       
     // To avoid optimisations, call a dummy function
@@ -214,7 +214,7 @@ private:
 
     // momenta to calculate mean and rms, they will be filled later
     uint64_t t=0;
-    uint64_t t2=0;
+    double t2=0;
 
     // An useful quantity
     const uint32_t size=m_input.size();
@@ -243,7 +243,7 @@ private:
       if (irep>=warm_up){
         deltat=fcntimer.get_elapsed_time();
         t+=deltat;
-        t2+=deltat*deltat;
+        t2+=double(deltat)*deltat;
         }
 
       // To avoid optimisations, call a dummy function
@@ -261,7 +261,7 @@ private:
   void measureTimev(){
   // See explainations in the scalar method!
   uint64_t t=0.;
-  uint64_t t2=0.;
+  double t2=0.;
 
   const uint32_t size=m_input.size();
 
@@ -281,7 +281,7 @@ private:
       if (irep>=warm_up){
       	deltat = fcntimer.get_elapsed_time();
         t+=deltat;
-        t2+=deltat*deltat;
+        t2+=double(deltat)*deltat;
         }
 
      std::vector<T> results(results_arr,results_arr+size);
@@ -298,7 +298,7 @@ private:
 void measureTime2Dv(){
 	// See explainations in the scalar method!
 		uint64_t t=0.;
-		uint64_t t2=0.;
+		double t2=0.;
 
 		const uint32_t size=m_input.size();
 
@@ -319,7 +319,7 @@ void measureTime2Dv(){
 				if (irep>=warm_up){
 					deltat = fcntimer.get_elapsed_time();
 					t+=deltat;
-					t2+=deltat*deltat;
+					t2+=double(deltat)*deltat;
 					}
 
 			 std::vector<T> results(results_arr,results_arr+size);
@@ -348,8 +348,8 @@ void calculate_mean_and_err(const double t, const double t2,const uint64_t itera
 
   // Calculate the error on the mean
   // RMS, one dof is gone for the mean, so iterations-1
-  const double rms2=(double(t2) - iterations*m_avg_time*m_avg_time)/(iterations-1);
-  const double rms=sqrt(rms2);
+  const double rms2=(t2 - iterations*m_avg_time*m_avg_time)/(iterations-1);
+  const double rms=rms2<0. ? 0. : sqrt(rms2); // rounding can make it slightly negative
   m_avg_time_err = rms / sqrt(iterations); //2 sqrts, but we go for clarity here.
 
 }
-- 
2.43.0


From 33260aa82213d9d0861091e3cd829eaec75e7a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:49 +0000
Subject: [PATCH 14/30] fix: object read from file is lost when the file
 changes before it is written

Pools, responses and comparisons read from a file copied that file again
when written, so that the output held the changed content, or nothing if
the file was gone. Write the numbers of the object instead.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 80 ++++++++++------------
 include/diagnostic/vdtdiag_fcnResponse.h   | 48 ++++++-------
 include/diagnostic/vdtdiag_random.h        | 60 ++++++++--------
 3 files changed, 85 insertions(+), 103 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index fb594a9..2d2b99f 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -55,8 +55,10 @@ public:
 		std::ifstream ifile ( input_filename );
 			std::string line;
 			//skip the 2 header lines but read the func name from resp
-			for (uint16_t i=0;i<5;++i)
+			for (uint16_t i=0;i<5;++i){
 				std::getline(ifile,line);
+				if (i>0) m_header += line + "\n"; // all but the preamble
+			}
 			//read data from file
 			//read stats:
 			fpFromHex<double> mean, rms;
@@ -111,19 +113,13 @@ public:
   /// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance comparison file (the first 5 lines are the header)\n");
-		// Read first, the input and the output file can be the same
-		std::stringstream source;
-		source << std::ifstream( IfcnComparison<T>::m_ifile_name ).rdbuf();
 		std::ofstream ofile ( output_filename );
-		// Copy the input file if the object was created from file
+		// Repeat the header of the input file if the object was created from file
 		if (IfcnComparison<T>::m_from_file){
-			std::string line;
-			getline(source,line);
 			ofile << "Dumped by an object initialised by " << IfcnComparison<T>::m_ifile_name << " - "
-					<< preamble;
-			ofile << source.rdbuf() ;
+					<< preamble << m_header;
 		}
-		else{ // Write an header and the numbers in the other case
+		else{ // Write an header in the other case
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
@@ -131,23 +127,24 @@ public:
 				ofile << "Single Precision\n";
 			ofile << "Comparison specs/function name = " << IfcnComparison<T>::m_name << std::endl
 				<< "Format: input out1 out2 diffbit (decimal)input\nFirst line are stats: Max Min 0xMean 0xRMS\n";
-			// Do not write dec, but HEX!
-			// First line are stats
-			ofile << IfcnComparison<T>::m_max << " " << IfcnComparison<T>::m_min << " "
-					<< fpToHex<double>(IfcnComparison<T>::m_mean)
-					<< fpToHex<double>(IfcnComparison<T>::m_RMS) << std::endl;
-			// Now the rest of file
-			ofile.precision(std::numeric_limits<T>::digits10);
-			for (uint32_t i=0;i<m_input.size();++i)
-				ofile << fpToHex<T>(m_input[i]) << fpToHex<T>(IfcnComparison<T>::m_out1[i])
-				<< fpToHex<T>(IfcnComparison<T>::m_out2[i]) << IfcnComparison<T>::m_diff_bitv[i] << " "
-				<< std::fixed << m_input[i] <<std::endl;	//m_input[i] for python to easily read it
 		}
+		// Do not write dec, but HEX!
+		// First line are stats
+		ofile << IfcnComparison<T>::m_max << " " << IfcnComparison<T>::m_min << " "
+				<< fpToHex<double>(IfcnComparison<T>::m_mean)
+				<< fpToHex<double>(IfcnComparison<T>::m_RMS) << std::endl;
+		// Now the rest of file
+		ofile.precision(std::numeric_limits<T>::digits10);
+		for (uint32_t i=0;i<m_input.size();++i)
+			ofile << fpToHex<T>(m_input[i]) << fpToHex<T>(IfcnComparison<T>::m_out1[i])
+			<< fpToHex<T>(IfcnComparison<T>::m_out2[i]) << IfcnComparison<T>::m_diff_bitv[i] << " "
+			<< std::fixed << m_input[i] <<std::endl;	//m_input[i] for python to easily read it
 	}
 
 //------------------------------------------------------------------------------
 
 private:
+	std::string m_header;
 	vectT m_input;
 
 };
@@ -173,8 +170,10 @@ public:
 		std::ifstream ifile ( input_filename );
 			std::string line;
 			//skip the 2 header lines but read the func name from resp
-			for (uint16_t i=0;i<5;++i)
+			for (uint16_t i=0;i<5;++i){
 				std::getline(ifile,line);
+				if (i>0) m_header += line + "\n"; // all but the preamble
+			}
 			//read data from file
 			//read stats:
 			fpFromHex<double> mean, rms;
@@ -230,19 +229,13 @@ public:
   /// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance comparison file (the first 5 lines are the header)\n");
-		// Read first, the input and the output file can be the same
-		std::stringstream source;
-		source << std::ifstream( IfcnComparison<T>::m_ifile_name ).rdbuf();
 		std::ofstream ofile ( output_filename );
-		// Copy the input file if the object was created from file
+		// Repeat the header of the input file if the object was created from file
 		if (IfcnComparison<T>::m_from_file){
-			std::string line;
-			getline(source,line);
 			ofile << "Dumped by an object initialised by " << IfcnComparison<T>::m_ifile_name << " - "
-					<< preamble;
-			ofile << source.rdbuf() ;
+					<< preamble << m_header;
 		}
-		else{ // Write an header and the numbers in the other case
+		else{ // Write an header in the other case
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
@@ -250,24 +243,25 @@ public:
 				ofile << "Single Precision\n";
 			ofile << "Comparison specs/function name = " << IfcnComparison<T>::m_name << std::endl
 				<< "Format: input out1 out2 diffbit (decimal)input\nFirst line are stats: Max Min 0xMean 0xRMS\n";
-			// Do not write dec, but HEX!
-			// First line are stats
-			ofile << IfcnComparison<T>::m_max << " " << IfcnComparison<T>::m_min << " "
-					<< fpToHex<double>(IfcnComparison<T>::m_mean)
-					<< fpToHex<double>(IfcnComparison<T>::m_RMS) << std::endl;
-			// Now the rest of file
-			ofile.precision(std::numeric_limits<T>::digits10);
-			for (uint32_t i=0;i<m_input1.size();++i)
-				ofile << fpToHex<T>(m_input1[i]) << fpToHex<T>(m_input2[i])
-				<< fpToHex<T>(IfcnComparison<T>::m_out1[i]) << fpToHex<T>(IfcnComparison<T>::m_out2[i])
-				<< IfcnComparison<T>::m_diff_bitv[i] << " "
-				<< std::fixed << m_input1[i] << " " << m_input2[i] <<std::endl;	//inputs for python to easily read it
 		}
+		// Do not write dec, but HEX!
+		// First line are stats
+		ofile << IfcnComparison<T>::m_max << " " << IfcnComparison<T>::m_min << " "
+				<< fpToHex<double>(IfcnComparison<T>::m_mean)
+				<< fpToHex<double>(IfcnComparison<T>::m_RMS) << std::endl;
+		// Now the rest of file
+		ofile.precision(std::numeric_limits<T>::digits10);
+		for (uint32_t i=0;i<m_input1.size();++i)
+			ofile << fpToHex<T>(m_input1[i]) << fpToHex<T>(m_input2[i])
+			<< fpToHex<T>(IfcnComparison<T>::m_out1[i]) << fpToHex<T>(IfcnComparison<T>::m_out2[i])
+			<< IfcnComparison<T>::m_diff_bitv[i] << " "
+			<< std::fixed << m_input1[i] << " " << m_input2[i] <<std::endl;	//inputs for python to easily read it
 	}
 
 //------------------------------------------------------------------------------
 
 private:
+	std::string m_header;
 	vectT m_input1;
 	vectT m_input2;
 };
diff --git a/include/diagnostic/vdtdiag_fcnResponse.h b/include/diagnostic/vdtdiag_fcnResponse.h
index 67571bc..112b608 100644
--- a/include/diagnostic/vdtdiag_fcnResponse.h
+++ b/include/diagnostic/vdtdiag_fcnResponse.h
@@ -68,8 +68,10 @@ public:
 		std::ifstream ifile ( input_filename );
 		std::string line;
 		//skip the 5 header lines
-		for (uint16_t i=0;i<5;++i)
+		for (uint16_t i=0;i<5;++i){
 			std::getline(ifile,line);
+			if (i>0) m_header += line + "\n"; // all but the preamble
+		}
 		//read data from file
 		fpFromHex<T> in_val, out_val;
 		while(ifile >> in_val >> out_val) {
@@ -99,19 +101,13 @@ public:
 	/// Dump on ascii file
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT function arithmetics performance 1 input file (the first 5 lines are the header)\n");
-		// Read first, the input and the output file can be the same
-		std::stringstream source;
-		source << std::ifstream( IfcnResponse<T>::getIfileName() ).rdbuf();
 		std::ofstream ofile ( output_filename );
-		// Copy the input file if the object was created from file
+		// Repeat the header of the input file if the object was created from file
 		if (IfcnResponse<T>::isFromFile()){
-			std::string line;
-			getline(source,line);
 			ofile << "Dumped by an object initialised by " << IfcnResponse<T>::getIfileName() << " - "
-					<< preamble;
-			ofile << source.rdbuf() ;
+					<< preamble << m_header;
 		}
-		else{ // Write an header and the numbers in the other case
+		else{ // Write an header in the other case
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
@@ -119,10 +115,10 @@ public:
 				ofile << "Single Precision\n";
 			ofile << "Function Name = " <<  IfcnResponse<T>::getFcnName() << std::endl
 				  << "--\n--\n";
-			// Do not write dec, but HEX!
-			for (uint32_t i=0;i<this->getInput().size();++i)
-				ofile << fpToHex<T>(inputVal(i)) << fpToHex<T>(outputVal(i)) << std::endl;
 		}
+		// Do not write dec, but HEX!
+		for (uint32_t i=0;i<this->getInput().size();++i)
+			ofile << fpToHex<T>(inputVal(i)) << fpToHex<T>(outputVal(i)) << std::endl;
 	}
 
 	//-----------------------------------------------------------------------------
@@ -142,6 +138,7 @@ public:
 private:
 	const std::function<T(T)> m_fcn;
 	const std::function<void(const uint32_t, T*, T*)> m_fcnv;
+	std::string m_header;
 };
 
 template<class T>
@@ -185,8 +182,10 @@ public:
 		std::ifstream ifile ( input_filename );
 		std::string line;
 		//skip the 5 header lines
-		for (uint16_t i=0;i<5;++i)
+		for (uint16_t i=0;i<5;++i){
 			std::getline(ifile,line);
+			if (i>0) m_header += line + "\n"; // all but the preamble
+		}
 		//read data from file
 		fpFromHex<T> in_val1, in_val2, out_val;
 		while(ifile >> in_val1 >> in_val2 >> out_val) {
@@ -219,19 +218,13 @@ public:
 	/// Dump on ascii file
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT function arithmetics performance 1 input file (the first 5 lines are the header)\n");
-		// Read first, the input and the output file can be the same
-		std::stringstream source;
-		source << std::ifstream( IfcnResponse<T>::getIfileName() ).rdbuf();
 		std::ofstream ofile ( output_filename );
-		// Copy the input file if the object was created from file
+		// Repeat the header of the input file if the object was created from file
 		if (IfcnResponse<T>::isFromFile()){
-			std::string line;
-			getline(source,line);
 			ofile << "Dumped by an object initialised by " << IfcnResponse<T>::getIfileName() << " - "
-					<< preamble;
-			ofile << source.rdbuf() ;
+					<< preamble << m_header;
 		}
-		else{ // Write an header and the numbers in the other case
+		else{ // Write an header in the other case
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
@@ -239,11 +232,11 @@ public:
 				ofile << "Single Precision\n";
 			ofile << "Function Name = " <<  IfcnResponse<T>::getFcnName() << std::endl
 				  << "--\n--\n";
-			// Do not write dec, but HEX!
-			for (uint32_t i=0;i<this->getInput1().size();++i)
-				ofile << fpToHex<T>(input1Val(i)) << fpToHex<T>(input2Val(i))
-				<< fpToHex<T>(outputVal(i)) << std::endl;
 		}
+		// Do not write dec, but HEX!
+		for (uint32_t i=0;i<this->getInput1().size();++i)
+			ofile << fpToHex<T>(input1Val(i)) << fpToHex<T>(input2Val(i))
+			<< fpToHex<T>(outputVal(i)) << std::endl;
 	}
 
 	//-----------------------------------------------------------------------------
@@ -263,6 +256,7 @@ public:
 private:
 	const std::function<T(T,T)> m_fcn;
 	const std::function<void(const uint32_t, T*, T*, T*)> m_fcnv;
+	std::string m_header;
 };
 
 
diff --git a/include/diagnostic/vdtdiag_random.h b/include/diagnostic/vdtdiag_random.h
index 7297fd2..1c6ac95 100644
--- a/include/diagnostic/vdtdiag_random.h
+++ b/include/diagnostic/vdtdiag_random.h
@@ -61,8 +61,10 @@ public:
 		std::ifstream ifile ( getFileName() );
 		std::string line;
 		// skip the 5 header lines
-		for (uint16_t i=0;i<5;++i)
+		for (uint16_t i=0;i<5;++i){
 			std::getline(ifile,line);
+			if (i>0) m_header += line + "\n"; // all but the preamble
+		}
 		// read from file
 		fpFromHex<T> input_val;
 		while(ifile >> input_val) {
@@ -77,19 +79,13 @@ public:
 	/// Write numbers on disk in the form of an ascii file. The numbers are in HEX format.
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT Random numbers file (the first 5 lines are the header)\n");
-		// Read first, the input and the output file can be the same
-		std::stringstream source;
-		source << std::ifstream( getFileName() ).rdbuf();
 		std::ofstream ofile ( output_filename );
-		// Copy the input file if the object was created from file
+		// Repeat the header of the input file if the object was created from file
 		if (getSize()==0 ){
-			std::string line;
-			getline(source,line);
 			ofile << "Dumped by an object initialised by " << getFileName() << " - "
-					<< preamble;
-			ofile << source.rdbuf() ;
+					<< preamble << m_header;
 		}
-		else{ // Write an header and the numbers in the other case
+		else{ // Write an header in the other case
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
@@ -98,11 +94,11 @@ public:
 			ofile << "Minimum Number = " << m_min << std::endl
 			<< "Maximum Number = " << m_max << std::endl
 			<< "Total numbers = " << getSize() << std::endl;
-			// Do not write dec, but HEX!
-			for (uint64_t i=0;i<m_numbers.size();++i)
-					ofile << fpToHex<T>(m_numbers[i]);
-			ofile << std::setbase(10);
 		}
+		// Do not write dec, but HEX!
+		for (uint64_t i=0;i<m_numbers.size();++i)
+				ofile << fpToHex<T>(m_numbers[i]);
+		ofile << std::setbase(10);
 	}
 
 	//-----------------------------------------------------------------------------
@@ -126,6 +122,7 @@ public:
 private:
 	T m_min;
 	T m_max;
+	std::string m_header;
 	std::vector<T> m_numbers;
 };
 
@@ -157,8 +154,10 @@ public:
 		std::ifstream ifile ( getFileName() );
 		std::string line;
 		// skip the 5 header lines
-		for (uint16_t i=0;i<5;++i)
+		for (uint16_t i=0;i<5;++i){
 			std::getline(ifile,line);
+			if (i>0) m_header += line + "\n"; // all but the preamble
+		}
 		// read from file
 		fpFromHex<T> input_val;
 		uint64_t counter=0;
@@ -178,19 +177,13 @@ public:
 	/// Write numbers on disk in the form of an ascii file. The numbers are in HEX format.
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT Random numbers file 2D (the first 5 lines are the header)\n");
-		// Read first, the input and the output file can be the same
-		std::stringstream source;
-		source << std::ifstream( getFileName() ).rdbuf();
 		std::ofstream ofile ( output_filename );
-		// Copy the input file if the object was created from file
+		// Repeat the header of the input file if the object was created from file
 		if (getSize()==0 ){
-			std::string line;
-			getline(source,line);
 			ofile << "Dumped by an object initialised by " << getFileName() << " - "
-				  << preamble;
-			ofile << source.rdbuf() ;
+				  << preamble << m_header;
 		}
-		else{ // Write an header and the numbers in the other case
+		else{ // Write an header in the other case
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
@@ -199,16 +192,16 @@ public:
 			ofile << "Minimum Number = " << m_minX << " " << m_minY << std::endl
 			<< "Maximum Number = " << m_maxX << " " << m_maxY << std::endl
 			<< "Total numbers = " << getSize() << std::endl;
-			// Do not write dec, but HEX!
-			for (uint64_t i=0;i<m_numbersX.size()*2;++i){
-				uint64_t j=i/2;
-				if (i%2 ==0)
-					ofile << fpToHex<T>(m_numbersX[j]);
-				else
-					ofile << fpToHex<T>(m_numbersY[j]);
-				}
-			ofile << std::setbase(10);
 		}
+		// Do not write dec, but HEX!
+		for (uint64_t i=0;i<m_numbersX.size()*2;++i){
+			uint64_t j=i/2;
+			if (i%2 ==0)
+				ofile << fpToHex<T>(m_numbersX[j]);
+			else
+				ofile << fpToHex<T>(m_numbersY[j]);
+			}
+		ofile << std::setbase(10);
 	}
 
 	//-----------------------------------------------------------------------------
@@ -236,6 +229,7 @@ private:
 	T m_minY;
 	T m_maxX;
 	T m_maxY;
+	std::string m_header;
 	std::vector<T> m_numbersX;
 	std::vector<T> m_numbersY;
 };
-- 
2.43.0


From 29fbe6ea886c39d261af60b098b973f409bc007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:14 +0000
Subject: [PATCH 15/30] fix: give the NumPy functions their names in the Python
 3 module

The module dictionary was filled with the address of the name table
instead of the names, so importing the module in Python 3 either crashed
or produced unusable names.
---
 src/vdtNumpyWrapper.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index dc7b39e..8653d54 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -181,7 +181,7 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
       vdt_v = PyUFunc_FromFuncAndData(funcs, data+2*i, types, 2, 1, 1,
                                     PyUFunc_None, fname[i],
                                     fdoc[i], 0);
-      PyDict_SetItemString(d, fname+i, vdt_v);
+      PyDict_SetItemString(d, fname[i], vdt_v);
       Py_DECREF(vdt_v);
     }
     // add sincos and atan2 by hand
-- 
2.43.0


From d8cbc11e177e04bb0951a912e4567e08ca346b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:14 +0000
Subject: [PATCH 16/30] fix: register div, fma and fmac in the Python 3 NumPy
 module

They were only available in the Python 2 branch of the module.
---
 src/vdtNumpyWrapper.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index 8653d54..ae06267 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -184,7 +184,7 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
       PyDict_SetItemString(d, fname[i], vdt_v);
       Py_DECREF(vdt_v);
     }
-    // add sincos and atan2 by hand
+    // add sincos, atan2 div,fma and fmac by hand
     vdt_v = PyUFunc_FromFuncAndData(funcs12, dataSinCos, types12, 2, 1, 2,
 				    PyUFunc_None, "vdt_sincos",
 				    "vdt_sincos", 0);
@@ -195,6 +195,21 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
 				    "vdt_atan2", 0);
     PyDict_SetItemString(d,  "vdt_atan2", vdt_v);
     Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs21, dataDiv, types12, 2, 2, 1,
+				    PyUFunc_None, "vdt_div",
+				    "vdt_div", 0);
+    PyDict_SetItemString(d,  "vdt_div", vdt_v);
+    Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs31, dataFMA, types31, 2, 3, 1,
+				    PyUFunc_None, "vdt_fma",
+				    "vdt_fma", 0);
+    PyDict_SetItemString(d,  "vdt_fma", vdt_v);
+    Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs31, dataFMAC, types31, 2, 3, 1,
+				    PyUFunc_None, "vdt_fmac",
+				    "correctly rounded fma", 0);
+    PyDict_SetItemString(d,  "vdt_fmac", vdt_v);
+    Py_DECREF(vdt_v);
 
 
     return m;
-- 
2.43.0


From cf7812f4477d1d4d10246031a0baf5bbb85dad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:38 +0000
Subject: [PATCH 17/30] fix: NumPy functions ignore the strides of their arrays

The loops always treated their arrays as contiguous. For slices,
transposed arrays and broadcast arguments the wrong elements were used
and memory outside the arrays was accessed.
---
 src/vdtNumpyWrapper.c | 56 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index ae06267..5960ebe 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -26,6 +26,14 @@ static PyMethodDef vdt_Methods[] = {
 
 /* The loop definition must precede the PyMODINIT_FUNC. */
 
+/* The vdt_v functions treat contiguous arrays only */
+static int vdt_contiguous(const npy_intp* steps, int narrays, npy_intp size)
+{
+  for (int i=0;i<narrays;++i)
+    if (steps[i]!=size) return 0;
+  return 1;
+}
+
 static void vdt_vf(char **args, npy_intp *dimensions,
 		   npy_intp* steps, void* data)
 {
@@ -34,8 +42,12 @@ static void vdt_vf(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out = args[1];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
 
+  if (!vdt_contiguous(steps,2,sizeof(float))) {
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const float *)(in+i*steps[0]), (float *)(out+i*steps[1]),1);
+    return;
+  }
   (*functionPtr)((const float *)in, (float *)out,n); 
 }
 
@@ -47,8 +59,12 @@ static void vdt_vd(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out = args[1];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
+  if (!vdt_contiguous(steps,2,sizeof(double))) {
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const double *)(in+i*steps[0]), (double *)(out+i*steps[1]),1);
+    return;
+  }
   (*functionPtr)((const double *)in, (double *)out,n); 
 }
 
@@ -62,8 +78,12 @@ static void vdt_vf21(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
+  if (!vdt_contiguous(steps,3,sizeof(float))) {
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const float *)(in1+i*steps[0]), (const float *)(in2+i*steps[1]), (float *)(out+i*steps[2]),1);
+    return;
+  }
   (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,n); 
 }
 
@@ -75,8 +95,12 @@ static void vdt_vf12(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out1 = args[1], *out2 = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
+  if (!vdt_contiguous(steps,3,sizeof(float))) {
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const float *)(in+i*steps[0]), (float *)(out1+i*steps[1]), (float *)(out2+i*steps[2]),1);
+    return;
+  }
   (*functionPtr)((const float *)in, (float *)out1, (float *)out2,n); 
 }
 
@@ -88,8 +112,12 @@ static void vdt_vf31(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *in3 = args[2], *out = args[3];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
+  if (!vdt_contiguous(steps,4,sizeof(float))) {
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const float *)(in1+i*steps[0]), (const float *)(in2+i*steps[1]),(const float *)(in3+i*steps[2]), (float *)(out+i*steps[3]),1);
+    return;
+  }
   (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,n); 
 }
 
@@ -102,8 +130,12 @@ static void vdt_vd21(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
+  if (!vdt_contiguous(steps,3,sizeof(double))) {
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const double *)(in1+i*steps[0]), (const double *)(in2+i*steps[1]), (double *)(out+i*steps[2]),1);
+    return;
+  }
   (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,n); 
 }
 
@@ -115,8 +147,12 @@ static void vdt_vd12(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0],  *out1 = args[1], *out2 = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
+  if (!vdt_contiguous(steps,3,sizeof(double))) {
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const double *)(in+i*steps[0]), (double *)(out1+i*steps[1]), (double *)(out2+i*steps[2]),1);
+    return;
+  }
   (*functionPtr)((const double *)in, (double *)out1, (double *)out2,n); 
 }
 
@@ -128,8 +164,12 @@ static void vdt_vd31(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *in3 = args[2], *out = args[3];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
+  if (!vdt_contiguous(steps,4,sizeof(double))) {
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const double *)(in1+i*steps[0]), (const double *)(in2+i*steps[1]),(const double *)(in3+i*steps[2]), (double *)(out+i*steps[3]),1);
+    return;
+  }
   (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,n); 
 }
 
-- 
2.43.0


From 191ea8e90df300f3a0dc8b75ecf44a1fb280928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:38 +0000
Subject: [PATCH 18/30] fix: load double precision functions with recent NumPy

numpy.float was only another name of the Python float and does not exist
any more.
---
 scripts/invokeVDT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/invokeVDT.py b/scripts/invokeVDT.py
index 55a552f..eb89613 100644
--- a/scripts/invokeVDT.py
+++ b/scripts/invokeVDT.py
@@ -36,7 +36,7 @@ def load(fn,is_single,libname='libvdtFatLibWrapper',nin=1,nout=1) :
    if (is_single) :
      type = numpy.single
    else :
-     type = numpy.float      
+     type = numpy.double
 
    tin = numpy.ctypeslib.ndpointer(type,flags='aligned, contiguous')
    tout = numpy.ctypeslib.ndpointer(type,flags='aligned, contiguous, writeable')
-- 
2.43.0


From f886bdd0f38de797e350eac1944fb855da92dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:49 +0000
Subject: [PATCH 19/30] fix: pass all the arguments of div, fma and fmac from
 Python

The generated Python functions took one array and called the library with
too few pointers.
---
 scripts/invokeVDT.py           | 12 ++++++++++++
 scripts/vdtBase.py             |  5 +++++
 src/numpy_wrapper_generator.py |  4 ++++
 3 files changed, 21 insertions(+)

diff --git a/scripts/invokeVDT.py b/scripts/invokeVDT.py
index eb89613..e26742f 100644
--- a/scripts/invokeVDT.py
+++ b/scripts/invokeVDT.py
@@ -21,6 +21,18 @@ def invoke2to1(vi1,vi2,f,type) :
   f(vi1,vi2,vo,vi1.size)
   return vo
 
+def invoke3to1(vi1,vi2,vi3,f,type) :
+  requires = ['CONTIGUOUS', 'ALIGNED']
+  vi1 = numpy.asanyarray(vi1)
+  vi1 = numpy.require(vi1, type, requires)
+  vi2 = numpy.asanyarray(vi2)
+  vi2 = numpy.require(vi2, type, requires)
+  vi3 = numpy.asanyarray(vi3)
+  vi3 = numpy.require(vi3, type, requires)
+  vo = numpy.empty_like(vi1)
+  f(vi1,vi2,vi3,vo,vi1.size)
+  return vo
+
 def invoke1to2(vi,f,type) :
   requires = ['CONTIGUOUS', 'ALIGNED']
   vi = numpy.asanyarray(vi)
diff --git a/scripts/vdtBase.py b/scripts/vdtBase.py
index 211b6a5..d761872 100644
--- a/scripts/vdtBase.py
+++ b/scripts/vdtBase.py
@@ -30,3 +30,8 @@ def vdt_invoke1to2(fn,vi) :
     loadit(fn,1,2)
     (f,type) =  VDTFunMap[fn]
     return invokeVDT.invoke1to2(vi,f,type)    
+
+def vdt_invoke3to1(fn,vi1,vi2,vi3) :
+    loadit(fn,3,1)
+    (f,type) =  VDTFunMap[fn]
+    return invokeVDT.invoke3to1(vi1,vi2,vi3,f,type)
diff --git a/src/numpy_wrapper_generator.py b/src/numpy_wrapper_generator.py
index 41dcaf4..bc2fdb1 100644
--- a/src/numpy_wrapper_generator.py
+++ b/src/numpy_wrapper_generator.py
@@ -240,6 +240,10 @@ def get_python_function(fcn_name,is_double,is_vector):
     fn ='%s%s' %(VDT_PREF,fcn_name)
     if (fcn_name[:5] == 'atan2') :
       code='def %s(vi1,vi2): return vdt_invoke2to1("%s",vi1,vi2)' %(fn,fn) + '\n'
+    elif (fcn_name[:3] == 'div') :
+      code='def %s(vi1,vi2): return vdt_invoke2to1("%s",vi1,vi2)' %(fn,fn) + '\n'
+    elif (fcn_name[:3] == 'fma') :
+      code='def %s(vi1,vi2,vi3): return vdt_invoke3to1("%s",vi1,vi2,vi3)' %(fn,fn) + '\n'
     elif (fcn_name[:6] == 'sincos'):
       code='def %s(vi): return vdt_invoke1to2("%s",vi)' %(fn,fn) + '\n'
     else :
-- 
2.43.0


From a6beb8437f335df48f7f5384435acd6841a12bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:50 +0000
Subject: [PATCH 20/30] fix: accumulate of the two argument NumPy functions

NumPy accumulates by calling the loop with the output as the first input,
shifted by one element. Treated as one array call the elements were
computed from values which were not there yet.
---
 src/vdtNumpyWrapper.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index 5960ebe..6ef221b 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -34,6 +34,13 @@ static int vdt_contiguous(const npy_intp* steps, int narrays, npy_intp size)
   return 1;
 }
 
+/* In an accumulation the output is the first input shifted by one element: the
+ * elements have to be treated in order */
+static int vdt_shifted(char **args, npy_intp n, npy_intp size)
+{
+  return args[2]!=args[0] && args[2]<args[0]+n*size && args[0]<args[2]+n*size;
+}
+
 static void vdt_vf(char **args, npy_intp *dimensions,
 		   npy_intp* steps, void* data)
 {
@@ -79,7 +86,7 @@ static void vdt_vf21(char **args, npy_intp *dimensions,
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
   
-  if (!vdt_contiguous(steps,3,sizeof(float))) {
+  if (!vdt_contiguous(steps,3,sizeof(float)) || vdt_shifted(args,n,sizeof(float))) {
     for (npy_intp i=0;i<n;++i)
       (*functionPtr)((const float *)(in1+i*steps[0]), (const float *)(in2+i*steps[1]), (float *)(out+i*steps[2]),1);
     return;
@@ -131,7 +138,7 @@ static void vdt_vd21(char **args, npy_intp *dimensions,
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
   
-  if (!vdt_contiguous(steps,3,sizeof(double))) {
+  if (!vdt_contiguous(steps,3,sizeof(double)) || vdt_shifted(args,n,sizeof(double))) {
     for (npy_intp i=0;i<n;++i)
       (*functionPtr)((const double *)(in1+i*steps[0]), (const double *)(in2+i*steps[1]), (double *)(out+i*steps[2]),1);
     return;
-- 
2.43.0


From 83027a57a4c61d5b20ba5af2ee25f6c8f0c209f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:21:24 +0000
Subject: [PATCH 21/30] fix: decide two argument comparisons by the function,
 not by the file path

A nickname or directory containing Atan2 made vdtArithmComparison read
the response files of one argument functions as two argument ones.
---
 progs/vdtArithmComparison.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/progs/vdtArithmComparison.cpp b/progs/vdtArithmComparison.cpp
index c250f2d..5d69682 100644
--- a/progs/vdtArithmComparison.cpp
+++ b/progs/vdtArithmComparison.cpp
@@ -135,7 +135,7 @@ int main(int argc, char **argv){
 		ifile.close();
 
 		//read responses, perform comparison
-		bool is_atan2 = ref[i].find("Atan2") != std::string::npos ? true:false;
+		bool is_atan2 = fcname.find("Atan2") != std::string::npos ? true:false;
 		if(!singlePrec){
 			if (is_atan2){
 				fcnResponse2D<double> rrefDP(ref[i]),rtestDP(test[i]);
-- 
2.43.0


From e10e8b994adc75b8c9326d323b6639782a21c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:50 +0000
Subject: [PATCH 22/30] fix: accuracy and table scripts do not run with Python
 3

Print with the function, and build the libm tables in a loop: map does
nothing in Python 3 until its result is used.
---
 scripts/checkAccuracy.py      |  4 ++--
 scripts/tabulateVDTResults.py | 41 +++++++++++++++++++----------------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/scripts/checkAccuracy.py b/scripts/checkAccuracy.py
index 7818c01..2d5bcd9 100644
--- a/scripts/checkAccuracy.py
+++ b/scripts/checkAccuracy.py
@@ -71,13 +71,13 @@ def get_tests(nick):
 if __name__ == "__main__":
     import sys
     if len(sys.argv) != 2:
-      print "Usage is checkAccuracy.py nick"
+      print ("Usage is checkAccuracy.py nick")
       sys.exit(1)
     nick=sys.argv[1]
     tests=get_tests(nick)
     refs=get_refs(nick)
     command='vdtArithmComparison -n=%s -T="%s" -R="%s"' %(nick,tests,refs)
-    print command
+    print (command)
         
         
         
diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index f748c3b..2d9928d 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -1,5 +1,7 @@
 #! /usr/bin/env python
 
+from __future__ import print_function
+
 import re
 import math
 
@@ -53,12 +55,12 @@ def createSummaryTable(TitledTimingsList):
    """
    firstTimings =TitledTimingsList[0][1]
    nlines=len(firstTimings)
-   print "   Function Name",
+   print("   Function Name", end=" ")
    for title,timings in TitledTimingsList:
-      print "%20s" %title,
-   print
-   for i in xrange(nlines):
-      print "%16s" %firstTimings[i][0],
+      print("%20s" %title, end=" ")
+   print()
+   for i in range(nlines):
+      print("%16s" %firstTimings[i][0], end=" ")
       first=True
       norm=1.
       speedupString=""
@@ -73,9 +75,9 @@ def createSummaryTable(TitledTimingsList):
             factor = norm/dividend
             speedupString = "%.1fX" %factor
          s="%.2f +- %.2f %s" %(time,err,speedupString)
-         print "%20s" %s,
+         print("%20s" %s, end=" ")
          first=False
-      print
+      print()
 
 
 #-------------------------------------------------------------------------------
@@ -97,17 +99,17 @@ def createVectTable(TitledTimingsList):
    
    firstTimings =TitledTimingsList[0][1]
    nlines=len(firstTimings)
-   print "   Function Name",
+   print("   Function Name", end=" ")
    vectSuffix=""
    for title,timings in TitledTimingsList:      
-      print "%20s" %(title+vectSuffix),
+      print("%20s" %(title+vectSuffix), end=" ")
       vectSuffix=" vect."
-   print
-   for i in xrange(nlines):
+   print()
+   for i in range(nlines):
       funcName=firstTimings[i][0]
       if funcName.endswith('v'):continue
       
-      print "%16s" %funcName,
+      print("%16s" %funcName, end=" ")
       first=True
       norm=1.
       speedupString=""
@@ -117,7 +119,7 @@ def createVectTable(TitledTimingsList):
             err = timings[i][2]
             norm=time
             s="%.2f +- %.2f" %(time,err)
-            print "%20s" %s,
+            print("%20s" %s, end=" ")
             first=False
          else:
             timingsDict = timings2TimingsDict(timings)            
@@ -128,9 +130,9 @@ def createVectTable(TitledTimingsList):
             factor = norm/dividend
             speedupString = "%.1f X" %factor
             s="%.2f +- %.2f %s" %(time,err,speedupString)
-            print "%20s" %s,
+            print("%20s" %s, end=" ")
             first=False
-      print
+      print()
 
 #-------------------------------------------------------------------------------
 def createLibmVdtTable(TitledTimings):
@@ -140,8 +142,8 @@ def createLibmVdtTable(TitledTimings):
 
    nlines=len(TitledTimings)
    title,timings = TitledTimings
-   print "--------- %s Scalar Calls ----------" %title
-   print "%16s %16s %16s" %("Function Name","Libm","VDT")
+   print("--------- %s Scalar Calls ----------" %title)
+   print("%16s %16s %16s" %("Function Name","Libm","VDT"))
    timingsDict=timings2TimingsDict(timings) 
    for name,time,err in timings:
       if name.startswith("Fast_") or name.endswith("v"): continue
@@ -158,7 +160,7 @@ def createLibmVdtTable(TitledTimings):
       speedupString = "%.1fX"%speedup
       vdtString="%.2f +- %.2f %s" %(vdtTime,vdtErr,speedupString)
 
-      print "%16s %20s %20s" %(name,libmString,vdtString)
+      print("%16s %20s %20s" %(name,libmString,vdtString))
       
 #-------------------------------------------------------------------------------
 if __name__ == "__main__":
@@ -199,7 +201,8 @@ if __name__ == "__main__":
       createVectTable(titledTimingsList)
 
    if options.libmTable:
-      map (createLibmVdtTable, titledTimingsList)
+      for titledTimings in titledTimingsList:
+         createLibmVdtTable(titledTimings)
 
 
 
-- 
2.43.0


From b402bdb77a3ee527ab6a3a9d12ac487104942f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:50 +0000
Subject: [PATCH 23/30] fix: error of the vectorised functions in the vector
 table

The table showed the error of the scalar function beside the time of the
vectorised one.
---
 scripts/tabulateVDTResults.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index 2d9928d..00344f2 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -124,7 +124,6 @@ def createVectTable(TitledTimingsList):
          else:
             timingsDict = timings2TimingsDict(timings)            
             time,err = timingsDict[funcName+"v"]
-            err = timingsDict[funcName][1]
             dividend=time
             if dividend==0.: dividend =1.
             factor = norm/dividend
-- 
2.43.0


From c094dbae7b2be8504e3ae674ecec34e29eec9a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:50 +0000
Subject: [PATCH 24/30] fix: performance files without identity functions
 cannot be tabulated

Functions which no identity function precedes are not normalised.
---
 scripts/tabulateVDTResults.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index 00344f2..99396af 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -24,7 +24,8 @@ def normaliseTimings(timings):
    Normalise the timings according to the Identity funcitons
    """
    newTimings=[]
-   offset=-1
+   offset=0.
+   offsetErr=0.
    for name, time, err in timings:
       if "Identity" in name:
          offset=time
-- 
2.43.0


From 00198de46b8ef95f46d5300f08b93c0fe486768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:50 +0000
Subject: [PATCH 25/30] fix: libm table fails for functions without counterpart
 or zero times

The identity functions have no fast version, and the time of a normalised
function can be zero, as the other tables allow for.
---
 scripts/tabulateVDTResults.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index 99396af..b6fdf28 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -154,9 +154,13 @@ def createLibmVdtTable(TitledTimings):
       if "Inverse" in vdtName:
          vdtName= vdtName.replace("Inverse","Inv")
       
+      if vdtName not in timingsDict: continue
+
       vdtTime = timingsDict[vdtName][0]
       vdtErr = timingsDict[vdtName][1]
-      speedup = time / vdtTime
+      dividend=vdtTime
+      if dividend==0.: dividend =1.
+      speedup = time / dividend
       speedupString = "%.1fX"%speedup
       vdtString="%.2f +- %.2f %s" %(vdtTime,vdtErr,speedupString)
 
-- 
2.43.0


From 13ffbb7aef4213d886f18019846fd2207a55a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:50 +0000
Subject: [PATCH 26/30] fix: diffhisto looks for the files in the working
 directory only

---
 scripts/diffhisto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/diffhisto.py b/scripts/diffhisto.py
index 089c6b0..75a90a8 100644
--- a/scripts/diffhisto.py
+++ b/scripts/diffhisto.py
@@ -1,6 +1,7 @@
 # !/usr/bin/env python
 
 import optparse
+import os
 import re
 
 #-------------------------------------------------------------------------------
@@ -40,7 +41,6 @@ def getYaxisRange(name):
 #-------------------------------------------------------------------------------      
 
 def getFilenamesFromDir(nick,dirname):
-  import os
   return filter (lambda filename: re.match("comparison__" + nick + "__(.*).txt",filename), os.listdir(dirname))
 
 #-------------------------------------------------------------------------------    
@@ -77,7 +77,7 @@ def compare(nick,dirname):
   print ( str( len(filenames) ) + " files found." )
   for filename in filenames:      
     print ( "Studying " + filename )
-    cmpfile = open(filename)
+    cmpfile = open(os.path.join(dirname,filename))
     typelength,typelength_s =  getTypeLength(cmpfile)
     
     m=re.match("comparison__" + nick + "__(.*).txt" ,filename)
-- 
2.43.0


From 77dfdca354e7566a927693aaba98bbc7cdd52ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:50 +0000
Subject: [PATCH 27/30] fix: diffhisto fails on the comparisons of two argument
 functions

Their lines have two more columns. The first argument is plotted.
---
 scripts/diffhisto.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/diffhisto.py b/scripts/diffhisto.py
index 75a90a8..94b78fe 100644
--- a/scripts/diffhisto.py
+++ b/scripts/diffhisto.py
@@ -51,9 +51,11 @@ def fill_histos(cmpfile,histo1D,histo2D):
     line = cmpfile.readline()
     if line == "":
       break
-    m=re.match("(.*) (.*) (.*) (.*) (.*)",line)
-    inputval=float(m.group(5))
-    db=int(m.group(4))
+    # inputs, two outputs and diffbit, followed by the decimal inputs
+    fields=line.split()
+    ninputs=(len(fields)-3)//2
+    inputval=float(fields[ninputs+3])
+    db=int(fields[ninputs+2])
     # fill histograms
     histo1D.Fill(db)
     histo2D.Fill(inputval,db)  
-- 
2.43.0


From fbca852af4bf1b8b76d33a8307e698ab3ea9ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:00 +0000
Subject: [PATCH 28/30] fix: diffhisto takes the nickname for a regular
 expression

Files of a nickname like g++ were not found, and those of other nicknames
could be taken for files of the given one.
---
 scripts/diffhisto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/diffhisto.py b/scripts/diffhisto.py
index 94b78fe..bbfdc49 100644
--- a/scripts/diffhisto.py
+++ b/scripts/diffhisto.py
@@ -41,7 +41,7 @@ def getYaxisRange(name):
 #-------------------------------------------------------------------------------      
 
 def getFilenamesFromDir(nick,dirname):
-  return filter (lambda filename: re.match("comparison__" + nick + "__(.*).txt",filename), os.listdir(dirname))
+  return filter (lambda filename: re.match("comparison__" + re.escape(nick) + "__(.*)\\.txt$",filename), os.listdir(dirname))
 
 #-------------------------------------------------------------------------------    
 
@@ -82,7 +82,7 @@ def compare(nick,dirname):
     cmpfile = open(os.path.join(dirname,filename))
     typelength,typelength_s =  getTypeLength(cmpfile)
     
-    m=re.match("comparison__" + nick + "__(.*).txt" ,filename)
+    m=re.match("comparison__" + re.escape(nick) + "__(.*)\\.txt$" ,filename)
     fcn_name=m.group(1)
     
     # read rest of header   
-- 
2.43.0


From fe701ad2a45e394cc6783c24b53f56521be6bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:22 +0000
Subject: [PATCH 29/30] fix: error of the average time is that of the measured
 repetitions

The error on the mean was computed as if every single call had been timed,
while the sums are over whole repetitions. Repetitions of exactly equal
length gave an error as large as the average divided by the square root of
their number.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 089789e..6a28718 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -346,11 +346,12 @@ void calculate_mean_and_err(const double t, const double t2,const uint64_t itera
   // Mean is easy
   m_avg_time = t / iterations;
 
-  // Calculate the error on the mean
-  // RMS, one dof is gone for the mean, so iterations-1
-  const double rms2=(t2 - iterations*m_avg_time*m_avg_time)/(iterations-1);
+  // Calculate the error on the mean. What was measured are the repetitions, not the single calls
+  const double rep_time = t / m_repetitions;
+  // RMS, one dof is gone for the mean, so m_repetitions-1
+  const double rms2=m_repetitions>1 ? (t2 - m_repetitions*rep_time*rep_time)/(m_repetitions-1) : 0.;
   const double rms=rms2<0. ? 0. : sqrt(rms2); // rounding can make it slightly negative
-  m_avg_time_err = rms / sqrt(iterations); //2 sqrts, but we go for clarity here.
+  m_avg_time_err = rms / sqrt(m_repetitions) * m_repetitions / iterations; //2 sqrts, but we go for clarity here.
 
 }
 
-- 
2.43.0


From 36ae157902d72ad74c003e41d64da5e4ef4c1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:34 +0000
Subject: [PATCH 30/30] fix: a printed table row does not change the format of
 later output

After printStats(true) the stream kept fixed notation, so that pools,
responses and comparisons printed afterwards showed small numbers as 0.
---
 include/diagnostic/vdtdiag_interfaces.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/diagnostic/vdtdiag_interfaces.h b/include/diagnostic/vdtdiag_interfaces.h
index bdaec13..dc44c84 100644
--- a/include/diagnostic/vdtdiag_interfaces.h
+++ b/include/diagnostic/vdtdiag_interfaces.h
@@ -86,12 +86,14 @@ public:
 	              << "Mean diff bit: " << m_mean << "\n"
 	              << "RMS diff bit: " << m_RMS << "\n";
 		}else{
+			const std::ios::fmtflags flags(std::cout.flags());
 			std::cout << std::setw(30) << std::left << m_name
 				<< std::setw(5) << std::right << m_max
 				<< std::setw(5) << std::right << m_min
 				<< std::setiosflags(std::ios::fixed)
 				<< std::setw(7) << std::right << std::setprecision(2) << m_mean
 				<< std::setw(7) << std::right << std::setprecision(2) << m_RMS << "\n";
+			std::cout.flags(flags);
 		}
 	  };
 //------------------------------------------------------------------------------
-- 
2.43.0

