From 43b334683865bc5bdfe3e95fd9db55e2b32b5be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:53 +0000
Subject: [PATCH 01/29] fix: avoid 0/0 in the single precision atan2 at the
 origin

fast_atan2f divided by the unprotected abscissa, so evaluating it at (0,0)
raised the invalid floating point exception the surrounding code is meant to
avoid. Use the protected denominator, as the double precision version does.
---
 include/atan2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/atan2.h b/include/atan2.h
index 62f9249..bf70eef 100644
--- a/include/atan2.h
+++ b/include/atan2.h
@@ -105,7 +105,7 @@ inline float fast_atan2f( float y, float x ) {
     // To avoid the fpe, we protect against /0.
     const float oneIfXXZero = (xx==0.f);
     
-    float t=yy/(xx/*+oneIfXXZero*/);
+    float t=yy/(xx+oneIfXXZero);
     float z=t;
     if( t > 0.4142135623730950f ) // * tan pi/8
             z = (t-1.0f)/(t+1.0f);
-- 
2.43.0


From 212334cf7b66f93ef1ff717227d008a148dd41f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:18 +0000
Subject: [PATCH 02/29] fix: do not return nan from fast_tan for subnormal
 arguments

The reciprocal branch was multiplied by zero instead of being discarded, so an
argument whose reciprocal overflows gave 0*inf. Select the wanted value.
---
 include/tan.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/tan.h b/include/tan.h
index c1ec59d..ac9a563 100644
--- a/include/tan.h
+++ b/include/tan.h
@@ -111,14 +111,15 @@ inline double fast_tan(double x){
         res = z + z * zz * px / qx;
     }
 
-    // A no branching way to say: if j&2 res = -1/res. You can!!!
+    // if j&2 res = -1/res
     quad &=2;
     quad >>=1;
-    const int32_t alt = quad^1;
     // Avoid fpe generated by 1/0 if res is 0
     const double zeroIfXNonZero = (x==0.);
     res += zeroIfXNonZero;
-    res = quad * (-1./res) + alt * res; // one coeff is one and one is 0!
+    // Select rather than blend: 1/res is inf for a subnormal res and 0*inf is nan
+    const double cot = -1./res;
+    res = quad ? cot : res;
 
     // Again, return 0 if res==0, the correct result otherwhise
     return details::dpXORuint64(res,sign_mask) * (1.-zeroIfXNonZero);
@@ -148,14 +149,15 @@ inline float fast_tanf(float x){
         + z;
     }
 
-    // A no branching way to say: if j&2 res = -1/res. You can!!!
+    // if j&2 res = -1/res
     quad &=2;
     quad >>=1;
-    const int32_t alt = quad^1;
     // Avoid fpe generated by 1/0 if res is 0
     const float zeroIfXNonZero = (x==0.f);
     res += zeroIfXNonZero;
-    res = quad * (-1.f/res) + alt * res; // one coeff is one and one is 0!
+    // Select rather than blend: 1/res is inf for a subnormal res and 0*inf is nan
+    const float cot = -1.f/res;
+    res = quad ? cot : res;
 
     return details::spXORuint32(res,sign_mask) * (1.f-zeroIfXNonZero);
 
-- 
2.43.0


From d6c4971045626e3c35ec03779ece0b88ec8bdae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:33 +0000
Subject: [PATCH 03/29] fix: keep fast_expf finite up to its documented upper
 limit

2^128 is not representable, so arguments above 127.5*log(2) gave inf although
the result is finite up to MAXLOGF. In the same way arguments below
-126.5*log(2) gave zero before reaching MINLOGF. Scale by the power of two in
two steps.
---
 include/exp.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/exp.h b/include/exp.h
index 363b356..b95a08c 100644
--- a/include/exp.h
+++ b/include/exp.h
@@ -140,8 +140,10 @@ inline float fast_expf(float initial_x) {
     z *= x2;
     z += x + 1.0f;
 
-    /* multiply by power of 2 */
-    z *=  details::uint322sp((n+0x7f)<<23);
+    /* multiply by power of 2, in two steps as 2^n can be out of range when z*2^n is not */
+    const int32_t n1 = n/2;
+    z *=  details::uint322sp((n1+0x7f)<<23);
+    z *=  details::uint322sp((n-n1+0x7f)<<23);
 
     if (initial_x > details::MAXLOGF) z=std::numeric_limits<float>::infinity();
     if (initial_x < details::MINLOGF) z=0.f;
-- 
2.43.0


From 36398bc5a9e138894ea1cc41b45a7b9ad1d42fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:34 +0000
Subject: [PATCH 04/29] fix: return nan from fast_log for a nan argument

A nan compares false with both limits, so the exponent bits of the nan were
turned into a finite logarithm.
---
 include/log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/log.h b/include/log.h
index ddda848..5a2d46a 100644
--- a/include/log.h
+++ b/include/log.h
@@ -118,7 +118,7 @@ inline double fast_log(double x){
 
 	if (original_x > details::LOG_UPPER_LIMIT)
 		res = std::numeric_limits<double>::infinity();
-	if (original_x < details::LOG_LOWER_LIMIT) // THIS IS NAN!
+	if (!(original_x >= details::LOG_LOWER_LIMIT)) // THIS IS NAN, for a nan argument too!
 		res =  - std::numeric_limits<double>::quiet_NaN();
 
 	return res;
@@ -193,7 +193,7 @@ inline float fast_logf( float x ) {
 
 	if (original_x > details::LOGF_UPPER_LIMIT)
 		res = std::numeric_limits<float>::infinity();
-	if (original_x < details::LOGF_LOWER_LIMIT)
+	if (!(original_x >= details::LOGF_LOWER_LIMIT)) // also true for a nan argument
 		res = -std::numeric_limits<float>::quiet_NaN();
 
 	return res;
-- 
2.43.0


From 1a5a508ea7d318c65a130651aaa6b1430077741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:46 +0000
Subject: [PATCH 05/29] fix: return nan from fast_atan2 when the abscissa is
 nan and y is zero

The explicit reset of the result for y==0 also overwrote a nan. It is not
needed: the ratio is protected against a zero denominator and is zero already
when y is zero.
---
 include/atan2.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/atan2.h b/include/atan2.h
index bf70eef..2c556b0 100644
--- a/include/atan2.h
+++ b/include/atan2.h
@@ -81,7 +81,6 @@ inline double fast_atan2( double y, double x ) {
     ret*= (1.-oneIfXXZero);
 
     // move back in place
-    if (y==0) ret=0.0;
     if (tmp!=0) ret = details::PIO2 - ret;
     if (x<0) ret = details::PI - ret;
     if (y<0) ret = -ret;
@@ -123,7 +122,6 @@ inline float fast_atan2f( float y, float x ) {
     ret*= (1.f - oneIfXXZero);
     
     // move back in place
-    if (y==0.f) ret=0.f;
     if( t > 0.4142135623730950f ) ret += details::PIO4F;
     if (tmp!=0) ret = details::PIO2F - ret;
     if (x<0.f) ret = details::PIF - ret;
-- 
2.43.0


From dd64a5840ba167c595da4b4458eefb5df4ad253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:46 +0000
Subject: [PATCH 06/29] fix: make diffbit of two identical numbers well defined

log2(0) is -inf, whose conversion to an unsigned integer is undefined.
---
 include/diagnostic/vdtdiag_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 6dcb6f5..473cfa1 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -179,7 +179,7 @@ uint16_t diffbit(const T a,const T b ){
 	uint64_t c = ia>ib? ia-ib : ib -ia;
 	//uint64_t c = ia^ib;
 	/// return the log2+1
-	return log2(c)+1;
+	return c==0 ? 0 : log2(c)+1;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 38848b53c04defcea70ae979c191af15f292d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:05 +0000
Subject: [PATCH 07/29] fix: do not wrap around in timer::get_elapsed_time

A negative difference of the nanoseconds was converted to an unsigned integer
before the seconds were added, giving a wrong elapsed time whenever the interval
crosses a second boundary.
---
 include/diagnostic/vdtdiag_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 473cfa1..b60c5f2 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -380,8 +380,8 @@ private:
 		timespec temp;
 		temp.tv_sec = m_time2.tv_sec-m_time1.tv_sec;
 		temp.tv_nsec = m_time2.tv_nsec-m_time1.tv_nsec;
-		uint64_t elapsed_time = temp.tv_nsec;
-		elapsed_time += 1e9*temp.tv_sec;
+		// tv_nsec can be negative: sum up before going to an unsigned type
+		const int64_t elapsed_time = temp.tv_sec * INT64_C(1000000000) + temp.tv_nsec;
 		return elapsed_time;
 	}
 
-- 
2.43.0


From eae4bb85ff15c614de203ae67e320060f6ae2ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:40 +0000
Subject: [PATCH 08/29] fix: fcnComparison_old skips the whole five-line header
 when reading

writeFile announces and writes five header lines, but the constructor from a
file skipped only two of them. The first number was then read from text, so
the object came back empty with zero statistics.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 8078e80..4650a41 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -307,7 +307,7 @@ public:
 			std::ifstream ifile ( input_filename );
 			std::string line;
 			//skip the 5 header lines but read the func name from resp		
-			for (uint16_t i=0;i<2;++i)
+			for (uint16_t i=0;i<5;++i)
 				std::getline(ifile,line);
 			//read data from file	
 			//read stats:
-- 
2.43.0


From 8fbe6898340a7677a497473730c2765d403a5e8c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:31:03 +0000
Subject: [PATCH 09/29] fix: count the timed calls in 64 bits

The number of calls behind the average time was a 32-bit product. With
2^32 calls or more (for instance 70000 numbers and 65000 repetitions)
the average came out many times too large.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 0787314..fa809d4 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -205,7 +205,7 @@ private:
   delete [] results_arr;
   
   // Calculate mean and error on the mean
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
   //-----------------------------------------------------------------------------
@@ -253,7 +253,7 @@ private:
     delete [] results_arr;
 
     // Calculate mean and error on the mean
-    const uint64_t iterations = size * m_repetitions;
+    const uint64_t iterations = uint64_t(size) * m_repetitions;
     calculate_mean_and_err(t,t2,iterations);
     }
 //-----------------------------------------------------------------------------
@@ -289,7 +289,7 @@ private:
      fool_optimisation(results);
     }
     
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
 
@@ -327,7 +327,7 @@ void measureTime2Dv(){
 			 fool_optimisation(results);
 			}
 
-		const uint64_t iterations = size * m_repetitions;
+		const uint64_t iterations = uint64_t(size) * m_repetitions;
 		calculate_mean_and_err(t,t2,iterations);
 		}
 
-- 
2.43.0


From d0b09624d5a0da545b11b8b6b3224ce9dd3268c4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:31:03 +0000
Subject: [PATCH 10/29] fix: error on the mean execution time from the spread
 of the repetitions

The second moment was summed over the repetitions but used as if it were
summed over the single calls. The error printed was always the average
divided by the square root of the number of repetitions, whatever the
spread of the measurements.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index fa809d4..dd06370 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -346,11 +346,11 @@ void calculate_mean_and_err(const double t, const double t2,const uint64_t itera
   // Mean is easy
   m_avg_time = t / iterations;
 
-  // Calculate the error on the mean
-  // RMS, one dof is gone for the mean, so iterations-1
-  const double rms2=(double(t2) - iterations*m_avg_time*m_avg_time)/(iterations-1);
-  const double rms=sqrt(rms2);
-  m_avg_time_err = rms / sqrt(iterations); //2 sqrts, but we go for clarity here.
+  // Calculate the error on the mean: t and t2 are the momenta of the m_repetitions measurements
+  // RMS, one dof is gone for the mean, so m_repetitions-1
+  const double rms2= m_repetitions>1 ? (t2 - t*t/m_repetitions)/(m_repetitions-1) : 0.;
+  const double rms=sqrt(rms2) * m_repetitions/iterations; // per call
+  m_avg_time_err = rms / sqrt(m_repetitions); //2 sqrts, but we go for clarity here.
 
 }
 
-- 
2.43.0


From fe328815a47100faa7ecf3c6986f7c39d9b6e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:08 +0000
Subject: [PATCH 11/29] fix: print the RMS of the bit differences, not their
 variance

The comparison statistics call the last number RMS, but the square root was
missing.  The value written to the comparison files changes accordingly.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 2 +-
 include/diagnostic/vdtdiag_interfaces.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 4650a41..ed98a24 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -468,7 +468,7 @@ private:
     if (size==1)
       m_RMS=-1;
     else
-      m_RMS=(sum_x2 - size*m_mean*m_mean)/(size-1);
+      m_RMS=sqrt((sum_x2 - size*m_mean*m_mean)/(size-1));
     
   }
   
diff --git a/include/diagnostic/vdtdiag_interfaces.h b/include/diagnostic/vdtdiag_interfaces.h
index bdaec13..6814cfa 100644
--- a/include/diagnostic/vdtdiag_interfaces.h
+++ b/include/diagnostic/vdtdiag_interfaces.h
@@ -140,7 +140,7 @@ private:
 	if (size==1)
 	  m_RMS=-1;
 	else
-	  m_RMS=(sum_x2 - size*m_mean*m_mean)/(size-1);
+	  m_RMS=sqrt((sum_x2 - size*m_mean*m_mean)/(size-1));
 
 	}
 
-- 
2.43.0


From be11746960fa1495debf25a29a17c2e938b5a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:51:30 +0000
Subject: [PATCH 12/29] fix: make identity.h self-contained

---
 include/identity.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/identity.h b/include/identity.h
index 88fc726..2587c9d 100644
--- a/include/identity.h
+++ b/include/identity.h
@@ -24,6 +24,8 @@
 #ifndef IDENTITY_H_
 #define IDENTITY_H_
 
+#include "inttypes.h"
+
 namespace vdt{
 
 // Identity double precision ---------------------------------------------------
-- 
2.43.0


From 09e884c408ece227b7944eafc7b323dcf244d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:28 +0000
Subject: [PATCH 13/29] fix: report misuse of the benchmark programs through
 the exit status

Both programs returned 0 after rejected options or a missing nickname and
1 after printing the help.  Scripts could not tell a run that did nothing
from one that worked.  vdtArithmComparison already has it this way round.
---
 progs/vdtArithmBenchmark.cpp | 6 +++---
 progs/vdtPerfBenchmark.cpp   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/progs/vdtArithmBenchmark.cpp b/progs/vdtArithmBenchmark.cpp
index 2259698..05a8359 100644
--- a/progs/vdtArithmBenchmark.cpp
+++ b/progs/vdtArithmBenchmark.cpp
@@ -71,18 +71,18 @@ int main(int argc, char **argv){
 	if(!opt.parseCmd(argc,argv)){
 		std::cout << "Something is wrong with cmd options, try --help\n"
 			<<"usage: vdtArithmBenchmark -n=<run88>";
-		return 0;
+		return 1;
 	}
 	// if help was printed, exit
 	if(opt.isSet("-h"))
-		return 1;
+		return 0;
 
 	// process cmd options
 	nick = opt.getArgument("-n");
 	if(nick == ""){
 		std::cout << "Error: Nickname was not specified!\n";
 		opt.printHelp("-n");
-		return 0;
+		return 1;
 	}
 	
 
diff --git a/progs/vdtPerfBenchmark.cpp b/progs/vdtPerfBenchmark.cpp
index ab00bd5..16b218e 100644
--- a/progs/vdtPerfBenchmark.cpp
+++ b/progs/vdtPerfBenchmark.cpp
@@ -77,18 +77,18 @@ int main(int argc, char **argv){
     if(!opt.parseCmd(argc,argv)){
         std::cout << "Something is wrong with cmd options, try --help\n"
                 <<"usage: vdtPerfBenchmark -n=<run88libmVSvdt>\n";
-        return 0;
+        return 1;
     }
     // if help was printed, exit
     if(opt.isSet("-h"))
-        return 1;
+        return 0;
 
     // process cmd options
     nick = opt.getArgument("-n");
     if(nick == ""){
         std::cout << "Error: Nickname was not specified!\n";
         opt.printHelp("-n");
-        return 0;
+        return 1;
     }
 
 
-- 
2.43.0


From a53c9ee132192a1695a0c06ffd9e2ce2b20aa5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:03 +0000
Subject: [PATCH 14/29] fix: let the wrapper generators run under Python 3

file() does not exist in Python 3, which is the interpreter the build looks for.
---
 src/numpy_wrapper_generator.py | 8 ++++----
 src/vc_wrapper_generator.py    | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/numpy_wrapper_generator.py b/src/numpy_wrapper_generator.py
index 2bf8c6e..41dcaf4 100644
--- a/src/numpy_wrapper_generator.py
+++ b/src/numpy_wrapper_generator.py
@@ -256,7 +256,7 @@ def create_python():
       for fcn_name in sorted(FUNCTIONS_LIST):
         code+=get_python_function(fcn_name,is_double,is_vector)
 
-  ofile=file(VDT_PYTHON_MODULE,'w')
+  ofile=open(VDT_PYTHON_MODULE,'w')
   ofile.write(code)
   ofile.close()
 
@@ -296,7 +296,7 @@ def create_numpy_header():
   code+=data+fname+fdoc;
 
 
-  ofile=file(VDT_NUMPY_WRAPPER_HEADER,'w')
+  ofile=open(VDT_NUMPY_WRAPPER_HEADER,'w')
   ofile.write(code)
   ofile.close()
 
@@ -332,14 +332,14 @@ def get_impl_file():
 #------------------------------------------------------------------
 
 def create_header():
-  ofile=file(VDT_WRAPPER_HEADER,'w')
+  ofile=open(VDT_WRAPPER_HEADER,'w')
   ofile.write(get_header_file())
   ofile.close()
   
 #------------------------------------------------------------------
 
 def create_impl():
-  ofile=file(VDT_WRAPPER_IMPL,'w')
+  ofile=open(VDT_WRAPPER_IMPL,'w')
   ofile.write(get_impl_file())
   ofile.close()
 
diff --git a/src/vc_wrapper_generator.py b/src/vc_wrapper_generator.py
index 057e6dc..529ffdd 100644
--- a/src/vc_wrapper_generator.py
+++ b/src/vc_wrapper_generator.py
@@ -153,14 +153,14 @@ def get_impl_file():
 #------------------------------------------------------------------
 
 def create_header():
-  ofile=file(VC_WRAPPER_HEADER,'w')
+  ofile=open(VC_WRAPPER_HEADER,'w')
   ofile.write(get_header_file())
   ofile.close()
   
 #------------------------------------------------------------------
 
 def create_impl():
-  ofile=file(VC_WRAPPER_IMPL,'w')
+  ofile=open(VC_WRAPPER_IMPL,'w')
   ofile.write(get_impl_file())
   ofile.close()
 
-- 
2.43.0


From 60136e450654eaed4faa725cbbcbc4553dc2f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:17 +0000
Subject: [PATCH 15/29] fix: make the fat library compile with current gcc

Inside an extern "C" block gcc 13 emits the dispatcher of a multi-versioned
function under the symbol of its default version, and std::string cannot be
inlined into a function for another target. Define the callers outside the
linkage block and return the target names as literals.
---
 src/fatlib.h                   | 25 +++++++++++--------------
 src/numpy_wrapper_generator.py |  2 +-
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/fatlib.h b/src/fatlib.h
index b4e81b2..db0b325 100644
--- a/src/fatlib.h
+++ b/src/fatlib.h
@@ -4,15 +4,18 @@
 #include<string>
 #include<cmath>
 
-namespace {
-static std::string fathi;
+// The callers of the dispatched functions are defined outside the linkage block:
+// inside it gcc emits the dispatcher under the symbol of the default version.
+extern "C" {
+  char const * vdt_arch();
+  float myfmaF(float x, float y, float z);
+  float myfmaD(double x, double y, double z);
 }
 
-
 #ifdef __linux__
 
 #define FATHALLO(...) char const * __attribute__ ((__target__ (__VA_ARGS__))) \
-  fathelloCPP() { fathi = std::string("target is ")+#__VA_ARGS__; return fathi.c_str();}
+  fathelloCPP() { return "target is " #__VA_ARGS__;}
 
 namespace {
 FATHALLO("default")
@@ -25,13 +28,9 @@ FATHALLO("avx512f")
 // FATHALLO()
 }
 
-extern "C" {
-  char const * vdt_arch() { return fathelloCPP();}
-}
+char const * vdt_arch() { return fathelloCPP();}
 #else
-extern "C" {
-  char const * vdt_arch() { fathi = std::string("unknown target"); return fathi.c_str();;}
-}
+char const * vdt_arch() { return "unknown target";}
 
 #endif
 
@@ -62,9 +61,7 @@ namespace {
   FATLIB(double,FATFMA(double))
 }
 
-extern "C" {
-  float myfmaF(float x, float y, float z) { return myfmaCPP(x,y,z);} 
-  float myfmaD(double x, double y, double z) { return myfmaCPP(x,y,z);} 
-}
+float myfmaF(float x, float y, float z) { return myfmaCPP(x,y,z);} 
+float myfmaD(double x, double y, double z) { return myfmaCPP(x,y,z);} 
 
 #endif
diff --git a/src/numpy_wrapper_generator.py b/src/numpy_wrapper_generator.py
index 41dcaf4..6351145 100644
--- a/src/numpy_wrapper_generator.py
+++ b/src/numpy_wrapper_generator.py
@@ -214,7 +214,7 @@ def create_Wrapper_signature(fcn_name,is_double=False,is_vector=False,is_impl=Fa
   if is_impl:
     code += '#define '+fatM + ' fat_'+ sign + get_function_code(vdt_name,is_vector)
     code += '\nnamespace {FATLIB('+ret+','+fatM+')}\n'+\
-            'extern "C"{'+ret + ' ' + sign+'{'+get_return_code(fcn_name,is_double,is_vector)+'}}\n\n'
+            ret + ' ' + sign+'{'+get_return_code(fcn_name,is_double,is_vector)+'}\n\n'
   else:
     code = ret + ' ' + sign +";\n"
   return code
-- 
2.43.0


From a40cbb37e0c7133f8281639e779f4f53c2dbe4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:17 +0000
Subject: [PATCH 16/29] fix: myfmaD returns a double

The result of the double precision function was rounded to single precision.
---
 src/fatlib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fatlib.h b/src/fatlib.h
index db0b325..043374a 100644
--- a/src/fatlib.h
+++ b/src/fatlib.h
@@ -9,7 +9,7 @@
 extern "C" {
   char const * vdt_arch();
   float myfmaF(float x, float y, float z);
-  float myfmaD(double x, double y, double z);
+  double myfmaD(double x, double y, double z);
 }
 
 #ifdef __linux__
@@ -62,6 +62,6 @@ namespace {
 }
 
 float myfmaF(float x, float y, float z) { return myfmaCPP(x,y,z);} 
-float myfmaD(double x, double y, double z) { return myfmaCPP(x,y,z);} 
+double myfmaD(double x, double y, double z) { return myfmaCPP(x,y,z);} 
 
 #endif
-- 
2.43.0


From 3cf60cf2ef57d468124236688f83452d9c5ff432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:54:18 +0000
Subject: [PATCH 17/29] fix: complete the Python 3 initialisation of the NumPy
 module

The functions were registered under the bytes of the name table instead of
their names, which crashes on import, and vdt_div, vdt_fma and vdt_fmac were
registered for Python 2 only.
---
 src/vdtNumpyWrapper.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index dc7b39e..ae06267 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -181,10 +181,10 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
       vdt_v = PyUFunc_FromFuncAndData(funcs, data+2*i, types, 2, 1, 1,
                                     PyUFunc_None, fname[i],
                                     fdoc[i], 0);
-      PyDict_SetItemString(d, fname+i, vdt_v);
+      PyDict_SetItemString(d, fname[i], vdt_v);
       Py_DECREF(vdt_v);
     }
-    // add sincos and atan2 by hand
+    // add sincos, atan2 div,fma and fmac by hand
     vdt_v = PyUFunc_FromFuncAndData(funcs12, dataSinCos, types12, 2, 1, 2,
 				    PyUFunc_None, "vdt_sincos",
 				    "vdt_sincos", 0);
@@ -195,6 +195,21 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
 				    "vdt_atan2", 0);
     PyDict_SetItemString(d,  "vdt_atan2", vdt_v);
     Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs21, dataDiv, types12, 2, 2, 1,
+				    PyUFunc_None, "vdt_div",
+				    "vdt_div", 0);
+    PyDict_SetItemString(d,  "vdt_div", vdt_v);
+    Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs31, dataFMA, types31, 2, 3, 1,
+				    PyUFunc_None, "vdt_fma",
+				    "vdt_fma", 0);
+    PyDict_SetItemString(d,  "vdt_fma", vdt_v);
+    Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs31, dataFMAC, types31, 2, 3, 1,
+				    PyUFunc_None, "vdt_fmac",
+				    "correctly rounded fma", 0);
+    PyDict_SetItemString(d,  "vdt_fmac", vdt_v);
+    Py_DECREF(vdt_v);
 
 
     return m;
-- 
2.43.0


From 8171a501393fb2efa07a91e060add1ffd384f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:01 +0000
Subject: [PATCH 18/29] fix: follow the strides NumPy passes to the loops

Slices, reversed and broadcast arrays were read and written as if they were
contiguous.
---
 src/vdtNumpyWrapper.c | 96 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 72 insertions(+), 24 deletions(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index ae06267..14ef69e 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -26,6 +26,14 @@ static PyMethodDef vdt_Methods[] = {
 
 /* The loop definition must precede the PyMODINIT_FUNC. */
 
+/* The vdt functions work on arrays without gaps: whether all the arrays of a loop are such. */
+static int vdt_dense(const npy_intp* steps, int narrays, npy_intp itemsize)
+{
+  for (int k=0;k<narrays;++k)
+    if (steps[k] != itemsize) return 0;
+  return 1;
+}
+
 static void vdt_vf(char **args, npy_intp *dimensions,
 		   npy_intp* steps, void* data)
 {
@@ -34,9 +42,14 @@ static void vdt_vf(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out = args[1];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-
-  (*functionPtr)((const float *)in, (float *)out,n); 
+  if (vdt_dense(steps,2,sizeof(float))) {
+    (*functionPtr)((const float *)in, (float *)out,n);
+    return;
+  }
+  for (npy_intp i=0;i<n;++i) {
+    (*functionPtr)((const float *)in, (float *)out,1);
+    in += steps[0]; out += steps[1];
+  }
 }
 
 static void vdt_vd(char **args, npy_intp *dimensions,
@@ -47,9 +60,14 @@ static void vdt_vd(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out = args[1];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const double *)in, (double *)out,n); 
+  if (vdt_dense(steps,2,sizeof(double))) {
+    (*functionPtr)((const double *)in, (double *)out,n);
+    return;
+  }
+  for (npy_intp i=0;i<n;++i) {
+    (*functionPtr)((const double *)in, (double *)out,1);
+    in += steps[0]; out += steps[1];
+  }
 }
 
 
@@ -62,9 +80,14 @@ static void vdt_vf21(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,n); 
+  if (vdt_dense(steps,3,sizeof(float))) {
+    (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,n);
+    return;
+  }
+  for (npy_intp i=0;i<n;++i) {
+    (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,1);
+    in1 += steps[0]; in2 += steps[1]; out += steps[2];
+  }
 }
 
 static void vdt_vf12(char **args, npy_intp *dimensions,
@@ -75,9 +98,14 @@ static void vdt_vf12(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out1 = args[1], *out2 = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const float *)in, (float *)out1, (float *)out2,n); 
+  if (vdt_dense(steps,3,sizeof(float))) {
+    (*functionPtr)((const float *)in, (float *)out1, (float *)out2,n);
+    return;
+  }
+  for (npy_intp i=0;i<n;++i) {
+    (*functionPtr)((const float *)in, (float *)out1, (float *)out2,1);
+    in += steps[0]; out1 += steps[1]; out2 += steps[2];
+  }
 }
 
 static void vdt_vf31(char **args, npy_intp *dimensions,
@@ -88,9 +116,14 @@ static void vdt_vf31(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *in3 = args[2], *out = args[3];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,n); 
+  if (vdt_dense(steps,4,sizeof(float))) {
+    (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,n);
+    return;
+  }
+  for (npy_intp i=0;i<n;++i) {
+    (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,1);
+    in1 += steps[0]; in2 += steps[1]; in3 += steps[2]; out += steps[3];
+  }
 }
 
 
@@ -102,9 +135,14 @@ static void vdt_vd21(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,n); 
+  if (vdt_dense(steps,3,sizeof(double))) {
+    (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,n);
+    return;
+  }
+  for (npy_intp i=0;i<n;++i) {
+    (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,1);
+    in1 += steps[0]; in2 += steps[1]; out += steps[2];
+  }
 }
 
 static void vdt_vd12(char **args, npy_intp *dimensions,
@@ -115,9 +153,14 @@ static void vdt_vd12(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0],  *out1 = args[1], *out2 = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const double *)in, (double *)out1, (double *)out2,n); 
+  if (vdt_dense(steps,3,sizeof(double))) {
+    (*functionPtr)((const double *)in, (double *)out1, (double *)out2,n);
+    return;
+  }
+  for (npy_intp i=0;i<n;++i) {
+    (*functionPtr)((const double *)in, (double *)out1, (double *)out2,1);
+    in += steps[0]; out1 += steps[1]; out2 += steps[2];
+  }
 }
 
 static void vdt_vd31(char **args, npy_intp *dimensions,
@@ -128,9 +171,14 @@ static void vdt_vd31(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *in3 = args[2], *out = args[3];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,n); 
+  if (vdt_dense(steps,4,sizeof(double))) {
+    (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,n);
+    return;
+  }
+  for (npy_intp i=0;i<n;++i) {
+    (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,1);
+    in1 += steps[0]; in2 += steps[1]; in3 += steps[2]; out += steps[3];
+  }
 }
 
 
-- 
2.43.0


From f1e9941f34f9c2d3710ba75df4cd0a4e4a47ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:54 +0000
Subject: [PATCH 19/29] fix: double precision type of the ctypes layer with
 current NumPy

---
 scripts/invokeVDT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/invokeVDT.py b/scripts/invokeVDT.py
index 55a552f..eb89613 100644
--- a/scripts/invokeVDT.py
+++ b/scripts/invokeVDT.py
@@ -36,7 +36,7 @@ def load(fn,is_single,libname='libvdtFatLibWrapper',nin=1,nout=1) :
    if (is_single) :
      type = numpy.single
    else :
-     type = numpy.float      
+     type = numpy.double
 
    tin = numpy.ctypeslib.ndpointer(type,flags='aligned, contiguous')
    tout = numpy.ctypeslib.ndpointer(type,flags='aligned, contiguous, writeable')
-- 
2.43.0


From 4ac7d2975040664489df91f8d2957455f23a9bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:54 +0000
Subject: [PATCH 20/29] fix: pass all the arguments of div, fma and fmac
 through ctypes

---
 scripts/invokeVDT.py           | 12 ++++++++++++
 scripts/vdtBase.py             |  5 +++++
 src/numpy_wrapper_generator.py |  4 +++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/scripts/invokeVDT.py b/scripts/invokeVDT.py
index eb89613..e26742f 100644
--- a/scripts/invokeVDT.py
+++ b/scripts/invokeVDT.py
@@ -21,6 +21,18 @@ def invoke2to1(vi1,vi2,f,type) :
   f(vi1,vi2,vo,vi1.size)
   return vo
 
+def invoke3to1(vi1,vi2,vi3,f,type) :
+  requires = ['CONTIGUOUS', 'ALIGNED']
+  vi1 = numpy.asanyarray(vi1)
+  vi1 = numpy.require(vi1, type, requires)
+  vi2 = numpy.asanyarray(vi2)
+  vi2 = numpy.require(vi2, type, requires)
+  vi3 = numpy.asanyarray(vi3)
+  vi3 = numpy.require(vi3, type, requires)
+  vo = numpy.empty_like(vi1)
+  f(vi1,vi2,vi3,vo,vi1.size)
+  return vo
+
 def invoke1to2(vi,f,type) :
   requires = ['CONTIGUOUS', 'ALIGNED']
   vi = numpy.asanyarray(vi)
diff --git a/scripts/vdtBase.py b/scripts/vdtBase.py
index 211b6a5..cdcf9f8 100644
--- a/scripts/vdtBase.py
+++ b/scripts/vdtBase.py
@@ -26,6 +26,11 @@ def vdt_invoke2to1(fn,vi1,vi2) :
     (f,type) =  VDTFunMap[fn]
     return invokeVDT.invoke2to1(vi1,vi2,f,type)    
 
+def vdt_invoke3to1(fn,vi1,vi2,vi3) :
+    loadit(fn,3,1)
+    (f,type) =  VDTFunMap[fn]
+    return invokeVDT.invoke3to1(vi1,vi2,vi3,f,type)    
+
 def vdt_invoke1to2(fn,vi) :
     loadit(fn,1,2)
     (f,type) =  VDTFunMap[fn]
diff --git a/src/numpy_wrapper_generator.py b/src/numpy_wrapper_generator.py
index 6351145..9ceb2d0 100644
--- a/src/numpy_wrapper_generator.py
+++ b/src/numpy_wrapper_generator.py
@@ -238,8 +238,10 @@ def get_python_function(fcn_name,is_double,is_vector):
   code = ''
   if(is_vector):
     fn ='%s%s' %(VDT_PREF,fcn_name)
-    if (fcn_name[:5] == 'atan2') :
+    if (fcn_name[:5] == 'atan2' or fcn_name[:3] == 'div') :
       code='def %s(vi1,vi2): return vdt_invoke2to1("%s",vi1,vi2)' %(fn,fn) + '\n'
+    elif (fcn_name[:3] == 'fma') :
+      code='def %s(vi1,vi2,vi3): return vdt_invoke3to1("%s",vi1,vi2,vi3)' %(fn,fn) + '\n'
     elif (fcn_name[:6] == 'sincos'):
       code='def %s(vi): return vdt_invoke1to2("%s",vi)' %(fn,fn) + '\n'
     else :
-- 
2.43.0


From 157b84ddb0529c39c79025be9f0853c16b720da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:50:05 +0000
Subject: [PATCH 21/29] fix: broadcast the arrays given to the ctypes functions
 of several arguments

---
 scripts/invokeVDT.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/invokeVDT.py b/scripts/invokeVDT.py
index e26742f..e1183a1 100644
--- a/scripts/invokeVDT.py
+++ b/scripts/invokeVDT.py
@@ -13,6 +13,7 @@ def invoke(vi,f,type) :
 
 def invoke2to1(vi1,vi2,f,type) :
   requires = ['CONTIGUOUS', 'ALIGNED']
+  (vi1,vi2) = numpy.broadcast_arrays(vi1,vi2,subok=True)
   vi1 = numpy.asanyarray(vi1)
   vi1 = numpy.require(vi1, type, requires)
   vi2 = numpy.asanyarray(vi2)
@@ -23,6 +24,7 @@ def invoke2to1(vi1,vi2,f,type) :
 
 def invoke3to1(vi1,vi2,vi3,f,type) :
   requires = ['CONTIGUOUS', 'ALIGNED']
+  (vi1,vi2,vi3) = numpy.broadcast_arrays(vi1,vi2,vi3,subok=True)
   vi1 = numpy.asanyarray(vi1)
   vi1 = numpy.require(vi1, type, requires)
   vi2 = numpy.asanyarray(vi2)
-- 
2.43.0


From 0e69029d29217d57e86adfe0adbe0f26f8aabb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:29 +0000
Subject: [PATCH 22/29] fix: run the table and accuracy scripts with Python 3

---
 scripts/checkAccuracy.py      |  6 +++--
 scripts/tabulateVDTResults.py | 41 +++++++++++++++++++----------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/scripts/checkAccuracy.py b/scripts/checkAccuracy.py
index 7818c01..c94a7d0 100644
--- a/scripts/checkAccuracy.py
+++ b/scripts/checkAccuracy.py
@@ -5,6 +5,8 @@ Trivial script to build the commandline to check the accuracy of the
 VDT functions.
 '''
 
+from __future__ import print_function
+
 response_filename_template="%s__%s%s__response.txt"
 
 functions=[\
@@ -71,13 +73,13 @@ def get_tests(nick):
 if __name__ == "__main__":
     import sys
     if len(sys.argv) != 2:
-      print "Usage is checkAccuracy.py nick"
+      print("Usage is checkAccuracy.py nick")
       sys.exit(1)
     nick=sys.argv[1]
     tests=get_tests(nick)
     refs=get_refs(nick)
     command='vdtArithmComparison -n=%s -T="%s" -R="%s"' %(nick,tests,refs)
-    print command
+    print(command)
         
         
         
diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index f748c3b..2d9928d 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -1,5 +1,7 @@
 #! /usr/bin/env python
 
+from __future__ import print_function
+
 import re
 import math
 
@@ -53,12 +55,12 @@ def createSummaryTable(TitledTimingsList):
    """
    firstTimings =TitledTimingsList[0][1]
    nlines=len(firstTimings)
-   print "   Function Name",
+   print("   Function Name", end=" ")
    for title,timings in TitledTimingsList:
-      print "%20s" %title,
-   print
-   for i in xrange(nlines):
-      print "%16s" %firstTimings[i][0],
+      print("%20s" %title, end=" ")
+   print()
+   for i in range(nlines):
+      print("%16s" %firstTimings[i][0], end=" ")
       first=True
       norm=1.
       speedupString=""
@@ -73,9 +75,9 @@ def createSummaryTable(TitledTimingsList):
             factor = norm/dividend
             speedupString = "%.1fX" %factor
          s="%.2f +- %.2f %s" %(time,err,speedupString)
-         print "%20s" %s,
+         print("%20s" %s, end=" ")
          first=False
-      print
+      print()
 
 
 #-------------------------------------------------------------------------------
@@ -97,17 +99,17 @@ def createVectTable(TitledTimingsList):
    
    firstTimings =TitledTimingsList[0][1]
    nlines=len(firstTimings)
-   print "   Function Name",
+   print("   Function Name", end=" ")
    vectSuffix=""
    for title,timings in TitledTimingsList:      
-      print "%20s" %(title+vectSuffix),
+      print("%20s" %(title+vectSuffix), end=" ")
       vectSuffix=" vect."
-   print
-   for i in xrange(nlines):
+   print()
+   for i in range(nlines):
       funcName=firstTimings[i][0]
       if funcName.endswith('v'):continue
       
-      print "%16s" %funcName,
+      print("%16s" %funcName, end=" ")
       first=True
       norm=1.
       speedupString=""
@@ -117,7 +119,7 @@ def createVectTable(TitledTimingsList):
             err = timings[i][2]
             norm=time
             s="%.2f +- %.2f" %(time,err)
-            print "%20s" %s,
+            print("%20s" %s, end=" ")
             first=False
          else:
             timingsDict = timings2TimingsDict(timings)            
@@ -128,9 +130,9 @@ def createVectTable(TitledTimingsList):
             factor = norm/dividend
             speedupString = "%.1f X" %factor
             s="%.2f +- %.2f %s" %(time,err,speedupString)
-            print "%20s" %s,
+            print("%20s" %s, end=" ")
             first=False
-      print
+      print()
 
 #-------------------------------------------------------------------------------
 def createLibmVdtTable(TitledTimings):
@@ -140,8 +142,8 @@ def createLibmVdtTable(TitledTimings):
 
    nlines=len(TitledTimings)
    title,timings = TitledTimings
-   print "--------- %s Scalar Calls ----------" %title
-   print "%16s %16s %16s" %("Function Name","Libm","VDT")
+   print("--------- %s Scalar Calls ----------" %title)
+   print("%16s %16s %16s" %("Function Name","Libm","VDT"))
    timingsDict=timings2TimingsDict(timings) 
    for name,time,err in timings:
       if name.startswith("Fast_") or name.endswith("v"): continue
@@ -158,7 +160,7 @@ def createLibmVdtTable(TitledTimings):
       speedupString = "%.1fX"%speedup
       vdtString="%.2f +- %.2f %s" %(vdtTime,vdtErr,speedupString)
 
-      print "%16s %20s %20s" %(name,libmString,vdtString)
+      print("%16s %20s %20s" %(name,libmString,vdtString))
       
 #-------------------------------------------------------------------------------
 if __name__ == "__main__":
@@ -199,7 +201,8 @@ if __name__ == "__main__":
       createVectTable(titledTimingsList)
 
    if options.libmTable:
-      map (createLibmVdtTable, titledTimingsList)
+      for titledTimings in titledTimingsList:
+         createLibmVdtTable(titledTimings)
 
 
 
-- 
2.43.0


From b76d107d84e17965d7e3836e3156f49d4c20ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:29 +0000
Subject: [PATCH 23/29] fix: show the error of the array function in the vector
 timings table

---
 scripts/tabulateVDTResults.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index 2d9928d..00344f2 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -124,7 +124,6 @@ def createVectTable(TitledTimingsList):
          else:
             timingsDict = timings2TimingsDict(timings)            
             time,err = timingsDict[funcName+"v"]
-            err = timingsDict[funcName][1]
             dividend=time
             if dividend==0.: dividend =1.
             factor = norm/dividend
-- 
2.43.0


From 513d44b38cb7825134670e0dbd05a51d378a1235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:29 +0000
Subject: [PATCH 24/29] fix: list the scalar inverses in the vector timings
 table

---
 scripts/tabulateVDTResults.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index 00344f2..b293207 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -105,9 +105,11 @@ def createVectTable(TitledTimingsList):
       print("%20s" %(title+vectSuffix), end=" ")
       vectSuffix=" vect."
    print()
+   firstTimingsDict = timings2TimingsDict(firstTimings)
    for i in range(nlines):
       funcName=firstTimings[i][0]
-      if funcName.endswith('v'):continue
+      # Scalar symbols only: the name of some of them ends with a v as well (Fast_Inv)
+      if funcName+"v" not in firstTimingsDict:continue
       
       print("%16s" %funcName, end=" ")
       first=True
-- 
2.43.0


From caa06a5614c1bdf55a1b27b49a0a2f88d831b163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:29 +0000
Subject: [PATCH 25/29] fix: libm table of timings that are not normalised or
 vanish

---
 scripts/tabulateVDTResults.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index b293207..ce8bb82 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -154,10 +154,14 @@ def createLibmVdtTable(TitledTimings):
       vdtName = "Fast_%s" %name
       if "Inverse" in vdtName:
          vdtName= vdtName.replace("Inverse","Inv")
+      # The identities have no counterpart
+      if vdtName not in timingsDict: continue
       
       vdtTime = timingsDict[vdtName][0]
       vdtErr = timingsDict[vdtName][1]
-      speedup = time / vdtTime
+      dividend=vdtTime
+      if dividend==0.: dividend =1.
+      speedup = time / dividend
       speedupString = "%.1fX"%speedup
       vdtString="%.2f +- %.2f %s" %(vdtTime,vdtErr,speedupString)
 
-- 
2.43.0


From 8cc0df674767a5e1c390f929612a9c87dd480fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:52:09 +0000
Subject: [PATCH 26/29] fix: open the comparison files in the directory looked
 at

---
 scripts/diffhisto.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/diffhisto.py b/scripts/diffhisto.py
index 089c6b0..d4369b6 100644
--- a/scripts/diffhisto.py
+++ b/scripts/diffhisto.py
@@ -61,6 +61,7 @@ def fill_histos(cmpfile,histo1D,histo2D):
 #-------------------------------------------------------------------------------    
 
 def compare(nick,dirname):
+  import os
   import ROOT
   
   # Some globals for the style
@@ -77,7 +78,7 @@ def compare(nick,dirname):
   print ( str( len(filenames) ) + " files found." )
   for filename in filenames:      
     print ( "Studying " + filename )
-    cmpfile = open(filename)
+    cmpfile = open(os.path.join(dirname,filename))
     typelength,typelength_s =  getTypeLength(cmpfile)
     
     m=re.match("comparison__" + nick + "__(.*).txt" ,filename)
-- 
2.43.0


From 20f46229126ecedb09844ff2cfe22ee9d38a870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:52:31 +0000
Subject: [PATCH 27/29] fix: histograms of the functions of two arguments

---
 scripts/diffhisto.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/diffhisto.py b/scripts/diffhisto.py
index d4369b6..bdee0bf 100644
--- a/scripts/diffhisto.py
+++ b/scripts/diffhisto.py
@@ -51,9 +51,10 @@ def fill_histos(cmpfile,histo1D,histo2D):
     line = cmpfile.readline()
     if line == "":
       break
-    m=re.match("(.*) (.*) (.*) (.*) (.*)",line)
-    inputval=float(m.group(5))
-    db=int(m.group(4))
+    # after the hex columns: diffbit and the decimal input (the first one if there are two)
+    columns=[column for column in line.split() if not column.startswith("0x")]
+    inputval=float(columns[1])
+    db=int(columns[0])
     # fill histograms
     histo1D.Fill(db)
     histo2D.Fill(inputval,db)  
-- 
2.43.0


From a20f9cddb35e2b2115997f9de2534ee626c8e8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:52:41 +0000
Subject: [PATCH 28/29] fix: histograms for nicknames with special characters

---
 scripts/diffhisto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/diffhisto.py b/scripts/diffhisto.py
index bdee0bf..d282603 100644
--- a/scripts/diffhisto.py
+++ b/scripts/diffhisto.py
@@ -41,7 +41,7 @@ def getYaxisRange(name):
 
 def getFilenamesFromDir(nick,dirname):
   import os
-  return filter (lambda filename: re.match("comparison__" + nick + "__(.*).txt",filename), os.listdir(dirname))
+  return filter (lambda filename: re.match("comparison__" + re.escape(nick) + "__(.*).txt",filename), os.listdir(dirname))
 
 #-------------------------------------------------------------------------------    
 
@@ -82,7 +82,7 @@ def compare(nick,dirname):
     cmpfile = open(os.path.join(dirname,filename))
     typelength,typelength_s =  getTypeLength(cmpfile)
     
-    m=re.match("comparison__" + nick + "__(.*).txt" ,filename)
+    m=re.match("comparison__" + re.escape(nick) + "__(.*).txt" ,filename)
     fcn_name=m.group(1)
     
     # read rest of header   
-- 
2.43.0


From 220c63af3acc33b01885f20bb75a763f00be2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:57:18 +0000
Subject: [PATCH 29/29] fix: input axis in the histograms of the two-argument
 arctangent

---
 scripts/diffhisto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/diffhisto.py b/scripts/diffhisto.py
index d282603..532b65e 100644
--- a/scripts/diffhisto.py
+++ b/scripts/diffhisto.py
@@ -24,7 +24,7 @@ def getTypeLength(cmpfile):
 def getYaxisRange(name):
   lr = -5000
   hr = 5000
-  if "Asin" in name or "Acos" in name:
+  if "Asin" in name or "Acos" in name or "Atan2" in name:
     lr = -1
     hr = 1
   if "Log" in name or "Isqrt" in name:
-- 
2.43.0

