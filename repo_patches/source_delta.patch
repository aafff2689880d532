From 00b478a9c30d4096aa117c42263958f8a04051d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 01/60] fix: dreamsphere loses the error code of workers at
 error levels warn and ignore

---
 src/dreamsphere.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index dc44852..8dc91f8 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -254,9 +254,9 @@ SIRError Sphere::dreamsphere(double alpha,
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
       threads[thread_n].join();
 
-      // Check if the current thread or a previous had an out-of-bounds error.
-      if ( (err == SIRError::out_of_bounds) || (D[thread_n].err == SIRError::out_of_bounds) ) {
-        err = SIRError::out_of_bounds;
+      // Check if one of the threads had an out-of-bounds event.
+      if (D[thread_n].err != SIRError::none) {
+        err = D[thread_n].err;
       }
 
     }
-- 
2.43.0


From 13b6db2a3650e0baaf98532aaea6922992bb7076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 02/60] fix: error code and raised error are lost when a single
 worker does the whole computation

---
 extra_src/das.cc        | 2 ++
 src/dream_arr_annu.cc   | 2 ++
 src/dream_arr_circ.cc   | 2 ++
 src/dream_arr_cylind.cc | 2 ++
 src/dream_arr_rect.cc   | 2 ++
 src/dreamcirc.cc        | 2 ++
 src/dreamcirc_f.cc      | 2 ++
 src/dreamcylind.cc      | 2 ++
 src/dreamline.cc        | 2 ++
 src/dreamrect.cc        | 2 ++
 src/dreamrect_f.cc      | 2 ++
 src/dreamsphere.cc      | 2 ++
 12 files changed, 24 insertions(+)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index a02dbba..d395e84 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -287,6 +287,8 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 86e13cb..23347a4 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -619,6 +619,8 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index f6b8d9a..ae91b5b 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -418,6 +418,8 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 61d6e13..88a4251 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -426,6 +426,8 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index b6ee4ea..78e53af 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -422,6 +422,8 @@ SIRError ArrRect::dream_arr_rect(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index e376b23..a18bb96 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -264,6 +264,8 @@ SIRError Circ::dreamcirc(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index e4eb3a4..15f0bc2 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -265,6 +265,8 @@ SIRError Circ_f::dreamcirc_f(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 8939e15..60593d8 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -262,6 +262,8 @@ SIRError Cylind::dreamcylind(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamline.cc b/src/dreamline.cc
index 3033813..cdcb7f3 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -249,6 +249,8 @@ SIRError Line::dreamline(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index bd00da2..acfcd08 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -261,6 +261,8 @@ SIRError Rect::dreamrect(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index a7a5dbb..f37f081 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -265,6 +265,8 @@ SIRError Rect_f::dreamrect_f(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 8dc91f8..8f46546 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -260,6 +260,8 @@ SIRError Sphere::dreamsphere(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
-- 
2.43.0


From 53e7944cd87f83db632c3351c080e83f5fb5d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 03/60] fix: array functions report only the last element's
 out-of-bounds code

---
 src/dream_arr_annu.cc   | 14 ++++++++++++--
 src/dream_arr_circ.cc   | 14 ++++++++++++--
 src/dream_arr_cylind.cc | 14 ++++++++++++--
 src/dream_arr_rect.cc   | 14 ++++++++++++--
 4 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 23347a4..b4a2f77 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -194,6 +194,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Any element's error.
   verbose_err_messages = false;
 
   // NB. The first ring have no inner radius (it is a normal
@@ -238,6 +239,10 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
         return err; // Bail out.
       }
 
+      if (err != SIRError::none) {
+        out_err = err;
+      }
+
     }
   }
 
@@ -265,7 +270,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
     superpos_annular(h_ring.get(), h, nt, weight, foc_delay, n, dt); // Add the n:th impulse response.
   }
 
-  return err;
+  return out_err;
 }
 
 SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -280,6 +285,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Any element's error.
 
   // NB. The first ring have no inner radius (it is a normal
   // circular disc).
@@ -322,6 +328,10 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
         return err; // Bail out.
       }
 
+      if (err != SIRError::none) {
+        out_err = err;
+      }
+
     }
   }
 
@@ -349,7 +359,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
     superpos_annular(h_ring.get(), h, nt, weight, foc_delay, n, dt); // Add the n:th impulse response.
   }
 
-  return err;
+  return out_err;
 }
 
 /***
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index ae91b5b..922cc7f 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -200,6 +200,7 @@ SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
                                         ApodMet apod_met, double apod_par, double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Any element's error.
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -236,9 +237,13 @@ SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
       return err; // Bail out.
     }
 
+    if (err != SIRError::none) {
+      out_err = err;
+    }
+
   }
 
-  return err;
+  return out_err;
 }
 
 SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -253,6 +258,7 @@ SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         ApodMet apod_met, double apod_par, double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Any element's error.
 
   // FIXME: Do we need this one?
   for (dream_idx_type i=0; i<nt; i++) {
@@ -293,9 +299,13 @@ SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
       return err; // Bail out.
     }
 
+    if (err != SIRError::none) {
+      out_err = err;
+    }
+
   }
 
-  return err;
+  return out_err;
 }
 
 /***
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 88a4251..2bb45ab 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -209,6 +209,7 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                                             double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Any element's error.
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -244,9 +245,13 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
       return err; // Bail out.
     }
 
+    if (err != SIRError::none) {
+      out_err = err;
+    }
+
   }
 
-  return err;
+  return out_err;
 }
 
 SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
@@ -263,6 +268,7 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                                             double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Any element's error.
 
   double r_max, x_max, y_max;
   max_dim_arr(&x_max, &y_max, &r_max, gx, gy, gz, num_elements);
@@ -299,9 +305,13 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
       return err; // Bail out.
     }
 
+    if (err != SIRError::none) {
+      out_err = err;
+    }
+
   }
 
-  return err;
+  return out_err;
 }
 
 /***
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 78e53af..cca56ca 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -201,6 +201,7 @@ SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Any element's error.
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -238,9 +239,13 @@ SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
       return err; // Bail out.
     }
 
+    if (err != SIRError::none) {
+      out_err = err;
+    }
+
   }
 
-  return err;
+  return out_err;
 }
 
 SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -255,6 +260,7 @@ SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Any element's error.
 
   // FIXME: Do we need this one?
   for (dream_idx_type i=0; i<nt; i++) {
@@ -296,9 +302,13 @@ SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
       return err; // Bail out.
     }
 
+    if (err != SIRError::none) {
+      out_err = err;
+    }
+
   }
 
-  return err;
+  return out_err;
 }
 
 /***
-- 
2.43.0


From 129e7dee52a6daf0c34eb4a07db6edccc3f300f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 04/60] fix: annular array rings are delayed one sample too
 much, and negative ring delays write outside the buffer

---
 src/dream_arr_annu.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index b4a2f77..5ead432 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -475,9 +475,9 @@ void ArrAnnu::superpos_annular(double *h_ring, double *h, dream_idx_type nt,
     buf[i] = 0.0;
   }
 
-  dream_idx_type delay_idx = (dream_idx_type) std::rint(foc_delay/dt) + 1;
-  for (dream_idx_type i=0; i<nt; i++) { // FIXME: can delay_idx be > nt?
-    if (delay_idx < nt) {
+  dream_idx_type delay_idx = (dream_idx_type) std::rint(foc_delay/dt);
+  for (dream_idx_type i=0; i<nt; i++) { // delay_idx can be negative or > nt.
+    if ( (i + delay_idx >= 0) && (i + delay_idx < nt) ) {
       buf[i + delay_idx] = h_ring[i + n*nt];
     }
   }
-- 
2.43.0


From a242d72556792e2d1d01c04df94203ad43f966fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 05/60] fix: annular arrays ignore the hann and hamming
 apodization windows

---
 src/dream_arr_annu.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 5ead432..b14f99d 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -443,6 +443,17 @@ double ArrAnnu::apodization_annular(ApodMet apod_met, dream_idx_type n, double *
     weight = apod_par + std::cos(ring_r * M_PI / ring_r_max);
     break;
 
+  case ApodMet::hann:
+    weight = 0.5 * (1.0 - std::cos((ring_r+ring_r_max)*M_PI/ring_r_max));
+    break;
+
+  case ApodMet::hamming:
+    {
+      double a0 = 25.0/46.0;
+      weight = a0 - (1.0 - a0) * std::cos((ring_r+ring_r_max)*M_PI/ring_r_max);
+    }
+    break;
+
   case ApodMet::simply_supported:
     weight = 1.0 - ring_r*ring_r / (ring_r_max*ring_r_max);
     break;
-- 
2.43.0


From a5f13e47a706c79cb74ee950ee49fccff603f4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 06/60] fix: Python array functions ignore win_par

---
 python/src/py_dream_arr_annu.cc   | 2 +-
 python/src/py_dream_arr_circ.cc   | 2 +-
 python/src/py_dream_arr_cylind.cc | 2 +-
 python/src/py_dream_arr_rect.cc   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index cfaefdc..1886671 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -140,7 +140,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_annu", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_annu!");
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index e3b2efc..60b3b29 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -164,7 +164,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_circ", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_circ!");
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 1a72585..e407793 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -164,7 +164,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_cylind", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_cylind!");
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 4d4aac3..ae3fd74 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -164,7 +164,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_rect", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_rect!");
-- 
2.43.0


From de904d20b7382698fab8e126bc45d8ca47901e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 07/60] fix: Octave argument data freed before it is used for
 scalars, ranges and integer matrices

---
 include/arg_parser.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index d750ba6..3e0f42d 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -25,6 +25,7 @@
 #pragma once
 
 #include <sstream>
+#include <list>
 #include <cstring>
 #include <cstdarg>
 #include <memory>
@@ -595,6 +596,12 @@ public:
 
 #ifdef DREAM_OCTAVE
 
+private:
+
+  std::list<Matrix> m_matrices;
+
+public:
+
   dream_idx_type get_m(args_t args, dream_idx_type arg_num) {
     return args(arg_num).matrix_value().rows();
   };
@@ -604,8 +611,11 @@ public:
   };
 
   double* get_data(const args_t args, dream_idx_type arg_num) {
-    const Matrix tmp_mat = args(arg_num).matrix_value();
-    return (double*) tmp_mat.data();
+    // Keep the matrix: for a range, a scalar, an integer matrix, etc, matrix_value() returns
+    // a temporary conversion and its data must stay valid as long as the parser is in use.
+    m_matrices.push_back(args(arg_num).matrix_value());
+    const Matrix &mat = m_matrices.back();
+    return (double*) mat.data();
   };
 
   double get_scalar(const args_t args, dream_idx_type arg_num) {
-- 
2.43.0


From 1a9baffff4ea00654d507ec8626b29ba0de2525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 08/60] fix: Python dream_arr_annu confuses the number of radii
 with the number of rings, and reads only one radius of a row vector

---
 python/src/py_dream_arr_annu.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 1886671..dc5c3bd 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -75,10 +75,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info G_info = py_G->request();
-  auto G_m = G_info.shape[0];
-  double *G = static_cast<double*>(G_info.ptr);
+  double *G = static_cast<double*>(G_info.ptr); // Vector of annular radii.
 
-  dream_idx_type num_elements = (dream_idx_type) G_m;
+  dream_idx_type num_radii = ap.get_m(py_G)*ap.get_n(py_G);
+  dream_idx_type num_elements = (num_radii+1)/2;
 
   //
   // Temporal and spatial sampling parameters.
@@ -178,7 +178,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
                                         dx, dy,  dt, nt,
                                         delay_type, delay,
                                         v, cp,
-                                        num_elements, G,
+                                        num_radii, G,
                                         foc_met, focal.get(),
                                         apod.get(), do_apod, apod_met, apod_par,
                                         h, err_level);
-- 
2.43.0


From c5d6d1f5300d4940a3ea55f224d26d420d0b574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 09/60] fix: annular array grid check accepts matrices and an
 even number of radii

---
 include/arg_parser.h        | 3 ++-
 include/arg_parser_python.h | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index 3e0f42d..735bd73 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -110,7 +110,8 @@ public:
   bool check_array_annu(const char *func_name, args_t args, dream_idx_type arg_num) {
     bool retval=true;
     std::ostringstream s;
-    if ( (get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1) && (get_n(args, arg_num)*get_n(args, arg_num) % 2 == 0) ) {
+    if ( ((get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1)) ||
+         ((get_m(args, arg_num)*get_n(args, arg_num)) % 2 == 0) ) {
       s << func_name <<  " requires that arg " << arg_num+1 << "  must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 57bac5d..6aaaab8 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -116,8 +116,8 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    if ( (get_m(py_G) != 1) && (get_n(py_G) != 1) &&
-         (get_n(py_G)*get_n(py_G) % 2 == 0) ) {
+    if ( ((get_m(py_G) != 1) && (get_n(py_G) != 1)) ||
+         ((get_m(py_G)*get_n(py_G)) % 2 == 0) ) {
       s << func_name <<  " requires that array grid arg must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
-- 
2.43.0


From f032cdc9668fc5e7c8538d418fa38dcccb6e4505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 10/60] fix: Python bindings read the array shape out of bounds
 for 0- and 1-dimensional arrays

---
 include/arg_parser_python.h       | 20 ++++++--------------
 python/src/py_dream_arr_annu.cc   |  4 +---
 python/src/py_dream_arr_circ.cc   |  4 +---
 python/src/py_dream_arr_cylind.cc |  4 +---
 python/src/py_dream_arr_rect.cc   |  4 +---
 python/src/py_dreamcirc.cc        |  4 +---
 python/src/py_dreamcirc_f.cc      |  4 +---
 python/src/py_dreamcylind.cc      |  4 +---
 python/src/py_dreamline.cc        |  4 +---
 python/src/py_dreamrect.cc        |  4 +---
 python/src/py_dreamrect_f.cc      |  4 +---
 python/src/py_dreamsphere.cc      |  4 +---
 12 files changed, 17 insertions(+), 47 deletions(-)

diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 6aaaab8..4972c3e 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -84,10 +84,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    py::buffer_info ro_info = py_ro->request();
-    auto ro_n = ro_info.shape[1];
-
-    if (ro_n != 3) {
+    if (get_ndim(py_ro) != 2 || get_n(py_ro) != 3) {
       s << func_name <<  " requires that observation point arg must be a (number of observation points) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -100,10 +97,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    py::buffer_info G_info = py_G->request();
-    auto G_n = G_info.shape[1];
-
-    if ( G_n != 3 ) {
+    if (get_ndim(py_G) != 2 || get_n(py_G) != 3) {
       s << func_name <<  " requires that array grid arg must be a (number of array elements) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -590,26 +584,24 @@ public:
     return (dream_idx_type) ndim;
   };
 
+  // A 1-dimensional array is treated as a column vector and a 0-dimensional one as a scalar.
   dream_idx_type get_m(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto m = py_arg_info.shape[0];
+    auto m = (py_arg_info.ndim > 0) ? py_arg_info.shape[0] : 1;
 
     return (dream_idx_type) m;
   };
 
   dream_idx_type get_n(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto n = py_arg_info.shape[1];
+    auto n = (py_arg_info.ndim > 1) ? py_arg_info.shape[1] : 1;
 
     return (dream_idx_type) n;
   };
 
   // Assume vector here. We do not care it is a row or column vector.
   dream_idx_type get_len(const py::array_t<T,py::array::f_style> *py_arg) {
-    py::buffer_info py_arg_info = py_arg->request();
-    auto len = py_arg_info.shape[0] * py_arg_info.shape[1];
-
-    return (dream_idx_type) len;
+    return get_m(py_arg) * get_n(py_arg);
   };
 
   T* get_data(const py::array_t<T,py::array::f_style> *py_arg) {
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index dc5c3bd..97f26f6 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -99,12 +99,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index 60b3b29..30202f9 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -112,12 +112,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index e407793..74799fa 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -112,12 +112,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index ae3fd74..9d63236 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -112,12 +112,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index 6cc4009..65f8936 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -90,12 +90,10 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index ac66b1f..bb428ce 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -92,12 +92,10 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index 1e8b19f..fd93f8e 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -90,12 +90,10 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index f0d8591..937cd49 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -90,12 +90,10 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index be1e020..fc125e6 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -90,12 +90,10 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index 5e4223e..9311f5d 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -92,12 +92,10 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index c3bee38..547622f 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -90,12 +90,10 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-  if (delay_m * delay_n != 1) {
+  if (ap.get_len(py_delay) != 1) {
     delay_type = DelayType::multiple; // delay is a vector.
   }
 
-- 
2.43.0


From 62577bba7cce4ea29911ff1778c4f44906d6198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 11/60] fix: row-column addressed DAS uses the wrong element
 ends when the numbers of rows and columns differ

---
 extra_src/das.cc     | 16 ++++++++--------
 opencl/das_double.cl | 12 ++++++------
 opencl/das_float.cl  | 12 ++++++------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index d395e84..4e3e564 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -459,14 +459,14 @@ SIRError DAS<T>::das_rca_serial_coltx(const T *Y, // Size: a_scan_len x num_cols
   // * the transmit elements are distributed along the x-dimension (transmit with columns)
   //   and the receive elements are distributed along the y-dimension (rows),
   // * G_col[0] < G_col[num_cols-1] (x-dim edge positions) and
-  //   G_row[0 + 1*num_cols] < G_col[num_cols-1 + 1*num_cols]
+  //   G_row[0 + 1*num_rows] < G_row[num_rows-1 + 1*num_rows]
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
@@ -555,14 +555,14 @@ SIRError DAS<T>::das_rca_serial_rowtx(const T *Y, // Size: a_scan_len x num_cols
   // * the transmit elements are distributed along the y-dimension (transmit with rows)
   //   and the receive elements are distributed along the x-dimension (cols),
   // * G_col[0] < G_col[num_cols-1] (x-dim edge positions) and
-  //   G_row[0 + 1*num_cols] < G_col[num_cols-1 + 1*num_cols]
+  //   G_row[0 + 1*num_rows] < G_row[num_rows-1 + 1*num_rows]
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index 825ebf4..b7daf59 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -127,10 +127,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -207,10 +207,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
diff --git a/opencl/das_float.cl b/opencl/das_float.cl
index c525101..3fc582c 100644
--- a/opencl/das_float.cl
+++ b/opencl/das_float.cl
@@ -128,10 +128,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
@@ -208,10 +208,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
-- 
2.43.0


From a277dac11eb351ffe30bb64406a52b06b89af69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 12/60] fix: Python das rejects device 'gpu' and accepts
 unknown devices, and reports out-of-bounds as CTRL-C

---
 python/include/py_das.hpp | 8 +++-----
 python/src/py_das.cc      | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 7b7d5e5..6f3dc31 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -143,7 +143,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // Compute device
   //
 
-  if (device_str != "cpu" && device_str == "gpu") {
+  if (device_str != "cpu" && device_str != "gpu") {
     throw std::runtime_error("Error in das - unkown compute device string!");
   }
 
@@ -227,12 +227,10 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
     err = das->das(Y, Ro, Gt, Gr, dt, delay_type, delay, cp, Im, err_level);
     if (!das->is_running()) {
       if (err == SIRError::out_of_bounds) {
-        dream_err_msg("DAS out-of-bounds!\n"); // Bail out.
+        throw std::runtime_error("DAS out-of-bounds!\n"); // Bail out.
       } else {
-        dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+        throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
       }
-
-      throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
     }
 
 #ifdef USE_OPENCL
diff --git a/python/src/py_das.cc b/python/src/py_das.cc
index 3c23496..dbcf00d 100644
--- a/python/src/py_das.cc
+++ b/python/src/py_das.cc
@@ -84,6 +84,6 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("method"),
         py::arg("err_level"),
         py::arg("device"),
-        py::arg("vebose"));
+        py::arg("verbose"));
 }
 #endif
-- 
2.43.0


From fdb19bf2d1f4719eecea7af58f058a8011e98b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 13/60] fix: Python das requires the optional verbose argument

---
 python/src/py_das.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/py_das.cc b/python/src/py_das.cc
index dbcf00d..18f9ac1 100644
--- a/python/src/py_das.cc
+++ b/python/src/py_das.cc
@@ -58,7 +58,7 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("method"),
         py::arg("err_level"),
         py::arg("device"),
-        py::arg("verbose"));
+        py::arg("verbose") = "");
 }
 
 #else
@@ -84,6 +84,6 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("method"),
         py::arg("err_level"),
         py::arg("device"),
-        py::arg("verbose"));
+        py::arg("verbose") = "");
 }
 #endif
-- 
2.43.0


From 237115d5783ea0cffaa26a22d9562ad1eba3dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 14/60] fix: Octave das reads freed memory for scalar delays,
 ignores the device when verbose is given, and starts single precision calls
 on a null object

---
 extra_src/oct_das.cc | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 1c4c660..6a03131 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -195,6 +195,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     }
   }
 
+  // The input args. These must stay in scope since matrix_value(), for example for a scalar or
+  // a range, may return a temporary conversion that is freed when the last copy goes out of scope.
+  FloatMatrix tmp0f, tmp1f, tmp2f, tmp3f, tmp4f, tmp5f, tmp6f;
+  Matrix tmp0d, tmp1d, tmp2d, tmp3d, tmp4d, tmp5d, tmp6d;
+
   //
   // Data
   //
@@ -205,10 +210,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   double *Yd = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp0f= args(0).float_matrix_value();
+    tmp0f = args(0).float_matrix_value();
     Yf = (float*) tmp0f.data();
   } else {
-    const Matrix tmp0d = args(0).matrix_value();
+    tmp0d = args(0).matrix_value();
     Yd = (double*) tmp0d.data();
   }
 
@@ -227,10 +232,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *Gt_d=nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp1f = args(1).float_matrix_value();
+    tmp1f = args(1).float_matrix_value();
     Gt_f = tmp1f.data();
   } else {
-    const Matrix tmp1d = args(1).matrix_value();
+    tmp1d = args(1).matrix_value();
     Gt_d = tmp1d.data();
   }
 
@@ -252,10 +257,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     num_r_elements = mxGetM(2);
 
     if (use_float) {
-      const FloatMatrix tmp2f = args(2).float_matrix_value();
+      tmp2f = args(2).float_matrix_value();
       Gr_f = tmp2f.data();
     } else {
-      const Matrix tmp2d = args(2).matrix_value();
+      tmp2d = args(2).matrix_value();
       Gr_d = tmp2d.data();
     }
 
@@ -277,10 +282,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *Ro_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp3f= args(3).float_matrix_value();
+    tmp3f = args(3).float_matrix_value();
     Ro_f = tmp3f.data();
   } else {
-    const Matrix tmp3d = args(3).matrix_value();
+    tmp3d = args(3).matrix_value();
     Ro_d = tmp3d.data();
   }
 
@@ -297,11 +302,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   double dt_d = 0.0;
 
   if (use_float) {
-    const FloatMatrix tmp4f= args(4).float_matrix_value();
+    tmp4f = args(4).float_matrix_value();
     const float *s_par_f = tmp4f.data();
     dt_f = s_par_f[0];
   } else {
-    const Matrix tmp4d = args(4).matrix_value();
+    tmp4d = args(4).matrix_value();
     const double *s_par_d = (double*) tmp4d.data();
     dt_d = s_par_d[0];
   }
@@ -323,10 +328,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *delay_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp5f = args(5).float_matrix_value();
+    tmp5f = args(5).float_matrix_value();
     delay_f = tmp5f.data();
   } else {
-    const Matrix tmp5d = args(5).matrix_value();
+    tmp5d = args(5).matrix_value();
     delay_d = tmp5d.data();
   }
 
@@ -345,11 +350,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   double cp_d = 0.0;
 
   if (use_float) {
-    const FloatMatrix tmp6f = args(6).float_matrix_value();
+    tmp6f = args(6).float_matrix_value();
     const float *m_par_f = tmp6f.data();
     cp_f = m_par_f[0];
   } else {
-    const Matrix tmp6d = args(6).matrix_value();
+    tmp6d = args(6).matrix_value();
     const double *m_par_d = (double*) tmp6d.data();
     cp_d = m_par_d[0];
   }
@@ -383,7 +388,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   std::string device;
 
-  if (nrhs == 10) {
+  if (nrhs >= 10) {
 
     if (!mxIsChar(9)) {
       error("Argument 10 must be a string");
@@ -391,6 +396,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     }
 
     device = args(9).string_value();
+
+    if (device != "cpu" && device != "gpu") {
+      error("Unknown compute device in argument 10!");
+      return oct_retval;
+    }
   }
 
   //
@@ -402,7 +412,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   if (nrhs == 11) {
 
     if (!mxIsChar(10)) {
-      error("Argument 10 must be a string");
+      error("Argument 11 must be a string");
       return oct_retval;
     }
 
@@ -464,7 +474,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
     }
 
-    das_d->set_running();
+    das_f->set_running();
 
     // Register signal handler.
     std::signal(SIGABRT, DAS<float>::abort);
-- 
2.43.0


From fde438352d98707ef9bdce87d296a0ac27528999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 15/60] fix: das reads outside the data when the number of
 A-scans does not match the arrays

---
 extra_src/oct_das.cc      | 12 ++++++++++++
 python/include/py_das.hpp | 11 +++++++++++
 2 files changed, 23 insertions(+)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 6a03131..dd4bcc6 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -368,6 +368,18 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // SAFT data has one A-scan per transmit element and TFM and RCA data one for each
+  // transmit and receive element pair.
+  dream_idx_type num_a_scans = num_t_elements;
+  if ((das_type != DASType::saft) && (num_r_elements != 0)) {
+    num_a_scans *= num_r_elements;
+  }
+
+  if (mxGetN(0) != num_a_scans) {
+    error("The number of A-scans (columns) in argument 1 does not match the number of array elements!");
+    return oct_retval;
+  }
+
   //
   // Error reporting.
   //
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 6f3dc31..72eed68 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -91,6 +91,17 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
     Gr = static_cast<T*>(ap.get_data(py_Gr));
   }
 
+  // SAFT data has one A-scan per transmit element and TFM and RCA data one for each
+  // transmit and receive element pair.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (num_r_elements != 0) {
+    num_a_scans *= num_r_elements;
+  }
+
+  if (ap.get_n(py_Y) != num_a_scans) {
+    throw std::runtime_error("The number of A-scans (columns) in argument 1 does not match the number of array elements!");
+  }
+
   //
   // Observation point.
   //
-- 
2.43.0


From 32cacb92c9cf886cb76d2fc99abd9076f8f6cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 16/60] fix: delay arguments that are empty or matrices are
 accepted, and some rejections are silent

---
 include/arg_parser.h        | 12 ++++++------
 include/arg_parser_python.h | 11 ++++-------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index 735bd73..30f6ea1 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -240,12 +240,10 @@ public:
     std::ostringstream s;
 
     dream_idx_type delay_len = get_m(args, arg_num)*get_n(args, arg_num);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-
-      if (!((get_m(args, arg_num)==delay_len && get_n(args, arg_num)==1) || (get_m(args, arg_num)==1 && get_n(args, arg_num)==delay_len))) {
-        s << func_name <<  " requires that arg " << arg_num+1 << " (delay) must be a " << delay_len << " element vector";
-        s << " (with a length equal to the number of observation points) or a scalar!";
-      }
+    bool is_vector = (get_m(args, arg_num) == 1) || (get_n(args, arg_num) == 1);
+    if ( (delay_len != 1) && !(delay_len == No && is_vector) ) {
+      s << func_name <<  " requires that arg " << arg_num+1 << " (delay) must be a " << No << " element vector";
+      s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
     }
@@ -514,6 +512,7 @@ public:
         // Vector of apodization weights.
         if (get_m(args, arg_num+1) * get_n(args, arg_num+1) != num_elements) {
           s << func_name <<  " the length of argument arg " << arg_num+1 << " (apodization vector) must be the same as the number of array elements!";
+          dream_err_msg(s.str().c_str());
           retval=false;
         } else { // Copy the user defined apodization weights.
           double *tmp_apod = get_data(args, arg_num+1);
@@ -521,6 +520,7 @@ public:
             std::memcpy(apod, tmp_apod, num_elements*sizeof(double));
           } else {
             s << func_name << " apodization vector not initialzed!";
+            dream_err_msg(s.str().c_str());
             retval=false;
           }
         }
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 4972c3e..dc22549 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -253,13 +253,10 @@ public:
     std::ostringstream s;
 
     dream_idx_type delay_len = get_m(py_focal)*get_n(py_focal);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-
-      if (!((get_m(py_focal) == delay_len && get_n(py_focal) == 1) ||
-            (get_m(py_focal) == 1 && get_n(py_focal) == delay_len))) {
-        s << func_name <<  " requires that delay arg must be a " << delay_len << " element vector";
-        s << " (with a length equal to the number of observation points) or a scalar!";
-      }
+    bool is_vector = (get_m(py_focal) == 1) || (get_n(py_focal) == 1);
+    if ( (delay_len != 1) && !(delay_len == No && is_vector) ) {
+      s << func_name <<  " requires that delay arg must be a " << No << " element vector";
+      s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
     }
-- 
2.43.0


From f0e57e03f57e411af644a1463614a14a7138155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 17/60] fix: rect_sir uses the wrong sub-rectangle for points
 in front of the aperture and off the y-axis center line

---
 extra_src/rect_sir.cc | 2 +-
 opencl/rect_sir.cl    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 5b78231..a79f752 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -288,7 +288,7 @@ void RectSir::rect_sir_serial(double xo_i,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(b/2.0 + yo);
         break;
 
       default:
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 9428a22..5e4bb40 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -58,7 +58,7 @@ __kernel void rect_sir(__global const double *Ro,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(b/2.0 + yo);
         break;
 
       default:
-- 
2.43.0


From fe73e257ca282f165a16eb93043a3f7a256e0f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 18/60] fix: rect_sir ignores the normal velocity

---
 extra_src/rect_sir.cc | 2 +-
 opencl/rect_sir.cl    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index a79f752..b939b91 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -415,7 +415,7 @@ void RectSir::rect_sir_serial(double xo_i,
       if ( (t >= tau_3) && (t <= tau_4) )
         a_k -= cp/(2*M_PI) * std::acos( l_k / (cp * std::sqrt(t*t - t_z*t_z)));
 
-      h[it] += g_k * a_k;
+      h[it] += v * g_k * a_k;
 
     } // for it
   } // for k
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 5e4bb40..667b0fb 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -189,7 +189,7 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if (a_k > 0.0) {
-        h[it] += g_k * a_k; // This hits global memory
+        h[it] += v * g_k * a_k; // This hits global memory
       }
 
     } // for it
-- 
2.43.0


From 690ffa7a39ba43fe71e7bfedf163f2b2fe78f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 19/60] fix: analytic responses are NaN at the arrival times of
 the aperture edge

---
 extra_src/circ_sir.cc  | 15 +++++++++++++--
 extra_src/rect_sir.cc  | 15 +++++++++++++--
 extra_src/scirc_sir.cc |  8 ++++++++
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/extra_src/circ_sir.cc b/extra_src/circ_sir.cc
index cee1694..702f471 100644
--- a/extra_src/circ_sir.cc
+++ b/extra_src/circ_sir.cc
@@ -26,6 +26,17 @@
 #include "circ_sir.h"
 #include "dream_error.h"
 
+// Half the angle of the wavefront arc that is inside the aperture. Rounding can make the
+// cosine slightly larger than one, and it is 0/0 for the first arrival at the aperture edge.
+static double arc_angle(double ct, double zo, double r, double r_cyl)
+{
+  double rho2 = ct*ct - zo*zo;  // Squared radius of the arc.
+  double den = (rho2 > 0.0) ? 2.0*r_cyl*std::sqrt(rho2) : 0.0;
+  double c = (den > 0.0) ? (rho2 + r_cyl*r_cyl - r*r)/den : 0.0;
+
+  return (c >= 1.0) ? 0.0 : ((c <= -1.0) ? M_PI : std::acos(c));
+}
+
 /***
  *
  *  Subroutine circ_sir - Continous spatial impulse response for a circular aperture.
@@ -77,7 +88,7 @@ void circ_sir(double xo_i,
         h[it] = v * cp;
       }
       else if ( (cp*t >= Rprim) && (cp*t < R) ) {
-        h[it] = v * cp/M_PI * std::acos( (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2.0*r_cyl*std::sqrt(cp*t*cp*t-zo*zo)));
+        h[it] = v * cp/M_PI * arc_angle(cp*t, zo, r, r_cyl);
       }
       else if (cp*t >= R) {
         h[it] = 0.0;
@@ -90,7 +101,7 @@ void circ_sir(double xo_i,
         h[it] = 0.0;
       }
       else if ( (cp*t >= Rprim) && (cp*t < R) ) {
-        h[it] = v * cp/M_PI * std::acos( (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2.0*r_cyl*std::sqrt(cp*t*cp*t-zo*zo)));
+        h[it] = v * cp/M_PI * arc_angle(cp*t, zo, r, r_cyl);
       }
       else if (cp*t >= R) {
         h[it] = 0.0;
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index b939b91..3caf625 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -226,6 +226,17 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
   return m_out_err;
 }
 
+// Angle between an edge, at the distance d, and the circle with radius rho that the wavefront
+// makes in the aperture plane. Rounding can make rho slightly less than d (or zero).
+static double edge_angle(double d, double rho)
+{
+  if (d <= 0.0) {
+    return M_PI/2.0;
+  }
+
+  return (d < rho) ? std::acos(d/rho) : 0.0;
+}
+
 /***
  *
  *  Subroutine rect_sir - Continous spatial impulse response for a rectangular aperture.
@@ -410,10 +421,10 @@ void RectSir::rect_sir_serial(double xo_i,
         a_k += cp/4;
 
       if ( (t >= tau_2) && (t <= tau_4) )
-        a_k -= cp/(2*M_PI) * std::acos( s_k / (cp * std::sqrt(t*t - t_z*t_z)));
+        a_k -= cp/(2*M_PI) * edge_angle(s_k, cp * std::sqrt(t*t - t_z*t_z));
 
       if ( (t >= tau_3) && (t <= tau_4) )
-        a_k -= cp/(2*M_PI) * std::acos( l_k / (cp * std::sqrt(t*t - t_z*t_z)));
+        a_k -= cp/(2*M_PI) * edge_angle(l_k, cp * std::sqrt(t*t - t_z*t_z));
 
       h[it] += v * g_k * a_k;
 
diff --git a/extra_src/scirc_sir.cc b/extra_src/scirc_sir.cc
index 723e23d..718d70a 100644
--- a/extra_src/scirc_sir.cc
+++ b/extra_src/scirc_sir.cc
@@ -287,6 +287,14 @@ double trapets_int(double t1, double t2, double zo, double r, double r_cyl, doub
     c1 = (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2*r_cyl*std::sqrt(cp*t*cp*t-zo*zo));
     c2 = (cp*(t+dt)*cp*(t+dt) - zo*zo + r_cyl*r_cyl - r*r)  / (2*r_cyl*std::sqrt(cp*(t+dt)*cp*(t+dt)-zo*zo));
 
+    // The first arrival at the aperture edge (0/0).
+    if (std::isnan(c1)) {
+      c1 = 0.0;
+    }
+    if (std::isnan(c2)) {
+      c2 = 0.0;
+    }
+
     y += acos_acos(c1,c2)/2 * dt;
 
     t += dt;
-- 
2.43.0


From 1003121681e7ef58bdf67e8590f452821564754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 20/60] fix: scirc_sir ignores DREAM_NUM_THREADS

---
 extra_src/oct_scirc_sir.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 82a6aaf..aa4c9a8 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -333,6 +333,14 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Get number of CPU cores (including hypethreading, C++11)
   nthreads = std::thread::hardware_concurrency();
 
+  // Read DREAM_NUM_THREADS env var
+  if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
+    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    if (dream_threads < nthreads) {
+      nthreads = dream_threads;
+    }
+  }
+
   // nthreads can't be larger then the number of observation points.
   if (nthreads > No) {
     nthreads = No;
-- 
2.43.0


From c6884139676d5d5823a061694ab6c9f1533ce1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 21/60] fix: copy_p and add_p write outside the destination
 when the source has fewer columns

---
 extra_src/mex_copy_p.cc | 10 +++++-----
 extra_src/oct_add_p.cc  | 10 +++++-----
 extra_src/oct_copy_p.cc | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index 11b260a..bee4801 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -208,9 +208,9 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -251,8 +251,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    line_start = thread_n * A_N/nthreads;
-    line_stop =  (thread_n+1) * A_N/nthreads;
+    line_start = thread_n * B_N/nthreads;
+    line_stop =  (thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].line_start = line_start; // Local start index;
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index c240ce9..f56ffe5 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -264,9 +264,9 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -311,8 +311,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    col_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    col_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    col_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    col_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].col_start = col_start; // Local start index;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 5f24b9a..215129b 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -262,9 +262,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -309,8 +309,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    line_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    line_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    line_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    line_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].line_start = line_start; // Local start index;
-- 
2.43.0


From 4fa4cd6099e6d61ded335d0303f400fd8e16c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 22/60] fix: copy_p and add_p accept ranges that start before
 the destination or end before they start

---
 extra_src/mex_copy_p.cc | 14 ++++++++++----
 extra_src/oct_add_p.cc  | 18 ++++++++++++++----
 extra_src/oct_copy_p.cc | 18 ++++++++++++++----
 3 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index bee4801..902edf4 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -169,8 +169,11 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if ( r_M * r_N !=2 )
     mexErrMsgTxt("Argument 2 must be a 2 element vector!");
 
-  if ( (size_t) r[1] < 1)
-    mexErrMsgTxt("1st element of argument 2 must be > 1!");
+  if (r[0] < 1)
+    mexErrMsgTxt("1st element of argument 2 must be >= 1!");
+
+  if (r[1] < r[0])
+    mexErrMsgTxt("2nd element of argument 2 must not be less than the 1st element!");
 
   if (( (size_t) r[0] > A_M) || ( (size_t) r[1] > A_M))
     mexErrMsgTxt("One element of argument 2 exceeds row dimension of arg 1!");
@@ -179,8 +182,11 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if ( k_M * k_N !=2 )
     mexErrMsgTxt("Argument 3 must be a 2 element vector!");
 
-  if ( (size_t) k[1] < 1)
-    mexErrMsgTxt("1st element of argument 3 must be > 1!");
+  if (k[0] < 1)
+    mexErrMsgTxt("1st element of argument 3 must be >= 1!");
+
+  if (k[1] < k[0])
+    mexErrMsgTxt("2nd element of argument 3 must not be less than the 1st element!");
 
   if (( (size_t) k[0] > A_N) || ( (size_t) k[1] > A_N))
     mexErrMsgTxt("One element of argument 3 exceeds colomn dimension of arg 1!");
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index f56ffe5..e635fa2 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -211,8 +211,13 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
-    error("1st element of argument 2 must be > 1!");
+  if ( (octave_idx_type) r[0] < 1) {
+    error("1st element of argument 2 must be >= 1!");
+    return oct_retval;
+  }
+
+  if ( (octave_idx_type) r[1] < (octave_idx_type) r[0]) {
+    error("2nd element of argument 2 must not be less than the 1st element!");
     return oct_retval;
   }
 
@@ -227,8 +232,13 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
-    error("1st element of argument 3 must be > 1!");
+  if ( (octave_idx_type) k[0] < 1) {
+    error("1st element of argument 3 must be >= 1!");
+    return oct_retval;
+  }
+
+  if ( (octave_idx_type) k[1] < (octave_idx_type) k[0]) {
+    error("2nd element of argument 3 must not be less than the 1st element!");
     return oct_retval;
   }
 
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 215129b..0a91771 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -209,8 +209,13 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
-    error("1st element of argument 2 must be > 1!");
+  if ( (octave_idx_type) r[0] < 1) {
+    error("1st element of argument 2 must be >= 1!");
+    return oct_retval;
+  }
+
+  if ( (octave_idx_type) r[1] < (octave_idx_type) r[0]) {
+    error("2nd element of argument 2 must not be less than the 1st element!");
     return oct_retval;
   }
 
@@ -225,8 +230,13 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
-    error("1st element of argument 3 must be > 1!");
+  if ( (octave_idx_type) k[0] < 1) {
+    error("1st element of argument 3 must be >= 1!");
+    return oct_retval;
+  }
+
+  if ( (octave_idx_type) k[1] < (octave_idx_type) k[0]) {
+    error("2nd element of argument 3 must not be less than the 1st element!");
     return oct_retval;
   }
 
-- 
2.43.0


From 26258149d4bf4bb1dc375a7116be2354bb7d9445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 23/60] fix: fftconv_ola with a vector as second argument reads
 the wrong columns of the first

---
 extra_src/mex_fftconv_ola.cc | 2 --
 extra_src/oct_fftconv_ola.cc | 2 --
 2 files changed, 4 deletions(-)

diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 7e0a712..d85f3ae 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -250,8 +250,6 @@ void* smp_dream_fftconv_ola(void *arg)
         break;
       }
 
-      Ap += A_M;
-
     } // for
   } // if
 
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 796678f..e2e2876 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -250,8 +250,6 @@ void* smp_dream_fftconv_ola(void *arg)
         break;
       }
 
-      Ap += A_M;
-
     } // for
   } // if
 
-- 
2.43.0


From 91d6d06494418606cfa2e6562b12116412a11eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 24/60] fix: fftconv_ola hangs when the block length is zero

---
 extra_src/mex_fftconv_ola.cc | 2 +-
 extra_src/oct_fftconv_ola.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index d85f3ae..25a743d 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -350,7 +350,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   }
   block_len = (dream_idx_type) mxGetPr(prhs[2])[0]; // Get scalar
 
-  if (block_len < 0 || block_len > A_M) {
+  if (block_len < 1 || block_len > A_M) {
     dream_err_msg("Argument 3 is out of bounds! Must be > 0 and less than number of rows of arg 1!");
   }
 
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index e2e2876..aa0787c 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -412,7 +412,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (block_len < 0 || block_len > A_M) {
+  if (block_len < 1 || block_len > A_M) {
     error("Argument 3 is out of bounds! Must be > 0 and less than number of rows of arg 1!");
     return oct_retval;
   }
-- 
2.43.0


From 0f29412c85a19129624b7796cc4c18c96bc7c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 25/60] fix: fftconv_ola in-place modes add to uninitialised
 block results and '=' never clears the output

---
 extra_src/mex_fftconv_ola.cc | 27 +++++++++++++++++++--------
 extra_src/oct_fftconv_ola.cc | 27 +++++++++++++++++++--------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 25a743d..0d11cb0 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -92,6 +92,9 @@ void* smp_dream_fftconv_ola(void *arg)
   ConvMode conv_mode = D.conv_mode;
   dream_idx_type fft_len = block_len + B_M - 1;
 
+  // The blocks overlap so Y must always be accumulated.
+  double sign = (conv_mode == ConvMode::neg) ? -1.0 : 1.0;
+
   // Input vectors.
   FFTVec a_v(fft_len);
   FFTVec b_v(fft_len);
@@ -122,6 +125,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -137,7 +144,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -155,7 +162,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
         }
 
         Ap += len;
@@ -166,11 +173,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
         if (k+fft_len <  A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         }
 
@@ -194,6 +201,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -206,7 +217,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -224,7 +235,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
         }
 
@@ -233,11 +244,11 @@ void* smp_dream_fftconv_ola(void *arg)
         // Add the overlap.
         if (k+fft_len < A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         }
 
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index aa0787c..6cc6365 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -92,6 +92,9 @@ void* smp_dream_fftconv_ola(void *arg)
   ConvMode conv_mode = D.conv_mode;
   dream_idx_type fft_len = block_len + B_M - 1;
 
+  // The blocks overlap so Y must always be accumulated.
+  double sign = (conv_mode == ConvMode::neg) ? -1.0 : 1.0;
+
   // Input vectors.
   FFTVec a_v(fft_len);
   FFTVec b_v(fft_len);
@@ -122,6 +125,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -137,7 +144,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -155,7 +162,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
         }
 
         Ap += len;
@@ -166,11 +173,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
         if (k+fft_len <  A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         }
 
@@ -194,6 +201,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -206,7 +217,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -224,7 +235,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
         }
 
@@ -233,11 +244,11 @@ void* smp_dream_fftconv_ola(void *arg)
         // Add the overlap.
         if (k+fft_len < A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         }
 
-- 
2.43.0


From 3ef8db7b355340d25c1c3c1678dc9606ba27a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 26/60] fix: fftconv_p and fftconv_ola ignore the in-place mode
 when wisdom is given too

---
 extra_src/oct_fftconv_ola.cc | 20 ++++++++++++++++++++
 extra_src/oct_fftconv_p.cc   | 20 ++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 6cc6365..99f60f5 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -514,6 +514,26 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     break;
 
   case 6: // In-place mode if 6 input args.
+    if ( args(4).is_string() ) { // 5th arg is a string ('=','+=', or '-=').
+
+      std::string ip_mode = args(4).string_value();
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+      } else if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+      } else if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+      } else {
+        error("Non-valid string in arg 5!");
+        return oct_retval;
+      }
+
+    } else { // 5th arg not a string
+      error("Argument 5 is not a valid string format!");
+      return oct_retval;
+    }
+
     if ( args(5).is_string() ) { // 6:th arg is a string (fftw wisdom).
 
       // Read the wisdom string.
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index dd525bf..df2fcd6 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -391,6 +391,26 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     break;
 
   case 5: // In-place mode if input 5 args.
+    if ( args(3).is_string() ) { // 4th arg is a string ('=','+=', or '-=').
+
+      std::string ip_mode = args(3).string_value();
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+      } else if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+      } else if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+      } else {
+        error("Non-valid string in arg 4!");
+        return oct_retval;
+      }
+
+    } else { // 4th arg not a string
+      error("Argument 4 is not a valid string format!");
+      return oct_retval;
+    }
+
     if ( args(4).is_string() ) { // 5:th arg is a string (FFTW wisdom).
 
       // Read the wisdom string.
-- 
2.43.0


From c6904d78de4554125b76e17b22ed6d56849763ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 27/60] fix: sum_fftconv reads outside U when the input signals
 have a single sample

---
 extra_src/mex_sum_fftconv.cc | 5 -----
 extra_src/oct_sum_fftconv.cc | 5 -----
 2 files changed, 10 deletions(-)

diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index 8280b76..736dcac 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -228,11 +228,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("3rd dimension of arg 1 must match the number of columns in arg 2\n");
   }
 
-  if (U_M == 1 || U_N == 1 ) { // U is a vector.
-    U_M = U_M*U_N;
-    U_N = 1;
-  }
-
   fft_len = H_M+U_M-1;
 
   // NB We call the FFTW planners only from the main thread once
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index c158383..04823ea 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -333,11 +333,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (U_M == 1 || U_N == 1 ) { // U is a vector.
-    U_M = U_M*U_N;
-    U_N = 1;
-  }
-
   fft_len = H_M+U_M-1;
 
   // NB We call the FFTW planners only from the main thread once
-- 
2.43.0


From dc6fa8955e914734b5402dfecda77b2f0016d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 28/60] fix: in-place sum_fftconv adds to the output matrix
 instead of storing the result

---
 extra_src/oct_sum_fftconv.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 04823ea..6c973b8 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -468,8 +468,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   if ( (nrhs == 3 && !load_wisdom) || nrhs == 4 ) {
 
-    conv_mode = ConvMode::sum;
-
     if (args(2).matrix_value().rows() != fft_len) {
       dream_err_msg("Wrong number of rows in argument 3!");
       return oct_retval;
-- 
2.43.0


From 340b2a91eb5003935092f12bbae7dd6bb3f0b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 29/60] fix: any string is taken for FFTW wisdom, and exported
 wisdom strings leak

---
 include/fft.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fft.h b/include/fft.h
index 6d99259..fc05c2e 100644
--- a/include/fft.h
+++ b/include/fft.h
@@ -25,6 +25,7 @@
 
 #include <complex> // Must be included before fftw3.h
 #include <mutex>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 
@@ -173,11 +174,12 @@ class FFT
   bool import_wisdom(char *str) {return fftw_import_wisdom_from_string(str);}
   bool import_wisdom(std::string str) {return fftw_import_wisdom_from_string(str.c_str());}
   void forget_wisdom() {fftw_forget_wisdom();}
-  bool is_wisdom(char *str) {return std::strcmp("fftw_wisdom",str);}
-  bool is_wisdom(std::string str) {return std::strcmp("fftw_wisdom",str.c_str());}
+  bool is_wisdom(char *str) {return std::strstr(str,"fftw_wisdom") != nullptr;}
+  bool is_wisdom(std::string str) {return str.find("fftw_wisdom") != std::string::npos;}
   std::string get_wisdom() {
     char *str = fftw_export_wisdom_to_string();
     std::string w_str(str);
+    free(str);
     return w_str;
   }
 
-- 
2.43.0


From d54b47db03db2af0703fe042ebfcb066e92840aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 30/60] fix: rejected convolution calls leave the signal
 handlers installed

---
 extra_src/oct_conv_p.cc      | 32 ++++++++++++++++----------------
 extra_src/oct_fftconv_ola.cc | 32 ++++++++++++++++----------------
 extra_src/oct_fftconv_p.cc   | 32 ++++++++++++++++----------------
 extra_src/oct_sum_fftconv.cc | 32 ++++++++++++++++----------------
 4 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 1cbcfc4..5656e34 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -277,22 +277,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   if (nrhs == 2) { // Test for in-place/normal mode.
 
     //
@@ -331,6 +315,22 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   running = true;
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   // Allocate local data.
   D = (DATA*) malloc(nthreads*sizeof(DATA));
   if (!D) {
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 99f60f5..92ba51a 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -586,22 +586,6 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   // ********************************************
   //
   // Init the FFTW plans.
@@ -668,6 +652,22 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 
   running = true;
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   for (dream_idx_type thread_n=0; thread_n<nthreads; thread_n++) {
 
     dream_idx_type col_start = thread_n * A_N/nthreads;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index df2fcd6..7b025da 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -459,22 +459,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   //
   // Init the FFTW plans.
   //
@@ -527,6 +511,22 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   running = true;
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   // Allocate local data.
   D = (DATA*) malloc(nthreads*sizeof(DATA));
   if (!D) {
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 6c973b8..2f1ec85 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -419,22 +419,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   //
   // Init the FFTW plans.
   //
@@ -488,6 +472,22 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   running = true;
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   // Allocate local data.
   D = (DATA*) malloc(nthreads*sizeof(DATA));
   if (!D) {
-- 
2.43.0


From f1869095db153402e541a386085fb3e8e259c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 31/60] fix: conv_p accepts a mode argument that is not a
 string

---
 extra_src/oct_conv_p.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 5656e34..76b0918 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -223,6 +223,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
         dream_err_msg("Non-valid string in arg 4!");
         return oct_retval;
       }
+    } else { // 4th arg not a string
+      dream_err_msg("Argument 4 is not a valid string format!");
+      return oct_retval;
     }
     break;
 
-- 
2.43.0


From 9ac194ca7512b8dcd9ea630767727d32b621c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 32/60] fix: convolution functions crash on empty arguments

---
 extra_src/oct_conv_p.cc      | 5 +++++
 extra_src/oct_fftconv_ola.cc | 5 +++++
 extra_src/oct_fftconv_p.cc   | 5 +++++
 extra_src/oct_sum_fftconv.cc | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 76b0918..054fd0b 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -245,6 +245,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   B_N = tmp1.cols();
   B = (double*) tmp1.data();
 
+  if (A_M < 1 || A_N < 1 || B_M < 1 || B_N < 1) {
+    dream_err_msg("Argument 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
   // Check that arg 2 has the correct dim (matrix or vector allowed).
   if ( B_M != 1 && B_N !=1 && B_N != A_N) {
     dream_err_msg("Argument 2 must be a vector or a matrix with the same number of columns as arg 1!");
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 92ba51a..439f5fc 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -402,6 +402,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   dream_idx_type B_N = tmp1.cols();
   double *B = (double*) tmp1.data();
 
+  if (A_M < 1 || A_N < 1 || B_M < 1 || B_N < 1) {
+    error("Argument 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
   // Check dims of arg 2.
   if ( B_M != 1 && B_N !=1 && B_N != A_N) {
     error("Argument 2 must be a vector or a matrix with the same number of rows as arg 1!");
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 7b025da..32f4099 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -295,6 +295,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   B_N = tmp1.cols();
   B = (double*) tmp1.data();
 
+  if (A_M < 1 || A_N < 1 || B_M < 1 || B_N < 1) {
+    error("Argument 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
   // Check that arg 2 has the correct dim (matrix or vector allowed).
   if ( B_M != 1 && B_N !=1 && B_N != A_N) {
     error("Argument 2 must be a vector or a matrix with the same number of columns as arg 1!");
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 2f1ec85..83e553b 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -333,6 +333,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (H_M < 1 || H_N < 1 || H_L < 1 || U_M < 1) {
+    dream_err_msg("Argument 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
   fft_len = H_M+U_M-1;
 
   // NB We call the FFTW planners only from the main thread once
-- 
2.43.0


From 3b7e6927dccecce3dc2e4324cd29059eaf4f0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 33/60] fix: Python fftconv_p crashes on empty arguments and
 accepts arrays with more than two dimensions

---
 python/include/py_fftconv_p.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/include/py_fftconv_p.hpp b/python/include/py_fftconv_p.hpp
index 7fe3cce..508fab0 100644
--- a/python/include/py_fftconv_p.hpp
+++ b/python/include/py_fftconv_p.hpp
@@ -58,6 +58,14 @@ py::array_t<T,py::array::f_style> py_fftconv_p(py::array_t<T,py::array::f_style>
   }
   T *B = static_cast<T*>(ap.get_data(py_B));
 
+  if (A_ndim > 2 || B_ndim > 2) {
+    throw std::runtime_error("Argument 1 and 2 must be vectors or matrices!");
+  }
+
+  if (A_M < 1 || A_N < 1 || B_M < 1 || B_N < 1) {
+    throw std::runtime_error("Argument 1 and 2 must not be empty!");
+  }
+
   // Check that arg 2 has the correct dim (matrix or vector allowed).
   if ( B_M != 1 && B_N !=1 && B_N != A_N) {
     throw std::runtime_error("Argument 2 must be a vector or a matrix with the same number of columns as arg 1!");
-- 
2.43.0


From 4187900e6a7b7761f325c91761a77c16491ce349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 34/60] fix: transducer response and das functions leave their
 signal handlers installed

---
 extra_src/oct_das.cc              | 16 ++++++++++++++--
 extra_src/oct_rect_sir.cc         |  8 +++++++-
 oct/oct_dream_arr_circ.cc         |  5 ++++-
 oct/oct_dream_arr_cylind.cc       |  5 ++++-
 oct/oct_dream_arr_rect.cc         |  5 ++++-
 oct/oct_dreamcirc.cc              |  8 +++++++-
 oct/oct_dreamcirc_f.cc            |  5 ++++-
 oct/oct_dreamcylind.cc            |  5 ++++-
 oct/oct_dreamline.cc              |  5 ++++-
 oct/oct_dreamrect.cc              |  8 +++++++-
 oct/oct_dreamrect_f.cc            |  5 ++++-
 oct/oct_dreamsphere.cc            |  5 ++++-
 python/include/py_das.hpp         |  9 ++++++++-
 python/src/py_dream_arr_annu.cc   |  5 ++++-
 python/src/py_dream_arr_circ.cc   |  5 ++++-
 python/src/py_dream_arr_cylind.cc |  5 ++++-
 python/src/py_dream_arr_rect.cc   |  5 ++++-
 python/src/py_dreamcirc.cc        |  5 ++++-
 python/src/py_dreamcirc_f.cc      |  5 ++++-
 python/src/py_dreamcylind.cc      |  5 ++++-
 python/src/py_dreamline.cc        |  5 ++++-
 python/src/py_dreamrect.cc        |  5 ++++-
 python/src/py_dreamrect_f.cc      |  5 ++++-
 python/src/py_dreamsphere.cc      |  5 ++++-
 24 files changed, 119 insertions(+), 25 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index dd4bcc6..248abdf 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -445,6 +445,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   double *Im_d = nullptr;
 
   bool init_das = true;
+  void (*old_handler)(int) = SIG_DFL;
 
   // We use this to make the GPU init code run
   bool use_gpu = false;
@@ -489,7 +490,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     das_f->set_running();
 
     // Register signal handler.
-    std::signal(SIGABRT, DAS<float>::abort);
+    old_handler = std::signal(SIGABRT, DAS<float>::abort);
 
   } else {
 
@@ -526,7 +527,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     das_d->set_running();
 
     // Register signal handler.
-    std::signal(SIGABRT, DAS<double>::abort);
+    old_handler = std::signal(SIGABRT, DAS<double>::abort);
   }
 
   SIRError err = SIRError::none;
@@ -542,6 +543,9 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
     }
 
+    // Restore old signal handler.
+    std::signal(SIGABRT, old_handler);
+
   } else { // Otherwise use the cpu
 
 #endif
@@ -554,6 +558,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     if (use_float) { // Single precision
 
       err = das_f->das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_type, delay_f, cp_f, Im_f, err_level);
+
+      // Restore old signal handler.
+      std::signal(SIGABRT, old_handler);
+
       if (!das_f->is_running()) {
         if (err == SIRError::out_of_bounds) {
           error("DAS out-of-bounds!\n"); // Bail out.
@@ -567,6 +575,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     } else { // Double precision
 
       err = das_d->das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_type, delay_d, cp_d, Im_d, err_level);
+
+      // Restore old signal handler.
+      std::signal(SIGABRT, old_handler);
+
       if (!das_d->is_running()) {
         if (err == SIRError::out_of_bounds) {
           error("DAS out-of-bounds!\n"); // Bail out.
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 69ce2b6..e393027 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -224,7 +224,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   RectSir rect_sir;
 
   // Register signal handler.
-  std::signal(SIGABRT, RectSir::abort);
+  auto old_handler = std::signal(SIGABRT, RectSir::abort);
 
   //
   // Call the rect_sir subroutine.
@@ -236,6 +236,9 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   if (device == "gpu") {
     rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay[0], v, cp, h);
 
+    // Restore old signal handler.
+    std::signal(SIGABRT, old_handler);
+
   } else { // Otherwise use the cpu
 #endif
 
@@ -246,6 +249,9 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
                                        v, cp,
                                        h);
 
+    // Restore old signal handler.
+    std::signal(SIGABRT, old_handler);
+
     if (!rect_sir.is_running()) {
       dream_err_msg("CTRL-C pressed!\n"); // Bail out.
     }
diff --git a/oct/oct_dream_arr_circ.cc b/oct/oct_dream_arr_circ.cc
index 453128e..d77fa62 100644
--- a/oct/oct_dream_arr_circ.cc
+++ b/oct/oct_dream_arr_circ.cc
@@ -334,7 +334,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   ArrCirc arr_circ;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  auto old_handler = std::signal(SIGINT, ArrCirc::abort);
 
   //
   // Call the DREAM subroutine.
@@ -352,6 +352,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_circ.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dream_arr_cylind.cc b/oct/oct_dream_arr_cylind.cc
index dc47b8f..0a964ad 100644
--- a/oct/oct_dream_arr_cylind.cc
+++ b/oct/oct_dream_arr_cylind.cc
@@ -338,7 +338,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   ArrCylind arr_cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  auto old_handler = std::signal(SIGINT, ArrCylind::abort);
 
   //
   // Call the DREAM subroutine.
@@ -356,6 +356,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                              apod.get(), do_apod, apod_met, apod_par,
                                              h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_cylind.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dream_arr_rect.cc b/oct/oct_dream_arr_rect.cc
index 6df3e5f..6ec43f3 100644
--- a/oct/oct_dream_arr_rect.cc
+++ b/oct/oct_dream_arr_rect.cc
@@ -336,7 +336,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   ArrRect arr_rect;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  auto old_handler = std::signal(SIGINT, ArrRect::abort);
 
   //
   // Call the DREAM subroutine.
@@ -354,6 +354,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                 apod.get(), do_apod, apod_met, apod_par,
                                 h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_rect.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 4e5d165..54e5a24 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -221,7 +221,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Circ circ;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  auto old_handler = std::signal(SIGINT, Circ::abort);
 
   //
   // Call the DREAM subroutine.
@@ -236,6 +236,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
     circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay[0], v, cp, h);
 
+    // Restore old signal handler.
+    std::signal(SIGINT, old_handler);
+
   } else { // Otherwise use the cpu
 #endif
 
@@ -247,6 +250,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                          v,  cp,
                          h, err_level);
 
+    // Restore old signal handler.
+    std::signal(SIGINT, old_handler);
+
     if (!circ.is_running()) {
       if (err == SIRError::out_of_bounds) {
         error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamcirc_f.cc b/oct/oct_dreamcirc_f.cc
index 21774ac..6e116de 100644
--- a/oct/oct_dreamcirc_f.cc
+++ b/oct/oct_dreamcirc_f.cc
@@ -227,7 +227,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Circ_f circ_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  auto old_handler = std::signal(SIGINT, Circ_f::abort);
 
   //
   // Call the DREAM subroutine.
@@ -242,6 +242,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                     v, cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!circ_f.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamcylind.cc b/oct/oct_dreamcylind.cc
index 1bf8104..15d93a7 100644
--- a/oct/oct_dreamcylind.cc
+++ b/oct/oct_dreamcylind.cc
@@ -213,7 +213,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   Cylind cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  auto old_handler = std::signal(SIGINT, Cylind::abort);
 
   //
   // Call the DREAM subroutine.
@@ -227,6 +227,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
                                     v,  cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!cylind.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamline.cc b/oct/oct_dreamline.cc
index 1e46c26..1f0e518 100644
--- a/oct/oct_dreamline.cc
+++ b/oct/oct_dreamline.cc
@@ -192,7 +192,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Line line;
 
   // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  auto old_handler = std::signal(SIGINT, Line::abort);
 
   //
   // Call the DREAM subroutine.
@@ -206,6 +206,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                 v,cp,
                                 h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!line.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index a5851f8..8f99e6b 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -224,7 +224,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Rect rect;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  auto old_handler = std::signal(SIGINT, Rect::abort);
 
   //
   // Call the DREAM subroutine.
@@ -238,6 +238,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   if (device == "gpu") {
     rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay[0], v, cp, h);
 
+    // Restore old signal handler.
+    std::signal(SIGINT, old_handler);
+
   } else { // Otherwise use the cpu
 #endif
 
@@ -249,6 +252,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                          v, cp,
                          h, err_level);
 
+    // Restore old signal handler.
+    std::signal(SIGINT, old_handler);
+
     if (!rect.is_running()) {
       if (err == SIRError::out_of_bounds) {
         error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamrect_f.cc b/oct/oct_dreamrect_f.cc
index 3161f94..238edbc 100644
--- a/oct/oct_dreamrect_f.cc
+++ b/oct/oct_dreamrect_f.cc
@@ -230,7 +230,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Rect_f rect_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  auto old_handler = std::signal(SIGINT, Rect_f::abort);
 
   //
   // Call the DREAM subroutine.
@@ -245,6 +245,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                     v, cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!rect_f.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamsphere.cc b/oct/oct_dreamsphere.cc
index cf8d5fc..4b8ff03 100644
--- a/oct/oct_dreamsphere.cc
+++ b/oct/oct_dreamsphere.cc
@@ -205,7 +205,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   Sphere sphere;
 
   // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  auto old_handler = std::signal(SIGINT, Sphere::abort);
 
   //
   // Call the DREAM subroutine.
@@ -219,6 +219,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
                                     v,cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!sphere.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 72eed68..7109bc0 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -217,7 +217,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   das->set_running();
 
   // Register signal handler.
-  std::signal(SIGABRT, DAS<T>::abort);
+  auto old_handler = std::signal(SIGABRT, DAS<T>::abort);
 
 #ifdef USE_OPENCL
 
@@ -226,6 +226,9 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
 
     das->cl_das(Y, Ro, Gt, Gr, dt, delay[0], cp, Im);
 
+    // Restore old signal handler.
+    std::signal(SIGABRT, old_handler);
+
   } else { // Otherwise use the cpu
 
 #endif
@@ -236,6 +239,10 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
     }
 
     err = das->das(Y, Ro, Gt, Gr, dt, delay_type, delay, cp, Im, err_level);
+
+    // Restore old signal handler.
+    std::signal(SIGABRT, old_handler);
+
     if (!das->is_running()) {
       if (err == SIRError::out_of_bounds) {
         throw std::runtime_error("DAS out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 97f26f6..4b7363e 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -163,7 +163,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrAnnu::abort);
+  auto old_handler = std::signal(SIGINT, ArrAnnu::abort);
 
   //
   // Call DREAM function
@@ -181,6 +181,9 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
                                         apod.get(), do_apod, apod_met, apod_par,
                                         h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_annu.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index 30202f9..5cfd3d0 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -187,7 +187,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  auto old_handler = std::signal(SIGINT, ArrCirc::abort);
 
   //
   // Call DREAM function
@@ -207,6 +207,9 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_circ.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 74799fa..f90766b 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -187,7 +187,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  auto old_handler = std::signal(SIGINT, ArrCylind::abort);
 
   //
   // Call DREAM function
@@ -207,6 +207,9 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
                                              apod.get(), do_apod, apod_met, apod_par,
                                              h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_cylind.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 9d63236..2f10099 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -187,7 +187,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  auto old_handler = std::signal(SIGINT, ArrRect::abort);
 
   //
   // Call DREAM function
@@ -207,6 +207,9 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_rect.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index 65f8936..d7bd149 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -125,7 +125,7 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  auto old_handler = std::signal(SIGINT, Circ::abort);
 
   //
   // Call DREAM function
@@ -141,6 +141,9 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
                        v, cp,
                        h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!circ.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index bb428ce..6a38d98 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -140,7 +140,7 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
   Circ_f circ_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  auto old_handler = std::signal(SIGINT, Circ_f::abort);
 
   //
   // Call DREAM function
@@ -155,6 +155,9 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
                                     v, cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!circ_f.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index fd93f8e..8dd705e 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -125,7 +125,7 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  auto old_handler = std::signal(SIGINT, Cylind::abort);
 
   //
   // Call DREAM function
@@ -141,6 +141,9 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
                                     v, cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!cylind.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index 937cd49..bb64aee 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -127,7 +127,7 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
   Line line;
 
   // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  auto old_handler = std::signal(SIGINT, Line::abort);
 
   //
   // Call DREAM function
@@ -141,6 +141,9 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
                        v, cp,
                        h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!line.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index fc125e6..12cb10a 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -127,7 +127,7 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
   Rect rect;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  auto old_handler = std::signal(SIGINT, Rect::abort);
 
   //
   // Call DREAM function
@@ -141,6 +141,9 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
                        v, cp,
                        h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!rect.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index 9311f5d..37a8a38 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -140,7 +140,7 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
   Rect_f rect_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  auto old_handler = std::signal(SIGINT, Rect_f::abort);
 
   //
   // Call DREAM function
@@ -155,6 +155,9 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
                                     v, cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!rect_f.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index 547622f..e307bee 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -125,7 +125,7 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  auto old_handler = std::signal(SIGINT, Sphere::abort);
 
   //
   // Call DREAM function
@@ -141,6 +141,9 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
                                     v, cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!sphere.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
-- 
2.43.0


From decbc621443942232bff2163784df19bb0002c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 35/60] fix: dream_apodwin returns uninitialised memory for
 'off', reads the length of a 'ud' window from its first weight, and crashes
 on an empty length

---
 oct/oct_dream_apodwin.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/oct/oct_dream_apodwin.cc b/oct/oct_dream_apodwin.cc
index af6a2aa..70efb06 100644
--- a/oct/oct_dream_apodwin.cc
+++ b/oct/oct_dream_apodwin.cc
@@ -108,7 +108,16 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   //
 
   const Matrix tmp1 = args(1).matrix_value();
-  dream_idx_type num_elements = (dream_idx_type) tmp1.data()[0];
+  dream_idx_type num_elements = 0;
+  if (args(0).is_string() && args(0).string_value() == "ud") {
+    num_elements = tmp1.numel(); // A vector of apodization weights.
+  } else {
+    if (tmp1.numel() != 1 || !(tmp1.data()[0] >= 1.0)) {
+      error("Argument 2 must be the length of the apodization window (a positive scalar)!");
+      return oct_retval;
+    }
+    num_elements = (dream_idx_type) tmp1.data()[0];
+  }
 
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
@@ -126,12 +135,12 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   double weight = 1.0;
   double ramax = 1.0;
   double ys = 0.0;
-  if (do_apod) {
-    for (dream_idx_type n=0; n<num_elements; n++) {
-      double xs = 2*ramax * (0.5 - ((double) n / (double) num_elements));
+  for (dream_idx_type n=0; n<num_elements; n++) {
+    double xs = 2*ramax * (0.5 - ((double) n / (double) num_elements));
+    if (do_apod) {
       apodization(apod_met, n, apod.get(), &weight, xs, ys, ramax, apod_par);
-      h[n] = weight;
     }
+    h[n] = weight;
   }
 
   oct_retval.append(h_mat);
-- 
2.43.0


From 977ee63b7a3114cb6901b3af8906a0c5534d7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 36/60] fix: Octave convolution functions write to a freed
 output when it is 1x1 or a converted argument, and return partial results
 when interrupted

The output matrix went out of scope before the threads ran. That only worked
as long as the return value (or the in-place argument) shared its storage, which
a scalar, or an argument that has to be converted, does not.  The result is now
also returned only when the computation was not interrupted.
---
 extra_src/oct_conv_p.cc      | 15 ++++++++++-----
 extra_src/oct_fftconv_ola.cc | 15 ++++++++++-----
 extra_src/oct_fftconv_p.cc   | 13 +++++++++----
 extra_src/oct_sum_fftconv.cc | 15 ++++++++++-----
 4 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 054fd0b..be03a98 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -285,17 +285,18 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
+  // The output must stay in scope until all the threads are done.
+  Matrix Ymat;
+
   if (nrhs == 2) { // Test for in-place/normal mode.
 
     //
     // Normal (non in-place) mode.
     //
 
-    Matrix Ymat(A_M+B_M-1, A_N);
+    Ymat = Matrix(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
-    oct_retval.append(Ymat);
-
   } else {
 
     //
@@ -312,9 +313,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ytmp = args(2).matrix_value();
+    Ymat = args(2).matrix_value();
 
-    Y = (double*) Ytmp.data();
+    Y = (double*) Ymat.data();
   }
 
   //
@@ -412,5 +413,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (nrhs == 2) { // Normal mode.
+    oct_retval.append(Ymat);
+  }
+
   return oct_retval;
 }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 439f5fc..9b8cec5 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -605,6 +605,9 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     }
   }
 
+  // The output must stay in scope until all the threads are done.
+  Matrix Ymat;
+
   //
   // Normal (non in-place) mode.
   //
@@ -612,13 +615,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   if (nrhs == 3 || (nrhs == 4 && load_wisdom)) { // Normal mode.
 
     // Allocate mamory for the output matrix.
-    Matrix Ymat(A_M+B_M-1, A_N);
+    Ymat = Matrix(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
     SIRData ymat(Y, A_M+B_M-1, A_N);
     ymat.clear();
-
-    oct_retval.append(Ymat);
   }
 
   //
@@ -637,8 +638,8 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ytmp = args(3).matrix_value();
-    Y = (double*) Ytmp.data();
+    Ymat = args(3).matrix_value();
+    Y = (double*) Ymat.data();
   }
 
   // Init thread data.
@@ -736,6 +737,10 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (nrhs == 3 || (nrhs == 4 && load_wisdom)) { // Normal mode.
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 32f4099..f8feec6 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -475,19 +475,20 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
+  // The output must stay in scope until all the threads are done.
+  Matrix Ymat;
+
   //
   // Normal (non in-place) mode.
   //
 
   if (nrhs == 2 || (nrhs == 3 && load_wisdom)) { // Normal mode.
 
-    Matrix Ymat(A_M+B_M-1, A_N);
+    Ymat = Matrix(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
     SIRData ymat(Y, A_M+B_M-1, A_N);
     ymat.clear();
-
-    oct_retval.append(Ymat);
   }
 
   //
@@ -506,7 +507,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ymat = args(2).matrix_value();
+    Ymat = args(2).matrix_value();
     Y = (double*) Ymat.data(); // NB. Do  not clear data here!
   }
 
@@ -615,6 +616,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (nrhs == 2 || (nrhs == 3 && load_wisdom)) { // Normal mode.
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 83e553b..894f12f 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -435,20 +435,21 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
+  // The output must stay in scope until all the threads are done.
+  Matrix Ymat;
+
   //
   // Normal (non in-place) mode.
   //
 
   if (nrhs == 2 ||  (nrhs == 3 && load_wisdom)) {
 
-    Matrix Ymat(fft_len, H_N);
+    Ymat = Matrix(fft_len, H_N);
     Y = (double*) Ymat.data();
 
     // Clear output in normal mode
     SIRData ymat(Y, fft_len, H_N);
     ymat.clear();
-
-    oct_retval.append(Ymat);
   }
 
   //
@@ -467,8 +468,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ytmp = args(2).matrix_value(); // This will make it stay in scope.
-    Y = (double*) Ytmp.data();
+    Ymat = args(2).matrix_value();
+    Y = (double*) Ymat.data();
   }
 
   //
@@ -571,6 +572,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     free(H);
   }
 
+  if (nrhs == 2 || (nrhs == 3 && load_wisdom)) { // Normal mode.
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
-- 
2.43.0


From 2319017e67ff5e1e134b1171ebee46e8984fc973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 37/60] fix: in-place functions accept output arguments they
 cannot modify and silently drop the result

Scalars, ranges, single precision and other arguments that are not full double
matrices are converted to a temporary matrix.
---
 extra_src/oct_add_p.cc       | 5 +++++
 extra_src/oct_conv_p.cc      | 5 +++++
 extra_src/oct_copy_p.cc      | 5 +++++
 extra_src/oct_fftconv_ola.cc | 5 +++++
 extra_src/oct_fftconv_p.cc   | 5 +++++
 extra_src/oct_sum_fftconv.cc | 5 +++++
 6 files changed, 30 insertions(+)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index e635fa2..fb967bf 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -185,6 +185,11 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (args(0).type_name() != "matrix") {
+    error("Argument 1 must be a (double precision) matrix, since it is modified in place!");
+    return oct_retval;
+  }
+
   const Matrix tmp = args(0).matrix_value();
   A_M = tmp.rows();
   A_N = tmp.cols();
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index be03a98..933b6b0 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -303,6 +303,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     // In-place mode.
     //
 
+    if (args(2).type_name() != "matrix") {
+      error("Argument 3 must be a (double precision) matrix, since it is modified in place!");
+      return oct_retval;
+    }
+
     if (args(2).matrix_value().rows() != A_M+B_M-1) {
       dream_err_msg("Wrong number of rows in argument 3!");
       return oct_retval;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 0a91771..d5375fa 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -183,6 +183,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (args(0).type_name() != "matrix") {
+    error("Argument 1 must be a (double precision) matrix, since it is modified in place!");
+    return oct_retval;
+  }
+
   const Matrix tmp = args(0).matrix_value();
   A_M = tmp.rows();
   A_N = tmp.cols();
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 9b8cec5..705e9a6 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -628,6 +628,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 
   if ( (nrhs == 4 && !load_wisdom) || nrhs == 5 || nrhs == 6) {
 
+    if (args(3).type_name() != "matrix") {
+      error("Argument 4 must be a (double precision) matrix, since it is modified in place!");
+      return oct_retval;
+    }
+
     if (args(3).matrix_value().rows() != A_M+B_M-1) {
       error("Wrong number of rows in argument 4!");
       return oct_retval;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index f8feec6..7a658a5 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -497,6 +497,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   if ( (nrhs == 3 && !load_wisdom) || nrhs == 4 || nrhs == 5) {
 
+    if (args(2).type_name() != "matrix") {
+      error("Argument 3 must be a (double precision) matrix, since it is modified in place!");
+      return oct_retval;
+    }
+
     if (  args(2).matrix_value().rows() != A_M+B_M-1) {
       error("Wrong number of rows in argument 3!");
       return oct_retval;
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 894f12f..bc74343 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -458,6 +458,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   if ( (nrhs == 3 && !load_wisdom) || nrhs == 4 ) {
 
+    if (args(2).type_name() != "matrix") {
+      error("Argument 3 must be a (double precision) matrix, since it is modified in place!");
+      return oct_retval;
+    }
+
     if (args(2).matrix_value().rows() != fft_len) {
       dream_err_msg("Wrong number of rows in argument 3!");
       return oct_retval;
-- 
2.43.0


From 695ed524c731e8dd78fd8fd536f2825390b15b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 38/60] fix: Octave circ_sir and scirc_sir return a partial
 result when interrupted

The other functions report the interruption and leave the result out.
---
 extra_src/oct_circ_sir.cc  | 1 +
 extra_src/oct_scirc_sir.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 5d39561..7e3e7c5 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -422,6 +422,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    return oct_retval;
   }
 
   oct_retval.append(h_mat);
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index aa4c9a8..209cfd5 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -447,6 +447,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    return oct_retval;
   }
 
   oct_retval.append(h_mat);
-- 
2.43.0


From 8d6e23b6b3bfa49a26767e9d3a1e38378141071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 39/60] fix: OpenCL kernels were not run when the number of
 points is not a multiple of 64

---
 opencl/cl_das.cc       | 3 ++-
 opencl/cl_das_uni.cc   | 3 ++-
 opencl/cl_dreamcirc.cc | 6 ++++--
 opencl/cl_dreamrect.cc | 6 ++++--
 opencl/cl_rect_sir.cc  | 6 ++++--
 5 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/opencl/cl_das.cc b/opencl/cl_das.cc
index b9d0197..ce89a2f 100644
--- a/opencl/cl_das.cc
+++ b/opencl/cl_das.cc
@@ -132,7 +132,8 @@ int DAS<T>::cl_das(const T *Y, // Data
   //
 
   cl::NDRange global(m_No);
-  cl::NDRange local(64); // Works on both Nvidia and AMD GPUs.
+  // 64 works on both Nvidia and AMD GPUs, but m_No must be dividable by it.
+  cl::NDRange local = (m_No % 64 == 0) ? cl::NDRange(64) : cl::NullRange;
   try {
     m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, local);
   }
diff --git a/opencl/cl_das_uni.cc b/opencl/cl_das_uni.cc
index 1074874..8c8a317 100644
--- a/opencl/cl_das_uni.cc
+++ b/opencl/cl_das_uni.cc
@@ -159,7 +159,8 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
   //
 
   cl::NDRange global(m_No);
-  cl::NDRange local(64); // Works on both Nvidia and AMD GPUs.
+  // 64 works on both Nvidia and AMD GPUs, but m_No must be dividable by it.
+  cl::NDRange local = (m_No % 64 == 0) ? cl::NDRange(64) : cl::NullRange;
   try {
     m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, local);
   }
diff --git a/opencl/cl_dreamcirc.cc b/opencl/cl_dreamcirc.cc
index f656dad..fc04a07 100644
--- a/opencl/cl_dreamcirc.cc
+++ b/opencl/cl_dreamcirc.cc
@@ -203,8 +203,10 @@ int Circ::cl_dreamcirc(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  size_t local_item_size = 64;
+  // No must be dividable by the work group size, if it is not then let OpenCL choose the size.
+  const size_t *local_size = (No % 64 == 0) ? &local_item_size : NULL;
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, local_size, 0, NULL, NULL);
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
diff --git a/opencl/cl_dreamrect.cc b/opencl/cl_dreamrect.cc
index 1fd85a5..199db21 100644
--- a/opencl/cl_dreamrect.cc
+++ b/opencl/cl_dreamrect.cc
@@ -206,8 +206,10 @@ int Rect::cl_dreamrect(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  size_t local_item_size = 64;
+  // No must be dividable by the work group size, if it is not then let OpenCL choose the size.
+  const size_t *local_size = (No % 64 == 0) ? &local_item_size : NULL;
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, local_size, 0, NULL, NULL);
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
diff --git a/opencl/cl_rect_sir.cc b/opencl/cl_rect_sir.cc
index 8d6b0a4..9b07ec1 100644
--- a/opencl/cl_rect_sir.cc
+++ b/opencl/cl_rect_sir.cc
@@ -193,8 +193,10 @@ int RectSir::cl_rect_sir(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  size_t local_item_size = 64;
+  // No must be dividable by the work group size, if it is not then let OpenCL choose the size.
+  const size_t *local_size = (No % 64 == 0) ? &local_item_size : NULL;
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, local_size, 0, NULL, NULL);
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
-- 
2.43.0


From 6be1482ee911ffa5d2c8712152d2a5365f4213d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 40/60] fix: GPU backends ignored delay vectors and attenuation

---
 extra_src/oct_das.cc      | 8 +++++---
 extra_src/oct_rect_sir.cc | 4 ++--
 oct/oct_dreamcirc.cc      | 5 +++--
 oct/oct_dreamrect.cc      | 5 +++--
 python/include/py_das.hpp | 8 +++++---
 5 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 248abdf..19a3a62 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -450,7 +450,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   // We use this to make the GPU init code run
   bool use_gpu = false;
 #ifdef USE_OPENCL
-  if (device == "gpu") {
+  if (device == "gpu" && delay_type == DelayType::single) { // No GPU support for delay vectors.
     use_gpu = true;
   }
 #endif
@@ -535,7 +535,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 #ifdef USE_OPENCL
 
   // Check if we should use the GPU
-  if (device == "gpu") {
+  if (use_gpu) {
 
     if (use_float) { // Single precision
       das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
@@ -548,13 +548,15 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   } else { // Otherwise use the cpu
 
-#endif
+#else
 
     if (device == "gpu") {
       std::cout << "Warning: Compute device set to 'gpu' but DREAM is build without OpenCL support!" << std::endl;
       std::cout << "Using the CPU backend!" << std::endl;
     }
 
+#endif
+
     if (use_float) { // Single precision
 
       err = das_f->das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_type, delay_f, cp_f, Im_f, err_level);
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index e393027..6e83e8f 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -230,10 +230,10 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Call the rect_sir subroutine.
   //
 
-  // Check if we should use the GPU
+  // Check if we should use the GPU (which has no support for delay vectors).
 
 #ifdef USE_OPENCL
-  if (device == "gpu") {
+  if (device == "gpu" && delay_type == DelayType::single) {
     rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay[0], v, cp, h);
 
     // Restore old signal handler.
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 54e5a24..b96bd8b 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <csignal>
+#include <limits>
 
 #include "dreamcirc.h"
 #include "arg_parser.h"
@@ -231,8 +232,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
 
-  // Check if we should use the GPU
-  if (device == "gpu") {
+  // Check if we should use the GPU (which has no support for attenuation and delay vectors).
+  if (device == "gpu" && delay_type == DelayType::single && alpha <= std::numeric_limits<double>::epsilon()) {
 
     circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay[0], v, cp, h);
 
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index 8f99e6b..b158017 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <csignal>
+#include <limits>
 
 #include "dreamrect.h"
 #include "arg_parser.h"
@@ -234,8 +235,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
 
-  // Check if we should use the GPU
-  if (device == "gpu") {
+  // Check if we should use the GPU (which has no support for attenuation and delay vectors).
+  if (device == "gpu" && delay_type == DelayType::single && alpha <= std::numeric_limits<double>::epsilon()) {
     rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay[0], v, cp, h);
 
     // Restore old signal handler.
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 7109bc0..dca2530 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -177,7 +177,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // We use this to make the GPU init code run
   bool use_gpu = false;
 #ifdef USE_OPENCL
-  if (device_str == "gpu") {
+  if (device_str == "gpu" && delay_type == DelayType::single) { // No GPU support for delay vectors.
     use_gpu = true;
   }
 #endif
@@ -222,7 +222,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
 #ifdef USE_OPENCL
 
   // Check if we should use the GPU
-  if (device_str == "gpu") {
+  if (use_gpu) {
 
     das->cl_das(Y, Ro, Gt, Gr, dt, delay[0], cp, Im);
 
@@ -231,13 +231,15 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
 
   } else { // Otherwise use the cpu
 
-#endif
+#else
 
     if (device_str == "gpu") {
       std::cout << "Warning: Compute device set to 'gpu' but DREAM is build without OpenCL support!" << std::endl;
       std::cout << "Using the CPU backend!" << std::endl;
     }
 
+#endif
+
     err = das->das(Y, Ro, Gt, Gr, dt, delay_type, delay, cp, Im, err_level);
 
     // Restore old signal handler.
-- 
2.43.0


From 6100801cd88e859b457ad7b1e7b2240455e9f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 41/60] fix: das_uni could drop the last element or image point
 of a uniform grid

---
 extra_src/mex_das_uni.cc | 12 ++++++------
 extra_src/oct_das_uni.cc | 12 ++++++------
 include/das_uni.h        | 20 ++++++++++----------
 opencl/das_uni_double.cl | 38 +++++++++++++++++++-------------------
 opencl/das_uni_float.cl  | 38 +++++++++++++++++++-------------------
 5 files changed, 60 insertions(+), 60 deletions(-)

diff --git a/extra_src/mex_das_uni.cc b/extra_src/mex_das_uni.cc
index 17ac7e7..7295a63 100644
--- a/extra_src/mex_das_uni.cc
+++ b/extra_src/mex_das_uni.cc
@@ -175,16 +175,16 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     min_Rx_f = ((float*) mxGetData(prhs[3]))[0]; dx_f = ((float*) mxGetData(prhs[3]))[3]; max_Rx_f = ((float*) mxGetData(prhs[3]))[6];
     min_Ry_f = ((float*) mxGetData(prhs[3]))[1]; dy_f = ((float*) mxGetData(prhs[3]))[4]; max_Ry_f = ((float*) mxGetData(prhs[3]))[7];
 min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3]))[5]; max_Rz_f = ((float*) mxGetData(prhs[3]))[8];
-    Nx = (dream_idx_type) ((max_Rx_f - min_Rx_f)/dx_f+1.0);
-    Ny = (dream_idx_type) ((max_Ry_f - min_Ry_f)/dy_f+1.0);
-    Nz = (dream_idx_type) ((max_Rz_f - min_Rz_f)/dz_f+1.0);
+    Nx = (dream_idx_type) ((max_Rx_f - min_Rx_f)/dx_f+1.001);
+    Ny = (dream_idx_type) ((max_Ry_f - min_Ry_f)/dy_f+1.001);
+    Nz = (dream_idx_type) ((max_Rz_f - min_Rz_f)/dz_f+1.001);
   } else {
     min_Rx_d = mxGetPr(prhs[3])[0]; dx_d = mxGetPr(prhs[3])[3]; max_Rx_d = mxGetPr(prhs[3])[6];
     min_Ry_d = mxGetPr(prhs[3])[1]; dy_d = mxGetPr(prhs[3])[4]; max_Ry_d = mxGetPr(prhs[3])[7];
     min_Rz_d = mxGetPr(prhs[3])[2]; dz_d = mxGetPr(prhs[3])[5]; max_Rz_d = mxGetPr(prhs[3])[8];
-    Nx = (dream_idx_type) ((max_Rx_d - min_Rx_d)/dx_d+1.0);
-    Ny = (dream_idx_type) ((max_Ry_d - min_Ry_d)/dy_d+1.0);
-    Nz = (dream_idx_type) ((max_Rz_d - min_Rz_d)/dz_d+1.0);
+    Nx = (dream_idx_type) ((max_Rx_d - min_Rx_d)/dx_d+1.001);
+    Ny = (dream_idx_type) ((max_Ry_d - min_Ry_d)/dy_d+1.001);
+    Nz = (dream_idx_type) ((max_Rz_d - min_Rz_d)/dz_d+1.001);
   }
 
   dream_idx_type No = Nx*Ny*Nz;
diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index f851617..1c17cea 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -277,17 +277,17 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     min_Rx_f=tmp3f.data()[0]; dx_f=tmp3f.data()[3]; max_Rx_f=tmp3f.data()[6];
     min_Ry_f=tmp3f.data()[1]; dy_f=tmp3f.data()[4]; max_Ry_f=tmp3f.data()[7];
     min_Rz_f=tmp3f.data()[2]; dz_f=tmp3f.data()[5]; max_Rz_f=tmp3f.data()[8];
-    Nx = (dream_idx_type) ((max_Rx_f - min_Rx_f)/dx_f+1.0);
-    Ny = (dream_idx_type) ((max_Ry_f - min_Ry_f)/dy_f+1.0);
-    Nz = (dream_idx_type) ((max_Rz_f - min_Rz_f)/dz_f+1.0);
+    Nx = (dream_idx_type) ((max_Rx_f - min_Rx_f)/dx_f+1.001);
+    Ny = (dream_idx_type) ((max_Ry_f - min_Ry_f)/dy_f+1.001);
+    Nz = (dream_idx_type) ((max_Rz_f - min_Rz_f)/dz_f+1.001);
   } else {
     const Matrix tmp3d = args(3).matrix_value();
     min_Rx_d=tmp3d.data()[0]; dx_d=tmp3d.data()[3]; max_Rx_d=tmp3d.data()[6];
     min_Ry_d=tmp3d.data()[1]; dy_d=tmp3d.data()[4]; max_Ry_d=tmp3d.data()[7];
     min_Rz_d=tmp3d.data()[2]; dz_d=tmp3d.data()[5]; max_Rz_d=tmp3d.data()[8];
-    Nx = (dream_idx_type) ((max_Rx_d - min_Rx_d)/dx_d+1.0);
-    Ny = (dream_idx_type) ((max_Ry_d - min_Ry_d)/dy_d+1.0);
-    Nz = (dream_idx_type) ((max_Rz_d - min_Rz_d)/dz_d+1.0);
+    Nx = (dream_idx_type) ((max_Rx_d - min_Rx_d)/dx_d+1.001);
+    Ny = (dream_idx_type) ((max_Ry_d - min_Ry_d)/dy_d+1.001);
+    Nz = (dream_idx_type) ((max_Rz_d - min_Rz_d)/dz_d+1.001);
   }
 
   dream_idx_type No = Nx*Ny*Nz;
diff --git a/include/das_uni.h b/include/das_uni.h
index 7191f42..f668dfc 100644
--- a/include/das_uni.h
+++ b/include/das_uni.h
@@ -70,13 +70,13 @@ class DAS_UNI
                    unsigned char *cl_kernel_str, unsigned int cl_kernel_str_len)
   {
     // Array dims
-    m_num_t_elements = (dream_idx_type) ((max_t - min_t)/pitch_t+1.0);
-    m_num_r_elements = (dream_idx_type) ((max_r - min_r)/pitch_r+1.0);
+    m_num_t_elements = (dream_idx_type) ((max_t - min_t)/pitch_t+1.001);
+    m_num_r_elements = (dream_idx_type) ((max_r - min_r)/pitch_r+1.001);
 
     // Image dims
-    dream_idx_type Nx = (dream_idx_type) ((max_Rx - min_Rx)/dx+1.0);
-    dream_idx_type Ny = (dream_idx_type) ((max_Ry - min_Ry)/dy+1.0);
-    dream_idx_type Nz = (dream_idx_type) ((max_Rz - min_Rz)/dz+1.0);
+    dream_idx_type Nx = (dream_idx_type) ((max_Rx - min_Rx)/dx+1.001);
+    dream_idx_type Ny = (dream_idx_type) ((max_Ry - min_Ry)/dy+1.001);
+    dream_idx_type Nz = (dream_idx_type) ((max_Rz - min_Rz)/dz+1.001);
     m_No = Nx*Ny*Nz;
 
     std::string kernel_str;
@@ -332,13 +332,13 @@ class DAS_UNI
     bool retval = false;
 
     // Array dims
-    dream_idx_type num_t_elements = (dream_idx_type) ((max_t - min_t)/pitch_t+1.0);
-    dream_idx_type num_r_elements = (dream_idx_type) ((max_r - min_r)/pitch_r+1.0);
+    dream_idx_type num_t_elements = (dream_idx_type) ((max_t - min_t)/pitch_t+1.001);
+    dream_idx_type num_r_elements = (dream_idx_type) ((max_r - min_r)/pitch_r+1.001);
 
     // Image dims
-    dream_idx_type Nx = (dream_idx_type) ((max_Rx - min_Rx)/dx+1.0);
-    dream_idx_type Ny = (dream_idx_type) ((max_Ry - min_Ry)/dy+1.0);
-    dream_idx_type Nz = (dream_idx_type) ((max_Rz - min_Rz)/dz+1.0);
+    dream_idx_type Nx = (dream_idx_type) ((max_Rx - min_Rx)/dx+1.001);
+    dream_idx_type Ny = (dream_idx_type) ((max_Ry - min_Ry)/dy+1.001);
+    dream_idx_type Nz = (dream_idx_type) ((max_Rz - min_Rz)/dz+1.001);
     dream_idx_type No = Nx*Ny*Nz;
 
     if ( das_type != m_das_type ||
diff --git a/opencl/das_uni_double.cl b/opencl/das_uni_double.cl
index 91d622e..b49d098 100644
--- a/opencl/das_uni_double.cl
+++ b/opencl/das_uni_double.cl
@@ -20,12 +20,12 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   int no = get_global_id(0); // Each thread computes one image point.
 
   // Array dims
-  int num_elements = (int) ((max_tr - min_tr)/pitch+1.0);
+  int num_elements = (int) ((max_tr - min_tr)/pitch+1.001);
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+1.001);
+  int Ny = (int) ((max_Ry - min_Ry)/dy+1.001);
+  int Nz = (int) ((max_Rz - min_Rz)/dz+1.001);
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
@@ -96,13 +96,13 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   //
 
   // Array dims
-  int num_t_elements = (int) ((max_t - min_t)/pitch_t+1.0);
-  int num_r_elements = (int) ((max_r - min_r)/pitch_r+1.0);
+  int num_t_elements = (int) ((max_t - min_t)/pitch_t+1.001);
+  int num_r_elements = (int) ((max_r - min_r)/pitch_r+1.001);
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+1.001);
+  int Ny = (int) ((max_Ry - min_Ry)/dy+1.001);
+  int Nz = (int) ((max_Rz - min_Rz)/dz+1.001);
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
@@ -186,13 +186,13 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   //
 
   // Array dims
-  int num_cols = (int) ((max_c - min_c)/pitch_c+1.0);
-  int num_rows = (int) ((max_r - min_r)/pitch_r+1.0);
+  int num_cols = (int) ((max_c - min_c)/pitch_c+1.001);
+  int num_rows = (int) ((max_r - min_r)/pitch_r+1.001);
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+1.001);
+  int Ny = (int) ((max_Ry - min_Ry)/dy+1.001);
+  int Nz = (int) ((max_Rz - min_Rz)/dz+1.001);
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
@@ -300,13 +300,13 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   //
 
   // Array dims
-  int num_cols = (int) ((max_c - min_c)/pitch_c+1.0);
-  int num_rows = (int) ((max_r - min_r)/pitch_r+1.0);
+  int num_cols = (int) ((max_c - min_c)/pitch_c+1.001);
+  int num_rows = (int) ((max_r - min_r)/pitch_r+1.001);
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+1.001);
+  int Ny = (int) ((max_Ry - min_Ry)/dy+1.001);
+  int Nz = (int) ((max_Rz - min_Rz)/dz+1.001);
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
diff --git a/opencl/das_uni_float.cl b/opencl/das_uni_float.cl
index 66ad315..1b35cd6 100644
--- a/opencl/das_uni_float.cl
+++ b/opencl/das_uni_float.cl
@@ -21,12 +21,12 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   int no = get_global_id(0); // Each thread computes one image point.
 
   // Array dims
-  int num_elements = (int) ((max_tr - min_tr)/pitch+1.0);
+  int num_elements = (int) ((max_tr - min_tr)/pitch+1.001);
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+1.001);
+  int Ny = (int) ((max_Ry - min_Ry)/dy+1.001);
+  int Nz = (int) ((max_Rz - min_Rz)/dz+1.001);
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
@@ -97,13 +97,13 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   //
 
   // Array dims
-  int num_t_elements = (int) ((max_t - min_t)/pitch_t+1.0);
-  int num_r_elements = (int) ((max_r - min_r)/pitch_r+1.0);
+  int num_t_elements = (int) ((max_t - min_t)/pitch_t+1.001);
+  int num_r_elements = (int) ((max_r - min_r)/pitch_r+1.001);
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+1.001);
+  int Ny = (int) ((max_Ry - min_Ry)/dy+1.001);
+  int Nz = (int) ((max_Rz - min_Rz)/dz+1.001);
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
@@ -187,13 +187,13 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   //
 
   // Array dims
-  int num_cols = (int) ((max_c - min_c)/pitch_c+1.0);
-  int num_rows = (int) ((max_r - min_r)/pitch_r+1.0);
+  int num_cols = (int) ((max_c - min_c)/pitch_c+1.001);
+  int num_rows = (int) ((max_r - min_r)/pitch_r+1.001);
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+1.001);
+  int Ny = (int) ((max_Ry - min_Ry)/dy+1.001);
+  int Nz = (int) ((max_Rz - min_Rz)/dz+1.001);
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
@@ -301,13 +301,13 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   //
 
   // Array dims
-  int num_cols = (int) ((max_c - min_c)/pitch_c+1.0);
-  int num_rows = (int) ((max_r - min_r)/pitch_r+1.0);
+  int num_cols = (int) ((max_c - min_c)/pitch_c+1.001);
+  int num_rows = (int) ((max_r - min_r)/pitch_r+1.001);
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+1.001);
+  int Ny = (int) ((max_Ry - min_Ry)/dy+1.001);
+  int Nz = (int) ((max_Rz - min_Rz)/dz+1.001);
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
-- 
2.43.0


From cea3b493da1816267dd5a24fe75d747686fbe8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 42/60] fix: das_uni used the data and delay arguments after
 they were freed

---
 extra_src/oct_das_uni.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index 1c17cea..43e2010 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -131,6 +131,10 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
 
   ArgParser ap;
 
+  // Keep the (possibly converted) arguments alive until das_uni is done with them.
+  FloatMatrix tmp0f, tmp5f;
+  Matrix tmp0d, tmp5d;
+
   //
   // Check for proper number of arguments
   //
@@ -183,10 +187,10 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   const double *Yd = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp0f= args(0).float_matrix_value();
+    tmp0f = args(0).float_matrix_value();
     Yf = (float*) tmp0f.data();
   } else {
-    const Matrix tmp0d = args(0).matrix_value();
+    tmp0d = args(0).matrix_value();
     Yd = (double*) tmp0d.data();
   }
 
@@ -326,10 +330,10 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   const double *delay_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp5f = args(5).float_matrix_value();
+    tmp5f = args(5).float_matrix_value();
     delay_f = tmp5f.data();
   } else {
-    const Matrix tmp5d = args(5).matrix_value();
+    tmp5d = args(5).matrix_value();
     delay_d = tmp5d.data();
   }
 
-- 
2.43.0


From 19d97a776dea93008d4aa32fc7accda2434a0f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 43/60] fix: das and das_uni fail on the GPU when the receive
 array is empty and the method is not 'saft'

---
 extra_src/mex_das_uni.cc | 4 ++++
 extra_src/oct_das_uni.cc | 4 ++++
 include/das.h            | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/extra_src/mex_das_uni.cc b/extra_src/mex_das_uni.cc
index 7295a63..ccf7735 100644
--- a/extra_src/mex_das_uni.cc
+++ b/extra_src/mex_das_uni.cc
@@ -250,6 +250,10 @@ min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3])
   DASType das_type;
   ap.parse_das_arg("das_uni", prhs, 7, das_type);
 
+  if (mxGetN(prhs[2]) == 0) { // SAFT is also selected if gr is empty.
+    das_type = DASType::saft;
+  }
+
 //
   // Init DAS and output arg.
   //
diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index 43e2010..d8eb259 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -371,6 +371,10 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (mxGetM(2)*mxGetN(2) == 0) { // SAFT is also selected if gr is empty.
+    das_type = DASType::saft;
+  }
+
   //
   // Init DAS_UNI and output arg.
   //
diff --git a/include/das.h b/include/das.h
index c79ad2d..20d3850 100644
--- a/include/das.h
+++ b/include/das.h
@@ -100,6 +100,10 @@ public:
     std::string kernel_str;
     std::string kernel_name="das_tfm"; // Default function name of the OpenCL kernel
 
+    if (m_num_r_elements == 0) { // SAFT is also selected if Gr is empty.
+      m_das_type = DASType::saft;
+    }
+
     if (m_das_type == DASType::saft) {
       kernel_name="das_saft";
       m_num_r_elements = 0;
-- 
2.43.0


From 712cfd34c1f627ede136a61d09091e764147c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 44/60] fix: das_uni reads out-of-bounds when the data do not
 match the number of array elements

---
 extra_src/mex_das_uni.cc | 13 +++++++++++++
 extra_src/oct_das_uni.cc | 14 ++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/extra_src/mex_das_uni.cc b/extra_src/mex_das_uni.cc
index ccf7735..9dfa2c2 100644
--- a/extra_src/mex_das_uni.cc
+++ b/extra_src/mex_das_uni.cc
@@ -254,6 +254,19 @@ min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3])
     das_type = DASType::saft;
   }
 
+  // SAFT data has one A-scan per transmit element and TFM and RCA data one for each
+  // transmit and receive element pair.
+  dream_idx_type num_a_scans = use_float ?
+    (dream_idx_type) ((max_t_f - min_t_f)/pitch_t_f+1.001) : (dream_idx_type) ((max_t_d - min_t_d)/pitch_t_d+1.001);
+  if (das_type != DASType::saft) {
+    num_a_scans *= use_float ?
+      (dream_idx_type) ((max_r_f - min_r_f)/pitch_r_f+1.001) : (dream_idx_type) ((max_r_d - min_r_d)/pitch_r_d+1.001);
+  }
+
+  if ((dream_idx_type) mxGetN(prhs[0]) != num_a_scans) {
+    dream_err_msg("The number of A-scans (columns) in argument 1 does not match the number of array elements!");
+  }
+
 //
   // Init DAS and output arg.
   //
diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index d8eb259..75db5b5 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -375,6 +375,20 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     das_type = DASType::saft;
   }
 
+  // SAFT data has one A-scan per transmit element and TFM and RCA data one for each
+  // transmit and receive element pair.
+  dream_idx_type num_a_scans = use_float ?
+    (dream_idx_type) ((max_t_f - min_t_f)/pitch_t_f+1.001) : (dream_idx_type) ((max_t_d - min_t_d)/pitch_t_d+1.001);
+  if (das_type != DASType::saft) {
+    num_a_scans *= use_float ?
+      (dream_idx_type) ((max_r_f - min_r_f)/pitch_r_f+1.001) : (dream_idx_type) ((max_r_d - min_r_d)/pitch_r_d+1.001);
+  }
+
+  if (mxGetN(0) != num_a_scans) {
+    error("The number of A-scans (columns) in argument 1 does not match the number of array elements!");
+    return oct_retval;
+  }
+
   //
   // Init DAS_UNI and output arg.
   //
-- 
2.43.0


From 89ce4a3d1e910298757066942a7f5be78e8c7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 45/60] fix: das_uni could not be loaded in Octave (undefined
 symbol)

---
 oct/CMakeLists.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oct/CMakeLists.txt b/oct/CMakeLists.txt
index 12d0378..d806cb8 100644
--- a/oct/CMakeLists.txt
+++ b/oct/CMakeLists.txt
@@ -545,6 +545,7 @@ if (OpenCL_FOUND)
 
   set (oct_das_uni_SOURCE_FILES
     ../extra_src/oct_das_uni.cc
+    ../src/dream_error.cc
     ../opencl/cl_das_uni.cc
   )
 
-- 
2.43.0


From 3c46e82c8e3b205fe4e9cb486965372788539c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 46/60] fix: das_uni used the first delay for all image points
 when given a delay vector

---
 extra_src/mex_das_uni.cc |  9 +++++++--
 extra_src/oct_das_uni.cc |  9 +++++++--
 include/das_uni.h        | 17 ++++++++++++++++-
 opencl/cl_das_uni.cc     | 11 +++++++++--
 opencl/das_uni_double.cl | 16 ++++++++--------
 opencl/das_uni_float.cl  | 16 ++++++++--------
 6 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/extra_src/mex_das_uni.cc b/extra_src/mex_das_uni.cc
index 9dfa2c2..2f09812 100644
--- a/extra_src/mex_das_uni.cc
+++ b/extra_src/mex_das_uni.cc
@@ -214,6 +214,11 @@ min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3])
 
   ap.check_delay("das", prhs, 5, No);
 
+  DelayType delay_type = DelayType::single;  // delay is a scalar.
+  if (mxGetM(prhs[5]) * mxGetN(prhs[5]) != 1) {
+    delay_type = DelayType::multiple; // delay is a vector.
+  }
+
   const float *delay_f = nullptr;
   const double *delay_d = nullptr;
 
@@ -369,7 +374,7 @@ min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3])
                           min_Ry_f, dy_f, max_Ry_f,
                           min_Rz_f, dz_f, max_Rz_f,
                           dt_f,
-                          delay_f[0], cp_f,
+                          delay_type, delay_f, cp_f,
                           Im_f);
   } else { // Double precision
     das_uni_d->cl_das_uni(Yd,
@@ -379,7 +384,7 @@ min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3])
                           min_Ry_d, dy_d, max_Ry_d,
                           min_Rz_d, dz_d, max_Rz_d,
                           dt_d,
-                          delay_d[0], cp_d,
+                          delay_type, delay_d, cp_d,
                           Im_d);
   }
 
diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index 75db5b5..fd1b63b 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -326,6 +326,11 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  DelayType delay_type = DelayType::single;  // delay is a scalar.
+  if (mxGetM(5) * mxGetN(5) != 1) {
+    delay_type = DelayType::multiple; // delay is a vector.
+  }
+
   const float *delay_f = nullptr;
   const double *delay_d = nullptr;
 
@@ -493,7 +498,7 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
                           min_Ry_f, dy_f, max_Ry_f,
                           min_Rz_f, dz_f, max_Rz_f,
                           dt_f,
-                          delay_f[0], cp_f,
+                          delay_type, delay_f, cp_f,
                           Im_f);
   } else { // Double precision
     das_uni_d->cl_das_uni(Yd,
@@ -503,7 +508,7 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
                           min_Ry_d, dy_d, max_Ry_d,
                           min_Rz_d, dz_d, max_Rz_d,
                           dt_d,
-                          delay_d[0], cp_d,
+                          delay_type, delay_d, cp_d,
                           Im_d);
   }
 
diff --git a/include/das_uni.h b/include/das_uni.h
index f668dfc..6162f44 100644
--- a/include/das_uni.h
+++ b/include/das_uni.h
@@ -302,6 +302,19 @@ class DAS_UNI
     throw std::runtime_error(the_err);
   }
 
+  // Delays
+  m_buflen_delay = m_No*sizeof(T);
+  try {
+    m_cl_buf_delay = cl::Buffer(context, CL_MEM_READ_ONLY, m_buflen_delay);
+  }
+
+  catch (const cl::Error &err) {
+    std::string the_err = "Error in das_uni - OpenCL error - Buffer delay allocation failed: " ;
+    the_err += err.what();
+    the_err += "\n";
+    throw std::runtime_error(the_err);
+  }
+
   // Write buffer
 
   // Image
@@ -359,7 +372,7 @@ class DAS_UNI
                  T min_Ry, T dy, T max_Ry,
                  T min_Rz, T dz, T max_Rz,
                  T dt,
-                 T delay,
+                 DelayType delay_type, const T *delay,
                  T cp,
                  T *Im);
 
@@ -375,7 +388,9 @@ class DAS_UNI
   cl::CommandQueue m_queue;
   cl::Kernel m_kernel;
   cl::Buffer m_cl_buf_Y;
+  cl::Buffer m_cl_buf_delay;
   cl::Buffer m_cl_buf_Im;
   cl_int m_buflen_Y;
+  cl_int m_buflen_delay;
   cl_int m_buflen_Im;
 };
diff --git a/opencl/cl_das_uni.cc b/opencl/cl_das_uni.cc
index 8c8a317..e8f4594 100644
--- a/opencl/cl_das_uni.cc
+++ b/opencl/cl_das_uni.cc
@@ -74,7 +74,7 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
                            T min_Ry, T dy, T max_Ry,
                            T min_Rz, T dz, T max_Rz,
                            T dt,
-                           T delay,
+                           DelayType delay_type, const T *delay,
                            T cp,
                            T *Im)
 {
@@ -85,6 +85,13 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
 
   m_queue.enqueueWriteBuffer(m_cl_buf_Y, CL_TRUE, 0, m_buflen_Y, Y);
 
+  if (delay_type == DelayType::single) { // The same delay for all image points.
+    std::vector<T> delays(m_No, delay[0]);
+    m_queue.enqueueWriteBuffer(m_cl_buf_delay, CL_TRUE, 0, m_buflen_delay, delays.data());
+  } else {
+    m_queue.enqueueWriteBuffer(m_cl_buf_delay, CL_TRUE, 0, m_buflen_delay, delay);
+  }
+
   //
   // Set the arguments of the kernel
   //
@@ -144,7 +151,7 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
 
   // delay
   arg_idx++;
-  m_kernel.setArg(arg_idx, delay);
+  m_kernel.setArg(arg_idx, m_cl_buf_delay);
 
   // cp
   arg_idx++;
diff --git a/opencl/das_uni_double.cl b/opencl/das_uni_double.cl
index b49d098..d407532 100644
--- a/opencl/das_uni_double.cl
+++ b/opencl/das_uni_double.cl
@@ -13,7 +13,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
                            DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                            DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                            const DAS_DATATYPE dt,
-                           const DAS_DATATYPE delay,
+                           __global const DAS_DATATYPE *delay, // One delay for each image point
                            const DAS_DATATYPE cp,
                            __global DAS_DATATYPE *Im)
 {
@@ -45,7 +45,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[no]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -84,7 +84,7 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
                           DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                           DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                           const DAS_DATATYPE dt,
-                          const DAS_DATATYPE delay,
+                          __global const DAS_DATATYPE *delay, // One delay for each image point
                           const DAS_DATATYPE cp,
                           __global DAS_DATATYPE *Im)
 {
@@ -122,7 +122,7 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[no]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -174,7 +174,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
                                 DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                                 DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                                 const DAS_DATATYPE dt,
-                                const DAS_DATATYPE delay,
+                                __global const DAS_DATATYPE *delay, // One delay for each image point
                                 const DAS_DATATYPE cp,
                                 __global DAS_DATATYPE *Im)
 {
@@ -218,7 +218,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[no]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -288,7 +288,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
                                 DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                                 DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                                 const DAS_DATATYPE dt,
-                                const DAS_DATATYPE delay,
+                                __global const DAS_DATATYPE *delay, // One delay for each image point
                                 const DAS_DATATYPE cp,
                                 __global DAS_DATATYPE *Im)
 {
@@ -332,7 +332,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = 1.0/dt*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[no]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
diff --git a/opencl/das_uni_float.cl b/opencl/das_uni_float.cl
index 1b35cd6..70b839c 100644
--- a/opencl/das_uni_float.cl
+++ b/opencl/das_uni_float.cl
@@ -14,7 +14,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
                            DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                            DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                            const DAS_DATATYPE dt,
-                           const DAS_DATATYPE delay,
+                           __global const DAS_DATATYPE *delay, // One delay for each image point
                            const DAS_DATATYPE cp,
                            __global DAS_DATATYPE *Im)
 {
@@ -46,7 +46,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[no]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -85,7 +85,7 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
                           DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                           DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                           const DAS_DATATYPE dt,
-                          const DAS_DATATYPE delay,
+                          __global const DAS_DATATYPE *delay, // One delay for each image point
                           const DAS_DATATYPE cp,
                           __global DAS_DATATYPE *Im)
 {
@@ -123,7 +123,7 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[no]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -175,7 +175,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
                                 DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                                 DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                                 const DAS_DATATYPE dt,
-                                const DAS_DATATYPE delay,
+                                __global const DAS_DATATYPE *delay, // One delay for each image point
                                 const DAS_DATATYPE cp,
                                 __global DAS_DATATYPE *Im)
 {
@@ -219,7 +219,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[no]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -289,7 +289,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
                                 DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                                 DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                                 const DAS_DATATYPE dt,
-                                const DAS_DATATYPE delay,
+                                __global const DAS_DATATYPE *delay, // One delay for each image point
                                 const DAS_DATATYPE cp,
                                 __global DAS_DATATYPE *Im)
 {
@@ -333,7 +333,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[no]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
-- 
2.43.0


From bfc8268f0a54cffa07c91d420618a91377ab9dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 47/60] fix: the OpenCL rect_sir drops contributions at the
 arrival times of the aperture edge

---
 opencl/rect_sir.cl | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 667b0fb..1da3280 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -1,3 +1,14 @@
+// Angle between an edge, at the distance d, and the circle with radius rho that the wavefront
+// makes in the aperture plane. Rounding can make rho slightly less than d (or zero).
+double edge_angle(double d, double rho)
+{
+  if (d <= 0.0) {
+    return M_PI/2.0;
+  }
+
+  return (d < rho) ? acos(d/rho) : 0.0;
+}
+
 __kernel void rect_sir(__global const double *Ro,
                        int No,
                        double a_i,
@@ -181,11 +192,11 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if ( (t >= tau_2) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( s_k / (cp * native_sqrt(t*t - t_z*t_z)));
+        a_k -= cp_2pi * edge_angle(s_k, cp * native_sqrt(t*t - t_z*t_z));
       }
 
       if ( (t >= tau_3) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( l_k / (cp * native_sqrt(t*t - t_z*t_z)));
+        a_k -= cp_2pi * edge_angle(l_k, cp * native_sqrt(t*t - t_z*t_z));
       }
 
       if (a_k > 0.0) {
-- 
2.43.0


From a421317dd295e2d84871358c34b07eb88a01004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 48/60] fix: double precision OpenCL kernels computed square
 roots in single precision

---
 opencl/das_double.cl     | 14 +++++++-------
 opencl/das_uni_double.cl | 18 +++++++++---------
 opencl/rect_sir.cl       | 10 +++++-----
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index b7daf59..907c968 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -34,7 +34,7 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
     DAS_DATATYPE gx_tr = G[n_tr] - xo;
     DAS_DATATYPE gy_tr = G[n_tr + 1*num_elements] - yo;
     DAS_DATATYPE gz_tr = G[n_tr + 2*num_elements] - zo;
-    DAS_DATATYPE t_tr = native_sqrt(gx_tr*gx_tr + gy_tr*gy_tr + gz_tr*gz_tr) * one_over_cp; // [ms].
+    DAS_DATATYPE t_tr = sqrt(gx_tr*gx_tr + gy_tr*gy_tr + gz_tr*gz_tr) * one_over_cp; // [ms].
     t_tr += delay_ms;           // Compensate for pulse system delay.
 
     DAS_DATATYPE t_dp = 2.0*t_tr; // Double-path travel time.
@@ -81,7 +81,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
     DAS_DATATYPE gx_t = Gt[n_t] - xo;
     DAS_DATATYPE gy_t = Gt[n_t + 1*num_t_elements] - yo;
     DAS_DATATYPE gz_t = Gt[n_t + 2*num_t_elements] - zo;
-    DAS_DATATYPE t_t = native_sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
+    DAS_DATATYPE t_t = sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
     t_t += delay_ms;            // Compensate for pulse system delay.
 
     for (int n_r=0; n_r<num_r_elements; n_r++) {
@@ -90,7 +90,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
       DAS_DATATYPE gx_r = Gr[n_r] - xo;
       DAS_DATATYPE gy_r = Gr[n_r + 1*num_r_elements] - yo;
       DAS_DATATYPE gz_r = Gr[n_r + 2*num_r_elements] - zo;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
 
       DAS_DATATYPE t_dp = t_t + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -152,7 +152,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
       }
     }
     DAS_DATATYPE gz_c = G_col[n_c + 2*num_cols] - zo;
-    DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
+    DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
     t_c += delay_ms;            // Compensate for pulse system delay.
 
     for (int n_r=0; n_r<num_rows; n_r++) {
@@ -170,7 +170,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
       }
       DAS_DATATYPE gy_r = G_row[n_r + 1*num_rows] - yo;
       DAS_DATATYPE gz_r = G_row[n_r + 2*num_rows] - zo;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -232,7 +232,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
     }
     DAS_DATATYPE gy_r = G_row[n_r + 1*num_rows] - yo;
     DAS_DATATYPE gz_r = G_row[n_r + 2*num_rows] - zo;
-    DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+    DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
 
     for (int n_c=0; n_c<num_cols; n_c++) {
 
@@ -249,7 +249,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
         }
       }
       DAS_DATATYPE gz_c = G_col[n_c + 2*num_cols] - zo;
-      DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
+      DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
       t_c += delay_ms;            // Compensate for pulse system delay.
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
diff --git a/opencl/das_uni_double.cl b/opencl/das_uni_double.cl
index d407532..f9ee2d5 100644
--- a/opencl/das_uni_double.cl
+++ b/opencl/das_uni_double.cl
@@ -59,7 +59,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
     DAS_DATATYPE gx_tr = x_tr - xo;
     //DAS_DATATYPE gy_tr = yo; // Assume y_tr = 0.0;
     //DAS_DATATYPE gz_tr = zo; // Assume z_tr = 0.0;
-    DAS_DATATYPE t_tr = native_sqrt(gx_tr*gx_tr + yo*yo + zo*zo) * one_over_cp; // [ms].
+    DAS_DATATYPE t_tr = sqrt(gx_tr*gx_tr + yo*yo + zo*zo) * one_over_cp; // [ms].
     t_tr += delay_ms;           // Compensate for pulse system delay.
 
     DAS_DATATYPE t_dp = 2.0*t_tr; // Double-path travel time.
@@ -136,8 +136,8 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
     DAS_DATATYPE gx_t = xt - xo;
     //DAS_DATATYPE gy_t = yo; // Assume yt = 0.0;
     //DAS_DATATYPE gz_t = zo; // Assume zt = 0.0;
-    //DAS_DATATYPE t_t = native_sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
-    DAS_DATATYPE t_t = native_sqrt(gx_t*gx_t + yo*yo + zo*zo) * one_over_cp; // [ms].
+    //DAS_DATATYPE t_t = sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
+    DAS_DATATYPE t_t = sqrt(gx_t*gx_t + yo*yo + zo*zo) * one_over_cp; // [ms].
     t_t += delay_ms;            // Compensate for pulse system delay.
 
     for (int n_r=0; n_r<num_r_elements; n_r++) {
@@ -147,8 +147,8 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
       DAS_DATATYPE gx_r = xr - xo;
       //DAS_DATATYPE gy_r = yo;  // Assume yr = 0.0;
       //DAS_DATATYPE gz_r = zo;  // Assume zt = 0.0;
-      //DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + yo*yo + zo*zo) * one_over_cp; // [ms].
+      //DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + yo*yo + zo*zo) * one_over_cp; // [ms].
 
       DAS_DATATYPE t_dp = t_t + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -242,7 +242,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
     }
 
     //DAS_DATATYPE gz_c = zo; // Assume zc = 0.0;
-    DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + zo*zo) * one_over_cp; // [ms].
+    DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + zo*zo) * one_over_cp; // [ms].
 
     t_c += delay_ms;            // Compensate for pulse system delay.
 
@@ -262,7 +262,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
       DAS_DATATYPE yr = min_r + ((DAS_DATATYPE) n_r)*pitch_r;
       DAS_DATATYPE gy_r = yr - yo;
       //DAS_DATATYPE gz_r = zo; // Assume zr = 0.0;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + zo*zo) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + zo*zo) * one_over_cp;
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -355,7 +355,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
     DAS_DATATYPE yr = min_r + ((DAS_DATATYPE) n_r)*pitch_r;
     DAS_DATATYPE gy_r = yr - yo;
     //DAS_DATATYPE gz_r = zo; // Assume zr = 0.0;
-    DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + zo*zo) * one_over_cp;
+    DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + zo*zo) * one_over_cp;
 
     t_r += delay_ms;            // Compensate for pulse system delay.
 
@@ -376,7 +376,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
       }
 
       //DAS_DATATYPE gz_c = zo; // Assume zc = 0.0;
-      DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + zo*zo) * one_over_cp; // [ms].
+      DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + zo*zo) * one_over_cp; // [ms].
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 1da3280..00eaa9b 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -178,9 +178,9 @@ __kernel void rect_sir(__global const double *Ro,
     t_z = zo / cp;
 
     tau_1 = t_z;
-    tau_2 = native_sqrt(zo*zo + s_k*s_k) / cp;
-    tau_3 = native_sqrt(zo*zo + l_k*l_k) / cp;
-    tau_4 = native_sqrt(zo*zo + l_k*l_k + s_k*s_k) / cp;
+    tau_2 = sqrt(zo*zo + s_k*s_k) / cp;
+    tau_3 = sqrt(zo*zo + l_k*l_k) / cp;
+    tau_4 = sqrt(zo*zo + l_k*l_k + s_k*s_k) / cp;
 
     for (it=0; it<nt; it++) {
 
@@ -192,11 +192,11 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if ( (t >= tau_2) && (t <= tau_4) ) {
-        a_k -= cp_2pi * edge_angle(s_k, cp * native_sqrt(t*t - t_z*t_z));
+        a_k -= cp_2pi * edge_angle(s_k, cp * sqrt(t*t - t_z*t_z));
       }
 
       if ( (t >= tau_3) && (t <= tau_4) ) {
-        a_k -= cp_2pi * edge_angle(l_k, cp * native_sqrt(t*t - t_z*t_z));
+        a_k -= cp_2pi * edge_angle(l_k, cp * sqrt(t*t - t_z*t_z));
       }
 
       if (a_k > 0.0) {
-- 
2.43.0


From d0495d870cc4ea17c04546d716ec485ef3368d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:16 +0000
Subject: [PATCH 49/60] fix: Python functions accept arrays with more than two
 dimensions

---
 include/arg_parser_python.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index dc22549..0016dc0 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -589,9 +589,13 @@ public:
     return (dream_idx_type) m;
   };
 
+  // All dimensions but the first, like mxGetN.
   dream_idx_type get_n(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto n = (py_arg_info.ndim > 1) ? py_arg_info.shape[1] : 1;
+    py::ssize_t n = 1;
+    for (py::ssize_t k=1; k<py_arg_info.ndim; k++) {
+      n *= py_arg_info.shape[k];
+    }
 
     return (dream_idx_type) n;
   };
-- 
2.43.0


From 2aaad2bde9b91cf5564ccac81837c8dd3228cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 50/60] fix: Octave rect_sir returns a partial result when
 interrupted

The other functions report the interruption and leave the result out.
---
 extra_src/oct_rect_sir.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 6e83e8f..a147846 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -254,6 +254,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
     if (!rect_sir.is_running()) {
       dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+      return oct_retval;
     }
 
     //
-- 
2.43.0


From 5c8e72c19cf57a8c1506b4fdc4ea8522f2c12df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:15 +0000
Subject: [PATCH 51/60] fix: apodization windows are NaN for arrays without
 extent

The relative radius of an array with all its elements at the center, and
of an annular array with a single ring, was zero divided by zero.
---
 src/arr_functions.cc  | 4 ++++
 src/dream_arr_annu.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/arr_functions.cc b/src/arr_functions.cc
index 6c73c54..bf02f48 100644
--- a/src/arr_functions.cc
+++ b/src/arr_functions.cc
@@ -217,6 +217,10 @@ void apodization(ApodMet apod_met, dream_idx_type n, double *apod_vec, double *w
 {
   double r = std::sqrt(gx*gx + gy*gy);
 
+  if (r_max == 0.0) { // All elements are at the center of the array.
+    r_max = 1.0;
+  }
+
   switch(apod_met) {
 
   case ApodMet::ud:
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index b14f99d..3f3347e 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -425,6 +425,10 @@ double ArrAnnu::apodization_annular(ApodMet apod_met, dream_idx_type n, double *
 {
   double weight=1.0;
 
+  if (ring_r_max == 0.0) { // There is only a center element.
+    ring_r_max = 1.0;
+  }
+
   switch(apod_met) {
 
   case ApodMet::ud:
-- 
2.43.0


From 87207febc57dbd9738a3f191e522410243de8484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:32 +0000
Subject: [PATCH 52/60] fix: scirc_sir is wrong at negative times for points in
 the aperture plane

Only the start of the sampling interval was limited to non-negative times.
---
 extra_src/scirc_sir.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra_src/scirc_sir.cc b/extra_src/scirc_sir.cc
index 718d70a..43b5d18 100644
--- a/extra_src/scirc_sir.cc
+++ b/extra_src/scirc_sir.cc
@@ -86,6 +86,9 @@ void scirc_sir(double xo_i,
     if (t1 < 0.0)
       t1 = 0.0;
 
+    if (t2 < 0.0)
+      t2 = 0.0;
+
     if (r > r_cyl) {
 
       if ( (cp*t1 < zo) && (cp*t2 < zo)) {
-- 
2.43.0


From 5e715cda25bdefee1ae6d99094b30a84b8ede7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:18 +0000
Subject: [PATCH 53/60] fix: MEX functions leave their signal handlers
 installed, and das dereferences a null object for single precision data

---
 extra_src/mex_das.cc        | 63 ++++++++++++++++++++++++++-----------
 extra_src/mex_rect_sir.cc   |  5 ++-
 mex/mex_dream_arr_circ.cc   |  5 ++-
 mex/mex_dream_arr_cylind.cc |  5 ++-
 mex/mex_dream_arr_rect.cc   |  5 ++-
 mex/mex_dreamcirc.cc        |  5 ++-
 mex/mex_dreamcirc_f.cc      |  5 ++-
 mex/mex_dreamcylind.cc      |  5 ++-
 mex/mex_dreamline.cc        |  5 ++-
 mex/mex_dreamrect.cc        |  5 ++-
 mex/mex_dreamrect_f.cc      |  5 ++-
 mex/mex_dreamsphere.cc      |  5 ++-
 12 files changed, 88 insertions(+), 30 deletions(-)

diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index 014c312..150295b 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -47,7 +47,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Check for proper number of arguments
 
   if ((nrhs < 8) || (nrhs > 11)) {
-    dream_err_msg("das requires 8 to 10 input arguments!");
+    dream_err_msg("das requires 8 to 11 input arguments!");
   }
 
   if (nlhs > 2) {
@@ -123,7 +123,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   const double *Gr_d = nullptr;
 
 
-  if (mxGetN(prhs[2]) != 0) {   // SAFT is using an empty Gr.
+  if (mxGetM(prhs[2]) != 0) {   // SAFT is using an empty Gr.
 
     if (mxGetN(prhs[2]) != 3) {
       dream_err_msg("Argument 3 must be a (num recieve elements) x 3 matrix!");
@@ -162,7 +162,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Temporal sampling parameter.
   //
 
-  if (!(mxGetM(prhs[4]) == 1 && mxGetN(prhs[4]) == 1)) {
+  if (!(mxIsNumeric(prhs[4]) && mxGetM(prhs[4]) == 1 && mxGetN(prhs[4]) == 1)) {
     dream_err_msg("Argument 5 must be a scalar!");
   }
 
@@ -170,11 +170,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   double dt_d = 0.0;
 
   if (use_float) {
-    float *s_par_f = (float*) mxGetData(prhs[4]);
-    dt_f = s_par_f[0];
+    dt_f = (float) mxGetScalar(prhs[4]);
   } else {
-    double *s_par_d = mxGetPr(prhs[4]);
-    dt_d = s_par_d[0];
+    dt_d = mxGetScalar(prhs[4]);
   }
 
   //
@@ -202,7 +200,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   // Check that arg 7 is a scalar.
-  if (!(mxGetM(prhs[6]) == 1 && mxGetN(prhs[6]) == 1)) {
+  if (!(mxIsNumeric(prhs[6]) && mxGetM(prhs[6]) == 1 && mxGetN(prhs[6]) == 1)) {
     dream_err_msg("Argument 7 must be a scalar!");
   }
 
@@ -210,11 +208,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   double cp_d = 0.0;
 
   if (use_float) {
-    float *m_par_f = (float*) mxGetData(prhs[6]);
-    cp_f = m_par_f[0];
+    cp_f = (float) mxGetScalar(prhs[6]);
   } else {
-    double *s_par_d = mxGetPr(prhs[6]);
-    cp_d = s_par_d[0];
+    cp_d = mxGetScalar(prhs[6]);
   }
 
   //
@@ -224,6 +220,17 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   DASType das_type;
   ap.parse_das_arg("das", prhs, 7, das_type);
 
+  // SAFT data has one A-scan per transmit element and TFM and RCA data one for each
+  // transmit and receive element pair.
+  dream_idx_type num_a_scans = num_t_elements;
+  if ((das_type != DASType::saft) && (num_r_elements != 0)) {
+    num_a_scans *= num_r_elements;
+  }
+
+  if (mxGetN(prhs[0]) != num_a_scans) {
+    dream_err_msg("The number of A-scans (columns) in argument 1 does not match the number of array elements!");
+  }
+
   //
   // Error reporting.
   //
@@ -242,13 +249,17 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   std::string device;
 
-  if (nrhs == 10) {
+  if (nrhs >= 10) {
 
     if (!mxIsChar(prhs[9])) {
       dream_err_msg("Argument 10 must be a string");
     }
 
     device =  ap.get_string_arg(prhs, 9);
+
+    if (device != "cpu" && device != "gpu") {
+      dream_err_msg("Unknown compute device in argument 10!");
+    }
   }
 
   //
@@ -279,11 +290,12 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   double *Im_d = nullptr;
 
   bool init_das = true;
+  void (*old_handler)(int) = SIG_DFL;
 
   // We use this to make the GPU init code run
   bool use_gpu = false;
 #ifdef USE_OPENCL
-  if (device == "gpu") {
+  if (device == "gpu" && delay_type == DelayType::single) { // No GPU support for delay vectors.
     use_gpu = true;
   }
 #endif
@@ -320,10 +332,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       }
     }
 
-    das_d->set_running();
+    das_f->set_running();
 
     // Register signal handler.
-    std::signal(SIGABRT, DAS<float>::abort);
+    old_handler = std::signal(SIGABRT, DAS<float>::abort);
 
   } else {
 
@@ -360,7 +372,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     das_d->set_running();
 
     // Register signal handler.
-    std::signal(SIGABRT, DAS<double>::abort);
+    old_handler = std::signal(SIGABRT, DAS<double>::abort);
   }
 
   SIRError err = SIRError::none;
@@ -368,7 +380,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 #ifdef USE_OPENCL
 
   // Check if we should use the GPU
-  if (device == "gpu") {
+  if (use_gpu) {
 
     if (use_float) { // Single precision
       das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
@@ -376,18 +388,27 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
     }
 
+    // Restore old signal handler.
+    std::signal(SIGABRT, old_handler);
+
   } else { // Otherwise use the cpu
 
-#endif
+#else
 
     if (device == "gpu") {
       std::cout << "Warning: Compute device set to 'gpu' but DREAM is build without OpenCL support!" << std::endl;
       std::cout << "Using the CPU backend!" << std::endl;
     }
 
+#endif
+
     if (use_float) { // Single precision
 
       err = das_f->das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_type, delay_f, cp_f, Im_f, err_level);
+
+      // Restore old signal handler.
+      std::signal(SIGABRT, old_handler);
+
       if (!das_f->is_running()) {
         if (err == SIRError::out_of_bounds) {
           dream_err_msg("DAS out-of-bounds!\n"); // Bail out.
@@ -401,6 +422,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     } else { // Double precision
 
       err = das_d->das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_type, delay_d, cp_d, Im_d, err_level);
+
+      // Restore old signal handler.
+      std::signal(SIGABRT, old_handler);
+
       if (!das_d->is_running()) {
         if (err == SIRError::out_of_bounds) {
           dream_err_msg("DAS out-of-bounds!\n"); // Bail out.
diff --git a/extra_src/mex_rect_sir.cc b/extra_src/mex_rect_sir.cc
index 737c51e..35bb92a 100644
--- a/extra_src/mex_rect_sir.cc
+++ b/extra_src/mex_rect_sir.cc
@@ -110,7 +110,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   RectSir rect_sir;
 
   // Register signal handler.
-  std::signal(SIGABRT, RectSir::abort);
+  auto old_handler = std::signal(SIGABRT, RectSir::abort);
 
   //
   // Call the analytic rect_sir subroutine.
@@ -123,6 +123,9 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                                      v, cp,
                                      h);
 
+  // Restore old signal handler.
+  std::signal(SIGABRT, old_handler);
+
   if (!rect_sir.is_running()) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/mex/mex_dream_arr_circ.cc b/mex/mex_dream_arr_circ.cc
index f3f3a95..983de20 100644
--- a/mex/mex_dream_arr_circ.cc
+++ b/mex/mex_dream_arr_circ.cc
@@ -165,7 +165,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   ArrCirc arr_circ;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  auto old_handler = std::signal(SIGINT, ArrCirc::abort);
 
   //
   // Call the DREAM subroutine.
@@ -183,6 +183,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_circ.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n");
diff --git a/mex/mex_dream_arr_cylind.cc b/mex/mex_dream_arr_cylind.cc
index 6d3b818..a1648ab 100644
--- a/mex/mex_dream_arr_cylind.cc
+++ b/mex/mex_dream_arr_cylind.cc
@@ -166,7 +166,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   ArrCylind arr_cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  auto old_handler = std::signal(SIGINT, ArrCylind::abort);
 
   //
   // Call the DREAM subroutine.
@@ -184,6 +184,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                                              apod.get(), do_apod, apod_met, apod_par,
                                              h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_cylind.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n");
diff --git a/mex/mex_dream_arr_rect.cc b/mex/mex_dream_arr_rect.cc
index 229a81a..3e22e44 100644
--- a/mex/mex_dream_arr_rect.cc
+++ b/mex/mex_dream_arr_rect.cc
@@ -166,7 +166,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   ArrRect arr_rect;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  auto old_handler = std::signal(SIGINT, ArrRect::abort);
 
   //
   // Call the DREAM subroutine.
@@ -184,6 +184,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_rect.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n");
diff --git a/mex/mex_dreamcirc.cc b/mex/mex_dreamcirc.cc
index 8487182..b8720bf 100644
--- a/mex/mex_dreamcirc.cc
+++ b/mex/mex_dreamcirc.cc
@@ -109,7 +109,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   Circ circ;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  auto old_handler = std::signal(SIGINT, Circ::abort);
 
   //
   // Call the DREAM subroutine.
@@ -123,6 +123,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                                 v,cp,
                                 h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!circ.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n");
diff --git a/mex/mex_dreamcirc_f.cc b/mex/mex_dreamcirc_f.cc
index ad92e8b..3393a98 100644
--- a/mex/mex_dreamcirc_f.cc
+++ b/mex/mex_dreamcirc_f.cc
@@ -122,7 +122,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   Circ_f circ_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  auto old_handler = std::signal(SIGINT, Circ_f::abort);
 
   //
   // Call the DREAM subroutine.
@@ -137,6 +137,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                                     v, cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!circ_f.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n");
diff --git a/mex/mex_dreamcylind.cc b/mex/mex_dreamcylind.cc
index 9795813..007fc9d 100644
--- a/mex/mex_dreamcylind.cc
+++ b/mex/mex_dreamcylind.cc
@@ -109,7 +109,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   Cylind cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  auto old_handler = std::signal(SIGINT, Cylind::abort);
 
   //
   // Call the DREAM subroutine.
@@ -127,6 +127,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Call the DREAM subroutine.
   //
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!cylind.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n");
diff --git a/mex/mex_dreamline.cc b/mex/mex_dreamline.cc
index 585fb1a..14f2497 100644
--- a/mex/mex_dreamline.cc
+++ b/mex/mex_dreamline.cc
@@ -109,7 +109,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   Line line;
 
   // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  auto old_handler = std::signal(SIGINT, Line::abort);
 
   //
   // Call the DREAM subroutine.
@@ -123,6 +123,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                                 v,cp,
                                 h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!line.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n");
diff --git a/mex/mex_dreamrect.cc b/mex/mex_dreamrect.cc
index 6757227..61888da 100644
--- a/mex/mex_dreamrect.cc
+++ b/mex/mex_dreamrect.cc
@@ -109,7 +109,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   Rect rect;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  auto old_handler = std::signal(SIGINT, Rect::abort);
 
   //
   // Call the DREAM subroutine.
@@ -123,6 +123,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                                 v,cp,
                                 h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!rect.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n");
diff --git a/mex/mex_dreamrect_f.cc b/mex/mex_dreamrect_f.cc
index 91ab2f6..94f10e3 100644
--- a/mex/mex_dreamrect_f.cc
+++ b/mex/mex_dreamrect_f.cc
@@ -122,7 +122,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   Rect_f rect_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  auto old_handler = std::signal(SIGINT, Rect_f::abort);
 
   //
   // Call the DREAM subroutine.
@@ -137,6 +137,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                                     v, cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!rect_f.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n");
diff --git a/mex/mex_dreamsphere.cc b/mex/mex_dreamsphere.cc
index 3bf1b8a..245bdf3 100644
--- a/mex/mex_dreamsphere.cc
+++ b/mex/mex_dreamsphere.cc
@@ -109,7 +109,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   Sphere sphere;
 
   // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  auto old_handler = std::signal(SIGINT, Sphere::abort);
 
   //
   // Call the DREAM subroutine.
@@ -123,6 +123,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                                     v,cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!sphere.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n");
-- 
2.43.0


From 8933ce8ab9e7c30bfd7fb486a9b3b5547888986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 54/60] fix: MEX functions read arguments of other classes as
 doubles, ignore the error level when a device is given, and dream_apodwin is
 wrong for 'off' and 'ud'

---
 extra_src/mex_circ_sir.cc   | 10 +++++-----
 extra_src/mex_rect_sir.cc   |  8 ++++----
 extra_src/mex_scirc_sir.cc  | 10 +++++-----
 include/arg_parser.h        | 18 ++++++++++++++++--
 mex/mex_dream_apodwin.cc    | 19 ++++++++++++++-----
 mex/mex_dream_arr_annu.cc   |  6 +++---
 mex/mex_dream_arr_circ.cc   |  6 +++---
 mex/mex_dream_arr_cylind.cc |  6 +++---
 mex/mex_dream_arr_rect.cc   |  6 +++---
 mex/mex_dream_att.cc        |  8 ++++----
 mex/mex_dreamcirc.cc        |  6 +++---
 mex/mex_dreamcirc_f.cc      |  4 ++--
 mex/mex_dreamcylind.cc      |  4 ++--
 mex/mex_dreamline.cc        |  4 ++--
 mex/mex_dreamrect.cc        |  6 +++---
 mex/mex_dreamrect_f.cc      |  4 ++--
 mex/mex_dreamsphere.cc      |  4 ++--
 17 files changed, 76 insertions(+), 53 deletions(-)

diff --git a/extra_src/mex_circ_sir.cc b/extra_src/mex_circ_sir.cc
index 9bd827c..bdb52ec 100644
--- a/extra_src/mex_circ_sir.cc
+++ b/extra_src/mex_circ_sir.cc
@@ -184,14 +184,14 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("circ_sir", prhs, 0);
   No = mxGetM(prhs[0]); // Number of observation points.
-  Ro = mxGetPr(prhs[0]);
+  Ro = ap.get_data(prhs, 0);
 
   //
   // Transducer geometry
   //
 
   ap.check_geometry("circ_sir", prhs, 1, 1);
-  geom_par = mxGetPr(prhs[1]);
+  geom_par = ap.get_data(prhs, 1);
   r  = geom_par[0];		// Radius of the transducer.
 
   //
@@ -199,7 +199,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_sampling("circ_sir", prhs, 2, 2);
-  s_par = mxGetPr(prhs[2]);
+  s_par = ap.get_data(prhs, 2);
   dt    = s_par[0]; // Temporal discretization size (= 1/sampling freq).
   nt    = (size_t) s_par[1]; // Length of SIR.
 
@@ -208,14 +208,14 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("circ_sir", prhs, 3, No);
-  delay = mxGetPr(prhs[3]);
+  delay = ap.get_data(prhs, 3);
 
   //
   // Material parameters
   //
 
   ap.check_material("circ_sir", prhs, 4, 2);
-  m_par = mxGetPr(prhs[4]);
+  m_par = ap.get_data(prhs, 4);
   v     = m_par[0]; // Normal velocity of transducer surface.
   cp    = m_par[1]; // Sound speed.
 
diff --git a/extra_src/mex_rect_sir.cc b/extra_src/mex_rect_sir.cc
index 35bb92a..8dc1960 100644
--- a/extra_src/mex_rect_sir.cc
+++ b/extra_src/mex_rect_sir.cc
@@ -48,7 +48,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("rect_sir", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Transducer geometry
@@ -67,7 +67,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("Argument 3 must be a vector of length 2!");
   }
 
-  double *s_par = mxGetPr(prhs[2]);
+  double *s_par = ap.get_data(prhs, 2);
   double dt = s_par[0];		// Temporal discretization size (= 1/sampling freq).
   dream_idx_type nt = (dream_idx_type) s_par[1];	// Length of SIR.
 
@@ -76,7 +76,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("rect_sir", prhs, 3, No);
-  double *delay = mxGetPr(prhs[3]);
+  double *delay = ap.get_data(prhs, 3);
 
   DelayType delay_type = DelayType::single;  // delay is a scalar.
   if (mxGetM(prhs[3]) * mxGetN(prhs[3]) != 1) {
@@ -93,7 +93,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("Argument 5 must be a vector of length 2!");
   }
 
-  double *m_par = mxGetPr(prhs[4]);
+  double *m_par = ap.get_data(prhs, 4);
   double v = m_par[0];       // Normal velocity of transducer surface.
   double cp = m_par[1];      // Sound speed.
 
diff --git a/extra_src/mex_scirc_sir.cc b/extra_src/mex_scirc_sir.cc
index d22b974..9671a32 100644
--- a/extra_src/mex_scirc_sir.cc
+++ b/extra_src/mex_scirc_sir.cc
@@ -185,14 +185,14 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("scirc_sir", prhs, 0);
   No = mxGetM(prhs[0]); // Number of observation points.
-  Ro = mxGetPr(prhs[0]);
+  Ro = ap.get_data(prhs, 0);
 
   //
   // Transducer geometry
   //
 
   ap.check_geometry("scirc_sir", prhs, 1, 1);
-  geom_par = mxGetPr(prhs[1]);
+  geom_par = ap.get_data(prhs, 1);
   r  = geom_par[0];		// Radius of the transducer.
 
   //
@@ -200,7 +200,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_sampling("scirc_sir", prhs, 2, 2);
-  s_par = mxGetPr(prhs[2]);
+  s_par = ap.get_data(prhs, 2);
   dt    = s_par[0];		// Temporal discretization size (= 1/sampling freq).
   nt    = (size_t) s_par[1];	// Length of SIR.
 
@@ -209,14 +209,14 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("scirc_sir", prhs, 3, No);
-  delay = mxGetPr(prhs[3]);
+  delay = ap.get_data(prhs, 3);
 
   //
   // Material parameters
   //
 
   ap.check_material("scirc_sir", prhs, 4, 2);
-  m_par = mxGetPr(prhs[4]);
+  m_par = ap.get_data(prhs, 4);
   v     = m_par[0]; // Normal velocity of transducer surface.
   cp    = m_par[1]; // Sound speed.
 
diff --git a/include/arg_parser.h b/include/arg_parser.h
index 30f6ea1..e383088 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -644,11 +644,25 @@ public:
   };
 
   double* get_data(args_t args, dream_idx_type arg_num) {
-    return (double*) mxGetPr(args[arg_num]);
+    const mxArray *arg = args[arg_num];
+    if (!mxIsDouble(arg) || mxIsComplex(arg) || mxGetNumberOfDimensions(arg) > 2) {
+      std::ostringstream s;
+      s << "Arg " << arg_num+1 << " must be a real double precision matrix!";
+      dream_err_msg(s.str().c_str());
+    }
+
+    return (double*) mxGetPr(arg);
   };
 
   double get_scalar(const args_t args, dream_idx_type arg_num) {
-    return mxGetScalar(args[arg_num]);
+    const mxArray *arg = args[arg_num];
+    if ((!mxIsNumeric(arg) && !mxIsLogical(arg)) || mxIsComplex(arg) || mxGetNumberOfElements(arg) != 1) {
+      std::ostringstream s;
+      s << "Arg " << arg_num+1 << " must be a real scalar!";
+      dream_err_msg(s.str().c_str());
+    }
+
+    return mxGetScalar(arg);
   };
 
   bool is_string (args_t args, dream_idx_type arg_num) {
diff --git a/mex/mex_dream_apodwin.cc b/mex/mex_dream_apodwin.cc
index d501d2b..29fa629 100644
--- a/mex/mex_dream_apodwin.cc
+++ b/mex/mex_dream_apodwin.cc
@@ -44,7 +44,16 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   ap.check_arg_in("dream_apodwin", nrhs, 3, 3);
   ap.check_arg_out("dream_apodwin", nlhs, 0, 1);
 
-  dream_idx_type num_elements = (dream_idx_type) mxGetScalar(prhs[1]);
+  dream_idx_type num_elements = 0;
+  if (ap.is_string(prhs, 0) && ap.get_string_arg(prhs, 0) == "ud") {
+    num_elements = mxGetNumberOfElements(prhs[1]); // A vector of apodization weights.
+  } else {
+    double len = ap.get_scalar(prhs, 1);
+    if (!(len >= 1.0)) {
+      dream_err_msg("Argument 2 must be the length of the apodization window (a positive scalar)!");
+    }
+    num_elements = (dream_idx_type) len;
+  }
 
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
@@ -60,11 +69,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   double weight=1.0;
   double ramax = 1.0;
   double ys = 0.0;
-  if (do_apod) {
-    for (dream_idx_type n=0; n<num_elements; n++) {
-      double xs = 2*ramax * (0.5 - ((double) n / (double) num_elements));
+  for (dream_idx_type n=0; n<num_elements; n++) {
+    double xs = 2*ramax * (0.5 - ((double) n / (double) num_elements));
+    if (do_apod) {
       apodization(apod_met, n, apod.get(), &weight, xs, ys, ramax, apod_par);
-      h[n] = weight;
     }
+    h[n] = weight;
   }
 }
diff --git a/mex/mex_dream_arr_annu.cc b/mex/mex_dream_arr_annu.cc
index 2e14e04..aaf66b1 100644
--- a/mex/mex_dream_arr_annu.cc
+++ b/mex/mex_dream_arr_annu.cc
@@ -50,7 +50,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("dream_arr_annu", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Grid function (radii vectors of the elements).
@@ -59,7 +59,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   ap.check_array_annu("dream_arr_annu", prhs, 1);
   dream_idx_type num_radii = mxGetM(prhs[1])*mxGetN(prhs[1]); // Center radius + inner and outer radii for each element.
   dream_idx_type num_elements = (num_radii+1)/2; // Number of elementents in the array.
-  double *Gr = mxGetPr(prhs[1]);	// Vector of annular radi,
+  double *Gr = ap.get_data(prhs, 1);	// Vector of annular radi,
 
   //
   // Temporal and spatial sampling parameters.
@@ -74,7 +74,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("dream_arr_annu", prhs, 3, No);
-  double *delay = mxGetPr(prhs[3]);
+  double *delay = ap.get_data(prhs, 3);
 
   DelayType delay_type = DelayType::single;  // delay is a scalar.
   if (mxGetM(prhs[3]) * mxGetN(prhs[3]) != 1) {
diff --git a/mex/mex_dream_arr_circ.cc b/mex/mex_dream_arr_circ.cc
index 983de20..f41ecf4 100644
--- a/mex/mex_dream_arr_circ.cc
+++ b/mex/mex_dream_arr_circ.cc
@@ -51,7 +51,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("dream_arr_circ", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Element size (radius [mm]).
@@ -66,7 +66,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_array("dream_arr_circ", prhs, 2);
   dream_idx_type num_elements = mxGetM(prhs[2]); // Number of elementents in the array.
-  double *G = mxGetPr(prhs[2]);		// First column in the matrix.
+  double *G = ap.get_data(prhs, 2);		// First column in the matrix.
   //gy    = gx + num_elements;		// Second column in the matrix.
   //gz    = gy + num_elements;		// Third column in the matrix.
 
@@ -83,7 +83,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("dream_arr_circ", prhs, 4, No);
-  double *delay = mxGetPr(prhs[4]);
+  double *delay = ap.get_data(prhs, 4);
 
   DelayType delay_type = DelayType::single;  // delay is a scalar.
   if (mxGetM(prhs[4]) * mxGetN(prhs[4]) != 1) {
diff --git a/mex/mex_dream_arr_cylind.cc b/mex/mex_dream_arr_cylind.cc
index a1648ab..b0591ab 100644
--- a/mex/mex_dream_arr_cylind.cc
+++ b/mex/mex_dream_arr_cylind.cc
@@ -51,7 +51,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("dream_arr_cylind", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Transducer geometry
@@ -67,7 +67,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   ap.check_array("dream_arr_cylind", prhs, 2);
 
   dream_idx_type num_elements = mxGetM(prhs[2]); // Number of elementents in the array.
-  double *G = mxGetPr(prhs[2]);         // First column in the matrix.
+  double *G = ap.get_data(prhs, 2);         // First column in the matrix.
   //gy    = gx + num_elements;          // Second column in the matrix.
   //gz    = gy + num_elements;          // Third column in the matrix.
 
@@ -84,7 +84,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("dream_arr_cylind", prhs, 4, No);
-  double *delay = mxGetPr(prhs[4]);
+  double *delay = ap.get_data(prhs, 4);
 
   DelayType delay_type = DelayType::single;  // delay is a scalar.
   if (mxGetM(prhs[4]) * mxGetN(prhs[4]) != 1) {
diff --git a/mex/mex_dream_arr_rect.cc b/mex/mex_dream_arr_rect.cc
index 3e22e44..48f8e3c 100644
--- a/mex/mex_dream_arr_rect.cc
+++ b/mex/mex_dream_arr_rect.cc
@@ -51,7 +51,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("dream_arr_rect", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Transducer geometry
@@ -67,7 +67,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   ap.check_array("dream_arr_rect", prhs, 2);
 
   dream_idx_type num_elements = mxGetM(prhs[2]); // Number of elementents in the array.
-  double *G = mxGetPr(prhs[2]);                 // First column in the matrix.
+  double *G = ap.get_data(prhs, 2);                 // First column in the matrix.
   //gy    = gx + num_elements;		// Second column in the matrix.
   //gz    = gy + num_elements;		// Third column in the matrix.
 
@@ -84,7 +84,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("dream_arr_rect", prhs, 4, No);
-  double *delay = mxGetPr(prhs[4]);
+  double *delay = ap.get_data(prhs, 4);
 
   DelayType delay_type = DelayType::single;  // delay is a scalar.
   if (mxGetM(prhs[4]) * mxGetN(prhs[4]) != 1) {
diff --git a/mex/mex_dream_att.cc b/mex/mex_dream_att.cc
index 88872f5..800f78b 100644
--- a/mex/mex_dream_att.cc
+++ b/mex/mex_dream_att.cc
@@ -49,7 +49,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("dream_att", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Temporal and spatial sampling parameters.
@@ -60,7 +60,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("Argument 2 must be a vector of length 2!");
   }
 
-  double *s_par = mxGetPr(prhs[1]);
+  double *s_par = ap.get_data(prhs, 1);
   double dt = s_par[0];		// Temporal discretization size (= 1/sampling freq).
   dream_idx_type nt = (dream_idx_type) s_par[1];	// Length of SIR.
 
@@ -69,7 +69,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("dream_att", prhs, 2, No);
-  double *delay = mxGetPr(prhs[2]);
+  double *delay = ap.get_data(prhs, 2);
 
   //
   // Material parameters
@@ -80,7 +80,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("Argument 4 must be a vector of length 2!");
   }
 
-  double *m_par = mxGetPr(prhs[3]);
+  double *m_par = ap.get_data(prhs, 3);
   double cp    = m_par[0]; // Sound speed.
   double alpha = m_par[1]; // Attenuation coefficient [dB/(cm MHz)].
 
diff --git a/mex/mex_dreamcirc.cc b/mex/mex_dreamcirc.cc
index b8720bf..8eca7df 100644
--- a/mex/mex_dreamcirc.cc
+++ b/mex/mex_dreamcirc.cc
@@ -51,7 +51,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("dreamcirc", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Transducer geometry
@@ -73,7 +73,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("dreamcirc", prhs, 3, No);
-  double *delay = mxGetPr(prhs[3]);
+  double *delay = ap.get_data(prhs, 3);
 
   DelayType delay_type = DelayType::single;  // delay is a scalar.
   if (mxGetM(prhs[3]) * mxGetN(prhs[3]) != 1) {
@@ -93,7 +93,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ErrorLevel err_level=ErrorLevel::stop;
 
-  if (nrhs == 6) {
+  if (nrhs >= 6) {
     ap.parse_error_arg("dreamcirc", prhs, 5, err_level);
   } else {
     err_level = ErrorLevel::stop; // Default.
diff --git a/mex/mex_dreamcirc_f.cc b/mex/mex_dreamcirc_f.cc
index 3393a98..0d9f341 100644
--- a/mex/mex_dreamcirc_f.cc
+++ b/mex/mex_dreamcirc_f.cc
@@ -51,7 +51,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("dreamcirc_f", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Transducer geometry
@@ -73,7 +73,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("dreamcirc_f", prhs, 3, No);
-  double *delay = mxGetPr(prhs[3]);
+  double *delay = ap.get_data(prhs, 3);
 
   DelayType delay_type = DelayType::single;  // delay is a scalar.
   if (mxGetM(prhs[3]) * mxGetN(prhs[3]) != 1) {
diff --git a/mex/mex_dreamcylind.cc b/mex/mex_dreamcylind.cc
index 007fc9d..24a8223 100644
--- a/mex/mex_dreamcylind.cc
+++ b/mex/mex_dreamcylind.cc
@@ -51,7 +51,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("dreamcylind", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Transducer geometry
@@ -73,7 +73,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("dreamcylind", prhs, 3, No);
-  double *delay = mxGetPr(prhs[3]);
+  double *delay = ap.get_data(prhs, 3);
 
   DelayType delay_type = DelayType::single;  // delay is a scalar.
   if (mxGetM(prhs[3]) * mxGetN(prhs[3]) != 1) {
diff --git a/mex/mex_dreamline.cc b/mex/mex_dreamline.cc
index 14f2497..61fa9de 100644
--- a/mex/mex_dreamline.cc
+++ b/mex/mex_dreamline.cc
@@ -51,7 +51,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("dreamline", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Transducer geometry
@@ -73,7 +73,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("dreamline", prhs, 3, No);
-  double *delay = mxGetPr(prhs[3]);
+  double *delay = ap.get_data(prhs, 3);
 
   DelayType delay_type = DelayType::single;  // delay is a scalar.
   if (mxGetM(prhs[3]) * mxGetN(prhs[3]) != 1) {
diff --git a/mex/mex_dreamrect.cc b/mex/mex_dreamrect.cc
index 61888da..de1f457 100644
--- a/mex/mex_dreamrect.cc
+++ b/mex/mex_dreamrect.cc
@@ -51,7 +51,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("dreamrect", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Transducer geometry
@@ -73,7 +73,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("dreamrect", prhs, 3, No);
-  double *delay = mxGetPr(prhs[3]);
+  double *delay = ap.get_data(prhs, 3);
 
   DelayType delay_type = DelayType::single;  // delay is a scalar.
   if (mxGetM(prhs[3]) * mxGetN(prhs[3]) != 1) {
@@ -93,7 +93,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ErrorLevel err_level=ErrorLevel::stop;
 
-  if (nrhs == 6) {
+  if (nrhs >= 6) {
     ap.parse_error_arg("dreamline", prhs, 5, err_level);
   } else {
     err_level = ErrorLevel::stop; // Default.
diff --git a/mex/mex_dreamrect_f.cc b/mex/mex_dreamrect_f.cc
index 94f10e3..f0df8d1 100644
--- a/mex/mex_dreamrect_f.cc
+++ b/mex/mex_dreamrect_f.cc
@@ -51,7 +51,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("dreamrect_f", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Transducer geometry
@@ -73,7 +73,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("dreamrect_f", prhs, 3, No);
-  double *delay = mxGetPr(prhs[3]);
+  double *delay = ap.get_data(prhs, 3);
 
   DelayType delay_type = DelayType::single;  // delay is a scalar.
   if (mxGetM(prhs[3]) * mxGetN(prhs[3]) != 1) {
diff --git a/mex/mex_dreamsphere.cc b/mex/mex_dreamsphere.cc
index 245bdf3..a8f81de 100644
--- a/mex/mex_dreamsphere.cc
+++ b/mex/mex_dreamsphere.cc
@@ -51,7 +51,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_obs_points("dreamsphere", prhs, 0);
   dream_idx_type No = mxGetM(prhs[0]); // Number of observation points.
-  double *Ro = mxGetPr(prhs[0]);
+  double *Ro = ap.get_data(prhs, 0);
 
   //
   // Transducer geometry
@@ -73,7 +73,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   //
 
   ap.check_delay("dreamsphere", prhs, 3, No);
-  double *delay = mxGetPr(prhs[3]);
+  double *delay = ap.get_data(prhs, 3);
 
   DelayType delay_type = DelayType::single;  // delay is a scalar.
   if (mxGetM(prhs[3]) * mxGetN(prhs[3]) != 1) {
-- 
2.43.0


From 9c6cdb6b5f158e97d5fff11dcc8792ae83407924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 55/60] fix: MEX convolution functions read arguments of other
 classes as doubles, crash on empty arguments, and leave signal handlers
 installed when the output size is wrong

---
 extra_src/mex_conv_p.cc      | 13 ++++++++++
 extra_src/mex_fftconv_ola.cc | 47 ++++++++++++++++++++++--------------
 extra_src/mex_fftconv_p.cc   | 43 +++++++++++++++++++++------------
 extra_src/mex_sum_fftconv.cc | 43 +++++++++++++++++++++------------
 4 files changed, 96 insertions(+), 50 deletions(-)

diff --git a/extra_src/mex_conv_p.cc b/extra_src/mex_conv_p.cc
index 756ce4b..e32d6ea 100644
--- a/extra_src/mex_conv_p.cc
+++ b/extra_src/mex_conv_p.cc
@@ -195,6 +195,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       if (is_set == false) {
         dream_err_msg("Non-valid string in arg 4!");
       }
+    } else { // 4th arg not a string
+      dream_err_msg("Argument 4 is not a valid string format!");
     }
     break;
 
@@ -203,6 +205,13 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     break;
   }
 
+  // The data must be real double precision matrices.
+  if (!mxIsDouble(prhs[0]) || mxIsComplex(prhs[0]) || mxIsEmpty(prhs[0]) ||
+      !mxIsDouble(prhs[1]) || mxIsComplex(prhs[1]) || mxIsEmpty(prhs[1]) ||
+      mxGetNumberOfDimensions(prhs[0]) > 2 || mxGetNumberOfDimensions(prhs[1]) > 2) {
+    dream_err_msg("Argument 1 and 2 must be non-empty (real) double precision matrices!");
+  }
+
   A_M = mxGetM(prhs[0]);
   A_N = mxGetN(prhs[0]);
   A = mxGetPr(prhs[0]);
@@ -259,6 +268,10 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     // in-place mode.
     //
 
+    if (!mxIsDouble(prhs[2]) || mxIsComplex(prhs[2])) {
+      dream_err_msg("Argument 3 must be a (double precision) matrix, since it is modified in place!");
+    }
+
     if ( mxGetM(prhs[2]) != A_M+B_M-1)
       dream_err_msg("Wrong number of rows in argument 3!");
 
diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 0d11cb0..a17f6c1 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -336,6 +336,13 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     return_wisdom = true;
   }
 
+  // The data must be real double precision matrices.
+  if (!mxIsDouble(prhs[0]) || mxIsComplex(prhs[0]) || mxIsEmpty(prhs[0]) ||
+      !mxIsDouble(prhs[1]) || mxIsComplex(prhs[1]) || mxIsEmpty(prhs[1]) ||
+      mxGetNumberOfDimensions(prhs[0]) > 2 || mxGetNumberOfDimensions(prhs[1]) > 2) {
+    dream_err_msg("Argument 1 and 2 must be non-empty (real) double precision matrices!");
+  }
+
   dream_idx_type A_M = mxGetM(prhs[0]);
   dream_idx_type A_N = mxGetN(prhs[0]);
   double *A = mxGetPr(prhs[0]);
@@ -356,10 +363,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // The segment length (block length).
 
-  if (mxGetM(prhs[2])*mxGetN(prhs[2]) != 1) {
+  if (!mxIsNumeric(prhs[2]) || mxIsComplex(prhs[2]) || mxGetM(prhs[2])*mxGetN(prhs[2]) != 1) {
     dream_err_msg("Argument 3 must be a scalar!");
   }
-  block_len = (dream_idx_type) mxGetPr(prhs[2])[0]; // Get scalar
+  block_len = (dream_idx_type) mxGetScalar(prhs[2]); // Get scalar
 
   if (block_len < 1 || block_len > A_M) {
     dream_err_msg("Argument 3 is out of bounds! Must be > 0 and less than number of rows of arg 1!");
@@ -502,22 +509,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   // ********************************************
   //
   // Init the FFTW plans.
@@ -550,6 +541,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   if ( (nrhs == 4 && !load_wisdom) || nrhs == 5 || nrhs == 6) {
 
+    if (!mxIsDouble(prhs[3]) || mxIsComplex(prhs[3])) {
+      dream_err_msg("Argument 4 must be a (double precision) matrix, since it is modified in place!");
+    }
+
     if ( mxGetM(prhs[3]) != A_M+B_M-1) {
       dream_err_msg("Wrong number of rows in argument 3!");
     }
@@ -561,6 +556,22 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     Y = mxGetPr(prhs[3]);
   }
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   // Init thread data.
   threads = new std::thread[nthreads];
   if (!threads) {
diff --git a/extra_src/mex_fftconv_p.cc b/extra_src/mex_fftconv_p.cc
index e982699..edd8255 100644
--- a/extra_src/mex_fftconv_p.cc
+++ b/extra_src/mex_fftconv_p.cc
@@ -235,6 +235,13 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     return_wisdom = true;
   }
 
+  // The data must be real double precision matrices.
+  if (!mxIsDouble(prhs[0]) || mxIsComplex(prhs[0]) || mxIsEmpty(prhs[0]) ||
+      !mxIsDouble(prhs[1]) || mxIsComplex(prhs[1]) || mxIsEmpty(prhs[1]) ||
+      mxGetNumberOfDimensions(prhs[0]) > 2 || mxGetNumberOfDimensions(prhs[1]) > 2) {
+    dream_err_msg("Argument 1 and 2 must be non-empty (real) double precision matrices!");
+  }
+
   A_M = mxGetM(prhs[0]);
   A_N = mxGetN(prhs[0]);
   A = mxGetPr(prhs[0]);
@@ -380,22 +387,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   //
   // Init the FFTW plans.
   //
@@ -425,6 +416,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   if ( (nrhs == 3 && !load_wisdom) || nrhs == 4 || nrhs == 5) {
 
+    if (!mxIsDouble(prhs[2]) || mxIsComplex(prhs[2])) {
+      dream_err_msg("Argument 3 must be a (double precision) matrix, since it is modified in place!");
+    }
+
     if ( mxGetM(prhs[2]) != A_M+B_M-1) {
       dream_err_msg("Wrong number of rows in argument 3!");
     }
@@ -436,6 +431,22 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     Y =  mxGetPr(prhs[2]);
   }
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   //
   // Call the CONV subroutine.
   //
diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index 736dcac..42be952 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -198,6 +198,13 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     return_wisdom = true;
   }
 
+  // The data must be non-empty real double precision arrays.
+  if (!mxIsDouble(prhs[0]) || mxIsComplex(prhs[0]) || mxIsEmpty(prhs[0]) ||
+      !mxIsDouble(prhs[1]) || mxIsComplex(prhs[1]) || mxIsEmpty(prhs[1]) ||
+      mxGetNumberOfDimensions(prhs[1]) > 2) {
+    dream_err_msg("Argument 1 and 2 must be non-empty (real) double precision arrays!");
+  }
+
   const mwSize *dv;
   //const long *dv; // This gives a runtime error.
   int dims;
@@ -313,22 +320,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   //
   // Init the FFTW plans.
   //
@@ -360,6 +351,10 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   if ( (nrhs == 3 && !load_wisdom) || nrhs == 4 ) {
 
+    if (!mxIsDouble(prhs[2]) || mxIsComplex(prhs[2])) {
+      dream_err_msg("Argument 3 must be a (double precision) matrix, since it is modified in place!");
+    }
+
     if ( mxGetM(prhs[2]) != fft_len)
       dream_err_msg("Wrong number of rows in argument 4!");
 
@@ -369,6 +364,22 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     Y = mxGetPr(prhs[2]);
   }
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   //
   // Call the CONV subroutine.
   //
-- 
2.43.0


From fcf164d3e69522961aba418aaf423e70e465dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:20 +0000
Subject: [PATCH 56/60] fix: MEX das reads a first argument that is not numeric
 as doubles

---
 extra_src/mex_das.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index 150295b..4583aca 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -69,11 +69,12 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       return;
     }
   } else {
-    if (!(mxIsDouble(prhs[1]) &&
+    if (!(mxIsDouble(prhs[0]) &&
+          mxIsDouble(prhs[1]) &&
           mxIsDouble(prhs[2]) &&
           mxIsDouble(prhs[3]) &&
           mxIsDouble(prhs[5])) ) {
-      dream_err_msg("First arg is double precision but one of arg 2, 3, 4, or 6 is not!");
+      dream_err_msg("Arg 1, 2, 3, 4, and 6 must all be either double or single precision!");
       return;
     }
   }
-- 
2.43.0


From 86b942e19a9fde7ac878a20fc3d120fae3497fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:20 +0000
Subject: [PATCH 57/60] fix: Julia das accepts any device, A-scans that do not
 match the arrays, uses the GPU for delay vectors and reports out-of-bounds as
 CTRL-C

---
 julia/include/jl_das.hpp | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/julia/include/jl_das.hpp b/julia/include/jl_das.hpp
index ad474ae..09f2ade 100644
--- a/julia/include/jl_das.hpp
+++ b/julia/include/jl_das.hpp
@@ -88,6 +88,17 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
     Gr = static_cast<T*>(ap.get_data(jl_Gr));
   }
 
+  // SAFT data has one A-scan per transmit element and TFM and RCA data one for each
+  // transmit and receive element pair.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (num_r_elements != 0) {
+    num_a_scans *= num_r_elements;
+  }
+
+  if (ap.get_n(jl_Y) != num_a_scans) {
+    throw std::runtime_error("The number of A-scans (columns) in argument 1 does not match the number of array elements!");
+  }
+
   //
   // Observation point.
   //
@@ -140,7 +151,7 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
   // Compute device
   //
 
-  if (device_str != "cpu" && device_str == "gpu") {
+  if (device_str != "cpu" && device_str != "gpu") {
     throw std::runtime_error("Error in das - unkown compute device string!");
   }
 
@@ -163,7 +174,7 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
   // We use this to make the GPU init code run
   bool use_gpu = false;
 #ifdef USE_OPENCL
-  if (device_str == "gpu") {
+  if (device_str == "gpu" && delay_type == DelayType::single) { // No GPU support for delay vectors.
     use_gpu = true;
   }
 #endif
@@ -211,33 +222,40 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
   das->set_running();
 
   // Register signal handler.
-  std::signal(SIGABRT, DAS<T>::abort);
+  auto old_handler = std::signal(SIGABRT, DAS<T>::abort);
 
 #ifdef USE_OPENCL
 
   // Check if we should use the GPU
-  if (device_str == "gpu") {
+  if (use_gpu) {
 
     das->cl_das(Y, Ro, Gt, Gr, dt, delay[0], cp, Im);
 
+    // Restore old signal handler.
+    std::signal(SIGABRT, old_handler);
+
   } else { // Otherwise use the cpu
 
-#endif
+#else
 
     if (device_str == "gpu") {
       std::cout << "Warning: Compute device set to 'gpu' but DREAM is build without OpenCL support!" << std::endl;
       std::cout << "Using the CPU backend!" << std::endl;
     }
 
+#endif
+
     err = das->das(Y, Ro, Gt, Gr, dt, delay_type, delay, cp, Im, err_level);
+
+    // Restore old signal handler.
+    std::signal(SIGABRT, old_handler);
+
     if (!das->is_running()) {
       if (err == SIRError::out_of_bounds) {
-        dream_err_msg("DAS out-of-bounds!\n"); // Bail out.
+        throw std::runtime_error("DAS out-of-bounds!\n"); // Bail out.
       } else {
-        dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+        throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
       }
-
-      throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
     }
 
 #ifdef USE_OPENCL
-- 
2.43.0


From 8f53ffd96a484e09e96daed25ad0ecbb706685e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:20 +0000
Subject: [PATCH 58/60] fix: Julia convolution functions crash for empty
 arguments and return partial results when interrupted

---
 julia/src/jl_conv_p.cc    | 8 ++++++++
 julia/src/jl_fftconv_p.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/julia/src/jl_conv_p.cc b/julia/src/jl_conv_p.cc
index bffd5d1..c3560dd 100644
--- a/julia/src/jl_conv_p.cc
+++ b/julia/src/jl_conv_p.cc
@@ -149,6 +149,10 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
   dream_idx_type B_M = (dream_idx_type) ap.get_m(jl_B);
   dream_idx_type B_N = (dream_idx_type) ap.get_n(jl_B);
 
+  if (A_M*A_N == 0 || B_M*B_N == 0) {
+    throw std::runtime_error("The input arguments must not be empty!");
+  }
+
   // Check that arg 2 has the correct dim (matrix or vector allowed).
   if ( B_M != 1 && B_N !=1 && B_N != A_N) {
     throw std::runtime_error("Argument 2 must be a vector or a matrix with the same number of columns as arg 1!");
@@ -280,6 +284,10 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
     std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
   }
 
+  if (!running) {
+    throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
+  }
+
   return jl_Y_mat;
 }
 
diff --git a/julia/src/jl_fftconv_p.cc b/julia/src/jl_fftconv_p.cc
index dc17fc9..04db0da 100644
--- a/julia/src/jl_fftconv_p.cc
+++ b/julia/src/jl_fftconv_p.cc
@@ -199,6 +199,10 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
   dream_idx_type B_M = (dream_idx_type) ap.get_m(jl_B);
   dream_idx_type B_N = (dream_idx_type) ap.get_n(jl_B);
 
+  if (A_M*A_N == 0 || B_M*B_N == 0) {
+    throw std::runtime_error("The input arguments must not be empty!");
+  }
+
   // Check that arg 2 has the correct dim (matrix or vector allowed).
   if ( B_M != 1 && B_N !=1 && B_N != A_N) {
     throw std::runtime_error("Argument 2 must be a vector or a matrix with the same number of columns as arg 1!");
@@ -343,6 +347,10 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
     std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
   }
 
+  if (!running) {
+    throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
+  }
+
   return jl_Y_mat;
 }
 
-- 
2.43.0


From 4de24b2ddeb303adb880afe2179922a263ee1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:20 +0000
Subject: [PATCH 59/60] fix: Julia functions leave their signal handlers
 installed, ignore the window parameter, read the annular radii wrongly and
 accept empty delays

---
 include/arg_parser_julia.h       |  4 ++--
 julia/src/jl_dream_arr_annu.cc   | 12 ++++++++----
 julia/src/jl_dream_arr_circ.cc   |  7 +++++--
 julia/src/jl_dream_arr_cylind.cc |  7 +++++--
 julia/src/jl_dream_arr_rect.cc   |  7 +++++--
 julia/src/jl_dreamcirc.cc        |  5 ++++-
 julia/src/jl_dreamcirc_f.cc      |  5 ++++-
 julia/src/jl_dreamcylind.cc      |  9 ++++++++-
 julia/src/jl_dreamline.cc        |  5 ++++-
 julia/src/jl_dreamrect.cc        |  5 ++++-
 julia/src/jl_dreamrect_f.cc      |  5 ++++-
 julia/src/jl_dreamsphere.cc      |  5 ++++-
 12 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/include/arg_parser_julia.h b/include/arg_parser_julia.h
index fe026ff..5dd8287 100644
--- a/include/arg_parser_julia.h
+++ b/include/arg_parser_julia.h
@@ -267,8 +267,8 @@ public:
 
     //dream_idx_type delay_len = get_m(jl_focal)*get_n(jl_focal);
     dream_idx_type delay_len = get_len(jl_focal);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-      s << func_name <<  " requires that delay arg must be a " << delay_len << " element vector";
+    if ( (delay_len != 1) && (delay_len != No) ) { // delay is a vector
+      s << func_name <<  " requires that delay arg must be a " << No << " element vector";
       s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
diff --git a/julia/src/jl_dream_arr_annu.cc b/julia/src/jl_dream_arr_annu.cc
index 18922ea..a27a740 100644
--- a/julia/src/jl_dream_arr_annu.cc
+++ b/julia/src/jl_dream_arr_annu.cc
@@ -71,7 +71,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
   auto G_m = ap.get_len(jl_G);
   double *G = ap.get_data(jl_G);
 
-  dream_idx_type num_elements = (dream_idx_type) G_m;
+  dream_idx_type num_radii = (dream_idx_type) G_m;
+  dream_idx_type num_elements = (num_radii+1)/2;
 
   //
   // Temporal and spatial sampling parameters.
@@ -130,7 +131,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_annu", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_annu!");
@@ -159,7 +160,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
   ArrAnnu arr_annu;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrAnnu::abort);
+  auto old_handler = std::signal(SIGINT, ArrAnnu::abort);
 
   //
   // Call DREAM function
@@ -170,11 +171,14 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
                                          dx, dy,  dt, nt,
                                          delay_type, delay,
                                          v, cp,
-                                         num_elements, G,
+                                         num_radii, G,
                                          foc_met, focal.get(),
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_annu.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/julia/src/jl_dream_arr_circ.cc b/julia/src/jl_dream_arr_circ.cc
index 1a01b3e..e75194f 100644
--- a/julia/src/jl_dream_arr_circ.cc
+++ b/julia/src/jl_dream_arr_circ.cc
@@ -154,7 +154,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_circ(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_circ", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_circ!");
@@ -182,7 +182,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_circ(jl::ArrayRef<double, 2> jl_ro,
   ArrCirc arr_circ;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  auto old_handler = std::signal(SIGINT, ArrCirc::abort);
 
   //
   // Call DREAM function
@@ -200,6 +200,9 @@ jl::ArrayRef<double, 2> jl_dream_arr_circ(jl::ArrayRef<double, 2> jl_ro,
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_circ.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/julia/src/jl_dream_arr_cylind.cc b/julia/src/jl_dream_arr_cylind.cc
index 7887996..2f9934f 100644
--- a/julia/src/jl_dream_arr_cylind.cc
+++ b/julia/src/jl_dream_arr_cylind.cc
@@ -154,7 +154,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_cylind(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_cylind", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_cylind!");
@@ -182,7 +182,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_cylind(jl::ArrayRef<double, 2> jl_ro,
   ArrCylind arr_cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  auto old_handler = std::signal(SIGINT, ArrCylind::abort);
 
   //
   // Call DREAM function
@@ -200,6 +200,9 @@ jl::ArrayRef<double, 2> jl_dream_arr_cylind(jl::ArrayRef<double, 2> jl_ro,
                                     apod.get(), do_apod, apod_met, apod_par,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_cylind.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/julia/src/jl_dream_arr_rect.cc b/julia/src/jl_dream_arr_rect.cc
index 2fcac32..20ffffa 100644
--- a/julia/src/jl_dream_arr_rect.cc
+++ b/julia/src/jl_dream_arr_rect.cc
@@ -154,7 +154,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_rect(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_rect", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_rect!");
@@ -182,7 +182,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_rect(jl::ArrayRef<double, 2> jl_ro,
   ArrRect arr_rect;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  auto old_handler = std::signal(SIGINT, ArrRect::abort);
 
   //
   // Call DREAM function
@@ -200,6 +200,9 @@ jl::ArrayRef<double, 2> jl_dream_arr_rect(jl::ArrayRef<double, 2> jl_ro,
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_rect.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/julia/src/jl_dreamcirc.cc b/julia/src/jl_dreamcirc.cc
index 6a7559c..6237937 100644
--- a/julia/src/jl_dreamcirc.cc
+++ b/julia/src/jl_dreamcirc.cc
@@ -121,7 +121,7 @@ jl::ArrayRef<double, 2> jl_dreamcirc(jl::ArrayRef<double, 2> jl_ro,
   Circ circ;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  auto old_handler = std::signal(SIGINT, Circ::abort);
 
   //
   // Call DREAM function
@@ -135,6 +135,9 @@ jl::ArrayRef<double, 2> jl_dreamcirc(jl::ArrayRef<double, 2> jl_ro,
                                 v, cp,
                                 h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!circ.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/julia/src/jl_dreamcirc_f.cc b/julia/src/jl_dreamcirc_f.cc
index 2e9308d..e08a373 100644
--- a/julia/src/jl_dreamcirc_f.cc
+++ b/julia/src/jl_dreamcirc_f.cc
@@ -134,7 +134,7 @@ jl::ArrayRef<double, 2> jl_dreamcirc_f(jl::ArrayRef<double, 2> jl_ro,
   Circ_f circ_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  auto old_handler = std::signal(SIGINT, Circ_f::abort);
 
   //
   // Call DREAM function
@@ -149,6 +149,9 @@ jl::ArrayRef<double, 2> jl_dreamcirc_f(jl::ArrayRef<double, 2> jl_ro,
                                     v, cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!circ_f.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/julia/src/jl_dreamcylind.cc b/julia/src/jl_dreamcylind.cc
index d64b43e..8a3758e 100644
--- a/julia/src/jl_dreamcylind.cc
+++ b/julia/src/jl_dreamcylind.cc
@@ -121,7 +121,7 @@ jl::ArrayRef<double, 2> jl_dreamcylind(jl::ArrayRef<double, 2> jl_ro,
   Cylind cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  auto old_handler = std::signal(SIGINT, Cylind::abort);
 
   //
   // Call DREAM function
@@ -135,6 +135,9 @@ jl::ArrayRef<double, 2> jl_dreamcylind(jl::ArrayRef<double, 2> jl_ro,
                                     v, cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!cylind.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
@@ -145,6 +148,10 @@ jl::ArrayRef<double, 2> jl_dreamcylind(jl::ArrayRef<double, 2> jl_ro,
     throw std::runtime_error("Error in dreamcylind!");
   }
 
+  if (err == SIRError::warn_out_of_bounds) {
+    std::cout << "Warning: SIR out-of-bounds!" << std::endl;
+  }
+
   return jl_h_mat;
 }
 
diff --git a/julia/src/jl_dreamline.cc b/julia/src/jl_dreamline.cc
index 5283b4b..b702566 100644
--- a/julia/src/jl_dreamline.cc
+++ b/julia/src/jl_dreamline.cc
@@ -121,7 +121,7 @@ jl::ArrayRef<double, 2> jl_dreamline(jl::ArrayRef<double, 2> jl_ro,
   Line line;
 
   // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  auto old_handler = std::signal(SIGINT, Line::abort);
 
   //
   // Call DREAM function
@@ -135,6 +135,9 @@ jl::ArrayRef<double, 2> jl_dreamline(jl::ArrayRef<double, 2> jl_ro,
                        v, cp,
                        h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!line.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/julia/src/jl_dreamrect.cc b/julia/src/jl_dreamrect.cc
index f9af430..fac4787 100644
--- a/julia/src/jl_dreamrect.cc
+++ b/julia/src/jl_dreamrect.cc
@@ -121,7 +121,7 @@ jl::ArrayRef<double, 2> jl_dreamrect(jl::ArrayRef<double, 2> jl_ro,
   Rect rect;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  auto old_handler = std::signal(SIGINT, Rect::abort);
 
   //
   // Call DREAM function
@@ -135,6 +135,9 @@ jl::ArrayRef<double, 2> jl_dreamrect(jl::ArrayRef<double, 2> jl_ro,
                                 v, cp,
                                 h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!rect.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/julia/src/jl_dreamrect_f.cc b/julia/src/jl_dreamrect_f.cc
index 05d36b9..0d1d3ca 100644
--- a/julia/src/jl_dreamrect_f.cc
+++ b/julia/src/jl_dreamrect_f.cc
@@ -134,7 +134,7 @@ jl::ArrayRef<double, 2> jl_dreamrect_f(jl::ArrayRef<double, 2> jl_ro,
   Rect_f rect_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  auto old_handler = std::signal(SIGINT, Rect_f::abort);
 
   //
   // Call DREAM function
@@ -149,6 +149,9 @@ jl::ArrayRef<double, 2> jl_dreamrect_f(jl::ArrayRef<double, 2> jl_ro,
                                     v, cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!rect_f.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/julia/src/jl_dreamsphere.cc b/julia/src/jl_dreamsphere.cc
index 58e6065..7d5ba76 100644
--- a/julia/src/jl_dreamsphere.cc
+++ b/julia/src/jl_dreamsphere.cc
@@ -121,7 +121,7 @@ jl::ArrayRef<double, 2> jl_dreamsphere(jl::ArrayRef<double, 2> jl_ro,
   Sphere sphere;
 
   // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  auto old_handler = std::signal(SIGINT, Sphere::abort);
 
   //
   // Call DREAM function
@@ -135,6 +135,9 @@ jl::ArrayRef<double, 2> jl_dreamsphere(jl::ArrayRef<double, 2> jl_ro,
                                     v, cp,
                                     h, err_level);
 
+  // Restore old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!sphere.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
-- 
2.43.0


From 33d7d4e722d1f3517848f35b02673c4a1564ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:38 +0000
Subject: [PATCH 60/60] fix: h2o_soundspeed has wrong exponents in three terms
 of Del Grosso's equation

---
 m_files/h2o_soundspeed.m | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m_files/h2o_soundspeed.m b/m_files/h2o_soundspeed.m
index 44ef2f6..c8b4483 100644
--- a/m_files/h2o_soundspeed.m
+++ b/m_files/h2o_soundspeed.m
@@ -71,7 +71,7 @@ end
              + 0.221535969240e-3  .* T.^3;
 
   deltaC_S = 0.132952290781e1   .* S ...
-             + 0.128955756844e-3 .* S.^3;
+             + 0.128955756844e-3 .* S.^2;
 
   deltaC_P = 0.156059257041     .* P ...
              + 0.244998688441e-4 .* P.^2 ...
@@ -80,10 +80,10 @@ end
   deltaC_STP = - 0.127562783426e-1.*T.*S  ...
                + 0.635191613389e-2 .* T    .* P    ...
                + 0.265484716608e-7 .* T.^2 .* P.^2 ...
-               - 0.159349479045e-5 .* T    .* P.^3 ...
+               - 0.159349479045e-5 .* T    .* P.^2 ...
                + 0.522116437235e-9 .* T    .* P.^3 ...
                - 0.438031096213e-6 .* T.^3 .* P    ...
-               - 0.161674495909-8  .* S.^2 .* P.^2 ...
+               - 0.161674495909e-8 .* S.^2 .* P.^2 ...
                + 0.968403156410e-4 .* T.^2 .* S    ...
                + 0.485639620015e-5 .* T    .* S.^2 .* P ...
                - 0.340597039004e-3 .* T    .* S    .* P;
-- 
2.43.0

