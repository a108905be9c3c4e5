From 3b3d6a224b7a1bced95816b3b3de5bc1b534b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 01/21] fix: pad the N edge, not the K edge, when packing B for
 M-first and N-first

The flag given to pack_ob_B_single_buf was set for the last K slice, so the
partial block at the right edge of B was read past the end of its rows (and
past the end of the matrix) in every other K slice.
---
 src/pack_m_first.cpp | 5 ++---
 src/pack_n_first.cpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pack_m_first.cpp b/src/pack_m_first.cpp
index 1c3aa18..a336ba9 100644
--- a/src/pack_m_first.cpp
+++ b/src/pack_m_first.cpp
@@ -122,16 +122,15 @@ void pack_B_m_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
+            // columns beyond N only exist in the last, partial block of the N dim
+            bool pad = (n == Nb - 1) && n_pad;
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 336f353..81850e8 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -122,16 +122,15 @@ void pack_B_n_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
+            // columns beyond N only exist in the last, partial block of the N dim
+            bool pad = (n == Nb - 1) && n_pad;
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
-- 
2.43.0


From dc1dcd0250817aef7ff5889bdea6b738c1e61c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 02/21] fix: do not read past A and B when packing edge tiles
 online and in the 2D schedule

schedule_KMN_online and schedule_KMN_2d packed full register tiles at the
right edge of B and the bottom edge of A, reading rows and columns that do
not exist. Edge tiles now go through the padding pack routines.
---
 src/cake_sgemm_k_first.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index d88b65d..9b49002 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -377,8 +377,13 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(n2)
 			      	for(n2 = 0; n2 < n_cb; n2 += n_r) {
+			      		if(n1 + n2 + n_r > N) { // zero-pad the right edge of B
+			      			pack_ob_B_single_buf(&B[B_offset + n2], &B_p[n2*k_c_t], 
+			      				K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+			      		} else {
 			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[B_offset + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
+			      		}
 			      	}
 				}
 		
@@ -388,8 +393,13 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(m3)
 					for(m3 = 0; m3 < m_cb; m3 += m_r) {
+						if(m1 + m3 + m_r > M) { // zero-pad the bottom edge of A
+							pack_ob_A_single_buf(&A[A_offset + m3*K], &A_p[m3*k_c_t], 
+								M, K, m1, m3, m_r, k_c_t, m_r, 1);
+						} else {
 						A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + m3*K], K, lda, 
 							&A_p[m3*k_c_t], m_r);
+						}
 					}     
 				}
 
@@ -729,8 +739,13 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 			      	for(n2 = 0; n2 < n_c_t; n2 += n_r) {
 			        	 // bli_spackm_haswell_asm_16xk(n_r, k_c, &kappa, &B[n1 + k1*N + n2], lda, N, 
 			         	//                            &B_p[ind1 + (k1/k_c)*k_c*n_c + n2*k_c], n_r);
+			      		if(n1 + n2 + n_r > N) { // zero-pad the right edge of B
+			      			pack_ob_B_single_buf(&B[n1 + k*k_c*N + n2], &B_p[n2*k_c_t], 
+			      				K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+			      		} else {
 			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[n1 + k*k_c*N + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
+			      		}
 			      	}
 				}
 
@@ -758,8 +773,13 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						// printf("reuse A\n");
 					} else {
 						for(int m3 = 0; m3 < m_c_t; m3 += m_r) {
+							if(m1 + core*m_c_x + m3 + m_r > M) { // zero-pad the bottom edge of A
+								pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K + m3*K], &A_p[core][m3*k_c_t], 
+									M, K, m1, core*m_c_x + m3, m_r, k_c_t, m_r, 1);
+							} else {
 							A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + core*m_c_x*K + m3*K], K, lda, 
 								&A_p[core][m3*k_c_t], m_r);
+							}
 						}     
 		            }
 
-- 
2.43.0


From d9f286fb78422a942298eb091dbd6dd4e98f370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 03/21] fix: keep the A offset of schedule_KMN_online private
 to each thread

A_offset was declared outside the parallel region and written by every thread.
---
 src/cake_sgemm_k_first.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index 9b49002..3e78cd9 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -657,7 +657,7 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 	int m, k, n, m_start, m_end, m_inc, k_start, k_end, k_inc;
 	int m_cb, n_c_t, p_used, core;
 
-	int m1, n1, n2, A_offset = 0, C_offset = 0;
+	int m1, n1, n2, C_offset = 0;
 
 	float kappa = 1.0;
 	int lda = 1;
@@ -765,7 +765,7 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						m_c_x = m_c; 
 					}
 
-					A_offset = m*p*m_c*K + k*k_c;
+					int A_offset = m*p*m_c*K + k*k_c;
 
 			            // pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K], A_p[core], 
 			            //    M, K, m*p*m_c, core*m_c_x, m_c_t, k_c_t, m_r, pad);
-- 
2.43.0


From 62adc18e74105c13df7d35841c44f21f3c6bf3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 04/21] fix: use the kernel of the selected register tile in
 every schedule

cake_sgemm_ukernel (M-first, N-first, 2D) always called the smallest tile's
kernel, so results were wrong after update_mr_nr chose another tile.
---
 include/kernel_wrapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kernel_wrapper.h b/include/kernel_wrapper.h
index 6870f6c..e809358 100644
--- a/include/kernel_wrapper.h
+++ b/include/kernel_wrapper.h
@@ -32,9 +32,9 @@ inline void cake_sgemm_ukernel(float* A_p, float* B_p, float* C_p,
 		(inc_t) n_r, (inc_t) 1, &def_data, (cntx_t*) cake_cntx->blis_cntx);
 
 #elif USE_CAKE_HASWELL
-	cake_sgemm_haswell_6x16(A_p, B_p, C_p, m_r, n_r, k_c_t);
+	kernel_map[cake_cntx->m_map][cake_cntx->n_map](A_p, B_p, C_p, m_r, n_r, k_c_t);
 #elif USE_CAKE_ARMV8
-	cake_sgemm_armv8_8x12(A_p, B_p, C_p, m_r, n_r, k_c_t);
+	kernel_map[cake_cntx->m_map][cake_cntx->n_map](A_p, B_p, C_p, m_r, n_r, k_c_t);
 #endif
 
 }
-- 
2.43.0


From 6c1852d38d403ba70fbcd50428fc6e08d76cac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 05/21] fix: find the 2D worker grid for every worker count

grid_dims_2d never considered the factor 1, leaving 'low' uninitialised (e.g.
p = 3, pn = 2), and indexed the build-time factor table out of range when p
was above the core count or below a tenth of it.
---
 src/block_sizing.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 1c686c7..04ec3a2 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -608,21 +608,21 @@ int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 	pn = (pn > p) ? p : pn;
 
 
-	// index into static table of factors to quickly find factor of p that is closest to optimal pn
-	// table is created at library creation
-	if(grid_dims[ncores - p][pn-1]) {
+	// find the factor of p that is closest to optimal pn. The table of factors created at 
+	// library creation only has rows for p <= number of cores on the build machine
+	if(p % pn == 0) {
 		pn_ret = pn;
 		// pm = p / pn;
 	} else {
 		for(int i = pn; i < p; i++) {
-			if(grid_dims[ncores - p][i]) {
+			if(p % (i+1) == 0) {
 				high = i;
 				break;
 			}
 		}
 
-		for(int i = (pn - 2); i > 0; i--) {
-			if(grid_dims[ncores - p][i]) {
+		for(int i = (pn - 2); i >= 0; i--) {
+			if(p % (i+1) == 0) {
 				low = i;
 				break;
 			}
-- 
2.43.0


From 5c0c93c17d68318e9e2445366c587d22b8b424d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 06/21] fix: read cache sizes and core count from any lscpu
 output

- G sizes never matched ('0-9*G'), fractions such as 1.3M were read as 3M
- the model table was looked up with digits of the CPU's name
- missing or '-' values left the buffers uninitialised, returned an L1 size of 0
  or divided by zero; a core count of 0 was possible
- popen streams and child processes were leaked by every query
---
 src/block_sizing.cpp | 135 ++++++++++++++-----------------------------
 1 file changed, 43 insertions(+), 92 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 04ec3a2..aba428c 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -88,58 +88,42 @@ void update_mr_nr(cake_cntx_t* cake_cntx, int m_r, int n_r) {
 
 
 
-int get_num_physical_cores() {
-
-	FILE *fp;
-	char ret1[16];
-	char command1[128];
+// run a command and store the first line of its output in ret (empty string if there is none)
+static void read_command(const char* command, char* ret, int len) {
 
-	sprintf(command1, "grep -c ^processor /proc/cpuinfo");
-	fp = popen(command1, "r");
+	FILE *fp = popen(command, "r");
 
 	if (fp == NULL) {
-		printf("Failed to run proc/cpuinfo command\n" );
+		printf("Failed to run %s command\n", command);
 		exit(1);
 	}
 
-	if(fgets(ret1, sizeof(ret1), fp) == NULL) {
-		printf("cpuinfo error\n");
+	if(fgets(ret, len, fp) == NULL) {
+		ret[0] = '\0';
 	}
-	
 
-	char ret2[16];
-	char command2[128];
+	pclose(fp);
+}
 
-	sprintf(command2, "lscpu | grep Thread -m 1 | tr -dc '0-9'");
-	fp = popen(command2, "r");
 
-	if (fp == NULL) {
-		printf("Failed to run lscpu | grep Thread command\n" );
-		exit(1);
-	}
 
-	if(fgets(ret2, sizeof(ret2), fp) == NULL) {
-		printf("lscpu error\n");
-	}
-	
+int get_num_physical_cores() {
 
-	char ret3[16];
-	char command3[128];
+	char ret[16];
+	int procs, threads, sockets;
 
-	sprintf(command3, "lscpu | grep Socket -m 1 | tr -dc '0-9'");
-	fp = popen(command3, "r");
+	read_command("grep -c ^processor /proc/cpuinfo", ret, sizeof(ret));
+	procs = atoi(ret);
 
-	if (fp == NULL) {
-		printf("Failed to run lscpu | grep Socket command\n" );
-		exit(1);
-	}
+	read_command("lscpu | grep Thread -m 1 | tr -dc '0-9'", ret, sizeof(ret));
+	threads = atoi(ret);
 
-	if(fgets(ret3, sizeof(ret3), fp) == NULL) {
-		printf("lscpu error\n");
-	}
+	read_command("lscpu | grep Socket -m 1 | tr -dc '0-9'", ret, sizeof(ret));
+	sockets = atoi(ret);
 
-	pclose(fp);
-	return atoi(ret1) / (atoi(ret2)*atoi(ret3));
+	// values that lscpu doesn't report (e.g. '-') count as 1
+	procs = procs / (cake_max(threads, 1) * cake_max(sockets, 1));
+	return cake_max(procs, 1);
 }
 
 
@@ -147,26 +131,13 @@ int get_num_physical_cores() {
 // find cache size at levels L1d,L1i,L2,and L3 using lscpu
 int get_cache_size(int level) {
 
-	int model_id, len, size = 0;
-	FILE *fp;
-	char ret[16];
-	char command[128];
-
-	sprintf(command, "lscpu | grep Model \
-					| head -1 \
-					| tr -dc '0-9'");
-	fp = popen(command, "r");
+	int model_id;
+	double size;
+	char ret[16], *unit;
+	char command[256];
 
-	if (fp == NULL) {
-		printf("Failed to run lscpu | grep Model command\n" );
-		exit(1);
-	}
-
-	if(fgets(ret, sizeof(ret), fp) == NULL) {
-		printf("lscpu error\n");
-	}
-	
-	pclose(fp);
+	// model id only, the name of a CPU model can have digits too
+	read_command("LC_ALL=C lscpu | grep Model: | head -1 | tr -dc '0-9'", ret, sizeof(ret));
 	model_id = atoi(ret);
 
 	if(level == 1) {
@@ -251,50 +222,30 @@ int get_cache_size(int level) {
 	}
 
 
-	if(level < 3) {
-		sprintf(command, "lscpu --caches=NAME,ONE-SIZE \
-						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
-						| tr -d '\n'", level);
-		fp = popen(command, "r");
-	} else {
-		sprintf(command, "lscpu --caches=NAME,ALL-SIZE \
-						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
-						| tr -d '\n'", level);
-		fp = popen(command, "r");
-	}
+	// first size listed for this level i.e. L1d before L1i
+	sprintf(command, "LC_ALL=C lscpu --caches=NAME,%s | grep L%d \
+					| grep -Eo '[0-9.]+[KMG]' | head -1 | tr -d '\n'", 
+					level < 3 ? "ONE-SIZE" : "ALL-SIZE", level);
+	read_command(command, ret, sizeof(ret));
 
-	if (fp == NULL) {
-		printf("Failed to run lscpu --caches command\n" );
-		exit(1);
+	// sizes can have a fraction e.g. 1.3M
+	size = strtod(ret, &unit);
+
+	if(*unit == 'K') {
+		size *= (1 << 10);
+	} else if(*unit == 'M') {
+		size *= (1 << 20);
+	} else if(*unit == 'G') {
+		size *= (1 << 30);
 	}
 
-	if(fgets(ret, sizeof(ret), fp) == NULL) {
+	if(size < 1) {
 		printf("lscpu error\n");
 		// quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
-		if(level == 2) {
-			return (32 * (1 << 10));
-		} else if(level == 3) {
-			return (512 * (1 << 10));
-		}
-	}
-
-	len = strlen(ret) - 1;
-
-	// set cache size variables
-	if(ret[len] == 'K') {
-		ret[len] = '\0';
-		size = atoi(ret) * (1 << 10);
-	} else if(ret[len] == 'M') {
-		ret[len] = '\0';
-		size = atoi(ret) * (1 << 20);
-	} else if(ret[len] == 'G') {
-		ret[len] = '\0';
-		size = atoi(ret) * (1 << 30);
+		return (level == 3 ? 512 : 32) * (1 << 10);
 	}
 
-	return size;
+	return (int) cake_min(size, 2147483647.0);
 }
 
 
-- 
2.43.0


From 2f397ade0b0899bd8704b78f16990cbbef23aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 07/21] fix: initialise every field of the context made by
 cake_query_cntx_torch

The core count (a divisor in get_cache_dims), the kernel table indices and the
L1 size were left uninitialised.
---
 src/block_sizing.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index aba428c..3ccaa19 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -22,15 +22,17 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 
 #elif USE_CAKE_HASWELL
     ret->blis_cntx = NULL;
-    ret->mr = 6;
-    ret->nr = 16;
+    update_mr_nr(ret, MR_MIN, NR_MIN);
 
 #elif USE_CAKE_ARMV8
     ret->blis_cntx = NULL;
-    ret->mr = 8;
-    ret->nr = 12;
+    update_mr_nr(ret, MR_MIN, NR_MIN);
 #endif
 
+	ret->L1 = get_cache_size(1);
+	ret->ncores = get_num_physical_cores();
+	ret->peak_dram_bw = 32 * 1e9; // TODO : hardcoded bw and flops on i9 for now
+	ret->peak_flops = 600 * 1e9;
 	ret->L2 = L2;
 	ret->L3 = L3;
 	return ret;
-- 
2.43.0


From 0fc5500414c754086b38f74d807a5070ca756815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 08/21] fix: never size a block below one register tile

Small caches gave blocks of 0 rows or a depth <= 0, i.e. divisions by zero or
an empty product.
---
 src/block_sizing.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 3ccaa19..d06eb09 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -272,6 +272,7 @@ cache_dims_t* get_cache_dims(int M, int N, int K, int p,
 	mc_L2 = (int)  ((-b + sqrt(b*b + 4*(((double) cake_cntx->L2) / (2*type_size)))) / 2.0) ;
 	// mc_L2 -= (mc_L2 % mn_lcm);
 	mc_L2 -= (mc_L2 % mr);
+	mc_L2 = cake_max(mc_L2, mr); // at least one register tile
 	// printf("mc_L2 = %d\n", mc_L2);
 
 
@@ -614,6 +615,7 @@ void init_block_dims_2d(int M, int N, int K, int p,
 
 	// based on mr*kc + kc*nr + mr*nr <= L1 
 	kc_max = ((cake_cntx->L1 / type_size) - m_r*n_r) / (m_r + n_r); 
+	kc_max = cake_max(kc_max, 1);
 
 
 	if(mcu && ncu && kcu) {
@@ -627,6 +629,7 @@ void init_block_dims_2d(int M, int N, int K, int p,
 		// based on mc*kc + nr*kc + mc*nc <= L2
 		m_c = (int) ((-n_r + sqrt(1.0*n_r*n_r + 4.0*2*(((double) cake_cntx->L2) / 4.0))) / (2.0*2));
 		m_c -= (m_c % m_r);
+		m_c = cake_max(m_c, m_r); // at least one register tile
 		k_c = kc_max;
 		k_c1 = K % k_c;
 	}
-- 
2.43.0


From ddd8e427f2174d18d49eb183d7880e0a4455c862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 09/21] fix: free the context a multiply call queries for
 itself

---
 src/cake_sgemm.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index e708fa0..a0412c9 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -11,8 +11,10 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL; // context queried by this call, if any
+
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_cntx = cake_query_cntx();
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -170,6 +172,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedA) free(A_p);
 	if(!packedB) free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return diff_t;
 }
@@ -181,8 +184,10 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL; // context queried by this call, if any
+
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_cntx = cake_query_cntx();
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -242,6 +247,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -254,8 +260,10 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, float alpha, float beta, enum sched sch) {
 
 
+	cake_cntx_t* own_cntx = NULL; // context queried by this call, if any
+
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_cntx = cake_query_cntx();
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -313,6 +321,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -399,8 +408,10 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL; // context queried by this call, if any
+
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_cntx = cake_query_cntx();
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -463,6 +474,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -474,8 +486,10 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	sch = KMN;
 
+	cake_cntx_t* own_cntx = NULL; // context queried by this call, if any
+
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_cntx = cake_query_cntx();
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -603,6 +617,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedB) free(B_p);
 	free(C_p);
 	free(x);
+	free(own_cntx);
 
 
 	return times;
-- 
2.43.0


From c0f31be5bea3f34f036952e8bbfc4ed7b965ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 10/21] fix: exit on every failed allocation

calloc/malloc results were dereferenced unchecked; only posix_memalign was
checked.
---
 include/util.h       |  2 ++
 src/block_sizing.cpp |  6 +++---
 src/cake_sgemm.cpp   | 22 +++++++++++-----------
 src/util.cpp         | 16 ++++++++++++++--
 4 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/include/util.h b/include/util.h
index 7dd7942..f9820c1 100644
--- a/include/util.h
+++ b/include/util.h
@@ -3,6 +3,8 @@
 #define M_PI 3.14159265358979323846
 
 // Util functions
+void* check_alloc(void* ptr);
+
 int run_tests();
 
 bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K);
diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index d06eb09..75ee6cf 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -9,7 +9,7 @@ double clamp_val(double d, double min, double max) {
 
 cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 
-    cake_cntx_t* ret = (cake_cntx_t*) malloc(sizeof(cake_cntx_t));
+    cake_cntx_t* ret = (cake_cntx_t*) check_alloc(malloc(sizeof(cake_cntx_t)));
     double alpha_n = 1.0;
     ret->alpha_n = alpha_n;
  
@@ -41,7 +41,7 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 
 cake_cntx_t* cake_query_cntx() {
 
-    cake_cntx_t* ret = (cake_cntx_t*) malloc(sizeof(cake_cntx_t));
+    cake_cntx_t* ret = (cake_cntx_t*) check_alloc(malloc(sizeof(cake_cntx_t)));
     double alpha_n = 1.0;
     ret->alpha_n = alpha_n;
 	ret->L1 = get_cache_size(1);
@@ -305,7 +305,7 @@ cache_dims_t* get_cache_dims(int M, int N, int K, int p,
 		}
 	}
 
-    cache_dims_t* blk_ret = (cache_dims_t*) malloc(sizeof(cache_dims_t));
+    cache_dims_t* blk_ret = (cache_dims_t*) check_alloc(malloc(sizeof(cache_dims_t)));
 
 	// set schedule to MEMA-derived optimal value or user-defined
 	blk_ret->sch = (sch == NA ? 
diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index a0412c9..9171a7c 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -17,7 +17,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 		own_cntx = cake_cntx = cake_query_cntx();
 	}
 
-	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	blk_dims_t* x = (blk_dims_t*) check_alloc(malloc(sizeof(blk_dims_t)));
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -91,7 +91,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 		float *C_p[p];
 
 		for(int i = 0; i < p; i++) {
-			C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+			C_p[i] = (float*) check_alloc(calloc(x->m_c * x->n_c, sizeof(float)));
 		}
 
 		clock_gettime(CLOCK_REALTIME, &start);
@@ -134,7 +134,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 		} else {
 
 		    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
-		    C_p = (float*) calloc(C_sz, sizeof(float));
+		    C_p = (float*) check_alloc(calloc(C_sz, sizeof(float)));
 		}
 
 
@@ -190,7 +190,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 		own_cntx = cake_cntx = cake_query_cntx();
 	}
 
-	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	blk_dims_t* x = (blk_dims_t*) check_alloc(malloc(sizeof(blk_dims_t)));
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -226,7 +226,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 
 
 	for(int i = 0; i < p; i++) {
-		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		C_p[i] = (float*) check_alloc(calloc(x->m_c * x->n_c, sizeof(float)));
 	}
 	
 	clock_gettime(CLOCK_REALTIME, &start);
@@ -266,7 +266,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 		own_cntx = cake_cntx = cake_query_cntx();
 	}
 
-	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	blk_dims_t* x = (blk_dims_t*) check_alloc(malloc(sizeof(blk_dims_t)));
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -300,7 +300,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 
 
 	for(int i = 0; i < p; i++) {
-		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		C_p[i] = (float*) check_alloc(calloc(x->m_c * x->n_c, sizeof(float)));
 	}
 	
 	clock_gettime(CLOCK_REALTIME, &start);
@@ -414,7 +414,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 		own_cntx = cake_cntx = cake_query_cntx();
 	}
 
-	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	blk_dims_t* x = (blk_dims_t*) check_alloc(malloc(sizeof(blk_dims_t)));
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -452,7 +452,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	// float* B_p = (float*) malloc(k_c * n_c * sizeof(float));
 
 	for(int i = 0; i < p; i++) {
-		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		C_p[i] = (float*) check_alloc(calloc(x->m_c * x->n_c, sizeof(float)));
 	}
 	
 	clock_gettime(CLOCK_REALTIME, &start);
@@ -492,7 +492,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 		own_cntx = cake_cntx = cake_query_cntx();
 	}
 
-	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	blk_dims_t* x = (blk_dims_t*) check_alloc(malloc(sizeof(blk_dims_t)));
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -580,7 +580,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	} else {
 	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
-	    C_p = (float*) calloc(C_sz, sizeof(float));
+	    C_p = (float*) check_alloc(calloc(C_sz, sizeof(float)));
 	}
 
 	clock_gettime(CLOCK_REALTIME, &start);
diff --git a/src/util.cpp b/src/util.cpp
index 2c7bd56..57c2cce 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -136,6 +136,18 @@ int run_tests() {
 }
 
 
+// exit if an allocation failed
+void* check_alloc(void* ptr) {
+
+	if(ptr == NULL) {
+		printf("memory allocation error\n");
+		exit(1);
+	}
+
+	return ptr;
+}
+
+
 bool mat_equals(float* C, float* C_check, int M, int N) {
 
     int CORRECT = 1;
@@ -172,7 +184,7 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 
 bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K) {
 
-	float* C_check = (float*) calloc(M * N , sizeof( float ));
+	float* C_check = (float*) check_alloc(calloc(M * N , sizeof( float )));
 
 	for(int k = 0; k < K; k++) {
 		#pragma omp parallel for
@@ -206,7 +218,7 @@ bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K) {
 
 bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
-	float* C_check = (float*) calloc(M * N , sizeof( float ));
+	float* C_check = (float*) check_alloc(calloc(M * N , sizeof( float )));
 
 	for(int c = 0; c < p; c++) {
 		for(int i = 0; i < M*N; i++) {
-- 
2.43.0


From 95c8ca8b3b3988611ce9db3cb08f10031fc7113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 11/21] fix: transpose edge tiles only, without touching other
 threads' tiles

The edge tile copied all the remaining rows and columns of the matrix, so
several threads wrote the same output elements.
---
 src/transpose.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transpose.cpp b/src/transpose.cpp
index 6a03906..0791c4b 100644
--- a/src/transpose.cpp
+++ b/src/transpose.cpp
@@ -18,7 +18,7 @@ void transpose_mat(float* A_old, float* At, int K, int N, int Kt, int Nt) {
 				for(int kk = k; kk < k + kt; kk+=kr) { 
 		
 					if((nn + nr > N) || (kk + kr > K)) {
-						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, N - nn, K - kk);			
+						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, cake_min(nr, N - nn), cake_min(kr, K - kk));			
 					} else {
 						transpose_8x8(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb);
 					}
-- 
2.43.0


From 9db5afe4589d0f4bbf5088ac4bd30b367f06c7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 12/21] fix: pack C for N-first in the layout the schedule and
 unpack_C use

The offset of partial blocks used the full block sizes, so with beta != 0 the
packed C was misplaced and written past the end of its buffer.
---
 src/pack_n_first.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 81850e8..0937f76 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -201,7 +201,7 @@ void pack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_di
 
          C_offset = m*p*m_c*N + n*n_c;
 
-         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*p*m_c*n_c_t], 
+         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*m_c_t*n_c], 
             M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r, pad_m, pad_n);
       }
    }
-- 
2.43.0


From ad45e9b2fae98e00b5c08b1c47d9e331b1147901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 13/21] fix: do not accept NaN or infinity as a correct result
 in the checkers

Every comparison with NaN is false, so a NaN in C passed the tolerance test.
---
 src/util.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 57c2cce..023fd7d 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -148,6 +148,12 @@ void* check_alloc(void* ptr) {
 }
 
 
+// infinities and NaN only match themselves
+static bool differs(float ref, float val, float eps) {
+	return !(ref == val || fabs(ref - val) <= eps || (isnan(ref) && isnan(val)));
+}
+
+
 bool mat_equals(float* C, float* C_check, int M, int N) {
 
     int CORRECT = 1;
@@ -158,7 +164,7 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 	for(int m = 0; m < M; m++) {
 	    for(int n = 0; n < N; n++) {
 	        // if(C_check[m1*N + n1] != C[ind1]) {
-	        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+	        if(differs(C_check[ind1], C[ind1], eps)) {
 	            cnt++;
 	            CORRECT = 0;
 	        }
@@ -233,7 +239,7 @@ bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
     for(int i = 0; i < M*N; i++) {
         // if(C_check[m1*N + n1] != C[ind1]) {
-        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+        if(differs(C_check[ind1], C[ind1], eps)) {
             cnt++;
             CORRECT = 0;
         }
-- 
2.43.0


From 1140becc23573a9bbcbfea2daf24ccc7f37c78a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 14/21] fix: honour alpha and beta in every schedule

alpha was ignored; beta was ignored by the K-first, online and 2D schedules and
taken as 1 by the others. C = alpha*A*B + beta*C is now applied when copying
the accumulators out to C.
---
 include/cake.h             |  8 ++++----
 include/packing.h          | 13 ++++++++-----
 src/cake_sgemm.cpp         | 38 ++++++++------------------------------
 src/cake_sgemm_k_first.cpp | 16 ++++++++--------
 src/pack_helper.cpp        |  8 ++++----
 src/pack_ob.cpp            |  9 +++++++--
 src/unpack_k_first.cpp     |  5 +++--
 src/unpack_m_first.cpp     |  5 +++--
 src/unpack_n_first.cpp     |  5 +++--
 9 files changed, 48 insertions(+), 59 deletions(-)

diff --git a/include/cake.h b/include/cake.h
index 695ee52..c347847 100644
--- a/include/cake.h
+++ b/include/cake.h
@@ -15,7 +15,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 void schedule(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p, 
 	cake_cntx_t* cake_cntx, blk_dims_t* x, enum sched sch, bool sparse, bool small);
 void schedule_KMN(float* A_p, float* B_p, float* C, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x) ;
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha = 1, float beta = 0) ;
 void schedule_MKN(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p, 
 	cake_cntx_t* cake_cntx, blk_dims_t* x);
 void schedule_NKM(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p, 
@@ -24,13 +24,13 @@ void schedule_NKM(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p
 
 
 void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x);
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha = 1, float beta = 0);
 void schedule_KMN_C_unpacked(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p, 
 	cake_cntx_t* cake_cntx, blk_dims_t* x);
 void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x);
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha = 1, float beta = 0);
 void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x);
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha = 1, float beta = 0);
 
 
 double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int p, 
diff --git a/include/packing.h b/include/packing.h
index 1434d90..6c3ef68 100644
--- a/include/packing.h
+++ b/include/packing.h
@@ -10,7 +10,7 @@ void pack_B(float* B, float* B_p, int K, int N, int p,
 double pack_A(float* A, float* A_p, int M, int K, int p, 
 	blk_dims_t* x, cake_cntx_t* cake_cntx, enum sched sch) ;
 void unpack_C(float* C, float* C_p, int M, int N, int p, 
-	blk_dims_t* x, cake_cntx_t* cake_cntx, enum sched sch) ;
+	blk_dims_t* x, cake_cntx_t* cake_cntx, enum sched sch, float alpha = 1, float beta = 0) ;
 
 
 void pack_test1(float* A, float* A_p, int M, int K, int p, cake_cntx_t* cake_cntx);
@@ -54,13 +54,16 @@ void pack_ob_A_parallel(float* A, float* A_p, int M, int K, int m1,
 
 // unpacking
 void unpack_ob_C_single_buf(float* C, float* C_p, int M, int N, int m1, int n1, int m2,
-				int m_c, int n_c, int m_r, int n_r);
+				int m_c, int n_c, int m_r, int n_r, float alpha = 1, float beta = 0);
 void unpack_ob_C_multiple_buf(float* C, float* C_p, int M, int N, int m1, int n1, int m2,
 				int m_c, int n_c, int m_r, int n_r);
 
-void unpack_C_single_buf_k_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx);
-void unpack_C_single_buf_m_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx);
-void unpack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx);
+void unpack_C_single_buf_k_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx,
+				float alpha = 1, float beta = 0);
+void unpack_C_single_buf_m_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx,
+				float alpha = 1, float beta = 0);
+void unpack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx,
+				float alpha = 1, float beta = 0);
 void unpack_C_rsc(float* C, float** C_p, int M, int N, int m_c, int n_c, int n_r, int m_r, int p, int alpha_n);
 void unpack_C_old(float* C, float** C_p, int M, int N, int m_c, int n_c, int n_r, int m_r, int p);
 
diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index 9171a7c..4e01a6c 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -96,7 +96,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		clock_gettime(CLOCK_REALTIME, &start);
 
-		schedule_KMN(A_p, B_p, C, C_p, M, N, K, p, cake_cntx, x); 
+		schedule_KMN(A_p, B_p, C, C_p, M, N, K, p, cake_cntx, x, alpha, beta); 
 
 	    clock_gettime(CLOCK_REALTIME, &end);
 	    seconds = end.tv_sec - start.tv_sec;
@@ -111,31 +111,9 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	} else {
 
 		float *C_p;
-		// C = alpha*A*B + beta*C. If beta is !=0, we must explicitly pack C, 
-		// otherwise just allocate an empty C_p buffer
-		if(beta != 0) {
-
-			clock_gettime(CLOCK_REALTIME, &start);
-
-		    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch);
-			if(posix_memalign((void**) &C_p, 64, C_sz)) {
-				printf("posix memalign error\n");
-				exit(1);
-			}
-
-			pack_C(C, C_p, M, N, p, x, cake_cntx, sch);
-
-		    clock_gettime(CLOCK_REALTIME, &end);
-		    seconds = end.tv_sec - start.tv_sec;
-		    nanoseconds = end.tv_nsec - start.tv_nsec;
-		    diff_t = seconds + nanoseconds*1e-9;
-			if(DEBUG) printf("C pack time: %f \n", diff_t ); 
-
-		} else {
-
-		    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
-		    C_p = (float*) check_alloc(calloc(C_sz, sizeof(float)));
-		}
+		// C_p = A*B, then C = alpha*C_p + beta*C when unpacking
+	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
+	    C_p = (float*) check_alloc(calloc(C_sz, sizeof(float)));
 
 
 		clock_gettime(CLOCK_REALTIME, &start);
@@ -151,7 +129,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		clock_gettime(CLOCK_REALTIME, &start);
 
-		unpack_C(C, C_p, M, N, p, x, cake_cntx, sch); 
+		unpack_C(C, C_p, M, N, p, x, cake_cntx, sch, alpha, beta); 
 
 	    clock_gettime(CLOCK_REALTIME, &end);
 	    seconds = end.tv_sec - start.tv_sec;
@@ -231,7 +209,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	
 	clock_gettime(CLOCK_REALTIME, &start);
 
-	schedule_KMN_2d(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
+	schedule_KMN_2d(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x, alpha, beta);
 
     clock_gettime(CLOCK_REALTIME, &end);
     seconds = end.tv_sec - start.tv_sec;
@@ -305,7 +283,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	
 	clock_gettime(CLOCK_REALTIME, &start);
 
-	schedule_KMN_2d_small(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
+	schedule_KMN_2d_small(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x, alpha, beta);
 
     clock_gettime(CLOCK_REALTIME, &end);
     seconds = end.tv_sec - start.tv_sec;
@@ -457,7 +435,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	
 	clock_gettime(CLOCK_REALTIME, &start);
 
-	schedule_KMN_online(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
+	schedule_KMN_online(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x, alpha, beta);
 
     clock_gettime(CLOCK_REALTIME, &end);
     seconds = end.tv_sec - start.tv_sec;
diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index 3e78cd9..9a95368 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -7,7 +7,7 @@
 
 
 void schedule_KMN(float* A_p, float* B_p, float* C, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x) {
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha, float beta) {
 
 	// copy over block dims to local vars to avoid readibility ussiues with x->
 	int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -144,7 +144,7 @@ void schedule_KMN(float* A_p, float* B_p, float* C, float** C_p, int M, int N, i
 				}
 
 				unpack_ob_C_single_buf(&C[C_offset + core*m_c_x*N], C_p[core], 
-					M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r);
+					M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r, alpha, beta);
 
 				memset(C_p[core], 0, m_c * n_c * sizeof(float));
 			}
@@ -157,7 +157,7 @@ void schedule_KMN(float* A_p, float* B_p, float* C, float** C_p, int M, int N, i
 
 
 void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x) {
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha, float beta) {
 
 	// copy over block dims to local vars to avoid readibility ussiues with x->
 	int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -264,7 +264,7 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 		int n_c_t = (((core % pn) == (pn - 1)) && n_pad) ? n_c1 : n_c; 
 
 		unpack_ob_C_single_buf(&C[(core / pn)*m_c*N + (core % pn)*n_c], C_p[core], 
-			M, N, 0, (core % pn)*n_c, (core / pn)*m_c, m_c_t, n_c_t, m_r, n_r);
+			M, N, 0, (core % pn)*n_c, (core / pn)*m_c, m_c_t, n_c_t, m_r, n_r, alpha, beta);
 
 		memset(C_p[core], 0, m_c * n_c * sizeof(float));
 	}
@@ -277,7 +277,7 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 
 
 void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x) {
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha, float beta) {
 
 	// copy over block dims to local vars to avoid readibility ussiues with x->
 	int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -484,7 +484,7 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				}
 
 				unpack_ob_C_single_buf(&C[C_offset + (core / p_used_n)*m_c_x*N + (core % p_used_n)*n_c_x], C_p[core], 
-					M, N, m1, n1 + (core % p_used_n)*n_c_x, (core / p_used_n)*m_c_x, m_c_t, n_c_t, m_r, n_r);
+					M, N, m1, n1 + (core % p_used_n)*n_c_x, (core / p_used_n)*m_c_x, m_c_t, n_c_t, m_r, n_r, alpha, beta);
 
 				// unpack_ob_C_single_buf(&C[C_offset + core*m_c_x*N], C_p[core], 
 				// 	M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r);
@@ -641,7 +641,7 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 
 
 void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x) {
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha, float beta) {
 
 	// copy over block dims to local vars to avoid readibility ussiues with x->
 	int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -824,7 +824,7 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 				}
 
 				unpack_ob_C_single_buf(&C[C_offset + core*m_c_x*N], C_p[core], 
-					M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r);
+					M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r, alpha, beta);
 
 				memset(C_p[core], 0, m_c * n_c * sizeof(float));
 			}
diff --git a/src/pack_helper.cpp b/src/pack_helper.cpp
index b7b728e..313e400 100644
--- a/src/pack_helper.cpp
+++ b/src/pack_helper.cpp
@@ -161,19 +161,19 @@ double pack_A(float* A, float* A_p, int M, int K, int p,
 
 
 void unpack_C(float* C, float* C_p, int M, int N, int p, 
-	blk_dims_t* x, cake_cntx_t* cake_cntx, enum sched sch) {
+	blk_dims_t* x, cake_cntx_t* cake_cntx, enum sched sch, float alpha, float beta) {
 
 	switch(sch) {
 		case KMN: {
-			unpack_C_single_buf_k_first(C, C_p, M, N, p, x, cake_cntx); 
+			unpack_C_single_buf_k_first(C, C_p, M, N, p, x, cake_cntx, alpha, beta); 
 			break;
 		}
 		case MKN: {
-			unpack_C_single_buf_m_first(C, C_p, M, N, p, x, cake_cntx); 
+			unpack_C_single_buf_m_first(C, C_p, M, N, p, x, cake_cntx, alpha, beta); 
 			break;
 		}
 		case NKM: {
-			unpack_C_single_buf_n_first(C, C_p, M, N, p, x, cake_cntx); 
+			unpack_C_single_buf_n_first(C, C_p, M, N, p, x, cake_cntx, alpha, beta); 
 			break;
 		}
 		default: {
diff --git a/src/pack_ob.cpp b/src/pack_ob.cpp
index 20976ba..d262db8 100644
--- a/src/pack_ob.cpp
+++ b/src/pack_ob.cpp
@@ -390,8 +390,9 @@ void unpack_ob_C_multiple_buf(float* C, float* C_p, int M, int N, int m1, int n1
 // when writing reorderd rows back to C, 
 // write to correct row row_inds[m1 + m2 + m3 + i]
 
+// C = alpha*C_p + beta*C, the old C isn't read if beta is 0
 void unpack_ob_C_single_buf(float* C, float* C_p, int M, int N, int m1, int n1, int m2,
-            int m_c, int n_c, int m_r, int n_r) {
+            int m_c, int n_c, int m_r, int n_r, float alpha, float beta) {
 
    int ind2 = 0;
 
@@ -401,7 +402,11 @@ void unpack_ob_C_single_buf(float* C, float* C_p, int M, int N, int m1, int n1,
             for(int j = 0; j < n_r; j++) {
                if((n1 + n2 + j) < N  &&  (m1 + m2 + m3 + i) <  M) {
                   // C[n1 + m1*N + m2*N + n2 + m3*N + i*N + j] = C_p[ind2];
-                  C[n2 + m3*N + i*N + j] = C_p[ind2];
+                  float c = alpha*C_p[ind2];
+                  if(beta != 0) {
+                     c += beta*C[n2 + m3*N + i*N + j];
+                  }
+                  C[n2 + m3*N + i*N + j] = c;
                }
                ind2++;
             }
diff --git a/src/unpack_k_first.cpp b/src/unpack_k_first.cpp
index 372047a..8672dae 100644
--- a/src/unpack_k_first.cpp
+++ b/src/unpack_k_first.cpp
@@ -2,7 +2,8 @@
   
 
 
-void unpack_C_single_buf_k_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx) {
+void unpack_C_single_buf_k_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx,
+   float alpha, float beta) {
 
    // copy over block dims to local vars to avoid readibility ussiues with x->
    int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -58,7 +59,7 @@ void unpack_C_single_buf_k_first(float* C, float* C_p, int M, int N, int p, blk_
             }
 
             unpack_ob_C_single_buf(&C[C_offset + core*m_c_x*N], &C_p[C_p_offset + core*m_c_x*n_c_t], 
-               M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r);
+               M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r, alpha, beta);
          }
 
          C_p_offset += m_cb*n_c_t;
diff --git a/src/unpack_m_first.cpp b/src/unpack_m_first.cpp
index 20051c6..24b4d1b 100644
--- a/src/unpack_m_first.cpp
+++ b/src/unpack_m_first.cpp
@@ -2,7 +2,8 @@
   
 
 
-void unpack_C_single_buf_m_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx) {
+void unpack_C_single_buf_m_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx,
+   float alpha, float beta) {
 
    // copy over block dims to local vars to avoid readibility ussiues with x->
    int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -43,7 +44,7 @@ void unpack_C_single_buf_m_first(float* C, float* C_p, int M, int N, int p, blk_
          C_offset = m*m_c*N + n*n_c;
 
          unpack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + m*m_c*n_c_t], 
-            M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r);
+            M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r, alpha, beta);
       }
    }
 }
diff --git a/src/unpack_n_first.cpp b/src/unpack_n_first.cpp
index ae38f5a..0b16c60 100644
--- a/src/unpack_n_first.cpp
+++ b/src/unpack_n_first.cpp
@@ -2,7 +2,8 @@
   
 
 
-void unpack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx) {
+void unpack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx,
+   float alpha, float beta) {
 
    // copy over block dims to local vars to avoid readibility ussiues with x->
    int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -43,7 +44,7 @@ void unpack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_
          C_offset = m*p*m_c*N + n*n_c;
 
          unpack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*m_c_t*n_c], 
-            M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r);
+            M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r, alpha, beta);
       }
    }
 }
-- 
2.43.0


From 992759f2047c764417cc2230d9bbfbd1cf90b758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 15/21] fix: replace the factor table when grid_gen.py is run
 again

A second install prepended a second definition of grid_dims to tiling.h.
---
 python/grid_gen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/grid_gen.py b/python/grid_gen.py
index d8dfac3..a57252e 100644
--- a/python/grid_gen.py
+++ b/python/grid_gen.py
@@ -37,7 +37,11 @@ static bool grid_dims[%d][%d] = \n{\n''' % (len(factor_list), p)
 		ret += '\t{' + ','.join(map(str,table[i])) + '},\n'
 	f = open("include/tiling.h", 'r+')
 	content = f.read()
+	# replace the table of an earlier run
+	if 'static bool grid_dims[' in content:
+		content = content.split('};\n\n', 1)[1]
 	f.seek(0)
+	f.truncate()
 	f.write(ret[:-1] + '''
 };\n\n''' + content)
 
-- 
2.43.0


From 723db84403473a43d04b8102e11fe8bcaa97ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 16/21] fix: avoid overflow in the core count for absurd lscpu
 values

---
 src/block_sizing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 75ee6cf..8cb498e 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -124,7 +124,7 @@ int get_num_physical_cores() {
 	sockets = atoi(ret);
 
 	// values that lscpu doesn't report (e.g. '-') count as 1
-	procs = procs / (cake_max(threads, 1) * cake_max(sockets, 1));
+	procs = procs / cake_max(threads, 1) / cake_max(sockets, 1);
 	return cake_max(procs, 1);
 }
 
-- 
2.43.0


From ed70e374a8ea2d4a3ea6a7618537c3506c0e2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 17/21] fix: choose the least-traffic schedule also when alpha
 is 0

---
 src/block_sizing.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 8cb498e..50d33e3 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -397,9 +397,9 @@ enum sched derive_schedule(int M, int N, int K, int p,
 	K_cut_M = (2.0*M) / (1.0 + (M * ((2.0/k) - (1.0/m))));
 	K_cut_N = (2.0*N) / (1.0 + (N * ((2.0/k) - (1.0/n))));
 
-	// N/M dim cutoffs for M vs N choice
-	m = (float) (cake_cntx->alpha_n*p*mc_ret);
-	n = (float) (cake_cntx->alpha_n*p*mc_ret);
+	// N/M dim cutoffs for M vs N choice (alpha is 0 if not even one tile fits in the L3)
+	m = (float) cake_max(cake_cntx->alpha_n*p*mc_ret, 1.0);
+	n = (float) cake_max(cake_cntx->alpha_n*p*mc_ret, 1.0);
 	N_cut_M = M / (1.0 + (M * ((1.0/n) - (1.0/m))));
 	M_cut_N = N / (1.0 + (N * ((1.0/m) - (1.0/n))));
 
-- 
2.43.0


From 98c3ea77da0eca1f83717966120fe641d720e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 18/21] fix: build and multiply with the BLIS kernel again

The BLIS configuration did not compile: the K-first schedules and
update_mr_nr used CAKE's own kernel table, the transposition needs CAKE's
kernels, and the cake_blis target listed one source twice and linked CAKE's
kernels instead of libblis.a.
---
 Makefile                   |  5 +++--
 src/block_sizing.cpp       |  9 +++++++++
 src/cake_sgemm_k_first.cpp | 20 ++++----------------
 3 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/Makefile b/Makefile
index ee2aee8..eebfacf 100644
--- a/Makefile
+++ b/Makefile
@@ -137,7 +137,8 @@ else
 endif
 
 
-SRC_FILES_BLIS = $(SRC_FILES) $(CAKE_SRC)/kernels/haswell/blis_pack_haswell.cpp
+# transpose.cpp needs CAKE's own kernels
+SRC_FILES_BLIS = $(sort $(filter-out $(CAKE_HOME)/src/transpose.cpp, $(SRC_FILES)) $(CAKE_SRC)/kernels/haswell/blis_pack_haswell.cpp)
 CFLAGS_BLIS += -I$(CAKE_HOME)/include/blis
 CFLAGS_BLIS := $(filter-out -std=c99, $(CFLAGS_BLIS))
 
@@ -172,7 +173,7 @@ endif
 # 	dpcpp -fp-speculation=fast g++ $(CFLAGS) $(CAKE_SRC)/block_sizing.cpp $(CAKE_SRC)/cake_sgemm.cpp \
 
 cake_blis: $(wildcard *.h) $(wildcard *.c) 
-	g++ $(CFLAGS_BLIS) $(SRC_FILES_BLIS) $(LIBS) \
+	g++ $(CFLAGS_BLIS) $(SRC_FILES_BLIS) $(BLIS_INSTALL_PATH)/lib/libblis.a \
 	-DUSE_BLIS -shared -o $(LIBCAKE)
 
 cake_haswell: $(wildcard *.h) $(wildcard *.c)
diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 50d33e3..de7cc81 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -19,6 +19,8 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
     ret->blis_cntx = (void*) blis_cntx;
     ret->mr = (int) bli_cntx_get_blksz_def_dt(BLIS_FLOAT, BLIS_MR, blis_cntx);
     ret->nr = (int) bli_cntx_get_blksz_def_dt(BLIS_FLOAT, BLIS_NR, blis_cntx);
+    ret->m_map = 0;
+    ret->n_map = 0;
 
 #elif USE_CAKE_HASWELL
     ret->blis_cntx = NULL;
@@ -57,6 +59,8 @@ cake_cntx_t* cake_query_cntx() {
     ret->blis_cntx = (void*) blis_cntx;
     ret->mr = (int) bli_cntx_get_blksz_def_dt(BLIS_FLOAT, BLIS_MR, blis_cntx);
     ret->nr = (int) bli_cntx_get_blksz_def_dt(BLIS_FLOAT, BLIS_NR, blis_cntx);
+    ret->m_map = 0;
+    ret->n_map = 0;
 
 #elif USE_CAKE_HASWELL
     ret->blis_cntx = NULL;
@@ -80,8 +84,13 @@ cake_cntx_t* cake_query_cntx() {
 void update_mr_nr(cake_cntx_t* cake_cntx, int m_r, int n_r) {
     cake_cntx->mr = m_r;
     cake_cntx->nr = n_r;
+#ifdef USE_BLIS
+    cake_cntx->m_map = 0; // BLIS has one kernel
+    cake_cntx->n_map = 0;
+#else
     cake_cntx->m_map = (m_r/MR_FACT) - (MR_MIN / MR_FACT);
     cake_cntx->n_map = (n_r/NR_FACT) - (NR_MIN / NR_FACT);
+#endif
 }
 
 
diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index 9a95368..231daf6 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -113,15 +113,10 @@ void schedule_KMN(float* A_p, float* B_p, float* C, float** C_p, int M, int N, i
 					for(n_reg = 0; n_reg < (n_c_t / n_r); n_reg++) {
 						for(m_reg = 0; m_reg < (m_c_t / m_r); m_reg++) {	
 
-							// cake_sgemm_ukernel(&A_p[a_ind + m_reg*m_r*k_c_t], 
-							// 				&B_p[b_ind + n_reg*k_c_t*n_r], 
-							// 				&C_p[c_ind + n_reg*m_c_t*n_r + m_reg*m_r*n_r], 
-							// 				m_r, n_r, k_c_t, cake_cntx);
-
-							kernel_map[m_map][n_map](&A_p[a_ind + m_reg*m_r*k_c_t], 
+							cake_sgemm_ukernel(&A_p[a_ind + m_reg*m_r*k_c_t], 
 											&B_p[b_ind + n_reg*k_c_t*n_r], 
 											&C_p[core][n_reg*m_c_t*n_r + m_reg*m_r*n_r], 
-											m_r, n_r, k_c_t);
+											m_r, n_r, k_c_t, cake_cntx);
 
 						}
 					}
@@ -787,20 +782,13 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 					for(n_reg = 0; n_reg < (n_c_t / n_r); n_reg++) {
 						for(m_reg = 0; m_reg < (m_c_t / m_r); m_reg++) {	
 
-							kernel_map[m_map][n_map](
+							cake_sgemm_ukernel(
 								&A_p[core][m_reg*m_r*k_c_t], 
 								&B_p[n_reg*k_c_t*n_r], 
 								&C_p[core][n_reg*m_c_t*n_r + m_reg*m_r*n_r], 
-								m_r, n_r, k_c_t
+								m_r, n_r, k_c_t, cake_cntx
 							);
 
-							// cake_sgemm_ukernel(
-							// 	&A_p[core][m_reg*m_r*k_c_t], 
-							// 	&B_p[n_reg*k_c_t*n_r], 
-							// 	&C_p[core][n_reg*m_c_t*n_r + m_reg*m_r*n_r], 
-							// 	m_r, n_r, k_c_t, cake_cntx
-							// );
-
 						}
 					}
 				}
-- 
2.43.0


From f23c4ef87aca32d84ca83f8e8cbd5fea24aa736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 19/21] fix: give back the buffers and contexts of the PyTorch
 extension

linear_forward and linear_backward wrapped calloc'ed memory in tensors that do
not own it, and never freed the context they query, so every call leaked.
---
 src/linear.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/linear.cpp b/src/linear.cpp
index efb730a..cb4d00f 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -22,7 +22,9 @@ torch::Tensor linear_forward(torch::Tensor& cache_sz, torch::Tensor& input,  tor
   weight = weight.t().reshape({N*K}).contiguous();
   float* input_c = (float*) input.data_ptr<float>();
   float* weight_c = (float*) weight.data_ptr<float>();
-  float* output_c = (float*) calloc(M * N , sizeof( float ));
+  auto options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
+  auto output = torch::zeros({M,N}, options);
+  float* output_c = (float*) output.data_ptr<float>();
   int p = 10; // number of cores to use
 
  // for(int i = 0; i < K; i++) {
@@ -36,10 +38,7 @@ torch::Tensor linear_forward(torch::Tensor& cache_sz, torch::Tensor& input,  tor
   // cake_sgemm call
   cake_cntx_t* cake_cntx = cake_query_cntx_torch(cache_sz[0].item<int>(), cache_sz[1].item<int>());
   cake_sgemm(input_c, weight_c, output_c, M, N, K, p, cake_cntx);
-
-  auto options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
-  auto output = torch::from_blob((void*) output_c, {M*N}, options);
-  output = output.reshape({M,N});
+  free(cake_cntx);
 
   if (bias.defined()) {
     output.add_(bias);
@@ -61,16 +60,13 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
   weight = weight.reshape({N*K}).contiguous();
   float* grad_output_c = (float*) grad_output.data_ptr<float>();
   float* weight_c = (float*) weight.data_ptr<float>();
-  float* grad_input_c = (float*) calloc(M * N , sizeof( float ));
+  auto options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
+  auto grad_input = torch::zeros({M,N}, options);
+  float* grad_input_c = (float*) grad_input.data_ptr<float>();
   int p = 10; // number of cores to use
 
   cake_sgemm(grad_output_c, weight_c, grad_input_c, M, N, K, p, cake_cntx);
 
-
-  auto options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
-  auto grad_input = torch::from_blob((void*) grad_input_c, {M*N}, options);
-  grad_input = grad_input.reshape({M,N});
-
   grad_output = grad_output.reshape({M,K}).t();
   int M1 = grad_output.size(0);
   int K1 = input.size(0);
@@ -79,13 +75,11 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
   grad_output_c = (float*) grad_output.data_ptr<float>();
   input = input.reshape({K1*N1}).contiguous();
   float* input_c = (float*) input.data_ptr<float>();
-  float* grad_weight_c = (float*) calloc(M1 * N1 , sizeof( float ));
+  auto grad_weight = torch::zeros({M1,N1}, options);
+  float* grad_weight_c = (float*) grad_weight.data_ptr<float>();
 
   cake_sgemm(grad_output_c, input_c, grad_weight_c, M1, N1, K1, p, cake_cntx);
-
-  options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
-  auto grad_weight = torch::from_blob((void*) grad_weight_c, {M1*N1}, options);
-  grad_weight = grad_weight.reshape({M1,N1});
+  free(cake_cntx);
 
   grad_output = grad_output.reshape({K1,M1});
   auto grad_bias = bias.defined() ? grad_output.sum(0, /*keepdim=*/false) : torch::Tensor{};
-- 
2.43.0


From d6740c97dfd9576bbb4183c7ca9b27ae98155836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 20/21] fix: sum the bias gradient over the rows of grad_output

linear_backward viewed the transposed, flattened gradient as if it had not
been transposed, so the bias gradient was wrong for every batch and layer
larger than one.
---
 src/linear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear.cpp b/src/linear.cpp
index cb4d00f..7c8fb82 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -81,7 +81,7 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
   cake_sgemm(grad_output_c, input_c, grad_weight_c, M1, N1, K1, p, cake_cntx);
   free(cake_cntx);
 
-  grad_output = grad_output.reshape({K1,M1});
+  grad_output = grad_output.reshape({M1,K1}).t();
   auto grad_bias = bias.defined() ? grad_output.sum(0, /*keepdim=*/false) : torch::Tensor{};
 
   // auto grad_input = at::matmul(grad_output, weight);
-- 
2.43.0


From cbe51aa09965d15c5214388553019e75c52796d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 21/21] fix: load the packed B panel unaligned in the generated
 AVX kernels

A packed B buffer that a caller allocates (malloc, new) is only aligned to
16 bytes, and its panels need not start on 32-byte boundaries; the aligned
loads made cake_sgemm crash on such buffers.
---
 python/kernel_gen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/kernel_gen.py b/python/kernel_gen.py
index 2fa4681..44396de 100644
--- a/python/kernel_gen.py
+++ b/python/kernel_gen.py
@@ -55,10 +55,10 @@ void cake_sgemm_haswell_%dx%d(float* A, float* B, float* C, int m, int n, int k)
 		def gen_inner_kernel(self, m, n):
 			nlanes = n//8
 			ret = '''
-		b1 = _mm256_load_ps(B);'''
+		b1 = _mm256_loadu_ps(B);'''
 			for i in range(1, nlanes):
 				ret += '''
-		b%d = _mm256_load_ps(B + %d);''' % (i+1, i*8)
+		b%d = _mm256_loadu_ps(B + %d);''' % (i+1, i*8)
 			for i in range(m):
 				ret += '''
 
@@ -127,10 +127,10 @@ void rosko_sgemm_haswell_%dx%d(float* A, float* B, float* C, int m, int n, int k
 		def gen_inner_kernel(self, m, n):
 			nlanes = n//8
 			ret = '''
-		b1 = _mm256_load_ps(B + k_ind);'''
+		b1 = _mm256_loadu_ps(B + k_ind);'''
 			for i in range(1, nlanes):
 				ret += '''
-		b%d = _mm256_load_ps(B + k_ind + %d);''' % (i+1, i*8)
+		b%d = _mm256_loadu_ps(B + k_ind + %d);''' % (i+1, i*8)
 			ret += '''
 			
 		for(int j = 0; j < m_cnt; j++) {
-- 
2.43.0

