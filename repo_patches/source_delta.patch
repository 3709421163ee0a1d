From 7691e51870a461a51fb2b29307740091eabd1b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:13 +0000
Subject: [PATCH 01/23] fix: phase 3 merge must not give up while left input is
 still pending

The end-of-input flag was read without the lock after a buffer had been
copied: if the last left buffer(s) were queued in between, the worker
stopped early and plotting failed with 'position out of bounds'.
---
 include/chia/phase3.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 804b8b1..1aa2188 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -120,6 +120,7 @@ void compute_stage1(int L_index, int num_threads,
 				pos[1] -= L_buffer.offset;
 				
 				while(L_buffer.new_pos.size() <= pos[1]) {
+					bool is_end = false;
 					{
 						std::unique_lock<std::mutex> lock(mutex);
 						while(true) {
@@ -132,15 +133,18 @@ void compute_stage1(int L_index, int num_threads,
 									do_wait = false;
 								}
 							}
-							if(do_wait && !L_is_end) {
-								signal.wait(lock);		// wait for new input
-							} else {
+							if(!do_wait) {
 								break;
 							}
+							if(L_is_end) {
+								is_end = true;			// all input has been copied
+								break;
+							}
+							signal.wait(lock);		// wait for new input
 						}
 					}
 					signal_1.notify_all();	// notify copy_sync change
-					if(L_is_end) {
+					if(is_end) {
 						break;
 					}
 				}
-- 
2.43.0


From 8c3c33684a55faa346f7949bc5da905837e99fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:13 +0000
Subject: [PATCH 02/23] fix: copy_file() must not treat a read error as end of
 file

A failed fread() ended the copy early and reported success, after which
the caller removes the (complete) source.
---
 include/chia/copy.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 8d9b40e..effe4e8 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -45,6 +45,12 @@ uint64_t copy_file(const std::string& src_path, const std::string& dst_path)
 		}
 		total_bytes += num_bytes;
 		if(num_bytes < buffer.size()) {
+			if(ferror(src)) {
+				const auto err = errno;
+				fclose(src);
+				fclose(dst);
+				throw std::runtime_error("fread() failed on " + src_path + " (" + std::string(std::strerror(err)) + ")");
+			}
 			break;
 		}
 	}
-- 
2.43.0


From 44b89c4d9d0e65b1449a20120abdbda4374fc2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:13 +0000
Subject: [PATCH 03/23] fix: final_copy() must not report success when the
 final rename fails

The source was removed before the rename to the final name, and the result
of that rename was ignored. Keep the source until the plot is in place.
---
 include/chia/copy.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index effe4e8..c43271c 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -70,12 +70,21 @@ uint64_t final_copy(const std::string& src_path, const std::string& dst_path)
 	}
 	const std::string tmp_dst_path = dst_path + ".tmp";
 	uint64_t total_bytes = 109521666048ull;
-	if(rename(src_path.c_str(), tmp_dst_path.c_str())) {
+	const bool is_copy = rename(src_path.c_str(), tmp_dst_path.c_str());
+	if(is_copy) {
 		// try manual copy
 		total_bytes = copy_file(src_path, tmp_dst_path);
 	}
-	remove(src_path.c_str());
-	rename(tmp_dst_path.c_str(), dst_path.c_str());
+	if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
+		const auto err = errno;
+		if(!is_copy) {
+			rename(tmp_dst_path.c_str(), src_path.c_str());		// undo, so it can be tried again
+		}
+		throw std::runtime_error("rename() failed for " + dst_path + " (" + std::string(std::strerror(err)) + ")");
+	}
+	if(is_copy) {
+		remove(src_path.c_str());
+	}
 	return total_bytes;
 }
 
-- 
2.43.0


From 44b0ec82c92e1ad589e948da9ef6f3ccf3b75160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:13 +0000
Subject: [PATCH 04/23] fix: phase 4 must not ignore a failed close or rename
 of the plot file

Buffered data that could not be written, or a plot that could not be given
its final name, was reported as a finished plot.
---
 include/chia/phase4.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 95cf52e..681d8bb 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -258,12 +258,16 @@ void compute(	const phase3::output_t& input, output_t& out,
 	out.plot_size = compute(plot_file, input.params.k, input.header_size, input.sort_7.get(),
 							num_threads, input.final_pointer_7, input.num_written_7);
 	
-	fclose(plot_file);
+	if(fclose(plot_file)) {
+		throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	out.params = input.params;
 	out.plot_file_name = plot_dir + plot_name + ".plot";
 	
-	std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str());
+	if(std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str())) {
+		throw std::runtime_error("rename() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	std::cout << "Phase 4 took " << (get_wall_time_micros() - total_begin) / 1e6 << " sec"
 			", final plot size is " << out.plot_size << " bytes" << std::endl;
-- 
2.43.0


From 6d1917884426eda948ffabfc798822c125e6d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:13 +0000
Subject: [PATCH 05/23] fix: DiskTable::close() must not ignore a failed
 fclose()

The last buffered entries may only be written at that point.
---
 include/chia/DiskTable.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/chia/DiskTable.h b/include/chia/DiskTable.h
index 2ed6b1d..7e3237e 100644
--- a/include/chia/DiskTable.h
+++ b/include/chia/DiskTable.h
@@ -116,8 +116,11 @@ public:
 	void close() {
 		if(file_out) {
 			flush();
-			fclose(file_out);
+			const auto file = file_out;
 			file_out = nullptr;
+			if(fclose(file)) {
+				throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+			}
 		}
 	}
 	
-- 
2.43.0


From d6bdc40b76e356a76d11c7ca05972fa6a7203ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:20 +0000
Subject: [PATCH 06/23] fix: a failed ThreadPool job must not leave the next
 thread waiting forever

---
 include/chia/ThreadPool.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/chia/ThreadPool.h b/include/chia/ThreadPool.h
index d36dc03..1385f78 100644
--- a/include/chia/ThreadPool.h
+++ b/include/chia/ThreadPool.h
@@ -19,6 +19,8 @@ class ThreadPool : public Processor<T> {
 private:
 	struct thread_t {
 		uint64_t job = -1;
+		bool is_fail = false;
+		std::string ex_what;
 		std::mutex mutex;
 		std::condition_variable signal;
 		std::shared_ptr<Thread<T>> thread;
@@ -100,6 +102,22 @@ public:
 	
 private:
 	void wrapper(thread_t* state, thread_t* prev, T& input)
+	{
+		try {
+			process(state, prev, input);
+		} catch(const std::exception& ex) {
+			// our job will never finish, so the next thread must not wait for it
+			{
+				std::lock_guard<std::mutex> lock(state->mutex);
+				state->is_fail = true;
+				state->ex_what = ex.what();
+			}
+			state->signal.notify_all();
+			throw;
+		}
+	}
+	
+	void process(thread_t* state, thread_t* prev, T& input)
 	{
 		uint64_t job = -1;
 		{
@@ -111,6 +129,9 @@ private:
 		{
 			std::unique_lock<std::mutex> lock(prev->mutex);
 			while(prev->job < job) {
+				if(prev->is_fail) {
+					throw std::runtime_error(prev->ex_what);
+				}
 				prev->signal.wait(lock);
 			}
 		}
-- 
2.43.0


From a35f1de38de4e45f0305591372a60b3e56d6e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:28 +0000
Subject: [PATCH 07/23] fix: reject bucket counts which are too large for k up
 front

---
 src/chia_plot.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index df75a17..f7f4444 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -404,6 +404,15 @@ int main(int argc, char** argv)
 		std::cout << "Invalid buckets parameter -v: 2^" << log_num_buckets_3 << " (supported: 2^[4..16])" << std::endl;
 		return -2;
 	}
+	// sorting needs two levels of buckets, see DiskSort::read_bucket()
+	if(2 * log_num_buckets > k + kExtraBits) {
+		std::cout << "Invalid buckets parameter -u: 2^" << log_num_buckets << " (too many buckets for k" << k << ")" << std::endl;
+		return -2;
+	}
+	if(2 * log_num_buckets_3 > k) {
+		std::cout << "Invalid buckets parameter -v: 2^" << log_num_buckets_3 << " (too many buckets for k" << k << ")" << std::endl;
+		return -2;
+	}
 	{
 		const std::string path = tmp_dir + ".chia_plot_tmp";
 		if(auto file = fopen(path.c_str(), "wb")) {
-- 
2.43.0


From 93a8e9db965d171236623b6f3af0fbf3b5166890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:28 +0000
Subject: [PATCH 08/23] fix: remove the probe files when the open file limit is
 too low

---
 src/chia_plot.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index f7f4444..3f656b3 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -472,6 +472,7 @@ int main(int argc, char** argv)
 	
 	{
 		// check that we can open required amount of files
+		bool is_fail = false;
 		std::vector<std::pair<FILE*, std::string>> files;
 		for(int i = 0; i < num_files_max; ++i) {
 			const std::string path = tmp_dir + ".chia_plot_tmp." + std::to_string(i);
@@ -480,13 +481,17 @@ int main(int argc, char** argv)
 			} else {
 				std::cout << "Cannot open at least " << num_files_max
 						<< " files, please raise maximum open file limit in OS." << std::endl;
-				return -2;
+				is_fail = true;
+				break;
 			}
 		}
 		for(const auto& entry : files) {
 			fclose(entry.first);
 			remove(entry.second.c_str());
 		}
+		if(is_fail) {
+			return -2;
+		}
 	}
 
 	if(num_plots > 1 || num_plots < 0) {
-- 
2.43.0


From 988a586e2f1c76e18995b3e6618d8f633bc6e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:28 +0000
Subject: [PATCH 09/23] fix: FSE_compress_wksp splits its workspace with the
 default parameters applied

---
 lib/FSE/lib/fse_compress.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/FSE/lib/fse_compress.c b/lib/FSE/lib/fse_compress.c
index 07b3ab8..8f58e6b 100644
--- a/lib/FSE/lib/fse_compress.c
+++ b/lib/FSE/lib/fse_compress.c
@@ -654,15 +654,20 @@ size_t FSE_compress_wksp (void* dst, size_t dstSize, const void* src, size_t src
     U32   count[FSE_MAX_SYMBOL_VALUE+1];
     S16   norm[FSE_MAX_SYMBOL_VALUE+1];
     FSE_CTable* CTable = (FSE_CTable*)workSpace;
-    size_t const CTableSize = FSE_CTABLE_SIZE_U32(tableLog, maxSymbolValue);
-    void* scratchBuffer = (void*)(CTable + CTableSize);
-    size_t const scratchBufferSize = wkspSize - (CTableSize * sizeof(FSE_CTable));
+    size_t CTableSize;
+    void* scratchBuffer;
+    size_t scratchBufferSize;
 
     /* init conditions */
-    if (wkspSize < FSE_WKSP_SIZE_U32(tableLog, maxSymbolValue)) return ERROR(tableLog_tooLarge);
-    if (srcSize <= 1) return 0;  /* Not compressible */
     if (!maxSymbolValue) maxSymbolValue = FSE_MAX_SYMBOL_VALUE;
     if (!tableLog) tableLog = FSE_DEFAULT_TABLELOG;
+    if (wkspSize < FSE_WKSP_SIZE_U32(tableLog, maxSymbolValue)) return ERROR(tableLog_tooLarge);
+    if (srcSize <= 1) return 0;  /* Not compressible */
+
+    /* split workspace, with the actual parameters */
+    CTableSize = FSE_CTABLE_SIZE_U32(tableLog, maxSymbolValue);
+    scratchBuffer = (void*)(CTable + CTableSize);
+    scratchBufferSize = wkspSize - (CTableSize * sizeof(FSE_CTable));
 
     /* Scan input and build symbol stats */
     {   CHECK_V_F(maxCount, HIST_count_wksp(count, &maxSymbolValue, src, srcSize, (unsigned*)scratchBuffer) );
-- 
2.43.0


From f352baf9842d46e90a3907674072d5ca56209c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:28 +0000
Subject: [PATCH 10/23] fix: Huff0 4-stream decoders reject a destination too
 small for four segments

---
 lib/FSE/lib/huf_decompress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/FSE/lib/huf_decompress.c b/lib/FSE/lib/huf_decompress.c
index a696261..e58ae64 100644
--- a/lib/FSE/lib/huf_decompress.c
+++ b/lib/FSE/lib/huf_decompress.c
@@ -249,6 +249,7 @@ HUF_decompress4X1_usingDTable_internal_body(
         U32 const dtLog = dtd.tableLog;
 
         if (length4 > cSrcSize) return ERROR(corruption_detected);   /* overflow */
+        if (opStart4 > oend) return ERROR(corruption_detected);      /* dstSize too small for 4 streams */
         CHECK_F( BIT_initDStream(&bitD1, istart1, length1) );
         CHECK_F( BIT_initDStream(&bitD2, istart2, length2) );
         CHECK_F( BIT_initDStream(&bitD3, istart3, length3) );
@@ -772,6 +773,7 @@ HUF_decompress4X2_usingDTable_internal_body(
         U32 const dtLog = dtd.tableLog;
 
         if (length4 > cSrcSize) return ERROR(corruption_detected);   /* overflow */
+        if (opStart4 > oend) return ERROR(corruption_detected);      /* dstSize too small for 4 streams */
         CHECK_F( BIT_initDStream(&bitD1, istart1, length1) );
         CHECK_F( BIT_initDStream(&bitD2, istart2, length2) );
         CHECK_F( BIT_initDStream(&bitD3, istart3, length3) );
-- 
2.43.0


From ab0c7fb67eef01b8163f1a903d38a9766472e912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:28 +0000
Subject: [PATCH 11/23] fix: FSE_decompressU16 reports a bad bit stream instead
 of reading it

---
 lib/FSE/lib/fseU16.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/FSE/lib/fseU16.c b/lib/FSE/lib/fseU16.c
index 0b82f51..658bc6f 100644
--- a/lib/FSE/lib/fseU16.c
+++ b/lib/FSE/lib/fseU16.c
@@ -282,7 +282,9 @@ size_t FSE_decompressU16_usingDTable (U16* dst, size_t maxDstSize,
 
     /* Init */
     memset(&bitD, 0, sizeof(bitD));
-    BIT_initDStream(&bitD, cSrc, cSrcSize);
+    {   size_t const errorCode = BIT_initDStream(&bitD, cSrc, cSrcSize);
+        if (FSE_isError(errorCode)) return errorCode;
+    }
     FSE_initDState(&state, &bitD, dt);
 
     while((BIT_reloadDStream(&bitD) < BIT_DStream_completed) && (op<oend)) {
-- 
2.43.0


From a41eac593648304ba11340fcb3a5a8123b0197b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:28 +0000
Subject: [PATCH 12/23] fix: FSE_compressU16 reports lacking space

---
 lib/FSE/lib/fseU16.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/FSE/lib/fseU16.c b/lib/FSE/lib/fseU16.c
index 658bc6f..7d0dfac 100644
--- a/lib/FSE/lib/fseU16.c
+++ b/lib/FSE/lib/fseU16.c
@@ -161,7 +161,8 @@ size_t FSE_compressU16_usingCTable (void* dst, size_t maxDstSize,
 
 
     /* init */
-    BIT_initCStream(&bitC, op, maxDstSize);
+    { size_t const initError = BIT_initCStream(&bitC, op, maxDstSize);
+      if (FSE_isError(initError)) return 0; /* not enough space available to write a bitstream */ }
     FSE_initCState(&CState, ct);
 
     ip=iend;
@@ -240,8 +241,10 @@ size_t FSE_compressU16(void* dst, size_t maxDstSize,
     {   FSE_CTable CTable[FSE_CTABLE_SIZE_U32(FSE_MAX_TABLELOG, FSE_MAX_SYMBOL_VALUE)];
         size_t const errorCode = FSE_buildCTableU16 (CTable, norm, maxSymbolValue, tableLog);
         if (FSE_isError(errorCode)) return errorCode;
-        op += FSE_compressU16_usingCTable (op, omax - op, ip, srcSize, CTable);
-    }
+        {   size_t const cSize = FSE_compressU16_usingCTable (op, omax - op, ip, srcSize, CTable);
+            if (cSize == 0) return 0;   /* not enough space for compressed data */
+            op += cSize;
+    }   }
 
     /* check compressibility */
     if ( (size_t)(op-ostart) >= (size_t)(srcSize-1)*(sizeof(U16)) )
-- 
2.43.0


From 64c745248866b33bc0cdee4717fad5db6f85eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:28 +0000
Subject: [PATCH 13/23] fix: HIST_count does not read beyond inputs shorter
 than four bytes

---
 lib/FSE/lib/hist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/FSE/lib/hist.c b/lib/FSE/lib/hist.c
index 1652475..edadb23 100644
--- a/lib/FSE/lib/hist.c
+++ b/lib/FSE/lib/hist.c
@@ -108,7 +108,8 @@ static size_t HIST_count_parallel_wksp(
     if (!maxSymbolValue) maxSymbolValue = 255;            /* 0 == default */
 
     /* by stripes of 16 bytes */
-    {   U32 cached = MEM_read32(ip); ip += 4;
+    if (sourceSize >= 4) {
+        U32 cached = MEM_read32(ip); ip += 4;
         while (ip < iend-15) {
             U32 c = cached; cached = MEM_read32(ip); ip += 4;
             Counting1[(BYTE) c     ]++;
-- 
2.43.0


From fc67605871c97c67547a197996faceca043a986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:28 +0000
Subject: [PATCH 14/23] fix: FSE_readNCount keeps the last byte after a long
 run of zeros

---
 lib/FSE/lib/entropy_common.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/FSE/lib/entropy_common.c b/lib/FSE/lib/entropy_common.c
index 08d6e71..cd2e2aa 100644
--- a/lib/FSE/lib/entropy_common.c
+++ b/lib/FSE/lib/entropy_common.c
@@ -104,9 +104,10 @@ size_t FSE_readNCount (short* normalizedCounter, unsigned* maxSVPtr, unsigned* t
                 if (ip < iend-5) {
                     ip += 2;
                     bitStream = MEM_readLE32(ip) >> bitCount;
-                } else {
-                    bitStream >>= 16;
-                    bitCount   += 16;
+                } else {   /* reload the last 4 bytes, nothing may be left behind */
+                    bitCount += 16 - (int)(8 * (iend - 4 - ip));
+                    ip = iend - 4;
+                    bitStream = (bitCount < 32) ? MEM_readLE32(ip) >> bitCount : 0;
             }   }
             while ((bitStream & 3) == 3) {
                 n0 += 3;
@@ -123,7 +124,9 @@ size_t FSE_readNCount (short* normalizedCounter, unsigned* maxSVPtr, unsigned* t
                 bitCount &= 7;
                 bitStream = MEM_readLE32(ip) >> bitCount;
             } else {
-                bitStream >>= 2;
+                bitCount -= (int)(8 * (iend - 4 - ip));
+                ip = iend - 4;
+                bitStream = MEM_readLE32(ip) >> (bitCount & 31);
         }   }
         {   int const max = (2*threshold-1) - remaining;
             int count;
-- 
2.43.0


From bee335cc1dbe14ea4d126ea51162f92b8c275bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:28 +0000
Subject: [PATCH 15/23] fix: HUF_readStats accepts the largest weight the
 encoder produces

---
 lib/FSE/lib/entropy_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/FSE/lib/entropy_common.c b/lib/FSE/lib/entropy_common.c
index cd2e2aa..dd75111 100644
--- a/lib/FSE/lib/entropy_common.c
+++ b/lib/FSE/lib/entropy_common.c
@@ -214,7 +214,7 @@ size_t HUF_readStats(BYTE* huffWeight, size_t hwSize, U32* rankStats,
     memset(rankStats, 0, (HUF_TABLELOG_MAX + 1) * sizeof(U32));
     weightTotal = 0;
     {   U32 n; for (n=0; n<oSize; n++) {
-            if (huffWeight[n] >= HUF_TABLELOG_MAX) return ERROR(corruption_detected);
+            if (huffWeight[n] > HUF_TABLELOG_MAX) return ERROR(corruption_detected);
             rankStats[huffWeight[n]]++;
             weightTotal += (1 << huffWeight[n]) >> 1;
     }   }
-- 
2.43.0


From 5860671649beb94bae2a83b3afb573ca32ead7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:28 +0000
Subject: [PATCH 16/23] fix: no division by zero in FSE_normalizeM2 when all
 counts are one

---
 lib/FSE/lib/fse_compress.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/FSE/lib/fse_compress.c b/lib/FSE/lib/fse_compress.c
index 8f58e6b..da45372 100644
--- a/lib/FSE/lib/fse_compress.c
+++ b/lib/FSE/lib/fse_compress.c
@@ -394,6 +394,9 @@ static size_t FSE_normalizeM2(short* norm, U32 tableLog, const unsigned* count,
     }
     ToDistribute = (1 << tableLog) - distributed;
 
+    if (ToDistribute == 0)
+        return 0;
+
     if ((total / ToDistribute) > lowOne) {
         /* risk of rounding to zero */
         lowOne = (U32)((total * 3) / (ToDistribute * 2));
-- 
2.43.0


From d1df8de8dfd1698e76e0ea62d445e37357b6fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:28 +0000
Subject: [PATCH 17/23] fix: FSE_compress_usingCTable skips bound checks only
 when the worst case fits

---
 lib/FSE/lib/fse_compress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/FSE/lib/fse_compress.c b/lib/FSE/lib/fse_compress.c
index da45372..e029c03 100644
--- a/lib/FSE/lib/fse_compress.c
+++ b/lib/FSE/lib/fse_compress.c
@@ -630,7 +630,9 @@ size_t FSE_compress_usingCTable (void* dst, size_t dstSize,
                            const void* src, size_t srcSize,
                            const FSE_CTable* ct)
 {
-    unsigned const fast = (dstSize >= FSE_BLOCKBOUND(srcSize));
+    /* without bound checks only when the worst case fits : tableLog bits per symbol, end mark, one full container */
+    U32 const tableLog = MEM_read16(ct);
+    unsigned const fast = (dstSize > ((srcSize * tableLog) >> 3) + 1 + sizeof(size_t));
 
     if (fast)
         return FSE_compress_usingCTable_generic(dst, dstSize, src, srcSize, ct, 1);
-- 
2.43.0


From 7a3886338bac4560a26d6a3985f63a1fd357cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:37 +0000
Subject: [PATCH 18/23] fix: parse negative command line integers without
 signed overflow

---
 include/cxxopts.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cxxopts.hpp b/include/cxxopts.hpp
index 678dd9c..cfc477a 100644
--- a/include/cxxopts.hpp
+++ b/include/cxxopts.hpp
@@ -485,7 +485,7 @@ namespace cxxopts
         {
           if (negative)
           {
-            if (u > static_cast<U>(-(std::numeric_limits<T>::min)()))
+            if (u > static_cast<U>((std::numeric_limits<T>::min)()))
             {
               throw argument_incorrect_type(text);
             }
@@ -523,7 +523,7 @@ namespace cxxopts
       // if we got to here, then `t` is a positive number that fits into
       // `R`. So to avoid MSVC C4146, we first cast it to `R`.
       // See https://github.com/jarro2783/cxxopts/issues/62 for more details.
-      return -static_cast<R>(t);
+      return static_cast<R>(-static_cast<R>(t-1)-1);
     }
 
     template <typename R, typename T>
-- 
2.43.0


From bb4405a057ebd36c380f2f1fb47be38eea3ec81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:37 +0000
Subject: [PATCH 19/23] fix: reject command line integers that overflow while
 parsing

---
 include/cxxopts.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cxxopts.hpp b/include/cxxopts.hpp
index cfc477a..86fcacb 100644
--- a/include/cxxopts.hpp
+++ b/include/cxxopts.hpp
@@ -583,7 +583,7 @@ namespace cxxopts
           throw argument_incorrect_type(text);
         }
 
-        if (umax - digit < result * base)
+        if (result > (umax - digit) / base)
         {
           throw argument_incorrect_type(text);
         }
-- 
2.43.0


From ba6b5c84ee72b5f81359ffca9373fb74fc02c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 20/23] fix: reject keys and ids that are not hex strings

hex_to_bytes() turned every invalid digit into zero and accepted an odd
number of digits, so a mistyped key or id was plotted with other bytes.
---
 include/chia/util.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/chia/util.hpp b/include/chia/util.hpp
index 5e563a2..b8f5e18 100644
--- a/include/chia/util.hpp
+++ b/include/chia/util.hpp
@@ -384,6 +384,9 @@ inline
 std::vector<uint8_t> hex_to_bytes(const std::string& hex)
 {
 	std::vector<uint8_t> result;
+	if(hex.length() % 2 || hex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
+		return result;		// not a hex string
+	}
 	for(size_t i = 0; i < hex.length(); i += 2) {
 		const std::string byteString = hex.substr(i, 2);
 		result.push_back(::strtol(byteString.c_str(), NULL, 16));
-- 
2.43.0


From 1ba84bae4aa35bbb036ef2b21b68985273e8c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 21/23] fix: reject an invalid phase 2 thread multiplier up
 front

-K 0 or a negative value was accepted and aborted the run after phase 1.
---
 src/chia_plot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index 3f656b3..621bb8d 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -396,6 +396,10 @@ int main(int argc, char** argv)
 		std::cout << "Invalid threads parameter: " << num_threads << " (supported: [1..1024])" << std::endl;
 		return -2;
 	}
+	if(phase2::g_thread_multi < 1 || phase2::g_thread_multi > 1024) {
+		std::cout << "Invalid rmulti2 parameter: " << phase2::g_thread_multi << " (supported: [1..1024])" << std::endl;
+		return -2;
+	}
 	if(log_num_buckets < 4 || log_num_buckets > 16) {
 		std::cout << "Invalid buckets parameter -u: 2^" << log_num_buckets << " (supported: 2^[4..16])" << std::endl;
 		return -2;
-- 
2.43.0


From 027aebb1b69f7614fdeea53c5e7cb7d213ecdb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:53 +0000
Subject: [PATCH 22/23] fix: end at once on a double interrupt

exit() in the signal handler destroyed global objects which the worker
threads were still using: the process crashed or could block instead of
ending with its status.
---
 src/chia_plot.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index 621bb8d..4b7f32e 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -20,6 +20,7 @@
 
 #include <string>
 #include <csignal>
+#include <cstdlib>
 
 #ifndef _WIN32
 #include <sys/resource.h>
@@ -42,7 +43,7 @@ static void interrupt_handler(int sig)
 {	
 	if ( ( (get_wall_time_micros() - interrupt_timestamp) / 1e6) <= 1 ) {
 		std::cout << std::endl << "Double Ctrl-C pressed, exiting now!" << std::endl;
-		exit(-4);
+		std::_Exit(-4);		// other threads are still running, no clean-up possible
 	} else {
 		interrupt_timestamp = get_wall_time_micros();
 	}
-- 
2.43.0


From 0caca16aa60fd20caf28730f34c8dec5258b025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:29 +0000
Subject: [PATCH 23/23] fix: sort tables with more than 2^k entries

---
 include/chia/DiskSort.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/chia/DiskSort.hpp b/include/chia/DiskSort.hpp
index 4df7c78..beb87fd 100644
--- a/include/chia/DiskSort.hpp
+++ b/include/chia/DiskSort.hpp
@@ -67,10 +67,13 @@ DiskSort<T, Key>::WriteCache::WriteCache(DiskSort* disk, int key_shift, int num_
 template<typename T, typename Key>
 void DiskSort<T, Key>::WriteCache::add(const T& entry)
 {
-	const size_t index = Key{}(entry) >> key_shift;
+	size_t index = Key{}(entry) >> key_shift;
 	if(index >= buckets.size()) {
-		throw std::logic_error("bucket index out of range: "
-				+ std::to_string(index) + " >= " + std::to_string(buckets.size()));
+		if(index >= 2 * buckets.size()) {
+			throw std::logic_error("bucket index out of range: "
+					+ std::to_string(index) + " >= " + std::to_string(2 * buckets.size()));
+		}
+		index = buckets.size() - 1;		// a table can have slightly more than 2^k entries
 	}
 	auto& buffer = buckets[index];
 	if(buffer.count >= buffer.capacity) {
-- 
2.43.0

