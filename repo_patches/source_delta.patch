From 7e270fd8f23b0562605ca170b60b45778e42615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:38 +0000
Subject: [PATCH 01/12] fix: ThreadPool: a failed job no longer blocks the jobs
 after it forever

---
 include/chia/ThreadPool.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/chia/ThreadPool.h b/include/chia/ThreadPool.h
index d36dc03..343e1d2 100644
--- a/include/chia/ThreadPool.h
+++ b/include/chia/ThreadPool.h
@@ -19,6 +19,7 @@ class ThreadPool : public Processor<T> {
 private:
 	struct thread_t {
 		uint64_t job = -1;
+		bool is_fail = false;
 		std::mutex mutex;
 		std::condition_variable signal;
 		std::shared_ptr<Thread<T>> thread;
@@ -100,6 +101,20 @@ public:
 	
 private:
 	void wrapper(thread_t* state, thread_t* prev, T& input)
+	{
+		try {
+			process(state, prev, input);
+		} catch(...) {
+			{
+				std::lock_guard<std::mutex> lock(state->mutex);
+				state->is_fail = true;
+			}
+			state->signal.notify_all();		// our job will never finish, release the next one
+			throw;
+		}
+	}
+	
+	void process(thread_t* state, thread_t* prev, T& input)
 	{
 		uint64_t job = -1;
 		{
@@ -110,9 +125,12 @@ private:
 		execute(input, out, state->local);
 		{
 			std::unique_lock<std::mutex> lock(prev->mutex);
-			while(prev->job < job) {
+			while(prev->job < job && !prev->is_fail) {
 				prev->signal.wait(lock);
 			}
+			if(prev->job < job) {
+				throw std::runtime_error("previous job failed");
+			}
 		}
 		if(output) {
 			output->take(out);	// only one thread can be at this position
-- 
2.43.0


From e403f4767f26b24f0f3b80e980db59c0a05fb986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:23 +0000
Subject: [PATCH 02/12] fix: DiskTable: report a failed fclose() instead of
 leaving a truncated table

---
 include/chia/DiskTable.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/chia/DiskTable.h b/include/chia/DiskTable.h
index 2ed6b1d..5bb47fe 100644
--- a/include/chia/DiskTable.h
+++ b/include/chia/DiskTable.h
@@ -116,8 +116,11 @@ public:
 	void close() {
 		if(file_out) {
 			flush();
-			fclose(file_out);
+			FILE* file = file_out;
 			file_out = nullptr;
+			if(fclose(file)) {
+				throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+			}
 		}
 	}
 	
-- 
2.43.0


From 77e9243a088dea5513d0536d8eee5c57625192b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:40 +0000
Subject: [PATCH 03/12] fix: phase 3: report a failed write of the plot header

---
 include/chia/phase3.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 804b8b1..999f0b2 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -260,7 +260,9 @@ uint32_t WriteHeader(
 	uint8_t pointers[10 * 8] = {};
 	num_bytes += fwrite((pointers), 8, 10, file) * 8;
 
-	fflush(file);
+	if(fflush(file) || ferror(file)) {
+		throw std::runtime_error("writing plot header failed with: " + std::string(std::strerror(errno)));
+	}
 	std::cout << "Wrote plot header with " << num_bytes << " bytes" << std::endl;
 	return num_bytes;
 }
-- 
2.43.0


From 96afbd1ffd2dd943ff3dfb8f9203f5a842553115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:40 +0000
Subject: [PATCH 04/12] fix: phase 4: report failed fclose() and rename() of
 the finished plot

---
 include/chia/phase4.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 95cf52e..681d8bb 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -258,12 +258,16 @@ void compute(	const phase3::output_t& input, output_t& out,
 	out.plot_size = compute(plot_file, input.params.k, input.header_size, input.sort_7.get(),
 							num_threads, input.final_pointer_7, input.num_written_7);
 	
-	fclose(plot_file);
+	if(fclose(plot_file)) {
+		throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	out.params = input.params;
 	out.plot_file_name = plot_dir + plot_name + ".plot";
 	
-	std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str());
+	if(std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str())) {
+		throw std::runtime_error("rename() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	std::cout << "Phase 4 took " << (get_wall_time_micros() - total_begin) / 1e6 << " sec"
 			", final plot size is " << out.plot_size << " bytes" << std::endl;
-- 
2.43.0


From e4bb2528bb787e269ae2f08ead1e21c51d169e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:37 +0000
Subject: [PATCH 05/12] fix: phase 4: write the last C3 park even if it has no
 deltas

---
 include/chia/phase4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 681d8bb..69ef8e7 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -199,7 +199,7 @@ uint64_t compute(	FILE* plot_file,
     }
     final_file_writer_3 += P7_park_size;
 
-    if(!park_deltas.deltas.empty()) {
+    if(num_C1_entries > 0) {	// even without deltas, the park is part of the file
     	park_deltas.offset = begin_byte_C3 + (num_C1_entries - 1) * C3_size;
 		park_threads.take(park_deltas);
     }
-- 
2.43.0


From 0dde96395642448ee61466b531f2c58a58941673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:21 +0000
Subject: [PATCH 06/12] fix: phase 3: decide under the lock whether the left
 table has ended

---
 include/chia/phase3.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 999f0b2..99174ec 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -120,6 +120,7 @@ void compute_stage1(int L_index, int num_threads,
 				pos[1] -= L_buffer.offset;
 				
 				while(L_buffer.new_pos.size() <= pos[1]) {
+					bool is_end = false;
 					{
 						std::unique_lock<std::mutex> lock(mutex);
 						while(true) {
@@ -138,9 +139,10 @@ void compute_stage1(int L_index, int num_threads,
 								break;
 							}
 						}
+						is_end = L_is_end;		// as of the data seen above
 					}
 					signal_1.notify_all();	// notify copy_sync change
-					if(L_is_end) {
+					if(is_end) {
 						break;
 					}
 				}
-- 
2.43.0


From 1682d34c72a2cd609586dd1f689b225b0daa5b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:09 +0000
Subject: [PATCH 07/12] fix: final_copy: report a failed rename and keep the
 source until the plot has its final name

---
 include/chia/copy.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 8d9b40e..ce64d08 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -64,12 +64,14 @@ uint64_t final_copy(const std::string& src_path, const std::string& dst_path)
 	}
 	const std::string tmp_dst_path = dst_path + ".tmp";
 	uint64_t total_bytes = 109521666048ull;
-	if(rename(src_path.c_str(), tmp_dst_path.c_str())) {
+	if(rename(src_path.c_str(), dst_path.c_str())) {
 		// try manual copy
 		total_bytes = copy_file(src_path, tmp_dst_path);
+		if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
+			throw std::runtime_error("rename() failed for " + tmp_dst_path + " (" + std::string(std::strerror(errno)) + ")");
+		}
+		remove(src_path.c_str());
 	}
-	remove(src_path.c_str());
-	rename(tmp_dst_path.c_str(), dst_path.c_str());
 	return total_bytes;
 }
 
-- 
2.43.0


From 12d0a9d9155be8088b77b4d28c4e5d128cf2f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:19 +0000
Subject: [PATCH 08/12] fix: copy_file: report a failed read instead of
 delivering a truncated plot

---
 include/chia/copy.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index ce64d08..5cbee9c 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -45,6 +45,12 @@ uint64_t copy_file(const std::string& src_path, const std::string& dst_path)
 		}
 		total_bytes += num_bytes;
 		if(num_bytes < buffer.size()) {
+			if(ferror(src)) {
+				const auto err = errno;
+				fclose(src);
+				fclose(dst);
+				throw std::runtime_error("fread() failed on " + src_path + " (" + std::string(std::strerror(err)) + ")");
+			}
 			break;
 		}
 	}
-- 
2.43.0


From 27cbe6cda2a736e69a34fb4724bc5f5eb2d804cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:23 +0000
Subject: [PATCH 09/12] fix: hex_to_bytes: reject an odd number of digits and
 characters that are not hex digits

'-i' with 63 digits, or with '0x' and 62, silently plotted for a different id.
---
 include/chia/util.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/chia/util.hpp b/include/chia/util.hpp
index 5e563a2..5835b58 100644
--- a/include/chia/util.hpp
+++ b/include/chia/util.hpp
@@ -384,6 +384,9 @@ inline
 std::vector<uint8_t> hex_to_bytes(const std::string& hex)
 {
 	std::vector<uint8_t> result;
+	if(hex.length() % 2 || hex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
+		return result;
+	}
 	for(size_t i = 0; i < hex.length(); i += 2) {
 		const std::string byteString = hex.substr(i, 2);
 		result.push_back(::strtol(byteString.c_str(), NULL, 16));
-- 
2.43.0


From 19888568abbdeee51991fed310fb43f05d625521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:23 +0000
Subject: [PATCH 10/12] fix: remove the probe files when the open file limit is
 too low

---
 src/chia_plot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index df75a17..a387688 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -471,6 +471,10 @@ int main(int argc, char** argv)
 			} else {
 				std::cout << "Cannot open at least " << num_files_max
 						<< " files, please raise maximum open file limit in OS." << std::endl;
+				for(const auto& entry : files) {
+					fclose(entry.first);
+					remove(entry.second.c_str());
+				}
 				return -2;
 			}
 		}
-- 
2.43.0


From c2ea13634a797b201a0557962b3e8c309567dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:38 +0000
Subject: [PATCH 11/12] fix: refuse bucket counts that are too large for k
 before plotting

The run used to end with 'key_shift < 0' after phase 1 or 2, leaving the temporary files behind.
---
 src/chia_plot.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index a387688..da96c33 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -404,6 +404,14 @@ int main(int argc, char** argv)
 		std::cout << "Invalid buckets parameter -v: 2^" << log_num_buckets_3 << " (supported: 2^[4..16])" << std::endl;
 		return -2;
 	}
+	if(2 * log_num_buckets > k + kExtraBits) {
+		std::cout << "Invalid buckets parameter -u: 2^" << log_num_buckets << " (too many for k = " << k << ")" << std::endl;
+		return -2;
+	}
+	if(2 * log_num_buckets_3 > k) {
+		std::cout << "Invalid buckets parameter -v: 2^" << log_num_buckets_3 << " (too many for k = " << k << ")" << std::endl;
+		return -2;
+	}
 	{
 		const std::string path = tmp_dir + ".chia_plot_tmp";
 		if(auto file = fopen(path.c_str(), "wb")) {
-- 
2.43.0


From b3ce7b4f9e5deb977cf7ce0e3dad1937664425ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:45 +0000
Subject: [PATCH 12/12] fix: refuse a phase 2 thread multiplier below 1 at once

-K 0 or a negative value was accepted and made the plotter abort only
after phase 1 (ThreadPool refuses to be built without threads), hours
later, leaving all temporary files behind.
---
 src/chia_plot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index da96c33..6f0758f 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -396,6 +396,10 @@ int main(int argc, char** argv)
 		std::cout << "Invalid threads parameter: " << num_threads << " (supported: [1..1024])" << std::endl;
 		return -2;
 	}
+	if(phase2::g_thread_multi < 1) {
+		std::cout << "Invalid P2 thread multiplier parameter -K: " << phase2::g_thread_multi << " (needs to be at least 1)" << std::endl;
+		return -2;
+	}
 	if(log_num_buckets < 4 || log_num_buckets > 16) {
 		std::cout << "Invalid buckets parameter -u: 2^" << log_num_buckets << " (supported: 2^[4..16])" << std::endl;
 		return -2;
-- 
2.43.0

