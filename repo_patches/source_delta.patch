From ffab8a779cdd16932c703b12b4d0820c690e8714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 01/24] fix: Hash::put must absorb buffered bytes before a
 large input

---
 emp-tool/utils/hash.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index 9f287a3..e3ec1dc 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -23,9 +23,14 @@ class Hash { public:
 		EVP_MD_CTX_destroy(mdctx);
 	}
 	void put(const void * data, int nbyte) {
-		if (nbyte >= HASH_BUFFER_SIZE)
+		if (nbyte >= HASH_BUFFER_SIZE) {
+			// keep the order of the input: buffered bytes come first
+			if (size > 0) {
+				EVP_DigestUpdate(mdctx, buffer, size);
+				size = 0;
+			}
 			EVP_DigestUpdate(mdctx, data, nbyte);
-		else if(size + nbyte < HASH_BUFFER_SIZE) {
+		} else if(size + nbyte < HASH_BUFFER_SIZE) {
 			memcpy(buffer+size, data, nbyte);
 			size+=nbyte;
 		} else {
-- 
2.43.0


From 98a8ff356411ddbf65d1ec917631ef6e175d0203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 02/24] fix: PRG::reseed must drop the words buffered under the
 old seed

---
 emp-tool/utils/prg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5c1dba1..5e64ca7 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -52,6 +52,7 @@ class PRG { public:
 		key = v;
 		AES_set_encrypt_key(v, &aes);
 		counter = 0;
+		ptr = 32;
 	}
 
 	void random_data(void *data, int nbytes) {
-- 
2.43.0


From 8b50297ac4a50386132ca54d9c69705286718ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 03/24] fix: random_data_unaligned must advance the PRG
 independently of the buffer address

---
 emp-tool/utils/prg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5e64ca7..c41319a 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -104,7 +104,7 @@ class PRG { public:
             }
         } else {
             block tmp[2];
-            random_block(tmp, 2);
+            random_block(tmp, (nbytes + sizeof(block) - 1) / sizeof(block));
             memcpy(data, tmp, nbytes);
         }
     }
-- 
2.43.0


From 456c31b0bcd12441ec84601224b40fa962b85b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 04/24] fix: PRP(const char*) must use the key it is given

---
 emp-tool/utils/prp.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emp-tool/utils/prp.h b/emp-tool/utils/prp.h
index 08db0da..0ee4d5f 100644
--- a/emp-tool/utils/prp.h
+++ b/emp-tool/utils/prp.h
@@ -18,6 +18,8 @@ class PRP { public:
 	PRP(const char * key = nullptr) {
 		if(key == nullptr)
 			aes_set_key(zero_block);
+		else
+			aes_set_key(_mm_loadu_si128((const block *)key));
 	}
 
 	PRP(const block& key) {
-- 
2.43.0


From 26b171b61108d31ff714f52fe04fb39d89e448b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 05/24] fix: MemIO::clear must also rewind the read position

---
 emp-tool/io/mem_io_channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/io/mem_io_channel.h b/emp-tool/io/mem_io_channel.h
index 48f1a00..aa61624 100644
--- a/emp-tool/io/mem_io_channel.h
+++ b/emp-tool/io/mem_io_channel.h
@@ -31,6 +31,7 @@ class MemIO: public IOChannel<MemIO> { public:
 	}
 	void clear() {
 		size = 0;
+		read_pos = 0;
 	}
 	void send_data_internal(const void * data, int64_t len) {
 		if(size + len >= cap){
-- 
2.43.0


From 6039c49b3790af50e0eb17ba77d5599bb7ba7268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:01 +0000
Subject: [PATCH 06/24] fix: send_bool/recv_bool wire format must not depend on
 the local buffer address

The split point between raw and packed bytes was derived from the address of
the caller's buffer, so a sender and a receiver whose buffers have different
alignment disagreed on the format. The packed routines already use memcpy.
---
 emp-tool/io/io_channel.h | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/emp-tool/io/io_channel.h b/emp-tool/io/io_channel.h
index 66d7750..bc71400 100644
--- a/emp-tool/io/io_channel.h
+++ b/emp-tool/io/io_channel.h
@@ -51,29 +51,11 @@ class IOChannel { public:
 	}	
 
 	void send_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		const void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			send_data(data, length);
-		else{
-			size_t diff = length - space;
-			send_data(data, diff);
-			send_bool_aligned((const bool*)aligned, length - diff);
-		}
+		send_bool_aligned(data, length);
 	}
 
 	void recv_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			recv_data(data, length);
-		else{
-			size_t diff = length - space;
-			recv_data(data, diff);
-			recv_bool_aligned((bool*)aligned, length - diff);
-		}
+		recv_bool_aligned(data, length);
 	}
 
 
-- 
2.43.0


From 05b001e37449564170f3f774030a5e655da866b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:01 +0000
Subject: [PATCH 07/24] fix: reversed to_bool/from_bool must stay inside the
 buffer

---
 emp-tool/utils/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/utils.hpp b/emp-tool/utils/utils.hpp
index 13e2cef..e5e730f 100644
--- a/emp-tool/utils/utils.hpp
+++ b/emp-tool/utils/utils.hpp
@@ -58,7 +58,7 @@ inline void int_to_bool(bool * data, T input, int len) {
 template<typename T>
 inline void to_bool(bool * data, const T * input, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
-		data[reverse ? len - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
+		data[reverse ? len - 1 - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
 	}
 }
 
@@ -70,7 +70,7 @@ template<typename T>
 inline void from_bool(const bool * data, T * output, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
     ((uint8_t *) output)[i / 8] &= (~(((uint8_t) 1) << (i % 8))); // sets bit to 0
-    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - i : i]) << (i % 8)); // sets bit to bool[i]
+    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - 1 - i : i]) << (i % 8)); // sets bit to bool[i]
 	}
 }
 
-- 
2.43.0


From ceb70e1368e5fe89abadee9ee7301835f4aab08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:01 +0000
Subject: [PATCH 08/24] fix: HighSpeedNetIO must not pad with out-of-bounds or
 uninitialised memory

---
 emp-tool/io/highspeed_net_io_channel.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 4400bad..058b8d1 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -48,8 +48,11 @@ class SenderSubChannel : public SubChannel { public:
 	void flush() {
 		flushes++;
 		send_data_raw(buf, ptr);
-		if (counter % NETWORK_BUFFER_SIZE2 != 0)
-			send_data_raw(buf + ptr, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
+		if (counter % NETWORK_BUFFER_SIZE2 != 0) {
+			// pad with zeros, never with memory next to the payload
+			memset(buf, 0, NETWORK_BUFFER_SIZE2);
+			send_data_raw(buf, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
+		}
 		fflush(stream);
 		ptr = 0;
 	}
-- 
2.43.0


From 6933427574c020d3170a646e5d43d7872f1c7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:01 +0000
Subject: [PATCH 09/24] fix: HighSpeedNetIO must not spin forever once the peer
 is gone

---
 emp-tool/io/highspeed_net_io_channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 058b8d1..ed41497 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -73,10 +73,10 @@ class SenderSubChannel : public SubChannel { public:
 		int sent = 0;
 		while (sent < len) {
 			int res = fwrite(sent + (char *)data, 1, len - sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent += res;
 			else
-				fprintf(stderr, "error: net_send_data %d\n", res);
+				error("net_send_data\n");
 		}
 	}
 };
@@ -116,10 +116,10 @@ class RecverSubChannel : public SubChannel { public:
 		int sent = 0;
 		while (sent < len) {
 			int res = fread(sent + (char *)data, 1, len - sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent += res;
 			else
-				fprintf(stderr, "error: net_send_data %d\n", res);
+				error("net_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From daeaffb986d810e3f60ee1e7cacb84843f93d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:01 +0000
Subject: [PATCH 10/24] fix: FileIO must not spin forever at the end of the
 file

---
 emp-tool/io/file_io_channel.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 173f78a..7b5807a 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -38,20 +38,20 @@ class FileIO: public IOChannel<FileIO> { public:
 		int sent = 0;
 		while(sent < len) {
 			int res = fwrite(sent+(char*)data, 1, len-sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent+=res;
 			else
-				fprintf(stderr,"error: file_send_data %d\n", res);
+				error("file_send_data\n");
 		}
 	}
 	void recv_data_internal(void  * data, int len) {
 		int sent = 0;
 		while(sent < len) {
 			int res = fread(sent+(char*)data, 1, len-sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent+=res;
-			else 
-				fprintf(stderr,"error: file_recv_data %d\n", res);
+			else
+				error("file_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From ae1208c4173b301495f10c6916c7f869d59ae237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:37 +0000
Subject: [PATCH 11/24] fix: MITCCRH::hash must not read past its scheduled
 keys

After a hash<1,.> a hash<2,.> could start at the last key of the batch and use
memory behind it; from then on the batch was never renewed.
---
 emp-tool/utils/mitccrh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/mitccrh.h b/emp-tool/utils/mitccrh.h
index 8164e85..0387765 100644
--- a/emp-tool/utils/mitccrh.h
+++ b/emp-tool/utils/mitccrh.h
@@ -45,7 +45,7 @@ class MITCCRH { public:
 	void hash(block * blks) {
 		assert(K <= BatchSize);
 		assert(BatchSize % K == 0);
-		if(key_used == BatchSize) renew_ks();
+		if(key_used + K > BatchSize) renew_ks();
 
 		block tmp[K*H];
 		for(int i = 0; i < K*H; ++i)
-- 
2.43.0


From bff3fd9a26392e5ed34f6d4cb0ecd2d7cae5628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:37 +0000
Subject: [PATCH 12/24] fix: half-gates num_and must count the gates, not the
 scheduled key batches

---
 emp-tool/gc/halfgate_eva.h | 3 ++-
 emp-tool/gc/halfgate_gen.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/emp-tool/gc/halfgate_eva.h b/emp-tool/gc/halfgate_eva.h
index e79dfcb..6d5fd95 100644
--- a/emp-tool/gc/halfgate_eva.h
+++ b/emp-tool/gc/halfgate_eva.h
@@ -58,7 +58,8 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		// keys scheduled so far, less the ones of the batch still unused; two per gate
+		return (mitccrh.gid + mitccrh.key_used - 8)/2;
 	}
 };
 }
diff --git a/emp-tool/gc/halfgate_gen.h b/emp-tool/gc/halfgate_gen.h
index 7f8837d..a8a9a73 100644
--- a/emp-tool/gc/halfgate_gen.h
+++ b/emp-tool/gc/halfgate_gen.h
@@ -76,7 +76,8 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		// keys scheduled so far, less the ones of the batch still unused; two per gate
+		return (mitccrh.gid + mitccrh.key_used - 8)/2;
 	}
 };
 }
-- 
2.43.0


From eac85a522b694831fa71aec6ff25772fc1e8a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:37 +0000
Subject: [PATCH 13/24] fix: BristolFashion::from_file must not add to the
 widths of an earlier load

---
 emp-tool/circuits/circuit_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/circuits/circuit_file.h b/emp-tool/circuits/circuit_file.h
index 6159ac0..7a57ba2 100644
--- a/emp-tool/circuits/circuit_file.h
+++ b/emp-tool/circuits/circuit_file.h
@@ -144,6 +144,7 @@ class BristolFashion { public:
 
 	void from_file(FILE * f) {
 		int tmp;
+		num_input = num_output = 0;
 		(void)fscanf(f, "%d%d\n", &num_gate, &num_wire);
 		int niov = 0;
 		(void)fscanf(f, "%d", &niov);
-- 
2.43.0


From 4fcd11dfe4bac33e6321f3501b88b0e91ee77321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:37 +0000
Subject: [PATCH 14/24] fix: a recorded circuit must output a revealed
 constant, not its first input wire

---
 emp-tool/execution/plain_prot.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/emp-tool/execution/plain_prot.h b/emp-tool/execution/plain_prot.h
index 2330915..f9a164f 100644
--- a/emp-tool/execution/plain_prot.h
+++ b/emp-tool/execution/plain_prot.h
@@ -46,8 +46,11 @@ public:
 	void reveal(bool* b, int party, const block * label, int length) override {
 		for (int i = 0; i < length; ++i) {
 			uint64_t *arr = (uint64_t*) (&label[i]);
-			output_vec.push_back(arr[1]);
 			b[i] = cast_circ_exec->get_value(label[i]);
+			if (cast_circ_exec->is_public(label[i], PUBLIC)) // a constant has no wire
+				output_vec.push_back(b[i] ? -2 : -1);
+			else
+				output_vec.push_back(arr[1]);
 		}
 		n3+=length;
 	}
@@ -64,7 +67,10 @@ inline void finalize_plain_prot () {
 	int64_t z_index = cast_circ_exec->gid++;
 	cast_circ_exec->fout<<2<<" "<<1<<" "<<0<<" "<<0<<" "<<z_index<<" XOR"<<endl;
 	for (auto v : cast_prot_exec->output_vec) {
-		cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<v<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
+		if (v == -2)
+			cast_circ_exec->fout<<1<<" "<<1<<" "<<z_index<<" "<<cast_circ_exec->gid++<<" INV"<<endl;
+		else
+			cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<(v == -1 ? z_index : v)<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
 	}
 	cast_circ_exec->gates += (1+cast_prot_exec->output_vec.size());
 	cast_circ_exec->finalize();
-- 
2.43.0


From 05a078a8ad124fc2c919672cf0841884a441ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:37 +0000
Subject: [PATCH 15/24] fix: AES-CTR counter must carry into its upper half

The counter of CTR mode is 128 bits wide; adding start_chunk (or stepping to
the next block) wrapped at 64 bits, unlike the in-circuit variant and OpenSSL.
---
 emp-tool/circuits/aes_128_ctr.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 6a1f278..0f5c324 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -43,6 +43,9 @@ int aes_128_ctr(const __m128i key,
 		for(size_t i = 0; i < 8; ++i) {
 			((uint8_t *)(&counter))[15 - i] = ((uint8_t *)(&count))[i];
 		}
+		if (count < start_chunk) { // carry into the upper half
+			for(size_t i = 8; i < 16 && ++((uint8_t *)(&counter))[15 - i] == 0; ++i);
+		}
 	}
 	if (input == nullptr && output == nullptr) {
 		std::cerr << "input and output of aes_128_ctr can't both be null pointers\n"<<std::flush;
@@ -214,6 +217,9 @@ class AES_128_CTR_Calculator { public:
 			((uint8_t *)(&count))[j] = ((uint8_t *)(&counter))[15 - j];
 		}
 		count += start_chunk;
+		if (count < start_chunk) { // carry into the upper half
+			for(size_t j = 8; j < 16 && ++((uint8_t *)(&counter))[15 - j] == 0; ++j);
+		}
 
 		for (uint64_t i = 0; (128 * i) < length; ++i) {
 			for(size_t j = 0; j < 8; ++j) {
@@ -229,7 +235,9 @@ class AES_128_CTR_Calculator { public:
 			if (answer != 0) {
 				return answer;
 			}
-			++count;
+			if (++count == 0) { // carry into the upper half
+				for(size_t j = 8; j < 16 && ++((uint8_t *)(&counter))[15 - j] == 0; ++j);
+			}
 		}
 
 		return 0;
-- 
2.43.0


From e415b66bfb977dc3b304d16436fa5b9a142aefa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:12 +0000
Subject: [PATCH 16/24] fix: HighSpeedNetIO must not close its descriptors a
 second time

fclose() in the sub-channels already closes both sockets; by the time of the
second close() another thread may own the same descriptor numbers.
---
 emp-tool/io/highspeed_net_io_channel.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index ed41497..44fae33 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -208,8 +208,6 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		}
 		delete schannel;
 		delete rchannel;
-		close(send_sock);
-		close(recv_sock);
 	}
 
 	void sync() {}
-- 
2.43.0


From 8af7f3706fd0afe3ad0707b64ef8d5cfc56df87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 17/24] fix: privacy-free evaluation must use the whole
 ciphertext

table is a block here, so table[0] was its low 64-bit lane, broadcast to both
halves: the upper half of every AND output label with a true left input was wrong.
---
 emp-tool/gc/privacy_free_eva.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/gc/privacy_free_eva.h b/emp-tool/gc/privacy_free_eva.h
index e239b3e..fce9e2e 100644
--- a/emp-tool/gc/privacy_free_eva.h
+++ b/emp-tool/gc/privacy_free_eva.h
@@ -27,7 +27,7 @@ inline block privacy_free_eval(block A, block B, const block &table, uint64_t id
 	}
 	if (sa) {
 		*((char *) &HA) |= 0x01;
-		W = HA ^ table[0];
+		W = HA ^ table;
 		W = W ^ B;
 	} else {
 		*((char *) &HA) &= 0xfe;
-- 
2.43.0


From 35eb80bbf85726c822c6c9e5fcde71f81795a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:02 +0000
Subject: [PATCH 18/24] fix: in-circuit AES-CTR start chunk must carry past 64
 bits

---
 emp-tool/circuits/aes_128_ctr.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 0f5c324..2fd0078 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -127,7 +127,8 @@ class AES_128_CTR_Calculator { public:
 			block * output = nullptr, // if this is null, we'll encrypt in place
 			const size_t length = 128, // in blocks (so, basically bits)
 			const int party = emp::PUBLIC,
-			const uint64_t start_chunk = 0) {
+			const uint64_t start_chunk = 0,
+			const uint64_t start_chunk_high = 0) { // upper half of the 128-bit start chunk
 		if (input == nullptr && output == nullptr) {
 			std::cerr << "input and output cannot both be nullptr\n" << std::flush;
 			return -1;
@@ -141,7 +142,7 @@ class AES_128_CTR_Calculator { public:
 
 		if (length < 129) {
 
-			if (start_chunk == 0) {
+			if (start_chunk == 0 && start_chunk_high == 0) {
 				for(size_t i = 0; i < 128; ++i) {
 					this->keyiv[i + 128] = iv[reverse_bytes(i)];
 				}
@@ -150,7 +151,7 @@ class AES_128_CTR_Calculator { public:
 					this->counter.bits[i].bit = iv[reverse_bytes(i)];
 				}
 				uint64_t start_chunks[2];
-				start_chunks[1] = 0;
+				start_chunks[1] = start_chunk_high;
 				start_chunks[0] = start_chunk;
 				this->counter = this->counter + emp::Integer(128, start_chunks, party);
 				for(size_t i = 0; i < 128; ++i) {
@@ -183,7 +184,8 @@ class AES_128_CTR_Calculator { public:
 						(output == nullptr) ? nullptr : &(output[128 * i]),
 						((128 * (i + 1)) > length) ? (length - (128 * i)) : 128,
 						party,
-						i + start_chunk);
+						i + start_chunk,
+						start_chunk_high + (i + start_chunk < start_chunk ? 1 : 0));
 				if (answer != 0) {
 					return answer;
 				}
-- 
2.43.0


From 3ebe7b3238d56ec5328ce3ac1ce5394304b6c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:22 +0000
Subject: [PATCH 19/24] fix: NetIO must keep unread input when it starts to
 send

---
 emp-tool/io/net_io_channel.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index 6566564..2e23d96 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -24,7 +24,11 @@ class NetIO: public IOChannel<NetIO> { public:
 	int mysocket = -1;
 	int consocket = -1;
 	FILE * stream = nullptr;
+	// reads use a stream of their own: on a socket, stdio cannot switch one
+	// stream from reading to writing while it still holds unread input
+	FILE * recv_stream = nullptr;
 	char * buffer = nullptr;
+	char * recv_buffer = nullptr;
 	bool has_sent = false;
 	string addr;
 	int port;
@@ -82,6 +86,9 @@ class NetIO: public IOChannel<NetIO> { public:
 		buffer = new char[NETWORK_BUFFER_SIZE];
 		memset(buffer, 0, NETWORK_BUFFER_SIZE);
 		setvbuf(stream, buffer, _IOFBF, NETWORK_BUFFER_SIZE);
+		recv_stream = fdopen(dup(consocket), "rb");
+		recv_buffer = new char[NETWORK_BUFFER_SIZE];
+		setvbuf(recv_stream, recv_buffer, _IOFBF, NETWORK_BUFFER_SIZE);
 		if(!quiet)
 			std::cout << "connected\n";
 	}
@@ -101,7 +108,9 @@ class NetIO: public IOChannel<NetIO> { public:
 	~NetIO(){
 		flush();
 		fclose(stream);
+		fclose(recv_stream);
 		delete[] buffer;
+		delete[] recv_buffer;
 	}
 
 	void set_nodelay() {
@@ -136,7 +145,7 @@ class NetIO: public IOChannel<NetIO> { public:
 		has_sent = false;
 		size_t sent = 0;
 		while(sent < len) {
-			size_t res = fread(sent + (char*)data, 1, len - sent, stream);
+			size_t res = fread(sent + (char*)data, 1, len - sent, recv_stream);
 			if (res > 0)
 				sent += res;
 			else
-- 
2.43.0


From 089013de9950b679ef009960c1dcc7679e404eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:22 +0000
Subject: [PATCH 20/24] fix: FileIO must not truncate lengths of 2 GiB and more
 to int

---
 emp-tool/io/file_io_channel.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 7b5807a..382872b 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -33,21 +33,21 @@ class FileIO: public IOChannel<FileIO> { public:
 	void reset() {
 		rewind(stream);
 	}
-	void send_data_internal(const void * data, int len) {
+	void send_data_internal(const void * data, size_t len) {
 		bytes_sent += len;
-		int sent = 0;
+		size_t sent = 0;
 		while(sent < len) {
-			int res = fwrite(sent+(char*)data, 1, len-sent, stream);
+			size_t res = fwrite(sent+(char*)data, 1, len-sent, stream);
 			if (res > 0)
 				sent+=res;
 			else
 				error("file_send_data\n");
 		}
 	}
-	void recv_data_internal(void  * data, int len) {
-		int sent = 0;
+	void recv_data_internal(void  * data, size_t len) {
+		size_t sent = 0;
 		while(sent < len) {
-			int res = fread(sent+(char*)data, 1, len-sent, stream);
+			size_t res = fread(sent+(char*)data, 1, len-sent, stream);
 			if (res > 0)
 				sent+=res;
 			else
-- 
2.43.0


From c9ea65a39de845081ba82fe2ec268382ea1a7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:22 +0000
Subject: [PATCH 21/24] fix: HighSpeedNetIO must not truncate lengths of 2 GiB
 and more to int

---
 emp-tool/io/highspeed_net_io_channel.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 44fae33..aa48bac 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -57,7 +57,7 @@ class SenderSubChannel : public SubChannel { public:
 		ptr = 0;
 	}
 
-	void send_data(const void *data, int len) {
+	void send_data(const void *data, int64_t len) {
 		if (len <= NETWORK_BUFFER_SIZE2 - ptr) {
 			memcpy(buf + ptr, data, len);
 			ptr += len;
@@ -68,11 +68,11 @@ class SenderSubChannel : public SubChannel { public:
 		}
 	}
 
-	void send_data_raw(const void *data, int len) {
+	void send_data_raw(const void *data, int64_t len) {
 		counter += len;
-		int sent = 0;
+		int64_t sent = 0;
 		while (sent < len) {
-			int res = fwrite(sent + (char *)data, 1, len - sent, stream);
+			int64_t res = fwrite(sent + (char *)data, 1, len - sent, stream);
 			if (res > 0)
 				sent += res;
 			else
@@ -88,12 +88,12 @@ class RecverSubChannel : public SubChannel { public:
 		ptr = NETWORK_BUFFER_SIZE2;
 	}
 
-	void recv_data(void *data, int len) {
+	void recv_data(void *data, int64_t len) {
 		if (len <= NETWORK_BUFFER_SIZE2 - ptr) {
 			memcpy(data, buf + ptr, len);
 			ptr += len;
 		} else {
-			int remain = len;
+			int64_t remain = len;
 			memcpy(data, buf + ptr, NETWORK_BUFFER_SIZE2 - ptr);
 			remain -= NETWORK_BUFFER_SIZE2 - ptr;
 
@@ -111,11 +111,11 @@ class RecverSubChannel : public SubChannel { public:
 		}
 	}
 
-	void recv_data_raw(void *data, int len) {
+	void recv_data_raw(void *data, int64_t len) {
 		counter += len;
-		int sent = 0;
+		int64_t sent = 0;
 		while (sent < len) {
-			int res = fread(sent + (char *)data, 1, len - sent, stream);
+			int64_t res = fread(sent + (char *)data, 1, len - sent, stream);
 			if (res > 0)
 				sent += res;
 			else
@@ -233,7 +233,7 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		FSM = 0;
 	}
 
-	void send_data_internal(const void *data, int len) {
+	void send_data_internal(const void *data, int64_t len) {
 		if (FSM == 1) {
 			rchannel->flush();
 		}
@@ -241,7 +241,7 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		FSM = 2;
 	}
 
-	void recv_data_internal(void *data, int len) {
+	void recv_data_internal(void *data, int64_t len) {
 		if (FSM == 2) {
 			schannel->flush();
 		}
-- 
2.43.0


From 03188694725bb05feaf437ee3ff3e116bc650bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:32 +0000
Subject: [PATCH 22/24] fix: SHA3_256_Calculator permutes when padding rounds
 up to a full block

For inputs of 1081..1087 bits modulo 1088 the index rounded up to a byte
reaches the rate; the padding was then xored into the capacity and the result
was not the SHA3-256 hash of the zero-completed bytes.
---
 emp-tool/circuits/sha3_256.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/emp-tool/circuits/sha3_256.h b/emp-tool/circuits/sha3_256.h
index c62ba0b..f3c9e21 100644
--- a/emp-tool/circuits/sha3_256.h
+++ b/emp-tool/circuits/sha3_256.h
@@ -112,6 +112,10 @@ class SHA3_256_Calculator {
 
 			// I do not know why sha3 does this, but it needs to XOR the next byte with 0x06.
 			index = 8 * ((index + 7)/8); // round index up to next multiple of 8
+			if (index == 1088) {
+				keccak_f->compute(blocks, blocks);
+				index = 0;
+			}
 			blocks[keccak_address_translator(index + 1)] =
 				CircuitExecution::circ_exec->xor_gate(blocks[keccak_address_translator(index + 1)], one);
 			blocks[keccak_address_translator(index + 2)] =
@@ -151,6 +155,10 @@ class SHA3_256_Calculator {
 
 			// I do not know why sha3 does this, but it needs to XOR the next byte with 0x06.
 			index = 8 * ((index + 7)/8); // round index up to next multiple of 8
+			if (index == 1088) {
+				keccak_f->compute(blocks, blocks);
+				index = 0;
+			}
 			blocks[keccak_address_translator(index + 1)] =
 				CircuitExecution::circ_exec->xor_gate(blocks[keccak_address_translator(index + 1)], one);
 			blocks[keccak_address_translator(index + 2)] =
-- 
2.43.0


From 3eb532d85f5b4e73652147e5899009a297480bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:08 +0000
Subject: [PATCH 23/24] fix: uni_hash_coeff_gen writes nothing for an empty
 vector

---
 emp-tool/utils/f2k.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/f2k.h b/emp-tool/utils/f2k.h
index 4819b0e..ea68ac2 100644
--- a/emp-tool/utils/f2k.h
+++ b/emp-tool/utils/f2k.h
@@ -167,6 +167,7 @@ inline void vector_inn_prdt_sum_no_red(block *res, const block *a, const block *
 /* coefficients of almost universal hash function */
 inline void uni_hash_coeff_gen(block* coeff, block seed, int sz) {
 	// Handle the case with small `sz`
+	if(sz <= 0) return;
 	coeff[0] = seed;
 	if(sz == 1) return;
 
-- 
2.43.0


From 2c4b93758eea62b20d4d1b7082fd293c08c3f00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:36 +0000
Subject: [PATCH 24/24] fix: a retrying client must not connect to itself

With no server listening yet on a local ephemeral port, the kernel may give
a connection attempt the destination port as its source port; connect() then
succeeds and NetIO/HighSpeedNetIO talked to themselves while the server could
no longer bind.
---
 emp-tool/io/highspeed_net_io_channel.h | 15 ++++++++++++++-
 emp-tool/io/net_io_channel.h           | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index aa48bac..2e5b018 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -191,7 +191,9 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 
 		while (1) {
 			sock = socket(AF_INET, SOCK_STREAM, 0);
-			if (connect(sock, (struct sockaddr *)&dest, sizeof(struct sockaddr)) == 0) break;
+			int reuse = 1; // never keep a local server from binding the port
+			setsockopt(sock, SOL_SOCKET, SO_REUSEADDR, (const char *)&reuse, sizeof(reuse));
+			if (connect(sock, (struct sockaddr *)&dest, sizeof(struct sockaddr)) == 0 and not connected_to_self(sock)) break;
 
 			close(sock);
 			usleep(1000);
@@ -199,6 +201,17 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		return sock;
 	}
 
+	// With no local server yet, the kernel may pick the destination port as
+	// the source port: connect then succeeds, to the socket itself.
+	static bool connected_to_self(int sock) {
+		struct sockaddr_in local, peer;
+		socklen_t local_size = sizeof(local), peer_size = sizeof(peer);
+		return getsockname(sock, (struct sockaddr *)&local, &local_size) == 0
+			and getpeername(sock, (struct sockaddr *)&peer, &peer_size) == 0
+			and local.sin_port == peer.sin_port
+			and local.sin_addr.s_addr == peer.sin_addr.s_addr;
+	}
+
 	~HighSpeedNetIO() {
 		flush();
 		if (not quiet) {
diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index 2e23d96..8a16ea5 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -72,8 +72,10 @@ class NetIO: public IOChannel<NetIO> { public:
 
 			while(1) {
 				consocket = socket(AF_INET, SOCK_STREAM, 0);
+				int reuse = 1; // never keep a local server from binding the port
+				setsockopt(consocket, SOL_SOCKET, SO_REUSEADDR, (const char*)&reuse, sizeof(reuse));
 
-				if (connect(consocket, (struct sockaddr *)&dest, sizeof(struct sockaddr)) == 0) {
+				if (connect(consocket, (struct sockaddr *)&dest, sizeof(struct sockaddr)) == 0 and not connected_to_self(consocket)) {
 					break;
 				}
 
@@ -93,6 +95,17 @@ class NetIO: public IOChannel<NetIO> { public:
 			std::cout << "connected\n";
 	}
 
+	// With no local server yet, the kernel may pick the destination port as
+	// the source port: connect then succeeds, to the socket itself.
+	static bool connected_to_self(int sock) {
+		struct sockaddr_in local, peer;
+		socklen_t local_size = sizeof(local), peer_size = sizeof(peer);
+		return getsockname(sock, (struct sockaddr *)&local, &local_size) == 0
+			and getpeername(sock, (struct sockaddr *)&peer, &peer_size) == 0
+			and local.sin_port == peer.sin_port
+			and local.sin_addr.s_addr == peer.sin_addr.s_addr;
+	}
+
 	void sync() {
 		int tmp = 0;
 		if(is_server) {
-- 
2.43.0

