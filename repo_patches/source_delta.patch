From 326fc930f899ae115f3f01a786a87ac03b21de90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:17 +0000
Subject: [PATCH 01/42] fix: Keccak-f[800] round constants and number of rounds

---
 lib/hash/keccak800.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 8b9ce0d..bd7978e 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -39,16 +39,16 @@ struct kripto_hash
 
 static const uint32_t rc[40] = 
 {
-	0x00000001, 0x00008082, 0x8000808A, 0x00008000,
-	0x0000808B, 0x80000001, 0x00008081, 0x80008009,
+	0x00000001, 0x00008082, 0x0000808A, 0x80008000,
+	0x0000808B, 0x80000001, 0x80008081, 0x00008009,
 	0x0000008A, 0x00000088, 0x80008009, 0x8000000A,
-	0x8000808B, 0x8000008B, 0x80008089, 0x80008003,
-	0x80008002, 0x80000080, 0x0000800A, 0x0000000A,
-	0x00008081, 0x80008080, 0x80000001, 0x00008008,
-	0x00008082, 0x0000800A, 0x80000003, 0x00000009,
-	0x80008082, 0x00008009, 0x80000080, 0x00008083,
-	0x80000081, 0x00000001, 0x0000800B, 0x00008001,
-	0x00000080, 0x80008000, 0x00008001, 0x00000009
+	0x8000808B, 0x0000008B, 0x00008089, 0x00008003,
+	0x00008002, 0x00000080, 0x0000800A, 0x8000000A,
+	0x80008081, 0x00008080, 0x80000001, 0x80008008,
+	0x80008082, 0x8000800A, 0x00000003, 0x80000009,
+	0x00008082, 0x00008009, 0x00000080, 0x00008083,
+	0x00000081, 0x00000001, 0x0000800B, 0x80008001,
+	0x00000080, 0x00008000, 0x80008001, 0x00000009
 };
 
 static void keccak800_F(kripto_hash *s)
@@ -287,7 +287,7 @@ static kripto_hash *keccak800_recreate
 	s->o = s->i = 0;
 
 	s->r = r;
-	if(!s->r) s->r = 20;
+	if(!s->r) s->r = 22;
 
 	s->rate = 100 - (out_len << 1);
 
-- 
2.43.0


From 923849713ccae94e6e6734933931c4a1ebca1867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:17 +0000
Subject: [PATCH 02/42] fix: BLAKE counter of final blocks without message bits

---
 lib/hash/blake256.c | 7 +++++--
 lib/hash/blake512.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/hash/blake256.c b/lib/hash/blake256.c
index ded9fe2..eff1afa 100644
--- a/lib/hash/blake256.c
+++ b/lib/hash/blake256.c
@@ -212,6 +212,8 @@ static void blake256_input
 
 static void blake256_finish(kripto_hash *s)
 {
+	unsigned int n = s->i; /* message bytes in the last block */
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -226,7 +228,7 @@ static void blake256_finish(kripto_hash *s)
 	{
 		while(s->i < 64) s->buf[s->i++] = 0;
 		blake256_process(s, s->buf);
-		s->i = 0;
+		s->i = n = 0;
 	}
 
 	while(s->i < 56) s->buf[s->i++] = 0;
@@ -237,7 +239,8 @@ static void blake256_finish(kripto_hash *s)
 	STORE32B(s->len[1], s->buf + 56);
 	STORE32B(s->len[0], s->buf + 60);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	/* counter is zero if there are no message bits in the last block */
+	if(!n) s->len[0] = s->len[1] = 0;
 
 	blake256_process(s, s->buf);
 
diff --git a/lib/hash/blake512.c b/lib/hash/blake512.c
index 0c64c32..02fe213 100644
--- a/lib/hash/blake512.c
+++ b/lib/hash/blake512.c
@@ -217,6 +217,8 @@ static void blake512_input
 
 static void blake512_finish(kripto_hash *s)
 {
+	unsigned int n = s->i; /* message bytes in the last block */
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -231,7 +233,7 @@ static void blake512_finish(kripto_hash *s)
 	{
 		while(s->i < 128) s->buf[s->i++] = 0;
 		blake512_process(s, s->buf);
-		s->i = 0;
+		s->i = n = 0;
 	}
 
 	while(s->i < 112) s->buf[s->i++] = 0;
@@ -242,7 +244,8 @@ static void blake512_finish(kripto_hash *s)
 	STORE64B(s->len[1], s->buf + 112);
 	STORE64B(s->len[0], s->buf + 120);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	/* counter is zero if there are no message bits in the last block */
+	if(!n) s->len[0] = s->len[1] = 0;
 
 	blake512_process(s, s->buf);
 
-- 
2.43.0


From 436e0a4d7cb7b25ddf97cf3a704e36eb30333023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:18 +0000
Subject: [PATCH 03/42] fix: BLAKE2 treats a full last block as final

---
 lib/hash/blake2b.c | 5 +++--
 lib/hash/blake2s.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/hash/blake2b.c b/lib/hash/blake2b.c
index 8451628..2466977 100644
--- a/lib/hash/blake2b.c
+++ b/lib/hash/blake2b.c
@@ -177,8 +177,7 @@ static void blake2b_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed by finish, even if full */
 		if(s->i == 128)
 		{
 			s->len[0] += 128;
@@ -191,6 +190,8 @@ static void blake2b_input
 			blake2b_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/blake2s.c b/lib/hash/blake2s.c
index 881bac0..de85ff0 100644
--- a/lib/hash/blake2s.c
+++ b/lib/hash/blake2s.c
@@ -175,8 +175,7 @@ static void blake2s_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed by finish, even if full */
 		if(s->i == 64)
 		{
 			s->len[0] += 64;
@@ -189,6 +188,8 @@ static void blake2s_input
 			blake2s_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From 236a848bdcf8847d9321617a8f218cc0bef1dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:14 +0000
Subject: [PATCH 04/42] fix: Skein key, salt and iv blocks, last block, output
 blocks and lengths

---
 lib/hash/skein1024.c   | 29 +++++++++++++++++------------
 lib/hash/skein256.c    | 29 +++++++++++++++++------------
 lib/hash/skein512.c    | 29 +++++++++++++++++------------
 lib/mac/skein1024.c    | 11 +++++++----
 lib/mac/skein256.c     | 11 +++++++----
 lib/mac/skein512.c     | 11 +++++++----
 lib/stream/skein1024.c |  8 +++++---
 lib/stream/skein256.c  |  8 +++++---
 lib/stream/skein512.c  |  8 +++++---
 9 files changed, 87 insertions(+), 57 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index 25708cd..b2794ae 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -37,6 +37,7 @@ struct kripto_hash
 	unsigned int i;
 	unsigned int out_len;
 	int f;
+	uint64_t ctr;
 	uint8_t h[128];
 	uint8_t buf[128];
 	uint8_t tweak[16];
@@ -91,7 +92,7 @@ static kripto_hash *skein1024_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,7 +118,8 @@ static kripto_hash *skein1024_recreate
 		unsigned int len = salt_len > 128 ? 128 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 128 - len);
+		memset(s->buf + len, 0, 128 - len);
+		salt = CU8(salt) + len;
 
 		POS_ADD(s->tweak, len);
 		salt_len -= len;
@@ -145,8 +147,7 @@ static void skein1024_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed by output, even if full */
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -154,6 +155,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -167,10 +170,12 @@ static void skein1024_output(kripto_hash *s, void *out, size_t len)
 		skein1024_process(s);
 		s->f = -1;
 		s->i = 128;
-		memset(s->buf, 0, 128);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 128);
+		kripto_block_tweak(s->block, s->tweak, 16);
+		s->ctr = 0;
 	}
 
 	assert(s->out_len >= len);
@@ -179,15 +184,15 @@ static void skein1024_output(kripto_hash *s, void *out, size_t len)
 	{
 		if(s->i == 128)
 		{
-			s->out_len -= 128;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein1024_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 128);
+			memset(s->h, 0, 128);
+			STORE64L(s->ctr, s->h);
+			s->ctr++;
+			kripto_block_encrypt(s->block, s->h, s->buf);
+			for(s->i = 0; s->i < 128; s->i++) s->buf[s->i] ^= s->h[s->i];
 			s->i = 0;
 		}
 		
-		U8(out)[i] = s->h[s->i++];
+		U8(out)[i] = s->buf[s->i++];
 	}
 }
 
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index de6f2dd..a77a20a 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -37,6 +37,7 @@ struct kripto_hash
 	unsigned int i;
 	unsigned int out_len;
 	int f;
+	uint64_t ctr;
 	uint8_t h[32];
 	uint8_t buf[32];
 	uint8_t tweak[16];
@@ -91,7 +92,7 @@ static kripto_hash *skein256_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,7 +118,8 @@ static kripto_hash *skein256_recreate
 		unsigned int len = salt_len > 32 ? 32 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 32 - len);
+		memset(s->buf + len, 0, 32 - len);
+		salt = CU8(salt) + len;
 
 		POS_ADD(s->tweak, len);
 		salt_len -= len;
@@ -145,8 +147,7 @@ static void skein256_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed by output, even if full */
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -154,6 +155,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -167,10 +170,12 @@ static void skein256_output(kripto_hash *s, void *out, size_t len)
 		skein256_process(s);
 		s->f = -1;
 		s->i = 32;
-		memset(s->buf, 0, 32);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 32);
+		kripto_block_tweak(s->block, s->tweak, 16);
+		s->ctr = 0;
 	}
 
 	assert(s->out_len >= len);
@@ -179,15 +184,15 @@ static void skein256_output(kripto_hash *s, void *out, size_t len)
 	{
 		if(s->i == 32)
 		{
-			s->out_len -= 32;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein256_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 32);
+			memset(s->h, 0, 32);
+			STORE64L(s->ctr, s->h);
+			s->ctr++;
+			kripto_block_encrypt(s->block, s->h, s->buf);
+			for(s->i = 0; s->i < 32; s->i++) s->buf[s->i] ^= s->h[s->i];
 			s->i = 0;
 		}
 		
-		U8(out)[i] = s->h[s->i++];
+		U8(out)[i] = s->buf[s->i++];
 	}
 }
 
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index e0fbeaa..eac70d1 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -37,6 +37,7 @@ struct kripto_hash
 	unsigned int i;
 	unsigned int out_len;
 	int f;
+	uint64_t ctr;
 	uint8_t h[64];
 	uint8_t buf[64];
 	uint8_t tweak[16];
@@ -91,7 +92,7 @@ static kripto_hash *skein512_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,7 +118,8 @@ static kripto_hash *skein512_recreate
 		unsigned int len = salt_len > 64 ? 64 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 64 - len);
+		memset(s->buf + len, 0, 64 - len);
+		salt = CU8(salt) + len;
 
 		POS_ADD(s->tweak, len);
 		salt_len -= len;
@@ -145,8 +147,7 @@ static void skein512_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed by output, even if full */
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -154,6 +155,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -167,10 +170,12 @@ static void skein512_output(kripto_hash *s, void *out, size_t len)
 		skein512_process(s);
 		s->f = -1;
 		s->i = 64;
-		memset(s->buf, 0, 64);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 64);
+		kripto_block_tweak(s->block, s->tweak, 16);
+		s->ctr = 0;
 	}
 
 	assert(s->out_len >= len);
@@ -179,15 +184,15 @@ static void skein512_output(kripto_hash *s, void *out, size_t len)
 	{
 		if(s->i == 64)
 		{
-			s->out_len -= 64;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein512_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 64);
+			memset(s->h, 0, 64);
+			STORE64L(s->ctr, s->h);
+			s->ctr++;
+			kripto_block_encrypt(s->block, s->h, s->buf);
+			for(s->i = 0; s->i < 64; s->i++) s->buf[s->i] ^= s->h[s->i];
 			s->i = 0;
 		}
 		
-		U8(out)[i] = s->h[s->i++];
+		U8(out)[i] = s->buf[s->i++];
 	}
 }
 
diff --git a/lib/mac/skein1024.c b/lib/mac/skein1024.c
index 405ae55..c1c2609 100644
--- a/lib/mac/skein1024.c
+++ b/lib/mac/skein1024.c
@@ -90,7 +90,7 @@ static kripto_mac *skein1024_recreate
 	memset(s->h, 0, 128);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,7 +101,8 @@ static kripto_mac *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(s->tweak, block);
 
@@ -125,6 +126,7 @@ static kripto_mac *skein1024_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 112);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein1024_process(s);
@@ -147,8 +149,7 @@ static void skein1024_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed by finish, even if full */
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -156,6 +157,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein256.c b/lib/mac/skein256.c
index ea4b813..d5e2ce2 100644
--- a/lib/mac/skein256.c
+++ b/lib/mac/skein256.c
@@ -90,7 +90,7 @@ static kripto_mac *skein256_recreate
 	memset(s->h, 0, 32);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,7 +101,8 @@ static kripto_mac *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(s->tweak, block);
 
@@ -125,6 +126,7 @@ static kripto_mac *skein256_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 16);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein256_process(s);
@@ -147,8 +149,7 @@ static void skein256_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed by finish, even if full */
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -156,6 +157,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein512.c b/lib/mac/skein512.c
index ae114ac..21a46b6 100644
--- a/lib/mac/skein512.c
+++ b/lib/mac/skein512.c
@@ -90,7 +90,7 @@ static kripto_mac *skein512_recreate
 	memset(s->h, 0, 64);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,7 +101,8 @@ static kripto_mac *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(s->tweak, block);
 
@@ -125,6 +126,7 @@ static kripto_mac *skein512_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 48);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein512_process(s);
@@ -147,8 +149,7 @@ static void skein512_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed by finish, even if full */
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -156,6 +157,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/stream/skein1024.c b/lib/stream/skein1024.c
index f722ae9..fd576a5 100644
--- a/lib/stream/skein1024.c
+++ b/lib/stream/skein1024.c
@@ -76,7 +76,7 @@ static kripto_stream *skein1024_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 128; /* no keystream yet */
 	memset(k, 0, 128);
 	memset(s->ctr, 0, 128);
 
@@ -90,7 +90,8 @@ static kripto_stream *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(tweak, block);
 
@@ -138,7 +139,8 @@ static kripto_stream *skein1024_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
+		iv = CU8(iv) + block;
 
 		POS_ADD(tweak, block);
 
diff --git a/lib/stream/skein256.c b/lib/stream/skein256.c
index 847ec10..6a27b19 100644
--- a/lib/stream/skein256.c
+++ b/lib/stream/skein256.c
@@ -76,7 +76,7 @@ static kripto_stream *skein256_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 32; /* no keystream yet */
 	memset(k, 0, 32);
 	memset(s->ctr, 0, 32);
 
@@ -90,7 +90,8 @@ static kripto_stream *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(tweak, block);
 
@@ -138,7 +139,8 @@ static kripto_stream *skein256_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
+		iv = CU8(iv) + block;
 
 		POS_ADD(tweak, block);
 
diff --git a/lib/stream/skein512.c b/lib/stream/skein512.c
index 231a56d..1e7e14d 100644
--- a/lib/stream/skein512.c
+++ b/lib/stream/skein512.c
@@ -76,7 +76,7 @@ static kripto_stream *skein512_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 64; /* no keystream yet */
 	memset(k, 0, 64);
 	memset(s->ctr, 0, 64);
 
@@ -90,7 +90,8 @@ static kripto_stream *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(tweak, block);
 
@@ -138,7 +139,8 @@ static kripto_stream *skein512_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
+		iv = CU8(iv) + block;
 
 		POS_ADD(tweak, block);
 
-- 
2.43.0


From 874a60e0384d94f52d1bd3503debceb88186477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:58 +0000
Subject: [PATCH 05/42] fix: Threefish decryption for round counts that are not
 a multiple of 8

---
 lib/block/threefish1024.c | 2 +-
 lib/block/threefish256.c  | 2 +-
 lib/block/threefish512.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/block/threefish1024.c b/lib/block/threefish1024.c
index d93d2f3..01a46a1 100644
--- a/lib/block/threefish1024.c
+++ b/lib/block/threefish1024.c
@@ -226,7 +226,7 @@ static void threefish1024_decrypt
 	uint64_t x13 = LOAD64L(CU8(ct) + 104);
 	uint64_t x14 = LOAD64L(CU8(ct) + 112);
 	uint64_t x15 = LOAD64L(CU8(ct) + 120);
-	unsigned int r = s->rounds >> 2;
+	unsigned int r = ((s->rounds >> 2) + 1) & ~1U; /* last subkey of encrypt */
 
 	while(r > 1)
 	{
diff --git a/lib/block/threefish256.c b/lib/block/threefish256.c
index f114214..8683b23 100644
--- a/lib/block/threefish256.c
+++ b/lib/block/threefish256.c
@@ -117,7 +117,7 @@ static void threefish256_decrypt
 	uint64_t x1 = LOAD64L(CU8(ct) + 8);
 	uint64_t x2 = LOAD64L(CU8(ct) + 16);
 	uint64_t x3 = LOAD64L(CU8(ct) + 24);
-	unsigned int r = s->rounds >> 2;
+	unsigned int r = ((s->rounds >> 2) + 1) & ~1U; /* last subkey of encrypt */
 
 	while(r > 1)
 	{
diff --git a/lib/block/threefish512.c b/lib/block/threefish512.c
index a97d6ac..52ecfac 100644
--- a/lib/block/threefish512.c
+++ b/lib/block/threefish512.c
@@ -153,7 +153,7 @@ static void threefish512_decrypt
 	uint64_t x5 = LOAD64L(CU8(ct) + 40);
 	uint64_t x6 = LOAD64L(CU8(ct) + 48);
 	uint64_t x7 = LOAD64L(CU8(ct) + 56);
-	unsigned int r = s->rounds >> 2;
+	unsigned int r = ((s->rounds >> 2) + 1) & ~1U; /* last subkey of encrypt */
 
 	while(r > 1)
 	{
-- 
2.43.0


From de6368287293014de1754b931691e8447aaaa53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:45 +0000
Subject: [PATCH 06/42] fix: block cipher re-creation with a different size
 keeps the descriptor

---
 lib/block/anubis.c    | 3 ++-
 lib/block/aria.c      | 3 ++-
 lib/block/blowfish.c  | 3 ++-
 lib/block/gost.c      | 3 ++-
 lib/block/idea.c      | 3 ++-
 lib/block/khazad.c    | 3 ++-
 lib/block/lea.c       | 3 ++-
 lib/block/rc5.c       | 3 ++-
 lib/block/rc6.c       | 3 ++-
 lib/block/rectangle.c | 3 ++-
 lib/block/rijndael.c  | 6 ++++--
 lib/block/safer.c     | 6 ++++--
 lib/block/saferpp.c   | 3 ++-
 lib/block/seed.c      | 3 ++-
 lib/block/serpent.c   | 3 ++-
 lib/block/shacal2.c   | 3 ++-
 lib/block/simon128.c  | 3 ++-
 lib/block/simon32.c   | 3 ++-
 lib/block/simon64.c   | 3 ++-
 lib/block/sm4.c       | 3 ++-
 lib/block/speck128.c  | 3 ++-
 lib/block/speck32.c   | 3 ++-
 lib/block/speck64.c   | 3 ++-
 lib/block/trax_l.c    | 3 ++-
 lib/block/trax_m.c    | 3 ++-
 lib/block/twofish.c   | 3 ++-
 lib/block/xtea.c      | 3 ++-
 27 files changed, 58 insertions(+), 29 deletions(-)

diff --git a/lib/block/anubis.c b/lib/block/anubis.c
index 78dd58b..0a1bc38 100644
--- a/lib/block/anubis.c
+++ b/lib/block/anubis.c
@@ -770,8 +770,9 @@ static kripto_block *anubis_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		anubis_destroy(s);
-		s = anubis_create(s->desc, r, key, key_len);
+		s = anubis_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/aria.c b/lib/block/aria.c
index fd6c724..d0c01c8 100644
--- a/lib/block/aria.c
+++ b/lib/block/aria.c
@@ -705,8 +705,9 @@ static kripto_block *aria_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		aria_destroy(s);
-		s = aria_create(s->desc, r, key, key_len);
+		s = aria_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/blowfish.c b/lib/block/blowfish.c
index 3a8f000..f4ba26d 100644
--- a/lib/block/blowfish.c
+++ b/lib/block/blowfish.c
@@ -519,8 +519,9 @@ static kripto_block *blowfish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		blowfish_destroy(s);
-		s = blowfish_create(s->desc, r, key, key_len);
+		s = blowfish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/gost.c b/lib/block/gost.c
index 6e172dc..5ba5585 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -190,8 +190,9 @@ static kripto_block *gost_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
 		gost_destroy(s);
-		s = gost_create(s->desc, r, key, key_len);
+		s = gost_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/idea.c b/lib/block/idea.c
index bea4387..b6b7401 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -212,8 +212,9 @@ static kripto_block *idea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
 		idea_destroy(s);
-		s = idea_create(s->desc, r, key, key_len);
+		s = idea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/khazad.c b/lib/block/khazad.c
index 52cc321..d540f55 100644
--- a/lib/block/khazad.c
+++ b/lib/block/khazad.c
@@ -747,8 +747,9 @@ static kripto_block *khazad_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
 		khazad_destroy(s);
-		s = khazad_create(s->desc, r, key, key_len);
+		s = khazad_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/lea.c b/lib/block/lea.c
index 7c5ce68..a16cd08 100644
--- a/lib/block/lea.c
+++ b/lib/block/lea.c
@@ -249,8 +249,9 @@ static kripto_block *lea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
 		lea_destroy(s);
-		s = lea_create(s->desc, r, key, key_len);
+		s = lea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index 650ab37..2827c4c 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -156,8 +156,9 @@ static kripto_block *rc5_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
 		rc5_destroy(s);
-		s = rc5_create(s->desc, r, key, key_len);
+		s = rc5_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index dccc223..b6702bf 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -197,8 +197,9 @@ static kripto_block *rc6_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		rc6_destroy(s);
-		s = rc6_create(s->desc, r, key, key_len);
+		s = rc6_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rectangle.c b/lib/block/rectangle.c
index 03eb04f..9c1bd36 100644
--- a/lib/block/rectangle.c
+++ b/lib/block/rectangle.c
@@ -286,8 +286,9 @@ static kripto_block *rectangle_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		rectangle_destroy(s);
-		s = rectangle_create(s->desc, r, key, key_len);
+		s = rectangle_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 4e0e8e6..fae3536 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -934,8 +934,9 @@ static kripto_block *rijndael128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		rijndael128_destroy(s);
-		s = rijndael128_create(s->desc, r, key, key_len);
+		s = rijndael128_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -1167,8 +1168,9 @@ static kripto_block *rijndael256_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		rijndael256_destroy(s);
-		s = rijndael256_create(s->desc, r, key, key_len);
+		s = rijndael256_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/safer.c b/lib/block/safer.c
index 9ab2013..f29421b 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -348,8 +348,9 @@ static kripto_block *safer_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		safer_destroy(s);
-		s = safer_create(s->desc, r, key, key_len);
+		s = safer_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -401,8 +402,9 @@ static kripto_block *safer_sk_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		safer_destroy(s);
-		s = safer_sk_create(s->desc, r, key, key_len);
+		s = safer_sk_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index 86d6978..3bd3b9d 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -410,8 +410,9 @@ static kripto_block *saferpp_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		saferpp_destroy(s);
-		s = saferpp_create(s->desc, r, key, key_len);
+		s = saferpp_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/seed.c b/lib/block/seed.c
index 91f0c23..c5eaa88 100644
--- a/lib/block/seed.c
+++ b/lib/block/seed.c
@@ -457,8 +457,9 @@ static kripto_block *seed_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		seed_destroy(s);
-		s = seed_create(s->desc, r, key, key_len);
+		s = seed_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/serpent.c b/lib/block/serpent.c
index 9e1396d..ae60d96 100644
--- a/lib/block/serpent.c
+++ b/lib/block/serpent.c
@@ -707,8 +707,9 @@ static kripto_block *serpent_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		serpent_destroy(s);
-		s = serpent_create(s->desc, r, key, key_len);
+		s = serpent_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 9d436de..42bbf24 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -234,8 +234,9 @@ static kripto_block *shacal2_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
 		shacal2_destroy(s);
-		s = shacal2_create(s->desc, r, key, key_len);
+		s = shacal2_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon128.c b/lib/block/simon128.c
index 8259e95..21b13c5 100644
--- a/lib/block/simon128.c
+++ b/lib/block/simon128.c
@@ -182,8 +182,9 @@ static kripto_block *simon128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		simon128_destroy(s);
-		s = simon128_create(s->desc, r, key, key_len);
+		s = simon128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon32.c b/lib/block/simon32.c
index 94d071f..d4f7390 100644
--- a/lib/block/simon32.c
+++ b/lib/block/simon32.c
@@ -154,8 +154,9 @@ static kripto_block *simon32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		simon32_destroy(s);
-		s = simon32_create(s->desc, r, key, key_len);
+		s = simon32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon64.c b/lib/block/simon64.c
index 0caf667..3ca67fb 100644
--- a/lib/block/simon64.c
+++ b/lib/block/simon64.c
@@ -165,8 +165,9 @@ static kripto_block *simon64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		simon64_destroy(s);
-		s = simon64_create(s->desc, r, key, key_len);
+		s = simon64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/sm4.c b/lib/block/sm4.c
index 142173a..b2a77b7 100644
--- a/lib/block/sm4.c
+++ b/lib/block/sm4.c
@@ -222,8 +222,9 @@ static kripto_block *sm4_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
 		sm4_destroy(s);
-		s = sm4_create(s->desc, r, key, key_len);
+		s = sm4_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 1dfaf86..21090cf 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -144,8 +144,9 @@ static kripto_block *speck128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		speck128_destroy(s);
-		s = speck128_create(s->desc, r, key, key_len);
+		s = speck128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index e85af4d..e55113d 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -144,8 +144,9 @@ static kripto_block *speck32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		speck32_destroy(s);
-		s = speck32_create(s->desc, r, key, key_len);
+		s = speck32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index f495424..629bc82 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -144,8 +144,9 @@ static kripto_block *speck64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		speck64_destroy(s);
-		s = speck64_create(s->desc, r, key, key_len);
+		s = speck64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_l.c b/lib/block/trax_l.c
index d447c42..bec0e0d 100644
--- a/lib/block/trax_l.c
+++ b/lib/block/trax_l.c
@@ -287,8 +287,9 @@ static kripto_block *trax_l_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *desc = s->desc;
 		trax_l_destroy(s);
-		s = trax_l_create(s->desc, r, key, key_len);
+		s = trax_l_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_m.c b/lib/block/trax_m.c
index 1611466..185a9a5 100644
--- a/lib/block/trax_m.c
+++ b/lib/block/trax_m.c
@@ -219,8 +219,9 @@ static kripto_block *trax_m_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *desc = s->desc;
 		trax_m_destroy(s);
-		s = trax_m_create(s->desc, r, key, key_len);
+		s = trax_m_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/twofish.c b/lib/block/twofish.c
index 676aa5f..585ee42 100644
--- a/lib/block/twofish.c
+++ b/lib/block/twofish.c
@@ -1224,8 +1224,9 @@ static kripto_block *twofish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		twofish_destroy(s);
-		s = twofish_create(s->desc, r, key, key_len);
+		s = twofish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index b050337..5bb3f6f 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -142,8 +142,9 @@ static kripto_block *xtea_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
 		xtea_destroy(s);
-		s = xtea_create(s->desc, r, key, key_len);
+		s = xtea_create(desc, r, key, key_len);
 	}
 	else
 	{
-- 
2.43.0


From 1f472ae2d49b2086e3378312a2292549ae441926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:38 +0000
Subject: [PATCH 07/42] fix: Rijndael round constants beyond the table

---
 lib/block/rijndael.c | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index fae3536..6653a40 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -662,23 +662,6 @@ static const uint8_t td4[256] =
 	0xE1, 0x69, 0x14, 0x63, 0x55, 0x21, 0x0C, 0x7D
 };
 
-static const uint32_t rcon[52] =
-{
-	0x01000000, 0x02000000, 0x04000000, 0x08000000,
-	0x10000000, 0x20000000, 0x40000000, 0x80000000,
-	0x1B000000, 0x36000000, 0x6C000000, 0xD8000000,
-	0xAB000000, 0x4D000000, 0x9A000000, 0x2F000000,
-	0x5E000000, 0xBC000000, 0x63000000, 0xC6000000,
-	0x97000000, 0x35000000, 0x6A000000, 0xD4000000,
-	0xB3000000, 0x7D000000, 0xFA000000, 0xEF000000,
-	0xC5000000, 0x91000000, 0x39000000, 0x72000000,
-	0xE4000000, 0xD3000000, 0xBD000000, 0x61000000,
-	0xC2000000, 0x9F000000, 0x25000000, 0x4A000000,
-	0x94000000, 0x33000000, 0x66000000, 0xCC000000,
-	0x83000000, 0x1D000000, 0x3A000000, 0x74000000,
-	0xE8000000, 0xCB000000, 0x8D000000
-};
-
 #define E(X0, X1, X2, X3)		\
 (					\
 	te0[(X0) >> 24] ^		\
@@ -732,14 +715,16 @@ static void rijndael_setup
 	for(i = 0; i < n; i++) s->k[i] = 0;
 	LOAD32B_ARRAY(key, s->k, key_len);
 
-	for(j = n, x = 0; j < len; j += n)
+	for(j = n, x = 1; j < len; j += n)
 	{
 		t = s->k[j - 1];
 		s->k[j] = s->k[j - n] ^
 			((te4[(t >> 16) & 0xFF] << 24) |
 			(te4[(t >> 8) & 0xFF] << 16) |
 			(te4[t & 0xFF] << 8) |
-			te4[t >> 24]) ^ rcon[x++];
+			te4[t >> 24]) ^ (x << 24);
+
+		x = (x << 1) ^ ((x >> 7) * 0x11B);
 
 		if(n <= 6)
 		{
-- 
2.43.0


From d5327eef410f231b36314bf1e0822ea3bf66fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 08/42] fix: scrypt working areas overlap the V array

---
 lib/scrypt.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index 71541c8..a70b578 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -217,13 +217,16 @@ int kripto_scrypt
 	uint32_t *t1;
 	uint32_t *t2;
 	uint32_t i;
+	size_t len;
 
-	b = (uint8_t *)malloc((r << 7) * p + (r << 7) * n + (r << 8));
+	len = ((size_t)r << 7) * p + ((size_t)r << 7) * n + ((size_t)r << 8);
+
+	b = (uint8_t *)malloc(len);
 	if(!b) return -1;
 
-	t0 = (uint32_t *)(void *)(b + (r << 7) * p);
-	t1 = t0 + (r << 5);
-	t2 = t1 + (r << 5);
+	t0 = (uint32_t *)(void *)(b + ((size_t)r << 7) * p);
+	t1 = t0 + ((size_t)r << 5) * n;
+	t2 = t1 + ((size_t)r << 5);
 
 	if(kripto_pbkdf2
 	(
@@ -239,7 +242,7 @@ int kripto_scrypt
 	)) goto err;
 
 	for(i = 0; i < p; i++)
-		smix(b + (r << 7) * i, r, n, t0, t1, t2);
+		smix(b + ((size_t)r << 7) * i, r, n, t0, t1, t2);
 
 	if(kripto_pbkdf2
 	(
@@ -254,13 +257,13 @@ int kripto_scrypt
 		out_len
 	)) goto err;
 
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, len);
 	free(b);
 
 	return 0;
 
 err:
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, len);
 	free(b);
 
 	return -1;
-- 
2.43.0


From 62500e78826a40930d177d199fcb21ae8827ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 09/42] fix: PBKDF2 with an output shorter than the PRF

---
 lib/pbkdf2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index c456fb0..cfe4c63 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -49,7 +49,7 @@ int kripto_pbkdf2
 	assert(iter);
 
 	x = kripto_mac_maxtag(mac);
-	if(out_len < x) x = out_len;
+	if(!x) return -1; /* no fixed PRF output length */
 
 	buf0 = (uint8_t *)malloc(x << 1);
 	if(!buf0) return -1;
-- 
2.43.0


From dc4e7d13292e1008e249e275812af66d2682928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 10/42] fix: PBKDF2 uses a freed MAC when re-creation fails

---
 lib/pbkdf2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index cfe4c63..cdec33c 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -75,7 +75,7 @@ int kripto_pbkdf2
 		for(i = 1; i < iter; i++)
 		{
 			m = kripto_mac_recreate(m, mac_rounds, pass, pass_len, x);
-			if(!mac) goto err;
+			if(!m) goto err;
 
 			kripto_mac_input(m, buf0, x);
 			kripto_mac_tag(m, buf0, x);
-- 
2.43.0


From 2c1afe44e9da31006ed44d734f9a86895fce9d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 11/42] fix: CFB decryption writes keystream over the output

---
 lib/stream/cfb.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/stream/cfb.c b/lib/stream/cfb.c
index 373ec5e..ff9dbcf 100644
--- a/lib/stream/cfb.c
+++ b/lib/stream/cfb.c
@@ -66,17 +66,19 @@ static void cfb_decrypt
 )
 {
 	size_t i;
+	uint8_t c;
 
 	for(i = 0; i < len; i++)
 	{
 		if(s->used == s->blocksize)
 		{
-			kripto_block_encrypt(s->block, s->prev, pt);
+			kripto_block_encrypt(s->block, s->prev, s->prev);
 			s->used = 0;
 		}
 
-		U8(pt)[i] ^= CU8(ct)[i];
-		s->prev[s->used++] = CU8(ct)[i];
+		c = CU8(ct)[i];
+		U8(pt)[i] = s->prev[s->used] ^ c;
+		s->prev[s->used++] = c;
 	}
 }
 
-- 
2.43.0


From f16b2c1387e518516241157fec8fc5d318c89e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 12/42] fix: CTR counter carry into the first byte

---
 lib/stream/ctr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/stream/ctr.c b/lib/stream/ctr.c
index d3a833c..f4ff81c 100644
--- a/lib/stream/ctr.c
+++ b/lib/stream/ctr.c
@@ -54,7 +54,7 @@ static void ctr_crypt
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
+			for(n = s->blocksize; n--;)
 				if(++s->x[n]) break;
 		}
 
@@ -79,7 +79,7 @@ static void ctr_prng
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
+			for(n = s->blocksize; n--;)
 				if(++s->x[n]) break;
 		}
 
-- 
2.43.0


From 9496f14a68eea69238b358296b498dc9683b4a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 13/42] fix: OMAC positions of the high polynomial bytes

---
 lib/mac/omac.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 5ed42fd..6bbc77f 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -323,9 +323,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu[s->len - 4] ^= poly[s->len][0];
-			s->lu[s->len - 3] ^= poly[s->len][1];
-			s->lu[s->len - 2] ^= poly[s->len][2];
+			s->lu[s->len - 6] ^= poly[s->len][0];
+			s->lu[s->len - 5] ^= poly[s->len][1];
+			s->lu[s->len - 4] ^= poly[s->len][2];
 			s->lu[s->len - 3] ^= poly[s->len][3];
 			s->lu[s->len - 2] ^= poly[s->len][4];
 		}
@@ -346,9 +346,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu2[s->len - 4] ^= poly[s->len][0];
-			s->lu2[s->len - 3] ^= poly[s->len][1];
-			s->lu2[s->len - 2] ^= poly[s->len][2];
+			s->lu2[s->len - 6] ^= poly[s->len][0];
+			s->lu2[s->len - 5] ^= poly[s->len][1];
+			s->lu2[s->len - 4] ^= poly[s->len][2];
 			s->lu2[s->len - 3] ^= poly[s->len][3];
 			s->lu2[s->len - 2] ^= poly[s->len][4];
 		}
-- 
2.43.0


From 2e494beb77cce4e7e0e94f867e6e0e3dd9a83409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 14/42] fix: XCBC creation failure leaves derived keys in freed
 memory

---
 lib/mac/xcbc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mac/xcbc.c b/lib/mac/xcbc.c
index f421b13..aec7a58 100644
--- a/lib/mac/xcbc.c
+++ b/lib/mac/xcbc.c
@@ -160,6 +160,7 @@ static kripto_mac *xcbc_create
 
 	if(xcbc_init(s, r))
 	{
+		kripto_memory_wipe(s, sizeof(kripto_mac) + s->len * 3);
 		free(s);
 		return 0;
 	}
-- 
2.43.0


From 4aa404f09ce7e5060109d74ceb3c28d4fe1cdff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 15/42] fix: ROR8_6

---
 include/kripto/rotate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kripto/rotate.h b/include/kripto/rotate.h
index 0b4c6cb..be006a1 100644
--- a/include/kripto/rotate.h
+++ b/include/kripto/rotate.h
@@ -331,7 +331,7 @@ static inline uint8_t ROL8_7(uint8_t x)
 #define ROR8_3 ROL8_5
 #define ROR8_4 ROL8_4
 #define ROR8_5 ROL8_3
-#define ROR8_6 ROL8_3
+#define ROR8_6 ROL8_2
 #define ROR8_7 ROL8_1
 
 static inline uint16_t ROL16_01(uint16_t x)
-- 
2.43.0


From 181751a9cb09ce28a7088663dc0c2dde25228b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 16/42] fix: HMAC key buffer overflow with tags longer than the
 hash block

---
 lib/mac/hmac.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/mac/hmac.c b/lib/mac/hmac.c
index 5bd432e..c5a12ab 100644
--- a/lib/mac/hmac.c
+++ b/lib/mac/hmac.c
@@ -50,6 +50,9 @@ static int hmac_init
 
 	if(key_len > s->blocksize)
 	{
+		i = tag_len;
+		if(i > s->blocksize) i = s->blocksize;
+
 		if(kripto_hash_all(
 			hash,
 			s->r,
@@ -58,10 +61,8 @@ static int hmac_init
 			key,
 			key_len,
 			s->key,
-			tag_len)
+			i)
 		) return -1;
-
-		i = tag_len;
 	}
 	else
 	{
-- 
2.43.0


From 84fef4f19ab380e25136441d3ac200ee8de41695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:29 +0000
Subject: [PATCH 17/42] fix: EAX uses the whole nonce MAC

---
 lib/ae/eax.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index a03af41..6d3a870 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -159,7 +159,7 @@ static kripto_ae *eax_create
 	memset(buf, 0, len);
 	kripto_mac_input(s->omac, buf, len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, len);
@@ -168,7 +168,7 @@ static kripto_ae *eax_create
 	kripto_mac_input(s->omac, buf, len);
 
 	/* create CTR */
-	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, len);
 	if(!s->ctr) goto err6;
 
 	/* create OMAC for header */
@@ -215,7 +215,7 @@ static kripto_ae *eax_recreate
 	memset(buf, 0, s->len);
 	kripto_mac_input(s->omac, buf, s->len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, s->len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, s->len);
@@ -224,7 +224,7 @@ static kripto_ae *eax_recreate
 	kripto_mac_input(s->omac, buf, s->len);
 
 	/* recreate CTR */
-	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, s->len);
 	if(!s->ctr) goto err2;
 
 	/* recreate OMAC for header */
-- 
2.43.0


From 25717c93e1a4988ba70480263c6cf20666387deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:29 +0000
Subject: [PATCH 18/42] fix: EAX re-creation failure leaks the other parts

---
 lib/ae/eax.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index 6d3a870..69e0434 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -207,11 +207,15 @@ static kripto_ae *eax_recreate
 	(void)tag_len;
 
 	buf = (uint8_t *)malloc(s->len);
-	if(!buf) goto err0;
+	if(!buf)
+	{
+		eax_destroy(s);
+		return 0;
+	}
 
 	/* OMAC IV (nonce) */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, s->len);
-	if(!s->omac) goto err1;
+	if(!s->omac) goto err0;
 	memset(buf, 0, s->len);
 	kripto_mac_input(s->omac, buf, s->len);
 	kripto_mac_input(s->omac, iv, iv_len);
@@ -219,17 +223,17 @@ static kripto_ae *eax_recreate
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, s->len);
-	if(!s->omac) goto err1;
+	if(!s->omac) goto err0;
 	buf[s->len - 1] = 2;
 	kripto_mac_input(s->omac, buf, s->len);
 
 	/* recreate CTR */
 	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, s->len);
-	if(!s->ctr) goto err2;
+	if(!s->ctr) goto err1;
 
 	/* recreate OMAC for header */
 	s->header = kripto_mac_recreate(s->header, rounds, key, key_len, s->len);
-	if(!s->header) goto err3;
+	if(!s->header) goto err2;
 	buf[s->len - 1] = 1;
 	kripto_mac_input(s->header, buf, s->len);
 
@@ -237,10 +241,19 @@ static kripto_ae *eax_recreate
 
 	return s;
 
-err3: kripto_stream_destroy(s->ctr);
-err2: kripto_mac_destroy(s->omac);
-err1: free(buf);
+err2:
+	kripto_stream_destroy(s->ctr);
+	kripto_mac_destroy(s->omac);
+	goto err;
+err1:
+	kripto_mac_destroy(s->omac);
+	kripto_mac_destroy(s->header);
+	goto err;
 err0:
+	kripto_stream_destroy(s->ctr);
+	kripto_mac_destroy(s->header);
+err:
+	free(buf);
 	free(s->ctr_desc);
 	free(s->omac_desc);
 	kripto_memory_wipe(s->iv, s->len);
-- 
2.43.0


From 44dc03e1c39d10c75c81d9222c3b3f519f39942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:46 +0000
Subject: [PATCH 19/42] fix: EAX2 uses the whole nonce MAC

---
 lib/ae/eax2.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 16ddbe0..17560df 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -124,6 +124,7 @@ static kripto_ae *eax2_create
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
 	unsigned int stream_key; /* K2 */
+	unsigned int stream_iv;
 
 	buf = (uint8_t *)malloc(tag_len);
 	if(!buf) goto err0;
@@ -141,13 +142,18 @@ static kripto_ae *eax2_create
 		stream_key = kripto_stream_maxkey(EXT(desc)->stream);
 	mac_key = key_len - stream_key;
 
+	/* nonce MAC is stream IV */
+	stream_iv = tag_len;
+	if(stream_iv > kripto_stream_maxiv(EXT(desc)->stream))
+		stream_iv = kripto_stream_maxiv(EXT(desc)->stream);
+
 	/* MAC IV */
 	s->mac = kripto_mac_create(EXT(desc)->mac, rounds, key, mac_key, tag_len);
 	if(!s->mac) goto err2;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -160,7 +166,7 @@ static kripto_ae *eax2_create
 	(
 		EXT(desc)->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, stream_iv
 	);
 	if(!s->stream) goto err4;
 
@@ -198,6 +204,7 @@ static kripto_ae *eax2_recreate
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
 	unsigned int stream_key; /* K2 */
+	unsigned int stream_iv;
 	const kripto_desc_ae *desc;
 
 	if(tag_len > s->len)
@@ -221,13 +228,18 @@ static kripto_ae *eax2_recreate
 		stream_key = kripto_stream_maxkey(EXT(s->desc)->stream);
 	mac_key = key_len - stream_key;
 
+	/* nonce MAC is stream IV */
+	stream_iv = tag_len;
+	if(stream_iv > kripto_stream_maxiv(EXT(s->desc)->stream))
+		stream_iv = kripto_stream_maxiv(EXT(s->desc)->stream);
+
 	/* MAC IV */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
 	if(!s->mac) goto err1;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -240,7 +252,7 @@ static kripto_ae *eax2_recreate
 	(
 		s->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, stream_iv
 	);
 	if(!s->stream) goto err2;
 
-- 
2.43.0


From e52578e748cafa2aa97c0b68d21589242983b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:46 +0000
Subject: [PATCH 20/42] fix: EAX2 key split and maximum key for keys of unequal
 maximum

---
 lib/ae/eax2.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 17560df..09f77e6 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -16,6 +16,7 @@
 #include <stdint.h>
 #include <string.h>
 #include <stdlib.h>
+#include <limits.h>
 
 #include <kripto/cast.h>
 #include <kripto/memory.h>
@@ -141,6 +142,11 @@ static kripto_ae *eax2_create
 	if(stream_key > kripto_stream_maxkey(EXT(desc)->stream))
 		stream_key = kripto_stream_maxkey(EXT(desc)->stream);
 	mac_key = key_len - stream_key;
+	if(mac_key > kripto_mac_maxkey(EXT(desc)->mac))
+	{
+		mac_key = kripto_mac_maxkey(EXT(desc)->mac);
+		stream_key = key_len - mac_key;
+	}
 
 	/* nonce MAC is stream IV */
 	stream_iv = tag_len;
@@ -227,6 +233,11 @@ static kripto_ae *eax2_recreate
 	if(stream_key > kripto_stream_maxkey(EXT(s->desc)->stream))
 		stream_key = kripto_stream_maxkey(EXT(s->desc)->stream);
 	mac_key = key_len - stream_key;
+	if(mac_key > kripto_mac_maxkey(EXT(s->desc)->mac))
+	{
+		mac_key = kripto_mac_maxkey(EXT(s->desc)->mac);
+		stream_key = key_len - mac_key;
+	}
 
 	/* nonce MAC is stream IV */
 	stream_iv = tag_len;
@@ -297,6 +308,8 @@ kripto_desc_ae *kripto_ae_eax2
 	s->desc.tag = &eax2_tag;
 	s->desc.destroy = &eax2_destroy;
 	s->desc.maxkey = kripto_stream_maxkey(stream) + kripto_mac_maxkey(mac);
+	if(s->desc.maxkey < kripto_mac_maxkey(mac))
+		s->desc.maxkey = UINT_MAX; /* overflow */
 	s->desc.maxiv = kripto_stream_maxiv(stream);
 	s->desc.maxtag = kripto_mac_maxtag(mac);
 
-- 
2.43.0


From 52a7238dc3d2106a5b67097c0b51723573f4f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:46 +0000
Subject: [PATCH 21/42] fix: EAX2 re-creation failure leaks the other parts

---
 lib/ae/eax2.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 09f77e6..c17d2a6 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -226,7 +226,11 @@ static kripto_ae *eax2_recreate
 	s->len = tag_len;
 
 	buf = (uint8_t *)malloc(tag_len);
-	if(!buf) goto err0;
+	if(!buf)
+	{
+		eax2_destroy(s);
+		return 0;
+	}
 
 	/* split key */
 	stream_key = (key_len + 1) >> 1;
@@ -246,7 +250,7 @@ static kripto_ae *eax2_recreate
 
 	/* MAC IV */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
-	if(!s->mac) goto err1;
+	if(!s->mac) goto err0;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
@@ -254,7 +258,7 @@ static kripto_ae *eax2_recreate
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
-	if(!s->mac) goto err1;
+	if(!s->mac) goto err0;
 	buf[s->len - 1] = 2;
 	kripto_mac_input(s->mac, buf, tag_len);
 
@@ -265,13 +269,13 @@ static kripto_ae *eax2_recreate
 		(const uint8_t *)key + mac_key, stream_key,
 		s->iv, stream_iv
 	);
-	if(!s->stream) goto err2;
+	if(!s->stream) goto err1;
 
 	s->multof = kripto_stream_multof(s->stream);
 
 	/* recreate MAC for header */
 	s->header = kripto_mac_recreate(s->header, rounds, key, mac_key, tag_len);
-	if(!s->header) goto err3;
+	if(!s->header) goto err2;
 	buf[s->len - 1] = 1;
 	kripto_mac_input(s->header, buf, tag_len);
 
@@ -279,10 +283,19 @@ static kripto_ae *eax2_recreate
 
 	return s;
 
-err3: kripto_stream_destroy(s->stream);
-err2: kripto_mac_destroy(s->mac);
-err1: free(buf);
+err2:
+	kripto_stream_destroy(s->stream);
+	kripto_mac_destroy(s->mac);
+	goto err;
+err1:
+	kripto_mac_destroy(s->mac);
+	kripto_mac_destroy(s->header);
+	goto err;
 err0:
+	kripto_stream_destroy(s->stream);
+	kripto_mac_destroy(s->header);
+err:
+	free(buf);
 	kripto_memory_wipe(s->iv, tag_len);
 	free(s);
 	return 0;
-- 
2.43.0


From 290fb9df815e3134b76d093c9011bd74dfdf8cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:46 +0000
Subject: [PATCH 22/42] fix: PKCS#7 padding for block sizes that are not powers
 of two

---
 lib/pkcs7.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pkcs7.c b/lib/pkcs7.c
index f615557..6152f06 100644
--- a/lib/pkcs7.c
+++ b/lib/pkcs7.c
@@ -30,7 +30,7 @@ size_t kripto_pkcs7_add
 {
 	unsigned int i;
 
-	pad = pad - (len & (pad - 1));
+	pad = pad - len % pad;
 
 	if(pad + len > maxlen) return 0;
 
-- 
2.43.0


From c7a1192c796cda5b97242cb5353fc38bdef1b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:28 +0000
Subject: [PATCH 23/42] fix: PKCS#7 removal of whole-buffer and of malformed
 padding

---
 lib/pkcs7.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/pkcs7.c b/lib/pkcs7.c
index 6152f06..9c33e7c 100644
--- a/lib/pkcs7.c
+++ b/lib/pkcs7.c
@@ -42,8 +42,16 @@ size_t kripto_pkcs7_add
 
 size_t kripto_pkcs7_rem(void *buf, size_t len)
 {
-	if(U8(buf)[len - 1] < len)
-		return (len - U8(buf)[len - 1]);
-	else
-		return len;
+	unsigned int i;
+	unsigned int pad;
+
+	if(!len) return 0;
+
+	pad = U8(buf)[len - 1];
+	if(!pad || pad > len) return len;
+
+	for(i = 2; i <= pad; i++)
+		if(U8(buf)[len - i] != pad) return len;
+
+	return len - pad;
 }
-- 
2.43.0


From 9be4c73ed6d8b9b719e2be7f623832449f3e4589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:28 +0000
Subject: [PATCH 24/42] fix: random self-test rejects every source

---
 lib/random.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 49f750b..90980bc 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -416,8 +416,8 @@ int kripto_random_test(kripto_random *s)
 
 		/* distances */
 		if(prev == sample[i]) dist_zero++;
-		dist[sample[i]] += 4096 - dist_prev[sample[i]];
-		dist_prev[sample[i]] = 4096;
+		dist[sample[i]] += i - dist_prev[sample[i]];
+		dist_prev[sample[i]] = i;
 
 		/* serial correlation */
 		corr1 += prev * sample[i];
@@ -430,7 +430,7 @@ int kripto_random_test(kripto_random *s)
 	for(i = 0; i < 256; i++)
 	{
 		/* chi square */
-		t = count[i] - 16;
+		t = (double)count[i] - 16;
 		chi += t * t;
 
 		/* entropy */
@@ -445,6 +445,7 @@ int kripto_random_test(kripto_random *s)
 	}
 	chi /= 16;
 	avg /= 4096;
+	avg_null /= 256;
 
 	/* serial correlation */
 	corr2 = corr2 * corr2;
-- 
2.43.0


From 0a9c21ecb976841e718e75a518cc2c15004d840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 25/42] fix: 3-Way decryption with fewer than 11 rounds

---
 lib/block/3way.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/block/3way.c b/lib/block/3way.c
index ce3159d..854939d 100644
--- a/lib/block/3way.c
+++ b/lib/block/3way.c
@@ -153,7 +153,7 @@ static void threeway_decrypt
 	x[2] = LOAD32L(CU8(ct) + 8);
 
 	MU(x);
-	for(i = 0; i < s->r; i++)
+	for(i = 11 - s->r; i < 11; i++)
 	{
 		x[0] ^= s->dk[0] ^ (rc_d[i] << 16);
 		x[1] ^= s->dk[1];
-- 
2.43.0


From 5a256eb9402bc15505d6e4bf4fb649e7ac9bc496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 26/42] fix: IDEA signed overflow in the multiplication

---
 lib/block/idea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/block/idea.c b/lib/block/idea.c
index b6b7401..8e4514e 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -39,7 +39,7 @@ struct kripto_block
 
 static inline uint16_t MUL(uint16_t a, uint16_t b)
 {
-	uint32_t p = a * b;
+	uint32_t p = (uint32_t)a * b;
 
 	if(p)
 	{
-- 
2.43.0


From 13ddeb5cc7112e053d458856cf21188232bcb0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 27/42] fix: ARIA decryption with an odd number of rounds

---
 lib/block/aria.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/block/aria.c b/lib/block/aria.c
index d0c01c8..5143ab9 100644
--- a/lib/block/aria.c
+++ b/lib/block/aria.c
@@ -668,6 +668,7 @@ static kripto_block *aria_create
 		if(r & 1) r++;
 		if(r < 12) r = 12;
 	}
+	else if(r & 1) r++;
 
 	s = (kripto_block *)malloc(sizeof(kripto_block) + ((r + 1) << 5));
 	if(!s) return 0;
@@ -702,6 +703,7 @@ static kripto_block *aria_recreate
 		if(r & 1) r++;
 		if(r < 12) r = 12;
 	}
+	else if(r & 1) r++;
 
 	if(r != s->rounds)
 	{
-- 
2.43.0


From 9ccf3fd33340f7800ad4a5a3f0307fb6d1754bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 28/42] fix: Twofish decryption with an odd number of rounds

---
 lib/block/twofish.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/block/twofish.c b/lib/block/twofish.c
index 585ee42..c5f9e80 100644
--- a/lib/block/twofish.c
+++ b/lib/block/twofish.c
@@ -1193,6 +1193,7 @@ static kripto_block *twofish_create
 	kripto_block *s;
 
 	if(!r) r = 16;
+	else if(r & 1) r++;
 
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (TWOFISH_K_LEN(r) << 2));
 	if(!s) return 0;
@@ -1221,6 +1222,7 @@ static kripto_block *twofish_recreate
 )
 {
 	if(!r) r = 16;
+	else if(r & 1) r++;
 
 	if(r != s->rounds)
 	{
-- 
2.43.0


From b74990e19b568388ffa4c2e80e82c661cc709d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:47 +0000
Subject: [PATCH 29/42] fix: XTEA decryption with an odd number of rounds

---
 lib/block/xtea.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index 5bb3f6f..df24879 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -87,12 +87,11 @@ static void xtea_decrypt(const kripto_block *s, const void *ct, void *pt)
 	uint32_t x1 = LOAD32B(CU8(ct) + 4);
 	unsigned int i = s->rounds;
 
+	if(i & 1) x0 -= F(x1) ^ s->k[--i];
+
 	while(i)
 	{
 		x1 -= F(x0) ^ s->k[--i];
-
-		if(i == UINT_MAX) break;
-
 		x0 -= F(x1) ^ s->k[--i];
 	}
 
-- 
2.43.0


From 28d775eb6d9e20dd34e5f2a3f42d993080e5cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:47 +0000
Subject: [PATCH 30/42] fix: LEA out-of-bounds access when rounds is not a
 multiple of 4

---
 lib/block/lea.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/block/lea.c b/lib/block/lea.c
index a16cd08..d08a911 100644
--- a/lib/block/lea.c
+++ b/lib/block/lea.c
@@ -214,6 +214,7 @@ static kripto_block *lea_create
 		else if(key_len > 16) r = 28;
 		else r = 24;
 	}
+	else r = (r + 3) & ~3U;
 
 	kripto_block *s = (kripto_block *)malloc(sizeof(kripto_block) + r * 24);
 	if(!s) return 0;
@@ -246,6 +247,7 @@ static kripto_block *lea_recreate
 		else if(key_len > 16) r = 28;
 		else r = 24;
 	}
+	else r = (r + 3) & ~3U;
 
 	if(r != s->r)
 	{
-- 
2.43.0


From 0b995ca9fcdb4ef921b2739c9744c82deb561d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:47 +0000
Subject: [PATCH 31/42] fix: SM4 out-of-bounds access when rounds is not a
 multiple of 4

---
 lib/block/sm4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/block/sm4.c b/lib/block/sm4.c
index b2a77b7..ff597ad 100644
--- a/lib/block/sm4.c
+++ b/lib/block/sm4.c
@@ -192,6 +192,7 @@ static kripto_block *sm4_create
 )
 {
 	if(!r) r = 32;
+	else r = (r + 3) & ~3U;
 
 	kripto_block *s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 2));
 	if(!s) return 0;
@@ -219,6 +220,7 @@ static kripto_block *sm4_recreate
 )
 {
 	if(!r) r = 32;
+	else r = (r + 3) & ~3U;
 
 	if(r != s->r)
 	{
-- 
2.43.0


From ce4b03fbf265f683b9e3078324798417b6c55161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:47 +0000
Subject: [PATCH 32/42] fix: Serpent out-of-bounds access when rounds is not a
 multiple of 8

---
 lib/block/serpent.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/block/serpent.c b/lib/block/serpent.c
index ae60d96..fbc1fa4 100644
--- a/lib/block/serpent.c
+++ b/lib/block/serpent.c
@@ -676,6 +676,7 @@ static kripto_block *serpent_create
 	kripto_block *s;
 
 	if(!r) r = 32;
+	else r = (r + 7) & ~7U;
 
 	s = (kripto_block *)malloc(sizeof(kripto_block) + ((r + 1) << 4));
 	if(!s) return 0;
@@ -704,6 +705,7 @@ static kripto_block *serpent_recreate
 )
 {
 	if(!r) r = 32;
+	else r = (r + 7) & ~7U;
 
 	if(r != s->rounds)
 	{
-- 
2.43.0


From c171c591fcc84f38d2bbe5db997dff4a36ef5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:47 +0000
Subject: [PATCH 33/42] fix: SHACAL-2 out-of-bounds access for fewer than 16
 rounds or rounds that are not a multiple of 8

---
 lib/block/shacal2.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 42bbf24..697ea3b 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -177,7 +177,8 @@ static void shacal2_setup
 	unsigned int key_len
 )
 {
-	memset(s->k, 0, 64);
+	if(key_len > s->r << 2) key_len = s->r << 2;
+	memset(s->k, 0, s->r < 16 ? s->r << 2 : 64);
 	LOAD32B_ARRAY(key, s->k, key_len);
 
 	for(unsigned int i = 16; i < s->r; i++)
@@ -202,6 +203,7 @@ static kripto_block *shacal2_create
 	assert(r < 128);
 
 	if(!r) r = 64;
+	else r = (r + 7) & ~7U;
 
 	kripto_block *s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 2));
 	if(!s) return 0;
@@ -231,6 +233,7 @@ static kripto_block *shacal2_recreate
 	assert(r < 128);
 
 	if(!r) r = 64;
+	else r = (r + 7) & ~7U;
 
 	if(r != s->r)
 	{
-- 
2.43.0


From b7ebed94918cf6f23638c8aed5ef5f47c8968b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:47 +0000
Subject: [PATCH 34/42] fix: GOST out-of-bounds access with an odd number of
 rounds

---
 lib/block/gost.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/block/gost.c b/lib/block/gost.c
index 5ba5585..c256f2f 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -149,6 +149,7 @@ static kripto_block *gost_create
 	kripto_block *s;
 
 	if(!r) r = 32;
+	else if(r & 1) r++;
 
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 2));
 	if(!s) return 0;
@@ -187,6 +188,7 @@ static kripto_block *gost_recreate
 )
 {
 	if(!r) r = 32;
+	else if(r & 1) r++;
 
 	if(r != s->r)
 	{
-- 
2.43.0


From d3fcf8300b1c52cdc239f6a6ec966cb78118efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:15 +0000
Subject: [PATCH 35/42] fix: GOST out-of-bounds access when there are fewer
 rounds than twice the key words

---
 lib/block/gost.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lib/block/gost.c b/lib/block/gost.c
index c256f2f..14ec2ce 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -105,32 +105,29 @@ static void gost_setup
 	unsigned int key_len
 )
 {
+	uint32_t k[8] = {0, 0, 0, 0, 0, 0, 0, 0};
 	unsigned int i;
-	unsigned int j;
-
-	for(i = 0; i < (key_len + 3) >> 2; i++)
-		s->k[i] = 0;
 
 	for(i = key_len; i;)
 	{
 		i--;
-		s->k[i >> 2] = (s->k[i >> 2] << 8) | CU8(key)[i];
+		k[i >> 2] = (k[i >> 2] << 8) | CU8(key)[i];
 	}
 
 	key_len = (key_len + 3) >> 2;
 
-	for(i = key_len, j = 0; s->r - i > key_len; i++)
+	for(i = 0; s->r - i > key_len; i++)
 	{
-		s->k[i] = s->k[j];
-
-		if(++j == key_len) j = 0;
+		s->k[i] = k[i % key_len];
 	}
 
 	/* reversed */
-	for(j = key_len; j; i++)
+	for(; i < s->r; i++)
 	{
-		s->k[i] = s->k[--j];
+		s->k[i] = k[s->r - 1 - i];
 	}
+
+	kripto_memory_wipe(k, 32);
 }
 
 struct gost
-- 
2.43.0


From a8b16711f19ad402ab23fe8ed256ee198e1e2205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:15 +0000
Subject: [PATCH 36/42] fix: SIMON out-of-bounds write with fewer rounds than
 key words

---
 lib/block/simon128.c | 4 +++-
 lib/block/simon32.c  | 5 ++++-
 lib/block/simon64.c  | 4 +++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/block/simon128.c b/lib/block/simon128.c
index 21b13c5..cc3f79d 100644
--- a/lib/block/simon128.c
+++ b/lib/block/simon128.c
@@ -108,9 +108,11 @@ static void simon128_setup
 	unsigned int m = (len + 7) >> 3;
 	if(m < 2) m = 2;
 
-	for(unsigned int i = 0; i < m; i++)
+	for(unsigned int i = 0; i < m && i < s->rounds; i++)
 		s->k[i] = 0;
 
+	if(len > s->rounds << 3) len = s->rounds << 3;
+
 	LOAD64L_ARRAY(key, s->k, len);
 
 	for(unsigned int i = m; i < s->rounds; i++)
diff --git a/lib/block/simon32.c b/lib/block/simon32.c
index d4f7390..af0afde 100644
--- a/lib/block/simon32.c
+++ b/lib/block/simon32.c
@@ -99,7 +99,10 @@ static void simon32_setup
 {
 	uint16_t t;
 
-	s->k[3] = s->k[2] = s->k[1] = s->k[0] = 0;
+	for(unsigned int i = 0; i < 4 && i < s->rounds; i++)
+		s->k[i] = 0;
+
+	if(len > s->rounds << 1) len = s->rounds << 1;
     LOAD16L_ARRAY(key, s->k, len);
 
 	for(unsigned int i = 4; i < s->rounds; i++)
diff --git a/lib/block/simon64.c b/lib/block/simon64.c
index 3ca67fb..9221ad9 100644
--- a/lib/block/simon64.c
+++ b/lib/block/simon64.c
@@ -107,9 +107,11 @@ static void simon64_setup
 	unsigned int m = (len + 3) >> 2;
 	if(m < 3) m = 3;
 
-	for(unsigned int i = 0; i < m; i++)
+	for(unsigned int i = 0; i < m && i < s->rounds; i++)
 		s->k[i] = 0;
 
+	if(len > s->rounds << 2) len = s->rounds << 2;
+
 	LOAD32L_ARRAY(key, s->k, len);
 
 	for(unsigned int i = m; i < s->rounds; i++)
-- 
2.43.0


From 1cc038888422b4d04d150fd1339940b020e801c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:15 +0000
Subject: [PATCH 37/42] fix: SPECK division by zero with a key of one word

---
 lib/block/speck128.c | 1 +
 lib/block/speck32.c  | 1 +
 lib/block/speck64.c  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 21090cf..80bf874 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -87,6 +87,7 @@ static void speck128_setup
 {
 	uint64_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 7) >> 3) - 1;
+	if(!m) m = 1;
 
 	LOAD64L_ARRAY(key, k, len);
 
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index e55113d..52a535d 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -87,6 +87,7 @@ static void speck32_setup
 {
 	uint16_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 1) >> 1) - 1;
+	if(!m) m = 1;
 
 	LOAD16L_ARRAY(key, k, len);
 
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index 629bc82..8f96556 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -87,6 +87,7 @@ static void speck64_setup
 {
 	uint32_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 3) >> 2) - 1;
+	if(!m) m = 1;
 
 	LOAD32L_ARRAY(key, k, len);
 
-- 
2.43.0


From b9c20a20576062ad54f30a1b6dc7b66ee322872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:15 +0000
Subject: [PATCH 38/42] fix: SAFER key over-read for lengths other than 8 and
 16

---
 lib/block/safer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/block/safer.c b/lib/block/safer.c
index f29421b..d7d61ca 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -258,6 +258,7 @@ static void safer_setup
 	int sk
 )
 {
+	uint8_t kp[16] = {0};
 	const uint8_t *key2;
 	uint8_t *k = s->k;
 	uint8_t ka[9];
@@ -265,12 +266,14 @@ static void safer_setup
 
 	kb[8] = ka[8] = 0;
 
-	if(len > 8) key2 = key + 8; /* 128-bit */
-	else key2 = key; /* 64-bit */
+	memcpy(kp, key, len);
+
+	if(len > 8) key2 = kp + 8; /* 128-bit */
+	else key2 = kp; /* 64-bit */
 
 	for(unsigned int i = 0; i < 8; i++)
 	{
-		ka[8] ^= ka[i] = ROL8_5(key[i]);
+		ka[8] ^= ka[i] = ROL8_5(kp[i]);
 		kb[8] ^= kb[i] = *k++ = key2[i];
 	}
 
@@ -295,6 +298,7 @@ static void safer_setup
 		}
 	}
 
+	kripto_memory_wipe(kp, 16);
 	kripto_memory_wipe(ka, 9);
 	kripto_memory_wipe(kb, 9);
 }
-- 
2.43.0


From 152e7a44653ee61e6b1fe282ec0d7162b4ab2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:15 +0000
Subject: [PATCH 39/42] fix: SAFER++ key over-read for lengths other than 16
 and 32

---
 lib/block/saferpp.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index 3bd3b9d..3fc33a4 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -307,6 +307,7 @@ static void saferpp_setup
 	unsigned int len
 )
 {
+	uint8_t kp[32] = {0};
 	const uint8_t *key2;
 	uint8_t *k = s->k;
 	uint8_t ka[17];
@@ -314,13 +315,15 @@ static void saferpp_setup
 
 	kb[16] = ka[16] = 0;
 
-	if(len > 16) key2 = key + 16; /* 256-bit */
-	else key2 = key; /* 128-bit */
+	memcpy(kp, key, len);
+
+	if(len > 16) key2 = kp + 16; /* 256-bit */
+	else key2 = kp; /* 128-bit */
 
 	for(unsigned int i = 0; i < 16; i++)
 	{
 		ka[16] ^= ka[i] = ROL8_5(key2[i]);
-		kb[16] ^= kb[i] = *k++ = key[i];
+		kb[16] ^= kb[i] = *k++ = kp[i];
 	}
 
 	for(unsigned int i = 2; i <= s->rounds << 1; i += 2)
@@ -356,6 +359,7 @@ static void saferpp_setup
 		}
 	}
 
+	kripto_memory_wipe(kp, 32);
 	kripto_memory_wipe(ka, 17);
 	kripto_memory_wipe(kb, 17);
 }
-- 
2.43.0


From a7e22c0eed882082c69eb4208eddd282c69304d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:15 +0000
Subject: [PATCH 40/42] fix: GOST descriptor creation does not survive
 allocation failure

---
 lib/block/gost.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/block/gost.c b/lib/block/gost.c
index 14ec2ce..5519a1a 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -204,6 +204,7 @@ static kripto_block *gost_recreate
 kripto_desc_block *kripto_block_gost(const unsigned char (*sboxes)[16])
 {
 	kripto_desc_block *desc = (kripto_desc_block *)malloc(sizeof(kripto_desc_block) + sizeof(struct gost));
+	if(!desc) return 0;
 
 	desc->create = &gost_create;
 	desc->recreate = &gost_recreate;
-- 
2.43.0


From a2ff433a633b6028dfc420f33468742814558285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:07 +0000
Subject: [PATCH 41/42] fix: SHACAL-2 re-creation with 121 to 127 rounds fails
 an assertion

---
 lib/block/shacal2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 697ea3b..03b4693 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -200,7 +200,7 @@ static kripto_block *shacal2_create
 	unsigned int key_len
 )
 {
-	assert(r < 128);
+	assert(r <= 128);
 
 	if(!r) r = 64;
 	else r = (r + 7) & ~7U;
@@ -230,7 +230,7 @@ static kripto_block *shacal2_recreate
 	unsigned int key_len
 )
 {
-	assert(r < 128);
+	assert(r <= 128);
 
 	if(!r) r = 64;
 	else r = (r + 7) & ~7U;
-- 
2.43.0


From d09a1b3dbda8e65dbf21ed10c36176e16c099000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:36 +0000
Subject: [PATCH 42/42] fix: RC5 and RC6 key expansion with more key words than
 round keys

---
 lib/block/rc5.c | 2 +-
 lib/block/rc6.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index 2827c4c..dc3d01f 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -56,7 +56,7 @@ static void rc5_setup
 		s->k[i] = s->k[i - 1] + 0x9E3779B9;
 
 	a = b = i = j = k = 0;
-	while(k < (s->r + 1) * 6)
+	while(k < (s->r + 1) * 6 || k < ls * 3)
 	{
 		a = s->k[i] = ROL32_03(s->k[i] + a + b);
 		b = x[j] = ROL32(x[j] + a + b, a + b);
diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index b6702bf..a17dc45 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -58,7 +58,7 @@ static void rc6_setup
 		s->k[i] = s->k[i-1] + 0x9E3779B9;
 
 	a = b = i = j = k = 0;
-	while(k < RC6_K_LEN(s->rounds) * 3)
+	while(k < RC6_K_LEN(s->rounds) * 3 || k < ls * 3)
 	{
 		a = s->k[i] = ROL32_03(s->k[i] + a + b);
 		b = x[j] = ROL32(x[j] + a + b, a + b);
-- 
2.43.0

