From 9bddbabb2e49c340befd4c519b05696229391ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 01/23] fix: base64_decode_value read one entry past its table
 for '{'

---
 src/b64/src/cdecode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b64/src/cdecode.cpp b/src/b64/src/cdecode.cpp
index 39a95d4..feeb8b7 100644
--- a/src/b64/src/cdecode.cpp
+++ b/src/b64/src/cdecode.cpp
@@ -34,7 +34,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From cffcb0430693a8dcf9252d09ac8b8c7c66a05897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 02/23] fix: is_u32 accepted negative sizes and returned them
 as large values

---
 src/mg/core/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/core.h b/src/mg/core/core.h
index dd03949..7b36ae9 100644
--- a/src/mg/core/core.h
+++ b/src/mg/core/core.h
@@ -265,7 +265,7 @@ inline size_t u64_ST(uint64_t rhs)
 inline uint32_t is_u32(SIGNEDSIZET rhs)
 {
 	_ASSERTE(rhs <= INT32_MAX);
-	if (rhs > INT32_MAX)
+	if (rhs < 0 || rhs > INT32_MAX)
 	{
 		throw MGCORE::mgexceptionbase(E_OVERFLOW);
 	}
-- 
2.43.0


From f81c41b5a26a5a963b76e96101dd8409d9b56530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 03/23] fix: DBL_U64 let NaN and values from 2^64 on through as
 undefined results

---
 src/mg/core/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/core.h b/src/mg/core/core.h
index 7b36ae9..3a6af4a 100644
--- a/src/mg/core/core.h
+++ b/src/mg/core/core.h
@@ -180,7 +180,7 @@ inline double U64_DBL(uint64_t rhs)
 inline uint64_t DBL_U64(double rhs)
 {    
     _ASSERTE(rhs >= 0);
-	if (rhs < 0)
+	if (!(rhs >= 0) || rhs >= 18446744073709551616.0)
 	{
 		throw MGCORE::mgexceptionbase(E_OVERFLOW);
 	}
-- 
2.43.0


From 4f87cb6d7a7e4dd51578b9fdd1b22076474eb18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 04/23] fix: bit reads and writes touched up to 4 bytes past
 the end of the bitstream buffer

---
 src/mg/core/bitstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 23aa4df..4943d02 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -385,7 +385,7 @@ class bitstream_base : public Ibitstream_cb
 
 	void init(uint32_t buf_len, bool load = true)
 	{
-		_buf        = new unsigned char[buf_len];
+		_buf        = new unsigned char[buf_len + 4]; //bits are moved 4 bytes at a time, also at the end
 		_buf_size   = buf_len;
         _shadow_buf = new unsigned char[buf_len];
 		_shadow_len = 0;
-- 
2.43.0


From 460d2b966a82918ff5175ee37401d521e1c052bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 05/23] fix: bytes left in the shadow buffer at end of file
 were read from the wrong place

---
 src/mg/core/bitstream.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 4943d02..3e27037 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -1214,6 +1214,8 @@ template<class Type> void bitstream_base<Type>::fill_buf()
 				memcpy(_buf + u, _shadow_buf, n);
 				_shadow_len -= n;
 				_buf_len += n;
+				//what is left must start the shadow buffer: at eof no read callback will follow
+				memmove(_shadow_buf, _shadow_buf + n, _shadow_len);
 			}
 			else
 			{
@@ -1254,12 +1256,6 @@ template<class Type> void bitstream_base<Type>::read_cb(const unsigned char * p_
 			if (read)
 			{
 				
-				if (_shadow_len)
-				{
-					//copy end to beginning
-					memcpy(_shadow_buf, _shadow_buf + (_buf_size - _shadow_len), _shadow_len);
-				}
-
 				memcpy(_shadow_buf + _shadow_len, p_val, read);
 
 				_shadow_len += read;
-- 
2.43.0


From 3a601a909620e04aa71e49d032b1f88a6d2bc1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 06/23] fix: bits past the end of the source were returned as
 zeros, and a byte read leaving less than 4 bytes reported end of data

---
 src/mg/core/bitstream.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 3e27037..5a4ee86 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -746,7 +746,7 @@ public:
 					_tot_bits += (cur_ava << 3);
 
 					//force buffer switch
-					this->_nextbits(32);
+					this->fill_buf();
 
 					_ASSERTE(0 == _cur_bit);
 					//_ASSERTE(0 == _shadow_len);
@@ -987,8 +987,6 @@ private:
 
 			this->_cur_bit += (size << 3);
 			this->_tot_bits += (size << 3);
-
-			this->_nextbits(32); //reload buffer if needed
 		}
 		else /*if ((available + this->_shadow_len) > size)*/
 		{
@@ -999,7 +997,7 @@ private:
 			this->_tot_bits += (available << 3);
 
 			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
+				this->fill_buf(); //everything in the buffer has been used
 			else
 			{
 				//we are at the end
@@ -1022,9 +1020,6 @@ private:
 			this->_cur_bit += (todo << 3);
 			this->_tot_bits += (todo << 3);
 
-			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
-			
 			(*read) = available + todo;
 
 		}
@@ -1317,7 +1312,8 @@ template<class Type> uint32_t  bitstream_base<Type>::_nextbits(int n)
 	if (_cur_bit + n >(_buf_len << 3))
 	{
 		fill_buf();
-		_ASSERTE(_cur_bit == 0);
+		if (_cur_bit + n > (_buf_len << 3))
+			throw EndOfData(_T(__FILE__), __LINE__);
 	}
 
 	// starting byte in buffer
-- 
2.43.0


From 1542114520aaae1d03e0f89f7db83416dadf749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 07/23] fix: skipbits past the buffered data skipped twice, or
 stopped short of the end of the source

---
 src/mg/core/bitstream.h | 66 ++++++++++-------------------------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 5a4ee86..6571b7d 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -905,66 +905,32 @@ protected:
 	{
 		//_getbits(n); 
 
-		mg::core::auto_lock l(_load_lock);
+		uint64_t todo = n;
 
-		uint64_t bit_len = _buf_len << 3;
-
-        _ASSERTE(bit_len >= _cur_bit);
-
-		uint64_t bit_ava = bit_len - _cur_bit;
-
-		if (bit_ava < n)
+		for (;;)
 		{
-			//we do not have enough bits
+			uint64_t bit_ava = (_buf_len << 3) - _cur_bit;
 
-			uint64_t bit_sha = _shadow_len << 3;
-
-			if ((bit_ava + bit_sha) > n)
+			if (todo <= bit_ava)
 			{
-				_cur_bit += bit_ava;
-				_nextbits(32); //move at the beginning of the _shadow and async reload shadow
-				_ASSERTE(_cur_bit == 0);
-				_ASSERTE((bit_sha >> 3) == _buf_len);
-				_ASSERTE((n - bit_ava) < (_buf_len << 3));
-				_cur_bit += (n - bit_ava);
-				_tot_bits += n;
+				_cur_bit  += todo;
+				_tot_bits += todo;
+				return;
 			}
-            else if(has_bits(n))
-			{
-				uint64_t pos = _getpos();
-				         pos += n;
-
-						 uint64_t remain = pos % 8;
-
-						 _set_position((pos + n) >> 3);
 
-						 _ASSERTE(_cur_bit == 0);
+			//we do not have enough bits: continue in the next buffer or stop at the end
+			_cur_bit  += bit_ava;
+			_tot_bits += bit_ava;
+			todo      -= bit_ava;
 
-                         _ASSERTE((_buf_len << 3) >= (_cur_bit + remain));
-
-						 _cur_bit += remain;
-						 _tot_bits += remain;
-						 
-			}
-            else
-            {
-                //we are at the end
-                if(!atend())
-                {
-                    _cur_bit += bit_ava;
-				    _tot_bits += bit_ava; 
-                }
+			if (!_shadow_len)
+				wait();
 
-                _ASSERTE(atend());
-            }
+			if (atend())
+				return;
 
+			fill_buf();
 		}
-		else
-		{
-			_cur_bit += n;
-			_tot_bits += n;
-		}
-
 	}
 private:
 
-- 
2.43.0


From 3ede5d026e8bc7d6ae2b9aa645fcc08a75e70f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 08/23] fix: align never returned when the source ended before
 the boundary

---
 src/mg/core/bitstream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 6571b7d..35203f0 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -508,6 +508,8 @@ protected:
 			_skipbits(s);
 		}
 		while (_tot_bits % n) {
+			if (_load && atend())
+				throw EndOfData(_T(__FILE__), __LINE__);
 			s += 8;
 			_skipbits(8);
 		}
-- 
2.43.0


From d4e75e883c4cac31b9461a74ead5918e3aa0b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 09/23] fix: has_bits ignored the bits waiting in the shadow
 buffer

---
 src/mg/core/bitstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 35203f0..282ee3e 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -579,7 +579,7 @@ public:
 	{
 		if (_p_cb->eof())
 		{
-			uint64_t available = (_buf_len << 3) - _cur_bit;
+			uint64_t available = (_buf_len << 3) - _cur_bit + (_shadow_len << 3);
 			//if (((_buf_len * 8 - _cur_bit) - nbit) >= 0)
 			if(available >= nbit)
 				return true;
-- 
2.43.0


From 83fbffe26e574bbdcc0d9de3c04c0eb91bb21dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 10/23] fix: set_position kept a bit offset, and moving past
 the end left the bit pointer outside the buffer

---
 src/mg/core/bitstream.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 282ee3e..b021bcd 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -709,6 +709,10 @@ public:
 			}
 
 			mg::core::auto_lock l(_load_lock);
+
+			//a position is a byte position
+			_tot_bits -= (_cur_bit & 7);
+			_cur_bit  -= (_cur_bit & 7);
 			
 			//buffer start
 			uint64_t epos = _p_cb->get_position();
@@ -799,11 +803,10 @@ public:
                 //move to the end
                 if(pos < epos)
                 {
-                    uint64_t n = (epos - pos) << 3;
-                    _cur_bit += n;
-                    _tot_bits += n;
-
-                    _ASSERTE((_cur_bit >> 3) <= _buf_size);
+                    _cur_bit     = 0;
+                    _tot_bits    = (epos << 3);
+                    _buf_len     = 0;
+                    _shadow_len  = 0;
                 }
             }
 			else
-- 
2.43.0


From 922ac75652d946d65a7cdabf7e6dc83799032975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 11/23] fix: reading or writing 0 bits shifted by the full word
 width

---
 src/mg/core/bitstream.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index b021bcd..8a46642 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -443,6 +443,9 @@ protected:
 		unsigned int tmp;   // temp value for shifted bits
 		unsigned int val;   // the n-bit value
 
+		if (0 == n)
+			return;
+
 		val = value & tmask[n];
 
 		if (_cur_bit + n > (_buf_size << 3)) _flush_buf();
@@ -1277,6 +1280,9 @@ template<class Type> uint32_t  bitstream_base<Type>::_nextbits(int n)
 	if (n > 32 || n < 0)  //TODO: 64
 		throw InvalidInput(__FILE__, __LINE__);
 
+	if (0 == n)
+		return 0;
+
 	_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
 	// make sure we have enough data
-- 
2.43.0


From c5f147f805d6887e86f783d17138dac53a9602e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 12/23] fix: the bit position wrapped after a direct write of
 512 MB or more

---
 src/mg/core/bitstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 8a46642..9422e91 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -903,7 +903,7 @@ public:
 
 		_p_cb->write(pbyte, size, this); //fire and forget
 
-		_tot_bits += (size << 3);
+		_tot_bits += (static_cast<uint64_t>(size) << 3);
 	}
 	
 	
-- 
2.43.0


From 9cfc2e63b6507b5a484dcf331d732b51ba65367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 13/23] fix: ReadBuffer past the committed data copied a huge
 size instead of returning false

---
 src/mg/cbuffer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index f6be9f3..3b07270 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -154,10 +154,11 @@ public:
 	//READ A SPECIFIED NUMBER OF TYPES FROM THE SPECIFIED POSITION
 	bool ReadBuffer(type *buffer, unsigned long dwsize, unsigned long &dwread, sizetype position)
 	{
-				dwread = m_iCurrent - position;
-				if(0 > dwread) //did not have nothing to read
+				dwread = 0;
+				if(position > m_iCurrent) //did not have nothing to read
 					return false;
 
+				dwread = m_iCurrent - position;
 				if(dwsize < dwread) //we still have space
 					dwread = dwsize;
 
-- 
2.43.0


From 0dbafd3f913ba1e49e539826ce682034555de799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 14/23] fix: adding a buffer to itself read the memory freed by
 its growth

---
 src/mg/cbuffer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index 3b07270..de12245 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -177,7 +177,10 @@ public:
 
 	const CBuffer& operator+=(CBuffer &addbuf)
 	{
-		add(addbuf.get(), addbuf.getFull());
+		sizetype size = addbuf.getFull();
+		if(0 != size)
+			prepare(size); //when a buffer is added to itself the source moves
+		add(addbuf.get(), size);
 		return *this;
 	}
 	
-- 
2.43.0


From c9ad8d85613a3b7430c8b1be7e077b3f6b3ed021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 15/23] fix: assigning a resource to itself, or from inside the
 object it releases, used freed memory

---
 src/mg/cresource.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/cresource.h b/src/mg/cresource.h
index 30e899d..fbbfd1a 100644
--- a/src/mg/cresource.h
+++ b/src/mg/cresource.h
@@ -120,10 +120,12 @@ public:
 	//underline pointer
 	const CResource& Assign(const CResource& res)
 	{
-		if(m_pInternalResource) m_pInternalResource->release();
+		//take the new reference first: releasing the old one may destroy res
+		CInternalResource<Type> * previous = m_pInternalResource;
 		m_pInternalResource = res.m_pInternalResource;
 		if(m_pInternalResource) m_pInternalResource->addRef();	
-		return res;
+		if(previous) previous->release();
+		return *this;
 	}
    	//assign the resource to another resource
 	//Both resource will point to the same
-- 
2.43.0


From 9e3a1a1a127a35f09d210a89354515368aa598e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 16/23] fix: memory storage: a write after a read could overrun
 the buffer, a read past the end returned bytes that do not exist

---
 src/mg/media/TBitstream.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/TBitstream.h b/src/mg/media/TBitstream.h
index 1e119db..fc69ce4 100644
--- a/src/mg/media/TBitstream.h
+++ b/src/mg/media/TBitstream.h
@@ -137,12 +137,14 @@ public:
 	{
 
 		uint32_t possible_read = to_read;
-		if (_size - _current_pos < possible_read)
+		if (_current_pos >= _size)
+			possible_read = 0;
+		else if (_size - _current_pos < possible_read)
 			possible_read = static_cast<uint32_t>(_size - _current_pos);
 
 		uint64_t pos = _current_pos;
 		_current_pos += possible_read;
-		align_size();
+		_buffer.updatePosition(possible_read);
 
 		//callback
 		pcb->read_cb(_buffer.get() + pos, possible_read);
-- 
2.43.0


From 1da1006d6625d364c914522cd12ab81d5b7490fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:48 +0000
Subject: [PATCH 17/23] fix: adding part of a buffer or string to itself read
 released memory when it had to grow

---
 src/mg/cbuffer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index de12245..d584edd 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -97,8 +97,15 @@ public:
 		if(0 == size)
 			return;
 
+		//the source can be part of this buffer, which moves when it grows
+		const bool inside = source >= m_p && source < m_p + m_iCurrent;
+		const size_t offset = inside ? source - m_p : 0;
+
 		prepare(size);
 
+		if(inside)
+			source = m_p + offset;
+
 		//DOUBLE CHECK BUT THIS SHOULD NEVER HAPPEN SINCE PREPARE DOES THE SAME CHECK
 		if((m_iSize - m_iCurrent) < size)throw std::bad_alloc();
 		//----------------------------------//
-- 
2.43.0


From 44da5ca72c821616d081769b0756c581a6551002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:48 +0000
Subject: [PATCH 18/23] fix: assigning part of a string to itself read released
 memory

---
 src/mg/alxstring.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index a27027b..28daafd 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -177,6 +177,9 @@ public:
 	CstringT operator=(const char *str)
 	{
 		size_t size = strlen(str); 
+
+		//str can be part of the buffer that is replaced
+		CResource<CBuffer<T, size_t> > previous(m_str);
 		
 		m_str = new CBuffer<T>(/*null terminated*/static_cast<uint32_t>(++size));
 		
-- 
2.43.0


From c135abd8c3e29fe099d2064abcc0321e32f0e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:48 +0000
Subject: [PATCH 19/23] fix: subString copied memory behind the string when
 fewer characters remained than asked for

---
 src/mg/alxstring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index 28daafd..384330c 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -640,7 +640,8 @@ public:
 	{
 		CstringT &s = const_cast<CstringT&>(*this);
 		//let see if the source buffer is big enough
-		nLen = ST_U32((s.m_str->getSize() - nbegin) < nLen?s.m_str->getSize():nLen);
+		size_t available = s.m_str->getSize() > nbegin?s.m_str->getSize() - nbegin:0;
+		nLen = ST_U32(available < nLen?available:nLen);
 			CResource<CBuffer<TCHAR> > tmp(new CBuffer<TCHAR>(nLen + 1));
 			const TCHAR *sz = s;
 			tmp->add(sz + nbegin, nLen);
-- 
2.43.0


From a324ad7638a4ec23b7a2d5736be62b23415bbc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:48 +0000
Subject: [PATCH 20/23] fix: append_format passed its argument list to sprintf
 as if it were the arguments

---
 src/mg/alxstring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index 384330c..a68aed4 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -775,7 +775,7 @@ public:
 #ifdef _WIN32
 		retVal = StringCbVPrintf(szLine, sizeof(szLine), pszFmtString, args );
 #else
-		retVal = sprintf(szLine, pszFmtString, args);
+		retVal = vsnprintf(szLine, sizeof(szLine), pszFmtString, args);
 #endif
 		
 		MGBASECHECK(retVal);
-- 
2.43.0


From ff397773be504174c7636210af57bd112062ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:09 +0000
Subject: [PATCH 21/23] fix: subtracting time codes never borrowed where long
 is 64 bits wide, and borrowed twice when a part was exactly used up

---
 src/mg/media/WaveParser.h | 41 +++++++++++++++------------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/src/mg/media/WaveParser.h b/src/mg/media/WaveParser.h
index fe6d8cd..bc35334 100644
--- a/src/mg/media/WaveParser.h
+++ b/src/mg/media/WaveParser.h
@@ -340,43 +340,34 @@ public:
 		TC tc;
 		
 		DWORD dwFR = 0;
-		long lF  = (_dwFrames - rhs._dwFrames);
-		if(0 > lF)
+		long lF  = static_cast<long>(_dwFrames) - static_cast<long>(rhs._dwFrames);
+		while(0 > lF)
 		{
-			lF = (-1)*lF;
-
-			dwFR = lF/25 + 1;
-			tc._dwFrames = _nFrames - lF%_nFrames;
+			lF += static_cast<long>(_nFrames);
+			++dwFR;
 		}
-		else
-			tc._dwFrames = lF;
+		tc._dwFrames = static_cast<DWORD>(lF);
 
 		DWORD dwSR = 0;
-		long lS  = (_dwSeconds - rhs._dwSeconds - dwFR);
-		if(0 > lS)
+		long lS  = static_cast<long>(_dwSeconds) - static_cast<long>(rhs._dwSeconds) - static_cast<long>(dwFR);
+		while(0 > lS)
 		{
-			lS = (-1)*lS;
-
-			dwSR = lS/60 + 1;
-			tc._dwSeconds = 60 - lS%60;
+			lS += 60;
+			++dwSR;
 		}
-		else
-			tc._dwSeconds = lS;
+		tc._dwSeconds = static_cast<DWORD>(lS);
 
 
 		DWORD dwMR = 0;
-		long lM  = (_dwMinutes - rhs._dwMinutes - dwSR);
-		if(0 > lM)
+		long lM  = static_cast<long>(_dwMinutes) - static_cast<long>(rhs._dwMinutes) - static_cast<long>(dwSR);
+		while(0 > lM)
 		{
-			lM = (-1)*lM;
-
-			dwMR = lM/60 + 1;
-			tc._dwMinutes = 60 - lM%60;
+			lM += 60;
+			++dwMR;
 		}
-		else
-			tc._dwMinutes = lM;
+		tc._dwMinutes = static_cast<DWORD>(lM);
 
-		long lH  = (_dwHours - rhs._dwHours - dwMR);
+		long lH  = static_cast<long>(_dwHours) - static_cast<long>(rhs._dwHours) - static_cast<long>(dwMR);
 		if(0 > lH)
 		{
 			if(-23 < lH)
-- 
2.43.0


From a3955aa8f3c246aa58f9916af90f445170a48d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 22/23] fix: the last byte of a NAL unit was lost when it was 3
 without being an emulation prevention byte

---
 src/mg/media/h264nal.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mg/media/h264nal.h b/src/mg/media/h264nal.h
index ef38584..6369033 100644
--- a/src/mg/media/h264nal.h
+++ b/src/mg/media/h264nal.h
@@ -76,9 +76,6 @@ protected:
 		{
 			_ASSERTE((idx + 1) >= NumBytesInRBSP);
 
-			if(idx + 1 == NumBytesInNALunit && 0x03 == bit_stream.nextbits(8))
-				break;
-			
 			if( (idx + 2) < NumBytesInNALunit  && 0x000003 == bit_stream.nextbits(24))
 			{
 				p_nal[NumBytesInRBSP++] = 0x00;
-- 
2.43.0


From 8647274274b2a3990b5ddb670f3b69f5f4e92623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:20 +0000
Subject: [PATCH 23/23] fix: an audio time of 2147483647 made the next one
 count as the first of its stream

---
 src/mg/media/aac_time_fix.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/aac_time_fix.h b/src/mg/media/aac_time_fix.h
index 2c67558..0e0621c 100644
--- a/src/mg/media/aac_time_fix.h
+++ b/src/mg/media/aac_time_fix.h
@@ -8,6 +8,7 @@ class CAACFixStream
 	
 	double _previus;
 	double _error;
+	bool   _first;
 
 	double _min_frame_duration;
 	double _max_frame_duration;
@@ -32,6 +33,7 @@ class CAACFixStream
 			
 			_error = INT32_MAX;
 			_previus = INT32_MAX;
+			_first = true;
 
 			_stream_id = stream_id;
 		}
@@ -56,8 +58,9 @@ class CAACFixStream
 		double & previus = _previus;
 		double & error   = _error;
 
-		if(INT32_MAX == previus)
+		if(_first)
 		{
+			_first = false;
 			previus = time;
 			error = 0;
 
-- 
2.43.0

