From bb3282618c976e02395fbadf8f0d923d58ee2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 01/73] fix: Bitset operator< ran out of range and ignored more
 significant blocks

---
 include/NazaraUtils/Bitset.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 66a8c7a..25ba235 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1536,9 +1536,9 @@ namespace Nz
 		std::size_t minBlockCount = lesser.GetBlockCount();
 
 		// If the greatest bitset has a single bit active in a block outside the lesser bitset range, then it is greater
-		for (std::size_t i = maxBlockCount; i > minBlockCount; ++i)
+		for (std::size_t i = maxBlockCount; i > minBlockCount; --i)
 		{
-			if (greater.GetBlock(i))
+			if (greater.GetBlock(i - 1))
 				return lhs.GetBlockCount() < rhs.GetBlockCount();
 		}
 
@@ -1546,8 +1546,8 @@ namespace Nz
 		for (std::size_t i = 0; i < minBlockCount; ++i)
 		{
 			std::size_t index = (minBlockCount - i - 1); // Compare from the most significant block to the less significant block
-			if (lhs.GetBlock(index) < rhs.GetBlock(index))
-				return true;
+			if (lhs.GetBlock(index) != rhs.GetBlock(index))
+				return lhs.GetBlock(index) < rhs.GetBlock(index);
 		}
 
 		return false; // They are equal
-- 
2.43.0


From fe03c5c475f1cb8ddb609dad1cfec89379b7b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 02/73] fix: Bitset bit iterator post-increment did not advance
 the iterator

---
 include/NazaraUtils/Bitset.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 25ba235..1cea9f0 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1434,7 +1434,7 @@ namespace Nz
 	constexpr auto Bitset<Block, Container>::BitIterator::operator++(int) -> BitIterator
 	{
 		BitIterator copy(*this);
-		++copy;
+		++(*this);
 		return copy;
 	}
 
-- 
2.43.0


From 04991929f7e30405ea7f5730815ed241528e7297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 03/73] fix: Bitset AppendBits appended bits beyond bitCount or
 lost a full last block

---
 include/NazaraUtils/Bitset.inl | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 1cea9f0..f91dbb0 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -158,6 +158,10 @@ namespace Nz
 		std::size_t bitShift = m_bitCount % bitsPerBlock;
 		m_bitCount += bitCount;
 
+		// Mask out the bits we don't want
+		if (bitCount < BitCount<T>)
+			bits &= (T(1U) << bitCount) - 1U;
+
 		if (bitShift != 0)
 		{
 			std::size_t remainingBits = bitsPerBlock - bitShift;
@@ -182,10 +186,7 @@ namespace Nz
 				bitCount -= bitsPerBlock;
 			}
 
-			// For the last iteration, mask out the bits we don't want
-			std::size_t remainingBits = bitCount;
-
-			bits &= ((Block(1U) << remainingBits) - 1U);
+			// Unwanted bits have already been masked out
 			m_blocks.push_back(static_cast<Block>(bits));
 		}
 	}
-- 
2.43.0


From 7999fe93f859ddd02b404b8b47d7628dd0c233c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 04/73] fix: Bitset Write of zero bit skipped a byte of the
 sequence

---
 include/NazaraUtils/Bitset.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index f91dbb0..7b9aecf 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -369,10 +369,13 @@ namespace Nz
 		NazaraAssertMsg(sequence.first, "invalid pointer sequence");
 		NazaraAssertMsg(sequence.second < 8, "invalid next bit index (must be < 8)");
 
+		if (bitCount == 0)
+			return sequence;
+
 		std::size_t totalBitCount = sequence.second + bitCount;
 
 		const UInt8* u8Ptr = static_cast<const UInt8*>(sequence.first);
-		const UInt8* endPtr = u8Ptr + ((totalBitCount != 0) ? (totalBitCount - 1) / 8 : 0);
+		const UInt8* endPtr = u8Ptr + (totalBitCount - 1) / 8;
 		const UInt8* nextPtr = endPtr + ((totalBitCount % 8 != 0) ? 0 : 1);
 
 		// Read the first block apart to apply a mask on the first byte if necessary
-- 
2.43.0


From c58a0e502178dd443aeab3da3e54e6434abea0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 05/73] fix: FixedVector copy assignment handles
 self-assignment and destroys inplace elements

---
 include/NazaraUtils/FixedVector.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 16f10ca..198a6e5 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -691,10 +691,16 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(const FixedVector& vec) -> FixedVector&
 	{
+		if (this == &vec)
+			return *this;
+
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (vec.IsUsingFallback())
 			{
+				if (!IsUsingFallback())
+					clear();
+
 				Base::operator=(vec);
 				m_size = vec.m_size;
 				return *this;
-- 
2.43.0


From 3112b38774d23ac12023cc0c972f7fb5245657f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 06/73] fix: FixedVector move assignment destroys inplace
 elements before using the fallback

---
 include/NazaraUtils/FixedVector.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 198a6e5..454ef1b 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -720,6 +720,10 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
+			// Destroy elements stored inplace before switching to the fallback
+			if (vec.IsUsingFallback() && !IsUsingFallback())
+				clear();
+
 			// Always move fallback container to steal capacity
 			Base::operator=(std::move(vec));
 			if (vec.IsUsingFallback())
-- 
2.43.0


From 734709a060d6c7db9f3b24cd3d3cc9be57aead1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 07/73] fix: FixedVector insertions accept arguments referring
 to their own elements

---
 include/NazaraUtils/FixedVector.hpp |  1 -
 include/NazaraUtils/FixedVector.inl | 73 ++++++++++++-----------------
 2 files changed, 30 insertions(+), 44 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index 3d7489f..79d416a 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -119,7 +119,6 @@ namespace Nz
 			constexpr FixedVector& operator=(FixedVector&& vec) noexcept;
 
 		private:
-			constexpr bool CheckFallbackOnGrow();
 			constexpr bool IsUsingFallback() const;
 			constexpr void MoveStorageToFallback(std::size_t capacity);
 
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 454ef1b..05723ff 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -367,24 +367,36 @@ namespace Nz
 
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return Base::EmplaceInFallback(index, std::forward<Args>(args)...);
+
+			if (m_size >= Capacity)
+			{
+				// Build the element before moving the others, as args may refer to one of them
+				T value(std::forward<Args>(args)...);
+				MoveStorageToFallback(m_size + 1);
+				return Base::EmplaceInFallback(index, std::move(value));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
 		if (pos < end())
 		{
+			// Build the element before moving the others, as args may refer to one of them
+			T value(std::forward<Args>(args)...);
+
 			iterator lastElement = end() - 1;
 			PlacementNew(data(m_size), std::move(*lastElement));
+			m_size++;
 
 			if (data(index) < lastElement)
-				std::move_backward(data(index), data(m_size - 1), data(m_size));
+				std::move_backward(data(index), lastElement, lastElement + 1);
 
-			PlacementDestroy(data(index));
+			*data(index) = std::move(value);
+			return data(index);
 		}
-		m_size++;
 
-		return PlacementNew(data(index), std::forward<Args>(args)...);
+		return &emplace_back(std::forward<Args>(args)...);
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -393,8 +405,16 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return *Base::EmplaceBackInFallback(std::forward<Args>(args)...);
+
+			if (m_size >= Capacity)
+			{
+				// Build the element before moving the others, as args may refer to one of them
+				T value(std::forward<Args>(args)...);
+				MoveStorageToFallback(m_size + 1);
+				return *Base::EmplaceBackInFallback(std::move(value));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -510,27 +530,13 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value) -> reference
 	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
-		}
-
-		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), value);
+		return emplace_back(value);
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value) -> reference
 	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
-		}
-
-		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::move(value));
+		return emplace_back(std::move(value));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -596,8 +602,9 @@ namespace Nz
 			}
 			else if (count > Capacity)
 			{
+				T copy(value); // value may refer to one of the elements about to be moved
 				MoveStorageToFallback(count);
-				Base::ResizeFallback(count, value);
+				Base::ResizeFallback(count, copy);
 				return;
 			}
 		}
@@ -741,26 +748,6 @@ namespace Nz
 		return *this;
 	}
 
-	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr bool FixedVector<T, Capacity, Fallback>::CheckFallbackOnGrow()
-	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (IsUsingFallback())
-				return true;
-
-			if (m_size >= Capacity)
-			{
-				MoveStorageToFallback(m_size + 1);
-				return true;
-			}
-			else
-				return false;
-		}
-		else
-			return false;
-	}
-
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr bool FixedVector<T, Capacity, Fallback>::IsUsingFallback() const
 	{
-- 
2.43.0


From c0adee2c62249c925964d7713690a7df1437e36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 08/73] fix: FixedVector remains consistent when an element
 operation throws

---
 include/NazaraUtils/FixedVector.inl | 53 +++++++++++++++--------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 05723ff..a52f175 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -74,6 +74,16 @@ namespace Nz
 					return fallback.size();
 				}
 
+				void MoveToFallback(T* elements, std::size_t count, std::size_t capacity)
+				{
+					Fallback newFallback;
+					newFallback.reserve(capacity);
+					for (std::size_t i = 0; i < count; ++i)
+						newFallback.emplace_back(std::move(elements[i]));
+
+					fallback = std::move(newFallback);
+				}
+
 				void PopBackInFallback()
 				{
 					fallback.pop_back();
@@ -155,6 +165,10 @@ namespace Nz
 					return 0;
 				}
 
+				void MoveToFallback(T* /*elements*/, std::size_t /*count*/, std::size_t /*capacity*/)
+				{
+				}
+
 				void PopBackInFallback()
 				{
 				}
@@ -209,16 +223,9 @@ namespace Nz
 
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(const FixedVector& vec) :
-	Base(vec)
+	FixedVector()
 	{
-		if (!vec.IsUsingFallback())
-		{
-			m_size = 0;
-			for (size_type i = 0; i < vec.size(); ++i)
-				push_back(vec[i]);
-		}
-		else
-			m_size = FallbackInUse;
+		*this = vec;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -418,7 +425,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::forward<Args>(args)...);
+		T* ptr = PlacementNew(data(m_size), std::forward<Args>(args)...);
+		m_size++;
+
+		return *ptr;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -576,10 +586,8 @@ namespace Nz
 		NazaraAssert(count <= Capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(data(i));
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(data(m_size));
 		}
 		else if (count < m_size)
 		{
@@ -612,10 +620,8 @@ namespace Nz
 		NazaraAssert(count <= Capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(data(i), value);
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(data(m_size), value);
 		}
 		else if (count < m_size)
 		{
@@ -762,13 +768,10 @@ namespace Nz
 	{
 		NazaraAssert(!IsUsingFallback());
 
-		Base::ReserveFallback(capacity);
-		for (std::size_t i = 0; i < m_size; ++i)
-		{
-			T* ptr = data(i);
-			Base::EmplaceBackInFallback(std::move(*ptr));
-			PlacementDestroy(ptr);
-		}
+		// If this throws, elements remain in place
+		Base::MoveToFallback(data(), m_size, capacity);
+
+		clear();
 		m_size = FallbackInUse;
 	}
 }
-- 
2.43.0


From 48befdbcb237aea37a16a10a1cb8e6d52226b355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 09/73] fix: StackVector insertions accept arguments referring
 to their own elements

---
 include/NazaraUtils/StackVector.inl | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 48b3502..0e28cfe 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -125,17 +125,21 @@ namespace Nz
 		std::size_t index = std::distance(cbegin(), pos);
 		if (pos < end())
 		{
+			// Build the element before moving the others, as args may refer to one of them
+			T value(std::forward<Args>(args)...);
+
 			iterator lastElement = end() - 1;
 			PlacementNew(&m_ptr[m_size], std::move(*lastElement));
+			m_size++;
 
 			if (&m_ptr[index] < lastElement)
-				std::move_backward(&m_ptr[index], &m_ptr[m_size - 1], &m_ptr[m_size]);
+				std::move_backward(&m_ptr[index], lastElement, lastElement + 1);
 
-			PlacementDestroy(&m_ptr[index]);
+			m_ptr[index] = std::move(value);
+			return &m_ptr[index];
 		}
-		m_size++;
 
-		return PlacementNew(&m_ptr[index], std::forward<Args>(args)...);
+		return &emplace_back(std::forward<Args>(args)...);
 	}
 
 	template<typename T>
-- 
2.43.0


From d9729936b2de0ec778f7115adaf5d62865fb258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 10/73] fix: StackVector and StackArray remain consistent when
 an element operation throws

---
 include/NazaraUtils/StackArray.inl  |  8 ++++----
 include/NazaraUtils/StackVector.inl | 27 ++++++++++++++++-----------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index d3bd353..c6deaf3 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -24,11 +24,11 @@ namespace Nz
 
 	template<typename T>
 	StackArray<T>::StackArray(T* stackMemory, std::size_t size) :
-	m_size(size),
-	m_ptr(stackMemory)
+	StackArray()
 	{
-		for (std::size_t i = 0; i < m_size; ++i)
-			PlacementNew(&m_ptr[i]);
+		m_ptr = stackMemory;
+		for (; m_size < size; ++m_size)
+			PlacementNew(&m_ptr[m_size]);
 	}
 
 	template<typename T>
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 0e28cfe..139820b 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -147,7 +147,10 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::emplace_back(Args&&... args)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::forward<Args>(args)...);
+		T* ptr = PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
+		m_size++;
+
+		return *ptr;
 	}
 
 	template<typename T>
@@ -234,14 +237,20 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], value);
+		T* ptr = PlacementNew(&m_ptr[m_size], value);
+		m_size++;
+
+		return *ptr;
 	}
 
 	template<typename T>
 	typename StackVector<T>::reference StackVector<T>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::move(value));
+		T* ptr = PlacementNew(&m_ptr[m_size], std::move(value));
+		m_size++;
+
+		return *ptr;
 	}
 
 	template<typename T>
@@ -257,10 +266,8 @@ namespace Nz
 		assert(count <= m_capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(&m_ptr[i]);
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(&m_ptr[m_size]);
 		}
 		else if (count < m_size)
 		{
@@ -277,10 +284,8 @@ namespace Nz
 		assert(count <= m_capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(&m_ptr[i], value);
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(&m_ptr[m_size], value);
 		}
 		else if (count < m_size)
 		{
-- 
2.43.0


From e72b4ce66e3e926ee42dd34d342aabc0581774cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 11/73] fix: StackVector moves leave an empty vector and
 destroy replaced elements

---
 include/NazaraUtils/StackVector.hpp |  4 ++--
 include/NazaraUtils/StackVector.inl | 28 ++++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackVector.hpp b/include/NazaraUtils/StackVector.hpp
index 2bf14a7..02c3b40 100644
--- a/include/NazaraUtils/StackVector.hpp
+++ b/include/NazaraUtils/StackVector.hpp
@@ -41,7 +41,7 @@ namespace Nz
 			StackVector();
 			StackVector(T* stackMemory, std::size_t capacity);
 			StackVector(const StackVector&) = delete;
-			StackVector(StackVector&&) noexcept = default;
+			StackVector(StackVector&& vec) noexcept;
 			~StackVector();
 
 			reference back();
@@ -104,7 +104,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackVector& operator=(const StackVector&) = delete;
-			StackVector& operator=(StackVector&&) noexcept = default;
+			StackVector& operator=(StackVector&& vec) noexcept;
 
 		private:
 			std::size_t m_capacity;
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 139820b..b07df2f 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -31,6 +31,14 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackVector<T>::StackVector(StackVector&& vec) noexcept :
+	m_capacity(std::exchange(vec.m_capacity, 0)),
+	m_size(std::exchange(vec.m_size, 0)),
+	m_ptr(std::move(vec.m_ptr))
+	{
+	}
+
 	template<typename T>
 	StackVector<T>::~StackVector()
 	{
@@ -339,4 +347,24 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackVector<T>& StackVector<T>::operator=(StackVector&& vec) noexcept
+	{
+		if (this == &vec)
+			return *this;
+
+		clear();
+
+		#ifndef NAZARA_ALLOCA_SUPPORT
+		operator delete(m_ptr);
+		m_ptr = nullptr;
+		#endif
+
+		m_capacity = std::exchange(vec.m_capacity, 0);
+		m_size = std::exchange(vec.m_size, 0);
+		m_ptr = std::move(vec.m_ptr);
+
+		return *this;
+	}
 }
-- 
2.43.0


From 80fcd629723f390ea401e804e4cc59c0c50127c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 12/73] fix: StackArray moves leave an empty array and destroy
 replaced elements

---
 include/NazaraUtils/StackArray.hpp |  4 ++--
 include/NazaraUtils/StackArray.inl | 27 +++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index 3654a89..d7add20 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -45,7 +45,7 @@ namespace Nz
 			StackArray(T* stackMemory, std::size_t size);
 			StackArray(T* stackMemory, std::size_t size, NoInitTag);
 			StackArray(const StackArray&) = delete;
-			StackArray(StackArray&&) = default;
+			StackArray(StackArray&& array) noexcept;
 			~StackArray();
 
 			reference back();
@@ -86,7 +86,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackArray& operator=(const StackArray&) = delete;
-			StackArray& operator=(StackArray&&) = default;
+			StackArray& operator=(StackArray&& array) noexcept;
 
 		private:
 			std::size_t m_size;
diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index c6deaf3..73262f6 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -38,6 +38,13 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackArray<T>::StackArray(StackArray&& array) noexcept :
+	m_size(std::exchange(array.m_size, 0)),
+	m_ptr(std::move(array.m_ptr))
+	{
+	}
+
 	template<typename T>
 	StackArray<T>::~StackArray()
 	{
@@ -196,4 +203,24 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackArray<T>& StackArray<T>::operator=(StackArray&& array) noexcept
+	{
+		if (this == &array)
+			return *this;
+
+		for (std::size_t i = 0; i < m_size; ++i)
+			PlacementDestroy(&m_ptr[i]);
+
+		#ifndef NAZARA_ALLOCA_SUPPORT
+		OperatorDelete(m_ptr);
+		m_ptr = nullptr;
+		#endif
+
+		m_size = std::exchange(array.m_size, 0);
+		m_ptr = std::move(array.m_ptr);
+
+		return *this;
+	}
 }
-- 
2.43.0


From ab625a3ee95756d57acd1f21af39380aa41ec223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 13/73] fix: MemoryPool Reset returned the pool to full
 capacity incorrectly

---
 include/NazaraUtils/MemoryPool.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 2503503..5976a4d 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -230,8 +230,8 @@ namespace Nz
 				PlacementDestroy(entry);
 			}
 
-			block.freeEntries.Reset(true);
-			block.occupiedEntries.Reset(false);
+			block.freeEntries.Set(true);
+			block.occupiedEntries.Reset();
 			block.occupiedEntryCount = 0;
 		}
 	}
-- 
2.43.0


From 5e837807e4cca6d434f28d2aa6a9efaf28f5c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 14/73] fix: MemoryPool move assignment destroys the entries it
 replaces

---
 include/NazaraUtils/MemoryPool.hpp |  2 +-
 include/NazaraUtils/MemoryPool.inl | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.hpp b/include/NazaraUtils/MemoryPool.hpp
index 79a8f2a..4c9bbc7 100644
--- a/include/NazaraUtils/MemoryPool.hpp
+++ b/include/NazaraUtils/MemoryPool.hpp
@@ -63,7 +63,7 @@ namespace Nz
 			std::size_t size();
 
 			MemoryPool& operator=(const MemoryPool&) = delete;
-			MemoryPool& operator=(MemoryPool&& pool) noexcept = default;
+			MemoryPool& operator=(MemoryPool&& pool) noexcept;
 
 			static constexpr DeferConstruct_t DeferConstruct = {};
 			static constexpr std::size_t InvalidIndex = std::numeric_limits<std::size_t>::max();
diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 5976a4d..a76e82b 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -350,6 +350,27 @@ namespace Nz
 		return GetAllocatedEntryCount();
 	}
 
+	/*!
+	* \brief Moves another pool into this one
+	*
+	* This is call the destructor of every active entry of this pool before taking the content of the other one
+	*
+	* \param pool Pool to move, left without any block
+	*/
+	template<typename T, std::size_t Alignment>
+	MemoryPool<T, Alignment>& MemoryPool<T, Alignment>::operator=(MemoryPool&& pool) noexcept
+	{
+		if (this != &pool)
+		{
+			Clear();
+
+			m_blockSize = pool.m_blockSize;
+			m_blocks = std::move(pool.m_blocks);
+		}
+
+		return *this;
+	}
+
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-- 
2.43.0


From 13d821ce4f1bd0403259af5ce5d4bd0556e62ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 15/73] fix: MemoryPool gives an entry back when its
 constructor throws

---
 include/NazaraUtils/MemoryPool.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index a76e82b..c03cb65 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -3,6 +3,7 @@
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
 #include <NazaraUtils/Algorithm.hpp>
+#include <NazaraUtils/CallOnExit.hpp>
 #include <NazaraUtils/MemoryHelper.hpp>
 #include <stdexcept>
 #include <utility>
@@ -93,7 +94,11 @@ namespace Nz
 	T* MemoryPool<T, Alignment>::Allocate(std::size_t& index, Args&&... args)
 	{
 		T* entry = Allocate(DeferConstruct, index);
+
+		// Give the entry back if the constructor throws
+		CallOnExit freeEntry([&] { Free(index, NoDestruction); });
 		PlacementNew(entry, std::forward<Args>(args)...);
+		freeEntry.Reset();
 
 		return entry;
 	}
-- 
2.43.0


From a9258f59410eedf6b85f15a76540213a2f7e8dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 16/73] fix: MemoryPool RetrieveEntryIndex takes entry
 alignment into account

---
 include/NazaraUtils/MemoryPool.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index c03cb65..34efec6 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -292,11 +292,12 @@ namespace Nz
 		for (; blockIndex < m_blocks.size(); ++blockIndex)
 		{
 			auto& block = m_blocks[blockIndex];
-			const T* startPtr = reinterpret_cast<const T*>(&block.memory[0]);
-			if (data >= startPtr && data < startPtr + m_blockSize)
+			const AlignedStorage* startPtr = &block.memory[0];
+			const AlignedStorage* dataPtr = reinterpret_cast<const AlignedStorage*>(data);
+			if (dataPtr >= startPtr && dataPtr < startPtr + m_blockSize)
 			{
 				// Part of block
-				localIndex = SafeCast<std::size_t>(data - startPtr);
+				localIndex = SafeCast<std::size_t>(dataPtr - startPtr);
 				assert(data == reinterpret_cast<const T*>(&block.memory[localIndex]));
 
 				break;
-- 
2.43.0


From f8b0d7bc420490115d14c718a49213c155bd6d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 17/73] fix: CallOnExit CallAndReset called its function again
 on exit when it threw

---
 include/NazaraUtils/CallOnExit.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index f8f60a3..e0e2099 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -40,9 +40,13 @@ namespace Nz
 	void CallOnExit<F>::CallAndReset()
 	{
 		if (m_functor)
-			(*m_functor)();
+		{
+			// Reset first so that the function is never called twice, even if it throws
+			F functor = std::move(*m_functor);
+			m_functor.reset();
 
-		m_functor.reset();
+			functor();
+		}
 	}
 
 	/*!
-- 
2.43.0


From ff5cfad7fd229b41f7d9a4975e9305393f874c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 18/73] fix: CallOnExit move assignment called the moved
 function twice and dropped the replaced one

---
 include/NazaraUtils/CallOnExit.hpp |  2 +-
 include/NazaraUtils/CallOnExit.inl | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/CallOnExit.hpp b/include/NazaraUtils/CallOnExit.hpp
index d35a314..aed3e51 100644
--- a/include/NazaraUtils/CallOnExit.hpp
+++ b/include/NazaraUtils/CallOnExit.hpp
@@ -28,7 +28,7 @@ namespace Nz
 			void Reset();
 
 			CallOnExit& operator=(const CallOnExit&) = delete;
-			CallOnExit& operator=(CallOnExit&&) = default;
+			CallOnExit& operator=(CallOnExit&& callOnExit);
 
 		private:
 			std::optional<F> m_functor;
diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index e0e2099..0246282 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -59,5 +59,27 @@ namespace Nz
 	{
 		m_functor.reset();
 	}
+
+	/*!
+	* \brief Calls the current function (if any) and takes the function of another object
+	*
+	* \param callOnExit Object to move from, which is left without function
+	*/
+	template<typename F>
+	CallOnExit<F>& CallOnExit<F>::operator=(CallOnExit&& callOnExit)
+	{
+		if (this != &callOnExit)
+		{
+			CallAndReset();
+
+			if (callOnExit.m_functor)
+			{
+				m_functor.emplace(std::move(*callOnExit.m_functor));
+				callOnExit.m_functor.reset();
+			}
+		}
+
+		return *this;
+	}
 }
 
-- 
2.43.0


From 9b2c52d0530f7d3d2b73ba698810abfa6137f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 19/73] fix: Signal destroyed a callback disconnecting itself
 while executing it

---
 include/NazaraUtils/Signal.hpp | 2 +-
 include/NazaraUtils/Signal.inl | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/Signal.hpp b/include/NazaraUtils/Signal.hpp
index 139dde5..7497eda 100644
--- a/include/NazaraUtils/Signal.hpp
+++ b/include/NazaraUtils/Signal.hpp
@@ -65,7 +65,7 @@ namespace Nz
 				{
 				}
 
-				Callback callback;
+				std::shared_ptr<Callback> callback; //< Shared to outlive the slot if it gets disconnected by its own callback
 				Signal* signal;
 				SlotListIndex index;
 			};
diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index f5803ee..7e73b1d 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -86,7 +86,7 @@ namespace Nz
 		bool resetIt = (m_slotIterator >= m_slots.size());
 
 		auto tempPtr = std::make_shared<Slot>(this);
-		tempPtr->callback = std::move(func);
+		tempPtr->callback = std::make_shared<Callback>(std::move(func));
 		tempPtr->index = m_slots.size();
 
 		m_slots.emplace_back(std::move(tempPtr));
@@ -179,7 +179,11 @@ namespace Nz
 	void Signal<Args...>::operator()(Args... args) const
 	{
 		for (m_slotIterator = 0; m_slotIterator < m_slots.size(); ++m_slotIterator)
-			m_slots[m_slotIterator]->callback(args...);
+		{
+			// Keep the callback alive while it is executing
+			std::shared_ptr<Callback> callback = m_slots[m_slotIterator]->callback;
+			(*callback)(args...);
+		}
 	}
 
 	/*!
-- 
2.43.0


From 6d3494608c19475ef5f0b6754c20b978c2bcf748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 20/73] fix: Signal skipped slots when its first slot
 disconnected itself then connected another

---
 include/NazaraUtils/Signal.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 7e73b1d..4a06cd3 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -83,7 +83,8 @@ namespace Nz
 
 		// Since we're incrementing the slot vector size, we need to replace our iterator at the end
 		// (Except when we are iterating on the signal)
-		bool resetIt = (m_slotIterator >= m_slots.size());
+		// (the iterator is before the first slot if it was disconnected by its own callback)
+		bool resetIt = (m_slotIterator >= m_slots.size() && m_slotIterator != SlotListIndex(-1));
 
 		auto tempPtr = std::make_shared<Slot>(this);
 		tempPtr->callback = std::make_shared<Callback>(std::move(func));
-- 
2.43.0


From 2b4dcf7c17fee51d9da0be32a2a4b1c5111fcac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 21/73] fix: Signal left null slots in a moved signal

---
 include/NazaraUtils/Signal.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 4a06cd3..60ad933 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -208,8 +208,12 @@ namespace Nz
 	template<typename... Args>
 	Signal<Args...>& Signal<Args...>::operator=(Signal&& signal) noexcept
 	{
+		if (this == &signal)
+			return *this;
+
 		m_slots = std::move(signal.m_slots);
 		m_slotIterator = signal.m_slotIterator;
+		signal.Clear(); //< Moved slots may remain in the list as null pointers
 
 		// We need to update the signal pointer inside of each slot
 		for (SlotPtr& slot : m_slots)
-- 
2.43.0


From 41bf66523bed7cd1b4efa50832a148187f7d38df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 22/73] fix: Signal ConnectionGuard could not be assigned from
 a temporary connection

---
 include/NazaraUtils/Signal.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 60ad933..3433df2 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -460,7 +460,7 @@ namespace Nz
 	template<typename... Args>
 	typename Signal<Args...>::ConnectionGuard& Signal<Args...>::ConnectionGuard::operator=(Connection&& connection)
 	{
-		if (&connection != this)
+		if (&connection != &m_connection)
 		{
 			m_connection.Disconnect();
 			m_connection = std::move(connection);
-- 
2.43.0


From 31ab0c1f1075109bf0df60bf0cb7bde2c10d7ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 23/73] fix: Result<void, E> stole the error passed as a lvalue
 to Err

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 92dae39..1558b21 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -278,7 +278,7 @@ namespace Nz
 	template<typename E>
 	template<typename T>
 	constexpr Result<void, E>::Result(ResultError<T> error) :
-	m_error(std::move(error.value))
+	m_error(std::forward<T>(error.value))
 	{
 	}
 
-- 
2.43.0


From a1d99686febb23b1d329bb46f301ef61f7974d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 24/73] fix: PrivateImpl with a buffer destroyed its object on
 self-assignment

---
 include/NazaraUtils/PrivateImpl.inl | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 849645c..85e1543 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -91,8 +91,11 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(const PrivateImpl& pimpl) -> PrivateImpl&
 	{
-		PlacementDestroy(Get());
-		PlacementNew(Get(), *pimpl.Get());
+		if (this != &pimpl)
+		{
+			PlacementDestroy(Get());
+			PlacementNew(Get(), *pimpl.Get());
+		}
 
 		return *this;
 	}
@@ -100,8 +103,11 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(PrivateImpl&& pimpl) noexcept -> PrivateImpl&
 	{
-		PlacementDestroy(Get());
-		PlacementNew(Get(), std::move(*pimpl.Get()));
+		if (this != &pimpl)
+		{
+			PlacementDestroy(Get());
+			PlacementNew(Get(), std::move(*pimpl.Get()));
+		}
 
 		return *this;
 	}
-- 
2.43.0


From 05841be60a27204d2fa03add0cd79b2982391f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 25/73] fix: PrivateImpl dereferenced a null pointer when
 copied from an empty one

---
 include/NazaraUtils/PrivateImpl.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 85e1543..08e7f24 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -137,7 +137,8 @@ namespace Nz
 	PrivateImpl<T, 0, Alignment>::PrivateImpl(const PrivateImpl& pimpl)
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy constructor has to be called in the source file");
-		m_ptr = new T(*pimpl);
+		if (pimpl.HasValue())
+			m_ptr = new T(*pimpl);
 	}
 
 	template<typename T, std::size_t Alignment>
@@ -231,6 +232,12 @@ namespace Nz
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy assignation operator has to be called in the source file");
 
+		if (!pimpl.HasValue())
+		{
+			Reset();
+			return *this;
+		}
+
 		if constexpr (std::is_copy_assignable_v<T>)
 		{
 			if (m_ptr)
-- 
2.43.0


From 94ddcc04838b1a7dc7322f58d0d84b62543c312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 26/73] fix: PrivateImpl destroyed its non-assignable object on
 self-assignment

---
 include/NazaraUtils/PrivateImpl.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 08e7f24..31be9b9 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -245,9 +245,9 @@ namespace Nz
 			else
 				m_ptr = new T(*pimpl);
 		}
-		else
+		else if (this != &pimpl)
 		{
-			delete m_ptr;
+			Reset();
 			m_ptr = new T(*pimpl);
 		}
 
-- 
2.43.0


From 19b2dbfbc38cc66b391d2808777f8789c0d19746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 27/73] fix: MovableValue and MovableLiteral stole the value
 assigned from a lvalue

---
 include/NazaraUtils/MovableValue.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MovableValue.inl b/include/NazaraUtils/MovableValue.inl
index 1093929..c84ec2f 100644
--- a/include/NazaraUtils/MovableValue.inl
+++ b/include/NazaraUtils/MovableValue.inl
@@ -66,7 +66,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableLiteral<T, DefaultValue>& MovableLiteral<T, DefaultValue>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
@@ -132,7 +132,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableValue<T>& MovableValue<T>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
-- 
2.43.0


From 1c3feecf462dd31b0b73f33587651952f576098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 28/73] fix: Flags lost the enumerators above the 32nd bit

---
 include/NazaraUtils/Flags.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index 33632b0..d71139d 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -283,7 +283,7 @@ namespace Nz
 	constexpr auto Flags<E>::GetFlagValue(E enumValue) -> BitField
 	{
 		if constexpr (AutoFlag)
-			return 1U << static_cast<BitField>(enumValue);
+			return static_cast<BitField>(BitField(1) << static_cast<BitField>(enumValue));
 		else
 			return static_cast<BitField>(enumValue);
 	}
@@ -332,7 +332,7 @@ namespace Nz
 		if constexpr (AutoFlag)
 			return static_cast<T>(bitIndex - 1);
 		else
-			return static_cast<T>(1U << ((bitIndex) - 1));
+			return static_cast<T>(BitField(1) << (bitIndex - 1));
 	}
 
 	/*!
-- 
2.43.0


From 2c980e43ba184cb90ab2d51753dcf467f79f4dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 29/73] fix: Flags hash could not be used by unordered
 containers

---
 include/NazaraUtils/Flags.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index d71139d..663c6fb 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -451,7 +451,7 @@ namespace std
 	template<typename E>
 	struct hash<Nz::Flags<E>>
 	{
-		std::size_t operator()(const Nz::Flags<E>& flags)
+		std::size_t operator()(const Nz::Flags<E>& flags) const
 		{
 			using UnderlyingType = typename Nz::Flags<E>::BitField;
 			using Hasher = hash<UnderlyingType>;
-- 
2.43.0


From 04ae4ccb879a3432264ccb9d8a1d84e41131113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 30/73] fix: Flags of an enumeration of 64 values did not
 compile

---
 include/NazaraUtils/Flags.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index a7b773a..3c70fb3 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -97,7 +97,7 @@ namespace Nz
 
 			static constexpr BitField GetFlagValue(E enumValue);
 
-			static constexpr BitField ValueMask = BitField((UInt64(1) << (MaxValue + 1)) - 1);
+			static constexpr BitField ValueMask = BitField(~UInt64(0) >> (63 - MaxValue));
 
 		private:
 			BitField m_value;
-- 
2.43.0


From b143d3d3dfac470aba499e8bd3c15e42e983d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 31/73] fix: Flags complement enabled bits of no value with
 explicit flags

---
 include/NazaraUtils/Flags.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index 3c70fb3..c43ee2c 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -47,6 +47,18 @@ namespace Nz
 		static constexpr std::size_t max = static_cast<std::size_t>(EnumAsFlags<E>::max);
 	};
 
+	// Mask of every bit up to the one of the greatest value (which is the bit itself without auto flag)
+	constexpr UInt64 GetEnumFlagMask(UInt64 maxValue, bool autoFlag)
+	{
+		if (autoFlag)
+			return ~UInt64(0) >> (63 - maxValue);
+
+		for (unsigned int shift = 1; shift < 64; shift *= 2)
+			maxValue |= maxValue >> shift;
+
+		return maxValue;
+	}
+
 	template<typename E>
 	class Flags
 	{
@@ -97,7 +109,7 @@ namespace Nz
 
 			static constexpr BitField GetFlagValue(E enumValue);
 
-			static constexpr BitField ValueMask = BitField(~UInt64(0) >> (63 - MaxValue));
+			static constexpr BitField ValueMask = BitField(GetEnumFlagMask(MaxValue, AutoFlag));
 
 		private:
 			BitField m_value;
-- 
2.43.0


From 7e42ab1e76fd9945045f59b5971911cb7ee6f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 32/73] fix: EnumArray key-value iterators could not be offset

---
 include/NazaraUtils/EnumArray.hpp |  4 ++--
 include/NazaraUtils/EnumArray.inl | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 387959c..6ae3c4e 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -76,8 +76,8 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator--(int) noexcept;
 			constexpr EnumArrayKvIterator& operator--() noexcept;
 
-			constexpr EnumArrayKvIterator operator+(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
+			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
 
 			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
 			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index d7bad3e..89e81a4 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -96,15 +96,17 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index + n);
+		EnumArrayKvIterator it(*this);
+		return it += n;
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index - n);
+		EnumArrayKvIterator it(*this);
+		return it -= n;
 	}
 
 	template<typename E, typename V, bool Const>
-- 
2.43.0


From a4698bf0273e89a662795e581e54ea45bfaf31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 33/73] fix: EnumArray key-value iterators += and -= returned a
 copy

---
 include/NazaraUtils/EnumArray.hpp | 4 ++--
 include/NazaraUtils/EnumArray.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 6ae3c4e..5dc73ac 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -79,8 +79,8 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
 			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
 
-			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator+=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator-=(difference_type n) noexcept;
 
 			constexpr value_type operator*() const noexcept;
 			constexpr value_type operator[](difference_type n) const noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index 89e81a4..16144ce 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -110,14 +110,14 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index += n;
 		return *this;
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index -= n;
 		return *this;
-- 
2.43.0


From a9690ddf504ca8775cce4c0f77784a4865d019b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 34/73] fix: SparsePtr computed offsets in 32 bits or unsigned
 arithmetic

---
 include/NazaraUtils/SparsePtr.inl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index e8d3d01..0111ea6 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -250,7 +250,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "index must be an integral type");
 
-		return *reinterpret_cast<T*>(m_ptr + index * m_stride);
+		return *reinterpret_cast<T*>(m_ptr + static_cast<std::ptrdiff_t>(index) * m_stride);
 	}
 
 	/*!
@@ -266,7 +266,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr + count * m_stride, m_stride);
+		return SparsePtr(m_ptr + static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -282,7 +282,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr - count * m_stride, m_stride);
+		return SparsePtr(m_ptr - static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -311,7 +311,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr += count * m_stride;
+		m_ptr += static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
@@ -321,7 +321,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr -= count * m_stride;
+		m_ptr -= static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
-- 
2.43.0


From 3bf0ce754cc2bf7c7fceb9f672bb47ff5abfa55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 35/73] fix: SparsePtr conversion to a base class ignored its
 offset

---
 include/NazaraUtils/SparsePtr.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index 0111ea6..44dbbbd 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -165,7 +165,7 @@ namespace Nz
 	{
 		static_assert(std::is_convertible<U*, T*>::value, "Source type pointer cannot be implicitly converted to target type pointer");
 
-		SetPtr(static_cast<T*>(ptr.GetPtr()));
+		SetPtr(static_cast<T*>(static_cast<U*>(ptr.GetPtr())));
 		SetStride(ptr.GetStride());
 	}
 
-- 
2.43.0


From b6320897dc5b677582ef75991ed881d04614456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 36/73] fix: ReverseBits of signed integers was not a constant
 expression in C++17

---
 include/NazaraUtils/MathUtils.inl | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 87ec435..5e3cbc7 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -499,11 +499,13 @@ NAZARA_WARNING_POP()
 	template<NAZARA_STD_CONCEPT_T(std::integral) T>
 	[[nodiscard]] constexpr T ReverseBits(T integer) noexcept
 	{
-		T reversed = 0;
+		using UnsignedT = std::make_unsigned_t<T>;
+
+		UnsignedT reversed = 0;
 		for (std::size_t i = 0; i < sizeof(T); ++i)
-			reversed |= T(Detail::s_BitReverseTable256[(integer >> i * 8) & 0xFF]) << (sizeof(T) * 8 - (i + 1) * 8);
+			reversed |= UnsignedT(UnsignedT(Detail::s_BitReverseTable256[(integer >> i * 8) & 0xFF]) << (sizeof(T) * 8 - (i + 1) * 8));
 
-		return reversed;
+		return static_cast<T>(reversed);
 	}
 
 	/*!
-- 
2.43.0


From 492c662fefb111a79bb9671b5887a2abaa0a789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 37/73] fix: CountBits of the lowest signed value was not a
 constant expression

---
 include/NazaraUtils/MathUtils.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 5e3cbc7..ba2f0a2 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -351,12 +351,12 @@ namespace Nz
 #endif
 		}
 
-		// https://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetKernighan
+		// Subtracting one from the lowest value of a signed type would overflow, test bits one by one
 		std::size_t count = 0;
-		while (value)
+		for (std::size_t i = 0; i < BitCount<T>; ++i)
 		{
-			value &= value - 1;
-			count++;
+			if ((value >> i) & 1)
+				count++;
 		}
 
 		return count;
-- 
2.43.0


From 2364a049c01cbed2ac5eae775e84b0dad62f6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 38/73] fix: SwapBytes of an empty buffer swapped out of bounds

---
 include/NazaraUtils/MathUtils.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index ba2f0a2..79c348c 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -538,10 +538,10 @@ NAZARA_WARNING_POP()
 	{
 		UInt8* bytes = static_cast<UInt8*>(buffer);
 		std::size_t i = 0;
-		std::size_t j = size - 1;
+		std::size_t j = size;
 
-		while (i < j)
-			std::swap(bytes[i++], bytes[j--]);
+		while (i + 1 < j)
+			std::swap(bytes[i++], bytes[--j]);
 	}
 
 	/*!
-- 
2.43.0


From f710c76648547714a9cd1090cc01e105549152b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 39/73] fix: CountBits counted the extended sign of negative 8
 and 16 bits integers

---
 include/NazaraUtils/MathUtils.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 79c348c..130030f 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -346,7 +346,8 @@ namespace Nz
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(unsigned int));
-				return __builtin_popcount(static_cast<unsigned int>(value));
+				// Discards the bits added by the sign extension of narrower types
+				return __builtin_popcount(static_cast<unsigned int>(value) & (std::numeric_limits<unsigned int>::max() >> (BitCount<unsigned int> - BitCount<T>)));
 			}
 #endif
 		}
-- 
2.43.0


From ed54c8ef635daeb25bed4187c2326b3871e725df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 40/73] fix: FindLastBit found the extended sign of negative 8
 and 16 bits integers

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 130030f..869d1ec 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -467,7 +467,7 @@ NAZARA_WARNING_POP()
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(int));
-				return BitCount<unsigned int> - __builtin_clz(static_cast<unsigned int>(number));
+				return BitCount<unsigned int> - __builtin_clz(static_cast<unsigned int>(static_cast<std::make_unsigned_t<T>>(number)));
 			}
 #endif
 		}
-- 
2.43.0


From 085c3224e110af9c94505915f3dc06a85ff02e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 41/73] fix: Approach overflowed past the limits of integers
 and rejected narrow ones

---
 include/NazaraUtils/MathUtils.inl | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 869d1ec..86553a7 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -628,12 +628,32 @@ NAZARA_WARNING_POP()
 	template<typename T>
 	[[nodiscard]] constexpr T Approach(T value, T objective, T increment) noexcept
 	{
-		if (value < objective)
-			return std::min(value + increment, objective);
-		else if (value > objective)
-			return std::max(value - increment, objective);
+		if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
+		{
+			// The distance to the objective always fits the unsigned type, while value + increment could overflow
+			using UnsignedT = std::make_unsigned_t<T>;
+
+			if (value == objective)
+				return value;
+
+			bool forward = value < objective;
+			UnsignedT distance = (forward) ? static_cast<UnsignedT>(objective) - static_cast<UnsignedT>(value)
+			                               : static_cast<UnsignedT>(value) - static_cast<UnsignedT>(objective);
+
+			if (increment >= 0 && distance <= static_cast<UnsignedT>(increment))
+				return objective;
+
+			return static_cast<T>((forward) ? value + increment : value - increment);
+		}
 		else
-			return value;
+		{
+			if (value < objective)
+				return std::min(value + increment, objective);
+			else if (value > objective)
+				return std::max(value - increment, objective);
+			else
+				return value;
+		}
 	}
 
 	/*!
-- 
2.43.0


From be2b42796bcff0af1e03cebbccb257359d765781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:52 +0000
Subject: [PATCH 42/73] fix: NumberEquals was not a constant expression in
 C++17 when the second number is greater

---
 include/NazaraUtils/MathUtils.inl | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 86553a7..69c976e 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -115,30 +115,21 @@ namespace Nz
 			}
 			else
 			{
-				if (b > a)
-					std::swap(a, b);
-
-				T diff = a - b;
+				T diff = (b > a) ? b - a : a - b;
 				return diff <= maxDifference;
 			}
 		}
 
 		template<typename T> constexpr std::enable_if_t<!std::is_signed<T>::value || (!std::is_integral<T>::value && !std::is_floating_point<T>::value), bool> NumberEquals(T a, T b, T maxDifference)
 		{
-			if (b > a)
-				std::swap(a, b);
-
-			T diff = a - b;
+			T diff = (b > a) ? b - a : a - b;
 			return diff <= maxDifference;
 		}
 
 		template<typename T> constexpr std::enable_if_t<std::is_signed<T>::value&& std::is_integral<T>::value, bool> NumberEquals(T a, T b, T maxDifference)
 		{
-			if (b > a)
-				std::swap(a, b);
-
 			using UnsignedT = std::make_unsigned_t<T>;
-			return static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b) <= static_cast<UnsignedT>(maxDifference);
+			return ((b > a) ? static_cast<UnsignedT>(b) - static_cast<UnsignedT>(a) : static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b)) <= static_cast<UnsignedT>(maxDifference);
 		}
 	}
 
-- 
2.43.0


From 1a16ffbb666f43c952098eef9769576048b662e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:12 +0000
Subject: [PATCH 43/73] fix: Align overflowed near the limits of the type and
 disagreed with AlignPow2 on negative offsets

---
 include/NazaraUtils/MathUtils.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 69c976e..4c47703 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -585,7 +585,13 @@ NAZARA_WARNING_POP()
 	[[nodiscard]] constexpr T Align(T offset, T alignment) noexcept
 	{
 		NazaraAssert(alignment > 0);
-		return ((offset + alignment - 1) / alignment) * alignment;
+
+		// offset + alignment - 1 could overflow even if the aligned offset doesn't
+		T remainder = offset % alignment;
+		if (remainder == 0)
+			return offset;
+
+		return (remainder > 0) ? offset + (alignment - remainder) : offset - remainder;
 	}
 
 	/*!
-- 
2.43.0


From 2158f2f59d8f8adbf4be5b80109170e76b56c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 44/73] fix: AlignPow2 overflowed aligning an offset close to
 the greatest signed value

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 4c47703..94a296f 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -610,7 +610,7 @@ NAZARA_WARNING_POP()
 	{
 		NazaraAssert(alignment > 0);
 		NazaraAssert(IsPow2(alignment));
-		return (offset + alignment - 1) & ~(alignment - 1);
+		return (offset + (alignment - 1)) & ~(alignment - 1);
 	}
 
 	/*!
-- 
2.43.0


From 096a8643d72c66d57ddc2846912870d086f3fb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 45/73] fix: IsPow2 overflowed on the lowest signed value and
 held it for a power of two

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 94a296f..9c11550 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -819,7 +819,7 @@ NAZARA_WARNING_POP()
 	[[nodiscard]] constexpr bool IsPow2(T value) noexcept
 	{
 		NazaraAssert(value != 0);
-		return (value & (value - 1)) == 0;
+		return value > 0 && (value & (value - 1)) == 0;
 	}
 
 	/*!
-- 
2.43.0


From c6e32793f1b711498ad65264b363b5e08878be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 46/73] fix: IntegralLog2 of 64 bits integers whose upper half
 is one

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 9c11550..18f603d 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -71,7 +71,7 @@ namespace Nz
 
 				// Call of the function with 32 bits number, if the result is non-null we have our answer
 				unsigned int log2 = IntegralLog2<UInt32>(static_cast<UInt32>(val));
-				if (log2)
+				if (log2 || val == 1)
 					return log2 + i * 8;
 			}
 
-- 
2.43.0


From 1798c5e4dd88de07d4fc3c6dc555fb377821d160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 47/73] fix: NumberEquals held distant 8 and 16 bits integers
 of opposite signs for equal

---
 include/NazaraUtils/MathUtils.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 18f603d..e508b1d 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -129,7 +129,9 @@ namespace Nz
 		template<typename T> constexpr std::enable_if_t<std::is_signed<T>::value&& std::is_integral<T>::value, bool> NumberEquals(T a, T b, T maxDifference)
 		{
 			using UnsignedT = std::make_unsigned_t<T>;
-			return ((b > a) ? static_cast<UnsignedT>(b) - static_cast<UnsignedT>(a) : static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b)) <= static_cast<UnsignedT>(maxDifference);
+			// Integers narrower than int are promoted by the subtraction
+			UnsignedT diff = static_cast<UnsignedT>((b > a) ? static_cast<UnsignedT>(b) - static_cast<UnsignedT>(a) : static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b));
+			return diff <= static_cast<UnsignedT>(maxDifference);
 		}
 	}
 
-- 
2.43.0


From 02d164054d7a0afd29b7f109fb47d310b45ad3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 48/73] fix: Hash functors could not be used by unordered
 containers

---
 include/NazaraUtils/Hash.hpp | 8 ++++----
 include/NazaraUtils/Hash.inl | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/NazaraUtils/Hash.hpp b/include/NazaraUtils/Hash.hpp
index 20290e9..a9d01a2 100644
--- a/include/NazaraUtils/Hash.hpp
+++ b/include/NazaraUtils/Hash.hpp
@@ -18,7 +18,7 @@ namespace Nz
 	template<typename T>
 	struct HashFunctor
 	{
-		template<typename... Args> std::size_t operator()(Args&&... args);
+		template<typename... Args> std::size_t operator()(Args&&... args) const;
 	};
 
 	// Cyclic Redundancy Check (CRC) - 32bits
@@ -29,7 +29,7 @@ namespace Nz
 
 	struct CRC32Hash
 	{
-		template<typename... Args> UInt32 operator()(Args&&... args);
+		template<typename... Args> UInt32 operator()(Args&&... args) const;
 	};
 
 	// Fowler–Noll–Vo (FNV) 1a - 32bits
@@ -40,7 +40,7 @@ namespace Nz
 
 	struct FNV1a32Hash
 	{
-		template<typename... Args> UInt32 operator()(Args&&... args);
+		template<typename... Args> UInt32 operator()(Args&&... args) const;
 	};
 
 	// Fowler–Noll–Vo (FNV) 1a - 64bits
@@ -51,7 +51,7 @@ namespace Nz
 
 	struct FNV1a64Hash
 	{
-		template<typename... Args> UInt64 operator()(Args&&... args);
+		template<typename... Args> UInt64 operator()(Args&&... args) const;
 	};
 }
 
diff --git a/include/NazaraUtils/Hash.inl b/include/NazaraUtils/Hash.inl
index 5414680..a761901 100644
--- a/include/NazaraUtils/Hash.inl
+++ b/include/NazaraUtils/Hash.inl
@@ -91,7 +91,7 @@ NAZARA_WARNING_POP()
 
 	template<typename T>
 	template<typename... Args>
-	std::size_t HashFunctor<T>::operator()(Args&&... args)
+	std::size_t HashFunctor<T>::operator()(Args&&... args) const
 	{
 		return static_cast<std::size_t>(T{}(std::forward<Args>(args)...));
 	}
@@ -135,7 +135,7 @@ NAZARA_WARNING_POP()
 	}
 
 	template<typename... Args>
-	UInt32 CRC32Hash::operator()(Args&&... args)
+	UInt32 CRC32Hash::operator()(Args&&... args) const
 	{
 		return CRC32(std::forward<Args>(args)...);
 	}
@@ -187,7 +187,7 @@ NAZARA_WARNING_POP()
 	}
 
 	template<typename... Args>
-	UInt32 FNV1a32Hash::operator()(Args&&... args)
+	UInt32 FNV1a32Hash::operator()(Args&&... args) const
 	{
 		return FNV1a32(std::forward<Args>(args)...);
 	}
@@ -239,7 +239,7 @@ NAZARA_WARNING_POP()
 	}
 
 	template<typename... Args>
-	UInt64 FNV1a64Hash::operator()(Args&&... args)
+	UInt64 FNV1a64Hash::operator()(Args&&... args) const
 	{
 		return FNV1a64(std::forward<Args>(args)...);
 	}
-- 
2.43.0


From 910272ee5f5652e55061254a8c8fc31a8249bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 49/73] fix: FNV1a of strings extended the sign of bytes above
 0x7F

---
 include/NazaraUtils/Hash.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Hash.inl b/include/NazaraUtils/Hash.inl
index a761901..9ba5ef2 100644
--- a/include/NazaraUtils/Hash.inl
+++ b/include/NazaraUtils/Hash.inl
@@ -147,7 +147,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= UInt8(str[i]);
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -160,7 +160,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= UInt8(str[i]);
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -199,7 +199,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= UInt8(str[i]);
 			hash *= Detail::FNV1Prime_64;
 		}
 
@@ -212,7 +212,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= UInt8(str[i]);
 			hash *= Detail::FNV1Prime_64;
 		}
 
-- 
2.43.0


From 6ecb96c1ebc83403d031b88f9f24a62586cfd52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 50/73] fix: SafeCast checked nothing when its argument was not
 a temporary

---
 include/NazaraUtils/Algorithm.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 7430b47..6ba3211 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -194,10 +194,12 @@ namespace Nz
 NAZARA_WARNING_PUSH()
 NAZARA_WARNING_MSVC_DISABLE(4702)
 
-	template<typename To, typename From>
-	[[nodiscard]] NAZARA_CONSTEXPR20 To SafeCast(From&& value) noexcept
+	template<typename To, typename FromRef>
+	[[nodiscard]] NAZARA_CONSTEXPR20 To SafeCast(FromRef&& value) noexcept
 	{
 #if defined(NAZARA_DEBUG) && !defined(NDEBUG)
+		// FromRef is a reference when value is not a temporary
+		using From = std::remove_cv_t<std::remove_reference_t<FromRef>>;
 
 		if constexpr (std::is_integral_v<To>)
 		{
-- 
2.43.0


From d23901f6adb1326e180ca1e6ac4324d765d8d36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 51/73] fix: SafeCast did not check the upper bound from signed
 to narrower unsigned integers

---
 include/NazaraUtils/Algorithm.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 6ba3211..58ba131 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -216,7 +216,7 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			else if constexpr (std::is_integral_v<From>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
+				using MaxValueType = std::conditional_t<(std::numeric_limits<From>::digits > std::numeric_limits<To>::digits), From, To>;
 				// Type capable of storing the smallest value between the two types
 				using MinValueType = std::conditional_t<((std::is_signed_v<From> && !std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
 
-- 
2.43.0


From 1717f43d27058858cdf5b6031efc96e2b2f83b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 52/73] fix: SafeCast from floating-point to integers checked
 rounded bounds through long long

---
 include/NazaraUtils/Algorithm.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 58ba131..a9be392 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -209,9 +209,10 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			}
 			else if constexpr (std::is_floating_point_v<From>)
 			{
-				NazaraAssert(static_cast<long long>(value) == value);
-				NazaraAssert(value <= static_cast<From>(std::numeric_limits<To>::max()));
+				// max() may not be representable in floating-point but max() + 1 is a power of two
+				NazaraAssert(value < static_cast<From>(std::numeric_limits<To>::max() / 2 + 1) * From(2));
 				NazaraAssert(value >= static_cast<From>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(static_cast<From>(static_cast<To>(value)) == value);
 			}
 			else if constexpr (std::is_integral_v<From>)
 			{
-- 
2.43.0


From ed75f0743dc2d7910613d6800b29e0a38b9d624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 53/73] fix: SafeCast never checked downcasts of polymorphic
 classes

---
 include/NazaraUtils/Algorithm.inl | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index a9be392..07952d8 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -247,29 +247,29 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		}
 		else if constexpr (std::is_reference_v<To>)
 		{
-			if constexpr (std::is_reference_v<From>)
-			{
-				using BaseFromType = std::remove_reference_t<std::remove_cv_t<From>>;
-				using BaseToType = std::remove_reference_t<std::remove_cv_t<To>>;
+#ifdef __cpp_rtti
+			using BaseToType = std::remove_cv_t<std::remove_reference_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
-				{
-					using ToPtr = std::add_pointer_t<std::remove_reference_t<To>>;
-					NazaraAssert(dynamic_cast<ToPtr>(&value) != nullptr);
-				}
+			if constexpr (!std::is_same_v<From, BaseToType> && std::is_base_of_v<From, BaseToType> && std::is_polymorphic_v<From>)
+			{
+				using ToPtr = std::add_pointer_t<std::remove_reference_t<To>>;
+				NazaraAssert(dynamic_cast<ToPtr>(std::addressof(value)) != nullptr);
 			}
+#endif
 		}
 		else if constexpr (std::is_pointer_v<To>)
 		{
 			if constexpr (std::is_pointer_v<From>)
 			{
-				using BaseFromType = std::remove_pointer_t<std::remove_cv_t<From>>;
-				using BaseToType = std::remove_pointer_t<std::remove_cv_t<To>>;
+#ifdef __cpp_rtti
+				using BaseFromType = std::remove_cv_t<std::remove_pointer_t<From>>;
+				using BaseToType = std::remove_cv_t<std::remove_pointer_t<std::remove_cv_t<To>>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<BaseFromType, BaseToType> && std::is_polymorphic_v<BaseFromType>)
 				{
 					NazaraAssert(!value || dynamic_cast<To>(value) != nullptr);
 				}
+#endif
 			}
 		}
 
-- 
2.43.0


From cd08d50d3146be432d2beee7a8c3740db40aaa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 54/73] fix: TypeListApply moved its rvalue arguments into the
 first functor

---
 include/NazaraUtils/TypeList.inl | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/TypeList.inl b/include/NazaraUtils/TypeList.inl
index f803f29..3cbce6a 100644
--- a/include/NazaraUtils/TypeList.inl
+++ b/include/NazaraUtils/TypeList.inl
@@ -22,9 +22,18 @@ namespace Nz
 			template<typename... Args>
 			static void Apply(Args&&... args)
 			{
-				Functor<T>()(std::forward<Args>(args)...);
 				if constexpr (sizeof...(ListTypes) > 0)
+				{
+					// the arguments are still needed by the next functors, don't let this one move from them unless it only accepts rvalues
+					if constexpr (std::is_invocable_v<Functor<T>, Args&...>)
+						Functor<T>()(args...);
+					else
+						Functor<T>()(std::forward<Args>(args)...);
+
 					ListApply<TypeList<ListTypes...>, Functor>::Apply(std::forward<Args>(args)...);
+				}
+				else
+					Functor<T>()(std::forward<Args>(args)...);
 			}
 		};
 
-- 
2.43.0


From 55a349c71a8e0628e3542864c83a96d31fa6bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 55/73] fix: FunctionRef built from nullptr left its callback
 uninitialized, then copied it

---
 include/NazaraUtils/FunctionRef.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index 13bdb6f..de6c300 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -10,6 +10,7 @@ namespace Nz
 {
 	template<typename Ret, typename ...Args>
 	FunctionRef<Ret(Args...)>::FunctionRef(std::nullptr_t) noexcept :
+	m_callback(nullptr),
 	m_functor(nullptr)
 	{
 	}
-- 
2.43.0


From 6b3d847ee7c501595aac1998b3dc339ee148ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 56/73] fix: FunctionRef could not reference a constant
 callable

---
 include/NazaraUtils/FunctionRef.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index de6c300..863c285 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -19,7 +19,7 @@ namespace Nz
 	template<typename F, typename>
 	FunctionRef<Ret(Args...)>::FunctionRef(F&& f) noexcept
 	{
-		m_functor = reinterpret_cast<void*>(std::addressof(f));
+		m_functor = const_cast<void*>(reinterpret_cast<const volatile void*>(std::addressof(f)));
 		m_callback = [](void* functor, Args... args) -> Ret
 		{
 			return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
-- 
2.43.0


From 24cf43f5470870ff2af0ce75ee213056d9e12cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 57/73] fix: FunctionRef returning void could not reference a
 callable returning a value

---
 include/NazaraUtils/FunctionRef.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index 863c285..69ada34 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -22,7 +22,10 @@ namespace Nz
 		m_functor = const_cast<void*>(reinterpret_cast<const volatile void*>(std::addressof(f)));
 		m_callback = [](void* functor, Args... args) -> Ret
 		{
-			return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+			if constexpr (std::is_void_v<Ret>)
+				std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+			else
+				return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
 		};
 	}
 	
-- 
2.43.0


From 0742a30a21955f52fca019f211adb4db1f91d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 58/73] fix: OffsetOf.hpp could not be included alone

---
 include/NazaraUtils/OffsetOf.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/OffsetOf.hpp b/include/NazaraUtils/OffsetOf.hpp
index a65aa4c..22abc11 100644
--- a/include/NazaraUtils/OffsetOf.hpp
+++ b/include/NazaraUtils/OffsetOf.hpp
@@ -7,6 +7,8 @@
 #ifndef NAZARAUTILS_OFFSETOF_HPP
 #define NAZARAUTILS_OFFSETOF_HPP
 
+#include <cstddef>
+
 // By "Jesse Good" from SO:
 // http://stackoverflow.com/questions/12811330/c-compile-time-offsetof-inside-a-template?answertab=votes#tab-top
 
-- 
2.43.0


From 35e5b763c572204c58c75dcca92433b08783da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 59/73] fix: NazaraOffsetOf was wrong for members of a second
 base class and rejected array members

---
 include/NazaraUtils/OffsetOf.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/OffsetOf.hpp b/include/NazaraUtils/OffsetOf.hpp
index 22abc11..919c264 100644
--- a/include/NazaraUtils/OffsetOf.hpp
+++ b/include/NazaraUtils/OffsetOf.hpp
@@ -16,17 +16,15 @@ namespace Nz
 {
 	namespace Detail
 	{
-		template <typename T, typename M> T GetClassType(M T::*);
-		template <typename T, typename M> M GetMemberType(M T::*);
-
-		template <typename T, typename R, R T::*M>
+		template <typename T, auto M>
 		constexpr std::size_t OffsetOf()
 		{
-			return reinterpret_cast<std::size_t>(&((static_cast<T*>(0))->*M));
+			// not a null pointer, which a conversion to a base class would leave null
+			return reinterpret_cast<std::size_t>(&(reinterpret_cast<T*>(alignof(T))->*M)) - alignof(T);
 		}
 	}
 }
 
-#define NazaraOffsetOf(type, member) Nz::Detail::OffsetOf<decltype(Nz::Detail::GetClassType(&type::member)), decltype(Nz::Detail::GetMemberType(&type::member)), &type::member>()
+#define NazaraOffsetOf(type, member) Nz::Detail::OffsetOf<type, &type::member>()
 
 #endif // NAZARAUTILS_OFFSETOF_HPP
-- 
2.43.0


From be16f3fd0d214f78e93a8b465ef9ea703eace51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 60/73] fix: Constants.hpp could not be included alone in C++17

---
 include/NazaraUtils/Constants.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/Constants.hpp b/include/NazaraUtils/Constants.hpp
index 51f71b3..c03d517 100644
--- a/include/NazaraUtils/Constants.hpp
+++ b/include/NazaraUtils/Constants.hpp
@@ -10,7 +10,9 @@
 #include <NazaraUtils/Prerequisites.hpp>
 #include <NazaraUtils/Concepts.hpp>
 #include <climits>
+#include <cstddef>
 #include <limits>
+#include <type_traits>
 
 namespace Nz
 {
-- 
2.43.0


From fceebf9ff379a0327961584f2f8cd94c51478600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 61/73] fix: CountOf of a constant char array was declared but
 never defined

---
 include/NazaraUtils/Algorithm.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/NazaraUtils/Algorithm.hpp b/include/NazaraUtils/Algorithm.hpp
index a6f04a9..8d54ebc 100644
--- a/include/NazaraUtils/Algorithm.hpp
+++ b/include/NazaraUtils/Algorithm.hpp
@@ -40,7 +40,6 @@ namespace Nz
 	template<typename To, typename From> [[nodiscard]] NAZARA_CONSTEXPR_BITCAST To BitCast(const From& value) noexcept;
 	template<typename T, std::size_t N> [[nodiscard]] constexpr std::size_t CountOf(T(&name)[N]) noexcept;
 	template<typename T> [[nodiscard]] constexpr std::size_t CountOf(const T& c) noexcept;
-	template<std::size_t N> [[nodiscard]] constexpr std::size_t CountOf(const char(&str)[N]) noexcept;
 	template<typename P, typename T> [[nodiscard]] NAZARA_CONSTEXPR_BITCAST P IntegerToPointer(T ptrAsInt) noexcept;
 	template<typename T, typename P> [[nodiscard]] NAZARA_CONSTEXPR_BITCAST T PointerToInteger(P* ptr) noexcept;
 	template<typename M, typename T> [[nodiscard]] NAZARA_CONSTEXPR20 auto& Retrieve(M& map, const T& key) noexcept;
-- 
2.43.0


From f4993e6d1d5d3a673404b74a8d0f3efd1336ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 62/73] fix: keep the precision of long double constants

The literals were of type double, so Pi<long double>() and its siblings were rounded to 53 bits.
---
 include/NazaraUtils/Constants.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/Constants.hpp b/include/NazaraUtils/Constants.hpp
index c03d517..24c0551 100644
--- a/include/NazaraUtils/Constants.hpp
+++ b/include/NazaraUtils/Constants.hpp
@@ -49,37 +49,37 @@ namespace Nz
 		static constexpr T HalfPi()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.5707963267948966192313216916398);
+			return T(1.5707963267948966192313216916398L);
 		}
 
 		static constexpr T Pi()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(3.1415926535897932384626433832795);
+			return T(3.1415926535897932384626433832795L);
 		}
 
 		static constexpr T Sqrt2()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.4142135623730950488016887242097);
+			return T(1.4142135623730950488016887242097L);
 		}
 
 		static constexpr T Sqrt3()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.7320508075688772935274463415059);
+			return T(1.7320508075688772935274463415059L);
 		}
 
 		static constexpr T Sqrt5()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(2.2360679774997896964091736687313);
+			return T(2.2360679774997896964091736687313L);
 		}
 
 		static constexpr T Tau()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(6.2831853071795864769252867665590);
+			return T(6.2831853071795864769252867665590L);
 		}
 	};
 
-- 
2.43.0


From 983ecf8ca17390e022495069a7d61daa3b7187cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 63/73] fix: compute Mod exactly in constant evaluation

The quotient was rounded and converted to long long: Mod(1.0, 0.1) gave 0 in a
constant expression and 0.0999... at run time, and large quotients did not compile.
---
 include/NazaraUtils/MathUtils.inl | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index e508b1d..5669803 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -852,7 +852,25 @@ NAZARA_WARNING_POP()
 			}
 			else
 			{
-				return x - static_cast<long long>(x / y) * y;
+				// std::fmod isn't constexpr, subtract y times decreasing powers of two (which is always exact)
+				T remainder = (x < T(0)) ? -x : x;
+				T divisor = (y < T(0)) ? -y : y;
+				if (!(remainder <= std::numeric_limits<T>::max()) || !(divisor > T(0)))
+					return std::numeric_limits<T>::quiet_NaN(); // x is infinite, y is zero or one of them is NaN
+
+				T multiple = divisor;
+				while (multiple <= remainder / T(2))
+					multiple *= T(2);
+
+				while (remainder >= divisor)
+				{
+					if (remainder >= multiple)
+						remainder -= multiple;
+
+					multiple /= T(2);
+				}
+
+				return (x < T(0)) ? -remainder : remainder;
 			}
 		}
 		else
-- 
2.43.0


From c48e03276fafb1012095a49e9a998eaef4554d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 64/73] fix: TypeName of types with a long name included the
 end of the function signature

---
 include/NazaraUtils/TypeName.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/TypeName.inl b/include/NazaraUtils/TypeName.inl
index 5081c25..aa2dcb6 100644
--- a/include/NazaraUtils/TypeName.inl
+++ b/include/NazaraUtils/TypeName.inl
@@ -12,16 +12,17 @@ constexpr std::string_view NzDetailTypeName()
 
 #ifdef NAZARA_COMPILER_MSVC
 	constexpr std::string_view prefix = "NzDetailTypeName<"sv;
-	constexpr std::string_view suffixes = ">"sv;
+	constexpr std::size_t e = prettyFuncName.rfind('>');
 #else
 	constexpr std::string_view prefix = "T = "sv;
-	constexpr std::string_view suffixes = ";]"sv;
+	// GCC may list what std::string_view is after T
+	constexpr std::size_t alias = prettyFuncName.rfind("; std::string_view = "sv);
+	constexpr std::size_t e = (alias != prettyFuncName.npos) ? alias : prettyFuncName.rfind(']');
 #endif
 
 	constexpr std::size_t b = prettyFuncName.find(prefix);
 	static_assert(b != prettyFuncName.npos);
 
-	constexpr std::size_t e = prettyFuncName.substr(b).find_last_of(suffixes, b) + b;
 	static_assert(e != prettyFuncName.npos);
 
 	std::size_t p = b + prefix.size();
-- 
2.43.0


From 9296a8ac7744e674067d7437cecca4889e702efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 65/73] fix: FunctionTraits did not accept noexcept function
 types

---
 include/NazaraUtils/FunctionTraits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/FunctionTraits.hpp b/include/NazaraUtils/FunctionTraits.hpp
index e5402ec..367c39f 100644
--- a/include/NazaraUtils/FunctionTraits.hpp
+++ b/include/NazaraUtils/FunctionTraits.hpp
@@ -39,6 +39,9 @@ namespace Nz
 		using ArgType = typename Arg<I>::type;
 	};
 
+	template<typename Ret, typename... Args>
+	struct FunctionTraits<Ret(Args...) noexcept> : FunctionTraits<Ret(Args...)> {};
+
 	template<typename Ret, typename... Args>
 	struct FunctionTraits<Ret(*)(Args...)> : FunctionTraits<Ret(Args...)> {};
 
-- 
2.43.0


From 0a92be6d016857cb6b4c769bce5f87ac5256d645 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 66/73] fix: PrivateImpl with a buffer lost its object when
 copying into it threw

---
 include/NazaraUtils/PrivateImpl.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 31be9b9..84cc23b 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -6,6 +6,8 @@
 #include <NazaraUtils/MemoryHelper.hpp>
 #include <NazaraUtils/TypeTraits.hpp>
 #include <new>
+#include <type_traits>
+#include <utility>
 
 namespace Nz
 {
@@ -91,10 +93,13 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(const PrivateImpl& pimpl) -> PrivateImpl&
 	{
-		if (this != &pimpl)
+		if constexpr (std::is_copy_assignable_v<T>)
+			*Get() = *pimpl.Get();
+		else if (this != &pimpl)
 		{
+			T copy(*pimpl.Get()); //< if this throws, the current object is kept
 			PlacementDestroy(Get());
-			PlacementNew(Get(), *pimpl.Get());
+			PlacementNew(Get(), std::move(copy));
 		}
 
 		return *this;
-- 
2.43.0


From f67011e0144d988d3c1debc67261462255dc705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 67/73] fix: NazaraAssert swallowed the else of the if
 statement it was the branch of

---
 include/NazaraUtils/Assert.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Assert.hpp b/include/NazaraUtils/Assert.hpp
index 23c3a10..f788308 100644
--- a/include/NazaraUtils/Assert.hpp
+++ b/include/NazaraUtils/Assert.hpp
@@ -11,8 +11,8 @@
 #include <NazaraUtils/ConstantEvaluated.hpp>
 
 #if !defined(NAZARA_NO_ASSERT) && (defined(NAZARA_ENABLE_ASSERTS) || !defined(NDEBUG))
-	#define NazaraAssert(cond) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond)
-	#define NazaraAssertMsg(cond, ...) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__)
+	#define NazaraAssert(cond) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond); } while (false)
+	#define NazaraAssertMsg(cond, ...) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__); } while (false)
 #else
 	#define NazaraAssert(...) do {} while (false)
 	#define NazaraAssertMsg(...) do {} while (false)
-- 
2.43.0


From d9e4318a1a0adee4f470794ce3e34dfaf7dc20a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 68/73] fix: Result::Map was noexcept although building its
 result may throw

---
 include/NazaraUtils/Result.hpp | 8 ++++----
 include/NazaraUtils/Result.inl | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/NazaraUtils/Result.hpp b/include/NazaraUtils/Result.hpp
index 44b14f8..17cf843 100644
--- a/include/NazaraUtils/Result.hpp
+++ b/include/NazaraUtils/Result.hpp
@@ -92,8 +92,8 @@ namespace Nz
 			constexpr bool IsErr() const noexcept;
 			constexpr bool IsOk() const noexcept;
 
-			template<typename F> Result<std::invoke_result_t<F, const V&>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&>);
-			template<typename F> Result<std::invoke_result_t<F, V&&>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&>);
+			template<typename F> Result<std::invoke_result_t<F, const V&>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&> && std::is_nothrow_copy_constructible_v<E> && (std::is_void_v<std::invoke_result_t<F, const V&>> || std::is_nothrow_move_constructible_v<std::invoke_result_t<F, const V&>>));
+			template<typename F> Result<std::invoke_result_t<F, V&&>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&> && std::is_nothrow_move_constructible_v<E> && (std::is_void_v<std::invoke_result_t<F, V&&>> || std::is_nothrow_move_constructible_v<std::invoke_result_t<F, V&&>>));
 
 			constexpr explicit operator bool() const noexcept;
 
@@ -146,8 +146,8 @@ namespace Nz
 			constexpr bool IsErr() const noexcept;
 			constexpr bool IsOk() const noexcept;
 
-			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F>);
-			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F>);
+			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F> && std::is_nothrow_copy_constructible_v<E> && (std::is_void_v<std::invoke_result_t<F>> || std::is_nothrow_move_constructible_v<std::invoke_result_t<F>>));
+			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F> && std::is_nothrow_move_constructible_v<E> && (std::is_void_v<std::invoke_result_t<F>> || std::is_nothrow_move_constructible_v<std::invoke_result_t<F>>));
 
 			constexpr explicit operator bool() const noexcept;
 
diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 1558b21..f2fc012 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -179,7 +179,7 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F, const V&>, E> Result<V, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&>)
+	constexpr Result<std::invoke_result_t<F, const V&>, E> Result<V, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&> && std::is_nothrow_copy_constructible_v<E> && (std::is_void_v<std::invoke_result_t<F, const V&>> || std::is_nothrow_move_constructible_v<std::invoke_result_t<F, const V&>>))
 	{
 		using MappedVal = std::invoke_result_t<F, const V&>;
 		using MappedResult = Result<MappedVal, E>;
@@ -200,7 +200,7 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F, V&&>, E> Result<V, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&>)
+	constexpr Result<std::invoke_result_t<F, V&&>, E> Result<V, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&> && std::is_nothrow_move_constructible_v<E> && (std::is_void_v<std::invoke_result_t<F, V&&>> || std::is_nothrow_move_constructible_v<std::invoke_result_t<F, V&&>>))
 	{
 		using MappedVal = std::invoke_result_t<F, V&&>;
 		using MappedResult = Result<MappedVal, E>;
@@ -359,7 +359,7 @@ namespace Nz
 	
 	template<typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F>)
+	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F> && std::is_nothrow_copy_constructible_v<E> && (std::is_void_v<std::invoke_result_t<F>> || std::is_nothrow_move_constructible_v<std::invoke_result_t<F>>))
 	{
 		using MappedVal = std::invoke_result_t<F>;
 		using MappedResult = Result<MappedVal, E>;
@@ -380,7 +380,7 @@ namespace Nz
 
 	template<typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F>)
+	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F> && std::is_nothrow_move_constructible_v<E> && (std::is_void_v<std::invoke_result_t<F>> || std::is_nothrow_move_constructible_v<std::invoke_result_t<F>>))
 	{
 		using MappedVal = std::invoke_result_t<F>;
 		using MappedResult = Result<MappedVal, E>;
-- 
2.43.0


From d26ca7df811b0174be150a2a333e124d075f7dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:20 +0000
Subject: [PATCH 69/73] fix: MemoryPool kept a broken block when allocating its
 memory threw

---
 include/NazaraUtils/MemoryPool.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 34efec6..552d064 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -380,10 +380,12 @@ namespace Nz
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-		auto& block = m_blocks.emplace_back();
+		Block block;
 		block.freeEntries.Resize(m_blockSize, true);
 		block.occupiedEntries.Resize(m_blockSize, false);
 		block.memory = std::make_unique<AlignedStorage[]>(m_blockSize);
+
+		m_blocks.push_back(std::move(block));
 	}
 
 	template<typename T, std::size_t Alignment>
-- 
2.43.0


From b3a88d1f9e43ab010630fefd8394225c8d943096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:20 +0000
Subject: [PATCH 70/73] fix: Bitset AppendBits changed the bit count when
 growing the storage threw

---
 include/NazaraUtils/Bitset.inl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 7b9aecf..ebe8fb4 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -156,6 +156,10 @@ namespace Nz
 	constexpr void Bitset<Block, Container>::AppendBits(T bits, std::size_t bitCount)
 	{
 		std::size_t bitShift = m_bitCount % bitsPerBlock;
+		std::size_t nextBlock = m_blocks.size();
+
+		// Allocate before changing anything
+		m_blocks.resize(ComputeBlockCount(m_bitCount + bitCount), Block(0U));
 		m_bitCount += bitCount;
 
 		// Mask out the bits we don't want
@@ -165,7 +169,7 @@ namespace Nz
 		if (bitShift != 0)
 		{
 			std::size_t remainingBits = bitsPerBlock - bitShift;
-			m_blocks.back() |= Block(bits) << bitShift;
+			m_blocks[nextBlock - 1] |= Block(bits) << bitShift;
 			bits = (remainingBits < BitCount<T>) ? bits >> remainingBits : T(0);
 
 			bitCount -= std::min(remainingBits, bitCount);
@@ -176,7 +180,7 @@ namespace Nz
 			std::size_t blockCount = ComputeBlockCount(bitCount);
 			for (std::size_t block = 0; block < blockCount - 1; ++block)
 			{
-				m_blocks.push_back(static_cast<Block>(bits));
+				m_blocks[nextBlock++] = static_cast<Block>(bits);
 
 				if constexpr (bitsPerBlock < BitCount<T>)
 					bits >>= bitsPerBlock;
@@ -187,7 +191,7 @@ namespace Nz
 			}
 
 			// Unwanted bits have already been masked out
-			m_blocks.push_back(static_cast<Block>(bits));
+			m_blocks[nextBlock] = static_cast<Block>(bits);
 		}
 	}
 
-- 
2.43.0


From db603666ecbe4c0c5b539f692d06268967ad4545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 71/73] fix: FixedVector push_back was noexcept although
 growing the fallback may throw

---
 include/NazaraUtils/FixedVector.hpp | 4 ++--
 include/NazaraUtils/FixedVector.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index 79d416a..f4b3cec 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -94,8 +94,8 @@ namespace Nz
 
 			constexpr size_type max_size() const noexcept;
 
-			constexpr reference push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value);
-			constexpr reference push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value);
+			constexpr reference push_back(const T& value) noexcept(!Base::HasFallback && std::is_nothrow_copy_constructible<T>::value);
+			constexpr reference push_back(T&& value) noexcept(!Base::HasFallback && std::is_nothrow_move_constructible<T>::value);
 
 			constexpr void pop_back();
 
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index a52f175..e321e13 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -538,13 +538,13 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value) -> reference
+	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(!Base::HasFallback && std::is_nothrow_copy_constructible<T>::value) -> reference
 	{
 		return emplace_back(value);
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value) -> reference
+	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(!Base::HasFallback && std::is_nothrow_move_constructible<T>::value) -> reference
 	{
 		return emplace_back(std::move(value));
 	}
-- 
2.43.0


From 8bf3c7576d3158880dd0aeb9de940bff5774725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 72/73] fix: FixedVector move assignment could throw when
 leaving the fallback although noexcept

---
 include/NazaraUtils/FixedVector.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index e321e13..cda9312 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -744,6 +744,10 @@ namespace Nz
 				m_size = vec.m_size;
 				return *this;
 			}
+
+			// Moved elements are stored inplace, as growing the (now empty) fallback could throw
+			if (IsUsingFallback())
+				m_size = 0;
 		}
 
 		clear();
-- 
2.43.0


From bae287d4efa17fd5997ae9970ae831e7ae3c341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 73/73] fix: FixedVector copy assignment lost the elements when
 allocating threw

---
 include/NazaraUtils/FixedVector.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index cda9312..dc3b248 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -711,13 +711,18 @@ namespace Nz
 		{
 			if (vec.IsUsingFallback())
 			{
+				// If this throws, elements stored inplace remain
+				Base::operator=(vec);
 				if (!IsUsingFallback())
 					clear();
 
-				Base::operator=(vec);
 				m_size = vec.m_size;
 				return *this;
 			}
+
+			// Allocate before destroying anything
+			if (IsUsingFallback())
+				Base::ReserveFallback(vec.size());
 		}
 
 		clear();
-- 
2.43.0

