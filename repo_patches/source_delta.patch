From d2db9ae95d036cb1c25fedb5a96eab35c45dbb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 001/115] fix: Entry::insertBefore leaves the back link of the
 following entry unset

---
 lib/include/spvgentwo/Entry.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Entry.h b/lib/include/spvgentwo/Entry.h
index eed12eb..6d8f75f 100644
--- a/lib/include/spvgentwo/Entry.h
+++ b/lib/include/spvgentwo/Entry.h
@@ -167,7 +167,8 @@ namespace spvgentwo
 
 		entry->m_pPrev = m_pPrev;
 		entry->m_pNext = this;
-		
+		m_pPrev = entry;
+
 		return entry;
 	}
 
-- 
2.43.0


From 81f141236419f0aa8d5dd60f55644b51d863f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 002/115] fix: List copy assignment of a shorter list keeps
 pointers to destroyed entries

---
 lib/include/spvgentwo/List.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index a8339bf..0022ca1 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -182,9 +182,9 @@ namespace spvgentwo
 		}
 
 		// left side was longer, destroy rest
-		if(l != le)
+		while (l != le)
 		{
-			l.entry()->destroyList(m_pAllocator);
+			l = erase(l);
 		}
 
 		// right side was longer, emplace
-- 
2.43.0


From c37b8852e8df21cd07e2aba5d0c90b38e69da1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 003/115] fix: Vector::resize sets the size to the capacity
 instead of the requested size

---
 lib/include/spvgentwo/Vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index d09c989..036c593 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -263,7 +263,7 @@ namespace spvgentwo
 	template<class U>
 	inline bool Vector<U>::resize(sgt_size_t _size, const T* _pInitValue)
 	{
-		if ( _size > m_capacity )
+		if ( _size > m_elements ) // grow
 		{
 			if ( reserve(_size) == false )
 			{
@@ -272,14 +272,14 @@ namespace spvgentwo
 
 			if ( _pInitValue == nullptr || stdrep::is_copy_constructible_v<T> == false )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{};
 				}
 			}
 			else if constexpr ( stdrep::is_copy_constructible_v<T> )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{ *_pInitValue };
 				}
@@ -294,7 +294,7 @@ namespace spvgentwo
 			}
 		}
 
-		m_elements = m_capacity;
+		m_elements = _size;
 
 		return true;
 	}
-- 
2.43.0


From e60278322e35f7de40d53152056c9c22d73dcddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 004/115] fix: Vector::insert and assign lose, duplicate or
 leak elements

---
 lib/include/spvgentwo/Vector.h | 50 ++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 036c593..9bbc5d0 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -314,7 +314,12 @@ namespace spvgentwo
 	template<class U>
 	inline void Vector<U>::assign(const T& _data, sgt_size_t _pos, sgt_size_t _count)
 	{
-		if ( _pos + _count > m_elements )
+		if ( _pos >= m_elements )
+		{
+			return;
+		}
+
+		if ( _count > m_elements - _pos )
 		{
 			_count = m_elements - _pos;
 		}
@@ -344,19 +349,33 @@ namespace spvgentwo
 		{
 			auto remainder = m_elements - _pos;
 
-			// move-construct last remainder elements to reserved but un-initialized data at the end
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
+			// shift the remainder back by _count (last element first), everything past m_elements is un-initialized
+			for ( sgt_size_t i = _count == 0u ? 0u : remainder; i > 0u; --i )
 			{
-				traits::constructWithArgs(m_pData + _pos + _count + i, stdrep::move(m_pData[_pos + i]));
-			}
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
-			{
-				m_pData[_pos + i] = _pData[i];
+				const auto src = _pos + i - 1u;
+				const auto dst = src + _count;
+
+				if ( dst < m_elements )
+				{
+					m_pData[dst] = stdrep::move(m_pData[src]);
+				}
+				else
+				{
+					traits::constructWithArgs(m_pData + dst, stdrep::move(m_pData[src]));
+				}
 			}
-			auto rest = _count - remainder;
-			for ( sgt_size_t i = 0u; i < rest; ++i )
+			for ( sgt_size_t i = 0u; i < _count; ++i )
 			{
-				traits::constructWithArgs(m_pData + m_elements + i, stdrep::move(_pData[remainder + i]));
+				const auto dst = _pos + i;
+
+				if ( dst < m_elements )
+				{
+					m_pData[dst] = _pData[i];
+				}
+				else
+				{
+					traits::constructWithArgs(m_pData + dst, _pData[i]);
+				}
 			}
 
 			m_elements += _count;
@@ -366,6 +385,11 @@ namespace spvgentwo
 			const auto newSize = m_elements + _count;
 			const auto newCapacity = newSize + (newSize >> 2); // grow by 1.25
 
+			if ( m_pAllocator == nullptr )
+			{
+				return nullptr;
+			}
+
 			T* pNewData = static_cast<T*>(m_pAllocator->allocate(newCapacity * sizeof(T), alignof(T)));
 
 			if ( pNewData == nullptr )
@@ -392,6 +416,10 @@ namespace spvgentwo
 
 			if ( m_pData != nullptr )
 			{
+				for ( sgt_size_t i = 0u; i < m_elements; ++i )
+				{
+					m_pData[i].~T();
+				}
 				m_pAllocator->deallocate(m_pData, m_capacity * sizeof(T));
 			}
 
-- 
2.43.0


From 28790574139fdd09fee5f6c8655e2b4ca29ddbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 005/115] fix: HashMap::getRange spans foreign keys, eraseRange
 does not update the element count, findKey does not compile

---
 lib/include/spvgentwo/HashMap.h | 38 +++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index d29619f..c9b39b8 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -261,6 +261,7 @@ namespace spvgentwo
 			if (it->hash == h)
 			{
 				it = bucket.erase(it);
+				--m_Elements;
 				++keys;
 			}
 			else 
@@ -323,14 +324,11 @@ namespace spvgentwo
 	{
 		for (auto i = 0u; i < m_Buckets; ++i)
 		{
-			for (Bucket& b : m_pBuckets[i])
+			for (Node& n : m_pBuckets[i])
 			{
-				for (Node& n : b)
+				if (n.kv.value == _value)
 				{
-					if (n.kv.value == _value)
-					{
-						return &n.kv.key;
-					}
+					return &n.kv.key;
 				}
 			}
 		}
@@ -350,23 +348,35 @@ namespace spvgentwo
 	template<class ...Args>
 	inline typename HashMap<Key, Value>::Node& HashMap<Key, Value>::emplace(const Key& _key, Args&& ..._args)
 	{
-		Entry<Node>* pNode = Entry<Node>::create(m_pAllocator, _key, stdrep::forward<Args>(_args)...);
-
-		Node& n = pNode->inner();
+		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
 		{
-			n.hash = _key;
+			h = _key;
 		}
 		else
 		{
-			n.hash = m_pHashFunc(_key);
+			h = m_pHashFunc(_key);
 		}
 
-		const auto index = n.hash % m_Buckets;
+		Bucket& bucket = m_pBuckets[h % m_Buckets];
 
-		// append to chain
-		m_pBuckets[index].append_entry(pNode);
+		// nodes with the same hash stay adjacent, getRange() depends on it
+		auto pos = bucket.end();
+		for (auto it = bucket.begin(); it != bucket.end(); ++it)
+		{
+			if (it->hash == h)
+			{
+				pos = it;
+			}
+		}
+
+		Entry<Node>* pNode = pos == bucket.end() ?
+			bucket.emplace_back_entry(_key, stdrep::forward<Args>(_args)...) :
+			bucket.insert_after(pos, _key, stdrep::forward<Args>(_args)...);
+
+		Node& n = pNode->inner();
+		n.hash = h;
 
 		++m_Elements;
 
-- 
2.43.0


From c6556b50a1aa567283796b54b96fdedf226d0b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 006/115] fix: String loses its terminator on append, insert,
 substr and construction from a prefix

---
 lib/include/spvgentwo/String.h | 11 +++++++++--
 lib/source/String.cpp          | 34 +++++++++++++++++++++-------------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 6578866..e45ca0f 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -45,7 +45,7 @@ namespace spvgentwo
 
 		constexpr String(String&& _other) noexcept : Vector(stdrep::move(_other)) {}
 
-		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator, _pStr, _length == 0u ? stringLength(_pStr) : _length) {};
+		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator, _pStr, _length == 0u ? stringLength(_pStr) : _length) { terminate(); }
 
 		String& operator=(const String& _other) { Vector::operator=(_other); return *this; }
 		String& operator=(String&& _other) noexcept { Vector::operator=(stdrep::move(_other)); return *this; }
@@ -78,17 +78,24 @@ namespace spvgentwo
 		// don't insert the additional string terminator from _pCStr
 		Iterator insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length = 0u);
 
-		Iterator insert(sgt_size_t _pos, const String& _str) { return Vector::insert(_pos, _str.data(), _str.size()); }
+		Iterator insert(sgt_size_t _pos, const String& _str) { return _str.size() == 0u ? begin() + _pos : insert(_pos, _str.data(), _str.size()); }
 
 		bool operator==(const String& _other) const;
 		bool operator==(const char* _pStr) const;
 
+		bool operator!=(const String& _other) const { return !operator==(_other); }
+		bool operator!=(const char* _pStr) const { return !operator==(_pStr); }
+
 		template <class Arg>
 		T* emplace_back(Arg&& _arg);
 
 		// emplace one element per argument
 		template <class ...Args>
 		void emplace_back_args(const T& _first, Args&& ..._tail);
+
+	private:
+		// append string terminator if there is none
+		void terminate() { if (m_elements != 0u && m_pData[m_elements - 1u] != '\0') { Vector::emplace_back('\0'); } }
 	};
 
 	template<>
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 0452f5b..026982c 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -19,7 +19,12 @@ spvgentwo::String& spvgentwo::String::operator=(const char* _pStr)
 
 spvgentwo::String spvgentwo::String::substr(sgt_size_t _offset, sgt_size_t _length)
 {
-	const sgt_size_t available = m_elements - _offset;
+	if (_offset >= size() || _length == 0u)
+	{
+		return String(m_pAllocator, "");
+	}
+
+	const sgt_size_t available = size() - _offset;
 	return String(m_pAllocator, m_pData+_offset, _length > available ? available : _length);
 }
 
@@ -41,7 +46,7 @@ spvgentwo::String spvgentwo::String::operator+(const char* _pStr) const
 
 spvgentwo::String& spvgentwo::String::operator+=(const String& _other)
 {
-	if (reserve(m_elements + _other.m_elements))
+	if (_other.m_elements != 0u && reserve(m_elements + _other.m_elements))
 	{
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
 		for (sgt_size_t i = 0; i < _other.m_elements; ++i)
@@ -49,6 +54,7 @@ spvgentwo::String& spvgentwo::String::operator+=(const String& _other)
 			m_pData[offset + i] = _other[i];
 		}
 		m_elements = offset + _other.m_elements;
+		m_pData[m_elements - 1u] = '\0'; // the terminator was overwritten if _other is this string
 	}
 	return *this;
 }
@@ -61,7 +67,7 @@ spvgentwo::String& spvgentwo::String::operator+=(const char* _pStr)
 spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _length)
 {
 	const sgt_size_t length = _length == 0u ? stringLength(_pStr) : _length;
-	if (reserve(m_elements + length))
+	if (length != 0u && reserve(m_elements + length))
 	{
 		// we only want one string terminator, overwrite the old one an append
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
@@ -70,15 +76,16 @@ spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _leng
 			m_pData[offset + i] = _pStr[i];
 		}
 		m_elements = offset + length;
+		terminate();
 	}
 	return *this;
 }
 
 bool spvgentwo::String::operator==(const String& _other) const
 {
-	if (m_elements == _other.m_elements)
+	if (size() == _other.size())
 	{
-		for (sgt_size_t i = 0u; i < m_elements; ++i)
+		for (sgt_size_t i = 0u; i < size(); ++i)
 		{
 			if (m_pData[i] != _other.m_pData[i])
 				return false;
@@ -90,10 +97,10 @@ bool spvgentwo::String::operator==(const String& _other) const
 
 bool spvgentwo::String::operator==(const char* _pStr) const
 {
-	const sgt_size_t length = stringLength(_pStr);
-	if (m_elements == length)
+	const sgt_size_t length = _pStr == nullptr ? 0u : stringLength(_pStr) - 1u;
+	if (size() == length)
 	{
-		for (sgt_size_t i = 0; i < m_elements; ++i)
+		for (sgt_size_t i = 0; i < length; ++i)
 		{
 			if (m_pData[i] != _pStr[i])
 				return false;
@@ -105,12 +112,13 @@ bool spvgentwo::String::operator==(const char* _pStr) const
 
 spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length)
 {
-	auto ret = Vector::insert(_pos, _pCStr, _length == 0u ? (stringLength(_pCStr) - 1u) : _length);
+	_pos = m_elements == 0u ? 0u : _pos;
 
-	if (m_elements != 0u && m_pData[m_elements - 1u] != '\0')
+	if (Vector::insert(_pos, _pCStr, _length == 0u ? (stringLength(_pCStr) - 1u) : _length) == nullptr)
 	{
-		// append string terminator if necessar
-		Vector::insert(m_elements, '\0');
+		return nullptr;
 	}
-	return ret;
+
+	terminate(); // might reallocate
+	return begin() + _pos;
 }
\ No newline at end of file
-- 
2.43.0


From 37b68908dcb3fc8f8abd001b6c36aae696e545ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 007/115] fix: Callable returns its target to the allocator
 with the size of the interface

---
 common/include/common/Callable.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 6f8336d..0da1013 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -88,6 +88,7 @@ namespace spvgentwo
 			virtual ~ICallable() = default;
 			virtual ReturnType invoke(Args...) = 0;
 			virtual ICallable* copy(IAllocator* _pAllocator) const = 0;
+			virtual void destroy(IAllocator* _pAllocator) = 0; // destruct with the size of the implementation
 		};
 
 		template <typename Functor>
@@ -109,6 +110,11 @@ namespace spvgentwo
 				return _pAllocator->construct<CallableImpl<Functor>>(m_func);
 			}
 
+			void destroy(IAllocator* _pAllocator) final
+			{
+				_pAllocator->destruct(this);
+			}
+
 		private:
 			Functor m_func;
 		};
@@ -213,7 +219,7 @@ namespace spvgentwo
 		{
 			if (m_pAllocator != nullptr && m_pCallable != nullptr)
 			{
-				m_pAllocator->destruct(m_pCallable);
+				m_pCallable->destroy(m_pAllocator);
 				m_pCallable = nullptr;
 			}
 		}
-- 
2.43.0


From f9315a736ba46d3743419d5b2eb6ce7ef062291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 008/115] fix: Callable copies and forwards wrongly (empty or
 own right hand side, reference arguments, member functions)

---
 common/include/common/Callable.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 0da1013..c8d8416 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -12,8 +12,7 @@ namespace spvgentwo
 
 		operator bool() const { return pFn != nullptr; }
 
-		template <typename ... OtherArgs>
-		ReturnType operator()(OtherArgs... _args) const { return (*pFn)(_args...); }
+		ReturnType operator()(Args... _args) const { return (*pFn)(stdrep::forward<Args>(_args)...); }
 	};
 
 	template <typename ReturnType, typename... Args>
@@ -31,13 +30,13 @@ namespace spvgentwo
 
 		operator bool() const { return pFn != nullptr; }
 
-		ReturnType operator()(Args... _args) const { return (pObj->*pFn)(_args...); }
+		ReturnType operator()(Args... _args) const { return (pObj->*pFn)(stdrep::forward<Args>(_args)...); }
 	};
 
 	template <typename Obj, typename ReturnType, typename... Args>
 	auto make_memeber_func(Obj* _obj, ReturnType(Obj::* _func)(Args...))
 	{
-		return MemberFunc<Obj, ReturnType, Args...> {_obj, _func};
+		return MemberFunc<Obj, ReturnType, Args...> {_func, _obj};
 	}
 
 	template <typename ReturnType, typename... Args>
@@ -182,7 +181,7 @@ namespace spvgentwo
 			return *this;
 		}
 
-		template <typename Functor>
+		template <typename Functor, typename = stdrep::enable_if_t<!traits::is_same_base_type_v<Functor, Callable>>>
 		Callable& operator=(Functor&& f) noexcept
 		{
 			reset();
@@ -192,14 +191,21 @@ namespace spvgentwo
 
 		Callable& operator=(const Callable& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
-			m_pCallable = _other.m_pCallable->copy(m_pAllocator);
+			if (_other.m_pCallable != nullptr && m_pAllocator != nullptr)
+			{
+				m_pCallable = _other.m_pCallable->copy(m_pAllocator);
+			}
 			return *this;
 		}
 
 		Callable& operator=(Callable&& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
 			m_pCallable = _other.m_pCallable;
@@ -282,7 +288,7 @@ namespace spvgentwo
 	template <typename Obj, typename ReturnType, typename... Args>
 	auto make_callable(spvgentwo::IAllocator* _pAllocator, Obj* _obj, ReturnType(Obj::*_func)(Args...))
 	{
-		return Callable<ReturnType(Args...)>(_pAllocator, _func, _obj);
+		return Callable<ReturnType(Args...)>(_pAllocator, _obj, _func);
 	}
 
 	// variadic member function
-- 
2.43.0


From 472dc973ce6d07142465195734b59e0128fd9bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 009/115] fix: Graph::back returns the first node, erasing a
 node with an edge to itself uses freed edges, assignments do not compile

---
 common/include/common/Graph.h | 10 ++++++----
 common/include/common/Node.h  |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/common/include/common/Graph.h b/common/include/common/Graph.h
index da320b0..f768f90 100644
--- a/common/include/common/Graph.h
+++ b/common/include/common/Graph.h
@@ -41,8 +41,8 @@ namespace spvgentwo
 		NodeType& front() { return m_nodes.front(); }
 		const NodeType& front() const { return m_nodes.front(); }
 
-		NodeType& back() { return m_nodes.front(); }
-		const NodeType& back() const { return m_nodes.front(); }
+		NodeType& back() { return m_nodes.back(); }
+		const NodeType& back() const { return m_nodes.back(); }
 
 	protected:
 
@@ -65,6 +65,7 @@ namespace spvgentwo
 	inline Graph<N, E>& Graph<N, E>::operator=(Graph<N, E>&& _other) noexcept
 	{
 		m_nodes = stdrep::move(_other.m_nodes);
+		return *this;
 	}
 
 	template<class N, class E>
@@ -73,13 +74,14 @@ namespace spvgentwo
 		if (_pos != nullptr)
 		{
 			NodeType& n = *_pos;
+			// edges to itself die with the node, removing them would modify the list that is iterated
 			for (auto& in : n.inputs())
 			{
-				in.pTarget->remove_output(&n);
+				if (in.pTarget != &n) in.pTarget->remove_output(&n);
 			}
 			for (auto& out : n.outputs())
 			{
-				out.pTarget->remove_input(&n);
+				if (out.pTarget != &n) out.pTarget->remove_input(&n);
 			}
 			return m_nodes.erase(_pos);		
 		}
diff --git a/common/include/common/Node.h b/common/include/common/Node.h
index b9a64b3..4dd40ef 100644
--- a/common/include/common/Node.h
+++ b/common/include/common/Node.h
@@ -79,7 +79,7 @@ namespace spvgentwo
 	template<class N, class E>
 	inline Node<N, E>& Node<N, E>::operator=(Node<N, E>&& _other) noexcept
 	{
-		if (this == &_other) return this;
+		if (this == &_other) return *this;
 
 		m_data = stdrep::move(_other.m_data);
 		m_inputs = stdrep::move(_other.m_inputs);
-- 
2.43.0


From 89c5e8725d3ee8c187c161a50946d73b08cad33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 010/115] fix: ExprGraph does not compile for edge lists and
 explicit evaluation

---
 common/include/common/ExprGraph.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/include/common/ExprGraph.h b/common/include/common/ExprGraph.h
index 6d2ef79..d883923 100644
--- a/common/include/common/ExprGraph.h
+++ b/common/include/common/ExprGraph.h
@@ -56,7 +56,7 @@ namespace spvgentwo
 			}
 			else
 			{
-				expr(_pExitNode->inputs(), _pExitNode->output());			
+				expr(_pExitNode->inputs(), _pExitNode->outputs());
 			}
 		}
 	}
@@ -76,13 +76,13 @@ namespace spvgentwo
 
 			if constexpr (args == ExprArgs::FunctionPtrLists)
 			{
-				auto inputs = transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
-				auto outputs = transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto inputs = algo::transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto outputs = algo::transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
 				expr(inputs, outputs);
 			}
 			else
 			{
-				expr(node->inputs(), node->output());
+				expr(node->inputs(), node->outputs());
 			}
 		}
 
-- 
2.43.0


From 8245ec681d2efdb2ac821a4f18c351af092d85b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 011/115] fix: ExternalMemoryAllocator hands out wild pointers
 after it ran out of memory

---
 common/source/ExternalMemoryAllocator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/source/ExternalMemoryAllocator.cpp b/common/source/ExternalMemoryAllocator.cpp
index 362e370..87914e8 100644
--- a/common/source/ExternalMemoryAllocator.cpp
+++ b/common/source/ExternalMemoryAllocator.cpp
@@ -4,7 +4,10 @@ void* spvgentwo::ExternalMemoryAllocator::allocate(sgt_size_t _bytes, unsigned i
 {
 	const auto capacity = static_cast<sgt_size_t>(static_cast<const char*>(m_pEnd) - static_cast<const char*>(m_pCurrent));
 	void* ptr = alignPowerOf2(_aligment, _bytes, m_pCurrent, capacity);
-	m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	if (ptr != nullptr)
+	{
+		m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	}
 	return ptr;
 }
 
-- 
2.43.0


From 6871a4d30b9cecc9babcb3b3e406ae84fd98f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 012/115] fix: Grammar names the image dimensions Dim1D, Dim2D,
 Dim3D instead of 1D, 2D, 3D

---
 lib/source/Grammar.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/source/Grammar.cpp b/lib/source/Grammar.cpp
index e44f584..d27cbda 100644
--- a/lib/source/Grammar.cpp
+++ b/lib/source/Grammar.cpp
@@ -8646,9 +8646,9 @@ Grammar::Grammar(IAllocator* _pAllocator) : m_instructions(_pAllocator, 953u), m
 	m_operandNames.emplaceUnique(Hash64(15u, 5605u), "CodeSectionINTEL");
 	m_operandNames.emplaceUnique(Hash64(15u, 5936u), "DeviceOnlyINTEL");
 	m_operandNames.emplaceUnique(Hash64(15u, 5937u), "HostOnlyINTEL");
-	m_operandNames.emplaceUnique(Hash64(16u, 0u), "Dim1D");
-	m_operandNames.emplaceUnique(Hash64(16u, 1u), "Dim2D");
-	m_operandNames.emplaceUnique(Hash64(16u, 2u), "Dim3D");
+	m_operandNames.emplaceUnique(Hash64(16u, 0u), "1D");
+	m_operandNames.emplaceUnique(Hash64(16u, 1u), "2D");
+	m_operandNames.emplaceUnique(Hash64(16u, 2u), "3D");
 	m_operandNames.emplaceUnique(Hash64(16u, 3u), "Cube");
 	m_operandNames.emplaceUnique(Hash64(16u, 4u), "Rect");
 	m_operandNames.emplaceUnique(Hash64(16u, 5u), "Buffer");
-- 
2.43.0


From a43e4b42ad9da2e8042f3adfdc4fe0298106c545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 013/115] fix: reading fails for operand masks with several
 bits that have parameters

---
 lib/source/Instruction.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 5f888f3..200c986 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -501,16 +501,35 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			{
 				const unsigned int enumVal = back().getLiteral(); // last added operand
 
-				if (auto* params = _grammar.getOperandParameters(op.kind, enumVal); params != nullptr)
+				auto parseParameters = [&](unsigned int _enumVal) -> bool
 				{
-					for (const auto& param : *params)
+					if (auto* params = _grammar.getOperandParameters(op.kind, _enumVal); params != nullptr)
 					{
-						if (parseSimpleOps(_operandCount, param) == false)
+						for (const auto& param : *params)
+						{
+							if (parseSimpleOps(_operandCount, param) == false)
+							{
+								return false;
+							}
+						}
+					}
+					return true;
+				};
+
+				if (op.category == Grammar::OperandCategory::BitEnum) // every set bit brings its own parameters, lowest bit first
+				{
+					for (unsigned int bit = 1u; bit != 0u; bit <<= 1u)
+					{
+						if ((enumVal & bit) != 0u && parseParameters(bit) == false)
 						{
 							return false;
 						}
 					}
 				}
+				else if (parseParameters(enumVal) == false)
+				{
+					return false;
+				}
 			}
 		}
 		else if (op.category == Grammar::OperandCategory::Id)
-- 
2.43.0


From b23fd0be8a365551ac069e29e4e385046725f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 014/115] fix: literal operands of OpSpecConstantOp are read as
 ids

---
 lib/source/Instruction.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 200c986..3af3ceb 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -437,13 +437,31 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 				return false;
 			}
 
-			// remaining operands must be IDs
-			while (_operandCount > 0u)
+			// remaining operands are those of the embedded operation
+			const Grammar::Instruction* specInfo = _grammar.getInfo(back().getLiteral());
+
+			if (specInfo == nullptr)
+			{
+				getModule()->logError("Unkown op code %u for %s", back().getLiteral().value, info->name);
+				return false;
+			}
+
+			auto sit = specInfo->operands.begin();
+			const auto send = specInfo->operands.end();
+
+			while (_operandCount > 0u && sit != send)
 			{
-				if (parseId(_operandCount) == false)
+				const bool result = sit->kind == Grammar::OperandKind::IdResultType || sit->kind == Grammar::OperandKind::IdResult; // belong to OpSpecConstantOp
+
+				if (result == false && parseSimpleOps(_operandCount, *sit) == false)
 				{
 					return false;
 				}
+
+				if (sit->quantifier != Grammar::Quantifier::ZeroOrAny) // not trailing args
+				{
+					++sit;
+				}
 			}
 
 			++it; // no more operands after this one
-- 
2.43.0


From b5b5d00fddf69c9195207bb012208cf6d49a522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 015/115] fix: literal operands of extended instructions are
 read as ids

---
 lib/source/Instruction.cpp | 49 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 3af3ceb..99306cb 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -468,6 +468,55 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			break; // end of instruction
 		}
 
+		else if (op.kind == Grammar::OperandKind::LiteralExtInstInteger) // OpExtInst
+		{
+			const spv::Id setId = back().getId();
+
+			if (parseLiteral(_operandCount) == false) // instruction number
+			{
+				return false;
+			}
+
+			++it; // operands of unknown sets are <id>s
+
+			for (const auto& import : getModule()->getExtInstrImports())
+			{
+				if (import.value.getResultId() != setId)
+				{
+					continue;
+				}
+
+				const Grammar::Extension ext = import.key == "GLSL.std.450" ? Grammar::Extension::Glsl : import.key == "OpenCL.std" ? Grammar::Extension::OpenCl : Grammar::Extension::Core;
+
+				if (ext == Grammar::Extension::Core)
+				{
+					break; // unknown set
+				}
+
+				if (const auto* extInfo = _grammar.getInfo(back().getLiteral(), ext); extInfo != nullptr)
+				{
+					auto eit = extInfo->operands.begin();
+					const auto eend = extInfo->operands.end();
+
+					while (_operandCount > 0u && eit != eend)
+					{
+						if (parseSimpleOps(_operandCount, *eit) == false)
+						{
+							return false;
+						}
+
+						if (eit->quantifier != Grammar::Quantifier::ZeroOrAny) // not trailing args
+						{
+							++eit;
+						}
+					}
+				}
+				break;
+			}
+
+			continue; // next operand
+		}
+
 		if (op.category == Grammar::OperandCategory::Composite)
 		{
 			if (it + 1u != end) // all known compisites are trailing args
-- 
2.43.0


From 59fe7e4cb7f8d1803eda373242b51176e9e459a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 016/115] fix: reading an image type with an access qualifier
 dereferences the end of the operands

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a4d0b47..a7792ba 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -993,7 +993,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 
 				if (++it != nullptr)
 				{
-					t.setAccessQualifier(static_cast<spv::AccessQualifier>((++it)->getLiteral().value));
+					t.setAccessQualifier(static_cast<spv::AccessQualifier>(it->getLiteral().value));
 				}
 			}
 			break;
-- 
2.43.0


From bceed92398e736a8bddcda629a156fd8c420e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 017/115] fix: blocks ending in OpTerminateInvocation,
 OpIgnoreIntersectionKHR, OpTerminateRayKHR or OpEmitMeshTasksEXT are not
 recognized as terminated

---
 lib/include/spvgentwo/SpvDefines.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index f890847..20e88be 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -82,6 +82,10 @@ namespace spvgentwo
 		case spv::Op::OpReturnValue:
 		case spv::Op::OpKill:
 		case spv::Op::OpUnreachable:
+		case spv::Op::OpTerminateInvocation:
+		case spv::Op::OpIgnoreIntersectionKHR:
+		case spv::Op::OpTerminateRayKHR:
+		case spv::Op::OpEmitMeshTasksEXT:
 			return true;
 		default:
 			return false;
-- 
2.43.0


From d3423997c0f0e13ad81613d5dcfd660d335376c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 018/115] fix: reading fails or crashes for OpSpecConstantOp as
 constant, constituent or array length

---
 lib/source/Module.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a7792ba..e82d697 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -955,7 +955,8 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				t.Member(sub); // element type
 
 				Instruction* pConstInstr = (++it)->getInstruction();
-				if ( pConstInstr == nullptr || pConstInstr->getType()->isInt() == false)
+				const Type* lengthType = pConstInstr != nullptr && pConstInstr->isSpecOrConstant() ? pConstInstr->getType() : nullptr;
+				if ( lengthType == nullptr || lengthType->isInt() == false)
 				{
 					logError("Array length constant not found or invalid type");
 					success = false;
@@ -963,7 +964,11 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				}
 
 				auto cit = pConstInstr->getFirstActualOperand();
-				if (cit->isLiteral())
+				if (pConstInstr->getOperation() == spv::Op::OpSpecConstantOp)
+				{
+					t.setArrayLength(0u); // not known before specialization
+				}
+				else if (cit != nullptr && cit->isLiteral())
 				{
 					t.setArrayLength(cit->literal); // array length
 				}
@@ -1005,9 +1010,14 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			auto& node = m_TypeToInstr.emplaceUnique(stdrep::move(t), &instr);
 			m_InstrToType.emplaceUnique(&instr, &node.kv.key);
 		}
+		else if (instr.getOperation() == spv::Op::OpSpecConstantOp)
+		{
+			continue; // value is not known before specialization, there is nothing to describe
+		}
 		else if (instr.isSpecOrConstant())
 		{
 			Constant c(_pAllocator != nullptr ? _pAllocator : m_pAllocator);
+			bool describable = true;
 
 			c.setOperation(instr.getOperation());
 
@@ -1045,17 +1055,22 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			case spv::Op::OpSpecConstantComposite:
 				for (auto end = instr.end(); it != end; ++it)
 				{					
-					if (const Constant* sub = getConstantInfo(it->getInstruction()); sub != nullptr)
+					const Instruction* constituent = it->getInstruction();
+					if (const Constant* sub = getConstantInfo(constituent); sub != nullptr)
 					{
 						c.Component() = *sub;
 					}
+					else if (constituent != nullptr && constituent->getType() != nullptr && (constituent->getOperation() == spv::Op::OpSpecConstantOp || constituent->getOperation() == spv::Op::OpUndef || constituent->isSpecOrConstant()))
+					{
+						describable = false; // constituent has no value that could be described
+					}
 					else
 					{
 						logError("Constituent constant not found");
 						success = false;					
 					}
 				}
-				if (c.getComponents().empty())
+				if (describable && c.getComponents().empty())
 				{
 					logError("Expected components for this constant composite [reconstructTypeAndConstantInfo]");
 				}
@@ -1065,6 +1080,11 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				success = false;
 			}
 
+			if (describable == false)
+			{
+				continue;
+			}
+
 			auto& node = m_ConstantToInstr.emplaceUnique(stdrep::move(c), &instr);
 			m_InstrToConstant.emplaceUnique(&instr, &node.kv.key);
 		}
-- 
2.43.0


From 3669bbd9fe14ed026c4a38fbcb5b979d41de769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 019/115] fix: instructions without their mandatory operands
 are accepted when reading

---
 lib/source/Instruction.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 99306cb..baceae3 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -337,11 +337,6 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 
 	m_Operation = _op;
 
-	if (_operandCount == 0u)
-	{
-		return true; // nothing left to do
-	}
-
 	const Grammar::Instruction* info = _grammar.getInfo(static_cast<unsigned int>(m_Operation));
 
 	if (info == nullptr)
-- 
2.43.0


From 35dbf71c7646e494eb0165c124b348ac9a6f1dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 020/115] fix: large floating point constants are cut off when
 printed

---
 common/source/ModulePrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 01e0d4e..e18bd4a 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -412,7 +412,7 @@ bool spvgentwo::ModulePrinter::IModulePrinter::append(const Constant& _constant,
 		return false;
 	}
 
-	char buf[64]{ '\0' };
+	char buf[352]{ '\0' };
 	bool printed = false;
 
 	if (!printed && t.isS8())	printed = printConstData<char>(_constant, buf, "%d");
-- 
2.43.0


From 92d163909ba6f5c74d898d33b24ffae823d7e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 021/115] fix: names of operands are printed by the option for
 names of results

---
 common/source/ModulePrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index e18bd4a..06fc14f 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -71,7 +71,7 @@ namespace
 				return false;
 			}
 
-			if (const char* name = op.instruction->getName(); (_options & ModulePrinter::PrintOptionsBits::InstructionName) && name != nullptr && stringLength(name) > 1)
+			if (const char* name = op.instruction->getName(); (_options & ModulePrinter::PrintOptionsBits::OperandName) && name != nullptr && stringLength(name) > 1)
 			{
 				_printer << "%";
 				_printer.append(name, colors.operandId, colors.defaultText);
-- 
2.43.0


From 31893e2438b27586f8c6ed0ad8fbf9449a1741e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 022/115] fix: operands are printed twice or lost after
 enumerants without parameters and masks with several bits

---
 common/source/ModulePrinter.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 06fc14f..fae935a 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -324,12 +324,18 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 		}
 		else if (Grammar::hasOperandParameters(info.kind))
 		{
-			if (auto* params = _grammar.getOperandParameters(info.kind, it->getLiteral()); params != nullptr)
+			auto printParameters = [&](unsigned int _enumVal)
 			{
+				auto* params = _grammar.getOperandParameters(info.kind, _enumVal);
+				if (params == nullptr)
+				{
+					return;
+				}
+
 				auto pit = params->begin();
 				auto pend = params->end();
 
-				for (++it; it != end && pit != pend; ++pit)
+				for (; it != end && pit != pend; ++pit)
 				{
 					if (pit->kind == Grammar::OperandKind::LiteralString)
 					{
@@ -343,6 +349,24 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 					success &= printOperand(_instr, *it, *pit, _grammar, _printer, _options);
 					++it;
 				}
+			};
+
+			const unsigned int enumVal = it->getLiteral();
+			++it;
+
+			if (info.category == Grammar::OperandCategory::BitEnum) // every set bit brings its own parameters, lowest bit first
+			{
+				for (unsigned int bit = 1u; bit != 0u; bit <<= 1u)
+				{
+					if ((enumVal & bit) != 0u)
+					{
+						printParameters(bit);
+					}
+				}
+			}
+			else
+			{
+				printParameters(enumVal);
 			}
 		}
 		else if (info.quantifier == Grammar::Quantifier::ZeroOrAny)
-- 
2.43.0


From 7d82d260b23c52d17dae3e032312bcf252225e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 023/115] fix: printing OpSpecConstantOp without result ids
 fails

---
 common/source/ModulePrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index fae935a..8d2c254 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -319,7 +319,7 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 			}
 
 			_printer << " [";
-			success &= printInstruction(constInstr, _grammar, _printer, _options ^ PrintOptionsBits::ResultId, nullptr);
+			success &= printInstruction(constInstr, _grammar, _printer, PrintOptions(static_cast<unsigned int>(_options) & ~static_cast<unsigned int>(PrintOptionsBits::ResultId)), nullptr);
 			_printer << "]";
 		}
 		else if (Grammar::hasOperandParameters(info.kind))
-- 
2.43.0


From b1b851b29e6901875a3b6a9f00ad81dca0111a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 024/115] fix: only the first word of wide constants is printed
 without constant data

---
 common/source/ModulePrinter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 8d2c254..8abc876 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -369,6 +369,18 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 				printParameters(enumVal);
 			}
 		}
+		else if (info.kind == Grammar::OperandKind::LiteralContextDependentNumber)
+		{
+			const bool printedAsValue = (_options & PrintOptionsBits::ConstantData) && _instr.isSpecOrConstant() && _instr.getConstant() != nullptr;
+
+			while (++it != end) // remaining words of a wide literal
+			{
+				if (printedAsValue == false)
+				{
+					success &= printOperand(_instr, *it, info, _grammar, _printer, _options);
+				}
+			}
+		}
 		else if (info.quantifier == Grammar::Quantifier::ZeroOrAny)
 		{
 			while(++it != end)
-- 
2.43.0


From dec426c506e1461d15ce3759c8ccdf417360f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 025/115] fix: literal operands of extended instructions are
 printed as instruction names

---
 common/source/ModulePrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 8abc876..e6301f9 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -135,7 +135,7 @@ namespace
 		}
 		else if (op.isLiteral())
 		{
-			if (_instr.getOperation() == spv::Op::OpExtInst)
+			if (_info.kind == Grammar::OperandKind::LiteralExtInstInteger)
 			{
 				if (auto set = _instr.getFirstActualOperand(); set != nullptr && set->isInstruction() && *set->instruction == spv::Op::OpExtInstImport) // extension set
 				{					
-- 
2.43.0


From 8f2f38b9e22305dd45f578cb1fb6970e050c2e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 026/115] fix: printing a literal of type bool loads an invalid
 bool

---
 common/source/ModulePrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index e6301f9..1951287 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -440,9 +440,9 @@ bool spvgentwo::ModulePrinter::IModulePrinter::append(const Constant& _constant,
 
 	if (t.isBool())
 	{
-		if (const bool* data = _constant.getDataAs<bool>(false); data != nullptr)
+		if (const unsigned int* data = _constant.getDataAs<unsigned int>(false); data != nullptr)
 		{
-			append(*data ? "true" : "false", _pushColor, _popColor);
+			append(*data != 0u ? "true" : "false", _pushColor, _popColor);
 			return true;
 		}
 		return false;
-- 
2.43.0


From 1644a58e38876c555cda8cfd15f7adafc5f77ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 027/115] fix: enumerant operands of extended instructions are
 printed as numbers

---
 common/source/ModulePrinter.cpp | 66 +++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 1951287..8f3a91c 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -40,6 +40,26 @@ namespace
 		return _it;
 	}
 
+	// grammar of the extended instruction _opcode in the set used by _instr, nullptr if the set is unknown
+	const spvgentwo::Grammar::Instruction* getExtInstInfo(const spvgentwo::Instruction& _instr, unsigned int _opcode, const spvgentwo::Grammar& _grammar)
+	{
+		using namespace spvgentwo;
+
+		if (auto set = _instr.getFirstActualOperand(); set != nullptr && set->isInstruction() && *set->instruction == spv::Op::OpExtInstImport) // extension set
+		{
+			if (compareLiteralString("GLSL.std.450", set->instruction->getFirstActualOperand(), set->instruction->end()))
+			{
+				return _grammar.getInfo(_opcode, Grammar::Extension::Glsl);
+			}
+			else if (compareLiteralString("OpenCL.std", set->instruction->getFirstActualOperand(), set->instruction->end()))
+			{
+				return _grammar.getInfo(_opcode, Grammar::Extension::OpenCl);
+			}
+		}
+
+		return nullptr;
+	}
+
 	bool printOperand(const spvgentwo::Instruction& _instr, const spvgentwo::Operand& op, const spvgentwo::Grammar::Operand& _info, const spvgentwo::Grammar& _grammar, spvgentwo::ModulePrinter::IModulePrinter& _printer, spvgentwo::ModulePrinter::PrintOptions _options)
 	{
 		using namespace spvgentwo;
@@ -137,26 +157,10 @@ namespace
 		{
 			if (_info.kind == Grammar::OperandKind::LiteralExtInstInteger)
 			{
-				if (auto set = _instr.getFirstActualOperand(); set != nullptr && set->isInstruction() && *set->instruction == spv::Op::OpExtInstImport) // extension set
-				{					
-					Grammar::Extension ext = Grammar::Extension::Core;
-					if (compareLiteralString("GLSL.std.450", set->instruction->getFirstActualOperand(), set->instruction->end()))
-					{
-						ext = Grammar::Extension::Glsl;
-					}
-					else if (compareLiteralString("OpenCL.std", set->instruction->getFirstActualOperand(), set->instruction->end()))
-					{
-						ext = Grammar::Extension::OpenCl;
-					}
-
-					if (ext != Grammar::Extension::Core)
-					{
-						if (auto* extInfo = _grammar.getInfo(static_cast<unsigned int>(op.literal.value), ext); extInfo != nullptr)
-						{
-							_printer.append(extInfo->name, colors.extinst, colors.defaultText);
-							return true;
-						}
-					}
+				if (auto* extInfo = getExtInstInfo(_instr, op.literal.value, _grammar); extInfo != nullptr)
+				{
+					_printer.append(extInfo->name, colors.extinst, colors.defaultText);
+					return true;
 				}
 			}
 			else if (_info.category == Grammar::OperandCategory::BitEnum || _info.category == Grammar::OperandCategory::ValueEnum)
@@ -369,6 +373,28 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 				printParameters(enumVal);
 			}
 		}
+		else if (info.kind == Grammar::OperandKind::LiteralExtInstInteger)
+		{
+			const Grammar::Instruction* extInfo = getExtInstInfo(_instr, it->getLiteral(), _grammar);
+			++it;
+
+			if (extInfo != nullptr) // otherwise the remaining operands are <id>s
+			{
+				for (const Grammar::Operand& extOperand : extInfo->operands)
+				{
+					while (it != end)
+					{
+						success &= printOperand(_instr, *it, extOperand, _grammar, _printer, _options);
+						++it;
+
+						if (extOperand.quantifier != Grammar::Quantifier::ZeroOrAny)
+						{
+							break;
+						}
+					}
+				}
+			}
+		}
 		else if (info.kind == Grammar::OperandKind::LiteralContextDependentNumber)
 		{
 			const bool printedAsValue = (_options & PrintOptionsBits::ConstantData) && _instr.isSpecOrConstant() && _instr.getConstant() != nullptr;
-- 
2.43.0


From 8485b4fdf3875c906de43639721749636613e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 028/115] fix: hash of a type did not separate nesting,
 distinct types shared a declaration

---
 lib/include/spvgentwo/Type.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index cf80c54..69a0ff7 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -668,7 +668,8 @@ namespace spvgentwo
 			_hasher << _type.getImageSamplerAccess();
 			_hasher << _type.getImageFormat();
 			_hasher << _type.getAccessQualifier();
-				
+			_hasher << _type.getSubTypes().size(); // nesting is part of the identity
+
 			for (const Type& sub : _type.getSubTypes()) {
 				operator()(sub, _hasher); // go deeper
 			}
-- 
2.43.0


From e316f50fa88d76500b1ffb39ebb8706c9a7e4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 029/115] fix: hash of a constant depended on the route by
 which a boolean was made and did not separate nesting

---
 lib/include/spvgentwo/Constant.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/Constant.h b/lib/include/spvgentwo/Constant.h
index 8ddbf4d..ad3f5f5 100644
--- a/lib/include/spvgentwo/Constant.h
+++ b/lib/include/spvgentwo/Constant.h
@@ -172,11 +172,18 @@ namespace spvgentwo
 		{
 			_hasher << _const.getOperation();
 			Hasher<Type>()(_const.getType(), _hasher);
-			for (const auto& l : _const.getData())
+
+			// the value of a boolean constant is its operation, any literal data is redundant
+			if (_const.getType().isBool() == false)
 			{
-				_hasher << l;
+				_hasher << _const.getData().size();
+				for (const auto& l : _const.getData())
+				{
+					_hasher << l;
+				}
 			}
 
+			_hasher << _const.getComponents().size();
 			for (const Constant& component : _const.getComponents())
 			{
 				operator()(component, _hasher);
-- 
2.43.0


From 3edcc2f0ae51aa10d33d301650e4ccfca85fabd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 030/115] fix: OpTypePipe was declared without its access
 qualifier and rejected when read

---
 lib/source/Module.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index e82d697..ba31098 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -609,6 +609,9 @@ spvgentwo::Instruction* spvgentwo::Module::addType(const Type& _type, const char
 		pInstr->addOperand(addType(_type.getSubTypes().front())); // element type
 		pInstr->addOperand(constant(_type.getArrayLength())); // length as constant
 		break;
+	case spv::Op::OpTypePipe:
+		pInstr->appendLiterals(_type.getAccessQualifier());
+		break;
 	case spv::Op::OpTypeImage:
 		pInstr->addOperand(addType(_type.getSubTypes().front())); // sampled type
 		pInstr->appendLiterals(_type.getImageDimension());
@@ -979,6 +982,9 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				}
 			}
 			break;
+			case spv::Op::OpTypePipe:
+				t.setAccessQualifier(static_cast<spv::AccessQualifier>(it->getLiteral().value));
+				break;
 			case spv::Op::OpTypeImage:
 			{
 				const Type* sub = getTypeInfo(it->getInstruction());
-- 
2.43.0


From a588b7f3c8f1d7e1e08e4e6adc3bc1d8e8525c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 031/115] fix: give OpBitCount its operand type so that
 opBitCount accepts integers

---
 lib/include/spvgentwo/SpvDefines.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 20e88be..3775c04 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -193,6 +193,7 @@ namespace spvgentwo
 		case spv::Op::OpSatConvertSToU:
 		case spv::Op::OpBitFieldInsert:
 		case spv::Op::OpBitReverse:
+		case spv::Op::OpBitCount:
 
 			_sign = Sign::Any;
 			return spv::Op::OpTypeInt;
-- 
2.43.0


From 17c1967f242707b47f110e7556a50f9ea49f531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 032/115] fix: do not access the first instruction of an empty
 branch target

---
 lib/source/TypeInferenceAndValiation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index d40293f..e5709bb 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -558,7 +558,7 @@ bool spvgentwo::ITypeInferenceAndVailation::validateOperands(const spvgentwo::In
 				module->logError("Unassigned branchtarget operand (nullptr)");
 				return false;
 			}
-			else if (&op.branchTarget->front() == &_instr)
+			else if (op.branchTarget->empty() == false && &op.branchTarget->front() == &_instr)
 			{
 				module->logError("Recursive branch target instruction operand");
 				return false;
-- 
2.43.0


From 7a991a3f3b53b21109ea6f0a5be966651135b117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 033/115] fix: terminate empty branches of a structured If

---
 lib/include/spvgentwo/BasicBlockTemplate.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index 5832e83..7cbccd9 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -19,11 +19,11 @@ namespace spvgentwo
 		_false(falseBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.empty() == false && trueBB.back().isTerminator() == false)
+		if (trueBB.getTerminator() == nullptr)
 		{
 			trueBB->opBranch(&mergeBB);
 		}
-		if (falseBB.empty() == false && falseBB.back().isTerminator() == false)
+		if (falseBB.getTerminator() == nullptr)
 		{
 			falseBB->opBranch(&mergeBB);
 		}
@@ -45,7 +45,7 @@ namespace spvgentwo
 		_true(trueBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.empty() == false && trueBB.back().isTerminator() == false)
+		if (trueBB.getTerminator() == nullptr)
 		{
 			trueBB->opBranch(&mergeBB);		
 		}
-- 
2.43.0


From 95a823566b54461079a96ce652cd4ca0aa3a864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 034/115] fix: do not branch behind the terminator of a loop
 body

---
 lib/include/spvgentwo/BasicBlockTemplate.inl | 11 +++++++++--
 lib/source/BasicBlock.cpp                    | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index 7cbccd9..e243737 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -79,10 +79,17 @@ namespace spvgentwo
 		condBB->opBranchConditional(pCond, &bodyBB, &mergeBB);
 
 		_body(bodyBB);
-		bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
+		// check if user didnt exit controlflow via kill or similar
+		if (bodyBB.getTerminator() == nullptr)
+		{
+			bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
+		}
 
 		_continue(continueBB);
-		continueBB->opBranch(&loop); // back edge to loop merge
+		if (continueBB.getTerminator() == nullptr)
+		{
+			continueBB->opBranch(&loop); // back edge to loop merge
+		}
 
 		return mergeBB;
 	}
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 6400a62..71b8556 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -214,8 +214,15 @@ spvgentwo::BasicBlock& spvgentwo::BasicBlock::Loop(Instruction* _pCondition, Bas
 	addInstruction()->opBranch(&condBB);
 
 	condBB->opBranchConditional(_pCondition, &_body, &mergeBB);
-	_body->opBranch(&_continue); // branch to "increment" / continue block
-	_continue->opBranch(this); // back edge to loop merge
+	// check if user didnt exit controlflow via kill or similar
+	if (_body.getTerminator() == nullptr)
+	{
+		_body->opBranch(&_continue); // branch to "increment" / continue block
+	}
+	if (_continue.getTerminator() == nullptr)
+	{
+		_continue->opBranch(this); // back edge to loop merge
+	}
 
 	return mergeBB;
 }
-- 
2.43.0


From 09957dafc685527f73f6b4bf7499cf677c28c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 035/115] fix: resolve index sequences of composite types,
 reject those that leave the type

---
 lib/include/spvgentwo/Type.h | 11 +++++++----
 lib/source/Instruction.cpp   |  7 +------
 lib/source/Type.cpp          | 36 +++++++++++++++++++++++++++---------
 3 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index 69a0ff7..a3dc82d 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -389,11 +389,14 @@ namespace spvgentwo
 		// return 1 if type is a scalar, return component count if type is vector, 0 otherwise
 		constexpr unsigned int getScalarOrVectorLength() const { return isScalar() ? 1u : isVector() ? getVectorComponentCount() : 0u; }
 
-		// depth first traversal of type hierarchy using integer indices (static variant), returns the iterator of the last valid type accessed by index
+		// iterator of the type of member / element _i of this composite or pointer, null-iterator if there is no such member
+		Iterator getElementType(unsigned int _i) const;
+
+		// depth first traversal of type hierarchy using integer indices (static variant), returns the iterator of the type reached by the last index, null-iterator if an index leaves the type
 		template<class... Indices>
 		Iterator getSubType(unsigned int _i, Indices... _indices) const;
 
-		// depth first traversal of type hierarchy using integer indices (dynamic variant), returns the iterator of the last valid type accessed by index
+		// depth first traversal of type hierarchy using integer indices (dynamic variant), returns the iterator of the type reached by the last index, null-iterator if an index leaves the type
 		Iterator getSubType(const List<unsigned int>& _indices) const;
 
 		// creates a new empty type from this types allocator
@@ -681,11 +684,11 @@ namespace spvgentwo
 	template<class ...Indices>
 	inline List<Type>::Iterator Type::getSubType(unsigned int _i, Indices ..._indices) const
 	{
-		auto it = m_subTypes.begin() + (_i < m_subTypes.size() ? _i : 0u);
+		auto it = getElementType(_i);
 
 		if constexpr (sizeof...(_indices) > 0)
 		{
-			if (it != nullptr && it->m_subTypes.empty() == false)
+			if (it != nullptr)
 			{
 				return it->getSubType(_indices...);
 			}
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index baceae3..7f98fa1 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1286,12 +1286,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeExtractDynamic(Instru
 		return error();
 	}
 
-	auto it = pBaseType->getSubType(0u);
-
-	if (it != nullptr)
-	{
-		it = it->getSubType(_indices);
-	}
+	auto it = pBaseType->getSubType(_indices);
 
 	if (it != nullptr)
 	{
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 9072a08..e38d76d 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -688,22 +688,40 @@ spvgentwo::Type& spvgentwo::Type::Member(const Type* _pSubType)
 	}
 }
 
+spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getElementType(unsigned int _i) const
+{
+	switch (m_Type)
+	{
+	case spv::Op::OpTypeStruct:
+		return m_subTypes.begin() + _i;
+	case spv::Op::OpTypeVector:
+		return _i < m_VecComponentCount ? m_subTypes.begin() : nullptr;
+	case spv::Op::OpTypeMatrix:
+		return _i < m_MatColumnCount ? m_subTypes.begin() : nullptr;
+	case spv::Op::OpTypeArray:
+		return m_ArrayLength == 0u || _i < m_ArrayLength ? m_subTypes.begin() : nullptr;
+	case spv::Op::OpTypeRuntimeArray:
+		return m_subTypes.begin();
+	case spv::Op::OpTypePointer:
+		return _i == 0u ? m_subTypes.begin() : nullptr;
+	default:
+		return nullptr;
+	}
+}
+
 spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getSubType(const List<unsigned int>& _indices) const
 {
-	auto it = m_subTypes.begin();
+	Iterator it = nullptr;
+	const Type* type = this;
 
 	for (auto i : _indices)
 	{
-		auto prev = it;
-		it = it + i;
-		if (it != nullptr)
-		{
-			it = it->getSubTypes().begin();
-		}
-		else
+		it = type->getElementType(i);
+		if (it == nullptr)
 		{
-			return prev;
+			break;
 		}
+		type = it.operator->();
 	}
 
 	return it;
-- 
2.43.0


From a6fa073f194b708887bdb0112f0fef4682cc4da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 036/115] fix: opLength and opDistance accept scalars

---
 lib/source/GLSL450Instruction.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 6bf091e..445fb2c 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -277,15 +277,12 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opLength(Instruction* _pX)
 	const Type* type = _pX->getType();
 	if (type == nullptr) return error();
 
-	if (type->isVectorOfFloat())
+	if (type->isScalarOrVectorOf(spv::Op::OpTypeFloat))
 	{
-		if (auto it = _pX->getResultTypeInstr()->getFirstActualOperand(); it != nullptr && it->isInstruction()) // extract base type
-		{
-			return opExtInst(it->instruction, ExtName, static_cast<unsigned int>(glslstd450::Op::Length), _pX);
-		}
+		return opExtInst(getModule()->addType(type->getBaseType()), ExtName, static_cast<unsigned int>(glslstd450::Op::Length), _pX);
 	}
 
-	getModule()->logError("Operand of opLength is not of type float vector");
+	getModule()->logError("Operand of opLength is not of type float scalar or vector");
 
 	return error();
 }
@@ -299,10 +296,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opDistance(Instruction* _p
 
 	if (type1->isScalarOrVectorOfSameLength(spv::Op::OpTypeFloat, *type2))
 	{
-		if (auto it = _pP1->getResultTypeInstr()->getFirstActualOperand(); it != nullptr && it->isInstruction()) // extract base type
-		{
-			return opExtInst(it->instruction, ExtName, static_cast<unsigned int>(glslstd450::Op::Distance), _pP1, _pP2);
-		}
+		return opExtInst(getModule()->addType(type1->getBaseType()), ExtName, static_cast<unsigned int>(glslstd450::Op::Distance), _pP1, _pP2);
 	}
 
 	getModule()->logError("Operand type of opDistance is not a float scalar or vector");
-- 
2.43.0


From 4bdb23ad1ac69dd346ffe97f0042c17beb9fd6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 037/115] fix: opFrexpStruct of scalars accessed a missing
 component type, opLdexp demanded an exponent as wide as its operand

---
 lib/source/GLSL450Instruction.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 445fb2c..9e04bf4 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -205,6 +205,11 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opFrexpStruct(Instruction*
 	Instruction* significantType = _pFloat->getResultTypeInstr();
 	if (significantType == nullptr) return error();
 
+	if (significantType->getType()->isScalarOrVectorOf(spv::Op::OpTypeFloat) == false)
+	{
+		getModule()->logError("Operand of opFrexpStruct is not vector or scalar of float");
+		return error();
+	}
 
 	// Result Type must be an OpTypeStruct with two members. Member 0 must have the same type as the type of x.
 	// Member 0 holds the significand. Member 1 must be a scalar or vector with integer component type, with 32 - bit
@@ -212,7 +217,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opFrexpStruct(Instruction*
 	// components.
 
 	Type exponent(*significantType->getType());
-	exponent.front().Int(32);
+	exponent.getBaseType().Int(32);
 
 	Module* module = getModule();
 	Instruction* exponentType = module->addType(exponent);
@@ -230,7 +235,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opLdexp(Instruction* _pFlo
 
 	if (xType == nullptr || expType == nullptr) return error();
 
-	if (xType->isScalarOrVectorOfSameLength(*expType) && xType->getBaseType().isFloat() && expType->getBaseType().isInt())
+	if (xType->isScalarOrVectorOfSameLength(*expType, false) && xType->getBaseType().isFloat() && expType->getBaseType().isInt())
 	{
 		return opExtInst(resultType, ExtName, static_cast<unsigned int>(glslstd450::Op::Ldexp), _pFloatX, _pIntExp);
 	}
-- 
2.43.0


From 88b38ccf76b6935f81b912c184212ea5ee0db0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 038/115] fix: opPow and opAtan2 accept only operands of up to
 32 bits

---
 lib/include/spvgentwo/GLSL450Instruction.h | 6 +++---
 lib/source/GLSL450Instruction.cpp          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/GLSL450Instruction.h b/lib/include/spvgentwo/GLSL450Instruction.h
index 77620d5..7de7866 100644
--- a/lib/include/spvgentwo/GLSL450Instruction.h
+++ b/lib/include/spvgentwo/GLSL450Instruction.h
@@ -42,8 +42,8 @@ namespace spvgentwo
 		Instruction* opAcosh(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Acosh, _pFloat, true); }
 		Instruction* opAtanh(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Atanh, _pFloat, true); }
 
-		Instruction* opAtan2(Instruction* _pY, Instruction* _pX) { return scalarOrFloatVec2(glslstd450::Op::Atan2, _pY, _pX); }
-		Instruction* opPow(Instruction* _pX, Instruction* _pY) { return scalarOrFloatVec2(glslstd450::Op::Pow, _pX, _pY); }
+		Instruction* opAtan2(Instruction* _pY, Instruction* _pX) { return scalarOrFloatVec2(glslstd450::Op::Atan2, _pY, _pX, true); }
+		Instruction* opPow(Instruction* _pX, Instruction* _pY) { return scalarOrFloatVec2(glslstd450::Op::Pow, _pX, _pY, true); }
 
 		Instruction* opExp(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Exp, _pFloat, true); }
 		Instruction* opLog(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Log, _pFloat, true); }
@@ -119,7 +119,7 @@ namespace spvgentwo
 
 	private:
 		Instruction* scalarOrFloatVec1(glslstd450::Op _op, Instruction* _pFloat, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
-		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pResultType = nullptr);
+		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrFloatVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Instruction* _pResultType = nullptr);
 
 		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType = nullptr);
diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 9e04bf4..008c7be 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -21,14 +21,14 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec1(glslstd4
 	return error();
 }
 
-spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pResultType)
+spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit, Instruction* _pResultType)
 {
 	const Type* leftType = _pOp1->getType();
 	const Type* rightType = _pOp2->getType();
 
 	if (leftType == nullptr || rightType == nullptr) return error();
 
-	if (leftType->isScalarOrVectorOf(spv::Op::OpTypeFloat) && *leftType == *rightType)
+	if (leftType->isScalarOrVectorOf(spv::Op::OpTypeFloat) && *leftType == *rightType && (_no64Bit ? leftType->getBaseType().getFloatWidth() <= 32u : true))
 	{
 		Instruction* returnType = _pResultType != nullptr ? _pResultType : _pOp1->getResultTypeInstr();
 		if (returnType == nullptr) return error();
-- 
2.43.0


From f9a28c17f7d0dfd09f239857f385fceb13d45070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 039/115] fix: opFindILsb, opFindSMsb and opFindUMsb accept
 only 32 bit components

---
 lib/include/spvgentwo/GLSL450Instruction.h | 8 ++++----
 lib/source/GLSL450Instruction.cpp          | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/GLSL450Instruction.h b/lib/include/spvgentwo/GLSL450Instruction.h
index 7de7866..55aada2 100644
--- a/lib/include/spvgentwo/GLSL450Instruction.h
+++ b/lib/include/spvgentwo/GLSL450Instruction.h
@@ -105,9 +105,9 @@ namespace spvgentwo
 		Instruction* opReflect(Instruction* _pI, Instruction* _pN) { return scalarOrFloatVec2(glslstd450::Op::Reflect, _pI, _pN); }
 		Instruction* opRefract(Instruction* _pIvec, Instruction* _pNvec, Instruction* _pEtaFloat);
 		
-		Instruction* opFindILsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindILsb, _pIntVec, Sign::Any); }
-		Instruction* opFindSMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindSMsb, _pIntVec, Sign::Any); }
-		Instruction* opFindUMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindUMsb, _pIntVec, Sign::Any); }
+		Instruction* opFindILsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindILsb, _pIntVec, Sign::Any, 32u); }
+		Instruction* opFindSMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindSMsb, _pIntVec, Sign::Any, 32u); }
+		Instruction* opFindUMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindUMsb, _pIntVec, Sign::Any, 32u); }
 
 		Instruction* opInterpolateAtCentroid(Instruction* _pInterpolant) { return interpolate(glslstd450::Op::InterpolateAtCentroid, _pInterpolant, nullptr); }
 		Instruction* opInterpolateAtSample(Instruction* _pInterpolant, Instruction* _pSampleInt) { return interpolate(glslstd450::Op::InterpolateAtSample, _pInterpolant, _pSampleInt); }
@@ -122,7 +122,7 @@ namespace spvgentwo
 		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrFloatVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Instruction* _pResultType = nullptr);
 
-		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType = nullptr);
+		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, unsigned int _componentWidth = 0u, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrIntVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Sign _sign, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrIntVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Sign _sign, Instruction* _pResultType = nullptr);
 
diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 008c7be..ed704fd 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -62,7 +62,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec3(glslstd4
 	return error();
 }
 
-spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType)
+spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, unsigned int _componentWidth, Instruction* _pResultType)
 {
 	Instruction* pTypeInstr = _pInt->getResultTypeInstr();
 	if (pTypeInstr == nullptr) return error();
@@ -70,7 +70,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrIntVec1(glslstd450
 	const Type* pType = pTypeInstr->getType();
 	if (pType == nullptr) return error();
 
-	if (pType->isScalarOrVectorOf(spv::Op::OpTypeInt) && pType->getBaseType().hasSign(_sign))
+	if (pType->isScalarOrVectorOf(spv::Op::OpTypeInt, 0u, _componentWidth) && pType->getBaseType().hasSign(_sign))
 	{
 		return opExtInst(_pResultType != nullptr ? _pResultType : pTypeInstr, ExtName, static_cast<unsigned int>(_op), _pInt);
 	}
-- 
2.43.0


From 770d2886e77be297039d39f9c37ccb1f5dfcdf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 040/115] fix: opImageWrite compared the length of the texel to
 the dimension of the image

---
 lib/include/spvgentwo/InstructionTemplate.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index b3ec547..9cf0fe7 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -793,7 +793,7 @@ namespace spvgentwo
 
 		const Type& sampledType = imageType->front();
 
-		if (texelType->isScalarOrVectorOf(sampledType.getType(), getImageDimension(imageType->getImageDimension()) ) == false)
+		if ((sampledType.isVoid() ? texelType->isNumericalScalarOrVector() : (texelType->isScalarOrVectorOf(sampledType.getType()) && texelType->getBaseType() == sampledType)) == false)
 		{
 			module->logError("OpImageWrite texel type must be numerical scalar or vector of type %s", sampledType.getString());
 			return error();
-- 
2.43.0


From b1472552433a490e68d46e0cd10461f82ab1e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 041/115] fix: image coordinates of cubes have three
 components, fetches need integers, gathers and projective samples floats

---
 lib/include/spvgentwo/InstructionTemplate.inl | 5 ++---
 lib/source/Instruction.cpp                    | 5 +++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 9cf0fe7..95bfbe7 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -695,14 +695,13 @@ namespace spvgentwo
 				return error();
 			}
 			isSampled = false;
-			coordCheckArgs |= CheckImgCoord::CanBeInt;
+			coordCheckArgs |= CheckImgCoord::MustBeInt;
 			break;
 		case spv::Op::OpImageDrefGather:
 			isDref = true; [[fallthrough]];
 		case spv::Op::OpImageGather:
 			isSampled = true;
 			isComponent = !isDref;
-			coordCheckArgs |= CheckImgCoord::CanBeInt;
 			if (spv::Dim d = imageType->getImageDimension(); d != spv::Dim::Dim2D && d != spv::Dim::Cube && d != spv::Dim::Rect)
 			{
 				module.logError("OpImageGather requres Dim of sampled image to be 2D, Cube or Rect");
@@ -711,7 +710,7 @@ namespace spvgentwo
 			break;
 		case spv::Op::OpImageSampleImplicitLod:			isSampled = true; break;
 		case spv::Op::OpImageSampleExplicitLod:			isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; break;
-		case spv::Op::OpImageSampleProjImplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; coordCheckArgs |= CheckImgCoord::IsProjective; break;
+		case spv::Op::OpImageSampleProjImplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; break;
 		case spv::Op::OpImageSampleProjExplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; break;
 		case spv::Op::OpImageSampleDrefImplicitLod:		isSampled = true; isDref = true; break;
 		case spv::Op::OpImageSampleDrefExplicitLod:		isSampled = true; isDref = true; break;
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 7f98fa1..370cb24 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1847,6 +1847,11 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 
 	unsigned int dim = getImageDimension(_pImageType->getImageDimension());
 
+	if (_pImageType->getImageDimension() == spv::Dim::Cube)
+	{
+		dim = 3u; // direction vector
+	}
+
 	if (dim == 0u)
 	{
 		module->logError("Image dimension not supported/implemented");
-- 
2.43.0


From 7ed8d7eb0bfea50be34ab907807e7de52791b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 042/115] fix: image operations reported success after their
 operands were rejected

---
 lib/include/spvgentwo/InstructionTemplate.inl | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 95bfbe7..55ec72f 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -744,26 +744,24 @@ namespace spvgentwo
 		{
 			if (_imageOperands == spv::ImageOperandsMask::MaskNone)
 			{
-				makeOp(_imageOp, InvalidInstr, InvalidId, _pTargetImage, _pCoordinate);
+				return makeOp(_imageOp, InvalidInstr, InvalidId, _pTargetImage, _pCoordinate);
 			}
 			else
 			{
-				makeOp(_imageOp, InvalidInstr, InvalidId, _pTargetImage, _pCoordinate, literal_t{ _imageOperands }, _operands...);
+				return makeOp(_imageOp, InvalidInstr, InvalidId, _pTargetImage, _pCoordinate, literal_t{ _imageOperands }, _operands...);
 			}
 		}
 		else
 		{
 			if (_imageOperands == spv::ImageOperandsMask::MaskNone)
 			{
-				makeOp(_imageOp, InvalidInstr, InvalidId, _pTargetImage, _pCoordinate, _pDrefOrCompnent);
+				return makeOp(_imageOp, InvalidInstr, InvalidId, _pTargetImage, _pCoordinate, _pDrefOrCompnent);
 			}
 			else
 			{
-				makeOp(_imageOp, InvalidInstr, InvalidId, _pTargetImage, _pCoordinate, _pDrefOrCompnent, literal_t{ _imageOperands }, _operands...);
+				return makeOp(_imageOp, InvalidInstr, InvalidId, _pTargetImage, _pCoordinate, _pDrefOrCompnent, literal_t{ _imageOperands }, _operands...);
 			}
 		}
-
-		return this; // success
 	}
 
 	template<class ...ImageOperands>
-- 
2.43.0


From 3f0dbac73a2de79f7a57f5b29ea97da82d51e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 043/115] fix: opImageQuerySizeLod accepts signed levels

---
 lib/source/Instruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 370cb24..8a89308 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1570,9 +1570,9 @@ spvgentwo::Instruction* spvgentwo::Instruction::opImageQuerySizeLod(Instruction*
 		getModule()->logError("Operand _pImage of OpImageQuerySizeLod must not be MS 1 (multi sampled)");
 		return error();
 	}
-	else if (const Type* lodType = _pLoDInt->getType(); lodType == nullptr || lodType->isUInt() == false)
+	else if (const Type* lodType = _pLoDInt->getType(); lodType == nullptr || lodType->isInt() == false)
 	{
-		getModule()->logError("Operand _pLoDInt of OpImageQuerySizeLod must be of type unsinged scalar integer");
+		getModule()->logError("Operand _pLoDInt of OpImageQuerySizeLod must be of type scalar integer");
 		return error();
 	}
 
-- 
2.43.0


From eb809854b22c38972ce77ec6f7e0a1e5f86a822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 044/115] fix: result types of depth comparing samples, single
 channel reads and one dimensional size queries are scalars

---
 lib/source/TypeInferenceAndValiation.cpp | 36 +++++++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index e5709bb..258daa0 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -385,12 +385,35 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		// Result Type must be a scalar or vector of floating-point type or integer type. It must be a scalar or vector with
 		// component type the same as Sampled Type of the OpTypeImage(unless that Sampled Type is OpTypeVoid)
 
-		unsigned int components = instr != spv::Op::OpImageRead ? 4u : getImageChannelCount(image->getImageFormat());
-		
+		//OpImageSampleDref:
+		// Result Type must be a scalar of integer type or floating-point type. It must be the same as Sampled Type
+
+		unsigned int components = 4u;
+
+		switch (instr)
+		{
+		case spv::Op::OpImageRead:
+			components = getImageChannelCount(image->getImageFormat());
+			if (components == 0u) components = 4u; // unknown format
+			break;
+		case spv::Op::OpImageSampleDrefImplicitLod:
+		case spv::Op::OpImageSampleDrefExplicitLod:
+		case spv::Op::OpImageSampleProjDrefImplicitLod:
+		case spv::Op::OpImageSampleProjDrefExplicitLod:
+			components = 1u;
+			break;
+		default:
+			break;
+		}
+
 		if (sampledType.isVoid())
 		{
-			// assume float4
-			return module->type<vector_t<float, 4>>();
+			// assume float
+			return components == 1u ? module->type<float>() : module->addType(module->newType().Vector(components).FloatM());
+		}
+		else if (components == 1u)
+		{
+			return module->addType(sampledType);
 		}
 		else
 		{
@@ -427,6 +450,11 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 
 		auto dim = getImageDimension(type1->getImageDimension()) + (type1->getImageArray() ? 1u : 0u);
 
+		if (dim == 1u)
+		{
+			return module->type<unsigned int>();
+		}
+
 		return module->addType(module->newType().Vector(dim).UIntM());
 	}
 	case spv::Op::OpImageQueryLod:
-- 
2.43.0


From 57769952d62a63329cf5b680da421c98454b8c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 045/115] fix: result type of OpVectorTimesMatrix could not be
 inferred

---
 lib/source/TypeInferenceAndValiation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 258daa0..f78db03 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -219,14 +219,14 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		break;
 	case spv::Op::OpVectorTimesMatrix:
 	{
-		if (type1 == nullptr) return module->getErrorInstr();
+		if (type2 == nullptr) return module->getErrorInstr();
 
 		// Matrix must be a matrix with the same Component Type as the Component Type in Result Type.
 		// Its number of columns must equal the number of components in Result Type.
 		// => return matrix row type:
-		if (type1->isMatrix())
+		if (type2->isMatrix())
 		{
-			return module->addType(type1->front().wrapVector(type1->getMatrixColumnCount()));
+			return module->addType(type2->getBaseType().wrapVector(type2->getMatrixColumnCount()));
 		}
 		break;
 	}
-- 
2.43.0


From 4f4675f179ffadf3d7289916e8bb92205251784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 046/115] fix: image operands were checked with missing
 operands and inverted conditions, only the first of several was checked

---
 lib/source/TypeInferenceAndValiation.cpp | 145 +++++++++++------------
 1 file changed, 71 insertions(+), 74 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index f78db03..94657b8 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -23,7 +23,6 @@ namespace
 		}
 
 		const Type* imageType = imgIt->getInstruction()->getType();
-		const Type* coordType = coordIt->getInstruction()->getType();
 
 		Flag<spv::ImageOperandsMask> opMask = spv::ImageOperandsMask::MaskNone;
 		Instruction::Iterator imageOp1 = nullptr;
@@ -39,90 +38,88 @@ namespace
 			if (drefCompoOrMask.next()) opMask = static_cast<spv::ImageOperandsMask>(drefCompoOrMask.next()->getLiteral().value);
 		}
 
-		Instruction* op1 = imageOp1 != nullptr ? imageOp1->getInstruction() : nullptr;
-		Instruction* op2 = imageOp1.next() != nullptr ? imageOp1.next()->getInstruction() : nullptr;
-		const Type* type1 = op1 != nullptr ? op1->getType() : nullptr;
-		const Type* type2 = op2 != nullptr ? op2->getType() : nullptr;;
-
-		auto checkCoordAndOperandDim = [&]() ->bool
+		// returns the next image operand, nullptr if it is missing
+		auto nextOperand = [&]() -> const Instruction*
 		{
-			unsigned int coordLength = coordType->getScalarOrVectorLength() - (imageType->getImageArray() ? 1u : 0u);
-			if (coordLength != type1->getScalarOrVectorLength() || coordLength != type2->getScalarOrVectorLength())
+			const Instruction* operand = imageOp1 != nullptr && imageOp1->isInstruction() ? imageOp1->getInstruction() : nullptr;
+			if (operand == nullptr || operand->getType() == nullptr)
 			{
-				module->logError("Invalid derivative dimensions");
-				return false;
+				module->logError("Image operand is missing or has no type");
+				return nullptr;
 			}
-			return true;
+			++imageOp1;
+			return operand;
 		};
 
+		const Type& image = imageType->isSampledImage() ? imageType->front() : *imageType;
+
+		// offsets and derivatives have the components of the coordinate without array layer and projective divisor
+		auto checkOperandDim = [&](const Type* _pType) ->bool
+		{
+			const unsigned int length = image.getImageDimension() == spv::Dim::Cube ? 3u : getImageDimension(image.getImageDimension());
+			return module->logError(_pType->getScalarOrVectorLength() == length, "Invalid derivative or offset dimensions");
+		};
+
+		// image operands are ordered by their bit in the mask
 		for (unsigned int i = 0u; opMask != spv::ImageOperandsMask::MaskNone && i < (unsigned int)spv::ImageOperandsShift::ZeroExtend; ++i)
 		{
-			// TODO: get operands within the loop and dont return in the switch
 			spv::ImageOperandsMask mask = static_cast<spv::ImageOperandsMask>(1u << i);
-			if ((opMask & mask) == mask)
+			if ((opMask & mask) != mask) continue;
+
+			const Instruction* operand = nullptr;
+
+			switch (mask)
 			{
-				switch (mask)
+			case spv::ImageOperandsMask::Bias:
+				if (operand = nextOperand(); operand == nullptr || module->logError(operand->getType()->isFloat(), "Bias operand must be of type float") == false) return false;
+				break;
+			case spv::ImageOperandsMask::Lod:
+				if (operand = nextOperand(); operand == nullptr || module->logError(op == spv::Op::OpImageFetch ? operand->getType()->isInt() : operand->getType()->isFloat(), "Lod operand must be of type float (or int for OpImageFetch)") == false) return false;
+				break;
+			case spv::ImageOperandsMask::Grad:
+				for (unsigned int d = 0u; d < 2u; ++d) // dx, dy
 				{
-				case spv::ImageOperandsMask::Bias:
-					return module->logError(type1->isFloat(), "Bias operand must be of type float");
-				case spv::ImageOperandsMask::Lod:
-					return module->logError(op == spv::Op::OpImageFetch ? type1->isInt() : type1->isFloat(), "Lod operand must be of type float (or int for OpImageFetch)");
-				case spv::ImageOperandsMask::Grad:
-					if (checkCoordAndOperandDim() == false)
-					{
-						return false;
-					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeFloat) == false || type2->isBaseTypeOf(spv::Op::OpTypeFloat))
-					{
-						module->logError("Explicit lod grad operands must be scalar or vector of float");
-						return false;
-					}
-					return true;
-				case spv::ImageOperandsMask::ConstOffset:
-					if (op1->isSpecOrConstant() == false)
-					{
-						module->logError("Image operand is not a constant op");
-						return false;
-					}
-					[[fallthrough]];
-				case spv::ImageOperandsMask::Offset:
-					if (checkCoordAndOperandDim() == false)
-					{
-						return false;
-					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeInt) == false || type2->isBaseTypeOf(spv::Op::OpTypeInt))
-					{
-						module->logError("Explicit lod grad operands must be scalar or vector of integer");
-						return false;
-					}
-					return true;
-				case spv::ImageOperandsMask::ConstOffsets:
-					break; // not implemented yet
-				case spv::ImageOperandsMask::Sample:
-					if (op != spv::Op::OpImageFetch &&
-						op != spv::Op::OpImageRead &&
-						op != spv::Op::OpImageWrite &&
-						op != spv::Op::OpImageSparseFetch &&
-						op != spv::Op::OpImageSparseRead) {
-						module->logError("Sample operand can only be used with OpImageFetch,OpImageRead,OpImageWrite,OpImageSparseFetch or OpImageSparseRead");
-						return false;
-					}
-					return module->logError(type1->isInt() && imageType->getImageMultiSampled(), "Sample operand must be of type int & the image must be MS");
-				case spv::ImageOperandsMask::MinLod:
-					return module->logError(type1->isFloat(), "MinLod operand must be of type float");
-				case spv::ImageOperandsMask::MakeTexelAvailableKHR:
-				case spv::ImageOperandsMask::MakeTexelVisibleKHR:
-				case spv::ImageOperandsMask::NonPrivateTexelKHR:
-				case spv::ImageOperandsMask::VolatileTexelKHR:
-					return true; // reserved, no type check
-				case spv::ImageOperandsMask::SignExtend:
-					break; // not implemented yet
-				case spv::ImageOperandsMask::ZeroExtend:
-					break; // not implemented yet
-				default:
-					module->logError("Unknown operand mask");
-					continue;
+					if (operand = nextOperand(); operand == nullptr || checkOperandDim(operand->getType()) == false) return false;
+					if (module->logError(operand->getType()->isScalarOrVectorOf(spv::Op::OpTypeFloat), "Explicit lod grad operands must be scalar or vector of float") == false) return false;
+				}
+				break;
+			case spv::ImageOperandsMask::ConstOffset:
+			case spv::ImageOperandsMask::Offset:
+				if (operand = nextOperand(); operand == nullptr || checkOperandDim(operand->getType()) == false) return false;
+				if (mask == spv::ImageOperandsMask::ConstOffset && module->logError(operand->isSpecOrConstant(), "Image operand is not a constant op") == false) return false;
+				if (module->logError(operand->getType()->isScalarOrVectorOf(spv::Op::OpTypeInt), "Offset operands must be scalar or vector of integer") == false) return false;
+				break;
+			case spv::ImageOperandsMask::ConstOffsets:
+				if (operand = nextOperand(); operand == nullptr || module->logError(operand->isSpecOrConstant(), "Image operand is not a constant op") == false) return false;
+				break;
+			case spv::ImageOperandsMask::Sample:
+				if (op != spv::Op::OpImageFetch &&
+					op != spv::Op::OpImageRead &&
+					op != spv::Op::OpImageWrite &&
+					op != spv::Op::OpImageSparseFetch &&
+					op != spv::Op::OpImageSparseRead) {
+					module->logError("Sample operand can only be used with OpImageFetch,OpImageRead,OpImageWrite,OpImageSparseFetch or OpImageSparseRead");
+					return false;
 				}
+				if (operand = nextOperand(); operand == nullptr || module->logError(operand->getType()->isInt() && image.getImageMultiSampled(), "Sample operand must be of type int & the image must be MS") == false) return false;
+				break;
+			case spv::ImageOperandsMask::MinLod:
+				if (operand = nextOperand(); operand == nullptr || module->logError(operand->getType()->isFloat(), "MinLod operand must be of type float") == false) return false;
+				break;
+			case spv::ImageOperandsMask::MakeTexelAvailableKHR:
+			case spv::ImageOperandsMask::MakeTexelVisibleKHR:
+				if (nextOperand() == nullptr) return false; // reserved, no type check
+				break;
+			case spv::ImageOperandsMask::NonPrivateTexelKHR:
+			case spv::ImageOperandsMask::VolatileTexelKHR:
+				break; // no operand
+			case spv::ImageOperandsMask::SignExtend:
+				break; // not implemented yet
+			case spv::ImageOperandsMask::ZeroExtend:
+				break; // not implemented yet
+			default:
+				module->logError("Unknown operand mask");
+				continue;
 			}
 		}
 
-- 
2.43.0


From 24afbb2c4857f3e76e4402314c1d01e495f620e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 047/115] fix: opPhiDynamic lost its first variable

---
 lib/source/Instruction.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 8a89308..4227c9e 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1080,17 +1080,19 @@ spvgentwo::Instruction* spvgentwo::Instruction::opPhiDynamic(const List<Instruct
 
 	if (type == nullptr) return error();
 
-	makeOp(spv::Op::OpPhi, type, InvalidId);
-
-	for (auto it = _variables.begin().next(); it != _variables.end(); ++it)
+	for (Instruction* var : _variables)
 	{
-		Instruction* var = *it;
 		if (var == nullptr || (var->getResultTypeInstr() != type) || (var->getBasicBlock() == nullptr))
 		{
 			getModule()->logError("Invalid variable (type or null) passed to opPhiDynamic");
 			return error();
 		}
+	}
 
+	makeOp(spv::Op::OpPhi, type, InvalidId);
+
+	for (Instruction* var : _variables)
+	{
 		addOperand(var);
 		addOperand(var->getBasicBlock());
 	}
-- 
2.43.0


From 5e2a2c8720d540e1319ef2123472e98c90b218e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 048/115] fix: interface of an entry point lists all variables
 of an instruction, not only the first

---
 lib/source/Function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 583abed..52981b1 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -380,7 +380,6 @@ void spvgentwo::collectReferencedVariables(const Function& _func, List<Operand>&
 					{
 						_outVarInstr.emplace_back(pArg);
 					}
-					break;
 				}
 			}
 		}
-- 
2.43.0


From 38d8a453eb01a2a1507e52c396d71ca1d50e7373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 049/115] fix: addCapability did not add the second base
 capability

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index ba31098..0034ee6 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -320,7 +320,7 @@ void spvgentwo::Module::addCapability(spv::Capability _capability, bool _addDepe
 		}
 		if (cap.secondary != spv::Capability::Max)
 		{
-			addCapability(cap.primary, true);
+			addCapability(cap.secondary, true);
 		}
 	}
 
-- 
2.43.0


From dab097b78594fab22129339298ee4220f809dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 050/115] fix: interface of entry points was collected for the
 version before finalization raised it

---
 lib/source/Module.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 0034ee6..a02552e 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1190,16 +1190,16 @@ bool spvgentwo::Module::write(IWriter& _writer) const
 
 spvgentwo::spv::Id spvgentwo::Module::finalize( const Grammar* _pGrammar )
 {
-	finalizeEntryPoints();
+	const spv::Id maxId = assignIDs( _pGrammar ); // overwrites m_spvBound and m_spvVersion
 
-	return assignIDs( _pGrammar ); // overwrites m_spvBound
+	finalizeEntryPoints(); // interface depends on the version
+
+	return maxId;
 }
 
 bool spvgentwo::Module::finalizeAndWrite(IWriter& _writer, const Grammar* _pGrammar)
 {
-	finalizeEntryPoints();
-
-	assignIDs(_pGrammar); // overwrites m_spvBound
+	finalize(_pGrammar);
 
 	return write(_writer);
 }
-- 
2.43.0


From 1b0c74ffe6b14feeca6ea189eb120d40e9d81e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 051/115] fix: required capabilities are alternatives,
 finalization declared all of them, Kernel for shaders and those of
 unavailable extensions

---
 lib/include/spvgentwo/Module.h |  3 ++
 lib/source/Module.cpp          | 54 ++++++++++++++++++++++++++++------
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/lib/include/spvgentwo/Module.h b/lib/include/spvgentwo/Module.h
index 5251822..2bcffd7 100644
--- a/lib/include/spvgentwo/Module.h
+++ b/lib/include/spvgentwo/Module.h
@@ -399,6 +399,9 @@ namespace spvgentwo
 	private:
 		void updateParentPointers();
 
+		// adds one of the capabilities which enable an instruction, unless one is declared already
+		void addRequiredCapability(const Vector<spv::Capability>& _alternatives);
+
 	private:
 		IAllocator* m_pAllocator = nullptr;
 		ILogger* m_pLogger = nullptr;
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a02552e..90ba03d 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -327,6 +327,49 @@ void spvgentwo::Module::addCapability(spv::Capability _capability, bool _addDepe
 	m_Capabilities.emplaceUnique(_capability, this, spv::Op::OpCapability, _capability);
 }
 
+void spvgentwo::Module::addRequiredCapability(const Vector<spv::Capability>& _alternatives)
+{
+	// any of the capabilities enables the instruction, those of extensions (reserved range of enumerants) might not be available
+	auto isExtension = [](spv::Capability _capability) { return static_cast<unsigned>(_capability) >= 4096u; };
+
+	spv::Capability required = spv::Capability::Max;
+	bool enabled = false; // by an extension
+	bool matchesBase = false;
+
+	for (const spv::Capability& c : _alternatives)
+	{
+		if (isExtension(c))
+		{
+			enabled |= checkCapability(c);
+			continue;
+		}
+
+		if (checkCapability(c))
+		{
+			return; // already enabled
+		}
+
+		// prefer capabilities which depend on declared ones, dont mix Shader and Kernel
+		const bool baseDeclared = checkCapability(getBaseCapability(c).primary);
+
+		if (required == spv::Capability::Max || (baseDeclared && matchesBase == false))
+		{
+			required = c;
+			matchesBase = baseDeclared;
+		}
+	}
+
+	if (required == spv::Capability::Max)
+	{
+		if (enabled || _alternatives.empty()) return;
+
+		required = _alternatives.front();
+	}
+
+	logDebug("Adding SPIR-V capability %u", static_cast<unsigned>(required)); // TODO: get name of capability
+	addCapability(required);
+}
+
 bool spvgentwo::Module::checkCapability(spv::Capability _capability) const
 {
 	return m_Capabilities.find(_capability) != m_Capabilities.end();
@@ -724,11 +767,7 @@ spvgentwo::spv::Id spvgentwo::Module::assignIDs(const Grammar* _pGrammar)
 		{
 			if (auto* info = _pGrammar->getInfo(static_cast<unsigned int>(instr.getOperation())); info != nullptr)
 			{
-				for (const spv::Capability& c : info->capabilities)
-				{
-					logDebug("Adding SPIR-V capability %u", static_cast<unsigned>(c)); // TODO: get name of capability
-					addCapability(c);
-				}
+				addRequiredCapability(info->capabilities);
 				for (const spv::Extension& e : info->extensions)
 				{
 					logDebug("Adding SPIR-V extension %s for use of %s", spv::ExtensionNames[static_cast<unsigned>(e)], info->name);
@@ -1660,10 +1699,7 @@ void spvgentwo::Module::addRequiredCapabilities(const Grammar& _grammar)
 	{
 		if (auto* info = _grammar.getInfo(static_cast<unsigned int>(_instr.getOperation())); info != nullptr)
 		{
-			for (const spv::Capability& c : info->capabilities)
-			{
-				addCapability(c);
-			}
+			addRequiredCapability(info->capabilities);
 		}
 	};
 
-- 
2.43.0


From 1ca0b51d01a01082886fd38195a19c46b62435b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 052/115] fix: result type of opVectorTimesMatrix was the type
 of the vector

---
 lib/source/Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 4227c9e..7e117ea 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1447,7 +1447,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVectorTimesMatrix(Instruction*
 
 	if (pVecType->isVectorOfFloat() && pMatType->isMatrix() && pMatType->hasSameBase(*pVecType) && pMatType->front().getVectorComponentCount() == pVecType->getVectorComponentCount())
 	{
-		return makeOp(spv::Op::OpVectorTimesMatrix, _pVector->getResultTypeInstr(), InvalidId, _pVector, _pMatrix);
+		return makeOp(spv::Op::OpVectorTimesMatrix, InvalidInstr, InvalidId, _pVector, _pMatrix);
 	}
 
 	getModule()->logError("Operand of OpVectorTimesMatrix is not a vector or matrix of float type");
-- 
2.43.0


From 372dc938e89bdfb032716084a707922fe046e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 053/115] fix: opCopyMemory rejected two memory operand masks
 for version 1.4

---
 lib/include/spvgentwo/InstructionTemplate.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 55ec72f..50efc2b 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -469,9 +469,9 @@ namespace spvgentwo
 			return; // early out
 		}
 
-		if (module->getSpvVersion() <= makeVersion(1u, 4u) && _sourceMemOperands)
+		if (module->getSpvVersion() < makeVersion(1u, 4u) && _sourceMemOperands)
 		{
-			module->logError("Operand _sourceMemOperands of OpCopyMemory not supported before SPIR-V 1.5");
+			module->logError("Operand _sourceMemOperands of OpCopyMemory not supported before SPIR-V 1.4");
 			return;
 		}
 
-- 
2.43.0


From b257c084c83e4be42e5b68ee8ef43b10ffc67f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 054/115] fix: coordinate of opImageQueryLod has no array layer

---
 lib/include/spvgentwo/Instruction.h           | 3 ++-
 lib/include/spvgentwo/InstructionTemplate.inl | 2 +-
 lib/source/Instruction.cpp                    | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 850af2b..0d51a49 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -766,7 +766,8 @@ namespace spvgentwo
 		{
 			IsProjective = 1 << 0,
 			CanBeInt = 1 << 1,
-			MustBeInt = 1 << 2
+			MustBeInt = 1 << 2,
+			NoArrayLayer = 1 << 3
 		};
 
 		// Checks dimension & element type of coordiantes to access a image of type _pImageType
diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 50efc2b..192345c 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -716,7 +716,7 @@ namespace spvgentwo
 		case spv::Op::OpImageSampleDrefExplicitLod:		isSampled = true; isDref = true; break;
 		case spv::Op::OpImageSampleProjDrefImplicitLod: isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; isDref = true; break;
 		case spv::Op::OpImageSampleProjDrefExplicitLod: isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; isDref = true; break;
-		case spv::Op::OpImageQueryLod:					isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; break;
+		case spv::Op::OpImageQueryLod:					isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; coordCheckArgs |= CheckImgCoord::NoArrayLayer; break;
 
 			break;
 		default:
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 7e117ea..f93b277 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1860,7 +1860,7 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 		return false;
 	}
 
-	if (_pImageType->getImageArray())
+	if (_pImageType->getImageArray() && _args.none(CheckImgCoord::NoArrayLayer))
 	{
 		dim += 1u;
 	}
-- 
2.43.0


From 131f0d5c65e94249ac1bff97797f11874951cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 055/115] fix: uses of a basic block's label as branch target
 were neither gathered nor replaced

---
 lib/source/Module.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 90ba03d..70ba1af 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -12,6 +12,25 @@
 namespace
 {
 	static spvgentwo::ITypeInferenceAndVailation sg_DefaultTypeInference{};
+
+	// branch targets refer to the label of their basic block
+	bool isUseOf(const spvgentwo::Operand& _operand, const spvgentwo::Instruction* _pInstr)
+	{
+		const spvgentwo::BasicBlock* target = _operand.getBranchTarget();
+		return _operand == _pInstr || (target != nullptr && target->getLabel() == _pInstr);
+	}
+
+	void replaceUse(spvgentwo::Operand& _operand, spvgentwo::Instruction* _pReplacement)
+	{
+		if (_operand.isBranchTarget() && _pReplacement != nullptr && *_pReplacement == spvgentwo::spv::Op::OpLabel)
+		{
+			_operand = _pReplacement->getBasicBlock();
+		}
+		else
+		{
+			_operand = _pReplacement;
+		}
+	}
 }
 
 spvgentwo::Module::Module(IAllocator* _pAllocator, ILogger* _pLogger, ITypeInferenceAndVailation* _pTypeInferenceAndVailation) :
@@ -1542,12 +1561,12 @@ void spvgentwo::Module::gatherUses(const Instruction* _pInstr, List<Instruction*
 	{
 		for (auto it = _instr.getFirstActualOperand(), end = _instr.end(); it != end; ++it)
 		{
-			if (*it == _pInstr)
+			if (isUseOf(*it, _pInstr))
 			{
 				_outUses.emplace_back(&_instr);
 				if (_pReplacement != nullptr)
 				{
-					*it = _pReplacement;				
+					replaceUse(*it, _pReplacement);
 				}
 			}
 		}
@@ -1567,9 +1586,9 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 	{
 		for (auto it = _instr.getFirstActualOperand(), end = _instr.end(); it != end; ++it)
 		{
-			if (*it == _pInstr)
+			if (isUseOf(*it, _pInstr))
 			{
-				*it = _pReplacement;
+				replaceUse(*it, _pReplacement);
 			}
 		}
 	};
-- 
2.43.0


From e29130df6b340f86d729b36f680e530a3f8ad1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 056/115] fix: moving a module lost its generator

---
 lib/source/Module.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 70ba1af..c387dcb 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -78,6 +78,7 @@ spvgentwo::Module::Module(Module&& _other) noexcept:
 	m_pLogger(_other.m_pLogger),
 	m_pTypeInferenceAndVailation(_other.m_pTypeInferenceAndVailation),
 	m_spvVersion(_other.m_spvVersion),
+	m_spvGenerator(_other.m_spvGenerator),
 	m_spvBound(_other.m_spvBound),
 	m_spvSchema(_other.m_spvSchema),
 	m_Functions(stdrep::move(_other.m_Functions)),
@@ -113,6 +114,7 @@ spvgentwo::Module& spvgentwo::Module::operator=(Module&& _other) noexcept
 	m_pLogger = _other.m_pLogger;
 	m_pTypeInferenceAndVailation = _other.m_pTypeInferenceAndVailation;
 	m_spvVersion = _other.m_spvVersion;
+	m_spvGenerator = _other.m_spvGenerator;
 	m_spvBound = _other.m_spvBound;
 	m_spvSchema = _other.m_spvSchema;
 	m_Functions = stdrep::move(_other.m_Functions);
-- 
2.43.0


From 34cf277da7d714d61b03280e4ba75aef6440e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 057/115] fix: entry points know their name and execution model
 however they are created

---
 lib/include/spvgentwo/EntryPointTemplate.inl | 3 ++-
 lib/source/EntryPoint.cpp                    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/EntryPointTemplate.inl b/lib/include/spvgentwo/EntryPointTemplate.inl
index 6a86a7a..c3625cb 100644
--- a/lib/include/spvgentwo/EntryPointTemplate.inl
+++ b/lib/include/spvgentwo/EntryPointTemplate.inl
@@ -6,7 +6,8 @@ namespace spvgentwo
 	inline EntryPoint::EntryPoint(Module* _pModule, const spv::ExecutionModel _model, const char* _pEntryPointName, const Flag<spv::FunctionControlMask> _control, Instruction* _pReturnType, TypeInstr* ..._paramTypeInstructions) :
 		Function(_pModule, _pEntryPointName, _control, _pReturnType, _paramTypeInstructions...),
 		m_EntryPoint(this, spv::Op::OpNop),
-		m_ExecutionModel(_model)
+		m_ExecutionModel(_model),
+		m_nameStorage(_pModule->getAllocator(), _pEntryPointName)
 	{
 		m_isEntryPoint = true;
 		m_EntryPoint.opEntryPoint(_model, &m_Function, _pEntryPointName);
diff --git a/lib/source/EntryPoint.cpp b/lib/source/EntryPoint.cpp
index 1102789..d199fdb 100644
--- a/lib/source/EntryPoint.cpp
+++ b/lib/source/EntryPoint.cpp
@@ -50,6 +50,7 @@ spvgentwo::Instruction* spvgentwo::EntryPoint::finalize(const spv::ExecutionMode
 	{
 		m_EntryPoint.opEntryPoint(_model, &m_Function, _pEntryPointName);
 		m_nameStorage = _pEntryPointName;
+		m_ExecutionModel = _model;
 	}
 
 	return pFunc;
-- 
2.43.0


From f260dd5417034137d5bf84cdcdca111fc649f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 058/115] fix: names of members do not find their owner, empty
 names survive reading

---
 lib/source/Module.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index c387dcb..1bf5a10 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1224,6 +1224,7 @@ bool spvgentwo::Module::reconstructNames(IAllocator* _pAllocator)
 		if (name.empty())
 		{
 			logWarning("Empty OpName literal string");
+			name = ""; // keep it terminated
 		}
 	}
 
@@ -1773,6 +1774,12 @@ spvgentwo::Instruction* spvgentwo::Module::getInstructionByName(const char* _pNa
 {
 	for (Instruction& instr : m_Names) 
 	{
+		// OpMemberName names a member, not the instruction itself
+		if (instr.getOperation() != spv::Op::OpName)
+		{
+			continue;
+		}
+
 		auto it = instr.getFirstActualOperand();
 
 		if (Instruction* target = it->getInstruction(); target != nullptr)
-- 
2.43.0


From 2af7f058c9ea78ce7271f27016f102b4315eb9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 059/115] fix: opCompositeConstruct accepted any constituents

---
 lib/include/spvgentwo/Instruction.h           |  3 +
 lib/include/spvgentwo/InstructionTemplate.inl |  7 +++
 lib/source/Instruction.cpp                    | 59 +++++++++++++++++++
 3 files changed, 69 insertions(+)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 0d51a49..b37e22e 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -783,6 +783,9 @@ namespace spvgentwo
 		Instruction* genericImageOp(const spv::Op _imageOp, Instruction* _pTargetImage, Instruction* _pCoordinate, Instruction* _pDrefOrCompnent, const Flag<spv::ImageOperandsMask> _imageOperands, ImageOperands... _operands);
 
 		// checks types based on passed _type and_sign
+		// check number and types of the constituents of a composite type
+		bool checkConstituents(const Type& _composite, const Instruction* const* _pConstituents, sgt_size_t _count) const;
+
 		Instruction* scalarVecOp(spv::Op _op, spv::Op _type, Sign _sign, Instruction* _pLeft, Instruction* _pRight, const char* _pErrorMsg, bool _checkSign);
 
 		// checks types based on passed _op using getTypeFromOp(_op, sign)
diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 192345c..f5aa2d5 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -541,6 +541,13 @@ namespace spvgentwo
 			return error();
 		}
 
+		const Instruction* const constituents[] = { _pFirstConstituent, _constituents... };
+		if (checkConstituents(*type, constituents, 1u + sizeof...(_constituents)) == false)
+		{
+			getModule()->logError("Constituents of opCompositeConstruct don't match the result type");
+			return error();
+		}
+
 		return makeOp(spv::Op::OpCompositeConstruct, _pResultType, InvalidId, _pFirstConstituent, _constituents...);
 	}
 
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index f93b277..fb2e20e 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1265,6 +1265,18 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeConstructDynamic(Inst
 		return error();
 	}
 
+	Vector<const Instruction*> constituents(getModule()->getAllocator());
+	for (const Instruction* constituent : _constituents)
+	{
+		constituents.emplace_back(constituent);
+	}
+
+	if (checkConstituents(*type, constituents.data(), constituents.size()) == false)
+	{
+		getModule()->logError("Constituents of opCompositeConstruct don't match the result type");
+		return error();
+	}
+
 	makeOp(spv::Op::OpCompositeConstruct, _pResultType, InvalidId);
 
 	for (Instruction* constituent : _constituents)
@@ -1898,6 +1910,53 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 	return true;
 }
 
+bool spvgentwo::Instruction::checkConstituents(const Type& _composite, const Instruction* const* _pConstituents, sgt_size_t _count) const
+{
+	sgt_size_t expected = 0u;
+
+	if (_composite.isVector())
+	{
+		if (_count < 2u) return false;
+		expected = _composite.getVectorComponentCount();
+	}
+	else if (_composite.isMatrix())
+	{
+		expected = _composite.getMatrixColumnCount();
+	}
+	else if (_composite.isArray())
+	{
+		expected = _composite.getArrayLength();
+	}
+	else if (_composite.isStruct())
+	{
+		expected = _composite.getSubTypes().size();
+	}
+
+	sgt_size_t components = 0u;
+	auto member = _composite.getSubTypes().begin();
+
+	for (sgt_size_t i = 0u; i < _count; ++i)
+	{
+		const Type* type = _pConstituents[i] != nullptr ? _pConstituents[i]->getType() : nullptr;
+
+		if (type == nullptr || components >= expected) return false;
+
+		if (_composite.isVector() && type->isVector()) // contiguous components
+		{
+			if (type->front() != *member) return false;
+			components += type->getVectorComponentCount();
+		}
+		else
+		{
+			if (*type != *member) return false;
+			++components;
+			if (_composite.isStruct()) ++member;
+		}
+	}
+
+	return components == expected;
+}
+
 spvgentwo::Instruction* spvgentwo::Instruction::scalarVecOp(spv::Op _op, spv::Op _type, Sign _sign, Instruction* _pLeft, Instruction* _pRight, const char* _pErrorMsg, bool _checkSign)
 {
 	if (_pLeft == nullptr) return error();
-- 
2.43.0


From bc481a8f7c2b5536982eb44cb8a3955805e21bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 060/115] fix: opVectorShuffle accepted indices out of range

---
 lib/include/spvgentwo/InstructionTemplate.inl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index f5aa2d5..cac448b 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -513,6 +513,15 @@ namespace spvgentwo
 
 		if (lType->isVector() && rType->isVector() && lType->getBaseType() == rType->getBaseType())
 		{
+			const unsigned int available = lType->getVectorComponentCount() + rType->getVectorComponentCount();
+
+			// 0xFFFFFFFF means the component is undefined
+			if (((_components >= available && _components != sgt_uint32_max) || ...))
+			{
+				getModule()->logError("Component index of opVectorShuffle is out of range");
+				return error();
+			}
+
 			Instruction* resultType = getModule()->addType(lType->getBaseType().wrapVector(componentCount));
 			return makeOp(spv::Op::OpVectorShuffle, resultType, InvalidId, _pVector1, _pVector2, literal_t{ _components }...);
 		}
-- 
2.43.0


From 1e0c4517809d62786631fc6bacdc23f62e09b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 061/115] fix: derivatives accepted operands of other widths
 than 32 bits

---
 lib/source/Instruction.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index fb2e20e..1802bbe 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1966,6 +1966,16 @@ spvgentwo::Instruction* spvgentwo::Instruction::scalarVecOp(spv::Op _op, spv::Op
 
 	if (pLeftType == nullptr) return error();
 
+	// derivatives are only defined for components of 32 bits
+	if (_op >= spv::Op::OpDPdx && _op <= spv::Op::OpFwidthCoarse && pLeftType->getBaseType().getFloatWidth() != 32u)
+	{
+		if (_pErrorMsg != nullptr)
+		{
+			getModule()->logError(_pErrorMsg);
+		}
+		return error();
+	}
+
 	if (_pRight == nullptr && pLeftType->isScalarOrVectorOf(_type) && (!_checkSign || pLeftType->getBaseType().hasSign(_sign)))
 	{
 		return makeOp(_op, InvalidInstr, InvalidId, _pLeft);
-- 
2.43.0


From 5e330a2f8d17c7aa967d537e336a582f7a5352be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 062/115] fix: Div of a vector by a scalar of another type left
 a half built expression

---
 lib/source/Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 1802bbe..ccfd16e 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -702,7 +702,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::Div(Instruction* _pLeft, Instruc
 		return opFDiv(_pLeft, _pRight);
 	}
 	else if (BasicBlock* bb = getBasicBlock(); bb != nullptr && _allowVecDividedByScalar &&
-		lType->isVector() && rType->isScalar())
+		lType->isVector() && rType->isScalar() && lType->getBaseType() == *rType)
 	{
 		Instruction* one = nullptr;
 
-- 
2.43.0


From c2f53f10d7178dca978500e2f4d2d2be57812519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 063/115] fix: scalars were accepted as coordinates of images
 of any dimension

---
 lib/source/Instruction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index ccfd16e..67f16a3 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1882,7 +1882,8 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 		dim += 1u;
 	}
 
-	if (dim > 1u && _pCoordType->getVectorComponentCount() < dim)
+	// component count is only meaningful for vectors
+	if ((_pCoordType->isVector() ? _pCoordType->getVectorComponentCount() : 1u) < dim)
 	{
 		module->logError("Dimension of coordinates does not match image type");
 		return false;
-- 
2.43.0


From f8a0cd8c204e544dae676e2d63813587f6de5b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 064/115] fix: opAccessChain accepted a base which is not a
 pointer

---
 lib/include/spvgentwo/InstructionTemplate.inl | 6 ++++++
 lib/source/Instruction.cpp                    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index cac448b..b13ff5f 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -262,6 +262,12 @@ namespace spvgentwo
 		const Type* pBaseType = _pBase->getType();
 		if (pBaseType == nullptr) return error();
 
+		if (pBaseType->isPointer() == false)
+		{
+			getModule()->logError("Base operand of OpAccessChain is not of type pointer");
+			return error();
+		}
+
 		auto it = pBaseType->getSubType(0u, _indices...); // base is a pointer type, so 0 is used to get the inner type
 
 		if (it != nullptr)
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 67f16a3..6c9ae2d 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1143,6 +1143,12 @@ spvgentwo::Instruction* spvgentwo::Instruction::opAccessChain(Instruction* _pBas
 	const Type* pBaseType = _pBase->getType();
 	if (pBaseType == nullptr) return error();
 
+	if (pBaseType->isPointer() == false)
+	{
+		getModule()->logError("Base operand of OpAccessChain is not of type pointer");
+		return error();
+	}
+
 	auto it = pBaseType->getSubType(0u); // base is a pointer type, so 0 is used to get the inner type
 
 	if (it != nullptr)
-- 
2.43.0


From 04bd13f8959cfc5eb91d6990fcf14ced363a0ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 065/115] fix: map the execution models TaskEXT and MeshEXT to
 their shader stages

---
 common/source/VulkanInterop.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 6aea573..476ed10 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -23,8 +23,10 @@ spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionMod
 		return ShaderStageFlagBits::VK_SHADER_STAGE_COMPUTE_BIT;
 	//case spv::ExecutionModel::Kernel: OpenCL
 	case spv::ExecutionModel::TaskNV:
+	case spv::ExecutionModel::TaskEXT:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_TASK_BIT_NV;
 	case spv::ExecutionModel::MeshNV:
+	case spv::ExecutionModel::MeshEXT:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_MESH_BIT_NV;
 	case spv::ExecutionModel::RayGenerationKHR:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_RAYGEN_BIT_KHR;
-- 
2.43.0


From 729b08bc86b3dd85b2ceead08c5943b43c955d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 066/115] fix: classify arrays of resources by their element
 type

---
 common/source/VulkanInterop.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 476ed10..bc97e11 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -48,6 +48,22 @@ spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionMod
     return ShaderStageFlagBits::VK_SHADER_STAGE_FLAG_BITS_MAX_ENUM;
 }
 
+namespace
+{
+	// type of the resource that a variable points to, without the dimensions of an array
+	const spvgentwo::Type& getResourceType(const spvgentwo::Type& _pointer)
+	{
+		const spvgentwo::Type* type = &_pointer.front();
+
+		while ((type->isArray() || type->isRuntimeArray()) && type->getSubTypes().empty() == false)
+		{
+			type = &type->front();
+		}
+
+		return *type;
+	}
+}
+
 spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const Instruction& _variable)
 {
 	if (_variable.getModule() == nullptr || _variable != spv::Op::OpVariable)
@@ -62,7 +78,8 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 		return DescriptorType::VK_DESCRIPTOR_TYPE_MAX_ENUM;
 	}
 
-	const Type& type = ptr->front();
+	// arrays of resources have the descriptor type of their elements
+	const Type& type = getResourceType(*ptr);
 
 	const spv::StorageClass storage = _variable.getStorageClass();
 
-- 
2.43.0


From 344bc8fc9145e6d2e7e4f35a03b4df0c9eae4eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 067/115] fix: classify variables of OpTypeSampledImage as
 combined image samplers

---
 common/source/VulkanInterop.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index bc97e11..a0b1eda 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -136,6 +136,10 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 	{
 	case spv::Op::OpTypeSampler:					return DescriptorType::VK_DESCRIPTOR_TYPE_SAMPLER;
 	case spv::Op::OpTypeSampledImage:
+		if (type.front().getImageDimension() != spv::Dim::Buffer)
+		{
+			return DescriptorType::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
+		}
 		switch (type.front().getImageSamplerAccess())
 		{
 		case SamplerImageAccess::Sampled:			return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER;
-- 
2.43.0


From 481be5ba51a31bf34661a6a35ee40de7c46d20cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 068/115] fix: find samplers and images that share a descriptor
 binding

---
 common/source/VulkanInterop.cpp | 43 ++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index a0b1eda..5d15693 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -62,6 +62,13 @@ namespace
 
 		return *type;
 	}
+
+	// image that is used with a sampler, neither a texel buffer nor a storage image or input attachment
+	bool isSampledOpTypeImage(const spvgentwo::Type& _type)
+	{
+		return _type.isImage() && _type.getImageSamplerAccess() == spvgentwo::SamplerImageAccess::Sampled &&
+			_type.getImageDimension() != spvgentwo::spv::Dim::Buffer && _type.getImageDimension() != spvgentwo::spv::Dim::SubpassData;
+	}
 }
 
 spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const Instruction& _variable)
@@ -91,7 +98,7 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 		(	
 			type.getType() == spv::Op::OpTypeSampler		||
 			type.getType() == spv::Op::OpTypeSampledImage	||
-			type.getType() == spv::Op::OpTypeImage)
+			isSampledOpTypeImage(type))
 		)
 	{
 		const unsigned int set = ReflectionHelper::getDecorationLiteralFromTarget(spv::Decoration::DescriptorSet, &_variable);
@@ -99,33 +106,35 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 
 		if (set != sgt_uint32_max && binding != sgt_uint32_max)
 		{
-			bool foundCombinedImageSampler = false;
-			auto check = [&](const Instruction* _pVar)
+			// a binding that is shared by samplers and sampled images is a combined image sampler
+			bool hasSampler = false;
+			bool hasImage = false;
+
+			auto addType = [&](const Type& _type)
 			{
-				if (foundCombinedImageSampler) // skip rest
-				{
-					return;
-				}
+				hasSampler |= _type.isSampler() || _type.isSampledImage();
+				hasImage |= _type.isSampledImage() || isSampledOpTypeImage(_type);
+			};
+
+			addType(type);
 
+			auto check = [&](const Instruction* _pVar)
+			{
 				// we found another variable in the same set
-				if (const Type* otherType = _pVar->getType(); _pVar != &_variable && otherType != nullptr && _pVar->getStorageClass() == spv::StorageClass::UniformConstant)
+				if (_pVar != nullptr && _pVar != &_variable && *_pVar == spv::Op::OpVariable && _pVar->getStorageClass() == spv::StorageClass::UniformConstant)
 				{
-					// check for [sampler & image] or [image & sampler] variable combo
-					if (((otherType->getType() == spv::Op::OpTypeSampler) && (type.getType() == spv::Op::OpTypeSampledImage || type.getType() == spv::Op::OpTypeImage)) ||
-						((type.getType() == spv::Op::OpTypeSampler) && (otherType->getType() == spv::Op::OpTypeSampledImage || otherType->getType() == spv::Op::OpTypeImage)))
+					const Type* otherPtr = _pVar->getType();
+
+					if (otherPtr != nullptr && otherPtr->isPointer() && ReflectionHelper::getDecorationLiteralFromTarget(spv::Decoration::Binding, _pVar) == binding)
 					{
-						// we found a image or sampler on the same descriptor set & binding in UniformConstant storage class
-						if (ReflectionHelper::getDecorationLiteralFromTarget(spv::Decoration::Binding, _pVar) == binding)
-						{
-							foundCombinedImageSampler = true;
-						}
+						addType(getResourceType(*otherPtr));
 					}
 				}
 			};
 
 			ReflectionHelper::getVariablesWithDecorationFunc(*_variable.getModule(), spv::Decoration::DescriptorSet, check, &set); // get variable in the same set
 
-			if (foundCombinedImageSampler)
+			if (hasSampler && hasImage)
 			{
 				return DescriptorType::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
 			}
-- 
2.43.0


From 609681bd43054264e85168b9b17ecb7a782172b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 069/115] fix: classify buffers with the decoration BufferBlock
 as storage buffers

---
 common/source/VulkanInterop.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 5d15693..5f6cf7d 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -69,6 +69,30 @@ namespace
 		return _type.isImage() && _type.getImageSamplerAccess() == spvgentwo::SamplerImageAccess::Sampled &&
 			_type.getImageDimension() != spvgentwo::spv::Dim::Buffer && _type.getImageDimension() != spvgentwo::spv::Dim::SubpassData;
 	}
+
+	// storage buffer in Uniform storage class (before SPIR-V 1.3)
+	bool isBufferBlock(const spvgentwo::Instruction& _variable)
+	{
+		using namespace spvgentwo;
+
+		const Instruction* ptr = _variable.getResultTypeInstr();
+		auto pointee = ptr != nullptr ? ptr->getFirstActualOperand().next() : nullptr; // skip storage class
+		const Instruction* type = pointee != nullptr ? pointee->getInstruction() : nullptr;
+
+		while (type != nullptr && (*type == spv::Op::OpTypeArray || *type == spv::Op::OpTypeRuntimeArray))
+		{
+			type = type->getFirstActualOperand()->getInstruction();
+		}
+
+		bool bufferBlock = false;
+
+		ReflectionHelper::getDecorationsFunc(type, [&bufferBlock](const Instruction* _pDecoration)
+		{
+			bufferBlock |= *_pDecoration == spv::Op::OpDecorate && ReflectionHelper::getSpvDecorationKindFromDecoration(_pDecoration) == spv::Decoration::BufferBlock;
+		});
+
+		return bufferBlock;
+	}
 }
 
 spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const Instruction& _variable)
@@ -183,7 +207,12 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 	default: // assume this is a buffer
 		switch (storage)
 		{
-		case spv::StorageClass::Uniform:			[[fallthrough]];
+		case spv::StorageClass::Uniform:
+			if (isBufferBlock(_variable))
+			{
+				return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
+			}
+			[[fallthrough]];
 		case spv::StorageClass::UniformConstant:	return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
 		case spv::StorageClass::StorageBuffer:		return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
 		default:
-- 
2.43.0


From 04b317b0243ec8a11d1f7d97a91c26bcb2e27816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 070/115] fix: report targets of decorations without literals

---
 common/include/common/ReflectionHelperTemplate.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/ReflectionHelperTemplate.inl b/common/include/common/ReflectionHelperTemplate.inl
index db31638..6a3e59e 100644
--- a/common/include/common/ReflectionHelperTemplate.inl
+++ b/common/include/common/ReflectionHelperTemplate.inl
@@ -24,11 +24,11 @@ void spvgentwo::ReflectionHelper::getVariablesWithDecorationFunc(const Module& _
 			++it;
 		}
 
-		if (match && it.next() != nullptr)
+		if (match)
 		{
 			if (_pValue != nullptr)
 			{
-				if (*_pValue == it.next()->getLiteral())
+				if (it.next() != nullptr && *_pValue == it.next()->getLiteral())
 				{
 					_func(target->getInstruction());
 				}
-- 
2.43.0


From d680f7a03a39d8dc007fa44230e31945f49e65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 071/115] fix: accept OpMemberDecorate and reject other
 instructions when a decoration is queried

---
 common/source/ReflectionHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 0be9a01..70dd764 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -97,7 +97,7 @@ spvgentwo::spv::Decoration spvgentwo::ReflectionHelper::getSpvDecorationKindFrom
 
 bool spvgentwo::ReflectionHelper::getSpvDecorationAndLiteralFromDecoration(const Instruction* _pInDecoration, spv::Decoration& _outDecoration, unsigned int& _outValue)
 {
-	if (_pInDecoration == nullptr || (*_pInDecoration != spv::Op::OpDecorate && *_pInDecoration == spv::Op::OpMemberDecorate))
+	if (_pInDecoration == nullptr || (*_pInDecoration != spv::Op::OpDecorate && *_pInDecoration != spv::Op::OpMemberDecorate))
 	{
 		return false;
 	}
-- 
2.43.0


From 1881e0987fe7385112d3fb0ed6c716a42fdad67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 072/115] fix: skip OpDecorationGroup when decorations are
 searched for a target

---
 common/include/common/ReflectionHelperTemplate.inl | 7 ++++++-
 common/source/ReflectionHelper.cpp                 | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/include/common/ReflectionHelperTemplate.inl b/common/include/common/ReflectionHelperTemplate.inl
index 6a3e59e..9972dc3 100644
--- a/common/include/common/ReflectionHelperTemplate.inl
+++ b/common/include/common/ReflectionHelperTemplate.inl
@@ -11,6 +11,11 @@ void spvgentwo::ReflectionHelper::getVariablesWithDecorationFunc(const Module& _
 	{
 		auto target = deco.getFirstActualOperand();
 
+		if (target == nullptr) // OpDecorationGroup
+		{
+			continue;
+		}
+
 		auto it = target.next(); // skip target ID
 
 		bool match = false;
@@ -49,7 +54,7 @@ void spvgentwo::ReflectionHelper::getDecorationsFunc(const Instruction* _pTarget
 
 	for (Instruction& decoration : _pTarget->getModule()->getDecorations())
 	{
-		if (*decoration.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = decoration.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target, OpDecorationGroup has none
 		{
 			_func(&decoration);
 		}
diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 70dd764..743104b 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -67,7 +67,7 @@ void spvgentwo::ReflectionHelper::getDecorations(const Instruction* _pTarget, Li
 
 	for(Instruction& decoration : _pTarget->getModule()->getDecorations())
 	{
-		if (*decoration.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = decoration.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target, OpDecorationGroup has none
 		{
 			_outDecorations.emplace_back(&decoration);
 		}
-- 
2.43.0


From 1a8a25cedf3d6da1113b4e51c18ba7e13af825da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 073/115] fix: don't take the id operand of OpDecorateId for
 the literal of a decoration

---
 common/source/ReflectionHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 743104b..ee11f20 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -146,7 +146,7 @@ unsigned int spvgentwo::ReflectionHelper::getDecorationLiteralFromTarget(spv::De
 	{
 		auto target = decoration.getFirstActualOperand();
 
-		if (target != nullptr && *target == _pTarget)
+		if (target != nullptr && *target == _pTarget && (decoration == spv::Op::OpDecorate || decoration == spv::Op::OpMemberDecorate))
 		{
 			if (decoration == spv::Op::OpMemberDecorate)
 			{
-- 
2.43.0


From 55ea498cd1178a647d460ebfb16f0469dd1eee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 074/115] fix: workgroup size of constants without a literal

---
 common/source/ReflectionHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index ee11f20..d9da053 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -24,7 +24,7 @@ bool spvgentwo::ReflectionHelper::getLocalSize(const Module& _module, unsigned i
 					if (instr == nullptr || instr->isSpecOrConstant() == false)
 						return 0u;
 
-					if(auto it = instr->getFirstActualOperand(); it->isLiteral() )
+					if(auto it = instr->getFirstActualOperand(); it != nullptr && it->isLiteral())
 					{
 						return it->literal;
 					}
-- 
2.43.0


From e7bf88b07b88c3b88656f04f98679bf99276be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 075/115] fix: declare the capabilities that instructions of
 extended instruction sets require

---
 lib/source/Module.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 1bf5a10..a603b6d 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -20,6 +20,35 @@ namespace
 		return _operand == _pInstr || (target != nullptr && target->getLabel() == _pInstr);
 	}
 
+	// capabilities which enable an instruction of an extended instruction set, nullptr if there are none
+	const spvgentwo::Vector<spvgentwo::spv::Capability>* getExtInstCapabilities(const spvgentwo::Module& _module, const spvgentwo::Instruction& _instr, const spvgentwo::Grammar& _grammar)
+	{
+		using namespace spvgentwo;
+
+		if (_instr != spv::Op::OpExtInst) return nullptr;
+
+		auto set = _instr.getFirstActualOperand();
+
+		if (set == nullptr || set.next() == nullptr || set.next()->isLiteral() == false) return nullptr;
+
+		for (const auto& import : _module.getExtInstrImports())
+		{
+			const bool match = set->isInstruction() ? set->getInstruction() == &import.value : (set->isId() && set->getId() == import.value.getResultId());
+
+			if (match == false) continue;
+
+			if (import.key == "GLSL.std.450" || import.key == "OpenCL.std")
+			{
+				const auto* info = _grammar.getInfo(set.next()->getLiteral(), import.key == "OpenCL.std" ? Grammar::Extension::OpenCl : Grammar::Extension::Glsl);
+				return info != nullptr ? &info->capabilities : nullptr;
+			}
+
+			break; // unknown set
+		}
+
+		return nullptr;
+	}
+
 	void replaceUse(spvgentwo::Operand& _operand, spvgentwo::Instruction* _pReplacement)
 	{
 		if (_operand.isBranchTarget() && _pReplacement != nullptr && *_pReplacement == spvgentwo::spv::Op::OpLabel)
@@ -789,6 +818,10 @@ spvgentwo::spv::Id spvgentwo::Module::assignIDs(const Grammar* _pGrammar)
 			if (auto* info = _pGrammar->getInfo(static_cast<unsigned int>(instr.getOperation())); info != nullptr)
 			{
 				addRequiredCapability(info->capabilities);
+				if (const auto* extInst = getExtInstCapabilities(*this, instr, *_pGrammar); extInst != nullptr)
+				{
+					addRequiredCapability(*extInst);
+				}
 				for (const spv::Extension& e : info->extensions)
 				{
 					logDebug("Adding SPIR-V extension %s for use of %s", spv::ExtensionNames[static_cast<unsigned>(e)], info->name);
@@ -1723,6 +1756,11 @@ void spvgentwo::Module::addRequiredCapabilities(const Grammar& _grammar)
 		{
 			addRequiredCapability(info->capabilities);
 		}
+
+		if (const auto* extInst = getExtInstCapabilities(*this, _instr, _grammar); extInst != nullptr)
+		{
+			addRequiredCapability(*extInst);
+		}
 	};
 
 	iterateInstructions(check);
-- 
2.43.0


From dd7d2687e861d5a9f44692601b78a45f87736c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 076/115] fix: complete the table of implicitly declared
 capabilities

---
 lib/include/spvgentwo/SpvDefines.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 3775c04..a9a166b 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -339,9 +339,9 @@ namespace spvgentwo
 		case spv::Capability::FragmentShadingRateKHR: return spv::Capability::Shader;
 		//case spv::Capability::SubgroupBallotKHR:
 		case spv::Capability::DrawParameters: return spv::Capability::Shader;
-		//case spv::Capability::WorkgroupMemoryExplicitLayoutKHR: unkown
-		//case spv::Capability::WorkgroupMemoryExplicitLayout8BitAccessKHR: unkonwn
-		//case spv::Capability::WorkgroupMemoryExplicitLayout16BitAccessKHR: unkown
+		case spv::Capability::WorkgroupMemoryExplicitLayoutKHR: return spv::Capability::Shader;
+		case spv::Capability::WorkgroupMemoryExplicitLayout8BitAccessKHR: return spv::Capability::WorkgroupMemoryExplicitLayoutKHR;
+		case spv::Capability::WorkgroupMemoryExplicitLayout16BitAccessKHR: return spv::Capability::WorkgroupMemoryExplicitLayoutKHR;
 		//case spv::Capability::SubgroupVoteKHR:
 		//case spv::Capability::StorageBuffer16BitAccess: // same as StorageUniformBufferBlock16
 		case spv::Capability::UniformAndStorageBuffer16BitAccess: return spv::Capability::StorageBuffer16BitAccess; // same as StorageUniform16
@@ -394,9 +394,9 @@ namespace spvgentwo
 		case spv::Capability::SampledImageArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
 		case spv::Capability::StorageBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
 		case spv::Capability::StorageImageArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::InputAttachmentArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::UniformTexelBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::StorageTexelBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
+		case spv::Capability::InputAttachmentArrayNonUniformIndexing: return { spv::Capability::InputAttachment, spv::Capability::ShaderNonUniform };
+		case spv::Capability::UniformTexelBufferArrayNonUniformIndexing: return { spv::Capability::SampledBuffer, spv::Capability::ShaderNonUniform };
+		case spv::Capability::StorageTexelBufferArrayNonUniformIndexing: return { spv::Capability::ImageBuffer, spv::Capability::ShaderNonUniform };
 		case spv::Capability::RayTracingNV: return spv::Capability::Shader;
 		//case spv::Capability::VulkanMemoryModel:
 		//case spv::Capability::VulkanMemoryModelDeviceScope:
@@ -422,7 +422,7 @@ namespace spvgentwo
 		//case spv::Capability::AtomicFloat32MinMaxEXT: unknown
 		//case spv::Capability::AtomicFloat64MinMaxEXT: unknown
 		//case spv::Capability::AtomicFloat16MinMaxEXT: unknown
-		//case spv::Capability::VectorComputeINTEL: unknown
+		case spv::Capability::VectorComputeINTEL: return spv::Capability::VectorAnyINTEL;
 		//case spv::Capability::VectorAnyINTEL: unknown
 		//case spv::Capability::SubgroupAvcMotionEstimationINTEL:
 		//case spv::Capability::SubgroupAvcMotionEstimationIntraINTEL:
@@ -430,7 +430,7 @@ namespace spvgentwo
 		//case spv::Capability::VariableLengthArrayINTEL: unknown
 		//case spv::Capability::FunctionFloatControlINTEL: unknown
 		//case spv::Capability::FPGAMemoryAttributesINTEL: unknown
-		//case spv::Capability::FPFastMathModeINTEL: unknown
+		case spv::Capability::FPFastMathModeINTEL: return spv::Capability::Kernel;
 		//case spv::Capability::ArbitraryPrecisionIntegersINTEL: unknown
 		//case spv::Capability::UnstructuredLoopControlsINTEL:
 		//case spv::Capability::FPGALoopControlsINTEL:
@@ -447,6 +447,16 @@ namespace spvgentwo
 		case spv::Capability::AtomicFloat32AddEXT: return spv::Capability::Shader;
 		case spv::Capability::AtomicFloat64AddEXT: return spv::Capability::Shader;
 		//case spv::Capability::LongConstantCompositeINTEL: unknown
+		case spv::Capability::ShaderEnqueueAMDX: return spv::Capability::Shader;
+		case spv::Capability::MeshShadingEXT: return spv::Capability::Shader;
+		case spv::Capability::RayTracingPositionFetchKHR: return spv::Capability::Shader;
+		case spv::Capability::RayTracingMotionBlurNV: return spv::Capability::Shader;
+		case spv::Capability::RayTracingOpacityMicromapEXT: return { spv::Capability::RayQueryKHR, spv::Capability::RayTracingKHR };
+		case spv::Capability::ShaderInvocationReorderNV: return spv::Capability::RayTracingKHR;
+		case spv::Capability::RayQueryPositionFetchKHR: return spv::Capability::Shader;
+		case spv::Capability::DotProductInput4x8Bit: return spv::Capability::Int8;
+		case spv::Capability::GroupNonUniformRotateKHR: return spv::Capability::GroupNonUniform;
+		case spv::Capability::FPGAKernelAttributesv2INTEL: return spv::Capability::FPGAKernelAttributesINTEL;
 		default:
 			return spv::Capability::Max;
 		}
-- 
2.43.0


From b804c94ec96e867ca4e099d4dd79ac5a2a65c550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 077/115] fix: RemoveLinkageCapability shared its bit with
 AssignResultIDs

---
 common/include/common/LinkerHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/LinkerHelper.h b/common/include/common/LinkerHelper.h
index cd669d7..45e2465 100644
--- a/common/include/common/LinkerHelper.h
+++ b/common/include/common/LinkerHelper.h
@@ -42,7 +42,7 @@ namespace spvgentwo
 			ImportReferencedVariables = 1 << 6, // global variables referenced in (auto) imported functions
 			ImportReferencedStrings = 1 << 7, // global strings referenced in OpLine etc
 			AssignResultIDs = 1 << 8, // on-the-fligh assing ResultIds while transfering instructions from lib to consumber module (leaves original IDs intact, can improve performance if module.assignIDs() is not used)
-			RemoveLinkageCapability = 1 << 8, // remove linkage capability from the consumer library if all imports and exports have been resolved
+			RemoveLinkageCapability = 1 << 9, // remove linkage capability from the consumer library if all imports and exports have been resolved
 			AutoAddRequiredCapabilitiesAndExtensions = 1 << 10, // instead of copying ALL Capabilities & Extensions from the all libs to the consumer module, use LinkerOptions.grammar to select only required Caps & Exts for the consumer module.
 			UpdateEntryPointGlobalVarInterface = 1 << 11, // Add global variables referenced by the consumer EntryPoints to their OpEntryPoint, this should always be switched on unless Module.finalizeEntryPoints() is called after linking.
 			CopyOpSourceStringInstructions = 1 << 12, // Copy OpString, OpSource, OpSourceContinued and OpSourceExtension instructions from lib to consumer module
-- 
2.43.0


From 31d5578cb6d894d78d5682666ed34ba1661d7e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 078/115] fix: transfer of functions and variables by
 LinkerHelper::import

Forward references, module scope OpUndef, transitively exported callees,
initializers, names and decorations of nested types, spec constants,
permissions and versions were not handled: a partial transfer was reported
as success or left an invalid consumer module.
---
 common/source/LinkerHelper.cpp | 719 +++++++++++++++++++++------------
 1 file changed, 453 insertions(+), 266 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 4fbd87e..2be63c7 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -196,175 +196,251 @@ namespace
 		return instr;
 	}
 
-	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	using InstrSet = spvgentwo::HashMap<const spvgentwo::Instruction*, bool>;
+
+	inline const char* getInstrName(const spvgentwo::Instruction* _instr, const spvgentwo::LinkerHelper::LinkerOptions& _options, const char* _alt = "")
+	{
+		if (_options.grammar != nullptr)
+		{
+			if (auto* info = _options.grammar->getInfo(static_cast<unsigned int>(_instr->getOperation())); info != nullptr)
+			{
+				return info->name;
+			}
+		}
+
+		return _alt;
+	}
+
+	inline const char* getSymbolName(const spvgentwo::Instruction* _instr)
+	{
+		const char* name = _instr->getName();
+		return name != nullptr ? name : "UNNAMED";
+	}
+
+	// instruction the operand refers to, nullptr for literals and unresolved ids
+	inline const spvgentwo::Instruction* getReferencedInstruction(const spvgentwo::Operand& _operand)
+	{
+		if (_operand.isInstruction()) { return _operand.getInstruction(); }
+		if (_operand.isBranchTarget()) { return _operand.getBranchTarget()->getLabel(); }
+		return nullptr;
+	}
+
+	// returns true if all operands of _pLibInstr are available in the consumer or may be imported, does not modify the consumer
+	inline bool canTransferOperands(const spvgentwo::Instruction* _pLibInstr, const spvgentwo::Module& _consumer, const InstrLookup& _cache, InstrSet& _visited, const spvgentwo::LinkerHelper::LinkerOptions& _options);
+
+	inline bool canTransferFunction(const spvgentwo::Function& _lFunc, const spvgentwo::Module& _consumer, const InstrLookup& _cache, InstrSet& _visited, const spvgentwo::LinkerHelper::LinkerOptions& _options)
 	{
 		using namespace spvgentwo;
-		using namespace LinkerHelper;
 
-		if (_cache.find(_pLibInstr) != _cache.end())
+		if (canTransferOperands(_lFunc.getFunction(), _consumer, _cache, _visited, _options) == false) { return false; }
+
+		for (const Instruction& lParam : _lFunc.getParameters())
 		{
-			return true;
+			if (canTransferOperands(&lParam, _consumer, _cache, _visited, _options) == false) { return false; }
 		}
 
-		Module* module = _pTarget->getModule();
-		if (module == nullptr) { return false; }
+		for (const BasicBlock& lBB : _lFunc)
+		{
+			for (const Instruction& lInstr : lBB)
+			{
+				if (canTransferOperands(&lInstr, _consumer, _cache, _visited, _options) == false) { return false; }
+			}
+		}
 
-		auto getInstrName = [&_options](const Instruction* instr, const char* alt = nullptr) -> const char*
+		return true;
+	}
+
+	inline bool canTransferOperands(const spvgentwo::Instruction* _pLibInstr, const spvgentwo::Module& _consumer, const InstrLookup& _cache, InstrSet& _visited, const spvgentwo::LinkerHelper::LinkerOptions& _options)
+	{
+		using namespace spvgentwo;
+		using namespace LinkerHelper;
+
+		auto canTransfer = [&](const Instruction* lib) -> bool
 		{
-			if (_options.grammar != nullptr)
+			if (lib == nullptr)
 			{
-				if (auto* info = _options.grammar->getInfo(static_cast<unsigned int>(instr->getOperation())); info != nullptr)
-				{
-					return info->name;
-				}
+				_consumer.logError("[%s] %s has unresolved ID operand, module needs to be resolved by resolveIDs() before importing a using it as import library.", getInstrName(_pLibInstr, _options), getSymbolName(_pLibInstr));
+				return false;
 			}
 
-			return alt;
+			// already mapped, checked before (functions may be recursive) or part of a function body
+			if (_cache[lib] != nullptr || lib->getBasicBlock() != nullptr || *lib == spv::Op::OpFunctionParameter || _visited[lib] != nullptr)
+			{
+				return true;
+			}
+
+			_visited.emplaceUnique(lib, true);
+
+			auto allowed = [&](const LinkerOptionBits bit, const char* instrName, const char* hint) -> bool
+			{
+				if (_options & bit) { return true; }
+				_consumer.logError("[%%%u = %s] operand '%s' %s not found! %s", _pLibInstr->getResultId(), getInstrName(_pLibInstr, _options), getSymbolName(lib), getInstrName(lib, _options, instrName), hint);
+				return false;
+			};
+
+			if (lib->isSpecOrConstant())
+			{
+				return allowed(LinkerOptionBits::ImportMissingConstants, "Op(Spec)Constant", "Use \'ImportMissingConstants\'.") && canTransferOperands(lib, _consumer, _cache, _visited, _options);
+			}
+			if (lib->isType())
+			{
+				return allowed(LinkerOptionBits::ImportMissingTypes, "OpType", "Use \'ImportMissingTypes\'.");
+			}
+
+			switch (lib->getOperation())
+			{
+			case spv::Op::OpVariable:
+				return allowed(LinkerOptionBits::ImportReferencedVariables, "OpVariable", "Use \'ImportReferencedVariables\'.") && canTransferOperands(lib, _consumer, _cache, _visited, _options);
+			case spv::Op::OpString:
+				return allowed(LinkerOptionBits::ImportReferencedStrings, "OpString", "Use \'ImportReferencedStrings\'.");
+			case spv::Op::OpExtInstImport:
+				return allowed(LinkerOptionBits::ImportMissingExtensionSets, "OpExtInstImport", "Use \'ImportMissingExtensionSets\'.");
+			case spv::Op::OpUndef:
+				return canTransferOperands(lib, _consumer, _cache, _visited, _options);
+			case spv::Op::OpFunction:
+				return allowed(LinkerOptionBits::ImportReferencedFunctions, "OpFunction", "Use \'ImportReferencedFunctions\'.") && lib->getFunction() != nullptr && canTransferFunction(*lib->getFunction(), _consumer, _cache, _visited, _options);
+			default:
+				break;
+			}
+
+			_consumer.logError("[%%%u = %s] operand '%s' %s not found!", _pLibInstr->getResultId(), getInstrName(_pLibInstr, _options), getSymbolName(lib), getInstrName(lib, _options));
+			return false;
 		};
 
-		auto getSymbolName = [](const Instruction* instr) -> const char*
+		if (_pLibInstr->hasResultType() && canTransfer(_pLibInstr->getResultTypeInstr()) == false) { return false; }
+
+		for (auto it = _pLibInstr->getFirstActualOperand(), end = _pLibInstr->end(); it != end; ++it)
 		{
-			const char* name = instr->getName();
-			return name != nullptr ? name : "UNNAMED";
-		};
+			if (it->isLiteral() == false && canTransfer(getReferencedInstruction(*it)) == false) { return false; }
+		}
 
-		auto error = [module](auto&& ... args) {module->logError(args...); };
+		return true;
+	}
 
-		// instruction parent must be be set before calling this function
-		_pTarget->setOperation(_pLibInstr->getOperation());
+	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options);
 
-		auto lookupOperand = [&](const Instruction* lib) -> bool
+	// find the counterpart of the library instruction _lib in the consumer or import it
+	inline spvgentwo::Instruction* lookupInstruction(const spvgentwo::Instruction* _lib, spvgentwo::Module& _consumer, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	{
+		using namespace spvgentwo;
+		using namespace LinkerHelper;
+
+		if (_lib == nullptr)
 		{
-			auto operandError = [&](const char* operandInstrName = "", const char* hint = "")
-			{
-				error("[%%%u = %s] operand '%s' %s not found! %s", _pLibInstr->getResultId(), getInstrName(_pLibInstr, ""), getSymbolName(lib), getInstrName(lib, operandInstrName), hint);
-			};
+			return nullptr;
+		}
 
-			Instruction* cInstr = nullptr;
+		if (Instruction** ppTarget = _cache[_lib]; ppTarget != nullptr)
+		{
+			return *ppTarget;
+		}
 
-			bool reported = false;
-			bool cached = false;
+		auto transfer = [&](Instruction* target) -> Instruction*
+		{
+			return transferInstruction(_lib, target, _cache, _options) ? target : nullptr;
+		};
 
-			if (Instruction** ppTarget = _cache[lib]; ppTarget != nullptr)
+		const bool constant = _lib->isSpecOrConstant();
+		Instruction* cInstr = nullptr;
+
+		if (constant || _lib->isType())
+		{
+			const bool allowed = _options & (constant ? LinkerOptionBits::ImportMissingConstants : LinkerOptionBits::ImportMissingTypes);
+			if (allowed == false)
 			{
-				cInstr = *ppTarget;
-				cached = true;
+				return nullptr;
 			}
-			else if (lib->isSpecOrConstant())
+
+			// what it consists of has to be declared before and may have names and decorations as well
+			if (constant && lookupInstruction(_lib->getResultTypeInstr(), _consumer, _cache, _options) == nullptr)
 			{
-				if ( _options & LinkerOptionBits::ImportMissingConstants )
-				{
-					if ( const Constant* c = lib->getConstant(); c != nullptr )
-					{
-						cInstr = addTypeOrConstants([&]() { return module->addConstant(*c); }, *module, _options);
-					}
-					else // fallback to generic transfer for spec constants
-					{
-						cInstr = module->addConstantInstr();
-						if ( transferInstruction(lib, cInstr, _cache, _options) == false ) return false;
-						cached = true;
-					}				
-				}
-				else
-				{
-					operandError("Op(Spec)Constant", "Use \'ImportMissingConstants\'.");
-					reported = true;
-				}
+				return nullptr;
 			}
-			else if (lib->isType())
+
+			for (auto it = _lib->getFirstActualOperand(), end = _lib->end(); it != end; ++it)
 			{
-				if (const Type* t = lib->getType(); t != nullptr && (_options & LinkerOptionBits::ImportMissingTypes))
+				if (const Instruction* sub = getReferencedInstruction(*it); sub != nullptr && (constant || sub->isType()) && lookupInstruction(sub, _consumer, _cache, _options) == nullptr)
 				{
-					cInstr = addTypeOrConstants([&]() { return module->addType(*t); }, *module, _options);
-				}
-				else
-				{
-					operandError("OpType", "Use \'ImportMissingTypes\'.");
-					reported = true;
+					return nullptr;
 				}
 			}
-			else if(*lib == spv::Op::OpVariable)
+
+			// specialization constants are never shared
+			if (constant && (IsSpecConstantOp(_lib->getOperation()) || _lib->getConstant() == nullptr))
 			{
-				if(lib->getStorageClass() != spv::StorageClass::Function && (_options & LinkerOptionBits::ImportReferencedVariables))
-				{
-					cInstr = module->addGlobalVariableInstr();
-					if (transferInstruction(lib, cInstr, _cache, _options) == false) return false;
-					cached = true;
-				}
-				else
-				{
-					operandError("OpVariable", "Use \'ImportReferencedVariables\'.");
-					reported = true;
-				}	
+				return transfer(_consumer.addConstantInstr());
 			}
-			else if (*lib == spv::Op::OpString)
+
+			if (constant)
 			{
-				if (_options & LinkerOptionBits::ImportReferencedStrings)
-				{
-					cInstr = module->addSourceStringInstr();
-					if (transferInstruction(lib, cInstr, _cache, _options) == false) return false;
-					cached = true;
-				}
-				else
-				{
-					operandError("OpString", "Use \'ImportReferencedStrings\'.");
-					reported = true;
-				}
+				cInstr = addTypeOrConstants([&]() { return _consumer.addConstant(*_lib->getConstant()); }, _consumer, _options);
 			}
-			else if (*lib == spv::Op::OpFunction)
+			else if (const Type* t = _lib->getType(); t != nullptr)
 			{
-				operandError("OpFunction", "Use \'ImportReferencedFunctions\'.");
-				reported = true;
+				cInstr = addTypeOrConstants([&]() { return _consumer.addType(*t); }, _consumer, _options);
 			}
-			else if (*lib == spv::Op::OpExtInstImport)
+		}
+		else if (*_lib == spv::Op::OpVariable && _lib->getStorageClass() != spv::StorageClass::Function)
+		{
+			return (_options & LinkerOptionBits::ImportReferencedVariables) ? transfer(_consumer.addGlobalVariableInstr()) : nullptr;
+		}
+		else if (*_lib == spv::Op::OpString)
+		{
+			return (_options & LinkerOptionBits::ImportReferencedStrings) ? transfer(_consumer.addSourceStringInstr()) : nullptr;
+		}
+		else if (*_lib == spv::Op::OpUndef && _lib->getBasicBlock() == nullptr)
+		{
+			return transfer(_consumer.addUndefInstr());
+		}
+		else if (*_lib == spv::Op::OpExtInstImport && (_options & LinkerOptionBits::ImportMissingExtensionSets))
+		{
+			for (const auto& [name, instr] : _lib->getModule()->getExtInstrImports())
 			{
-				if (_options & LinkerOptionBits::ImportMissingExtensionSets)
-				{
-					for (const auto& [name, instr] : lib->getModule()->getExtInstrImports())
-					{
-						if (&instr == lib) // this is the extension we are looking for
-						{
-							cInstr = module->addExtensionInstructionImport(name.c_str()); // unique add / lookup
-							break;
-						}
-					}
-				}
-				else
+				if (&instr == _lib) // this is the extension we are looking for
 				{
-					operandError("OpExtInstImport", "Use \'ImportMissingExtensionSets\'.");
-					reported = true;
+					cInstr = _consumer.addExtensionInstructionImport(name.c_str()); // unique add / lookup
+					break;
 				}
 			}
+		}
 
-			if (cInstr != nullptr)
-			{
-				if (cached == false)
-				{
-					_cache.emplaceUnique(lib, cInstr);
-					if (_options & LinkerOptionBits::AssignResultIDs)
-					{
-						cInstr->assignResultId(false);
-					}
+		if (cInstr != nullptr)
+		{
+			_cache.emplaceUnique(_lib, assignId(cInstr, _options));
+			printInstruction(_options, _lib, " -> ", cInstr);
+		}
 
-					printInstruction(_options, lib, " -> ", cInstr);				
-				}
+		return cInstr;
+	}
 
-				_pTarget->addOperand(cInstr);
-				return true;
-			}
+	// instruction parent must be be set before calling this function
+	inline bool transferOperands(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	{
+		using namespace spvgentwo;
+		using namespace LinkerHelper;
+
+		Module* module = _pTarget->getModule();
+		if (module == nullptr) { return false; }
 
-			if (reported == false)
+		auto lookupOperand = [&](const Instruction* lib) -> bool
+		{
+			Instruction* cInstr = lookupInstruction(lib, *module, _cache, _options);
+			if (cInstr == nullptr)
 			{
-				operandError();
+				module->logError("[%%%u = %s] operand not found!", _pLibInstr->getResultId(), getInstrName(_pLibInstr, _options));
+				return false;
 			}
-
-			return false;
+			_pTarget->addOperand(cInstr);
+			return true;
 		};
 
-		if (_pTarget->hasResultType())
+		_pTarget->setOperation(_pLibInstr->getOperation());
+
+		if (_pTarget->hasResultType() && lookupOperand(_pLibInstr->getResultTypeInstr()) == false)
 		{
-			if (lookupOperand(_pLibInstr->getResultTypeInstr()) == false) return false;
+			return false;
 		}
+
 		if (_pTarget->hasResult())
 		{
 			_pTarget->addOperand((_options & LinkerOptionBits::AssignResultIDs) ? module->getNextId() : InvalidId);
@@ -376,40 +452,49 @@ namespace
 			{
 				_pTarget->addOperand(*it);
 			}
-			else if (it->isInstruction())
+			else if (lookupOperand(getReferencedInstruction(*it)) == false)
 			{
-				if (lookupOperand(it->getInstruction()) == false) return false;
-			}
-			else if (it->isBranchTarget())
-			{
-				if (lookupOperand(it->getBranchTarget()->getLabel()) == false) return false;
-			}
-			else
-			{
-				error("[%s] %s has unresolved ID operand, module needs to be resolved by resolveIDs() before importing a using it as import library.", getInstrName(_pLibInstr, ""), getSymbolName(_pLibInstr));
 				return false;
 			}
 		}
 
 		printInstruction(_options, _pLibInstr, " -> ", _pTarget);
 
-		_cache.emplaceUnique(_pLibInstr, _pTarget);
-
 		return true;
 	}
 
-	inline bool transferBasicBlock(const spvgentwo::BasicBlock& _lBB, spvgentwo::BasicBlock& _cBB, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
 	{
-		bool success = true;
+		if (_cache.find(_pLibInstr) != _cache.end())
+		{
+			return true;
+		}
+
+		_cache.emplaceUnique(_pLibInstr, _pTarget);
+
+		return transferOperands(_pLibInstr, _pTarget, _cache, _options);
+	}
 
-		printInstruction(_options, _lBB.getLabel(), " -> ", _cBB.getLabel());
+	// map a library type and the types it consists of to its equivalent in the consumer
+	inline void mapTypes(const spvgentwo::Instruction* _lType, spvgentwo::Instruction* _cType, InstrLookup& _cache)
+	{
+		using namespace spvgentwo;
 
-		for (const spvgentwo::Instruction& lInstr : _lBB)
+		if (_lType == nullptr || _cType == nullptr || _cache[_lType] != nullptr)
 		{
-			success &= transferInstruction(&lInstr, _cBB.addInstruction(), _cache, _options);
+			return;
 		}
 
-		return success;
+		_cache.emplaceUnique(_lType, _cType);
+
+		auto cit = _cType->getFirstActualOperand();
+		for (auto lit = _lType->getFirstActualOperand(); lit != _lType->end() && cit != _cType->end(); ++lit, ++cit)
+		{
+			if (lit->isInstruction() && cit->isInstruction() && lit->getInstruction()->isType() && cit->getInstruction()->isType())
+			{
+				mapTypes(lit->getInstruction(), cit->getInstruction(), _cache);
+			}
+		}
 	}
 
 	inline bool transferFunction(const spvgentwo::Function& _lFunc, spvgentwo::Function& _cFunc, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
@@ -422,7 +507,7 @@ namespace
 		// create function signature
 		if (_cFunc.isFinalized() == false) // Function return type
 		{
-			_cFunc.setReturnType(_lFunc.getReturnType());
+			addTypeOrConstants([&]() { _cFunc.setReturnType(_lFunc.getReturnType()); return _cFunc.getReturnTypeInstr(); }, consumer, _options);
 		}
 
 		if(_cFunc.getParameters().empty()) // parameters
@@ -441,10 +526,11 @@ namespace
 
 		if(_cFunc.isFinalized() == false) // create OpFunction
 		{
-			_cFunc.finalize(_lFunc.getFunctionControl());
-			addTypeOrConstants([&]() { return consumer.addType(_cFunc.getFunctionType()); }, consumer, _options);
+			addTypeOrConstants([&]() { _cFunc.finalize(_lFunc.getFunctionControl()); return _cFunc.getFunctionTypeInstr(); }, consumer, _options);
 		}
 
+		mapTypes(_lFunc.getFunctionTypeInstr(), _cFunc.getFunctionTypeInstr(), _cache);
+
 		_cache.emplaceUnique(_lFunc.getFunction(), assignId(_cFunc.getFunction(), _options)); // OpFunction
 
 		printInstruction(_options, _lFunc.getFunction(), " -> ", _cFunc.getFunction()); // OpFunction
@@ -452,9 +538,7 @@ namespace
 		{
 			Instruction* lParam = _lFunc.getParameter(i);
 			Instruction* cParam = assignId(_cFunc.getParameter(i), _options);
-			Instruction* cType = cParam->getResultTypeInstr();
 
-			_cache.emplaceUnique(lParam->getResultTypeInstr(), cType);
 			_cache.emplaceUnique(lParam, cParam);
 
 			printInstruction(_options, lParam, " -> ", cParam); // OpFunctionParameter
@@ -467,9 +551,25 @@ namespace
 			_cache.emplaceUnique(lBB.getLabel(), assignId(cBB.getLabel(), _options));
 		}
 
+		// cache all instructions before transfering their operands, OpPhi may refer to instructions of subsequent blocks
 		for(auto lit = _lFunc.begin(), cit = _cFunc.begin(); lit != _lFunc.end(); ++lit, ++cit)
 		{
-			success &= transferBasicBlock(*lit, *cit, _cache, _options);
+			for (const Instruction& lInstr : *lit)
+			{
+				_cache.emplaceUnique(&lInstr, cit->addInstruction());
+			}
+		}
+
+		for(auto lit = _lFunc.begin(), cit = _cFunc.begin(); lit != _lFunc.end(); ++lit, ++cit)
+		{
+			printInstruction(_options, lit->getLabel(), " -> ", cit->getLabel());
+
+			auto cInstr = cit->begin();
+			for (const Instruction& lInstr : *lit)
+			{
+				success &= transferOperands(&lInstr, cInstr.operator->(), _cache, _options);
+				++cInstr;
+			}
 		}
 
 		printInstruction(_options, _lFunc.getFunctionEnd(), " -> ", _cFunc.getFunctionEnd());
@@ -477,70 +577,123 @@ namespace
 		return success;
 	}
 
-	inline bool importSymbolImpl(spvgentwo::Module& _consumer, const spvgentwo::Instruction* _libSymbol, spvgentwo::Instruction* _consumerSymbol, const spvgentwo::String& _name, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	// checks that the import can be resolved with the exported symbol
+	inline bool checkSymbol(const spvgentwo::Module& _consumer, const spvgentwo::Instruction* _libSymbol, const spvgentwo::Instruction* _consumerSymbol, const spvgentwo::String& _name, spvgentwo::IAllocator* _pAllocator)
 	{
-		bool success = true;
-
 		using namespace spvgentwo;
-		using namespace LinkerHelper;
-
-		auto error = [&](auto&& ... args) {_consumer.logError(args...); };
-		auto info = [&](auto&& ... args) {_consumer.logInfo(args...); };
 
-		IAllocator* pAllocator = _options.allocator != nullptr ? _options.allocator : _consumer.getAllocator();
-
-		info("Resolving import symbol %s [%llu]", _name.c_str(), hash(_name));
+		_consumer.logInfo("Resolving import symbol %s [%llu]", _name.c_str(), hash(_name));
 
 		if (_libSymbol->getOperation() != _consumerSymbol->getOperation())
 		{
-			error("Lib symbol Op kind does not match consumer kind, both must be either OpFunction or OpVariable [Op: lib %u consumer %u]", _libSymbol->getOperation(), _consumerSymbol->getOperation());
+			_consumer.logError("Lib symbol Op kind does not match consumer kind, both must be either OpFunction or OpVariable [Op: lib %u consumer %u]", _libSymbol->getOperation(), _consumerSymbol->getOperation());
 			return false;
 		}
 
-		String lTypeName(pAllocator);
+		const Type* lType = nullptr;
+		const Type* cType = nullptr;
 
-		auto checkType = [&](const Type& lType, const Type& cType)
+		if (*_libSymbol == spv::Op::OpVariable)
+		{
+			lType = _libSymbol->getType();
+			cType = _consumerSymbol->getType();
+		}
+		else if (*_libSymbol == spv::Op::OpFunction && _libSymbol->getFunction() != nullptr && _consumerSymbol->getFunction() != nullptr)
 		{
-			TypeHelper::getTypeName(lType, lTypeName, _libSymbol);
-			info("Symbol type: \'%s\'", lTypeName.c_str());
+			lType = &_libSymbol->getFunction()->getFunctionType();
+			cType = &_consumerSymbol->getFunction()->getFunctionType();
 
-			if (lType != cType)
+			if (_consumerSymbol->getFunction()->empty() == false)
 			{
-				String cTypeName(pAllocator);
-				TypeHelper::getTypeName(cType, cTypeName, _consumerSymbol);
-
-				error("Type mismatch for symbol %s: \n[export] %s\n[import] %s", _name.c_str(), lTypeName.c_str(), cTypeName.c_str());
+				_consumer.logError("Import symbol %s is defined already", _name.c_str());
 				return false;
 			}
-			return true;
-		};
+		}
 
-		if (*_libSymbol == spv::Op::OpVariable)
+		if (lType == nullptr || cType == nullptr)
 		{
-			const Type* libType = _libSymbol->getType();
-			const Type* consumerType = _consumerSymbol->getType();
+			_consumer.logError("Symbol %s must be OpVariable or OpFunction", _name.c_str());
+			return false;
+		}
 
-			if (checkType(*libType, *consumerType) == false) return false;
+		String lTypeName(_pAllocator);
+		TypeHelper::getTypeName(*lType, lTypeName, _libSymbol);
+		_consumer.logInfo("Symbol type: \'%s\'", lTypeName.c_str());
 
-			printInstruction(_options, _libSymbol, " -> ", _consumerSymbol);
-			_cache.emplaceUnique(_libSymbol, _consumerSymbol);
-		}
-		else if (*_libSymbol == spv::Op::OpFunction && _libSymbol->getFunction() != nullptr && _consumerSymbol->getFunction() != nullptr)
+		if (*lType != *cType)
 		{
-			const Function& libFunc = *_libSymbol->getFunction();
-			Function& cosumerFunc = *_consumerSymbol->getFunction();
+			String cTypeName(_pAllocator);
+			TypeHelper::getTypeName(*cType, cTypeName, _consumerSymbol);
 
-			if (checkType(libFunc.getFunctionType(), cosumerFunc.getFunctionType()) == false) return false;
+			_consumer.logError("Type mismatch for symbol %s: \n[export] %s\n[import] %s", _name.c_str(), lTypeName.c_str(), cTypeName.c_str());
+			return false;
+		}
+
+		return true;
+	}
+
+	// initializer of a global variable, nullptr if there is none
+	inline const spvgentwo::Instruction* getInitializer(const spvgentwo::Instruction* _variable)
+	{
+		auto it = _variable->getFirstActualOperand(); // storage class
+		++it;
+		return it != _variable->end() ? getReferencedInstruction(*it) : nullptr;
+	}
+
+	inline bool transferVariable(const spvgentwo::Instruction* _libSymbol, spvgentwo::Instruction* _consumerSymbol, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	{
+		using namespace spvgentwo;
+
+		mapTypes(_libSymbol->getResultTypeInstr(), _consumerSymbol->getResultTypeInstr(), _cache);
+
+		// the import has no initializer
+		if (const Instruction* lInit = getInitializer(_libSymbol); lInit != nullptr && getInitializer(_consumerSymbol) == nullptr)
+		{
+			Instruction* cInit = lookupInstruction(lInit, *_consumerSymbol->getModule(), _cache, _options);
+			if (cInit == nullptr) { return false; }
 
-			success &= transferFunction(libFunc, cosumerFunc, _cache, _options);
+			_consumerSymbol->addOperand(cInit);
 		}
-		else
+
+		printInstruction(_options, _libSymbol, " -> ", _consumerSymbol);
+
+		return true;
+	}
+
+	// true if _target of the consumer is decorated the way _lDeco decorates its counterpart
+	inline bool isDecorated(const spvgentwo::Module& _consumer, const spvgentwo::Instruction* _target, const spvgentwo::Instruction& _lDeco, const InstrLookup& _cache)
+	{
+		using namespace spvgentwo;
+
+		for (const Instruction& cDeco : _consumer.getDecorations())
 		{
-			error("Symbol %s must be OpVariable or OpFunction", _name.c_str());
-			return false;
+			if (cDeco.getOperation() != _lDeco.getOperation() || cDeco.size() != _lDeco.size() || cDeco.getFirstActualOperand()->getInstruction() != _target)
+			{
+				continue;
+			}
+
+			bool equal = true;
+			auto cit = cDeco.getFirstActualOperand();
+			for (auto lit = _lDeco.getFirstActualOperand(); equal && lit != _lDeco.end(); ++lit, ++cit)
+			{
+				if (lit->isLiteral())
+				{
+					equal = cit->isLiteral() && cit->getLiteral().value == lit->getLiteral().value;
+				}
+				else
+				{
+					Instruction** ppTarget = _cache[getReferencedInstruction(*lit)];
+					equal = ppTarget != nullptr && cit->getInstruction() == *ppTarget;
+				}
+			}
+
+			if (equal)
+			{
+				return true;
+			}
 		}
 
-		return success;
+		return false;
 	}
 } // anon namespace
 
@@ -575,58 +728,59 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		BasicBlock::Iterator decoIt = nullptr;
 	};
 
-	List<ImportSymbol> iVars(pAllocator);
-	List<ImportSymbol> iFuncs(pAllocator);
+	List<ImportSymbol> imports(pAllocator);
+	HashMap<String, Instruction*> importTable(pAllocator); // of the consumer
 
-	bool hasExports = false;
+	// lib -> consumer
+	InstrLookup cache(pAllocator);
 
-	// gather symbols to import
+	// gather symbols to import, all of them are mapped before anything is transfered as they may refer to each other
 	for (auto it = _consumer.getDecorations().begin(), end = _consumer.getDecorations().end(); it != end; ++it)
 	{
 		Instruction* importSymbol = nullptr;
 		String name(pAllocator);
-		const spv::LinkageType type = getLinkageTypeFromDecoration(it.operator->(), &importSymbol, &name);
 
-		if (type == spv::LinkageType::Import)
+		if (getLinkageTypeFromDecoration(it.operator->(), &importSymbol, &name) == spv::LinkageType::Import)
 		{
-			if (const Instruction** ppSymbol = exportTable[name]; ppSymbol != nullptr)
-			{
-				const Instruction* exportSymbol = *ppSymbol;
+			importTable.emplaceUnique(name, importSymbol);
 
-				if (*exportSymbol == spv::Op::OpVariable)
-				{
-					iVars.emplace_back(stdrep::move(name), exportSymbol, importSymbol, it);
-				}
-				else if (*exportSymbol == spv::Op::OpFunction)
-				{
-					iFuncs.emplace_back(stdrep::move(name), exportSymbol, importSymbol, it);
-				}
-				else
-				{
-					error("Symbol %s must be OpVariable or OpFunction", name.c_str());
-					success = false;
-				}
+			if (const Instruction** ppSymbol = exportTable[name]; ppSymbol == nullptr)
+			{
+				info("Symbol %s not found in import module", name.c_str()); // just an info because it could be in a different import module
+			}
+			else if (checkSymbol(_consumer, *ppSymbol, importSymbol, name, pAllocator))
+			{
+				cache.emplaceUnique(*ppSymbol, assignId(importSymbol, _options));
+				imports.emplace_back(stdrep::move(name), *ppSymbol, importSymbol, it);
 			}
 			else
 			{
-				info("Symbol %s not found in import module", name.c_str()); // just an info because it could be in a different import module
+				success = false;
 			}
 		}
-		else if (type == spv::LinkageType::Export)
+	}
+
+	// symbols which are imported by the library as well
+	for (const Instruction& deco : _lib.getDecorations())
+	{
+		Instruction* symbol = nullptr;
+		String name(pAllocator);
+
+		if (getLinkageTypeFromDecoration(&deco, &symbol, &name) == spv::LinkageType::Import)
 		{
-			hasExports = true;
+			if (Instruction** ppImport = importTable[name]; ppImport != nullptr && checkSymbol(_consumer, symbol, *ppImport, name, pAllocator))
+			{
+				cache.emplaceUnique(symbol, *ppImport);
+			}
 		}
 	}
 
-	// lib -> consumer
-	InstrLookup cache(pAllocator);
-
 	auto copy = [&](const List<Instruction>& _in, auto addFunc) -> bool
 	{
 		for (const Instruction& src : _in)
 		{
-			Instruction* cSrc = addFunc();
-			if (transferInstruction(&src, cSrc, cache, _options) == false)
+			InstrSet visited(pAllocator);
+			if (canTransferOperands(&src, _consumer, cache, visited, _options) == false || transferInstruction(&src, addFunc(), cache, _options) == false)
 				return false;
 		}
 		return true;
@@ -647,77 +801,102 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		success &= copy(_lib.getModulesProcessed(), [&]() -> Instruction* { return _consumer.addModuleProccessedInstr(); });
 	}
 
-	if (_options & LinkerOptionBits::ImportReferencedFunctions)
+	InstrSet unresolved(pAllocator);
+
+	// do not touch symbols which need something that must not be imported
+	for (auto it = imports.begin(), end = imports.end(); it != end;)
+	{
+		InstrSet visited(pAllocator);
+
+		if (*it->lib == spv::Op::OpFunction ? canTransferFunction(*it->lib->getFunction(), _consumer, cache, visited, _options) : canTransferOperands(it->lib, _consumer, cache, visited, _options))
+		{
+			++it;
+		}
+		else
+		{
+			error("Symbol %s can not be imported", it->name.c_str());
+			unresolved.emplaceUnique(it->lib, true);
+			it = imports.erase(it);
+			success = false;
+		}
+	}
+
+	// lib Func -> consumer Function
+	struct TransferFunction
 	{
-		// gather all functions called from all the iFuncs we want to import
-		HashMap <Function*, Function*> calledFuncs(pAllocator, static_cast<unsigned int>(_lib.getFunctions().size())); // lib Func -> consumer Function
-		for (const ImportSymbol& func : iFuncs)
+		const Function* lib = nullptr;
+		Function* consume = nullptr;
+	};
+
+	List<TransferFunction> functions(pAllocator);
+
+	for (const ImportSymbol& symbol : imports)
+	{
+		if (*symbol.lib == spv::Op::OpFunction)
 		{
-			Function* target = func.lib->getFunction();
-			FunctionCallGraph fcg(*target, pAllocator);
+			functions.emplace_back(symbol.lib->getFunction(), symbol.consume->getFunction());
+		}
+	}
 
-			for (auto& src : fcg)
+	if (_options & LinkerOptionBits::ImportReferencedFunctions)
+	{
+		// gather all functions called from the functions we want to import, the list grows until all callees are known.
+		// cache the OpFunctions so that we can transfer the instructions in any order and transfering OpFunctionCall works
+		for (auto it = functions.begin(); it != functions.end(); ++it)
+		{
+			for (const BasicBlock& bb : *it->lib)
 			{
-				for (auto& [node, call] : src.outputs()) // dont really care about the call
+				for (const Instruction& instr : bb)
 				{
-					Function* callee = node->data();
-					if (callee != target) // not interested in the exported function
+					for (auto op = instr.getFirstActualOperand(), end = instr.end(); op != end; ++op)
 					{
-						// check if callee is NOT marked for export
-						bool exported = false;
-						ReflectionHelper::getDecorationsFunc(callee->getFunction(), [&exported](const Instruction* pDeco) {
-							if(exported == false && getLinkageTypeFromDecoration(pDeco) == spv::LinkageType::Export)
-							{
-								exported = true;
-							}
-						});
-
-						if (exported == false)
+						const Instruction* callee = op->getInstruction();
+						if (callee == nullptr || *callee != spv::Op::OpFunction || cache[callee] != nullptr)
 						{
-							// if we didn't add this function before (call from another site)
-							if (auto& n = calledFuncs.emplaceUnique(callee, nullptr); n.kv.value == nullptr)
-							{
-								// cache the OpFunctions so that we can transfer the instructions in any order and transfering OpFunctionCall works
-								n.kv.value = &_consumer.addFunction();
-								cache.emplaceUnique(callee->getFunction(), assignId(n.kv.value->getFunction(), _options)); // OpFunction
-							}
+							continue;
 						}
+
+						String sig(pAllocator);
+						TypeHelper::getTypeName(callee->getFunction()->getFunctionType(), sig, callee);
+						info("Auto importing referenced function \'%s\'", sig.c_str());
+
+						functions.emplace_back(callee->getFunction(), &_consumer.addFunction());
+						cache.emplaceUnique(callee, functions.last()->consume->getFunction());
 					}
 				}
 			}
 		}
-
-		// transfer functions from lib to consumer
-		for (auto& [lFunc, cFunc] : calledFuncs)
-		{
-			{
-				String sig(pAllocator);
-				TypeHelper::getTypeName(lFunc->getFunctionType(), sig, lFunc->getFunction());
-				info("Auto importing referenced function \'%s\'", sig.c_str());
-			}
-
-			success &= transferFunction(*lFunc, *cFunc, cache, _options);
-		}
 	}
 
-	bool allImportsResolved = true;
 	// import variables first in case they are used in the imported function
-	for (const ImportSymbol& var : iVars)
+	for (const ImportSymbol& symbol : imports)
 	{
-		if (success &= importSymbolImpl(_consumer, var.lib, var.consume, var.name, cache, _options); success)
+		if (*symbol.lib == spv::Op::OpVariable)
 		{
-			_consumer.getDecorations().erase(var.decoIt); // remove if successful
+			success &= transferVariable(symbol.lib, symbol.consume, cache, _options);
 		}
-		else { allImportsResolved = false; }
 	}
 
-	for (const ImportSymbol& func : iFuncs)
+	for (const TransferFunction& func : functions)
 	{
-		if (success &= importSymbolImpl(_consumer, func.lib, func.consume, func.name, cache, _options); success)
+		success &= transferFunction(*func.lib, *func.consume, cache, _options);
+	}
+
+	for (const ImportSymbol& symbol : imports)
+	{
+		_consumer.getDecorations().erase(symbol.decoIt);
+	}
+
+	// what is left to be resolved by another library
+	for (const Instruction& lDeco : _lib.getDecorations())
+	{
+		if (getLinkageTypeFromDecoration(&lDeco) == spv::LinkageType::Import)
 		{
-			_consumer.getDecorations().erase(func.decoIt); // remove if successful
+			if (Instruction** ppCTarget = cache[lDeco.getFirstActualOperand()->getInstruction()]; ppCTarget != nullptr && isDecorated(_consumer, *ppCTarget, lDeco, cache) == false)
+			{
+				success &= transferInstruction(&lDeco, _consumer.addDecorationInstr(), cache, _options);
+			}
 		}
-		else { allImportsResolved = false; }
 	}
 
 	if (_options & LinkerOptionBits::ImportReferencedNames)
@@ -725,7 +904,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		for (const Instruction& name : _lib.getNames())
 		{
 			const Instruction* lTarget = name.getFirstActualOperand()->getInstruction();
-			if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr)
+			if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr && unresolved[lTarget] == nullptr)
 			{
 				Instruction* cTarget = *ppCTarget;
 
@@ -736,7 +915,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 				{
 					for (const auto& n : _lib.getNameLookupMap().getRange(lTarget))
 					{
-						if (*lTarget == spv::Op::OpTypeStruct)
+						if (n.kv.value.member != sgt_uint32_max)
 						{
 							_consumer.addMemberName(cTarget, n.kv.value.name.c_str(), n.kv.value.member);
 						}
@@ -757,7 +936,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 			if (ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
 			{
 				const Instruction* lTarget = lDeco.getFirstActualOperand()->getInstruction();
-				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr)
+				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr && unresolved[lTarget] == nullptr && isDecorated(_consumer, *ppCTarget, lDeco, cache) == false)
 				{
 					Instruction* cDeco = _consumer.addDecorationInstr();
 					success &= transferInstruction(&lDeco, cDeco, cache, _options);
@@ -766,6 +945,9 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
+	// merged version, the required version may be lower
+	const auto version = _lib.getSpvVersion() > _consumer.getSpvVersion() ? _lib.getSpvVersion() : _consumer.getSpvVersion();
+
 	// only add required capabilities & extensions
 	if (_options.grammar != nullptr && (_options & LinkerOptionBits::AutoAddRequiredCapabilitiesAndExtensions))
 	{
@@ -789,16 +971,21 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
-	if (hasExports == false && allImportsResolved && (_options & LinkerOptionBits::RemoveLinkageCapability))
+	bool needsLinkage = _consumer.getEntryPoints().empty(); // only allowed with Capability::Linkage
+	for (const Instruction& deco : _consumer.getDecorations())
+	{
+		needsLinkage |= getLinkageTypeFromDecoration(&deco) != spv::LinkageType::Max;
+	}
+
+	if (needsLinkage == false && (_options & LinkerOptionBits::RemoveLinkageCapability))
 	{
 		info("Removing Capability::Linkage from consumer module");
 		_consumer.removeCapability(spv::Capability::Linkage);
 	}
 
 	// consumer 1.4, [lib -> consumer version]
-	const auto version = _lib.getSpvVersion() > _consumer.getSpvVersion() ? _lib.getSpvVersion() : _consumer.getSpvVersion();
 	info("Merged SPIR-V version: %u.%u [Lib %u -> %u Consumer]", getMajorVersion(version), getMinorVersion(version), _lib.getSpvVersion(), version);
-	_consumer.setSpvVersion(version); // must be set before finalize
+	_consumer.setSpvVersion(version > _consumer.getSpvVersion() ? version : _consumer.getSpvVersion()); // must be set before finalize
 
 	if (_options & LinkerOptionBits::UpdateEntryPointGlobalVarInterface)
 	{
-- 
2.43.0


From 771debca3e894e5707f473fb9ff208d92da7d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 079/115] fix: file reader with an offset expected more words
 than there are

---
 common/source/BinaryFileReader.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/common/source/BinaryFileReader.cpp b/common/source/BinaryFileReader.cpp
index 16fa62a..c21cd3b 100644
--- a/common/source/BinaryFileReader.cpp
+++ b/common/source/BinaryFileReader.cpp
@@ -20,6 +20,9 @@ bool spvgentwo::BinaryFileReader::get(unsigned int& _word)
 
 bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sgt_size_t _length)
 {
+	m_buffer.clear();
+	m_pos = 0u;
+
 	if (_path == nullptr)
 	{
 		return false;
@@ -52,12 +55,18 @@ bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sg
 
 	if (file != nullptr)
 	{
-		if (fseek(file, static_cast<long>(_offset), SEEK_END) != 0) 
+		if (fseek(file, 0, SEEK_END) != 0) 
+		{
+			return false;
+		}
+
+		const long size = ftell(file);
+		if (size < 0 || _offset > static_cast<sgt_size_t>(size))
 		{
 			return false;
 		}
 
-		auto remaining = static_cast<sgt_size_t>(ftell(file));
+		const auto remaining = static_cast<sgt_size_t>(size) - _offset;
 		if (fseek(file, static_cast<long>(_offset), SEEK_SET) != 0u)
 		{
 			return false;
@@ -78,7 +87,13 @@ bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sg
 				return false;
 			}
 
-			return fread(m_buffer.data(), sizeof(sgt_uint32_t), count, file) == count;
+			if (fread(m_buffer.data(), sizeof(sgt_uint32_t), count, file) != count)
+			{
+				m_buffer.clear(); // nothing to get
+				return false;
+			}
+
+			return true;
 		}
 	}
 
-- 
2.43.0


From a2094612a55f4b768a20fa262fd366fc7fdd0e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 080/115] fix: disassembler reported success for files it could
 not read or write

---
 common/include/common/BinaryFileWriter.h |  3 ++-
 common/source/BinaryFileWriter.cpp       | 14 ++++++++------
 dis/source/dis.cpp                       |  7 +++++--
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/common/include/common/BinaryFileWriter.h b/common/include/common/BinaryFileWriter.h
index 2190b1c..13f08da 100644
--- a/common/include/common/BinaryFileWriter.h
+++ b/common/include/common/BinaryFileWriter.h
@@ -17,7 +17,8 @@ namespace spvgentwo
 		bool isOpen() const { return m_pFile != nullptr; }
 		operator bool() const { return m_pFile != nullptr; }
 
-		void close();
+		// returns false if the file is not open or could not be written entirely
+		bool close();
 
 	private:
 		Vector<sgt_uint32_t> m_buffer;
diff --git a/common/source/BinaryFileWriter.cpp b/common/source/BinaryFileWriter.cpp
index b29e441..f6678c8 100644
--- a/common/source/BinaryFileWriter.cpp
+++ b/common/source/BinaryFileWriter.cpp
@@ -38,17 +38,19 @@ bool spvgentwo::BinaryFileWriter::open(const char* _path)
 	return m_pFile != nullptr;
 }
 
-void spvgentwo::BinaryFileWriter::close()
+bool spvgentwo::BinaryFileWriter::close()
 {
+	bool success = false;
+
 	if (m_pFile != nullptr)
 	{
-		if (m_buffer.empty() == false)
-		{
-			fwrite(m_buffer.data(), sizeof(sgt_uint32_t), m_buffer.size(), static_cast<FILE*>(m_pFile));
-		}
+		success = m_buffer.empty() || fwrite(m_buffer.data(), sizeof(sgt_uint32_t), m_buffer.size(), static_cast<FILE*>(m_pFile)) == m_buffer.size();
 
-		fclose(static_cast<FILE*>(m_pFile));
+		// buffered words might only be written now
+		success &= fclose(static_cast<FILE*>(m_pFile)) == 0;
 		m_pFile = nullptr;
 	}
 	m_buffer.clear();
+
+	return success;
 }
\ No newline at end of file
diff --git a/dis/source/dis.cpp b/dis/source/dis.cpp
index 682cf2b..6bcefca 100644
--- a/dis/source/dis.cpp
+++ b/dis/source/dis.cpp
@@ -97,15 +97,18 @@ int main(int argc, char* argv[])
 
 		if (serialize)
 		{
-			if (BinaryFileWriter writer(alloc, "serialized.spv"); writer.isOpen())
+			BinaryFileWriter writer(alloc);
+			if (module.finalizeAndWrite(writer) == false || writer.open("serialized.spv") == false || writer.close() == false)
 			{
-				module.finalizeAndWrite(writer);
+				logger.logError("Failed to write serialized.spv");
+				return -1;
 			}
 		}
 	}
 	else
 	{
 		logger.logError("Failed to open %s", spv);
+		return -1;
 	}
 
 	return 0;
-- 
2.43.0


From dc4b4d5e9306d7ca3136bddce671add721d93b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 081/115] fix: reflector crashed listing functions without a
 name

---
 refl/source/refl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index 39138ca..63be84c 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -167,7 +167,8 @@ void printFunctions(IModulePrinter& _printer, const Module& _module, const Gramm
 
 	for (const Function& fun : _module.getFunctions())
 	{
-		printf("%s\n", fun.getName());
+		const char* name = fun.getName();
+		printf("%s\n", name != nullptr ? name : "[UNNAMED]");
 
 		printFnType(fun);
 	}
-- 
2.43.0


From f783c84fd9710ace77c8332060a97a0d945790c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 082/115] fix: linker carried on without files and symbols it
 could not find

---
 link/source/link.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 6c2c789..ca8108c 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -124,7 +124,7 @@ int link(const HeapList<Module>& _libs, Module& _target, const LinkerHelper::Lin
 	return 0;
 }
 
-void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
+bool addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 {
 	Instruction* instr = nullptr;
 	const char* target = _argv[++_i];
@@ -139,8 +139,8 @@ void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 
 	if (instr == nullptr)
 	{
-		g_logger.logError("Could not find %s in %s", target, g_patchspv);
-		return;
+		g_logger.logError("Could not find %s in %s", target, g_patchspv != nullptr ? g_patchspv : "<no patchspv>");
+		return false;
 	}
 
 	if (const char* name = _argv[++_i]; name != nullptr)
@@ -155,6 +155,8 @@ void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 		g_targets.emplace_back(instr, name, type, exportVars);
 		g_logger.logInfo("Adding %s target instruction \'%s\' with name \'%s\'", type == spv::LinkageType::Import ? "import" : "export", target, name);
 	}
+
+	return true;
 }
 
 int main(int argc, char* argv[])
@@ -276,16 +278,14 @@ int main(int argc, char* argv[])
 		{ // import symbol
 			"-import", "-i",
 			[](int& _i, int _argc, char* _argv[]) {
-				addTarget(spv::LinkageType::Import, _i, _argc, _argv);
-				return true;
+				return addTarget(spv::LinkageType::Import, _i, _argc, _argv);
 			},
 			2 // symbol name and export name
 		},
 		{ // import symbol
 			"-export", "-e",
 			[](int& _i, int _argc, char* _argv[]) {
-				addTarget(spv::LinkageType::Export, _i, _argc, _argv);
-				return true;
+				return addTarget(spv::LinkageType::Export, _i, _argc, _argv);
 			},
 			2 // symbol name and export name and -vars (optional)
 		}
@@ -319,12 +319,15 @@ int main(int argc, char* argv[])
 			}
 		}
 		g_logger.logWarning("Unkown parameter %s", arg);
-		return false;
+		return true;
 	};
 
 	for (int i = 1; i < argc; ++i)
 	{
-		checkParam(argv[i], i);
+		if (checkParam(argv[i], i) == false)
+		{
+			return -1;
+		}
 	}
 
 	if (g_targets.empty() == false)
-- 
2.43.0


From eeb916471cec5986e92d8ae73b86d50a14d6d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 083/115] fix: linker patched entry points and local
 instructions

---
 link/source/link.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index ca8108c..05555d1 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -45,6 +45,19 @@ Module g_targetModule(&g_alloc, &g_logger);
 
 int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 {
+	for (auto& t : _targets)
+	{
+		const bool function = *t.instr == spv::Op::OpFunction && t.instr->getFunction()->isEntryPoint() == false;
+		const bool variable = *t.instr == spv::Op::OpVariable && t.instr->getBasicBlock() == nullptr;
+
+		if (function == false && variable == false)
+		{
+			const Grammar::Instruction* info = g_gram.getInfo(static_cast<unsigned int>(t.instr->getOperation()));
+			g_logger.logError("Only OpFunctions which are not EntryPoints and global OpVariables can be imported/exported [%s]", info != nullptr ? info->name : "unknown");
+			return -1;
+		}
+	}
+
 	_module.addCapability(spv::Capability::Linkage);
 
 	for (auto& t : _targets)
@@ -70,12 +83,6 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 			}
 		}
 
-		if (*t.instr != spv::Op::OpFunction && *t.instr != spv::Op::OpVariable)
-		{
-			g_logger.logError("Only OpFunctions which are not EntryPoints and global OpVariables can be imported/exported [%s]", g_gram.getInfo(static_cast<unsigned int>(t.instr->getOperation())));
-			return -1;
-		}
-
 		Instruction* instr = _module.addDecorationInstr();
 		instr->opDecorate(t.instr, spv::Decoration::LinkageAttributes, t.name, t.type);
 		g_printer << "Added "; printInstruction(*instr, g_gram, g_printer); g_printer << "\n";
-- 
2.43.0


From d3af58c03836d67079d12d1c68657c64a9e696f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 084/115] fix: linker reported success without writing a module

---
 link/source/link.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 05555d1..9cc4530 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -88,19 +88,25 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 		g_printer << "Added "; printInstruction(*instr, g_gram, g_printer); g_printer << "\n";
 	}
 
-	BinaryFileWriter writer(g_alloc, _out);
-	if (writer.isOpen() == false)
+	// the file is opened (and overwritten) only when there is a module to write
+	BinaryFileWriter writer(g_alloc);
+	if (_module.finalizeAndWrite(writer) == false || writer.open(_out) == false || writer.close() == false)
 	{
-		g_logger.logError("Failed to open \'%s\'", _out);
+		g_logger.logError("Failed to write \'%s\'", _out);
 		return -1;
 	}
 
-	_module.finalizeAndWrite(writer);
 	return 0;
 }
 
 int link(const HeapList<Module>& _libs, Module& _target, const LinkerHelper::LinkerOptions& _options, const char* _out)
 {
+	if (g_targetspv == nullptr)
+	{
+		g_logger.logError("No consumer module to link to");
+		return -1;
+	}
+
 	bool success = true;
 	for (const Module& lib : _libs)
 	{
@@ -112,17 +118,13 @@ int link(const HeapList<Module>& _libs, Module& _target, const LinkerHelper::Lin
 		return -1;
 	}
 
-	BinaryFileWriter writer(g_alloc, _out);
-	if (writer.isOpen() == false)
-	{
-		g_logger.logError("Failed to open \'%s\'", _out);
-		return -1;
-	}
-
 	_target.finalizeEntryPoints();
 
+	// the file is opened (and overwritten) only when there is a module to write
+	BinaryFileWriter writer(g_alloc);
+
 	// don't need to call assignIDs, we are using AssignResultIDs
-	if (_target.write(writer) == false) 
+	if (_target.write(writer) == false || writer.open(_out) == false || writer.close() == false)
 	{
 		g_logger.logError("Failed to write \'%s\'", _out);
 		return -1;
-- 
2.43.0


From d9d9feea5e27951541a1146b0f29e20df0cc6fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 085/115] fix: modules kept type and constant infos in memory
 of foreign allocators

---
 lib/include/spvgentwo/Constant.h |  3 +++
 lib/include/spvgentwo/Type.h     |  3 +++
 lib/source/Constant.cpp          | 20 ++++++++++++++++++++
 lib/source/Function.cpp          |  4 ++--
 lib/source/Module.cpp            | 24 ++++++++++++++----------
 lib/source/Type.cpp              | 22 ++++++++++++++++++++++
 6 files changed, 64 insertions(+), 12 deletions(-)

diff --git a/lib/include/spvgentwo/Constant.h b/lib/include/spvgentwo/Constant.h
index ad3f5f5..8d1f6cb 100644
--- a/lib/include/spvgentwo/Constant.h
+++ b/lib/include/spvgentwo/Constant.h
@@ -14,6 +14,9 @@ namespace spvgentwo
 		Constant(Constant&& _other) noexcept;
 		~Constant();
 
+		// deep copy which only uses _pAllocator (the copy constructor adopts the allocator of _other)
+		Constant clone(IAllocator* _pAllocator) const;
+
 		Constant& operator=(const Constant& _other);
 		Constant& operator=(Constant&& _other) noexcept;
 
diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index a3dc82d..54a15c0 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -88,6 +88,9 @@ namespace spvgentwo
 		Type(const Type& _other);
 		~Type();
 
+		// deep copy which only uses _pAllocator (the copy constructor adopts the allocator of _other)
+		Type clone(IAllocator* _pAllocator) const;
+
 		Type& operator=(Type&& _other) noexcept;
 		Type& operator=(const Type& _other);
 
diff --git a/lib/source/Constant.cpp b/lib/source/Constant.cpp
index a0daf80..afd3875 100644
--- a/lib/source/Constant.cpp
+++ b/lib/source/Constant.cpp
@@ -28,6 +28,26 @@ spvgentwo::Constant::~Constant()
 {
 }
 
+spvgentwo::Constant spvgentwo::Constant::clone(IAllocator* _pAllocator) const
+{
+	Constant copy(_pAllocator);
+	copy.m_Operation = m_Operation;
+	copy.m_Type = m_Type.clone(_pAllocator);
+
+	for (const Constant& component : m_Components)
+	{
+		copy.m_Components.emplace_back(component.clone(_pAllocator));
+	}
+
+	copy.m_literalData.reserve(m_literalData.size());
+	for (const unsigned int& data : m_literalData)
+	{
+		copy.m_literalData.emplace_back(data);
+	}
+
+	return copy;
+}
+
 spvgentwo::Constant& spvgentwo::Constant::operator=(const Constant& _other)
 {
 	if (this == &_other) return *this;
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 52981b1..b8121e7 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -231,7 +231,7 @@ bool spvgentwo::Function::setReturnType(const Type& _returnType)
 		// Return Type is the type of the return value of functions of this type. It must be a concrete or abstract type, or a pointer
 		// to such a type.If the function has no return value, Return Type must be OpTypeVoid.
 
-		types.front() = _returnType;
+		types.front() = _returnType.clone(m_pModule->getAllocator());
 		return true;
 	}
 }
@@ -262,7 +262,7 @@ bool spvgentwo::Function::setFunctionType(const Type& _functionType)
 		m_pModule->logError("_functionType is not OpTypeFunction");
 		return false;
 	}
-	m_FunctionType = _functionType;
+	m_FunctionType = _functionType.clone(m_pModule->getAllocator());
 
 	return true;
 }
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a603b6d..e506fca 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -523,14 +523,16 @@ spvgentwo::Instruction* spvgentwo::Module::addDecorationInstr()
 spvgentwo::Instruction* spvgentwo::Module::addConstant(const Constant& _const, const char* _pName)
 {
 	const spv::Op constantOp = _const.getOperation();
-	auto& node = m_ConstantToInstr.emplaceUnique(_const, nullptr);
 
 	// early return for regular constants which are unique
-	if( IsConstantOp(constantOp) && node.kv.value != nullptr )
+	if (Instruction** ppInstr = m_ConstantToInstr.get(_const); ppInstr != nullptr && *ppInstr != nullptr && IsConstantOp(constantOp))
 	{
-		return node.kv.value;
+		return *ppInstr;
 	}
 
+	// _const may belong to another module, its copy must only use memory of this modules allocator
+	auto& node = m_ConstantToInstr.emplaceUnique(_const.clone(m_pAllocator), nullptr);
+
 	Instruction* pType = addType(_const.getType());
 
 	// linked list entry to store in m_TypesAndConstants
@@ -618,12 +620,14 @@ const spvgentwo::Constant* spvgentwo::Module::getConstantInfo(const Instruction*
 
 spvgentwo::Instruction* spvgentwo::Module::addType(const Type& _type, const char* _pName)
 {
-	auto& node = m_TypeToInstr.emplaceUnique(_type, nullptr);
-	if (node.kv.value != nullptr)
+	if (Instruction** ppInstr = m_TypeToInstr.get(_type); ppInstr != nullptr && *ppInstr != nullptr)
 	{
-		return node.kv.value;
+		return *ppInstr;
 	}
 
+	// _type may belong to another module, its copy must only use memory of this modules allocator
+	auto& node = m_TypeToInstr.emplaceUnique(_type.clone(m_pAllocator), nullptr);
+
 	auto entry = Entry<Instruction>::create(m_pAllocator, this, spv::Op::OpNop);
 
 	Instruction* pInstr = node.kv.value = entry->operator->();
@@ -764,8 +768,8 @@ spvgentwo::Instruction* spvgentwo::Module::addTypeInstr(const Type* _pType)
 
 	if (_pType != nullptr)
 	{
-		m_TypeToInstr.emplaceUnique(*_pType, instr);
-		m_InstrToType.emplaceUnique(instr, _pType);
+		auto& node = m_TypeToInstr.emplaceUnique(_pType->clone(m_pAllocator), instr);
+		m_InstrToType.emplaceUnique(instr, &node.kv.key);
 	}
 
 	return instr;
@@ -777,8 +781,8 @@ spvgentwo::Instruction* spvgentwo::Module::addConstantInstr(const Constant* _pCo
 
 	if (_pConstant != nullptr)
 	{
-		m_ConstantToInstr.emplaceUnique(*_pConstant, instr);
-		m_InstrToConstant.emplaceUnique(instr, _pConstant);
+		auto& node = m_ConstantToInstr.emplaceUnique(_pConstant->clone(m_pAllocator), instr);
+		m_InstrToConstant.emplaceUnique(instr, &node.kv.key);
 	}
 
 	return instr;
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index e38d76d..8dbe621 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -48,6 +48,28 @@ spvgentwo::Type::~Type()
 {
 }
 
+spvgentwo::Type spvgentwo::Type::clone(IAllocator* _pAllocator) const
+{
+	Type copy(_pAllocator, m_Type);
+
+	for (const Type& subType : m_subTypes)
+	{
+		copy.m_subTypes.emplace_back(subType.clone(_pAllocator));
+	}
+
+	copy.m_IntWidth = m_IntWidth;
+	copy.m_IntSign = m_IntSign;
+	copy.m_StorageClass = m_StorageClass;
+	copy.m_ImgDimension = m_ImgDimension;
+	copy.m_ImgArray = m_ImgArray;
+	copy.m_ImgMultiSampled = m_ImgMultiSampled;
+	copy.m_ImgSamplerAccess = m_ImgSamplerAccess;
+	copy.m_ImgFormat = m_ImgFormat;
+	copy.m_AccessQualifier = m_AccessQualifier;
+
+	return copy;
+}
+
 spvgentwo::Type& spvgentwo::Type::operator=(Type&& _other) noexcept
 {
 	if (this == &_other) return *this;
-- 
2.43.0


From ee01f60489273d438b42fdf64ed7441e5f9f2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 086/115] fix: sampling accepted multisampled images,
 projective sampling accepted cubes and arrayed images

---
 lib/include/spvgentwo/InstructionTemplate.inl | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index b13ff5f..0631455 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -757,6 +757,18 @@ namespace spvgentwo
 			return error();
 		}
 
+		if (isSampled && _imageOp != spv::Op::OpImageQueryLod && imageType->getImageMultiSampled())
+		{
+			module.logError("_imageOp requires the image of _pTargetImage to have MS 0");
+			return error();
+		}
+
+		if ((coordCheckArgs & CheckImgCoord::IsProjective) && (imageType->getImageArray() || imageType->getImageDimension() == spv::Dim::Cube))
+		{
+			module.logError("Projective image operations require an image that is neither arrayed nor a Cube");
+			return error();
+		}
+
 		if (!checkDrefComponent() || !checkImageCoordinateType(imageType, coordType, coordCheckArgs))
 		{
 			return error();
-- 
2.43.0


From e1dbdbb10eee55e841da869f67bb511e5956af7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 087/115] fix: types and constants were declared before types
 that were added while they were filled

---
 lib/include/spvgentwo/Entry.h                 |  5 ++++
 lib/include/spvgentwo/Instruction.h           |  3 ++
 lib/include/spvgentwo/InstructionTemplate.inl |  2 ++
 lib/include/spvgentwo/List.h                  | 13 +++++++++
 lib/source/Instruction.cpp                    | 28 +++++++++++++++++++
 5 files changed, 51 insertions(+)

diff --git a/lib/include/spvgentwo/Entry.h b/lib/include/spvgentwo/Entry.h
index 6d8f75f..4decd66 100644
--- a/lib/include/spvgentwo/Entry.h
+++ b/lib/include/spvgentwo/Entry.h
@@ -215,6 +215,11 @@ namespace spvgentwo
 		{
 			_pAlloc->destruct(this);
 		}
+		else
+		{
+			m_pPrev = nullptr;
+			m_pNext = nullptr;
+		}
 
 		return next;
 	}
diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index b37e22e..d508d3b 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -159,6 +159,9 @@ namespace spvgentwo
 		// uses ITypeInferenceAndValiation instance if present
 		Instruction* inferResultTypeOperand();
 
+		// types and constants have to be declared after their operands, which might have been added to the module after this instruction
+		void orderAfterOperands();
+
 		// validate m_Operations and operands with ITypeInferenceAndValiation instance if present, return true if okay
 		bool validateOperands() const;
 
diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 0631455..b5d34e9 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -44,6 +44,8 @@ namespace spvgentwo
 
 		inferResultTypeOperand();
 
+		orderAfterOperands();
+
 		validateOperands();
 
 		return this;
diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index 0022ca1..5bdfde6 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -69,6 +69,9 @@ namespace spvgentwo
 		// removes element at pos from list, returns next element
 		Entry<T>* erase(Iterator _pos, const bool _destruct = true);
 
+		// moves element at pos to the end of this list, its address stays the same
+		void move_back(Iterator _pos);
+
 		T pop_back();
 		T pop_front();
 
@@ -360,6 +363,16 @@ namespace spvgentwo
 		return _pos.entry()->remove(_destruct ? m_pAllocator : nullptr);
 	}
 
+	template<class T>
+	inline void List<T>::move_back(Iterator _pos)
+	{
+		if (_pos.entry() == m_pLast) return;
+
+		Entry<T>* entry = _pos.entry();
+		erase(_pos, false);
+		append_entry(entry);
+	}
+
 	template<class T>
 	template<class Comparable>
 	inline constexpr typename List<T>::Iterator List<T>::find(const Comparable& _val) const
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 6c9ae2d..1cbc525 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1808,6 +1808,8 @@ spvgentwo::Instruction* spvgentwo::Instruction::toSpecOp()
 
 	insert_before(it, opcode);
 
+	orderAfterOperands();
+
 	return this;
 }
 
@@ -2176,6 +2178,32 @@ spvgentwo::Instruction* spvgentwo::Instruction::inferResultTypeOperand()
 	return pResultType;
 }
 
+void spvgentwo::Instruction::orderAfterOperands()
+{
+	// OpTypeForwardPointer refers to a pointer type that is declared later
+	if (m_parentType != ParentType::Module || m_Operation == spv::Op::OpTypeForwardPointer || (isType() || isSpecOrConstant()) == false) return;
+
+	List<Instruction>& instructions = getModule()->getTypesAndConstants();
+
+	if (instructions.empty() || &instructions.back() == this) return;
+
+	auto self = instructions.find_if([this](const Instruction& _instr) { return &_instr == this; });
+
+	if (self == nullptr) return;
+
+	for (auto later = self.next(); later != nullptr; ++later)
+	{
+		for (const Operand& op : *this)
+		{
+			if (op.isInstruction() && op.instruction == later.operator->())
+			{
+				instructions.move_back(self);
+				return;
+			}
+		}
+	}
+}
+
 bool spvgentwo::Instruction::validateOperands() const
 {
 #ifdef SPVGENTWO_ENABLE_OPERANDVALIDATION
-- 
2.43.0


From 63b7f087048bc8363feff3b0936b71c57a4dae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 088/115] fix: removing one of several equal types or constants
 left descriptions of the others dangling

---
 lib/source/Module.cpp | 45 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index e506fca..f67d0a1 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1638,23 +1638,46 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 
 void spvgentwo::Module::removeFromLookupMaps(const Instruction* _pInstr)
 {
-	if (auto itt = m_InstrToType.find(_pInstr); itt != m_InstrToType.end())
+	// equal types (or constants) share one description, it has to stay as long as another instruction declares the same
+	auto remove = [_pInstr, this](auto& _instrToInfo, auto& _infoToInstr)
 	{
-		if(auto tti = m_TypeToInstr.find(*itt->value); tti != m_TypeToInstr.end())
+		auto it = _instrToInfo.find(_pInstr);
+		if (it == _instrToInfo.end())
 		{
-			m_TypeToInstr.erase(tti);
+			return;
 		}
-		m_InstrToType.erase(itt);
-	}
 
-	if (auto itc = m_InstrToConstant.find(_pInstr); itc != m_InstrToConstant.end())
-	{
-		if (auto cti = m_ConstantToInstr.find(*itc->value); cti != m_ConstantToInstr.end())
+		const auto* pInfo = it->value;
+		_instrToInfo.erase(it);
+
+		Instruction* pOther = nullptr;
+		for (Instruction& instr : m_TypesAndConstants)
 		{
-			m_ConstantToInstr.erase(cti);
+			if (auto other = _instrToInfo.find(&instr); other != _instrToInfo.end() && other->value == pInfo)
+			{
+				pOther = &instr;
+				break;
+			}
 		}
-		m_InstrToConstant.erase(itc);
-	}
+
+		auto info = _infoToInstr.find(*pInfo);
+		if (info == _infoToInstr.end())
+		{
+			return;
+		}
+
+		if (pOther == nullptr)
+		{
+			_infoToInstr.erase(info);
+		}
+		else if (info->value == _pInstr)
+		{
+			info->value = pOther;
+		}
+	};
+
+	remove(m_InstrToType, m_TypeToInstr);
+	remove(m_InstrToConstant, m_ConstantToInstr);
 
 	m_NameLookup.eraseRange(_pInstr);
 }
-- 
2.43.0


From ab167f196c516f2cd3161d51ca4c13e697e098fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 089/115] fix: references to the invalid id were accepted when
 reading modules

---
 lib/source/Module.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index f67d0a1..962c136 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -891,8 +891,10 @@ bool spvgentwo::Module::resolveIDs(IAllocator* _pAllocator)
 				continue;
 			}
 
-			if (spv::Id id = it->getId(); id != InvalidId)
+			if (it->isId())
 			{
+				const spv::Id id = it->id;
+
 				if (Instruction** ppInstr = idToPtr.get(id); ppInstr != nullptr) // lookup pointer for operand
 				{
 					Instruction* op = *ppInstr;
-- 
2.43.0


From 8d73ce4cb41fb3e2317d395b3074e2932dc3cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 090/115] fix: modules defining an id more than once were
 accepted

---
 lib/source/Module.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 962c136..8b7642c 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -870,6 +870,13 @@ bool spvgentwo::Module::resolveIDs(IAllocator* _pAllocator)
 				return true; // stop iterating
 			}
 
+			if (it->id != InvalidId && idToPtr.get(it->id) != nullptr)
+			{
+				logError("Result <id> %u is defined more than once", it->id);
+				success = false;
+				return true; // stop iterating
+			}
+
 			idToPtr.emplaceUnique(it->id, &_instr);
 		}
 		return false;
@@ -1518,6 +1525,12 @@ bool spvgentwo::Module::read(IReader& _reader, const Grammar& _grammar)
 			if (EntryPoint** epp = entryPoints.get(id); epp != nullptr)
 			{
 				func = *epp;
+
+				if (func->getFunction()->getResultId() != InvalidId)
+				{
+					logError("OpFunction with result ID %u is defined more than once", id);
+					return false;
+				}
 			}
 			else
 			{
-- 
2.43.0


From f573ce86d98efd78e70b64c37d702228e3d1345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 091/115] fix: instructions with an invalid result id were
 accepted

---
 lib/source/Instruction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 1cbc525..9b47d9e 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -597,6 +597,12 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 		else if (op.category == Grammar::OperandCategory::Id)
 		{
 			if (parseId(_operandCount) == false) return false;
+
+			if (op.kind == Grammar::OperandKind::IdResult && back().getId() == InvalidId)
+			{
+				getModule()->logError("Invalid result <id> for %s", info->name);
+				return false;
+			}
 		}
 		else if (op.category == Grammar::OperandCategory::Literal)
 		{
-- 
2.43.0


From 4bf8d9dae168f620e781825f296a997a0d4c688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 092/115] fix: instructions with impossible word counts were
 accepted

---
 lib/source/Function.cpp    | 12 +++++++++++-
 lib/source/Instruction.cpp |  6 ++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index b8121e7..0a04f31 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -88,10 +88,20 @@ bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instru
 			if (m_Parameters.emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false) return false;
 			break;
 		case spv::Op::OpLabel:
+			if (operands != 1u) // OpLabel has only the result <id>
+			{
+				m_pModule->logError("Invalid word count for OpLabel");
+				return false;
+			}
 			if (addBasicBlock().read(_reader, _grammar) == false) return false;
 			break;
 		case spv::Op::OpFunctionEnd:
-			return true; // FunctionEnd has no operands
+			if (operands != 0u) // FunctionEnd has no operands
+			{
+				m_pModule->logError("Invalid word count for OpFunctionEnd");
+				return false;
+			}
+			return true;
 		default:
 			m_pModule->logError("Unexpected op-code for function");
 			return false; // unexpected op code
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 9b47d9e..73c22fb 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -345,6 +345,12 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 		return false;
 	}
 
+	if (_operandCount == ~0u) // word count includes the op code itself
+	{
+		getModule()->logError("Invalid word count for %s", info->name);
+		return false;
+	}
+
 	auto it = info->operands.begin();
 	const auto end = info->operands.end();
 
-- 
2.43.0


From 350c7c8edd55d2060158ac8ee689c1d6edb1e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 093/115] fix: calls of something else than a function crashed
 the interface collection and call graphs

---
 common/source/FunctionCallGraph.cpp | 6 +++++-
 lib/source/Function.cpp             | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/common/source/FunctionCallGraph.cpp b/common/source/FunctionCallGraph.cpp
index c99befd..13f0eb1 100644
--- a/common/source/FunctionCallGraph.cpp
+++ b/common/source/FunctionCallGraph.cpp
@@ -22,7 +22,11 @@ void spvgentwo::FunctionCallGraph::add(const Function& _func)
 			{
 				if (auto it = instr.getFirstActualOperand(); it != nullptr && it->isInstruction())
 				{
-					Function* dstFunc = it->getInstruction()->getFunction();
+					Function* dstFunc = *it->getInstruction() == spv::Op::OpFunction ? it->getInstruction()->getFunction() : nullptr;
+					if (dstFunc == nullptr) // not a call of a function of this module
+					{
+						continue;
+					}
 					auto dstIt = this->m_nodes.find_if([&dstFunc](NodeType& n) { return n.data() == dstFunc; });
 
 					NodeType* dst = nullptr;
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 0a04f31..2595036 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -347,7 +347,12 @@ void spvgentwo::collectReferencedVariables(const Function& _func, List<Operand>&
 					{
 						// 3rd arg of opFunctionCall is OpFunction whos parent Function class holds the BBs were looking for
 						Instruction* pOpFunc = (instr.begin() + 2u)->getInstruction();
-						Function* pFunction = pOpFunc->getFunction();
+						Function* pFunction = pOpFunc != nullptr && *pOpFunc == spv::Op::OpFunction ? pOpFunc->getFunction() : nullptr;
+
+						if (pFunction == nullptr) // not a call of a function of this module
+						{
+							continue;
+						}
 
 						// add unvisited function BBs
 						for (BasicBlock& funcBB : *pFunction)
-- 
2.43.0


From 53f550597b69e5bd556418d10c44b746979bdf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:18 +0000
Subject: [PATCH 094/115] fix: removing a function replaced only the first use
 in every instruction

---
 lib/source/Module.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 8b7642c..b85f050 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -316,8 +316,11 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Module::remove(const Functio
 				if (*it == opFunction) // need to check use of OpFunctionparameter?
 				{
 					*it = opFunctionReplacement;
-					uses.emplace_back(&instr);
-					break;
+
+					if (uses.empty() || uses.back() != &instr) // list every user once, but replace all of its operands
+					{
+						uses.emplace_back(&instr);
+					}
 				}
 			}
 		};
-- 
2.43.0


From e7601609a33b807e1a46e8cf71bd29fc53b5e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:26 +0000
Subject: [PATCH 095/115] fix: types and literals of long had 32 bits or did
 not compile where long has 64

---
 lib/include/spvgentwo/Operand.h | 5 +++--
 lib/include/spvgentwo/Type.h    | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/Operand.h b/lib/include/spvgentwo/Operand.h
index 5a4a639..5f26a74 100644
--- a/lib/include/spvgentwo/Operand.h
+++ b/lib/include/spvgentwo/Operand.h
@@ -113,9 +113,10 @@ namespace spvgentwo
 		{
 			_out.emplace_back(static_cast<unsigned int>(first < 0 ? 0xFFFF0000 : 0u) | static_cast<unsigned int>(first));
 		}
-		else if constexpr ( stdrep::is_same_v<S, sgt_int64_t> || stdrep::is_same_v<S, sgt_uint64_t> || stdrep::is_same_v<S, double> )
+		else if constexpr ( stdrep::is_same_v<S, sgt_int64_t> || stdrep::is_same_v<S, sgt_uint64_t> || stdrep::is_same_v<S, double> ||
+			((stdrep::is_same_v<S, long> || stdrep::is_same_v<S, unsigned long>) && sizeof(S) == sizeof(sgt_uint64_t)) )
 		{
-			static_assert(sizeof(double) ==  2*sizeof(sgt_uint32_t));
+			static_assert(sizeof(double) ==  2*sizeof(sgt_uint32_t) && sizeof(S) == sizeof(double));
 			sgt_uint32_t vals[2]{};
 			copy(&first, vals, sizeof(double));
 
diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index 54a15c0..55a22a4 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -909,10 +909,10 @@ namespace spvgentwo
 	inline Type& Type::fundamental<unsigned int>(const unsigned int*) { return UInt(); }
 
 	template <>
-	inline Type& Type::fundamental<long>(const long*) { return Int(); }
+	inline Type& Type::fundamental<long>(const long*) { return Int(static_cast<unsigned int>(sizeof(long)) * 8u); }
 
 	template <>
-	inline Type& Type::fundamental<unsigned long>(const unsigned long*) { return UInt(); }
+	inline Type& Type::fundamental<unsigned long>(const unsigned long*) { return UInt(static_cast<unsigned int>(sizeof(unsigned long)) * 8u); }
 
 	template <>
 	inline Type& Type::fundamental<long long>(const long long*) { return Int(64u); }
-- 
2.43.0


From 6d5f20625df9a235bac834cc2758bcbf80015ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:27 +0000
Subject: [PATCH 096/115] fix: looking up operands by name or kind matched
 prefixes, read past the descriptions and lost track behind strings

---
 common/source/GrammarHelper.cpp | 88 +++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 27 deletions(-)

diff --git a/common/source/GrammarHelper.cpp b/common/source/GrammarHelper.cpp
index 8fa5084..7907150 100644
--- a/common/source/GrammarHelper.cpp
+++ b/common/source/GrammarHelper.cpp
@@ -2,6 +2,8 @@
 
 namespace
 {
+	using namespace spvgentwo;
+
 	bool stringCmp(const char* _pLeft, const char* _pRight)
 	{
 		if (_pLeft == nullptr || _pRight == nullptr)
@@ -20,48 +22,80 @@ namespace
 			++_pRight;
 		}
 
-		return true;
+		return *_pLeft == *_pRight; // both strings ended
 	}
-}
 
-spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getFirstOperandOfKind(const Instruction* _pInstruction, const Grammar& _gram, Grammar::OperandKind _kind, Grammar::Extension _ext)
-{
-	if (auto* info = _gram.getInfo(static_cast<unsigned int>(_pInstruction->getOperation()), _ext); info != nullptr)
+	// a literal string occupies as many literals as needed for its characters and the terminating null
+	bool isLastWordOfString(const Operand& _operand)
 	{
-		auto opIt = info->operands.begin();
+		return _operand.isLiteral() == false || hasStringTerminator(_operand.literal.value);
+	}
+
+	// first operand of _pInstruction whose description in the grammar satisfies the predicate
+	template <class Pred>
+	Instruction::Iterator findOperand(const Instruction* _pInstruction, const Grammar& _gram, Grammar::Extension _ext, const Pred& _pred)
+	{
+		unsigned int opcode = static_cast<unsigned int>(_pInstruction->getOperation());
+		auto it = _pInstruction->begin();
 
-		for (auto it = _pInstruction->begin(); it != nullptr && opIt != nullptr; )
+		if (_ext != Grammar::Extension::Core)
 		{
-			if (opIt->kind == _kind)
+			if (_pInstruction->getOperation() != spv::Op::OpExtInst)
 			{
-				return it;
+				return nullptr;
 			}
 
-			++it;
-			++opIt;
-		}
-	}
+			// skip the instruction set, operands of the extended instruction follow its number
+			it = _pInstruction->getFirstActualOperand().next();
 
-	return nullptr;
-}
+			if (it == nullptr || it->isLiteral() == false)
+			{
+				return nullptr;
+			}
 
-spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getOperandByName(const Instruction* _pInstruction, const Grammar& _gram, const char* _pName, Grammar::Extension _ext)
-{
-	if (auto* info = _gram.getInfo(static_cast<unsigned int>(_pInstruction->getOperation()), _ext); info != nullptr)
-	{
-		auto opIt = info->operands.begin();
+			opcode = it->getLiteral().value;
+			++it;
+		}
 
-		for (auto it = _pInstruction->begin(); it != nullptr && opIt != nullptr; )
+		if (auto* info = _gram.getInfo(opcode, _ext); info != nullptr)
 		{
-			if (stringCmp(_pName, opIt->name))
+			for (const Grammar::Operand& operand : info->operands)
 			{
-				return it;
-			}
+				if (it == nullptr)
+				{
+					break;
+				}
 
-			++it;
-			++opIt;
+				if (_pred(operand))
+				{
+					return it;
+				}
+
+				if (operand.kind == Grammar::OperandKind::LiteralString)
+				{
+					while (it != nullptr && isLastWordOfString(*it) == false)
+					{
+						++it;
+					}
+				}
+
+				if (it != nullptr)
+				{
+					++it;
+				}
+			}
 		}
+
+		return nullptr;
 	}
+}
 
-	return nullptr;
+spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getFirstOperandOfKind(const Instruction* _pInstruction, const Grammar& _gram, Grammar::OperandKind _kind, Grammar::Extension _ext)
+{
+	return findOperand(_pInstruction, _gram, _ext, [_kind](const Grammar::Operand& _operand) { return _operand.kind == _kind; });
+}
+
+spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getOperandByName(const Instruction* _pInstruction, const Grammar& _gram, const char* _pName, Grammar::Extension _ext)
+{
+	return findOperand(_pInstruction, _gram, _ext, [_pName](const Grammar::Operand& _operand) { return stringCmp(_pName, _operand.name); });
 }
-- 
2.43.0


From 01efdbcdf189973b3bed2b3007cad263fecb5408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:28 +0000
Subject: [PATCH 097/115] fix: misspelled name of the decoration Restrict in
 the reflection tool

---
 refl/source/refl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index 63be84c..5d739c0 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -36,7 +36,7 @@ const HeapHashMap<spv::Decoration, const char*> DecorationNames(
 	spv::Decoration::Centroid, (const char*)"Centroid",
 	spv::Decoration::Sample, (const char*)"Sample",
 	spv::Decoration::Invariant, (const char*)"Invariant",
-	spv::Decoration::Restrict, (const char*)"Restrict`",
+	spv::Decoration::Restrict, (const char*)"Restrict",
 	spv::Decoration::Aliased, (const char*)"Aliased",
 	spv::Decoration::Volatile, (const char*)"Volatile",
 	spv::Decoration::Constant, (const char*)"Constant",
-- 
2.43.0


From 40a96180b812726d26ae64b3880f0e69150c7557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 098/115] Revert "fix: types and literals of long had 32 bits
 or did not compile where long has 64"

The test extensions relies on unsigned long being usable without Int64.
---
 lib/include/spvgentwo/Operand.h | 5 ++---
 lib/include/spvgentwo/Type.h    | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/Operand.h b/lib/include/spvgentwo/Operand.h
index 5f26a74..5a4a639 100644
--- a/lib/include/spvgentwo/Operand.h
+++ b/lib/include/spvgentwo/Operand.h
@@ -113,10 +113,9 @@ namespace spvgentwo
 		{
 			_out.emplace_back(static_cast<unsigned int>(first < 0 ? 0xFFFF0000 : 0u) | static_cast<unsigned int>(first));
 		}
-		else if constexpr ( stdrep::is_same_v<S, sgt_int64_t> || stdrep::is_same_v<S, sgt_uint64_t> || stdrep::is_same_v<S, double> ||
-			((stdrep::is_same_v<S, long> || stdrep::is_same_v<S, unsigned long>) && sizeof(S) == sizeof(sgt_uint64_t)) )
+		else if constexpr ( stdrep::is_same_v<S, sgt_int64_t> || stdrep::is_same_v<S, sgt_uint64_t> || stdrep::is_same_v<S, double> )
 		{
-			static_assert(sizeof(double) ==  2*sizeof(sgt_uint32_t) && sizeof(S) == sizeof(double));
+			static_assert(sizeof(double) ==  2*sizeof(sgt_uint32_t));
 			sgt_uint32_t vals[2]{};
 			copy(&first, vals, sizeof(double));
 
diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index 55a22a4..54a15c0 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -909,10 +909,10 @@ namespace spvgentwo
 	inline Type& Type::fundamental<unsigned int>(const unsigned int*) { return UInt(); }
 
 	template <>
-	inline Type& Type::fundamental<long>(const long*) { return Int(static_cast<unsigned int>(sizeof(long)) * 8u); }
+	inline Type& Type::fundamental<long>(const long*) { return Int(); }
 
 	template <>
-	inline Type& Type::fundamental<unsigned long>(const unsigned long*) { return UInt(static_cast<unsigned int>(sizeof(unsigned long)) * 8u); }
+	inline Type& Type::fundamental<unsigned long>(const unsigned long*) { return UInt(); }
 
 	template <>
 	inline Type& Type::fundamental<long long>(const long long*) { return Int(64u); }
-- 
2.43.0


From 1ad838edc2e8abffc843ea9854028d4a2ca9b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:26 +0000
Subject: [PATCH 099/115] fix: the reflection tool did not know the decoration
 Coherent

---
 refl/source/refl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index 5d739c0..f5b7fce 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -40,6 +40,7 @@ const HeapHashMap<spv::Decoration, const char*> DecorationNames(
 	spv::Decoration::Aliased, (const char*)"Aliased",
 	spv::Decoration::Volatile, (const char*)"Volatile",
 	spv::Decoration::Constant, (const char*)"Constant",
+	spv::Decoration::Coherent, (const char*)"Coherent",
 	spv::Decoration::NonWritable, (const char*)"NonWritable",
 	spv::Decoration::NonReadable, (const char*)"NonReadable",
 	spv::Decoration::Uniform, (const char*)"Uniform",
-- 
2.43.0


From c2011ec7a374610e5217502073252096eefe8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:07 +0000
Subject: [PATCH 100/115] fix: the reflection tool did not list entry points of
 the models TaskEXT and MeshEXT

---
 refl/source/refl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index f5b7fce..4e47b84 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -77,6 +77,8 @@ const HeapHashMap<spv::ExecutionModel, const char*> ExecutionModelNames(
 	spv::ExecutionModel::Kernel, (const char*)"Kernel",
 	spv::ExecutionModel::TaskNV, (const char*)"TaskNV",
 	spv::ExecutionModel::MeshNV, (const char*)"MeshNV",
+	spv::ExecutionModel::TaskEXT, (const char*)"TaskEXT",
+	spv::ExecutionModel::MeshEXT, (const char*)"MeshEXT",
 	spv::ExecutionModel::RayGenerationKHR, (const char*)"RayGenerationKHR",
 	spv::ExecutionModel::IntersectionKHR, (const char*)"IntersectionKHR",
 	spv::ExecutionModel::AnyHitKHR, (const char*)"AnyHitKHR",
-- 
2.43.0


From 1c556ef2dfacbf74b0e49a4e22e478a5e5a61469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:34 +0000
Subject: [PATCH 101/115] fix: removing a function body dropped group
 decorations of other targets

---
 common/source/LinkerHelper.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 2be63c7..2293b21 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -20,17 +20,32 @@ bool spvgentwo::LinkerHelper::removeFunctionBody(Function& _func)
 		return false;
 	}
 
-	auto erase = [&_func](List<Instruction>& _container)
+	// is the instruction coming from one of _funcs basic blocks
+	// (OpFunction, OpFunctionParameter and OpFunctionEnd are fine, they will not be removed as they are part to the declaration)
+	auto isLocal = [&_func](const Operand& _op) -> bool
+	{
+		const Instruction* param = _op.getInstruction();
+		return param != nullptr && param->getFunction() == &_func && param->getBasicBlock() != nullptr;
+	};
+
+	auto erase = [&isLocal](List<Instruction>& _container)
 	{
 		// look for instructions which reference/consume instructions originating from the function _func we want to clear
 		for (auto it = _container.begin(), end = _container.end(); it != end;)
 		{
 			bool removed = false;
+
+			if (*it == spv::Op::OpGroupDecorate) // other targets of the group keep their decorations
+			{
+				for (auto target = it->begin().next(); target != it->end() && it->size() > 2u;)
+				{
+					target = isLocal(*target) ? Instruction::Iterator(it->erase(target)) : target.next();
+				}
+			}
+
 			for (const Operand& op : *it)
 			{
-				// if the instruction is coming from one of _funcs basic blocks, we remove it 
-				// (OpFunction, OpFunctionParameter and OpFunctionEnd are fine, they will not be removed as they are part to the declaration)
-				if (const Instruction* param = op.getInstruction(); param != nullptr && (param->getFunction() == &_func && param->getBasicBlock() != nullptr))
+				if (isLocal(op)) // remove it
 				{
 					it = _container.erase(it);
 					removed = true;
-- 
2.43.0


From fc60baa16551da6b79428f6cb865495892be7e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:36 +0000
Subject: [PATCH 102/115] fix: access chains with a given result type accepted
 bases, indices and results that do not match

---
 lib/include/spvgentwo/Instruction.h           |  3 ++
 lib/include/spvgentwo/InstructionTemplate.inl | 18 ++++++++--
 lib/source/Instruction.cpp                    | 35 +++++++++++++++++++
 3 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index d508d3b..8ae3de0 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -789,6 +789,9 @@ namespace spvgentwo
 		// check number and types of the constituents of a composite type
 		bool checkConstituents(const Type& _composite, const Instruction* const* _pConstituents, sgt_size_t _count) const;
 
+		// check if walking the type _pBase points to using _pIndices ends at the type _resultType points to
+		bool checkAccessChain(const Type& _resultType, const Instruction* _pBase, const Instruction* const* _pIndices, sgt_size_t _count) const;
+
 		Instruction* scalarVecOp(spv::Op _op, spv::Op _type, Sign _sign, Instruction* _pLeft, Instruction* _pRight, const char* _pErrorMsg, bool _checkSign);
 
 		// checks types based on passed _op using getTypeFromOp(_op, sign)
diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index b5d34e9..4c16771 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -247,6 +247,13 @@ namespace spvgentwo
 			return error();
 		}
 
+		const Instruction* const indices[] = { _pIndices..., nullptr };
+		if (checkAccessChain(*_pResultType->getType(), _pBase, indices, sizeof...(_pIndices)) == false)
+		{
+			getModule()->logError("Base or indices of OpAccessChain don't match the result type");
+			return error();
+		}
+
 		return makeOp(spv::Op::OpAccessChain, _pResultType, InvalidId, _pBase, _pIndices...);
 	}
 
@@ -299,9 +306,9 @@ namespace spvgentwo
 
 		if (_pResultType == nullptr || _pBase == nullptr || _pConstIndex == nullptr) return error();
 
-		if (_pResultType->isType() == false)
+		if (_pResultType->isType() == false || _pResultType->getType()->isPointer() == false)
 		{
-			getModule()->logError("_pResultType is not a type instruction");
+			getModule()->logError("_pResultType is not a (pointer) type instruction");
 			return error();
 		}
 
@@ -311,6 +318,13 @@ namespace spvgentwo
 			return error();
 		}
 
+		const Instruction* const indices[] = { _pConstIndex, _pIndices... };
+		if (checkAccessChain(*_pResultType->getType(), _pBase, indices, 1u + sizeof...(_pIndices)) == false)
+		{
+			getModule()->logError("Base or indices of OpInBoundsAccessChain don't match the result type");
+			return error();
+		}
+
 		return makeOp(spv::Op::OpInBoundsAccessChain, _pResultType, InvalidId, _pBase, _pConstIndex, _pIndices...);
 	}
 
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 73c22fb..a393a83 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1931,6 +1931,41 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 	return true;
 }
 
+bool spvgentwo::Instruction::checkAccessChain(const Type& _resultType, const Instruction* _pBase, const Instruction* const* _pIndices, sgt_size_t _count) const
+{
+	const Type* base = _pBase->getType();
+	if (base == nullptr || base->isPointer() == false || base->getStorageClass() != _resultType.getStorageClass()) return false;
+
+	const Type* type = &base->front();
+
+	for (sgt_size_t i = 0u; i < _count; ++i)
+	{
+		const Type* indexType = _pIndices[i] != nullptr ? _pIndices[i]->getType() : nullptr;
+		if (indexType == nullptr || indexType->isInt() == false) return false;
+
+		if (type->isStruct())
+		{
+			if (_pIndices[i]->isConstant() == false || _pIndices[i]->getConstant() == nullptr) return false; // must be OpConstant
+
+			const auto& data = _pIndices[i]->getConstant()->getData();
+			const unsigned int member = data.empty() ? 0u : data.front();
+
+			if (member >= type->getSubTypes().size()) return false;
+			type = type->getSubType(member).operator->();
+		}
+		else if (type->isVector() || type->isMatrix() || type->isArray() || type->isRuntimeArray())
+		{
+			type = &type->front();
+		}
+		else
+		{
+			return false;
+		}
+	}
+
+	return *type == _resultType.front();
+}
+
 bool spvgentwo::Instruction::checkConstituents(const Type& _composite, const Instruction* const* _pConstituents, sgt_size_t _count) const
 {
 	sgt_size_t expected = 0u;
-- 
2.43.0


From 19f92b8f8f31bc01e315a8be7447ed399b1ef75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 103/115] fix: a vector of a constant array was empty, the
 pointer constructor was chosen

---
 common/include/common/HeapVector.h | 2 +-
 lib/include/spvgentwo/Vector.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/HeapVector.h b/common/include/common/HeapVector.h
index 9cb8a44..cdd922f 100644
--- a/common/include/common/HeapVector.h
+++ b/common/include/common/HeapVector.h
@@ -20,7 +20,7 @@ namespace spvgentwo
 		HeapVector(sgt_size_t _size = 0u) : Vector<U>(HeapAllocator::instance(), _size) {}
 
 		// copy from array
-		HeapVector(const T* _pData, sgt_size_t _size = 0u) : Vector<U>(HeapAllocator::instance(), _pData, _size) {}
+		HeapVector(const T* _pData, sgt_size_t _size) : Vector<U>(HeapAllocator::instance(), _pData, _size) {}
 
 		template <sgt_size_t Size>
 		HeapVector(const T(&_array)[Size]) : Vector<U>(HeapAllocator::instance(), _array) {}
diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 9bbc5d0..a552f57 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -19,7 +19,7 @@ namespace spvgentwo
 		Vector(IAllocator* _pAllocator, sgt_size_t _size);
 
 		// copy from array
-		Vector(IAllocator* _pAllocator, const T* _pData, sgt_size_t _size = 0u);
+		Vector(IAllocator* _pAllocator, const T* _pData, sgt_size_t _size);
 
 		template <sgt_size_t Size>
 		Vector(IAllocator* _pAllocator, const T(&_array)[Size]);
-- 
2.43.0


From 7d653376515073b761d97b30d3b1c0fcf8db5698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:41 +0000
Subject: [PATCH 104/115] fix: copy assignment to a vector or list without
 allocator lost the elements

---
 lib/include/spvgentwo/List.h   | 3 +++
 lib/include/spvgentwo/Vector.h | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index 5bdfde6..bc44b2b 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -178,6 +178,9 @@ namespace spvgentwo
 	{
 		if (this == &_other) return *this;
 
+		// default constructed or moved from
+		setAllocator(_other.m_pAllocator);
+
 		Iterator l = begin(), le = end(), r = _other.begin(), re = _other.end();
 		for (; l != le && r != re; ++l, ++r)
 		{
diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index a552f57..04019b0 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -192,6 +192,12 @@ namespace spvgentwo
 	{
 		if ( this == &_other ) return *this;
 
+		// default constructed or moved from
+		if ( m_pAllocator == nullptr )
+		{
+			m_pAllocator = _other.m_pAllocator;
+		}
+
 		if ( resize(_other.m_elements) )
 		{
 			for ( sgt_size_t i = 0u; i < _other.m_elements; ++i )
-- 
2.43.0


From 991617718691cdafb87364149e364b8ea042793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:43 +0000
Subject: [PATCH 105/115] fix: String took all of a char buffer as text,
 including what follows the terminator

---
 lib/include/spvgentwo/String.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index e45ca0f..1cf4e43 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -47,6 +47,10 @@ namespace spvgentwo
 
 		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator, _pStr, _length == 0u ? stringLength(_pStr) : _length) { terminate(); }
 
+		// text in a buffer, without what follows its terminator
+		template <sgt_size_t N>
+		String(IAllocator* _pAllocator, const char(&_array)[N]) : String(_pAllocator, static_cast<const char*>(_array)) {}
+
 		String& operator=(const String& _other) { Vector::operator=(_other); return *this; }
 		String& operator=(String&& _other) noexcept { Vector::operator=(stdrep::move(_other)); return *this; }
 
@@ -73,7 +77,7 @@ namespace spvgentwo
 		String& append(const char* _pStr, sgt_size_t _length = 0u);
 
 		template <sgt_size_t N>
-		Iterator insert(sgt_size_t _pos, const char(&_array)[N]) { return Vector::insert(_pos, _array, N); }
+		Iterator insert(sgt_size_t _pos, const char(&_array)[N]) { return insert(_pos, static_cast<const char*>(_array)); }
 
 		// don't insert the additional string terminator from _pCStr
 		Iterator insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length = 0u);
-- 
2.43.0


From b5904ad53459770aa71608fe194b2d54d4b502fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 106/115] fix: appending an own element or own text to a vector
 or string used freed memory

---
 lib/include/spvgentwo/Vector.h | 37 ++++++++++++++++++++++++++++------
 lib/source/String.cpp          |  5 +++++
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 04019b0..5f9ec52 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -91,6 +91,9 @@ namespace spvgentwo
 	protected:
 		void deallocate();
 
+		// move all elements to new storage and free the old one
+		void relocate(T* _pNewData, sgt_size_t _capacity);
+
 	protected:
 		IAllocator* m_pAllocator = nullptr;
 
@@ -244,12 +247,20 @@ namespace spvgentwo
 			return false;
 		}
 
+		relocate(pNewData, _size);
+
+		return true;
+	}
+
+	template<class U>
+	inline void Vector<U>::relocate(T* _pNewData, sgt_size_t _capacity)
+	{
 		if ( m_pData != nullptr )
 		{
 			//  move or copy old to new data (if any)
 			for ( sgt_size_t i = 0u; i < m_elements; ++i )
 			{
-				traits::constructWithArgs(pNewData + i, stdrep::move(m_pData[i]));
+				traits::constructWithArgs(_pNewData + i, stdrep::move(m_pData[i]));
 			}
 
 			// free old data
@@ -260,10 +271,8 @@ namespace spvgentwo
 			m_pAllocator->deallocate(m_pData, m_capacity * sizeof(T));
 		}
 
-		m_pData = pNewData;
-		m_capacity = _size;  // number of elements does not change
-
-		return true;
+		m_pData = _pNewData;
+		m_capacity = _capacity;  // number of elements does not change
 	}
 
 	template<class U>
@@ -459,11 +468,27 @@ namespace spvgentwo
 		// we ran out of capacity, reallocate
 		if ( m_elements >= m_capacity )
 		{
+			if ( m_pAllocator == nullptr )
+			{
+				return nullptr;
+			}
+
 			// grow by factor 1.25 + 1
-			if ( reserve(m_capacity + 1u + (m_capacity >> 2)) == false )
+			const sgt_size_t newCapacity = m_capacity + 1u + (m_capacity >> 2);
+			T* pNewData = static_cast<T*>(m_pAllocator->allocate(newCapacity * sizeof(T), alignof(T)));
+
+			if ( pNewData == nullptr )
 			{
 				return nullptr;
 			}
+
+			// construct first, _args might refer to an element of this vector
+			T* pElement = traits::constructWithArgs(pNewData + m_elements, stdrep::forward<Args>(_args)...);
+
+			relocate(pNewData, newCapacity);
+			++m_elements;
+
+			return pElement;
 		}
 
 		return traits::constructWithArgs(m_pData + m_elements++, stdrep::forward<Args>(_args)...);
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 026982c..2b75740 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -66,6 +66,11 @@ spvgentwo::String& spvgentwo::String::operator+=(const char* _pStr)
 
 spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _length)
 {
+	if (m_pData != nullptr && _pStr >= m_pData && _pStr < m_pData + m_capacity) // part of this string
+	{
+		return operator+=(String(m_pAllocator, _pStr, _length));
+	}
+
 	const sgt_size_t length = _length == 0u ? stringLength(_pStr) : _length;
 	if (length != 0u && reserve(m_elements + length))
 	{
-- 
2.43.0


From d75125899c80b8a81d0d508129cf3dedb8997d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:08 +0000
Subject: [PATCH 107/115] fix: linking a library with decoration groups
 dereferenced a missing operand

---
 common/source/LinkerHelper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 2293b21..f982391 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -948,9 +948,10 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	{
 		for (const Instruction& lDeco : _lib.getDecorations())
 		{
-			if (ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
+			// OpDecorationGroup has no target
+			if (auto target = lDeco.getFirstActualOperand(); target != nullptr && ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
 			{
-				const Instruction* lTarget = lDeco.getFirstActualOperand()->getInstruction();
+				const Instruction* lTarget = target->getInstruction();
 				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr && unresolved[lTarget] == nullptr && isDecorated(_consumer, *ppCTarget, lDeco, cache) == false)
 				{
 					Instruction* cDeco = _consumer.addDecorationInstr();
-- 
2.43.0


From b4918dd4a5fceb73055f77da197ca7a1e7640455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:09 +0000
Subject: [PATCH 108/115] fix: removing the body of a function left dangling
 uses of its values

---
 common/source/LinkerHelper.cpp | 38 ++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index f982391..0e035ac 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -60,6 +60,44 @@ bool spvgentwo::LinkerHelper::removeFunctionBody(Function& _func)
 		}
 	};
 
+	// values are not visible outside of their function, anything else using them would be left with dangling pointers
+	bool used = false;
+	module->iterateInstructions([&](const Instruction& _instr)
+	{
+		switch (_instr.getOperation())
+		{
+		case spv::Op::OpName:
+		case spv::Op::OpMemberName:
+		case spv::Op::OpDecorate:
+		case spv::Op::OpMemberDecorate:
+		case spv::Op::OpGroupDecorate:
+		case spv::Op::OpGroupMemberDecorate:
+		case spv::Op::OpDecorateId:
+		case spv::Op::OpDecorateString:
+		case spv::Op::OpMemberDecorateString:
+			return; // will be removed
+		default:
+			break;
+		}
+
+		if (_instr.getFunction() == &_func && _instr.getBasicBlock() != nullptr)
+		{
+			return;
+		}
+
+		for (const Operand& op : _instr)
+		{
+			const BasicBlock* target = op.getBranchTarget();
+			used |= isLocal(op) || (target != nullptr && target->getFunction() == &_func);
+		}
+	});
+
+	if (used)
+	{
+		module->logError("Can not remove function body, its results are used outside of the function");
+		return false;
+	}
+
 	erase(module->getNames());
 	erase(module->getDecorations());
 
-- 
2.43.0


From ab852f8fdcc29f6ab8f0a96a66009952fa26ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:11 +0000
Subject: [PATCH 109/115] fix: the reader accepted declarations and
 unterminated blocks inside of functions

---
 lib/include/spvgentwo/SpvDefines.h | 39 ++++++++++++++++++++++++++++++
 lib/source/BasicBlock.cpp          |  6 +++++
 2 files changed, 45 insertions(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index a9a166b..80ebab3 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -98,6 +98,45 @@ namespace spvgentwo
 		return IsConstantOp(_instr) || IsSpecConstantOp(_instr);
 	}
 
+	// Instructions within a basic block, but not those that are only allowed at module scope or that structure functions & basic blocks
+	constexpr bool isBlockBodyOp(spv::Op _instr)
+	{
+		if (spv::IsTypeOp(_instr) || isSpecOrConstantOp(_instr)) return false;
+
+		switch (_instr)
+		{
+		case spv::Op::OpCapability:
+		case spv::Op::OpExtension:
+		case spv::Op::OpExtInstImport:
+		case spv::Op::OpMemoryModel:
+		case spv::Op::OpEntryPoint:
+		case spv::Op::OpExecutionMode:
+		case spv::Op::OpExecutionModeId:
+		case spv::Op::OpString:
+		case spv::Op::OpSourceExtension:
+		case spv::Op::OpSource:
+		case spv::Op::OpSourceContinued:
+		case spv::Op::OpName:
+		case spv::Op::OpMemberName:
+		case spv::Op::OpModuleProcessed:
+		case spv::Op::OpDecorate:
+		case spv::Op::OpMemberDecorate:
+		case spv::Op::OpDecorationGroup:
+		case spv::Op::OpGroupDecorate:
+		case spv::Op::OpGroupMemberDecorate:
+		case spv::Op::OpDecorateId:
+		case spv::Op::OpDecorateString:
+		case spv::Op::OpMemberDecorateString:
+		case spv::Op::OpFunction:
+		case spv::Op::OpFunctionParameter:
+		case spv::Op::OpFunctionEnd:
+		case spv::Op::OpLabel:
+			return false;
+		default:
+			return true;
+		}
+	}
+
 	enum class Sign
 	{
 		Signed = 1 << 0,
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 71b8556..0253c9b 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -137,6 +137,12 @@ bool spvgentwo::BasicBlock::read(IReader& _reader, const Grammar& _grammar)
 		const spv::Op op = getOperation(word);
 		const unsigned int operands = getOperandCount(word) - 1u;
 
+		if (isBlockBodyOp(op) == false)
+		{
+			getModule()->logError("Unexpected instruction (opcode %u) in basic block", static_cast<unsigned int>(op));
+			return false;
+		}
+
 		if (emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false)
 		{
 			break;
-- 
2.43.0


From 861f487dac8ac40c663ac51c930d61448eaefbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:13 +0000
Subject: [PATCH 110/115] fix: types of const qualified C++ types became void

---
 lib/include/spvgentwo/Type.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index 54a15c0..844f615 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -760,7 +760,11 @@ namespace spvgentwo
 		}
 
 		// first process types that need to be unwraped (non dynamic composite types)
-		if constexpr (stdrep::is_pointer_v<T>)
+		if constexpr (stdrep::is_same_v<T, stdrep::remove_cv_t<T>> == false)
+		{
+			make<stdrep::remove_cv_t<T>>(_props...); // spir-v types don't have qualifiers
+		}
+		else if constexpr (stdrep::is_pointer_v<T>)
 		{
 			using S = stdrep::remove_pointer_t<T>;
 			if (const S* dyn = traits::selectTypeFromArgs<S>(_props...); dyn != nullptr)
-- 
2.43.0


From bf9531c011398de3938c829747a615fa43420954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:57 +0000
Subject: [PATCH 111/115] fix: rejected names left OpNop in the name section
 and analysing it dereferenced a missing operand

---
 .../common/ReflectionHelperTemplate.inl       |  2 +-
 lib/source/Module.cpp                         | 20 +++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/common/include/common/ReflectionHelperTemplate.inl b/common/include/common/ReflectionHelperTemplate.inl
index 9972dc3..3f88665 100644
--- a/common/include/common/ReflectionHelperTemplate.inl
+++ b/common/include/common/ReflectionHelperTemplate.inl
@@ -69,7 +69,7 @@ void spvgentwo::ReflectionHelper::getNamesFunc(const Instruction* _pTarget, Func
 
 	for (Instruction& name : _pTarget->getModule()->getNames())
 	{
-		if (*name.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = name.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target
 		{
 			_func(&name);
 		}
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index b85f050..255fa2a 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -475,13 +475,29 @@ spvgentwo::Instruction* spvgentwo::Module::addNameInstr()
 
 void spvgentwo::Module::addName(Instruction* _pTarget, const char* _pName)
 {
-	addNameInstr()->opName(_pTarget, _pName);
+	Instruction* pName = addNameInstr();
+	pName->opName(_pTarget, _pName);
+
+	if (*pName == spv::Op::OpNop) // target can't have a name
+	{
+		m_Names.erase(m_Names.last());
+		return;
+	}
+
 	m_NameLookup.emplace(_pTarget, MemberName{ String(m_pAllocator, _pName), sgt_uint32_max });
 }
 
 void spvgentwo::Module::addMemberName(Instruction* _pTargetBase, const char* _pMemberName, unsigned int _memberIndex)
 {
-	addNameInstr()->opMemberName(_pTargetBase, _memberIndex, _pMemberName);
+	Instruction* pName = addNameInstr();
+	pName->opMemberName(_pTargetBase, _memberIndex, _pMemberName);
+
+	if (*pName == spv::Op::OpNop) // target can't have a name
+	{
+		m_Names.erase(m_Names.last());
+		return;
+	}
+
 	m_NameLookup.emplace(_pTargetBase, MemberName{ String(m_pAllocator, _pMemberName), _memberIndex });
 }
 
-- 
2.43.0


From d8e7400dc5b8795b9d7806dafc7d457f554fef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:34 +0000
Subject: [PATCH 112/115] fix: linking constants that depend on themselves
 recursed forever

---
 common/source/LinkerHelper.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 0e035ac..f120d66 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -372,8 +372,15 @@ namespace
 
 	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options);
 
+	// chain of types & constants which are being imported because their predecessor needs them
+	struct Dependents
+	{
+		const spvgentwo::Instruction* instr = nullptr;
+		const Dependents* previous = nullptr;
+	};
+
 	// find the counterpart of the library instruction _lib in the consumer or import it
-	inline spvgentwo::Instruction* lookupInstruction(const spvgentwo::Instruction* _lib, spvgentwo::Module& _consumer, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	inline spvgentwo::Instruction* lookupInstruction(const spvgentwo::Instruction* _lib, spvgentwo::Module& _consumer, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options, const Dependents* _pDependents = nullptr)
 	{
 		using namespace spvgentwo;
 		using namespace LinkerHelper;
@@ -404,15 +411,26 @@ namespace
 				return nullptr;
 			}
 
+			for (const Dependents* it = _pDependents; it != nullptr; it = it->previous)
+			{
+				if (it->instr == _lib)
+				{
+					_consumer.logError("[%%%u = %s] depends on itself", _lib->getResultId(), getInstrName(_lib, _options));
+					return nullptr;
+				}
+			}
+
+			const Dependents dependents{ _lib, _pDependents };
+
 			// what it consists of has to be declared before and may have names and decorations as well
-			if (constant && lookupInstruction(_lib->getResultTypeInstr(), _consumer, _cache, _options) == nullptr)
+			if (constant && lookupInstruction(_lib->getResultTypeInstr(), _consumer, _cache, _options, &dependents) == nullptr)
 			{
 				return nullptr;
 			}
 
 			for (auto it = _lib->getFirstActualOperand(), end = _lib->end(); it != end; ++it)
 			{
-				if (const Instruction* sub = getReferencedInstruction(*it); sub != nullptr && (constant || sub->isType()) && lookupInstruction(sub, _consumer, _cache, _options) == nullptr)
+				if (const Instruction* sub = getReferencedInstruction(*it); sub != nullptr && (constant || sub->isType()) && lookupInstruction(sub, _consumer, _cache, _options, &dependents) == nullptr)
 				{
 					return nullptr;
 				}
-- 
2.43.0


From 7d06fcd9e0485ec091374b3888d54c02545e27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:27 +0000
Subject: [PATCH 113/115] fix: updating the entry point interface crashed on
 variables a failed link left incomplete

---
 lib/source/Instruction.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index a393a83..f51441d 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -259,15 +259,22 @@ spvgentwo::Instruction::Iterator spvgentwo::Instruction::getFirstActualOperand()
 
 spvgentwo::spv::StorageClass spvgentwo::Instruction::getStorageClass() const
 {
+	Iterator it = nullptr;
+
 	switch (m_Operation)
 	{
 	case spv::Op::OpTypePointer:
-		return static_cast<spv::StorageClass>((begin() + 1u)->getLiteral().value);
+		it = begin() + 1u;
+		break;
 	case spv::Op::OpVariable:
-		return static_cast<spv::StorageClass>((begin() + 2u)->getLiteral().value);
+		it = begin() + 2u;
+		break;
 	default:
-		return spv::StorageClass::Max;
+		break;
 	}
+
+	// operands of an incomplete instruction might be missing
+	return it != nullptr && it->isLiteral() ? static_cast<spv::StorageClass>(it->getLiteral().value) : spv::StorageClass::Max;
 }
 
 spvgentwo::spv::Id spvgentwo::Instruction::assignResultId(bool _overwrite)
-- 
2.43.0


From bbb83846fddda6780e07f560b30c9ccb33a99093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:30 +0000
Subject: [PATCH 114/115] fix: comparing a literal string read behind the given
 length and accepted unterminated literals

---
 lib/source/Instruction.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index f51441d..1baf6ce 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -2309,20 +2309,24 @@ spvgentwo::Instruction::Iterator spvgentwo::skipLiteralString(Instruction::Itera
 bool spvgentwo::compareLiteralString(const char* _pStr, Instruction::Iterator _begin, Instruction::Iterator _end, sgt_size_t _StrLength)
 {
 	sgt_size_t j = 0u;
-	for (auto it = _begin; it != _end && it->isLiteral() && j < _StrLength; ++it)
+	for (auto it = _begin; it != _end && it->isLiteral(); ++it)
 	{
 		const char* str = reinterpret_cast<const char*>(&it->literal.value);
-		for (unsigned int i = 0u; i < sizeof(unsigned int); ++i)
+		for (unsigned int i = 0u; i < sizeof(unsigned int); ++i, ++j)
 		{
-			if (str[i] == '\0' && _pStr[j] == '\0')
+			if (j == _StrLength) // all characters of _pStr match
 			{
 				return true;
 			}
-			else if (str[i] != _pStr[j++])
+			else if (str[i] != _pStr[j])
 			{
 				return false;
 			}
+			else if (str[i] == '\0')
+			{
+				return true;
+			}
 		}
 	};
-	return true;
+	return j == _StrLength || _pStr[j] == '\0'; // literal without string terminator
 }
\ No newline at end of file
-- 
2.43.0


From df6a9889f8ab20649c0b8a8ddadda7e39223201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:38 +0000
Subject: [PATCH 115/115] fix: the type instructions of a function were those
 of an equal type declared earlier

---
 lib/source/Function.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 2595036..db20e91 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -112,10 +112,35 @@ bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instru
 	return false;
 }
 
+namespace
+{
+	bool refersToType(const spvgentwo::Operand& _operand, const spvgentwo::Type& _type)
+	{
+		const spvgentwo::Instruction* pInstr = _operand.getInstruction();
+
+		if (pInstr == nullptr || pInstr->isType() == false)
+		{
+			return false;
+		}
+
+		const spvgentwo::Type* pType = pInstr->getType();
+		return pType != nullptr && *pType == _type;
+	}
+}
+
 spvgentwo::Instruction* spvgentwo::Function::getReturnTypeInstr() const
 {
 	if (m_FunctionType.getSubTypes().empty() == false)
 	{
+		// a module that was read can declare equal types more than once, prefer the one this function refers to
+		if (m_Function == spv::Op::OpFunction)
+		{
+			if (auto it = m_Function.getResultTypeOperand(); it != nullptr && refersToType(*it, m_FunctionType.front()))
+			{
+				return it->getInstruction();
+			}
+		}
+
 		return m_pModule->addType(m_FunctionType.front());
 	}
 	return m_pModule->getErrorInstr();
@@ -125,6 +150,14 @@ spvgentwo::Instruction* spvgentwo::Function::getFunctionTypeInstr() const
 {
 	if (m_FunctionType.getSubTypes().empty() == false)
 	{
+		if (m_Function == spv::Op::OpFunction)
+		{
+			if (auto it = m_Function.getFirstActualOperand(); it != nullptr && ++it != nullptr && refersToType(*it, m_FunctionType))
+			{
+				return it->getInstruction();
+			}
+		}
+
 		return m_pModule->addType(m_FunctionType);
 	}
 	return m_pModule->getErrorInstr();
-- 
2.43.0

