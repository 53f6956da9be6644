From 13bbfa93540f5db2c12688770ae5beacbd06575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 01/34] fix: keep a timer task alive while it releases its own
 token

Timer::RemoveTask destroys the stored task; when the task resets its own
token from inside its execution, the functor was destroyed while running.
---
 stingraykit/timer/Timer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stingraykit/timer/Timer.cpp b/stingraykit/timer/Timer.cpp
index 84b2e3f..3d7b10c 100644
--- a/stingraykit/timer/Timer.cpp
+++ b/stingraykit/timer/Timer.cpp
@@ -293,13 +293,15 @@ namespace stingray
 			if (!guard)
 				return;
 
+			const TaskType task = ci->GetTask(); // task may release its own token
+
 			if (_profileTimeout)
 			{
-				AsyncProfiler::Session profiler_session(ExecutorsProfiler::Instance().GetProfiler(), Bind(&Timer::GetProfilerMessage, this, wrap_const_ref(ci->GetTask())), *_profileTimeout, AsyncProfiler::NameGetterTag());
-				ci->GetTask()();
+				AsyncProfiler::Session profiler_session(ExecutorsProfiler::Instance().GetProfiler(), Bind(&Timer::GetProfilerMessage, this, wrap_const_ref(task)), *_profileTimeout, AsyncProfiler::NameGetterTag());
+				task();
 			}
 			else
-				ci->GetTask()();
+				task();
 		}
 		catch (const std::exception& ex)
 		{ _exceptionHandler(ex); }
-- 
2.43.0


From 693acd3d8fa7cacd0e5092076734c9e2ff24c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 02/34] fix: do not wait on a joined cancellation token that is
 already cancelled

JoiningCancellationToken registers a handler when only one of its parts is
still alive, so PosixConditionVariable::Wait blocked although the joined
token was cancelled.
---
 stingraykit/thread/posix/PosixConditionVariable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/thread/posix/PosixConditionVariable.cpp b/stingraykit/thread/posix/PosixConditionVariable.cpp
index 986419e..1594eeb 100644
--- a/stingraykit/thread/posix/PosixConditionVariable.cpp
+++ b/stingraykit/thread/posix/PosixConditionVariable.cpp
@@ -102,7 +102,7 @@ namespace stingray
 	ConditionWaitResult PosixConditionVariable::Wait(const PosixMutex& mutex, const ICancellationToken& token)
 	{
 		CancellationHolder holder(mutex, *this, token);
-		if (holder.IsCancelled())
+		if (holder.IsCancelled() || token.IsCancelled()) // composite token may be registered with only a part of it left uncancelled
 			return ConditionWaitResult::Cancelled;
 
 		const optional<TimeDuration> timeout = token.GetTimeout();
-- 
2.43.0


From d375ccb5c0aa6a692cacd164518b601649555489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 03/34] fix: report expired token as timed out, not as
 cancelled

A wait on a condition variable with an already expired timed token returned
Cancelled although nobody had cancelled it.
---
 stingraykit/thread/posix/PosixConditionVariable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/thread/posix/PosixConditionVariable.cpp b/stingraykit/thread/posix/PosixConditionVariable.cpp
index 1594eeb..d794715 100644
--- a/stingraykit/thread/posix/PosixConditionVariable.cpp
+++ b/stingraykit/thread/posix/PosixConditionVariable.cpp
@@ -103,7 +103,7 @@ namespace stingray
 	{
 		CancellationHolder holder(mutex, *this, token);
 		if (holder.IsCancelled() || token.IsCancelled()) // composite token may be registered with only a part of it left uncancelled
-			return ConditionWaitResult::Cancelled;
+			return !token.IsCancelled() && token.IsTimedOut() ? ConditionWaitResult::TimedOut : ConditionWaitResult::Cancelled;
 
 		const optional<TimeDuration> timeout = token.GetTimeout();
 		if (!timeout)
-- 
2.43.0


From 100df80875d1f929f4b2dd1fd934ef76bd614735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 04/34] fix: joined token's sleep interrupted by its own
 deadline is not a full sleep

JoiningCancellationToken::Sleep returned true when a timed part of the token
expired before the requested duration had elapsed.
---
 stingraykit/thread/JoiningCancellationToken.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/JoiningCancellationToken.cpp b/stingraykit/thread/JoiningCancellationToken.cpp
index 3d8e3fa..af394eb 100644
--- a/stingraykit/thread/JoiningCancellationToken.cpp
+++ b/stingraykit/thread/JoiningCancellationToken.cpp
@@ -27,7 +27,10 @@ namespace stingray
 		MutexLock l(_mutex);
 
 		if (duration)
-			return _cond.Wait(_mutex, TimedCancellationToken(*this, *duration)) == ConditionWaitResult::TimedOut;
+		{
+			const optional<TimeDuration> timeout = GetTimeout();
+			return _cond.Wait(_mutex, TimedCancellationToken(*this, *duration)) == ConditionWaitResult::TimedOut && (!timeout || *timeout >= *duration);
+		}
 		else
 		{
 			_cond.Wait(_mutex, *this);
-- 
2.43.0


From 9b9012f033934b4559e261576c6542ae1eeaa706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 05/34] fix: CancellationToken could miss the end of
 cancellation when reset right after it

UnregisterCancellationHandler waited for _cancelDone, which Reset() clears:
when the token was reset before the waiter woke up, it waited forever.
---
 stingraykit/thread/CancellationToken.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/thread/CancellationToken.cpp b/stingraykit/thread/CancellationToken.cpp
index 48a8681..6c50656 100644
--- a/stingraykit/thread/CancellationToken.cpp
+++ b/stingraykit/thread/CancellationToken.cpp
@@ -109,7 +109,7 @@ namespace stingray
 		if (!_cancelled)
 			return true;
 
-		while (!_cancelDone)
+		while (_cancelled && !_cancelDone) // token may be already reset after cancellation is done
 			_cond.Wait(_mutex);
 		return false;
 	}
-- 
2.43.0


From 69ae37c82f8ecc0e09c653d945fc894d179dd3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:19 +0000
Subject: [PATCH 06/34] fix: promise::swap exchanges the future-retrieved flag
 together with the result

After a swap get_future() returned a second future of an already retrieved
result and refused the future of the other one.
---
 stingraykit/future.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/future.h b/stingraykit/future.h
index 608fc6d..191ba54 100644
--- a/stingraykit/future.h
+++ b/stingraykit/future.h
@@ -297,7 +297,7 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{ _futureImpl.swap(other._futureImpl); std::swap(_futureRetrieved, other._futureRetrieved); }
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
@@ -329,7 +329,7 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{ _futureImpl.swap(other._futureImpl); std::swap(_futureRetrieved, other._futureRetrieved); }
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
-- 
2.43.0


From 07a6514d19a8124c59872b8f4569ad3750fac82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 07/34] fix: MemoryCircularBuffer: clearing a wrapped or full
 buffer left it full; pushing an empty block threw

---
 stingraykit/io/CircularBufferBase.h   | 8 ++++----
 stingraykit/io/MemoryCircularBuffer.h | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index edb2264..a44458b 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -210,10 +210,10 @@ namespace stingray
 				s_logger.Warning() << "ro: " << _readOffset << ", wo: " << _writeOffset << ", ls: " << _lockedDataSize;
 			}
 
-			if (_readOffset + _lockedDataSize < GetStorageSize())
-				_writeOffset = _readOffset + _lockedDataSize;
-			else
-				_writeOffset = _readOffset + _lockedDataSize - GetStorageSize();
+			_writeOffset = _readOffset + _lockedDataSize;
+			_dataIsContiguous = _writeOffset < GetStorageSize();
+			if (!_dataIsContiguous)
+				_writeOffset -= GetStorageSize();
 
 			if (_loggingEnabled)
 			{
diff --git a/stingraykit/io/MemoryCircularBuffer.h b/stingraykit/io/MemoryCircularBuffer.h
index eda65f7..4668a37 100644
--- a/stingraykit/io/MemoryCircularBuffer.h
+++ b/stingraykit/io/MemoryCircularBuffer.h
@@ -33,7 +33,8 @@ namespace stingray
 		virtual void WriteToStorage(size_t offset, ConstByteData::iterator begin, ConstByteData::iterator end)
 		{
 			//std::copy(&(*begin), &(*begin) + std::distance(begin, end), _container.begin() + offset);
-			::memcpy(&_container[0] + offset, &(*begin), std::distance(begin, end));
+			if (begin != end)
+				::memcpy(&_container[0] + offset, &(*begin), std::distance(begin, end));
 		}
 
 		virtual ConstByteData ReadStorage(size_t offset, size_t size) const
-- 
2.43.0


From 2edac44f443031182f28b86650292d3e804896ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 08/34] fix: CircularBufferBase: size getters read the offsets
 without the lock

---
 stingraykit/io/CircularBufferBase.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index a44458b..8ca7930 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -124,6 +124,8 @@ namespace stingray
 
 		shared_ptr<std::vector<u8> > GetAllData() const
 		{
+			MutexLock l(_mutex);
+
 			shared_ptr<std::vector<u8> > result = make_shared_ptr<std::vector<u8> >();
 			result->reserve(GetSize());
 
@@ -147,10 +149,16 @@ namespace stingray
 		}
 
 		size_t GetSize() const
-		{ return _dataIsContiguous ? (_writeOffset - _readOffset) : (GetStorageSize() - _readOffset + _writeOffset); }
+		{
+			MutexLock l(_mutex);
+			return _dataIsContiguous ? (_writeOffset - _readOffset) : (GetStorageSize() - _readOffset + _writeOffset);
+		}
 
 		size_t GetFreeSize() const
-		{ return _dataIsContiguous ? (GetStorageSize() - _writeOffset + _readOffset) : (_readOffset - _writeOffset); }
+		{
+			MutexLock l(_mutex);
+			return _dataIsContiguous ? (GetStorageSize() - _writeOffset + _readOffset) : (_readOffset - _writeOffset);
+		}
 
 		CircularDataReserverPtr Pop(size_t size = std::numeric_limits<size_t>::max())
 		{
-- 
2.43.0


From d29c7ed9eb31252442216e8b2bb069801167d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 09/34] fix: PacketBuffer: a packet could be refused forever by
 an empty buffer

When the buffer was empty with its position in the middle of the storage, a packet that needed padding plus more
bytes than the storage has was never accepted: writer and reader waited for each other.
---
 stingraykit/io/PacketBuffer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stingraykit/io/PacketBuffer.h b/stingraykit/io/PacketBuffer.h
index f91f97c..38cdaca 100644
--- a/stingraykit/io/PacketBuffer.h
+++ b/stingraykit/io/PacketBuffer.h
@@ -82,6 +82,13 @@ namespace stingray
 			MutexLock l1(_writeMutex); // we need this mutex because write can be called simultaneously from several threads
 			MutexLock l2(_bufferMutex);
 
+			if (_packetQueue.empty())
+			{
+				// nothing to preserve, so start from the beginning: otherwise padding may leave no room for the packet forever
+				_buffer.Clear();
+				_paddingSize = 0;
+			}
+
 			BithreadCircularBuffer::Writer w = _buffer.Write();
 			size_t padding_size = (w.size() < data.size() && w.IsBufferEnd()) ? w.size() : 0;
 			if (_buffer.GetFreeSize() < padding_size + data.size())
-- 
2.43.0


From 0b4c2fe6e903e9250debae57013d71fce701ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 10/34] fix: PacketBuffer: refuse Clear and a second Read while
 a packet is being consumed

Clear during the consumer's callback made Read pop data that was not there any more, and two simultaneous reads
consumed the same packet twice and dropped another one. DataBuffer refuses both in the same way.
---
 stingraykit/io/PacketBuffer.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/PacketBuffer.h b/stingraykit/io/PacketBuffer.h
index 38cdaca..98f6c93 100644
--- a/stingraykit/io/PacketBuffer.h
+++ b/stingraykit/io/PacketBuffer.h
@@ -9,9 +9,12 @@
 // WHETHER IN AN ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
 
 
+#include <stingraykit/function/bind.h>
+#include <stingraykit/function/functional.h>
 #include <stingraykit/io/BithreadCircularBuffer.h>
 #include <stingraykit/io/IDataSource.h>
 #include <stingraykit/log/Logger.h>
+#include <stingraykit/ScopeExit.h>
 
 #include <string.h>
 #include <deque>
@@ -45,11 +48,12 @@ namespace stingray
 		ConditionVariable			_bufferEmpty;
 		ConditionVariable			_bufferFull;
 		bool						_eod;
+		bool						_activeRead;
 
 	public:
 		PacketBuffer(bool discardOnOverflow, size_t size) :
 			_discardOnOverflow(discardOnOverflow), _buffer(size),
-			_paddingSize(0), _eod(false)
+			_paddingSize(0), _eod(false), _activeRead(false)
 		{ }
 
 		size_t GetDataSize()			{ MutexLock l(_bufferMutex); return _buffer.GetDataSize(); }
@@ -59,6 +63,8 @@ namespace stingray
 		void Clear()
 		{
 			MutexLock l(_bufferMutex);
+			STINGRAYKIT_CHECK(!_activeRead, InvalidOperationException("Simultaneous Read() and Clear()!"));
+
 			while (true)
 			{
 				BithreadCircularBuffer::Reader r = _buffer.Read();
@@ -135,6 +141,7 @@ namespace stingray
 		virtual void Read(IPacketConsumer<MetadataType>& consumer, const ICancellationToken& token)
 		{
 			MutexLock l(_bufferMutex);
+			STINGRAYKIT_CHECK(!_activeRead, InvalidOperationException("Simultaneous Read()!"));
 
 			if (_packetQueue.empty())
 			{
@@ -160,6 +167,9 @@ namespace stingray
 			STINGRAYKIT_CHECK(p.Size <= r.size(), "Not enough data in packet buffer, need: " + ToString(p.Size) + ", got: " + ToString(r.size()));
 			bool processed = false;
 			{
+				_activeRead = true;
+				const ScopeExitInvoker sei(Bind(make_assigner(_activeRead), false));
+
 				MutexUnlock ul(l);
 				processed = consumer.Process(Packet<MetadataType>(ConstByteData(r.GetData(), 0, p.Size), p.Metadata), token);
 			}
-- 
2.43.0


From 43c9660ac34b3758406d3de392f3bfcdaa0cac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 11/34] fix: ThreadlessTokenMap: release the tokens after the
 map is updated

A release action that used the map again (released the same key, say) worked on a half-erased map and crashed.
---
 stingraykit/Token.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stingraykit/Token.h b/stingraykit/Token.h
index 931ac94..4aff4e4 100644
--- a/stingraykit/Token.h
+++ b/stingraykit/Token.h
@@ -276,10 +276,16 @@ namespace stingray
 		{ return BracketsOperatorProxy(_tokens, std::move(key)); }
 
 		void release(const Key& key)
-		{ _tokens.erase(key); }
+		{
+			std::vector<Token> tokens; // tokens are released after the map is updated, so that they may use it
+
+			const std::pair<typename Tokens::iterator, typename Tokens::iterator> range = _tokens.equal_range(key);
+			tokens.assign(values_iterator(range.first), values_iterator(range.second));
+			_tokens.erase(range.first, range.second);
+		}
 
 		void release_all()
-		{ _tokens.clear(); }
+		{ Tokens().swap(_tokens); }
 	};
 
 
-- 
2.43.0


From 8207cbb86fcde4539b3b4d71ee7a6e16605478ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:16 +0000
Subject: [PATCH 12/34] fix: ReverseFind of multi collections finds the
 greatest key

The entry before the upper bound decides whether the key is there; the upper bound is the end for the greatest key,
and there is no entry before it (which was read anyway) when it is the beginning.
---
 stingraykit/collection/MultiMapDictionary.h | 2 +-
 stingraykit/collection/SortedMultiSet.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/MultiMapDictionary.h b/stingraykit/collection/MultiMapDictionary.h
index 8040b06..36553d3 100644
--- a/stingraykit/collection/MultiMapDictionary.h
+++ b/stingraykit/collection/MultiMapDictionary.h
@@ -122,7 +122,7 @@ namespace stingray
 			using cri = typename MapType::const_reverse_iterator;
 
 			const auto it = _map->upper_bound(key);
-			if (it == _map->end() || KeyCompareType()(cri(it)->first, key))
+			if (it == _map->begin() || KeyCompareType()(cri(it)->first, key))
 				return MakeEmptyEnumerator();
 
 			return WrapMapEnumerator(EnumeratorFromStlIterators(cri(it), _map->crend(), GetMapHolder()));
diff --git a/stingraykit/collection/SortedMultiSet.h b/stingraykit/collection/SortedMultiSet.h
index 67baf35..c70306e 100644
--- a/stingraykit/collection/SortedMultiSet.h
+++ b/stingraykit/collection/SortedMultiSet.h
@@ -112,7 +112,7 @@ namespace stingray
 			using cri = typename SetType::const_reverse_iterator;
 
 			const auto it = _items->upper_bound(value);
-			if (it == _items->end() || CompareType_()(*cri(it), value))
+			if (it == _items->begin() || CompareType_()(*cri(it), value))
 				return MakeEmptyEnumerator();
 
 			return EnumeratorFromStlIterators(cri(it), _items->crend(), GetItemsHolder());
-- 
2.43.0


From 1f55faa73eaa00c639e6eb140b78d56c0c99cefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:33 +0000
Subject: [PATCH 13/34] fix: TransactionalList: applying an added entry of a
 diff inserts the value

---
 stingraykit/collection/TransactionalList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/TransactionalList.h b/stingraykit/collection/TransactionalList.h
index 3347cd6..8921da5 100644
--- a/stingraykit/collection/TransactionalList.h
+++ b/stingraykit/collection/TransactionalList.h
@@ -325,7 +325,7 @@ namespace stingray
 				switch (entry.Op)
 				{
 				case CollectionOp::Added:
-					Set(entry.Item.Key, entry.Item.Value);
+					Insert(entry.Item.Key, entry.Item.Value);
 					break;
 				case CollectionOp::Updated:
 					Set(entry.Item.Key, entry.Item.Value);
-- 
2.43.0


From ec393776757bd21f48faf387cdde80e70f97a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:03 +0000
Subject: [PATCH 14/34] fix: flat_map, flat_set: copies made with an allocator
 keep the comparer

---
 stingraykit/collection/flat_map.h | 4 ++--
 stingraykit/collection/flat_set.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/stingraykit/collection/flat_map.h b/stingraykit/collection/flat_map.h
index c6d44b6..1748db1 100644
--- a/stingraykit/collection/flat_map.h
+++ b/stingraykit/collection/flat_map.h
@@ -99,11 +99,11 @@ namespace stingray
 		{ }
 
 		flat_map(const flat_map& other, const Allocator& alloc)
-			: _container(other._container, alloc), _cmp(Compare())
+			: _container(other._container, alloc), _cmp(other._cmp)
 		{ }
 
 		flat_map(flat_map&& other, const Allocator& alloc)
-			: _container(std::move(other._container), alloc), _cmp(Compare())
+			: _container(std::move(other._container), alloc), _cmp(other._cmp)
 		{ }
 
 		flat_map(std::initializer_list<value_type> list, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
diff --git a/stingraykit/collection/flat_set.h b/stingraykit/collection/flat_set.h
index fdd596d..b5f11f1 100644
--- a/stingraykit/collection/flat_set.h
+++ b/stingraykit/collection/flat_set.h
@@ -70,11 +70,11 @@ namespace stingray
 		{ }
 
 		flat_set(const flat_set& other, const Allocator& alloc)
-			: _container(other._container, alloc), _cmp(Compare())
+			: _container(other._container, alloc), _cmp(other._cmp)
 		{ }
 
 		flat_set(flat_set&& other, const Allocator& alloc)
-			: _container(std::move(other._container), alloc), _cmp(Compare())
+			: _container(std::move(other._container), alloc), _cmp(other._cmp)
 		{ }
 
 		flat_set(std::initializer_list<value_type> list, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
-- 
2.43.0


From 71134d9b18ec331531b22aef7d7532b6c63d641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:03 +0000
Subject: [PATCH 15/34] fix: ordered_map, ordered_set: copies keep the
 comparer, self-assignment keeps the contents

---
 stingraykit/collection/ordered_map.h | 8 ++++----
 stingraykit/collection/ordered_set.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/stingraykit/collection/ordered_map.h b/stingraykit/collection/ordered_map.h
index 6ef90f1..3a16c4f 100644
--- a/stingraykit/collection/ordered_map.h
+++ b/stingraykit/collection/ordered_map.h
@@ -180,11 +180,11 @@ namespace stingray
 		{ }
 
 		ordered_map(const ordered_map& other)
-			: ordered_map(other.begin(), other.end(), other._alloc)
+			: ordered_map(other.begin(), other.end(), other.key_comp(), other._alloc)
 		{ }
 
 		ordered_map(const ordered_map& other, const Allocator& alloc)
-			: ordered_map(other.begin(), other.end(), alloc)
+			: ordered_map(other.begin(), other.end(), other.key_comp(), alloc)
 		{ }
 
 		ordered_map(ordered_map&& other, const Allocator& alloc)
@@ -201,8 +201,8 @@ namespace stingray
 
 		ordered_map& operator = (const ordered_map& other)
 		{
-			clear();
-			insert(other.begin(), other.end());
+			ordered_map copy(other);
+			swap(copy);
 			return *this;
 		}
 
diff --git a/stingraykit/collection/ordered_set.h b/stingraykit/collection/ordered_set.h
index 3b21970..b22742f 100644
--- a/stingraykit/collection/ordered_set.h
+++ b/stingraykit/collection/ordered_set.h
@@ -156,11 +156,11 @@ namespace stingray
 		{ }
 
 		ordered_set(const ordered_set& other)
-			: ordered_set(other.begin(), other.end(), other._alloc)
+			: ordered_set(other.begin(), other.end(), other.key_comp(), other._alloc)
 		{ }
 
 		ordered_set(const ordered_set& other, const Allocator& alloc)
-			: ordered_set(other.begin(), other.end(), alloc)
+			: ordered_set(other.begin(), other.end(), other.key_comp(), alloc)
 		{ }
 
 		ordered_set(ordered_set&& other, const Allocator& alloc)
@@ -177,8 +177,8 @@ namespace stingray
 
 		ordered_set& operator = (const ordered_set& other)
 		{
-			clear();
-			insert(other.begin(), other.end());
+			ordered_set copy(other);
+			swap(copy);
 			return *this;
 		}
 
-- 
2.43.0


From 6e92e09d3afa19c0b017867fffdb2893f3c632b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:03 +0000
Subject: [PATCH 16/34] fix: inplace_vector: copy self-assignment keeps the
 contents

---
 stingraykit/collection/inplace_vector.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/inplace_vector.h b/stingraykit/collection/inplace_vector.h
index 34d68f2..a7764fd 100644
--- a/stingraykit/collection/inplace_vector.h
+++ b/stingraykit/collection/inplace_vector.h
@@ -111,8 +111,11 @@ namespace stingray
 
 		inplace_vector& operator = (const inplace_vector& other)
 		{
-			clear();
-			Copy(other);
+			if (this != &other)
+			{
+				clear();
+				Copy(other);
+			}
 			return *this;
 		}
 
-- 
2.43.0


From fe1b8c3a66b3294df11faeaa225a54e843e69ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:03 +0000
Subject: [PATCH 17/34] fix: Barrier: wait until the party is released, not
 until woken

---
 stingraykit/thread/Barrier.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/Barrier.h b/stingraykit/thread/Barrier.h
index 04d04da..72aacb8 100644
--- a/stingraykit/thread/Barrier.h
+++ b/stingraykit/thread/Barrier.h
@@ -46,7 +46,8 @@ namespace stingray
 				_cv.Broadcast();
 			}
 			else
-				_cv.Wait(_mutex);
+				while (!_releasing) // wake-ups may be spurious
+					_cv.Wait(_mutex);
 			if (--_currentCount == 0)
 			{
 				_releasing = false;
-- 
2.43.0


From 02c7848bf96d02bd41f09c5b4ffc107ef24a07a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:27 +0000
Subject: [PATCH 18/34] fix: Singleton::Instance() handed out the destroyed
 instance after it was destroyed at exit

---
 stingraykit/Singleton.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/stingraykit/Singleton.h b/stingraykit/Singleton.h
index 6af6b03..c6c8786 100644
--- a/stingraykit/Singleton.h
+++ b/stingraykit/Singleton.h
@@ -31,12 +31,20 @@ namespace stingray
 	private:
 		using InstancePtr = unique_ptr<T>;
 
-		struct InstanceHolder
+		struct InstanceHolder // never destroyed, because it's used after destruction of the instance, too
 		{
-			InstancePtr		Inst;
+			T*				Inst = NULL;
 			bool			Created = false;
+		};
 
-			~InstanceHolder() { Inst.reset(); }
+		struct InstanceDestroyer
+		{
+			~InstanceDestroyer()
+			{
+				InstanceHolder& holder = GetInstanceHolder();
+				CheckedDelete(holder.Inst);
+				holder.Inst = NULL;
+			}
 		};
 
 	private:
@@ -44,7 +52,7 @@ namespace stingray
 
 	public:
 		static bool IsAlive()
-		{ return GetInstanceHolder().Inst.is_initialized(); }
+		{ return GetInstanceHolder().Inst; }
 
 		static T& Instance()
 		{
@@ -72,10 +80,14 @@ namespace stingray
 			catch(const std::exception& ex)
 			{ Logger::Error() << "An exception in " << TypeInfo(typeid(T)) << " singleton constructor:\n" << ex; }
 
+			if (!ptr)
+				return;
+
+			static InstanceDestroyer destroyer;
 			InstanceHolder& holder = GetInstanceHolder();
 
-			holder.Inst = std::move(ptr);
-			holder.Created = holder.Inst.is_initialized();
+			holder.Inst = ptr.release();
+			holder.Created = true;
 		}
 
 		static void AssertInstance()
-- 
2.43.0


From 58cdb47710dcfb7a299e1b4af4f5593ba559daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:27 +0000
Subject: [PATCH 19/34] fix: ChunkedMemoryByteStream::Write() failed in the
 middle of a write that crosses a chunk boundary

---
 stingraykit/io/ChunkedMemoryByteStream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/ChunkedMemoryByteStream.h b/stingraykit/io/ChunkedMemoryByteStream.h
index 5956060..494d783 100644
--- a/stingraykit/io/ChunkedMemoryByteStream.h
+++ b/stingraykit/io/ChunkedMemoryByteStream.h
@@ -58,11 +58,12 @@ namespace stingray
 		virtual u64 Write(ConstByteData data, const ICancellationToken& token = DummyCancellationToken())
 		{
 			STINGRAYKIT_CHECK(data.size() > 0, LogicException("writing empty data"));
-			NormalizePosition();
 
 			size_t passed = 0;
 			for (size_t curcount = 0; passed < data.size(); passed += curcount)
 			{
+				NormalizePosition();
+
 				if (_chunk == _container->end())
 				{
 					STINGRAYKIT_CHECK(_chunkOffset == 0, LogicException("_chunkOffset must be 0"));
-- 
2.43.0


From e29d7b54ec595b8470df2c7f3a13aace08f96450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:34 +0000
Subject: [PATCH 20/34] fix: BufferedStream::Read() past the end of an aligned
 buffer

---
 stingraykit/io/BufferedStream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/BufferedStream.h b/stingraykit/io/BufferedStream.h
index 9c12500..a8b7a84 100644
--- a/stingraykit/io/BufferedStream.h
+++ b/stingraykit/io/BufferedStream.h
@@ -44,12 +44,12 @@ namespace stingray
 			u8* dst = data.data();
 			for (size_t toCopy = 0; total < dstSize && token; _inBufferOffset += toCopy, dst += toCopy, total += toCopy)
 			{
-				if (!_bufferSize || _inBufferOffset == _bufferSize)
+				if (!_bufferSize || _inBufferOffset >= _bufferSize)
 				{
 					if (_bufferSize)
 						SeekStream(Tell());
 					_bufferSize = _stream->Read(_buffer, token);
-					if (!_bufferSize || _inBufferOffset == _bufferSize)
+					if (!_bufferSize || _inBufferOffset >= _bufferSize)
 						break;
 				}
 				toCopy = std::min(dstSize - total, _bufferSize - _inBufferOffset);
-- 
2.43.0


From 3760b274873d7586e7aa420e8fb2a266d03b3743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:34 +0000
Subject: [PATCH 21/34] fix: BufferedStream lost its position when a write of
 the underlying stream failed

---
 stingraykit/io/BufferedStream.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/BufferedStream.h b/stingraykit/io/BufferedStream.h
index a8b7a84..060523c 100644
--- a/stingraykit/io/BufferedStream.h
+++ b/stingraykit/io/BufferedStream.h
@@ -62,7 +62,14 @@ namespace stingray
 		{
 			if (_inBufferOffset != _bufferSize || _bufferSize)
 				_stream->Seek(Tell());
-			u64 total = _stream->Write(data, token);
+			u64 total = 0;
+			try
+			{ total = _stream->Write(data, token); }
+			catch (const std::exception&)
+			{
+				SeekStream(Tell());
+				throw;
+			}
 			SeekStream(Tell() + total);
 			return total;
 		}
-- 
2.43.0


From 5460a9be593fe235f1c8026fc89e36832dfa8400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 22/34] fix: ActionTransaction::Rollback() repeated undone
 steps after a step had failed

---
 stingraykit/ActionTransaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/ActionTransaction.cpp b/stingraykit/ActionTransaction.cpp
index 8d2b484..0aaf1e5 100644
--- a/stingraykit/ActionTransaction.cpp
+++ b/stingraykit/ActionTransaction.cpp
@@ -47,8 +47,8 @@ namespace stingray
 	{
 		STINGRAYKIT_CHECK(_active, "Transaction is inactive!");
 
-		for (RollbackSequence::reverse_iterator it = _rollbackSequence.rbegin(); it != _rollbackSequence.rend(); ++it)
-			(*it)();
+		for (; !_rollbackSequence.empty(); _rollbackSequence.pop_back())
+			_rollbackSequence.back()();
 
 		_active = false;
 	}
-- 
2.43.0


From 771cd81b4de4bad2230abfce128f57c2cbd2a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 23/34] fix: RefCountingMap and RefCountingSet kept an entry
 without references when its remove action threw

---
 stingraykit/collection/RefCountingMap.h | 10 ++++++++--
 stingraykit/collection/RefCountingSet.h | 14 ++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/stingraykit/collection/RefCountingMap.h b/stingraykit/collection/RefCountingMap.h
index bcc4676..2e4f337 100644
--- a/stingraykit/collection/RefCountingMap.h
+++ b/stingraykit/collection/RefCountingMap.h
@@ -127,8 +127,11 @@ namespace stingray
 			if (implIt == _impl.end())
 				return 0;
 
-			if (--implIt->second.References > 0)
+			if (implIt->second.References > 1)
+			{
+				--implIt->second.References;
 				return 1;
+			}
 
 			doRemoveFunc(implIt->first, implIt->second.Value);
 			_impl.erase(implIt);
@@ -139,8 +142,11 @@ namespace stingray
 		void erase(iterator it, const DoRemoveFunc& doRemoveFunc)
 		{
 			const typename Impl::iterator implIt = it.GetImpl();
-			if (--implIt->second.References > 0)
+			if (implIt->second.References > 1)
+			{
+				--implIt->second.References;
 				return;
+			}
 
 			doRemoveFunc(implIt->first, implIt->second.Value);
 			_impl.erase(implIt);
diff --git a/stingraykit/collection/RefCountingSet.h b/stingraykit/collection/RefCountingSet.h
index 11e37a9..55de2dd 100644
--- a/stingraykit/collection/RefCountingSet.h
+++ b/stingraykit/collection/RefCountingSet.h
@@ -70,11 +70,14 @@ namespace stingray
 			if (it == _impl.end())
 				return 0;
 
-			if (--it->second == 0)
+			if (it->second > 1)
 			{
-				doRemoveFunc(it->first);
-				_impl.erase(it);
+				--it->second;
+				return 1;
 			}
+
+			doRemoveFunc(it->first);
+			_impl.erase(it);
 			return 1;
 		}
 
@@ -82,8 +85,11 @@ namespace stingray
 		void erase(iterator it, const DoRemoveFunc& doRemoveFunc)
 		{
 			const typename Impl::iterator implIt = it.base();
-			if (--implIt->second > 0)
+			if (implIt->second > 1)
+			{
+				--implIt->second;
 				return;
+			}
 
 			doRemoveFunc(implIt->first);
 			_impl.erase(implIt);
-- 
2.43.0


From 1927eeea9088583107185fb2beec82d0929b189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 24/34] fix: any lost its value in self-assignment

---
 stingraykit/any.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/any.h b/stingraykit/any.h
index 331d40d..f40f9e6 100644
--- a/stingraykit/any.h
+++ b/stingraykit/any.h
@@ -287,6 +287,9 @@ namespace stingray
 
 		any& operator = (const any& other)
 		{
+			if (this == &other)
+				return *this;
+
 			Destroy();
 			Copy(other);
 			return *this;
@@ -294,6 +297,9 @@ namespace stingray
 
 		any& operator = (any&& other)
 		{
+			if (this == &other)
+				return *this;
+
 			Destroy();
 			Move(std::move(other));
 			return *this;
-- 
2.43.0


From e9ead5b2e7f6783b7b0a79ffa507244495e02232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 25/34] fix: any destroyed a value whose construction had
 thrown

---
 stingraykit/any.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/any.h b/stingraykit/any.h
index f40f9e6..ac863e7 100644
--- a/stingraykit/any.h
+++ b/stingraykit/any.h
@@ -328,8 +328,8 @@ namespace stingray
 		{
 			typedef typename Decay<T>::ValueT RawType;
 
-			_type = Detail::any::CppTypeToAnyUnionType<RawType>::Value;
 			Detail::any::AnyValAccessor<Detail::any::CppTypeToAnyUnionType<RawType>::Value>::Set(_data, std::forward<T>(val));
+			_type = Detail::any::CppTypeToAnyUnionType<RawType>::Value;
 		}
 
 		template < typename T >
-- 
2.43.0


From d7fd2ae33e57a17c91144aa1b3b3c89f0fd5b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 26/34] fix: variant self-assignment copied from the destroyed
 value

---
 stingraykit/variant.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index 581a6b3..79f54d2 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -309,12 +309,18 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(other);
 		}
 
 		void assign(variant&& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(std::move(other));
 		}
@@ -445,12 +451,18 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(other);
 		}
 
 		void assign(variant&& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(std::move(other));
 		}
-- 
2.43.0


From 67ddfe2a72cd8487dd2a09801d6823b241950ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 27/34] fix: function destroyed a functor whose construction
 had thrown

---
 stingraykit/function/function.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stingraykit/function/function.h b/stingraykit/function/function.h
index 53e0472..4c98f2c 100644
--- a/stingraykit/function/function.h
+++ b/stingraykit/function/function.h
@@ -51,7 +51,7 @@ namespace stingray
 			GetVTableFunc*	_getVTable;
 
 			IInvokableBase(GetVTableFunc* func) : _getVTable(func) { }
-			~IInvokableBase() { _getVTable().Dtor(this); }
+			~IInvokableBase() { if (_getVTable) _getVTable().Dtor(this); }
 		};
 
 
@@ -88,8 +88,8 @@ namespace stingray
 
 		public:
 			Invokable(FunctorType&& func)
-				: BaseType(&MyType::GetVTable), _func(std::forward<FunctorType>(func))
-			{ }
+				: BaseType(NULL), _func(std::forward<FunctorType>(func))
+			{ this->_getVTable = &MyType::GetVTable; } // If functor's ctor throws, base's dtor has nothing to destroy
 
 			static VTable GetVTable()
 			{ return VTable(&MyType::Dtor, reinterpret_cast<typename VTable::InvokePtr>(&MyType::Invoke), &MyType::GetName); }
-- 
2.43.0


From 152f44ac6c44b60f1af0c6af548668f8410ad176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 28/34] fix: RangeSplitter::Last() was invalid when the size is
 a multiple of the fragment size

---
 stingraykit/collection/Range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index f4d4edc..97b6733 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -721,7 +721,7 @@ namespace stingray
 
 			Self& Last()
 			{
-				_it = std::next(_begin, AlignDown(std::distance(_begin, _end), _maxFragmentSize));
+				_it = _begin == _end ? _end : std::next(_begin, AlignDown(std::distance(_begin, _end) - 1, _maxFragmentSize));
 				_value.reset();
 				return *this;
 			}
-- 
2.43.0


From e24d30771edec3390a840ed233ff90528eb9d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 29/34] fix: moving a reversed range to or from its end and the
 position of an empty one

---
 stingraykit/collection/Range.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index 97b6733..34eb0b8 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -377,13 +377,24 @@ namespace stingray
 			}
 
 			size_t GetPosition() const
-			{ return static_cast<int>(_impl.GetSize()) - static_cast<int>(_impl.GetPosition()) - (_implBeforeBegin ? 0 : 1); }
+			{ return Valid() ? _impl.GetSize() - _impl.GetPosition() - 1 : _impl.GetSize(); }
 
 			size_t GetSize() const
 			{ return _impl.GetSize(); }
 
 			Self& Move(int distance)
-			{ _impl.Move(-distance); return *this; }
+			{
+				const size_t size = GetSize();
+				const size_t position = GetPosition() + distance;
+				STINGRAYKIT_CHECK(position <= size, IndexOutOfRangeException(position, size));
+
+				if (size == 0)
+					return *this;
+
+				_impl.Move(static_cast<int>(position < size ? size - position - 1 : 0) - static_cast<int>(_impl.GetPosition()));
+				_implBeforeBegin = position == size;
+				return *this;
+			}
 		};
 
 
-- 
2.43.0


From 5c49704f0a2f281eb6523bd3973f0cb59e2d9a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 30/34] fix: end of a flattened range whose parts are all empty
 differed from its beginning

---
 stingraykit/collection/Range.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index 34eb0b8..2994dc5 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -858,7 +858,11 @@ namespace stingray
 						return subRange;
 
 					if (_range == Range_(_range).First())
+					{
+						_range.Last();
+						_range.Next();
 						return null;
+					}
 
 					_range.Prev();
 				}
-- 
2.43.0


From 955f5304d939aa67fde8ec57cdef40e04f6e8f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 31/34] fix: Prev() from the end of flattened and concatenated
 ranges threw

---
 stingraykit/collection/Range.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index 2994dc5..bf24e6c 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -810,7 +810,8 @@ namespace stingray
 
 			Self& Prev()
 			{
-				STINGRAYKIT_CHECK(Valid(), "Range is not valid!");
+				if (!Valid())
+					return Last();
 
 				if (_currentSubRange != SubRangeType(*_currentSubRange).First())
 					_currentSubRange->Prev();
@@ -1148,7 +1149,9 @@ namespace stingray
 
 			Self& Prev()
 			{
-				STINGRAYKIT_CHECK(Valid(), "Range is not valid!");
+				if (!Valid())
+					return Last();
+
 				apply_visitor(IterateVisitor<false>(*this), *_currentRange);
 				return *this;
 			}
-- 
2.43.0


From 0557a2d9ca1803d0f31ab2439990733e12b842f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 32/34] fix: PagedBuffer::Read() took another position for its
 own after a concurrent Pop() had dropped pages

---
 stingraykit/io/PagedBuffer.cpp | 6 ++++--
 stingraykit/io/PagedBuffer.h   | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 7fb1a68..6599962 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -90,7 +90,7 @@ namespace stingray
 
 		Log(LogLevel::Trace) << "Read: current offset: " << _currentOffset << " --> page: " << pageIndex << "/" << _pages.size() << ", offset: " << offset;
 
-		const u64 currentOffset = _currentOffset;
+		const u64 currentPosition = _droppedSize + _currentOffset;
 		size_t processed = 0;
 
 		{
@@ -109,7 +109,7 @@ namespace stingray
 			processed -= remainder;
 		}
 
-		if (_currentOffset == currentOffset)
+		if (_droppedSize + _currentOffset == currentPosition)
 			_currentOffset += processed;
 	}
 
@@ -209,6 +209,7 @@ namespace stingray
 			++newBeginIt;
 			newStartOffset -= _pageSize;
 			newCurrentOffset -= _pageSize;
+			_droppedSize += _pageSize;
 		}
 
 		{
@@ -248,6 +249,7 @@ namespace stingray
 			_chunkSize(chunkSize),
 			_startOffset(0),
 			_currentOffset(0),
+			_droppedSize(0),
 			_tailSize(0),
 			_activeRead(false),
 			_activeWrite(false)
diff --git a/stingraykit/io/PagedBuffer.h b/stingraykit/io/PagedBuffer.h
index 9731e56..341de02 100644
--- a/stingraykit/io/PagedBuffer.h
+++ b/stingraykit/io/PagedBuffer.h
@@ -45,6 +45,7 @@ namespace stingray
 
 		u64							_startOffset;
 		u64							_currentOffset;
+		u64							_droppedSize;
 		u64							_tailSize;
 
 		Mutex						_mutex;
-- 
2.43.0


From 901c43573565d2751d45534335039d00b9ba8475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 33/34] fix: PagedBuffer::Read() threw after it had read data
 which was being pushed

---
 stingraykit/io/PagedBuffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 6599962..a6da4ee 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -74,8 +74,9 @@ namespace stingray
 		MutexLock l(_mutex);
 		ReadLock rl(*this);
 
-		const u64 unreadSize = _pageSize * _pages.size() - _currentOffset - _tailSize;
-		if (unreadSize < _chunkSize)
+		// a page may have given out data that is not yet accounted for in the tail size
+		const u64 writtenSize = _pageSize * _pages.size() - _tailSize;
+		if (writtenSize < _currentOffset + _chunkSize)
 		{
 			_dataPushed.Wait(_mutex, token);
 			return;
-- 
2.43.0


From 8c4b220abaf467f30da2a117c76f2dbd2ca2e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 34/34] fix: PagedBuffer::Seek() did not wake the waiting
 reader

---
 stingraykit/io/PagedBuffer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index a6da4ee..1082a5a 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -241,6 +241,7 @@ namespace stingray
 		Log(LogLevel::Debug) << "Seek: offset: " << offset << ", start offset: " << _startOffset << " --> current offset: " << newCurrentOffset;
 
 		_currentOffset = newCurrentOffset;
+		_dataPushed.Broadcast();
 	}
 
 
-- 
2.43.0

