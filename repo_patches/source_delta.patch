From 4a77bd538c2c495184acdaad0e0557e6703c2ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 01/30] fix: task: don't deadlock when a Task is queued after
 TaskMaster::cancel

run(), idle(), and exec() call push_back or push_back_idle with the
Task's own mutex locked.  If the TaskMaster is cancelled, these functions
called clear(), which locks the same mutex again and never returns.
---
 lib/task.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/task.cc b/lib/task.cc
index 2507285..414b126 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -111,6 +111,10 @@ namespace crucible {
 		/// cancelling the entire task queue.
 		void clear();
 
+		/// Clear the post-execution queue when m_mutex is already locked by
+		/// the caller.
+		void clear_nolock();
+
 	friend class TaskMasterState;
 	friend class TaskConsumer;
 
@@ -308,6 +312,14 @@ namespace crucible {
 		clear_queue(post_exec_queue);
 	}
 
+	void
+	TaskState::clear_nolock()
+	{
+		TaskQueue post_exec_queue;
+		swap(post_exec_queue, m_post_exec_queue);
+		clear_queue(post_exec_queue);
+	}
+
 	void
 	TaskState::clear_queue(TaskQueue &tq)
 	{
@@ -481,7 +493,10 @@ namespace crucible {
 		THROW_CHECK0(runtime_error, task);
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
-			task->clear();
+			// Destroying a Task might lock m_mutex
+			lock.unlock();
+			// Caller holds task->m_mutex
+			task->clear_nolock();
 			return;
 		}
 		s_tms->m_queue.push_back(task);
@@ -495,7 +510,10 @@ namespace crucible {
 		THROW_CHECK0(runtime_error, task);
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
-			task->clear();
+			// Destroying a Task might lock m_mutex
+			lock.unlock();
+			// Caller holds task->m_mutex
+			task->clear_nolock();
 			return;
 		}
 		s_tms->m_idle_queue.push_back(task);
-- 
2.43.0


From add8c93270261ec2818c7c6d44584a40a7c4a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 02/30] fix: task: replace excess worker threads that exit at
 the same time

When the thread count is reduced, each worker decides to exit while
holding the lock, but releases the lock before removing itself from the
set of threads.  Other workers can make the same decision in between,
and too many workers exit.  set_thread_count then returns with fewer
threads than requested, and any Tasks already in the queue are not
executed until something else is queued.
---
 lib/task.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/task.cc b/lib/task.cc
index 414b126..fc27e1e 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -956,6 +956,10 @@ namespace crucible {
 
 		// Fun fact:  shared_from_this() isn't usable until the constructor returns...
 		master_copy->m_threads.erase(shared_from_this());
+		// We didn't hold the lock continuously after deciding to exit,
+		// so other threads may have made the same decision at the same
+		// time, and now there are too few threads to run the queue.
+		master_copy->start_threads_nolock();
 		master_copy->m_condvar.notify_all();
 	}
 
-- 
2.43.0


From aa9dc6d2578ffd5d62dea3a87167eab0402b2817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 03/30] fix: time: limit earned tokens to the burst size before
 spending them

RateLimiter::borrow subtracted the cost from a token count which did not
include the time elapsed since the last update.  The next update then
added the elapsed time and clamped the result to the burst size, so up to
a full burst was forgiven after an idle period, and twice the configured
burst could be admitted at once.  Similarly, a rate change was applied to
time that had already elapsed at the old rate.
---
 lib/time.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/time.cc b/lib/time.cc
index 4f991e5..e7b6677 100644
--- a/lib/time.cc
+++ b/lib/time.cc
@@ -156,6 +156,9 @@ namespace crucible {
 	RateLimiter::borrow(double cost)
 	{
 		unique_lock<mutex> lock(m_mutex);
+		// Limit tokens earned before now to the burst size before spending them,
+		// otherwise the cost is forgiven after an idle period
+		update_tokens();
 		m_tokens -= cost;
 	}
 
@@ -164,6 +167,8 @@ namespace crucible {
 	{
 		THROW_CHECK1(invalid_argument, new_rate, new_rate > 0);
 		unique_lock<mutex> lock(m_mutex);
+		// Tokens earned before now are earned at the old rate
+		update_tokens();
 		m_rate = new_rate;
 	}
 
-- 
2.43.0


From 5c970e44264c794b0d31f7c71e2b1b5acb6d4ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 04/30] fix: time: wake waiters when the count changes but the
 clock did not advance

RateEstimator::update notified waiters only when time had passed since the
previous update.  If two updates happen at the same time, or the clock is
set back between them, waiters for the new count were not woken up.
---
 lib/time.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/time.cc b/lib/time.cc
index e7b6677..fa23151 100644
--- a/lib/time.cc
+++ b/lib/time.cc
@@ -202,9 +202,10 @@ namespace crucible {
 		auto delta = max(0.0, m_last_update.lap());
 		m_num += increment;
 		m_den += delta;
+		const bool count_changed = m_last_count != new_count;
 		m_last_count = new_count;
-		// If count increased, wake up any waiters
-		if (delta > 0) {
+		// If count changed, wake up any waiters, even if the clock did not move forward
+		if (count_changed) {
 			m_condvar.notify_all();
 		}
 	}
-- 
2.43.0


From 1f823850163e7a41a44f5f75023bebfe96c4101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 05/30] fix: fd: advance the buffer pointer after a short read

read_partial_or_die placed the data of every read at the start of the
buffer, so any short read left the buffer with the wrong contents while
reporting that all bytes had been read.
---
 lib/fd.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/fd.cc b/lib/fd.cc
index dbbfb48..8cb3719 100644
--- a/lib/fd.cc
+++ b/lib/fd.cc
@@ -376,8 +376,9 @@ namespace crucible {
 			THROW_ERROR(runtime_error, "read: trying to read on a closed file descriptor");
 		}
 		size_read = 0;
+		uint8_t *next = static_cast<uint8_t *>(buf);
 		while (size) {
-			int rv = read(fd, buf, size);
+			int rv = read(fd, next, size);
 			if (rv < 0) {
 				if (errno == EINTR) {
 					CHATTER_TRACE("resuming after EINTR");
@@ -391,6 +392,7 @@ namespace crucible {
 			if (rv == 0) break;
 			size_read += rv;
 			size -= rv;
+			next += rv;
 			// CHATTER("read " << rv << " bytes from fd " << fd);
 		}
 	}
-- 
2.43.0


From 3686446c430788ba21b3bc33a70fe77de9be5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 06/30] fix: bytevector: check bounds of slices and erased
 ranges

The upper bound check of the slice constructor could not fail because
the same length was added to both sides, so a slice could extend past the
end of its parent.  It also read the parent's members without holding the
parent's lock.

Erase accepted ranges with only one end inside the buffer.
---
 lib/bytevector.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index df2b430..a4e544f 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -74,9 +74,10 @@ namespace crucible {
 
 	ByteVector::ByteVector(const ByteVector &that, size_t start, size_t length)
 	{
+		unique_lock<mutex> lock(that.m_mutex);
 		THROW_CHECK0(out_of_range, that.m_ptr);
 		THROW_CHECK2(out_of_range, start, that.m_size, start <= that.m_size);
-		THROW_CHECK2(out_of_range, start + length, that.m_size + length, start + length <= that.m_size + length);
+		THROW_CHECK3(out_of_range, start, length, that.m_size, length <= that.m_size - start);
 		m_ptr = Pointer(that.m_ptr, that.m_ptr.get() + start);
 		m_size = length;
 	}
@@ -156,6 +157,7 @@ namespace crucible {
 		THROW_CHECK0(out_of_range, m_ptr);
 		const iterator my_begin = m_ptr.get();
 		const iterator my_end = my_begin + m_size;
+		THROW_CHECK4(out_of_range, my_begin, begin, my_end, end, my_begin <= begin && begin <= end && end <= my_end);
 		THROW_CHECK4(out_of_range, my_begin, begin, my_end, end, my_begin == begin || my_end == end);
 		if (begin == my_begin) {
 			if (end == my_end) {
-- 
2.43.0


From 3a72a694a7814949693199d3ceb2b7ac5a399036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 07/30] fix: bytevector: don't hang when comparing an object
 with itself

operator== locked both operands without checking whether they are the
same object, as operator= does.
---
 lib/bytevector.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index a4e544f..692c1ac 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -130,6 +130,10 @@ namespace crucible {
 	bool
 	ByteVector::operator==(const ByteVector &that) const
 	{
+		// Don't try to lock the same mutex twice
+		if (this == &that) {
+			return true;
+		}
 		unique_lock<mutex> lock_this(m_mutex, defer_lock);
 		unique_lock<mutex> lock_that(that.m_mutex, defer_lock);
 		lock(lock_this, lock_that);
-- 
2.43.0


From dbf138d343f78c56efa498fc47a282e1a53db720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 08/30] fix: table: refuse to erase a row or column that does
 not exist

Dimension::erase limited the position to one past the last element, and
then erased it.
---
 lib/table.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/table.cc b/lib/table.cc
index 51d9e40..0d9d8a5 100644
--- a/lib/table.cc
+++ b/lib/table.cc
@@ -1,5 +1,6 @@
 #include "crucible/table.h"
 
+#include "crucible/error.h"
 #include "crucible/string.h"
 
 namespace crucible {
@@ -110,8 +111,8 @@ namespace crucible {
 		void
 		Dimension::erase(size_t pos)
 		{
-			const auto it = m_elements.begin() + min(m_elements.size(), pos);
-			m_elements.erase(it);
+			THROW_CHECK2(out_of_range, pos, m_elements.size(), pos < m_elements.size());
+			m_elements.erase(m_elements.begin() + pos);
 		}
 
 		size_t
-- 
2.43.0


From 0d278e4d853ebf54dd86de0134250fd18f822e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 09/30] fix: bytevector: do not print erase iterators as C
 strings

The exception raised for an invalid erase() formatted the iterators as
NUL-terminated strings, reading past the end of the buffer.
---
 lib/bytevector.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index 692c1ac..f61f510 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -161,8 +161,10 @@ namespace crucible {
 		THROW_CHECK0(out_of_range, m_ptr);
 		const iterator my_begin = m_ptr.get();
 		const iterator my_end = my_begin + m_size;
-		THROW_CHECK4(out_of_range, my_begin, begin, my_end, end, my_begin <= begin && begin <= end && end <= my_end);
-		THROW_CHECK4(out_of_range, my_begin, begin, my_end, end, my_begin == begin || my_end == end);
+		// Don't let ostream treat iterators as C strings in exception messages
+		const void *const vp_my_begin = my_begin, *const vp_begin = begin, *const vp_my_end = my_end, *const vp_end = end;
+		THROW_CHECK4(out_of_range, vp_my_begin, vp_begin, vp_my_end, vp_end, my_begin <= begin && begin <= end && end <= my_end);
+		THROW_CHECK4(out_of_range, vp_my_begin, vp_begin, vp_my_end, vp_end, my_begin == begin || my_end == end);
 		if (begin == my_begin) {
 			if (end == my_end) {
 				m_size = 0;
-- 
2.43.0


From 5961ba95e3e6b7f3c2b2e363857382fddea14758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 10/30] fix: fs: retry metadata searches with 64K buffer, don't
 parse results of a failed search

The search loop never tried the 64K buffer it had computed, so an item
larger than 16K could not be found.  When the last attempt fails with
EOVERFLOW there is nothing in the buffer, but the requested item count
was used to parse its uninitialized contents.
---
 lib/fs.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/fs.cc b/lib/fs.cc
index 356d803..1f03d12 100644
--- a/lib/fs.cc
+++ b/lib/fs.cc
@@ -771,6 +771,7 @@ namespace crucible {
 		size_t buf_size = max(m_buf_size, sizeof(btrfs_ioctl_search_args_v2) + sizeof(btrfs_ioctl_search_header));
 		ByteVector ioctl_arg;
 		btrfs_ioctl_search_args_v2 *ioctl_ptr;
+		bool overflow = false;
 		do {
 			// ioctl buffer size does not include search key header or buffer size
 			ioctl_arg = ByteVector(buf_size + sizeof(btrfs_ioctl_search_args_v2));
@@ -783,6 +784,7 @@ namespace crucible {
 			// Don't bother supporting V1.  Kernels that old have other problems.
 			int rv = ioctl(fd, BTRFS_IOC_TREE_SEARCH_V2, ioctl_arg.data());
 			++s_calls;
+			overflow = false;
 			if (rv != 0 && errno == ENOENT) {
 				// If we are searching a tree that is deleted or no longer exists, just return an empty list
 				ioctl_ptr->key.nr_items = 0;
@@ -791,6 +793,8 @@ namespace crucible {
 			if (rv != 0 && errno != EOVERFLOW) {
 				return false;
 			}
+			// Not even one item fit in the buffer
+			overflow = (rv != 0);
 			if (rv == 0 && nr_items <= ioctl_ptr->key.nr_items) {
 				// got all the items we wanted, thanks
 				m_buf_size = max(m_buf_size, buf_size);
@@ -813,7 +817,13 @@ namespace crucible {
 			if (ioctl_ptr->key.nr_items == 0) {
 				++s_loops_empty;
 			}
-		} while (buf_size < 65536);
+		} while (buf_size < 65536 || (overflow && buf_size == 65536));
+
+		// The last attempt didn't return any items, so there is nothing in the buffer
+		if (overflow) {
+			errno = EOVERFLOW;
+			return false;
+		}
 
 		// ioctl changes nr_items, this has to be copied back
 		static_cast<btrfs_ioctl_search_key&>(*this) = ioctl_ptr->key;
-- 
2.43.0


From 87dfcb7448de686eebd82151234307bf448414bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 11/30] fix: btrfs-tree: get_sums skipped everything if no csum
 item precedes the range

---
 lib/btrfs-tree.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/btrfs-tree.cc b/lib/btrfs-tree.cc
index 2e19a0d..2aad5c1 100644
--- a/lib/btrfs-tree.cc
+++ b/lib/btrfs-tree.cc
@@ -599,6 +599,10 @@ namespace crucible {
 	#endif
 		const uint64_t logical_end = logical + count * block_size();
 		BtrfsTreeItem bti = rlower_bound(logical);
+		if (!bti) {
+			// Nothing before the range, but there may be something inside it
+			bti = lower_bound(logical);
+		}
 		size_t __attribute__((unused)) loops = 0;
 		BCTFGS_DEBUG("get_sums " << to_hex(logical) << ".." << to_hex(logical_end) << endl);
 		while (!!bti) {
-- 
2.43.0


From a9d8fe262a318e8412cb691097ad1aa7099538e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 12/30] fix: extentwalker: handle trailing hole in the last
 inode of a subvol

Without a following item in the tree, past_eof was never set, so the last
extent before an implicit hole was not recognized as the last extent and
the walker threw an exception.
---
 lib/extentwalker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index e1d47bc..52cb134 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -628,6 +628,12 @@ namespace crucible {
 			}
 		}
 
+		// If we get fewer items than we asked for, there is nothing after
+		// this file in the subvol, so the last extent we saw is the last one
+		if (sk.m_result.size() < sc_extent_fetch_max) {
+			past_eof = true;
+		}
+
 		// Plug a hole at EOF
 		if (past_eof && !rv.empty()) {
 			rv.rbegin()->m_flags |= FIEMAP_EXTENT_LAST;
-- 
2.43.0


From 8c3ac67ea0bc95075186ba066874655c26f8bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 13/30] fix: extentwalker: seek past EOF could report the last
 extent as a hole

If the file has extents past EOF, the window of extents could start inside
the last extent of the file, and the part of that extent in the window
looked like a hole.
---
 lib/extentwalker.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index 52cb134..aa1f7b5 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -209,6 +209,11 @@ namespace crucible {
 			// Get file size every time in case it changes under us
 			m_stat.fstat(m_fd);
 
+			// There is nothing to find past EOF, so find the last block of the file instead
+			if (m_stat.st_size > 0) {
+				pos = min(pos, (m_stat.st_size - 1) & ~(FIEMAP_BLOCK_SIZE - 1));
+			}
+
 			// Get fiemap begin..EOF
 			fm = get_extent_map(begin);
 			EWLOG("fiemap result loop count #" << loop_count << " begin " << to_hex(begin) << " pos "
-- 
2.43.0


From 2fe5f60e376fd9d12844e1feba1702be1d7d7e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 14/30] fix: extentwalker: prev() failed if the cache starts in
 the middle of an extent

---
 lib/extentwalker.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index aa1f7b5..2138d32 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -452,16 +452,17 @@ namespace crucible {
 	{
 		EWTRACE("prev");
 		THROW_CHECK1(invalid_argument, (m_current != m_extents.end()), m_current != m_extents.end());
-		auto prev_iter = m_current;
-		if (prev_iter->m_begin == 0) {
+		auto prev_end = current().m_begin;
+		if (prev_end == 0) {
 			EWTRACE("prev BOF");
 			return false;
 		}
-		THROW_CHECK1(invalid_argument, (prev_iter != m_extents.begin()), prev_iter != m_extents.begin());
-		--prev_iter;
-		EWTRACE("prev seeking to " << *prev_iter << "->m_begin");
-		auto prev_end = current().m_begin;
-		seek(prev_iter->m_begin);
+		// Seek to the last block before the current extent.
+		// The previous record in the cache might be missing, or it might
+		// be the first one, which can start in the middle of some extent.
+		auto prev_pos = (prev_end - 1) & ~(FIEMAP_BLOCK_SIZE - 1);
+		EWTRACE("prev seeking to " << to_hex(prev_pos));
+		seek(prev_pos);
 		THROW_CHECK1(runtime_error, (m_current != m_extents.end()), m_current != m_extents.end());
 		THROW_CHECK2(runtime_error, current().m_end, prev_end, current().m_end == prev_end);
 		return true;
-- 
2.43.0


From c0cd45b54b7f498f088ed7c93bca35a5f335f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 15/30] fix: roots: retry the ref when its extent is locked by
 another task

In the subvol scan modes, a ref whose extent was locked by another task was
skipped: the position had already moved past it when scan_forward asked for
the ref to be scanned again.
---
 src/bees-roots.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index b3025d0..ee7fd2c 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1735,6 +1735,10 @@ BeesFileCrawl::scan_one_ref()
 						m_hold = new_holder;
 					} else {
 						BEESCOUNT(crawl_again);
+						// Go back to this ref when the extent lock is released.
+						// The extent lock will reschedule us, as with inode_mutex above.
+						m_offset = bti.offset();
+						return false;
 					}
 				}
 			} else {
-- 
2.43.0


From ab7360e09e1abd1026d8c4fad654416d4fc1cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 16/30] fix: hash: do not lose changes made to an extent while
 it is being written

The extent was marked clean after the write, so an insert made between the
copy and the end of the write was never written unless something else made
the extent dirty again.
---
 src/bees-hash.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 7581fe1..21186ba 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -119,6 +119,9 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// Copy the extent because we might be stuck writing for a while
 		ByteVector extent_copy(dirty_extent, dirty_extent_end);
 
+		// Mark extent clean now, because it may become dirty again while we are writing the copy
+		m_extent_metadata.at(extent_index).m_dirty = false;
+
 		// Release the lock
 		lock.unlock();
 
@@ -130,13 +133,17 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// const size_t dirty_extent_size   = dirty_extent_end - dirty_extent;
 		// bees_unreadahead(m_fd, dirty_extent_offset, dirty_extent_size);
 
-		// Mark extent clean if write was successful
-		lock.lock();
-		m_extent_metadata.at(extent_index).m_dirty = false;
-
 		wrote_extent = true;
 	});
 
+	// Mark extent dirty again if write was not successful
+	if (!wrote_extent) {
+		if (!lock.owns_lock()) {
+			lock.lock();
+		}
+		m_extent_metadata.at(extent_index).m_dirty = true;
+	}
+
 	return wrote_extent;
 }
 
-- 
2.43.0


From 9ededff8e6fc107f9f43a7e6a96b01d236a881d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 17/30] fix: hold crawl position of an inode from fetch until
 its scan is done

In the subvol scan modes the crawl state advanced past an inode as soon
as it was peeked, and the scan task held the position after the inode
instead of the inode itself.  If the state was saved at that moment and
bees was interrupted, the inode was not scanned after restart.  The task
could also be started with the transid range of the previous crawl if
pop_front had to restart the crawl.
---
 src/bees-roots.cc | 25 ++++++++++++++++---------
 src/bees.h        |  4 +++-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index ee7fd2c..f0f7a3e 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -177,7 +177,8 @@ BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 	const auto this_state = this_crawl->get_state_end();
 	BEESNOTE("Crawling inode " << this_state);
 	BEESTRACE("Crawling inode " << this_state);
-	const auto this_range = this_crawl->pop_front();
+	ProgressTracker<BeesCrawlState>::ProgressHolder this_hold;
+	const auto this_range = this_crawl->pop_front(this_hold);
 	if (!this_range) {
 		return false;
 	}
@@ -200,16 +201,17 @@ BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 		ostringstream oss;
 		oss << "crawl_" << subvol << "_" << inode;
 		const auto task_title = oss.str();
-		// this_state.m_objectid was advanced to inode+1 by peek_front()->fetch_extents().
-		// Fix: use the actual inode from this_range so BtrfsExtentDataFetcher finds
-		// the correct inode (exact-match search).
-		auto bfc_state = this_state;
-		bfc_state.m_objectid = inode;
+		// this_state.m_objectid was advanced to inode+1 by peek_front()->fetch_extents(),
+		// or is from before pop_front() moved to another inode or transid range.
+		// Use the state of the item from pop_front() so BtrfsExtentDataFetcher finds
+		// the correct inode (exact-match search), and keep the hold on that state
+		// so the saved crawl position stays at this inode until the scan is done.
+		const auto bfc_state = this_hold->get();
 		const auto bfc = make_shared<BeesFileCrawl>((BeesFileCrawl) {
 			.m_ctx = m_ctx,
 			.m_crawl = this_crawl,
 			.m_roots = m_roots,
-			.m_hold = this_crawl->hold_state(this_state),
+			.m_hold = this_hold,
 			.m_state = bfc_state,
 			.m_offset = this_range.begin(),
 		});
@@ -2476,9 +2478,12 @@ BeesCrawl::fetch_extents()
 		// Try to restart immediately if more transids are available.
 		return restart_crawl_unlocked();
 	}
+	// Hold the position of this item so the saved state does not advance past it before it is scanned
 	auto new_state = old_state;
-	new_state.m_objectid = max(m_next_extent_data.objectid() + m_btof.scale_size(), m_next_extent_data.objectid());
+	new_state.m_objectid = m_next_extent_data.objectid();
 	new_state.m_offset = 0;
+	m_next_hold = hold_state(new_state);
+	new_state.m_objectid = max(m_next_extent_data.objectid() + m_btof.scale_size(), m_next_extent_data.objectid());
 	set_state(new_state);
 	return true;
 }
@@ -2520,12 +2525,14 @@ BeesCrawl::peek_front()
 }
 
 BeesFileRange
-BeesCrawl::pop_front()
+BeesCrawl::pop_front(ProgressTracker<BeesCrawlState>::ProgressHolder &hold)
 {
 	unique_lock<mutex> lock(m_mutex);
 	fetch_extents_harder();
 	BtrfsTreeItem rv;
 	swap(rv, m_next_extent_data);
+	hold.reset();
+	swap(hold, m_next_hold);
 	return bti_to_bfr(rv);
 }
 
diff --git a/src/bees.h b/src/bees.h
index 7c0cfca..9e67ca3 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -529,6 +529,8 @@ class BeesCrawl {
 
 	mutex					m_state_mutex;
 	ProgressTracker<BeesCrawlState>		m_state;
+	/// Holds the position of m_next_extent_data until pop_front passes it on
+	ProgressTracker<BeesCrawlState>::ProgressHolder m_next_hold;
 
 	BtrfsTreeObjectFetcher			m_btof;
 
@@ -540,7 +542,7 @@ class BeesCrawl {
 public:
 	BeesCrawl(shared_ptr<BeesContext> ctx, BeesCrawlState initial_state);
 	BeesFileRange peek_front();
-	BeesFileRange pop_front();
+	BeesFileRange pop_front(ProgressTracker<BeesCrawlState>::ProgressHolder &hold);
 	ProgressTracker<BeesCrawlState>::ProgressHolder hold_state(const BeesCrawlState &bcs);
 	BeesCrawlState get_state_begin();
 	BeesCrawlState get_state_end() const;
-- 
2.43.0


From 36251dc08ab36b861595c8caac96bd1eb5235796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 18/30] fix: do not skip a new extent because an old one had
 the same address

The list of extents already scanned was keyed by address, offset and
length only.  Space freed and allocated again for an extent of the same
length was taken for the old extent and never read.  Add the extent
generation to the key.
---
 include/crucible/extentwalker.h | 2 ++
 lib/extentwalker.cc             | 1 +
 src/bees-context.cc             | 6 +++++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/crucible/extentwalker.h b/include/crucible/extentwalker.h
index ed4c906..c911733 100644
--- a/include/crucible/extentwalker.h
+++ b/include/crucible/extentwalker.h
@@ -17,6 +17,7 @@ namespace crucible {
 		off_t		m_physical_len = 0;
 		off_t		m_logical_len = 0;
 		off_t		m_offset = 0;
+		uint64_t	m_generation = 0;
 
 		// fiemap flags are uint32_t, so bits 32..63 are OK for us
 
@@ -38,6 +39,7 @@ namespace crucible {
 		off_t physical_len() const { return m_physical_len; }
 		off_t logical_len() const { return m_logical_len; }
 		off_t offset() const { return m_offset; }
+		uint64_t generation() const { return m_generation; }
 		bool compressed() const;
 		uint64_t bytenr() const;
 		bool operator==(const Extent &that) const;
diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index 2138d32..5133b62 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -613,6 +613,7 @@ namespace crucible {
 					e.m_physical_len = ram;
 					e.m_logical_len = len;
 					e.m_offset = offset;
+					e.m_generation = btrfs_get_member(&btrfs_file_extent_item::generation, i.m_data);
 
 					// To maintain compatibility with FIEMAP we ignore the offset for compressed extents.
 					// At some point we'll grow out of this.
diff --git a/src/bees-context.cc b/src/bees-context.cc
index e351ed0..da75ceb 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -331,6 +331,8 @@ BeesContext::rewrite_file_range(const BeesFileRange &bfr)
 
 struct BeesSeenRange {
 	uint64_t bytenr;
+	// The bytenr may be reused by a later extent with other data
+	uint64_t generation;
 	off_t offset;
 	off_t length;
 };
@@ -339,7 +341,8 @@ static
 bool
 operator<(const BeesSeenRange &bsr1, const BeesSeenRange &bsr2)
 {
-	return tie(bsr1.bytenr, bsr1.offset, bsr1.length) < tie(bsr2.bytenr, bsr2.offset, bsr2.length);
+	return tie(bsr1.bytenr, bsr1.generation, bsr1.offset, bsr1.length)
+		< tie(bsr2.bytenr, bsr2.generation, bsr2.offset, bsr2.length);
 }
 
 static
@@ -411,6 +414,7 @@ BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
 	unique_lock<mutex> lock_seen(s_seen_mutex);
 	const BeesSeenRange tup = {
 		.bytenr = e.bytenr(),
+		.generation = e.generation(),
 		.offset = e.offset(),
 		.length = e.size(),
 	};
-- 
2.43.0


From 109f2e0f0bf1db53744e9624e6017ac30bdf35b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 19/30] fix: a new subvol must start before the scans in
 progress

transid_min() ignored scans still in progress, so a snapshot taken while
its origin was being scanned started after the data not yet scanned.  If
the origin changed before its scan got there the data was never scanned.
---
 src/bees-roots.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index f0f7a3e..ed1b087 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1585,7 +1585,9 @@ BeesRoots::transid_min()
 		// They will not advance until the workaround is removed or they are set read-write.
 		catch_all([&](){
 			if (!is_root_ro(i.first)) {
-				rv = min(rv, i.second->get_state_end().m_min_transid);
+				// Include scans in progress: a snapshot may be the only place left where
+				// they would find their data
+				rv = min(rv, i.second->get_state_begin().m_min_transid);
 			}
 		});
 		last_root = i.first;
-- 
2.43.0


From 33ba38eec456366ac017b0c8afdb0769a24bd710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 20/30] fix: ignore a damaged scan state file as a whole

Lines before the first bad one used to be kept, and the roots whose lines
were lost then started at the lowest min_transid of those kept, skipping
data that was never scanned.  Reject numbers with signs or trailing garbage,
an unterminated last line and repeated roots, which the writer never makes.
---
 src/bees-roots.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index ed1b087..4be7f66 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1923,6 +1923,13 @@ BeesRoots::state_load()
 
 	string crawl_data = m_crawl_state_file.read();
 
+	// Every line is terminated, so anything else has lost its tail
+	THROW_CHECK1(out_of_range, crawl_data.size(), crawl_data.empty() || crawl_data.back() == '\n');
+
+	// A root that is not in the map starts at the lowest min_transid of the roots that are,
+	// so a damaged file must be ignored as a whole
+	map<uint64_t, BeesCrawlState> loaded_states;
+
 	for (auto line : split("\n", crawl_data)) {
 		BEESLOGDEBUG("Read line: " << line);
 		map<string, uint64_t> d;
@@ -1932,7 +1939,11 @@ BeesRoots::state_load()
 			++it;
 			THROW_CHECK1(out_of_range, words.size(), it < words.end());
 			string key = *it1;
-			uint64_t val = from_hex(*it);
+			size_t val_len = 0;
+			uint64_t val = stoull(*it, &val_len, 0);
+			// stoull accepts signs and trailing garbage, only start_ts may have the latter
+			THROW_CHECK1(out_of_range, *it, isdigit((*it)[0]));
+			THROW_CHECK1(out_of_range, *it, val_len == it->size() || key == "start_ts");
 			BEESTRACE("key " << key << " val " << val);
 			auto result = d.insert(make_pair(key, val));
 			THROW_CHECK0(runtime_error, result.second);
@@ -1957,7 +1968,12 @@ BeesRoots::state_load()
 			loaded_state.m_max_transid = loaded_state.m_min_transid;
 			BEESCOUNT(bug_bad_max_transid);
 		}
-		insert_root(loaded_state);
+		const auto result = loaded_states.insert(make_pair(loaded_state.m_root, loaded_state));
+		THROW_CHECK1(out_of_range, loaded_state.m_root, result.second);
+	}
+
+	for (const auto &i : loaded_states) {
+		insert_root(i.second);
 	}
 }
 
-- 
2.43.0


From 759b3d86e0375be25a3a65ef1300dd6d7c02e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 21/30] fix: flush the hash table after the crawl state on exit

The hash table was asked to stop first, so an extent finished between its
last flush and the saving of the crawl state was recorded as scanned while
its hashes were lost.
---
 src/bees-context.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/bees-context.cc b/src/bees-context.cc
index da75ceb..94a9407 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -1183,6 +1183,15 @@ BeesContext::stop()
 		BEESLOGDEBUG("Crawlers not running");
 	}
 
+	// Wait for crawler writeback to finish
+	BEESNOTE("waiting for crawlers to stop");
+	BEESLOGDEBUG("Waiting for crawlers to stop");
+	if (m_roots) {
+		m_roots->stop_wait();
+	}
+
+	// Flush the hash table after the crawl state, because the extents
+	// behind the saved positions will not be scanned again
 	BEESNOTE("stopping and flushing hash table");
 	BEESLOGDEBUG("Stopping and flushing hash table");
 	if (m_hash_table) {
@@ -1191,13 +1200,6 @@ BeesContext::stop()
 		BEESLOGDEBUG("Hash table not running");
 	}
 
-	// Wait for crawler writeback to finish
-	BEESNOTE("waiting for crawlers to stop");
-	BEESLOGDEBUG("Waiting for crawlers to stop");
-	if (m_roots) {
-		m_roots->stop_wait();
-	}
-
 	// It is now no longer possible to update progress in $BEESHOME,
 	// so we can destroy Tasks with reckless abandon.
 	BEESNOTE("setting stop_request flag");
-- 
2.43.0


From bb5377c9b4a3acba3d872393849e511413e535d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 22/30] fix: exit with an error after an unknown option

---
 src/bees.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bees.cc b/src/bees.cc
index 39f57ea..67eddcf 100644
--- a/src/bees.cc
+++ b/src/bees.cc
@@ -840,6 +840,12 @@ bees_main(int argc, char *argv[])
 			break;
 		}
 
+		// getopt_long reported an unknown option or a missing or unexpected argument
+		if ('?' == c) {
+			do_cmd_help(argv);
+			return EXIT_FAILURE;
+		}
+
 		// getopt_long should have weeded out any invalid options,
 		// so we can go ahead and throw here
 		BEESLOGDEBUG("Parsing option '" << option_vals.at(c) << "'");
-- 
2.43.0


From e649d1565f98246da691f591af16b1c8f1fa7a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 23/30] fix: validate numeric option arguments before touching
 the filesystem

---
 src/bees.cc | 51 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/bees.cc b/src/bees.cc
index 67eddcf..1b7d6db 100644
--- a/src/bees.cc
+++ b/src/bees.cc
@@ -11,6 +11,7 @@
 #include <cstdio>
 
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <regex>
 #include <sstream>
@@ -49,6 +50,31 @@ do_cmd_help(char *argv[])
 	fprintf(stdout, BEES_USAGE, argv[0]);
 }
 
+// Numeric option arguments: the whole argument must be a number in range
+
+static
+unsigned
+parse_unsigned(const string &arg, unsigned max_value = numeric_limits<unsigned>::max())
+{
+	size_t used = 0;
+	THROW_CHECK1(invalid_argument, arg, !arg.empty() && isdigit(static_cast<unsigned char>(arg.at(0))));
+	const auto rv = stoull(arg, &used);
+	THROW_CHECK1(invalid_argument, arg, used == arg.size());
+	THROW_CHECK2(out_of_range, arg, max_value, rv <= max_value);
+	return rv;
+}
+
+static
+double
+parse_double(const string &arg)
+{
+	size_t used = 0;
+	const auto rv = stod(arg, &used);
+	THROW_CHECK1(invalid_argument, arg, used == arg.size());
+	THROW_CHECK1(out_of_range, arg, isfinite(rv) && rv >= 0);
+	return rv;
+}
+
 // static inline helpers ----------------------------------------
 
 string
@@ -853,13 +879,13 @@ bees_main(int argc, char *argv[])
 		switch (c) {
 
 			case 'C':
-				thread_factor = stod(optarg);
+				thread_factor = parse_double(optarg);
 				break;
 			case BEES_OPT_THROTTLE_FACTOR:
-				bees_throttle_factor = stod(optarg);
+				bees_throttle_factor = parse_double(optarg);
 				break;
 			case 'G':
-				thread_min = stoul(optarg);
+				thread_min = parse_unsigned(optarg);
 				break;
 			case 'P':
 				use_relative_paths = true;
@@ -871,13 +897,13 @@ bees_main(int argc, char *argv[])
 				workaround_btrfs_send = true;
 				break;
 			case 'c':
-				thread_count = stoul(optarg);
+				thread_count = parse_unsigned(optarg);
 				break;
 			case 'g':
-				load_target = stod(optarg);
+				load_target = parse_double(optarg);
 				break;
 			case 'm':
-				root_scan_mode = static_cast<BeesRoots::ScanMode>(stoul(optarg));
+				root_scan_mode = static_cast<BeesRoots::ScanMode>(parse_unsigned(optarg, BeesRoots::SCAN_MODE_COUNT - 1));
 				break;
 			case 'p':
 				use_relative_paths = false;
@@ -886,13 +912,8 @@ bees_main(int argc, char *argv[])
 				chatter_prefix_timestamp = true;
 				break;
 			case 'v':
-				{
-					int new_log_level = stoul(optarg);
-					THROW_CHECK1(out_of_range, new_log_level, new_log_level <= 8);
-					THROW_CHECK1(out_of_range, new_log_level, new_log_level >= 0);
-					bees_log_level = new_log_level;
-					BEESLOGNOTICE("log level set to " << bees_log_level);
-				}
+				bees_log_level = parse_unsigned(optarg, 8);
+				BEESLOGNOTICE("log level set to " << bees_log_level);
 				break;
 
 			case 'h':
@@ -930,7 +951,9 @@ bees_main(int argc, char *argv[])
 		if (thread_factor == 0) {
 			thread_factor = BEES_DEFAULT_THREAD_FACTOR;
 		}
-		thread_count = max(1U, static_cast<unsigned>(ceil(thread::hardware_concurrency() * thread_factor)));
+		const double thread_limit = ceil(thread::hardware_concurrency() * thread_factor);
+		THROW_CHECK1(out_of_range, thread_factor, thread_limit <= numeric_limits<unsigned>::max());
+		thread_count = max(1U, static_cast<unsigned>(thread_limit));
 	}
 
 	if (load_target != 0) {
-- 
2.43.0


From 6c87df6b29d3d07951fdf940c52bb19fd819d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 24/30] fix: reject subvols of another filesystem when opening
 by root id

---
 src/bees-roots.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 4be7f66..2979087 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -2133,6 +2133,14 @@ BeesRoots::open_root_nocache(uint64_t rootid)
 	THROW_CHECK2(runtime_error, new_root_id, rootid, new_root_id == rootid);
 	Stat st(rv);
 	THROW_CHECK1(runtime_error, st.st_ino, st.st_ino == BTRFS_FIRST_FREE_OBJECTID);
+
+	// Verify correct filesystem.  Without openat2, some other btrfs
+	// mounted on the path can have a subvol with the same root ID.
+	BtrfsIoctlFsInfoArgs root_info;
+	root_info.do_ioctl(m_ctx->root_fd());
+	BtrfsIoctlFsInfoArgs subvol_info;
+	subvol_info.do_ioctl(rv);
+	THROW_CHECK1(runtime_error, rootid, subvol_info.fsid() == root_info.fsid());
 	// BEESLOGDEBUG("open_root_nocache " << rootid << ": " << name_fd(rv));
 
 	BEESCOUNT(root_ok);
-- 
2.43.0


From 579f67d1b72ebae5e085e6ead8567c50ba48432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 25/30] fix: do not dedupe into a subvol that became read-only
 during the wait

---
 src/bees-context.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bees-context.cc b/src/bees-context.cc
index 94a9407..42beb92 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -251,6 +251,11 @@ BeesContext::dedup(const BeesRangePair &brp_in)
 		 << "       dst " << pretty(brp.second.size()) << " [" << to_hex(brp.second.begin()) << ".." << to_hex(brp.second.end()) << "] {" << second_addr << "} " << name_fd(brp.second.fd()));
 
 	while (true) {
+		// The subvol may have become read-only while we were waiting
+		if (is_root_ro(brp_in.second.fid().root())) {
+			BEESCOUNT(dedup_workaround_btrfs_send);
+			return false;
+		}
 		try {
 			Timer dedup_timer;
 			const bool rv = btrfs_extent_same(brp.first.fd(), brp.first.begin(), brp.first.size(), brp.second.fd(), brp.second.begin());
-- 
2.43.0


From 7d5ef0dc8ccb9689e10b58ef47f30b005e006da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 26/30] fix: do not remember a failure to open a subvol

One temporary error (e.g. too many open files) while opening a subvol was
cached, so every file scanned in that subvol until the cache was cleared
was skipped for good.
---
 src/bees-context.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bees-context.cc b/src/bees-context.cc
index 42beb92..45bb000 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -56,7 +56,13 @@ BeesFdCache::clear()
 Fd
 BeesFdCache::open_root(uint64_t root)
 {
-	return m_root_cache(root);
+	const auto rv = m_root_cache(root);
+	if (!rv) {
+		// The error might be temporary, so don't remember it,
+		// or we will skip every file in the subvol
+		m_root_cache.expire(root);
+	}
+	return rv;
 }
 
 Fd
-- 
2.43.0


From a3c051214a6f5efe1fe50ca063fa74285ad3f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 27/30] fix: look at the zero block itself when a match grows
 forward

The first block of the match was looked up instead.  Holes of a copied
range were taken for stored zeros when the extent had a second reference,
which kept the zeros and the old extent allocated.
---
 src/bees-types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees-types.cc b/src/bees-types.cc
index 665f20d..2f26a80 100644
--- a/src/bees-types.cc
+++ b/src/bees-types.cc
@@ -523,7 +523,7 @@ BeesRangePair::grow(shared_ptr<BeesContext> ctx, bool constrained)
 		}
 
 		// Source block cannot be zero in a non-compressed non-magic extent
-		BeesAddress first_addr(first.fd(), new_first.begin());
+		BeesAddress first_addr(first.fd(), first.end());
 		if (first_bbd.is_data_zero() && !first_addr.is_magic() && !first_addr.is_compressed()) {
 			BEESCOUNT(pairforward_zero);
 			break;
-- 
2.43.0


From c361329af5f39b81e73bce12b4d97726ab3ef6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 28/30] fix: keep the rest of a match that overlaps another one

A match that begins with or before a shorter one and ends behind it lost
its end, or all of it, and the blocks were copied instead of deduplicated.
---
 src/bees-context.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bees-context.cc b/src/bees-context.cc
index 45bb000..fa61575 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -678,7 +678,7 @@ BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
 				break;
 			}
 			// i begins outside j, i ends inside j, remove the end of i
-			if (i.second.end() > j.second.begin() && i.second.begin() <= j.second.begin()) {
+			if (i.second.begin() <= j.second.begin() && i.second.end() <= j.second.end()) {
 				const auto delta = i.second.end() - j.second.begin();
 				if (delta == i.second.size()) {
 					insert_i = false;
@@ -688,7 +688,7 @@ BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
 				continue;
 			}
 			// i begins inside j, ends outside j, remove the begin of i
-			if (i.second.begin() < j.second.end() && i.second.end() >= j.second.end()) {
+			if (i.second.begin() >= j.second.begin() && i.second.end() >= j.second.end()) {
 				const auto delta = j.second.end() - i.second.begin();
 				if (delta == i.second.size()) {
 					insert_i = false;
@@ -701,7 +701,7 @@ BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
 			if (j.second.begin() > i.second.begin() && j.second.end() < i.second.end()) {
 				auto other_i = i;
 				const auto end_left_delta = i.second.end() - j.second.begin();
-				const auto begin_right_delta = i.second.begin() - j.second.end();
+				const auto begin_right_delta = j.second.end() - i.second.begin();
 				i.shrink_end(end_left_delta);
 				other_i.shrink_begin(begin_right_delta);
 				dedupe_list.push_back(other_i);
-- 
2.43.0


From ed49b1068b6fd1d13d68027fbcad6e26f2055acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 29/30] fix: do not rewrite an extent by references looked up
 before it changed

The cached references of a compressed extent no longer match after some
of them were replaced: data was copied, but the copies were not used.
---
 src/bees-context.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bees-context.cc b/src/bees-context.cc
index fa61575..9cb7f25 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -311,7 +311,10 @@ BeesContext::rewrite_file_range(const BeesFileRange &bfr)
 	BeesBlockData dup_bbd(dup_brp.first.fd(), dup_brp.first.begin(), min(BLOCK_SIZE_SUMS, dup_brp.first.size()));
 	// BEESLOG("BeesResolver br(..., " << bfr << ")");
 	BEESTRACE("BeesContext::rewrite_file_range calling BeesResolver " << bfr);
-	BeesResolver br(m_ctx, BeesAddress(bfr.fd(), bfr.begin()));
+	const BeesAddress orig_addr(bfr.fd(), bfr.begin());
+	// Earlier dedupes may have moved or removed references to this extent
+	m_ctx->invalidate_addr(orig_addr);
+	BeesResolver br(m_ctx, orig_addr);
 	BEESTRACE("BeesContext::rewrite_file_range calling replace_src " << dup_bbd);
 	// BEESLOG("\treplace_src " << dup_bbd);
 	br.replace_src(dup_bbd);
-- 
2.43.0


From da764b7eb5f1e66205ffb6512560bcb92a0a8258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 30/30] fix: do not grow a match into the extent it is to
 replace

When the source is followed by the destination extent, blocks of the
extent were deduplicated with other blocks of it, which kept it allocated.
---
 src/bees-types.cc | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/bees-types.cc b/src/bees-types.cc
index 2f26a80..7ad369e 100644
--- a/src/bees-types.cc
+++ b/src/bees-types.cc
@@ -325,6 +325,19 @@ BeesRangePair::operator<(const BeesRangePair &that) const
 	return tie(second, first) < tie(that.second, that.first);
 }
 
+// True if an address is a block of an (uncompressed) extent
+static
+bool
+is_in_extent(const BeesAddress &addr, const Extent &e)
+{
+	if (addr.is_magic() || addr.is_compressed() || !e.physical() || (e.flags() & FIEMAP_EXTENT_ENCODED)) {
+		return false;
+	}
+	const auto gpoz = addr.get_physical_or_zero();
+	const BeesAddress::Type begin = e.physical();
+	return gpoz >= begin && gpoz - begin < BeesAddress::Type(e.size());
+}
+
 bool
 BeesRangePair::grow(shared_ptr<BeesContext> ctx, bool constrained)
 {
@@ -421,6 +434,12 @@ BeesRangePair::grow(shared_ptr<BeesContext> ctx, bool constrained)
 			break;
 		}
 
+		// Source block must not be in the extent we are trying to replace
+		if (is_in_extent(first_bbd.addr(), e_second)) {
+			BEESCOUNT(pairbackward_same);
+			break;
+		}
+
 		// Source block cannot be zero in a non-compressed non-magic extent
 		BeesAddress first_addr(first.fd(), new_first.begin());
 		if (first_bbd.is_data_zero() && !first_addr.is_magic() && !first_addr.is_compressed()) {
@@ -522,6 +541,12 @@ BeesRangePair::grow(shared_ptr<BeesContext> ctx, bool constrained)
 			break;
 		}
 
+		// Source block must not be in the extent we are trying to replace
+		if (is_in_extent(first_bbd.addr(), e_second)) {
+			BEESCOUNT(pairforward_same);
+			break;
+		}
+
 		// Source block cannot be zero in a non-compressed non-magic extent
 		BeesAddress first_addr(first.fd(), first.end());
 		if (first_bbd.is_data_zero() && !first_addr.is_magic() && !first_addr.is_compressed()) {
-- 
2.43.0

