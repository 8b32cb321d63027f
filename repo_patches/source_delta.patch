From 141506da27633c7a5aef717182dbd03fb01daeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 01/56] fix: do not count refused requests as usage when the
 limit is enforced by throwing

---
 tpie/resource_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/resource_manager.cpp b/tpie/resource_manager.cpp
index 49a54cd..832b73a 100644
--- a/tpie/resource_manager.cpp
+++ b/tpie/resource_manager.cpp
@@ -57,6 +57,8 @@ void resource_manager::register_increased_usage(size_t amount) {
 	case ENFORCE_THROW: {
 		size_t usage = m_used.fetch_add(amount) + amount;
 		if (usage > m_limit && m_limit > 0) {
+			// The request is refused, so it must not count as usage.
+			m_used.fetch_sub(amount);
 			std::stringstream ss;
 			print_resource_complaint(ss, amount, usage);
 			throw_out_of_resource_error(ss.str());
-- 
2.43.0


From 19dee2819078f339e85fa3cfae0a82d68c89f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 02/56] fix: give back the registered bytes when
 tpie::allocator cannot allocate

---
 tpie/memory.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 2f5a5d7..9c78d32 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -398,8 +398,14 @@ public:
 
     T * allocate(size_t size) {
 		get_memory_manager().register_allocation(size * sizeof(T), typeid(T));
+		T * res;
+		try {
+			res = a.allocate(size);
+		} catch (...) {
+			get_memory_manager().register_deallocation(size * sizeof(T), typeid(T));
+			throw;
+		}
 		if (bucket) bucket->count += size * sizeof(T);
-		T * res = a.allocate(size);
 		return res;
     }
 
-- 
2.43.0


From 73bc209396046a295b98fbe9c8a04ea437c2d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 03/56] fix: do not dynamic_cast an object whose constructor
 threw in tpie_new

---
 tpie/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 9c78d32..c0bd519 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -235,7 +235,9 @@ struct allocation_scope_magic {
 	}
 	
 	~allocation_scope_magic() {
-		tpie_deallocate(data);
+		// data is the address allocate() returned, but it does not point to a
+		// constructed object, so tpie_deallocate() may not inspect its type.
+		if (data) delete[] (reinterpret_cast<uint8_t *>(data) - (std::is_polymorphic<T>::value ? sizeof(size_t) : 0));
 		if (deregister) get_memory_manager().register_deallocation(deregister, typeid(T));
 	}
 };
-- 
2.43.0


From f0d41397afaf522613d2ebefdd2619736e012dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 04/56] fix: report an unexpected end of file instead of
 reading forever

---
 tpie/file_accessor/posix.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 1c08c44..feee7b5 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -75,6 +75,8 @@ inline void posix::read_i(void * data, memory_size_type size) {
 		memory_offset_type bytesRead = ::read(m_fd, data, size);
 		if (bytesRead == -1)
 			throw_errno();
+		if (bytesRead == 0 && size != 0)
+			throw io_exception("Unexpected end of file");
 		data = static_cast<char *>(data) + bytesRead;
 		size -= bytesRead;
 		increment_bytes_read(bytesRead);
-- 
2.43.0


From fd8c39c3807dce90dd23b608aac262a512558283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 05/56] fix: forget the file descriptor even if closing it
 reports an error

---
 tpie/file_accessor/posix.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index feee7b5..978d9f7 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -145,9 +145,11 @@ bool posix::is_open() const {
 
 void posix::close_i() {
 	if (m_fd == -1) return;
-	if (::close(m_fd) == -1) throw_errno();
-	get_file_manager().decrement_open_file_count();
+	// The descriptor is gone no matter what close() reports.
+	const int fd = m_fd;
 	m_fd = -1;
+	get_file_manager().decrement_open_file_count();
+	if (::close(fd) == -1) throw_errno();
 }
 
 void posix::truncate_i(stream_size_type bytes) {
-- 
2.43.0


From d96f21afd28479f4098a6d24fe38b16489343144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 06/56] fix: close the descriptor when the open file limit
 refuses it

---
 tpie/file_accessor/posix.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 978d9f7..ae18372 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -111,7 +111,13 @@ void posix::_open(const std::string & path, int flags, mode_t mode = 0755) {
 	if (m_fd == -1) {
 		return;
 	}
-	get_file_manager().increment_open_file_count();
+	try {
+		get_file_manager().increment_open_file_count();
+	} catch (...) {
+		::close(m_fd);
+		m_fd = -1;
+		throw;
+	}
 	give_advice();
 }
 
-- 
2.43.0


From 778d111a5479d7dc13f0ac86710d894da0a73510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 07/56] fix: close the file when opening a stream on it fails

---
 tpie/file_accessor/stream_accessor_base.inl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index d3bcf21..42916cb 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -134,6 +134,14 @@ void stream_accessor_base<file_accessor_t>::open(const std::string & path,
 	m_lastBlockReadOffset = std::numeric_limits<stream_size_type>::max();
 	if (!write && !read)
 		throw invalid_argument_exception("Either read or write must be specified");
+	// Until the header is in order the stream is not open, so close() would not
+	// close the file.
+	struct close_on_error {
+		file_accessor_t * file;
+		~close_on_error() {
+			if (file) try { file->close_i(); } catch (...) {}
+		}
+	} guard{&m_fileAccessor};
 	if (write && !read) {
 		m_fileAccessor.open_wo(path);
 		write_header(false);
@@ -151,6 +159,7 @@ void stream_accessor_base<file_accessor_t>::open(const std::string & path,
 			write_header(false);
 		}
 	}
+	guard.file = nullptr;
 	m_open = true;
 	if (write && m_maxUserDataSize < maxUserDataSize) {
 		close();
-- 
2.43.0


From 74ed7a9043e806b846d4852fb885ac8d98556eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 08/56] fix: bound the user statistics by the number of
 counters, not by their size in bytes

---
 tpie/stats.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/stats.cpp b/tpie/stats.cpp
index 1c36d70..da11665 100644
--- a/tpie/stats.cpp
+++ b/tpie/stats.cpp
@@ -64,11 +64,11 @@ namespace tpie {
 	}
 
 	stream_size_type get_user(size_t i) {
-		return (i < sizeof(user)) ? user[i].load() : 0;
+		return (i < sizeof(user)/sizeof(user[0])) ? user[i].load() : 0;
 	}
 
 	void increment_user(size_t i, stream_size_type delta) {
-		if (i < sizeof(user)) user[i].fetch_add(delta);
+		if (i < sizeof(user)/sizeof(user[0])) user[i].fetch_add(delta);
 	}
 }  //  tpie namespace
 
-- 
2.43.0


From e76e0f744ce8e88bb12ecbf2858658a4a8995894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 09/56] fix: stop counting a temporary file that was already
 removed as temporary file usage

---
 tpie/tempname.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 7c84c21..a551646 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -300,10 +300,11 @@ namespace tpie {
 namespace bits {
 
 temp_file_inner::~temp_file_inner() {
-	if (m_path.empty() || m_persist || !std::filesystem::exists(m_path))
+	if (m_path.empty() || m_persist)
 		return;
 
-	std::filesystem::remove(m_path);
+	if (std::filesystem::exists(m_path))
+		std::filesystem::remove(m_path);
 	update_recorded_size(0);
 }
 
-- 
2.43.0


From 2d59713c04b735da0a6d4a6dfca4fdea47b8a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 10/56] fix: finish the progress databases when they were
 initialised for capturing fractions

---
 tpie/tpie.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/tpie.cpp b/tpie/tpie.cpp
index bba9a2e..35297ad 100644
--- a/tpie/tpie.cpp
+++ b/tpie/tpie.cpp
@@ -69,7 +69,7 @@ TPIE_EXPORT void tpie_finish(flags<subsystem> subsystems) {
 	if (subsystems & JOB_MANAGER)
 		finish_job();
 
-    if (subsystems & PROGRESS)  {
+    if ((subsystems & PROGRESS) || (subsystems & CAPTURE_FRACTIONS))  {
 		finish_execution_time_db();
 		finish_fraction_db();
 	}
-- 
2.43.0


From d9004e979c004dd3f260e5c577c95911b0485571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 11/56] fix: locate the storage of a polymorphic object before
 destroying it in tpie_delete

---
 tpie/memory.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index c0bd519..206c6e2 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -282,8 +282,11 @@ template <typename T>
 inline void tpie_delete(T * p) throw() {
 	if (p == 0) return;
 	get_memory_manager().register_deallocation(tpie_size(p), typeid(*p));
+	// The start of a polymorphic object cannot be found once it is destroyed.
+	uint8_t * storage = ptr_cast<uint8_t *>(p);
+	if (std::is_polymorphic<T>::value) storage -= sizeof(size_t);
 	p->~T();
-	tpie_deallocate(p);
+	delete[] storage;
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From dc2fd9e57e008deb0a6438837762c2bdda09bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 12/56] fix: use the default extension in tempname::tpie_name
 as documented

---
 tpie/tempname.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index a551646..a489cd1 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -201,6 +201,7 @@ namespace tpie {
 }
 
 std::string tempname::tpie_name(const std::string& post_base, const std::string& dir, const std::string& ext) {
+	if (ext.empty() && !default_extension.empty()) return gen_temp(post_base, dir, "." + default_extension);
 	if (ext.empty()) return gen_temp(post_base, dir, ".tpie");
 	else return gen_temp(post_base, dir, "." + ext);
 }
-- 
2.43.0


From 95d1f2e4910f29bbec494024dbbf2c9ea48ccd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 13/56] fix: fall back to the parent directory in
 tempname::set_default_path when the subdirectory is unusable

---
 tpie/tempname.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index a489cd1..ca7a0fb 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -266,6 +266,7 @@ void tempname::set_default_path(const std::string&  path, const std::string& sub
 			default_path = path;
 			subdirs.push(""); // signals that the current global subdirectory has not been created yet
 			TP_LOG_WARNING_ID("Could not use " << p << " as directory for temporary files, trying " << path);
+			return;
 		}
 
 		default_path = p.string();
@@ -273,6 +274,7 @@ void tempname::set_default_path(const std::string&  path, const std::string& sub
 	} catch (std::filesystem::filesystem_error &) {
 		TP_LOG_WARNING_ID("Could not use " << p << " as directory for temporary files, trying " << path);
 		default_path = path; 
+		subdirs.push(""); // signals that the current global subdirectory has not been created yet
 	}	
 }
 
-- 
2.43.0


From 43bcd410e661512587b6beeaaba8e979f99a1e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 14/56] fix: seek relative to the current position when a block
 is pending, and never past the end of the stream

---
 tpie/stream_crtp.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index 3edd784..d4be774 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -54,10 +54,14 @@ public:
 			offset += self().size();
 		else if (whence == current) {
 			// are we seeking into the current block?
-			if (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index) {
+			// (m_index is maxint when there is no current block or a seek to
+			// another block is pending)
+			if (m_index != std::numeric_limits<memory_size_type>::max()
+				&& (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index)) {
 				stream_size_type new_index = static_cast<stream_offset_type>(offset+m_index);
 
-				if (new_index < self().get_file().block_items()) {
+				if (new_index < self().get_file().block_items()
+					&& (offset <= 0 || m_blockStartIndex + new_index <= self().size())) {
 					self().update_vars();
 					m_index = static_cast<memory_size_type>(new_index);
 					return;
-- 
2.43.0


From 87063af348837b8d2a49afebd667b63e2a4b689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 15/56] fix: leave the stream position alone when reading at
 the end of the stream

---
 tpie/file.h                | 2 +-
 tpie/uncompressed_stream.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/file.h b/tpie/file.h
index 9ba4e10..928214c 100644
--- a/tpie/file.h
+++ b/tpie/file.h
@@ -101,10 +101,10 @@ public:
  		inline item_type & read_mutable() {
 			assert(get_file().is_open());
 			if (m_index >= m_block->size) {
-				update_block();
 				if (offset() >= get_file().size()) {
 					throw end_of_stream_exception();
 				}
+				update_block();
 			}
 			return reinterpret_cast<T*>(m_block->data)[m_index++];
 		}
diff --git a/tpie/uncompressed_stream.h b/tpie/uncompressed_stream.h
index 4c1bb82..f7ee015 100644
--- a/tpie/uncompressed_stream.h
+++ b/tpie/uncompressed_stream.h
@@ -123,10 +123,10 @@ public:
 	const item_type & peek() {
 		assert(m_open);
 		if (m_index >= m_block.size) {
-			update_block();
 			if (offset() >= size()) {
 				throw end_of_stream_exception();
 			}
+			update_block();
 		}
 		return reinterpret_cast<item_type*>(m_block.data)[m_index];
 	}
-- 
2.43.0


From 8982a34c69e02590f4a1dd1cdd227dda15ed748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 16/56] fix: do not read an array past the end of the stream
 within the current block

---
 tpie/stream_crtp.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index d4be774..9ac0165 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -170,19 +170,18 @@ protected:
 	static inline void read_array(Stream & stream, const IT & start, const IT & end) {
 		typedef typename Stream::item_type T;
 		IT i = start;
-		while (i != end) {
-			if (stream.m_index >= stream.block_items()) {
-				// check to make sure we have enough items in the stream
-				stream_size_type offs = stream.offset();
-				if (offs >= stream.size()
-					|| offs + (end-i) > stream.size()) {
-
-					throw end_of_stream_exception();
-				}
+		if (i != end) {
+			// check to make sure we have enough items in the stream
+			stream_size_type offs = stream.offset();
+			if (offs >= stream.size()
+				|| offs + (end-i) > stream.size()) {
 
-				// fetch next block from disk
-				stream.update_block();
+				throw end_of_stream_exception();
 			}
+		}
+		while (i != end) {
+			// fetch next block from disk
+			if (stream.m_index >= stream.block_items()) stream.update_block();
 
 			T * src = reinterpret_cast<T*>(stream.get_block().data) + stream.m_index;
 
-- 
2.43.0


From c75b021aa7ef92a5cc176258590cea8d98ec1906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 17/56] fix: initialise the block of a default constructed file
 stream

---
 tpie/file_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/file_base.h b/tpie/file_base.h
index 59c0966..56d6c8d 100644
--- a/tpie/file_base.h
+++ b/tpie/file_base.h
@@ -151,7 +151,7 @@ public:
 		///////////////////////////////////////////////////////////////////////
 		stream(file_base & file, stream_size_type offset=0);
 
-		stream() : m_file(0) {}
+		stream() : m_file(0), m_block(0) {}
 
 	private:
 		///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 32de2f19d65f13882e6629535d8cec9ba70d8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 18/56] fix: free the file accessor of an uncompressed stream

---
 tpie/file_stream_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/file_stream_base.h b/tpie/file_stream_base.h
index 2608d94..00bc219 100644
--- a/tpie/file_stream_base.h
+++ b/tpie/file_stream_base.h
@@ -85,6 +85,7 @@ protected:
 
 	inline ~file_stream_base() {
 		close();
+		delete m_fileAccessor;
 	}
 
 	void swap(file_stream_base & other) {
-- 
2.43.0


From b2def9e5a4134168d41386a4e9fb782ee3de22aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 19/56] fix: do not take the buffer for the requested block
 when reading the block failed

---
 tpie/file_base_crtp.inl | 17 +++++++++++------
 tpie/stream_crtp.h      |  5 ++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/tpie/file_base_crtp.inl b/tpie/file_base_crtp.inl
index a131b20..47b84e8 100644
--- a/tpie/file_base_crtp.inl
+++ b/tpie/file_base_crtp.inl
@@ -19,6 +19,7 @@
 
 #include <tpie/file_base_crtp.h>
 #include <tpie/file_accessor/file_accessor.h>
+#include <limits>
 
 namespace tpie {
 
@@ -43,19 +44,23 @@ file_base_crtp<child_t>::file_base_crtp(
 template <typename child_t>
 template <typename BT>
 void file_base_crtp<child_t>::read_block(BT & b, stream_size_type block) {
+	// if reading fails, the buffer holds no block
 	b.dirty = false;
-	b.number = block;
+	b.number = std::numeric_limits<stream_size_type>::max();
+	b.size = 0;
 
 	// calculate buffer size
-	b.size = m_blockItems;
-	if (static_cast<stream_size_type>(b.size) + b.number * static_cast<stream_size_type>(m_blockItems) > self().size())
-		b.size = static_cast<memory_size_type>(self().size() - block * m_blockItems);
+	memory_size_type size = m_blockItems;
+	if (static_cast<stream_size_type>(size) + block * static_cast<stream_size_type>(m_blockItems) > self().size())
+		size = static_cast<memory_size_type>(self().size() - block * m_blockItems);
 
 	// populate buffer data
-	if (b.size > 0 &&
-		m_fileAccessor->read_block(b.data, b.number, b.size) != b.size) {
+	if (size > 0 &&
+		m_fileAccessor->read_block(b.data, block, size) != size) {
 		throw io_exception("Incorrect number of items read");
 	}
+	b.number = block;
+	b.size = size;
 }
 
 template <typename child_t>
diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index 9ac0165..1b08595 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -54,9 +54,8 @@ public:
 			offset += self().size();
 		else if (whence == current) {
 			// are we seeking into the current block?
-			// (m_index is maxint when there is no current block or a seek to
-			// another block is pending)
-			if (m_index != std::numeric_limits<memory_size_type>::max()
+			// (not when another block is pending)
+			if (m_nextBlock == std::numeric_limits<stream_size_type>::max()
 				&& (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index)) {
 				stream_size_type new_index = static_cast<stream_offset_type>(offset+m_index);
 
-- 
2.43.0


From e1bb27b6bcee1208a1757f39a028a2a158b7f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 20/56] fix: keep a block in use when writing it back failed

---
 tpie/file_base.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tpie/file_base.cpp b/tpie/file_base.cpp
index aecbd2b..d06d0a6 100644
--- a/tpie/file_base.cpp
+++ b/tpie/file_base.cpp
@@ -98,13 +98,16 @@ file_base::block_t * file_base::get_block(stream_size_type block) {
 
 void file_base::free_block(block_t * block) {
 	assert(block->usage > 0);
-	--block->usage;
-	if (block->usage > 0) return;
+	if (block->usage > 1) {
+		--block->usage;
+		return;
+	}
 
 	if (block->dirty || !m_canRead) {
 		assert(m_canWrite);
 		m_fileAccessor->write_block(block->data, block->number, block->size);
 	}
+	block->usage = 0;
 
 	boost::intrusive::list<block_t>::iterator i = m_used.iterator_to(*block);
 
-- 
2.43.0


From 6bb71e819054ff78d3eb5eaadd345ac9f596c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 21/56] fix: do not attach a stream to a file whose block could
 not be allocated

---
 tpie/file_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/file_base.cpp b/tpie/file_base.cpp
index d06d0a6..9c55fa9 100644
--- a/tpie/file_base.cpp
+++ b/tpie/file_base.cpp
@@ -155,10 +155,11 @@ void file_base::stream::free() {
 
 void file_base::stream::attach_inner(file_base & f) {
 	detach_inner();
+	// This may throw, so do it while the stream is still detached.
+	f.create_block();
 	m_file = &f;
 	m_blockStartIndex = 0;
 	m_block = &m_file->m_emptyBlock;
-	m_file->create_block();
 	initialize();
 	seek(0);
 }
-- 
2.43.0


From deae8bcaae8a0e64116b31a7c04320b0d86b51ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 22/56] fix: file_stream::read_back must forget the cached
 writes

A write after write(), read_back() took the fast path and enlarged the
stream by an item that was never written.
---
 tpie/compressed/stream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/compressed/stream.h b/tpie/compressed/stream.h
index e0bcf8c..c78fc37 100644
--- a/tpie/compressed/stream.h
+++ b/tpie/compressed/stream.h
@@ -475,6 +475,8 @@ public:
 	const T & read_back() {
 		if (m_seekState != seek_state::none || m_nextItem == m_bufferBegin) read_back_unlikely();
 		++m_cachedReads;
+		// We are no longer at the end of the stream, so the next write does not append.
+		m_cachedWrites = 0;
 		--m_offset;
 		m_nextItem -= sizeof(T);
 		return *reinterpret_cast<const T *>(m_nextItem);
-- 
2.43.0


From 7461550ca2d108ab143083edd410bed11d0427fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 23/56] fix: file_stream::set_position within the current block
 must forget cached reads and writes

The cached counts belong to the old position: afterwards read() ran past
the end of the stream and write() went to the wrong place.
---
 tpie/compressed/stream_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index ee6a856..f5604f2 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1181,6 +1181,7 @@ stream_position compressed_stream_base::get_position() {
 }
 
 void compressed_stream_base::set_position(const stream_position & pos) {
+	m_p->uncache_read_writes();
 	m_p->m_updateReadOffsetFromWrite = false;
 	
 	// If the code is correct, short circuiting is not necessary;
@@ -1221,7 +1222,6 @@ void compressed_stream_base::set_position(const stream_position & pos) {
 	
 	m_p->m_nextPosition = pos;
 	m_seekState = seek_state::position;
-	m_p->uncache_read_writes();
 }
 
 bool compressed_stream_base::is_readable() const noexcept { return m_p->m_canRead; }
-- 
2.43.0


From 9d753d240a9b730b6708138c08b9c5bd39d00725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 24/56] fix: truncating a file_stream to zero forgets the block
 info after pending writes are done

A pending write left the number of a block that no longer exists, and
later positions were refused or came out wrong.  The response was also
changed without the compressor lock.
---
 tpie/compressed/stream_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index f5604f2..92d4a26 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -400,10 +400,10 @@ public:
 	void truncate_zero() {
 		// No need to flush block
 		m_buffer.reset();
-		m_response.clear_block_info();
 		m_updateReadOffsetFromWrite = false;
 		compressor_thread_lock l(compressor());
 		finish_requests(l);
+		m_response.clear_block_info();
 		get_buffer(l, 0);
 		m_o->m_size = 0;
 		m_streamBlocks = 0;
-- 
2.43.0


From 29b1807480d6fd24f7df8323ab275204c1cdb899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 25/56] fix: truncating a compressed file_stream at a block
 boundary leaves no empty block behind

The block after the boundary was kept with no items in it and written out,
and after that the stream could not be read past it or appended to.
---
 tpie/compressed/stream_base.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 92d4a26..3cccced 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -464,6 +464,25 @@ public:
 		stream_size_type offset = pos.offset();
 		stream_position finalDestination = (offset < m_o->offset()) ? pos : m_o->get_position();
 	
+		if (block_item_index(offset) == 0) {
+			// We are truncating at the end of a block. The block after it goes away,
+			// and the block itself, which is now the last one, does not change.
+			m_nextPosition = pos;
+			m_o->m_seekState = compressed_stream_base::seek_state::position;
+			perform_seek(read_direction::backward);
+			{
+				compressor_thread_lock l(compressor());
+				m_byteStreamAccessor.truncate_bytes(pos.read_offset());
+				m_response.clear_block_info();
+			}
+			m_streamBlocks = block_number(offset);
+			m_lastBlockReadOffset = m_readOffset;
+			m_currentFileSize = pos.read_offset();
+			m_o->m_size = offset;
+			m_o->set_position(finalDestination);
+			return;
+		}
+
 		if (m_buffer.get() == 0 || block_number(offset) != buffer_block_number()) {
 			m_o->set_position(pos);
 			perform_seek();
-- 
2.43.0


From 699784ab96829b08254bb213f4aad2aea5d76e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 26/56] fix: truncating a file_stream records the size of the
 temporary file in bytes

It was recorded in items, and without the compressor lock, so the
accounting of temporary disk usage was off until the next write.
---
 tpie/compressed/stream_base.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 3cccced..b874989 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -408,6 +408,7 @@ public:
 		m_o->m_size = 0;
 		m_streamBlocks = 0;
 		m_byteStreamAccessor.truncate(0);
+		update_recorded_size();
 	
 		m_readOffset = 0;
 		m_o->m_offset = 0;
@@ -416,6 +417,13 @@ public:
 		uncache_read_writes();
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Record the size of the file after truncating it.
+	///////////////////////////////////////////////////////////////////////////
+	void update_recorded_size() {
+		if (m_tempFile) m_tempFile->update_recorded_size(m_byteStreamAccessor.file_size());
+	}
+
 	void truncate_uncompressed(stream_size_type offset) {
 		tp_assert(!use_compression(), "truncate_uncompressed called on compressed stream");
 	
@@ -452,6 +460,7 @@ public:
 			m_bufferDirty = false;
 			finish_requests(l);
 			m_byteStreamAccessor.truncate(offset);
+			update_recorded_size();
 			m_o->m_size = offset;
 			m_streamBlocks = (offset + m_blockItems - 1) / m_blockItems;
 		}
@@ -473,6 +482,7 @@ public:
 			{
 				compressor_thread_lock l(compressor());
 				m_byteStreamAccessor.truncate_bytes(pos.read_offset());
+				update_recorded_size();
 				m_response.clear_block_info();
 			}
 			m_streamBlocks = block_number(offset);
@@ -1132,8 +1142,6 @@ void compressed_stream_base::truncate(stream_size_type offset) {
 		m_p->truncate_uncompressed(offset);
 	else
 		throw stream_exception("Arbitrary truncate is not supported");
-	
-	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
 }
 
 void compressed_stream_base::truncate(const stream_position & pos) {
@@ -1147,8 +1155,6 @@ void compressed_stream_base::truncate(const stream_position & pos) {
 		m_p->truncate_uncompressed(pos.offset());
 	else
 		m_p->truncate_compressed(pos);
-	
-	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
 }
 
 stream_position compressed_stream_base::get_position() {
-- 
2.43.0


From cb4d05a0d7d62845b6455ae844afec4baf5caf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 27/56] fix: reading or writing user data of a file_stream
 waits for pending requests

The compressor thread seeks in the same file, so a block being written
could end up in the place of the user data and the other way round.
---
 tpie/compressed/buffer.h        |  4 ++++
 tpie/compressed/stream_base.cpp | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 2a97afe..05093ba 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -338,6 +338,10 @@ public:
 		}
 	}
 
+	memory_size_type count() const {
+		return m_buffers.size();
+	}
+
 	bool empty() const {
 		return m_buffers.empty();
 	}
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index b874989..da3764f 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -370,6 +370,19 @@ public:
 		}
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Wait until the compressor thread is done with our file,
+	/// keeping the block that we are reading or writing.
+	///////////////////////////////////////////////////////////////////////////
+	void wait_for_requests(compressor_thread_lock & l) {
+		const memory_size_type own = m_buffer.get() ? 1 : 0;
+		m_buffers.clean();
+		while (m_buffers.count() > own) {
+			compressor().wait_for_request_done(l);
+			m_buffers.clean();
+		}
+	}
+
 	compressor_thread & compressor() { return the_compressor_thread(); }
 
 	///////////////////////////////////////////////////////////////////////////
@@ -833,11 +846,15 @@ memory_size_type compressed_stream_base::block_size() const {
 
 memory_size_type compressed_stream_base::read_user_data(void * data, memory_size_type count) {
 	tp_assert(is_open(), "read_user_data: !is_open");
+	compressor_thread_lock l(m_p->compressor());
+	m_p->wait_for_requests(l);
 	return m_p->m_byteStreamAccessor.read_user_data(data, count);
 }
 
 void compressed_stream_base::write_user_data(const void * data, memory_size_type count) {
 	tp_assert(is_open(), "write_user_data: !is_open");
+	compressor_thread_lock l(m_p->compressor());
+	m_p->wait_for_requests(l);
 	m_p->m_byteStreamAccessor.write_user_data(data, count);
 }
 
-- 
2.43.0


From 13fb037e665b45fa8c898739b7f4128ea440225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 28/56] fix: file_stream buffers hold a whole block whatever
 the block factor

The buffers had the default block size, so a stream with a block factor
above 1 wrote past the end of its buffer.
---
 tpie/compressed/buffer.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 05093ba..1656727 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -287,7 +287,7 @@ public:
 				}
 			}
 
-			b->reset();
+			reset(b);
 			m_buffers.insert(std::make_pair(blockNumber, b));
 			clean();
 			return b;
@@ -333,7 +333,7 @@ public:
 			// Bump use count before cleaning.
 			buffer_t result = target->second;
 			clean();
-			result->reset();
+			reset(result);
 			return result;
 		}
 	}
@@ -367,6 +367,17 @@ public:
 	}
 
 private:
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Prepare buffer for another block of this stream.
+	///
+	/// The buffers in the pool have the default block size,
+	/// or the block size of the stream that used them last.
+	///////////////////////////////////////////////////////////////////////////
+	void reset(buffer_t & b) {
+		b->reset();
+		if (b->capacity() != block_size()) b->set_capacity(block_size());
+	}
+
 	memory_size_type own_buffers() {
 		return m_ownBuffers;
 	}
-- 
2.43.0


From 712a63318d7d67d8da8538795a98bb786d2f777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 29/56] fix: a job refused by job::enqueue stays idle

It was marked as enqueued and could never be enqueued again.
---
 tpie/job.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tpie/job.cpp b/tpie/job.cpp
index 3ee1ed6..8d61a61 100644
--- a/tpie/job.cpp
+++ b/tpie/job.cpp
@@ -159,10 +159,9 @@ void job::enqueue(job * parent) {
 	if (m_state != job_idle)
 		throw tpie::exception("Bad job state");
 
-	m_state = job_enqueued;
-
 	std::unique_lock<std::mutex> lock(the_job_manager->jobs_mutex);
 	if (the_job_manager->m_kill_job_pool) throw job_manager_exception();
+	m_state = job_enqueued;
 	m_parent = parent;
 	m_dependencies = 1;
 	if (m_parent) ++m_parent->m_dependencies;
-- 
2.43.0


From 7e3adbe96feb80dd1d6c8837623f3a21b5255d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 30/56] fix: a parallel pipeline stopped before its workers
 have started neither hangs nor aborts

A worker that came late found its state DONE, or was waiting for the mutex
held by the thread joining it, when an exception in another begin() had
the pipeline torn down.
---
 tpie/pipelining/parallel/base.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tpie/pipelining/parallel/base.h b/tpie/pipelining/parallel/base.h
index cd538da..fe06128 100644
--- a/tpie/pipelining/parallel/base.h
+++ b/tpie/pipelining/parallel/base.h
@@ -590,11 +590,18 @@ protected:
 	}
 
 	~before() {
-		state_base::lock_t lock(st.mutex);
+		{
+			state_base::lock_t lock(st.mutex);
+
+			auto s = st.get_state(parId);
+			tp_assert_release(s == INITIALIZING || s == DONE, "State should be INITIALIZING or DONE in before::~before");
 
-		auto s = st.get_state(parId);
-		tp_assert_release(s == INITIALIZING || s == DONE, "State should be INITIALIZING or DONE in before::~before");
+			// Our worker may not have started yet
+			if (s == INITIALIZING)
+				st.transition_state(parId, INITIALIZING, DONE);
+		}
 
+		// The worker needs the mutex to see that it is done
 		if (m_worker.joinable())
 			m_worker.join();
 	}
@@ -665,6 +672,9 @@ private:
 	void worker() {
 		state_base::lock_t lock(st.mutex);
 
+		// The pipeline may have been stopped before we got here
+		if (st.get_state(parId) == DONE) return;
+
 		m_buffer.reset(new parallel_input_buffer<T>(st.opts));
 		m_inputBuffers[parId] = m_buffer.get();
 
@@ -928,8 +938,6 @@ private:
 	/// even if no exception has been thrown from the main thread.
 	///////////////////////////////////////////////////////////////////////////
 	void stop_workers(state_base::lock_t & lock) {
-		if (st->runningWorkers == 0) return;
-
 		bool done = false;
 		while (!done) {
 			// Force maintainOrder == false to avoid deadlock in case processor p
-- 
2.43.0


From 1095a1b7d3092791481922f3505f77817da6b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 31/56] fix: the compressor thread can be started again after
 it has been stopped (tpie_init after tpie_finish)

---
 tpie/compressed/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index c7c09da..2067e40 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -113,7 +113,11 @@ public:
 				m_idle = true;
 				m_newRequest.wait(lock);
 			}
-			if (m_done && m_requests.empty()) break;
+			if (m_done && m_requests.empty()) {
+				// The request to stop is fulfilled; the thread may be run again.
+				m_done = false;
+				break;
+			}
 			{
 				compressor_request r = m_requests.front();
 				m_requests.pop();
-- 
2.43.0


From 49ddaf8d828309afeeb86fac065cd01a452c8359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 32/56] fix: read the preferred compression scheme under the
 compressor thread's lock

---
 tpie/compressed/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index 2067e40..df122f5 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -240,7 +240,11 @@ private:
 			wr.file_accessor().get_compression_flags() != compression_all;
 		block_header blockHeader;
 		block_header & blockTrailer = blockHeader;
-		compression_scheme::type schemeType = m_preferredCompression;
+		compression_scheme::type schemeType;
+		{
+			compressor_thread_lock::lock_t lock(mutex());
+			schemeType = m_preferredCompression;
+		}
 		if (adaptiveCompression && !m_idle) {
 			schemeType = compression_scheme::none;
 		}
-- 
2.43.0


From b6eae133a298608d29e14ca9d951bc2018624491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 33/56] fix: wait for the block being read, not for an earlier
 write of another block

---
 tpie/compressed/stream_base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index da3764f..c1a29a5 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -662,7 +662,9 @@ public:
 		m_buffer->transition_state(compressor_buffer_state::dirty,
 								   compressor_buffer_state::reading);
 		compressor().request(r);
-		while (!m_response.done()) {
+		// Do not wait for m_response.done(): it is also set when an earlier write
+		// of another block, which shares our response, is done.
+		while (m_buffer->is_busy()) {
 			m_response.wait(lock);
 		}
 	}
-- 
2.43.0


From 1de6166b315d0d4ce69733af4f0d2a341d8d4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 34/56] fix: do not write an empty last block after truncating
 an uncompressed stream

---
 tpie/compressed/stream_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index c1a29a5..5e6848e 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -453,7 +453,8 @@ public:
 					static_cast<memory_size_type>(offset - m_streamBlocks * m_blockItems);
 				m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * blockItemIndex;
 			}
-			m_bufferDirty = true;
+			// A block without items must not be written.
+			m_bufferDirty = offset > m_streamBlocks * m_blockItems;
 			m_o->m_seekState = compressed_stream_base::seek_state::none;
 			// No need to update m_streamBlocks
 		} else {
-- 
2.43.0


From ea5b915297b7de934d484df8f871734d7daf33e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 35/56] fix: get_position at the end of a changed last block
 must not use the old block size

---
 tpie/compressed/stream_base.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 5e6848e..bad1b4d 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1188,12 +1188,14 @@ stream_position compressed_stream_base::get_position() {
 		return stream_position(0, 0);
 	case seek_state::none:
 		if (m_p->buffer_block_number() != m_p->m_streamBlocks) {
-			if (m_nextItem == m_bufferEnd)
-				return stream_position(m_p->m_nextReadOffset, m_offset);
-			else
+			if (m_nextItem != m_bufferEnd)
 				return stream_position(m_p->m_readOffset, m_offset);
+			// If the block is going to be written again,
+			// we do not know yet where the next block begins.
+			if (!m_p->m_bufferDirty)
+				return stream_position(m_p->m_nextReadOffset, m_offset);
 		}
-		// We are in a new block at the end of the stream.
+		// We are in the last block of the stream.
 		if (m_nextItem == m_bufferEnd) {
 			tp_assert(m_p->m_bufferDirty, "At end of buffer, but bufferDirty is false?");
 			// Make sure the position we get is not at the end of a block
-- 
2.43.0


From f3fb65f3e1007df4eeb10415f23dcf05e8d71450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 36/56] fix: get_position must update the read offset when it
 starts a new block

---
 tpie/compressed/stream_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index bad1b4d..72dd5b2 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1204,6 +1204,8 @@ stream_position compressed_stream_base::get_position() {
 			m_p->flush_block(lock);
 			m_p->get_buffer(lock, m_p->m_streamBlocks);
 			m_nextItem = m_bufferBegin;
+			// For reading back into the block just written.
+			m_p->m_readOffset = m_p->current_file_size(lock);
 		}
 		break;
 	case seek_state::end:
-- 
2.43.0


From 46168519148b8271ddabf1cbbe479a3e17dcd20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 37/56] fix: wait for pending writes before forgetting the
 blocks truncated away

---
 tpie/compressed/stream_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 72dd5b2..a6291cb 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -518,6 +518,8 @@ public:
 			m_lastBlockReadOffset = pos.read_offset();
 			m_currentFileSize = std::numeric_limits<stream_size_type>::max();
 			compressor_thread_lock l(compressor());
+			// The blocks that go away may still be waiting to be written.
+			wait_for_requests(l);
 			m_response.clear_block_info();
 			m_updateReadOffsetFromWrite = false;
 		}
-- 
2.43.0


From 2d3022a54aaf4b8d198611491722592eb28719ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:50 +0000
Subject: [PATCH 38/56] fix: compute the next item of a truncated block
 relative to that block

---
 tpie/compressed/stream_base.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index a6291cb..564d1a6 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -526,9 +526,7 @@ public:
 		m_o->m_size = offset;
 		if (offset < m_o->m_offset) {
 			m_o->m_offset = offset;
-			memory_size_type blockItemIndex =
-				static_cast<memory_size_type>(offset - m_streamBlocks * m_blockItems);
-			m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * blockItemIndex;
+			m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * block_item_index(offset);
 		}
 		m_bufferDirty = true;
 	
-- 
2.43.0


From ac36cefa8c3331cb0b940207254c05a48a619f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 39/56] fix: opening a serialization writer that is open must
 write its last block first

---
 tpie/serialization_stream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 128b292..3fc56f4 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -239,12 +239,14 @@ void serialization_writer::write_block() {
 }
 
 void serialization_writer::open(std::string path) {
+	close();
 	p_t::open(path, false);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, false);
 	m_block.resize(block_size());
 	m_index = 0;
@@ -274,12 +276,14 @@ void serialization_reverse_writer::write_block() {
 }
 
 void serialization_reverse_writer::open(std::string path) {
+	close();
 	p_t::open(path, true);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_reverse_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, true);
 	m_block.resize(block_size());
 	m_index = 0;
-- 
2.43.0


From e7e82c2528f973713d71f9810ecca7d99a02b070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:24 +0000
Subject: [PATCH 40/56] fix: a serialization reader that could not read a block
 must stay where it is

---
 tpie/serialization_stream.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 3fc56f4..bc90d06 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -330,11 +330,11 @@ void serialization_reader_base::read_block(const stream_size_type blk) {
 	stream_size_type from = blk * block_size();
 	stream_size_type to = std::min(from + block_size(), m_size);
 	if (to <= from) throw end_of_stream_exception();
-	m_index = 0;
-	m_blockSize = to-from;
 	m_fileAccessor.seek_i(bits::serialization_header::header_size()
 						  + from);
-	m_fileAccessor.read_i(m_block.get(), m_blockSize);
+	m_fileAccessor.read_i(m_block.get(), to-from);
+	m_index = 0;
+	m_blockSize = to-from;
 }
 
 void serialization_reader_base::close() {
@@ -355,12 +355,9 @@ stream_size_type serialization_reader_base::size() {
 } // namespace bits
 
 void serialization_reader::next_block() /*override*/ {
-	if (m_blockSize == 0) {
-		m_blockNumber = 0;
-	} else {
-		++m_blockNumber;
-	}
-	read_block(m_blockNumber);
+	const stream_size_type blockNumber = m_blockSize == 0 ? 0 : m_blockNumber + 1;
+	read_block(blockNumber);
+	m_blockNumber = blockNumber;
 }
 
 serialization_reader::serialization_reader()
@@ -387,8 +384,8 @@ stream_size_type serialization_reader::offset() {
 void serialization_reverse_reader::next_block() /*override*/ {
 	if (m_blockNumber == 0)
 		throw end_of_stream_exception();
+	read_block(m_blockNumber - 1);
 	--m_blockNumber;
-	read_block(m_blockNumber);
 	std::reverse(m_block.begin(), m_block.begin() + m_blockSize);
 }
 
-- 
2.43.0


From 6d48fd3da4b801af22ddfdbc6275b88d91d057fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:03 +0000
Subject: [PATCH 41/56] fix: a reverse serialization writer must not leave its
 block turned round when it cannot be written

---
 tpie/serialization_stream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index bc90d06..4878718 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -271,7 +271,13 @@ serialization_reverse_writer::~serialization_reverse_writer() {
 void serialization_reverse_writer::write_block() {
 	// See note about m_index and its semantics.
 	std::reverse(m_block.get(), m_block.get() + block_size());
-	p_t::write_block(m_block.get(), m_index);
+	try {
+		p_t::write_block(m_block.get(), m_index);
+	} catch (...) {
+		// The block is still to be written, so keep its layout.
+		std::reverse(m_block.get(), m_block.get() + block_size());
+		throw;
+	}
 	m_index = 0;
 }
 
-- 
2.43.0


From 8ac29920e2f823e8e23df62f03914c69a4a8be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:03 +0000
Subject: [PATCH 42/56] fix: a serialization writer without memory for its
 block must not count as open

---
 tpie/serialization_stream.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 4878718..dbcb963 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -240,15 +240,15 @@ void serialization_writer::write_block() {
 
 void serialization_writer::open(std::string path) {
 	close();
-	p_t::open(path, false);
 	m_block.resize(block_size());
+	p_t::open(path, false);
 	m_index = 0;
 }
 
 void serialization_writer::open(temp_file & tempFile) {
 	close();
-	p_t::open(tempFile, false);
 	m_block.resize(block_size());
+	p_t::open(tempFile, false);
 	m_index = 0;
 }
 
@@ -283,15 +283,15 @@ void serialization_reverse_writer::write_block() {
 
 void serialization_reverse_writer::open(std::string path) {
 	close();
-	p_t::open(path, true);
 	m_block.resize(block_size());
+	p_t::open(path, true);
 	m_index = 0;
 }
 
 void serialization_reverse_writer::open(temp_file & tempFile) {
 	close();
-	p_t::open(tempFile, true);
 	m_block.resize(block_size());
+	p_t::open(tempFile, true);
 	m_index = 0;
 }
 
-- 
2.43.0


From 86d4b812bb0cb0086f8f3e1e8e239cc8659dfce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:03 +0000
Subject: [PATCH 43/56] fix: a serialization stream whose file could not be
 closed cleanly is closed all the same

---
 tpie/serialization_stream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index dbcb963..f6a215a 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -213,9 +213,9 @@ void serialization_writer_base::close(bool reverse) {
 	header.set_size(m_size);
 	header.set_reverse(reverse);
 	header.write(true);
-	m_fileAccessor.close_i();
 	m_open = false;
 	m_tempFile = 0;
+	m_fileAccessor.close_i();
 }
 
 stream_size_type serialization_writer_base::file_size() {
@@ -345,9 +345,9 @@ void serialization_reader_base::read_block(const stream_size_type blk) {
 
 void serialization_reader_base::close() {
 	if (!m_open) return;
-	m_fileAccessor.close_i();
 	m_open = false;
 	m_block.resize(0);
+	m_fileAccessor.close_i();
 }
 
 stream_size_type serialization_reader_base::file_size() {
-- 
2.43.0


From 5cfc0bf4c3feaf9d3343e5507b784d413e4d0269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:56 +0000
Subject: [PATCH 44/56] fix: tpie::array owned freed storage after a failing
 resize and leaked it when copying an element failed

resize freed the old elements, set the new size and then allocated; when
the allocation threw, the destructor freed the old elements again with the
new size. When copying an element threw, the storage obtained was leaked.
---
 tpie/array.h | 177 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 105 insertions(+), 72 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 5142951..0b6d5f9 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -435,9 +435,9 @@ public:
 	/// \brief Construct a copy of another array.
 	/// \param other The array to copy.
 	/////////////////////////////////////////////////////////
-	array(const array & other): m_elements(0), m_size(other.m_size), m_tss_used(false), m_allocator(other.m_allocator) {
+	array(const array & other): m_elements(0), m_size(0), m_tss_used(false), m_allocator(other.m_allocator) {
 		if (other.size() == 0) return;
-		alloc_copy(other.m_elements);
+		alloc_copy(other.size(), other.m_elements);
 	}
 
 	/////////////////////////////////////////////////////////
@@ -456,20 +456,20 @@ public:
 
 	array(const array_view_base<T> & view)
 		: m_elements(0)
-		, m_size(view.size())
+		, m_size(0)
 		, m_tss_used(false)
 	{
 		if (view.size() == 0) return;
-		alloc_copy(&*view.begin());
+		alloc_copy(view.size(), &*view.begin());
 	}
 
 	array(const array_view_base<const T> & view)
 		: m_elements(0)
-		, m_size(view.size())
+		, m_size(0)
 		, m_tss_used(false)
 	{
 		if (view.size() == 0) return;
-		alloc_copy(&*view.begin());
+		alloc_copy(view.size(), &*view.begin());
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -490,9 +490,7 @@ public:
 	void resize(size_t size, const T & elm) {
 		if (size != m_size) {
 			destruct_and_dealloc();
-			m_size = size;
-
-			alloc_fill(elm);
+			alloc_fill(size, elm);
 		} else {
 			std::fill(m_elements+0, m_elements+m_size, elm);
 		}
@@ -519,8 +517,7 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	void resize(size_t s) {
 		destruct_and_dealloc();
-		m_size = s;
-		alloc_dfl();
+		alloc_dfl(s);
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -548,34 +545,37 @@ private:
 	friend struct bits::allocator_usage<T, Allocator>;
 
 	///////////////////////////////////////////////////////////////////////////
-	/// \brief Allocate m_size elements and copy construct contents with
+	/// \brief Allocate size elements and copy construct contents with
 	/// elements from other array.
-	/// Precondition: m_elements == null pointer; m_size == no. of elements;
-	/// Effect: Allocates the m_elements buffer.
-	/// \param copy_from  Source elements in [copy_from, copy_from+m_size)
+	/// Precondition: the array is empty.
+	/// Effect: The array has the given size; it stays empty if this throws.
+	/// \param size  Number of elements
+	/// \param copy_from  Source elements in [copy_from, copy_from+size)
 	///////////////////////////////////////////////////////////////////////////
-	void alloc_copy(const T * copy_from) { bits::allocator_usage<T, Allocator>::alloc_copy(*this, copy_from); }
+	void alloc_copy(size_t size, const T * copy_from) { bits::allocator_usage<T, Allocator>::alloc_copy(*this, size, copy_from); }
 
 	///////////////////////////////////////////////////////////////////////////
-	/// \brief Allocate m_size elements and copy construct contents with
+	/// \brief Allocate size elements and copy construct contents with
 	/// element.
-	/// Precondition: m_elements == null pointer; m_size == no. of elements;
-	/// Effect: Allocates the m_elements buffer.
+	/// Precondition: the array is empty.
+	/// Effect: The array has the given size; it stays empty if this throws.
+	/// \param size  Number of elements
 	/// \param elm  Element to pass to the copy constructor
 	///////////////////////////////////////////////////////////////////////////
-	void alloc_fill(const T & elm) { bits::allocator_usage<T, Allocator>::alloc_fill(*this, elm); }
+	void alloc_fill(size_t size, const T & elm) { bits::allocator_usage<T, Allocator>::alloc_fill(*this, size, elm); }
 
 	///////////////////////////////////////////////////////////////////////////
-	/// \brief Allocate m_size elements and default construct contents.
-	/// Precondition: m_elements == null pointer; m_size == no. of elements;
-	/// Effect: Allocates the m_elements buffer.
+	/// \brief Allocate size elements and default construct contents.
+	/// Precondition: the array is empty.
+	/// Effect: The array has the given size; it stays empty if this throws.
+	/// \param size  Number of elements
 	///////////////////////////////////////////////////////////////////////////
-	void alloc_dfl() { bits::allocator_usage<T, Allocator>::alloc_dfl(*this); }
+	void alloc_dfl(size_t size) { bits::allocator_usage<T, Allocator>::alloc_dfl(*this, size); }
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Destruct and deallocate elements.
 	/// Precondition: m_elements == pointer to buffer of m_size elements;
-	/// Effect: m_elements == null pointer; does not modify m_size
+	/// Effect: The array is empty.
 	///////////////////////////////////////////////////////////////////////////
 	void destruct_and_dealloc() { bits::allocator_usage<T, Allocator>::destruct_and_dealloc(*this); }
 
@@ -590,81 +590,114 @@ namespace bits {
 
 template <typename T>
 struct allocator_usage<T, allocator<T> > {
-	static void alloc_copy(array<T, allocator<T> > & host, const T * copy_from) {
-		host.m_elements = host.m_size ? reinterpret_cast<T*>(tpie_new_array<trivial_same_size<T> >(host.m_size)) : 0;
-		host.m_tss_used = true;
-
-		if (host.m_allocator.bucket)
-			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
-			
-		std::uninitialized_copy(copy_from+0, copy_from+host.m_size, host.m_elements+0);
+	typedef array<T, allocator<T> > host_t;
+	typedef trivial_same_size<T> tss_t;
+
+	static void alloc_copy(host_t & host, size_t size, const T * copy_from) {
+		T * elements = size ? reinterpret_cast<T*>(tpie_new_array<tss_t>(size)) : 0;
+		try {
+			std::uninitialized_copy(copy_from+0, copy_from+size, elements+0);
+		} catch (...) {
+			tpie_delete_array(reinterpret_cast<tss_t*>(elements), size);
+			throw;
+		}
+		take(host, elements, size, true);
 	}
 
-	static void alloc_fill(array<T, allocator<T> > & host, const T & elm) {
-		host.m_elements = host.m_size ? reinterpret_cast<T*>(tpie_new_array<trivial_same_size<T> >(host.m_size)) : 0;
-		host.m_tss_used = true;
-
-		if (host.m_allocator.bucket)
-			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
-		
-		// call copy constructors manually
-		std::uninitialized_fill(host.m_elements+0, host.m_elements+host.m_size, elm);
+	static void alloc_fill(host_t & host, size_t size, const T & elm) {
+		T * elements = size ? reinterpret_cast<T*>(tpie_new_array<tss_t>(size)) : 0;
+		try {
+			// call copy constructors manually
+			std::uninitialized_fill(elements+0, elements+size, elm);
+		} catch (...) {
+			tpie_delete_array(reinterpret_cast<tss_t*>(elements), size);
+			throw;
+		}
+		take(host, elements, size, true);
 	}
 
-	static void alloc_dfl(array<T, allocator<T> > & host) {
-		host.m_elements = host.m_size ? tpie_new_array<T>(host.m_size) : 0;
-		host.m_tss_used = false;
-		
-		if (host.m_allocator.bucket)
-			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
+	static void alloc_dfl(host_t & host, size_t size) {
+		take(host, size ? tpie_new_array<T>(size) : 0, size, false);
 	}
 
-	static void destruct_and_dealloc(array<T, allocator<T> > & host) {
+	static void destruct_and_dealloc(host_t & host) {
+		T * elements = host.m_elements;
+		size_t size = host.m_size;
+		host.m_elements = 0;
+		host.m_size = 0;
+
 		if (host.m_allocator.bucket)
-			host.m_allocator.bucket->count -= sizeof(T) * host.m_size;
+			host.m_allocator.bucket->count -= sizeof(T) * size;
 		
 		if (!host.m_tss_used) {
 			// calls destructors
-			tpie_delete_array(host.m_elements, host.m_size);
+			tpie_delete_array(elements, size);
 			return;
 		}
 
 		// call destructors manually
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_elements[i].~T();
+		for (size_t i = 0; i < size; ++i) {
+			elements[i].~T();
 		}
-		tpie_delete_array(reinterpret_cast<trivial_same_size<T>*>(host.m_elements), host.m_size);
+		tpie_delete_array(reinterpret_cast<tss_t*>(elements), size);
+	}
+
+private:
+	static void take(host_t & host, T * elements, size_t size, bool tss_used) {
+		host.m_elements = elements;
+		host.m_size = size;
+		host.m_tss_used = tss_used;
+
+		if (host.m_allocator.bucket)
+			host.m_allocator.bucket->count += sizeof(T) * size;
 	}
 };
 
 template <typename T, typename Allocator>
 struct allocator_usage {
-	static void alloc_copy(array<T, Allocator> & host, const T * copy_from) {
-		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i, copy_from[i]);
-		}
+	typedef array<T, Allocator> host_t;
+
+	static void alloc_copy(host_t & host, size_t size, const T * copy_from) {
+		alloc(host, size, [copy_from](Allocator & a, T * e, size_t i) { a.construct(e, copy_from[i]); });
 	}
 
-	static void alloc_fill(array<T, Allocator> & host, const T & elm) {
-		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i, elm);
-		}
+	static void alloc_fill(host_t & host, size_t size, const T & elm) {
+		alloc(host, size, [&elm](Allocator & a, T * e, size_t) { a.construct(e, elm); });
+	}
+
+	static void alloc_dfl(host_t & host, size_t size) {
+		alloc(host, size, [](Allocator & a, T * e, size_t) { a.construct(e); });
 	}
 
-	static void alloc_dfl(array<T, Allocator> & host) {
-		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i);
+	static void destruct_and_dealloc(host_t & host) {
+		T * elements = host.m_elements;
+		size_t size = host.m_size;
+		host.m_elements = 0;
+		host.m_size = 0;
+		dealloc(host, elements, size, size);
+	}
+
+private:
+	template <typename F>
+	static void alloc(host_t & host, size_t size, F construct) {
+		T * elements = size ? host.m_allocator.allocate(size) : 0;
+		size_t constructed = 0;
+		try {
+			for (; constructed < size; ++constructed)
+				construct(host.m_allocator, elements+constructed, constructed);
+		} catch (...) {
+			dealloc(host, elements, size, constructed);
+			throw;
 		}
+		host.m_elements = elements;
+		host.m_size = size;
 	}
 
-	static void destruct_and_dealloc(array<T, Allocator> & host) {
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.destroy(host.m_elements+i);
+	static void dealloc(host_t & host, T * elements, size_t size, size_t constructed) {
+		for (size_t i = 0; i < constructed; ++i) {
+			host.m_allocator.destroy(elements+i);
 		}
-		host.m_allocator.deallocate(host.m_elements, host.m_size);
+		host.m_allocator.deallocate(elements, size);
 	}
 };
 
-- 
2.43.0


From 345bf485adeace6f9de82ba3ad5d2fc7ef0035f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:56 +0000
Subject: [PATCH 45/56] fix: assigning a tpie::array to itself lost its
 elements

---
 tpie/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/array.h b/tpie/array.h
index 0b6d5f9..35c5bbe 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -212,6 +212,7 @@ public:
 	/// \return A reference to this array.
 	///////////////////////////////////////////////////////////////////////////
 	array & operator=(const array & other) {
+		if (this == &other) return *this;
 		resize(other.size());
 		for (size_t i=0; i < size(); ++i) m_elements[i] = other[i];
 		return *this;
-- 
2.43.0


From d198d50ed1fdc1fc100a428d733ad762272b4f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 46/56] fix: a pipeline resumed after a pause did not end the
 phase's progress and free its data structures

---
 tpie/pipelining/runtime.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 2eee67e..0a254cb 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1235,6 +1235,11 @@ void runtime::go_until(gocontext * gc, node * node) {
 	if (gc->i != 0) {
 		begin_end beginEnd(gc->actor[gc->i-1]);
 		beginEnd.end();
+
+		gc->drt.free_datastructures(gc->i-1);
+
+		// call pi.done in ~phase_progress_indicator
+		gc->phaseProgress = phase_progress_indicator();
 	}
 
 	for (; gc->i < gc->phases.size(); ++gc->i) {
-- 
2.43.0


From 345a9f0d1ba3bdcc68a687c3b1c5bf142c06e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:48 +0000
Subject: [PATCH 47/56] fix: moving a pipelining node lost what it had
 forwarded and the data structures it had registered

---
 tpie/pipelining/node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpie/pipelining/node.cpp b/tpie/pipelining/node.cpp
index bb43ff0..61c42dc 100644
--- a/tpie/pipelining/node.cpp
+++ b/tpie/pipelining/node.cpp
@@ -80,6 +80,9 @@ node::node(node && other)
 	: token(other.token, this)
 	, m_parameters(std::move(other.m_parameters))
 	, m_buckets(std::move(other.m_buckets))
+	, m_forwardedFromHere(std::move(other.m_forwardedFromHere))
+	, m_forwardedToHere(std::move(other.m_forwardedToHere))
+	, m_datastructures(std::move(other.m_datastructures))
 	, m_stepsLeft(std::move(other.m_stepsLeft))
 	, m_pi(std::move(other.m_pi))
 	, m_state(std::move(other.m_state))
@@ -94,6 +97,9 @@ node & node::operator=(node && other) {
 	token.assign(other.token, this);
 	m_parameters = std::move(other.m_parameters);
 	m_buckets = std::move(other.m_buckets);
+	m_forwardedFromHere = std::move(other.m_forwardedFromHere);
+	m_forwardedToHere = std::move(other.m_forwardedToHere);
+	m_datastructures = std::move(other.m_datastructures);
 	m_stepsLeft = std::move(other.m_stepsLeft);
 	m_pi = std::move(other.m_pi);
 	m_state = std::move(other.m_state);
-- 
2.43.0


From 0c889746039b372e73f32cb45b61edfa469b9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:48 +0000
Subject: [PATCH 48/56] fix: a move-constructed progress subindicator was
 detached from its parent

---
 tpie/progress_indicator_subindicator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index 560f330..6dd0b1b 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -73,9 +73,9 @@ progress_indicator_subindicator::progress_indicator_subindicator(progress_indica
 #endif
 {
 #ifndef TPIE_NDEBUG
-	m_init_called = false;
+	o.m_init_called = false;
 #endif
-	m_parent = nullptr;
+	o.m_parent = nullptr;
 }
 
 progress_indicator_subindicator & progress_indicator_subindicator::operator=(progress_indicator_subindicator && o) {
@@ -88,7 +88,7 @@ progress_indicator_subindicator & progress_indicator_subindicator::operator=(pro
 	std::swap(m_logGroupMode, o.m_logGroupMode);
 #ifndef TPIE_NDEBUG
 	std::swap(m_init_called, o.m_init_called);
-	std::swap(m_done_called, m_done_called);
+	std::swap(m_done_called, o.m_done_called);
 #endif
 	return *this;
 }
-- 
2.43.0


From 62a0bd34e849467a22c4bc9516c90743f5ba92bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:48 +0000
Subject: [PATCH 49/56] fix: moving a progress indicator left its remaining
 step count uninitialised

---
 tpie/progress_indicator_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/progress_indicator_base.cpp b/tpie/progress_indicator_base.cpp
index 89e7845..b3c94b7 100644
--- a/tpie/progress_indicator_base.cpp
+++ b/tpie/progress_indicator_base.cpp
@@ -39,6 +39,7 @@ progress_indicator_base::progress_indicator_base(stream_size_type range)
 progress_indicator_base::progress_indicator_base(progress_indicator_base&& o)
 	: m_range(o.m_range)
 	, m_current(o.m_current)
+	, m_remainingSteps(o.m_remainingSteps)
 	, m_predictor(o.m_predictor)
 	, m_refreshImpl(o.m_refreshImpl) {
 	o.m_predictor = nullptr;
@@ -48,6 +49,7 @@ progress_indicator_base::progress_indicator_base(progress_indicator_base&& o)
 progress_indicator_base & progress_indicator_base::operator=(progress_indicator_base&& o) {
 	std::swap(m_range, o.m_range);
 	std::swap(m_current, o.m_current);
+	std::swap(m_remainingSteps, o.m_remainingSteps);
 	std::swap(m_predictor, o.m_predictor);
 	std::swap(m_refreshImpl, o.m_refreshImpl);
 	return *this;
-- 
2.43.0


From f1c2d230d89b26e5a1c21822a84acb430b8936db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:48 +0000
Subject: [PATCH 50/56] fix: the move assignment of a serialized B-tree store
 did not compile

---
 tpie/btree/serialized_store.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 11568b7..e0cd03e 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -78,8 +78,8 @@ public:
 	
 	serialized_store & operator=(serialized_store && o) {
 		this->~serialized_store();
-		new (this) serialized_store(o);
-		return this;
+		new (this) serialized_store(std::move(o));
+		return *this;
 	}
 	
 private:
-- 
2.43.0


From df88e8eb597c59caac9a0e5d76d69ed811fe0fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:48 +0000
Subject: [PATCH 51/56] fix: the move assignment of a pipe factory flowed off
 its end

---
 tpie/pipelining/pair_factory.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/pipelining/pair_factory.h b/tpie/pipelining/pair_factory.h
index 5909455..533d36f 100644
--- a/tpie/pipelining/pair_factory.h
+++ b/tpie/pipelining/pair_factory.h
@@ -49,6 +49,7 @@ public:
 		using std::swap;
 		m_final = other.m_final;
 		swap(m_maps, other.m_maps);
+		return *this;
 	}
 
 	double memory() const noexcept {
-- 
2.43.0


From afb5d917fe7f43aa305477add9ea17dbdbc78342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:48 +0000
Subject: [PATCH 52/56] fix: the move assignments of the devirtualization nodes
 lost a node and flowed off their ends

---
 tpie/pipelining/virtual.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/pipelining/virtual.h b/tpie/pipelining/virtual.h
index 90d84a1..81b8d25 100644
--- a/tpie/pipelining/virtual.h
+++ b/tpie/pipelining/virtual.h
@@ -1125,9 +1125,11 @@ public:
 		vnode = std::move(o.vnode);
 		recv = o.recv;
 		o.recv = nullptr;
+		dest = std::move(o.dest);
 		if (recv) {
 			recv->change_destination(this);
 		}
+		return *this;
 	}
 	
 	const node_token & get_token() final {
@@ -1223,9 +1225,11 @@ public:
 		vnode = std::move(o.vnode);
 		input = o.input;
 		o.input = nullptr;
+		src = std::move(o.src);
 		if (input) {
 			input->change_source(this);
 		}
+		return *this;
 	}
 	
 	const node_token & get_token() final {
-- 
2.43.0


From a94eecbe68a1a0c2a7b3fe7a4195db7e9ba99f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:04 +0000
Subject: [PATCH 53/56] fix: path compression in the node map used a node map
 it had just released

---
 tpie/pipelining/tokens.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/pipelining/tokens.cpp b/tpie/pipelining/tokens.cpp
index 129001e..9104e10 100644
--- a/tpie/pipelining/tokens.cpp
+++ b/tpie/pipelining/tokens.cpp
@@ -72,9 +72,10 @@ node_map::ptr node_map::find_authority() {
 	ptr result(i);
 
 	// path compression
-	node_map * j = m_authority.get();
+	// (redirecting j may drop the last reference to k)
+	ptr j = m_authority;
 	while (j->m_authority) {
-		node_map * k = j->m_authority.get();
+		ptr k = j->m_authority;
 		j->m_authority = result;
 		j = k;
 	}
-- 
2.43.0


From 6b9e71c1fdb76cd7fb9fdcfd51c8730535522543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:15 +0000
Subject: [PATCH 54/56] fix: a failing pop must not change the size of an
 external queue

---
 tpie/queue.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tpie/queue.h b/tpie/queue.h
index 3af8aee..efef0fb 100644
--- a/tpie/queue.h
+++ b/tpie/queue.h
@@ -99,20 +99,25 @@ public:
 	/// \return The dequeued item
 	////////////////////////////////////////////////////////////////////
 	const T & pop() {
-		--m_size;
 		if(pop_queue().can_read()) {
 			// The front of the queue is the pop stream
-			return pop_queue().read();
+			const T & i = pop_queue().read();
+			--m_size;
+			return i;
 		} else if (!m_centerQueue.empty()) {
 			// The front of the queue is the center queue
 			const T & i = m_centerQueue.front();
 			m_centerQueue.pop();
+			--m_size;
 			return i;
 		} else {
 			// The front of the queue is the push stream,
 			// so we swap the push stream and the pop stream.
 			swap_file_streams();
-			return pop_queue().read();
+			// (when the queue is empty, this throws end_of_stream_exception)
+			const T & i = pop_queue().read();
+			--m_size;
+			return i;
 		}
 	}
 
-- 
2.43.0


From f94545e7e71087dcfe9881bbee74fb81e72335ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:15 +0000
Subject: [PATCH 55/56] fix: operator-= of the packed array iterators added

---
 tpie/packed_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 567d806..3de2e9d 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -64,7 +64,7 @@ public:
 	CT operator+(difference_type n) const {CT x=self(); return x += n;}
 	CT operator-(difference_type n) const {CT x=self(); return x -= n;}
 	CT & operator+=(difference_type n) {self().index() += (forward?n:-n); return self();}
-	CT & operator-=(difference_type n) {self().index() += (forward?n:-n); return self();}
+	CT & operator-=(difference_type n) {self().index() -= (forward?n:-n); return self();}
 	RT operator[](difference_type n) {return *(self() + n);}
 };
 
-- 
2.43.0


From b4c8d024761a56f7e37f57a3d3464f8d403c9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:15 +0000
Subject: [PATCH 56/56] fix: packed_array::resize kept a dangling pointer when
 the allocation failed

---
 tpie/packed_array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 3de2e9d..1b391ea 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -353,8 +353,11 @@ public:
 	void resize(size_t s) {
 		if (s == m_size) return;
 		tpie_delete_array(m_elements, words(m_size));
+		// (the allocation may throw)
+		m_elements = nullptr;
+		m_size = 0;
+		if (s) m_elements = tpie_new_array<storage_type>(words(s));
 		m_size = s;
-		m_elements = m_size?tpie_new_array<storage_type>(words(m_size)):nullptr;
 	}
 
 	/////////////////////////////////////////////////////////
-- 
2.43.0

