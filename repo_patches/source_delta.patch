From a76bb0604f7450d49546daa37ec1c6f65f18b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 01/56] fix: do not leave an unreadable block in the block
 caches

---
 src/fs.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fs.c b/src/fs.c
index d51ea26..2d35574 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -178,16 +178,19 @@ sqfs_err sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr,
 
 sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 	sqfs_block_cache_entry *entry;
+	sqfs_block_cache_entry fresh;
 	sqfs_err ret;
 	MUTEX_LOCK(&fs->md_cache.mutex);
 
 	entry = sqfs_cache_get(&fs->md_cache, *pos);
 	if (!entry) {
-		entry = sqfs_cache_add(&fs->md_cache, *pos);
-		ret = sqfs_md_block_read(fs, *pos, &entry->data_size, &entry->block);
+		/* only a block that could be read may enter the cache */
+		ret = sqfs_md_block_read(fs, *pos, &fresh.data_size, &fresh.block);
 		if (ret) {
 			goto exit;
 		}
+		entry = sqfs_cache_add(&fs->md_cache, *pos);
+		*entry = fresh;
 	}
 	*block = entry->block;
 	*pos += entry->data_size;
@@ -200,16 +203,20 @@ exit:
 sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 		uint32_t hdr, sqfs_block **block) {
 	sqfs_block_cache_entry *entry;
+	sqfs_block_cache_entry fresh;
 	sqfs_err ret;
 	MUTEX_LOCK(&cache->mutex);
 
 	entry = sqfs_cache_get(cache, pos);
 	if (!entry) {
-		entry = sqfs_cache_add(cache, pos);
-		ret = sqfs_data_block_read(fs, pos, hdr, &entry->block);
+		/* only a block that could be read may enter the cache */
+		ret = sqfs_data_block_read(fs, pos, hdr, &fresh.block);
 		if (ret) {
 			goto exit;
 		}
+		fresh.data_size = 0;
+		entry = sqfs_cache_add(cache, pos);
+		*entry = fresh;
 	}
 	*block = entry->block;
 	ret = SQFS_OK;
-- 
2.43.0


From 37d8ff60b91a6590b3374407e08580958f4e97f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:42 +0000
Subject: [PATCH 02/56] fix: keep a cached block alive while another thread may
 evict it

---
 include/squash/common.h |  1 +
 include/squash/fs.h     |  4 +++-
 src/file.c              |  1 +
 src/fs.c                | 15 ++++++++++++++-
 src/table.c             |  1 +
 5 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/squash/common.h b/include/squash/common.h
index 91154e8..68bd3ac 100644
--- a/include/squash/common.h
+++ b/include/squash/common.h
@@ -70,6 +70,7 @@ typedef struct {
 	size_t size;
 	void *data;
 	short data_need_freeing;
+	int refs; /* guarded by the mutex of the cache that holds the block */
 } sqfs_block;
 
 typedef struct {
diff --git a/include/squash/fs.h b/include/squash/fs.h
index 9c3c699..62b8916 100644
--- a/include/squash/fs.h
+++ b/include/squash/fs.h
@@ -103,10 +103,12 @@ sqfs_err sqfs_md_block_read(sqfs *fs, sqfs_off_t pos, size_t *data_size,
 sqfs_err sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr,
 	sqfs_block **block);
 
-/* Don't dispose after getting block, it's in the cache */
+/* Don't dispose after getting block, it's in the cache: give it back
+ * with sqfs_block_release(), until then it cannot be evicted under you */
 sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block);
 sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 	uint32_t hdr, sqfs_block **block);
+void sqfs_block_release(sqfs_cache *cache, sqfs_block *block);
 
 void sqfs_md_cursor_inode(sqfs_md_cursor *cur, sqfs_inode_id id, sqfs_off_t base);
 
diff --git a/src/file.c b/src/file.c
index d680b5f..d3280ef 100644
--- a/src/file.c
+++ b/src/file.c
@@ -173,6 +173,7 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 		if (block) {
 			memcpy(buf, (char*)block->data + data_off + read_off, take);
 			/* BLOCK CACHED, DON'T DISPOSE */
+			sqfs_block_release(fragment ? &fs->frag_cache : &fs->data_cache, block);
 		} else {
 			memset(buf, 0, take);
 		}
diff --git a/src/fs.c b/src/fs.c
index 2d35574..2ca01fe 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -120,6 +120,7 @@ sqfs_err sqfs_block_read(sqfs *fs, sqfs_off_t pos, short compressed,
 	
 	(*block)->data = (void *)((fs->fd) + (pos + fs->offset));
 	(*block)->data_need_freeing = 0;
+	(*block)->refs = 1;
 
 	if (compressed) {
 		char *decomp = malloc(outsize);
@@ -193,6 +194,7 @@ sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 		*entry = fresh;
 	}
 	*block = entry->block;
+	(*block)->refs++;
 	*pos += entry->data_size;
 	ret = SQFS_OK;
 exit:
@@ -219,13 +221,23 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 		*entry = fresh;
 	}
 	*block = entry->block;
+	(*block)->refs++;
 	ret = SQFS_OK;
 exit:
 	MUTEX_UNLOCK(&cache->mutex);
 	return ret;
 }
 
+void sqfs_block_release(sqfs_cache *cache, sqfs_block *block) {
+	MUTEX_LOCK(&cache->mutex);
+	sqfs_block_dispose(block);
+	MUTEX_UNLOCK(&cache->mutex);
+}
+
 void sqfs_block_dispose(sqfs_block *block) {
+	if (--(block->refs) > 0) {
+		return; /* somebody still reads from it */
+	}
 	if (block->data_need_freeing) {
 		free(block->data);
 	}
@@ -251,7 +263,6 @@ sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
 			take = size;
 		if (buf)
 			memcpy(buf, (char*)block->data + cur->offset, take);
-		/* BLOCK CACHED, DON'T DISPOSE */
 		
 		if (buf)
 			buf = (char*)buf + take;
@@ -261,6 +272,8 @@ sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
 			cur->block = pos;
 			cur->offset = 0;
 		}
+		/* BLOCK CACHED, DON'T DISPOSE */
+		sqfs_block_release(&fs->md_cache, block);
 	}
 	return SQFS_OK;
 }
diff --git a/src/table.c b/src/table.c
index e4fbd5c..0b75a00 100644
--- a/src/table.c
+++ b/src/table.c
@@ -62,5 +62,6 @@ sqfs_err sqfs_table_get(sqfs_table *table, sqfs *fs, size_t idx, void *buf) {
 	
 	memcpy(buf, (char*)(block->data) + off, table->each);
 	/* BLOCK CACHED, DON'T DISPOSE */
+	sqfs_block_release(&fs->md_cache, block);
 	return SQFS_OK;
 }
-- 
2.43.0


From 79272e54d42424abf343e6843b3f4f17c6e5f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:10 +0000
Subject: [PATCH 03/56] fix: a fragment needs no block index entry past the
 last one

---
 src/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index d3280ef..c659724 100644
--- a/src/file.c
+++ b/src/file.c
@@ -283,7 +283,7 @@ sqfs_err sqfs_blockidx_blocklist(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl
 
 	sqfs_blocklist_init(fs, inode, bl);
 	block = (size_t)(start / fs->sb->block_size);
-	if (block > bl->remain) { /* fragment */
+	if (block >= bl->remain) { /* fragment */
 		bl->remain = 0;
 		ret = SQFS_OK;
 		goto exit;
-- 
2.43.0


From 402b7ec7ba7647ea3afdf4bce6caa75d38057f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:10 +0000
Subject: [PATCH 04/56] fix: reading no bytes, or at or past the end of the
 file, is not an error

---
 src/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index c659724..562553e 100644
--- a/src/file.c
+++ b/src/file.c
@@ -122,9 +122,9 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	file_size = inode->xtra.reg.file_size;
 	block_size = fs->sb->block_size;
 	
-	if (*size < 0 || start > file_size)
+	if (*size < 0 || start < 0)
 		return SQFS_ERR;
-	if (start == file_size) {
+	if (*size == 0 || start >= file_size) {
 		*size = 0;
 		return SQFS_OK;
 	}
-- 
2.43.0


From 92cabbb39924ec5a11fb5345f000bc292b5c772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:11 +0000
Subject: [PATCH 05/56] fix: squash_lseek must refuse a negative position and
 an unknown whence

---
 src/fd.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index e564c8a..dae197d 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -180,6 +180,7 @@ failure:
 off_t squash_lseek(int vfd, off_t offset, int whence)
 {
 	struct squash_file *file;
+	off_t pos;
 	if (!SQUASH_VALID_VFD(vfd))
 	{
 		errno = EBADF;
@@ -188,18 +189,27 @@ off_t squash_lseek(int vfd, off_t offset, int whence)
 	file = squash_global_fdtable.fds[vfd];
 	if (SQUASH_SEEK_SET == whence)
 	{
-		file->pos = offset;
+		pos = offset;
 	}
 	else if (SQUASH_SEEK_CUR == whence)
 	{
-		file->pos += offset;
+		pos = (off_t)((uint64_t)file->pos + (uint64_t)offset);
 	}
-	else if (SQUASH_SEEK_END == whence)
+	else if (SQUASH_SEEK_END == whence && S_ISREG(file->node.base.mode))
 	{
-		assert(S_ISREG(file->node.base.mode));
-		file->pos = file->node.xtra.reg.file_size;
+		pos = file->node.xtra.reg.file_size;
 	}
-	return file->pos;
+	else
+	{
+		pos = -1;
+	}
+	if (pos < 0)
+	{
+		errno = EINVAL;
+		return -1;
+	}
+	file->pos = pos;
+	return pos;
 }
 
 static void squash_halt()
-- 
2.43.0


From 34cd22088eb0b63e228a8b71cc9d75074e4ee0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:28 +0000
Subject: [PATCH 06/56] fix: report an unsupported compression instead of
 aborting

---
 src/decompress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decompress.c b/src/decompress.c
index aa85602..1f7e14e 100644
--- a/src/decompress.c
+++ b/src/decompress.c
@@ -39,6 +39,7 @@ static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 }
 
 sqfs_decompressor sqfs_decompressor_get(sqfs_compression_type type) {
-	assert(ZLIB_COMPRESSION == type);
+	if (ZLIB_COMPRESSION != type)
+		return NULL; /* unsupported */
 	return &sqfs_decompressor_zlib;
 }
-- 
2.43.0


From bdccbd87aae11f07b151bac32bd2237b6e0ef7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:28 +0000
Subject: [PATCH 07/56] fix: squash_readlink must not write into a buffer of
 size 0

---
 src/readlink.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readlink.c b/src/readlink.c
index c468b4d..076f2a3 100644
--- a/src/readlink.c
+++ b/src/readlink.c
@@ -20,7 +20,7 @@ ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufs
 
         want = node->xtra.symlink_size;
 
-        if (want > bufsize - 1) {
+        if (want >= bufsize) {
                 errno = ENAMETOOLONG;
                 return -1; //bufsize is too small
         }
-- 
2.43.0


From ef3dcbad899cf42666c056d6d38a6c6ac9840e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:28 +0000
Subject: [PATCH 08/56] fix: squash_open must release everything it took when
 it fails

---
 src/fd.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index dae197d..f14498d 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -20,6 +20,7 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	int fd;
 	size_t nr;
 	int *handle;
+	struct squash_file **fds;
 
 	// try locating the file and fetching its stat
 	if (NULL == file)
@@ -27,6 +28,7 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 		errno = ENOMEM;
 		return -1;
 	}
+	fd = -1;
 	error = sqfs_inode_get(fs, &file->node, sqfs_inode_root(fs));
 	if (SQFS_OK != error)
 	{
@@ -37,13 +39,17 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	{
 		goto failure;
 	}
-	file->filename = strdup(path);
-
 	if (!found)
 	{
 		errno = ENOENT;
 		goto failure;
 	}
+	file->filename = strdup(path);
+	if (NULL == file->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	error = sqfs_stat(fs, &file->node, &file->st);
 	if (SQFS_OK != error)
 	{
@@ -66,13 +72,15 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		squash_global_fdtable.fds = realloc(squash_global_fdtable.fds,
-						    nr * sizeof(struct squash_file *));
-		if (NULL == squash_global_fdtable.fds)
+		fds = realloc(squash_global_fdtable.fds,
+			      nr * sizeof(struct squash_file *));
+		if (NULL == fds)
 		{
+			MUTEX_UNLOCK(&squash_global_mutex);
 			errno = ENOMEM;
 			goto failure;
 		}
+		squash_global_fdtable.fds = fds;
 		memset(squash_global_fdtable.fds + squash_global_fdtable.nr,
 		       0,
 		       (nr - squash_global_fdtable.nr) * sizeof(struct squash_file *));
@@ -103,6 +111,12 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	if (-1 != fd) {
+		int saved_errno = errno;
+		close(fd);
+		errno = saved_errno;
+	}
+	free(file->filename);
 	free(file);
 	return -1;
 }
-- 
2.43.0


From 1a84864c8b86987121c8f29e8f6fe9d77430b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 09/56] fix: serialize access to the vfd table with its mutex

---
 include/squash.h |  5 +++--
 src/fd.c         | 27 +++++++++++++++++++++------
 src/stat.c       |  5 +++--
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/squash.h b/include/squash.h
index 2794c27..00b70a2 100644
--- a/include/squash.h
+++ b/include/squash.h
@@ -49,14 +49,15 @@
 #define SQUASH_SEEK_CUR 1 /* set file offset to current plus offset */
 #define SQUASH_SEEK_END 2 /* set file offset to EOF plus offset */
 
-#define SQUASH_VALID_VFD(vfd) ((vfd) < squash_global_fdtable.nr && NULL != squash_global_fdtable.fds[(vfd)])
-#define SQUASH_VFD_FILE(vfd) (squash_global_fdtable.fds[(vfd)])
+#define SQUASH_VALID_VFD(vfd) (NULL != squash_find_vfd((vfd)))
+#define SQUASH_VFD_FILE(vfd) (squash_find_vfd((vfd)))
 
 extern sqfs_err squash_errno;
 
 sqfs_err squash_start();
 ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufsize);
 sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node);
+struct squash_file * squash_find_vfd(int vfd);
 struct squash_file * squash_find_entry(void *ptr);
 
 /*
diff --git a/src/fd.c b/src/fd.c
index f14498d..1f2db16 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -131,15 +131,19 @@ int squash_close(int vfd)
 	int ret;
 	struct squash_file *file;
 
-        if (!SQUASH_VALID_VFD(vfd)) {
+        // the number must not be handed out again before its entry is gone,
+        // so closing it and removing the entry is one step
+        MUTEX_LOCK(&squash_global_mutex);
+        if (vfd < 0 || vfd >= squash_global_fdtable.nr || NULL == squash_global_fdtable.fds[vfd]) {
+                MUTEX_UNLOCK(&squash_global_mutex);
                 errno = EBADF;
                 return -1;
         }
         ret = close(vfd);
 	if (-1 == ret) {
+		MUTEX_UNLOCK(&squash_global_mutex);
 		return -1;
 	}
-        MUTEX_LOCK(&squash_global_mutex);
         if (S_ISDIR(squash_global_fdtable.fds[vfd]->st.st_mode)) {
                 SQUASH_DIR *dir = (SQUASH_DIR *) (squash_global_fdtable.fds[vfd]->payload);
                 free(dir);
@@ -170,12 +174,12 @@ ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
 	sqfs_err error;
 	struct squash_file *file;
 
-	if (!SQUASH_VALID_VFD(vfd))
+	file = SQUASH_VFD_FILE(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		goto failure;
 	}
-	file = squash_global_fdtable.fds[vfd];
 
 	error = sqfs_read_range(file->fs, &file->node, file->pos, &nbyte, buf);
 	if (SQFS_OK != error)
@@ -195,12 +199,12 @@ off_t squash_lseek(int vfd, off_t offset, int whence)
 {
 	struct squash_file *file;
 	off_t pos;
-	if (!SQUASH_VALID_VFD(vfd))
+	file = SQUASH_VFD_FILE(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		return -1;
 	}
-	file = squash_global_fdtable.fds[vfd];
 	if (SQUASH_SEEK_SET == whence)
 	{
 		pos = offset;
@@ -249,6 +253,17 @@ sqfs_err squash_start()
 	}
 }
 
+struct squash_file * squash_find_vfd(int vfd)
+{
+	struct squash_file * ret = NULL;
+	MUTEX_LOCK(&squash_global_mutex);
+	if (vfd >= 0 && vfd < squash_global_fdtable.nr) {
+		ret = squash_global_fdtable.fds[vfd];
+	}
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return ret;
+}
+
 struct squash_file * squash_find_entry(void *ptr)
 {
 	size_t i;
diff --git a/src/stat.c b/src/stat.c
index 121f575..544f232 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -72,11 +72,12 @@ failure:
 
 int squash_fstat(int vfd, struct stat *buf)
 {
-	if (!SQUASH_VALID_VFD(vfd))
+	struct squash_file *file = SQUASH_VFD_FILE(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		return -1;
 	}
-	*buf = SQUASH_VFD_FILE(vfd)->st;
+	*buf = file->st;
 	return 0;
 }
-- 
2.43.0


From 82a193b8f468fce56c918dddc15fd92d8bb50f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 10/56] fix: squash_opendir must not leave a vfd behind when it
 fails

---
 src/dirent.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index a379069..a7a3505 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -27,18 +27,11 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	dir->entries = NULL;
 	dir->nr = 0;
 	dir->filename = strdup(filename);
-	dir->fd = squash_open(fs, filename);
-	if (-1 == dir->fd)
+	if (NULL == dir->filename)
 	{
+		errno = ENOMEM;
 		goto failure;
 	}
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
-
-	MUTEX_LOCK(&squash_global_mutex);
-	free(handle);
-	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
-	MUTEX_UNLOCK(&squash_global_mutex);
-
 	dir->actual_nr = 0;
 	dir->loc = 0;
 	error = sqfs_inode_get(fs, &dir->node, sqfs_inode_root(fs));
@@ -61,11 +54,24 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	{
 		goto failure;
 	}
+	// nothing can fail any more once we hold a vfd
+	dir->fd = squash_open(fs, filename);
+	if (-1 == dir->fd)
+	{
+		goto failure;
+	}
+
+	MUTEX_LOCK(&squash_global_mutex);
+	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
+	free(handle);
+	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
+	MUTEX_UNLOCK(&squash_global_mutex);
 	return dir;
 failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From fa155cae5753f40a509274dad2acbe3a836a3027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 11/56] fix: squash_readdir must keep the entries it has when
 it runs out of memory

---
 src/dirent.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index a7a3505..b4e4f87 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -110,12 +110,13 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		dirp->entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
-		if (NULL == dirp->entries)
+		void *entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
+		if (NULL == entries)
 		{
 			errno = ENOMEM;
 			return NULL;
 		}
+		dirp->entries = entries;
 		dirp->nr = nr;
 	}
 
-- 
2.43.0


From 6f65ee7708a1dff80281337740ca7023a56ed4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:42 +0000
Subject: [PATCH 12/56] fix: set errno where an error arises instead of leaving
 a stale value

---
 src/dir.c  |  9 +++++++--
 src/file.c | 22 +++++++++++++++++-----
 src/fs.c   | 10 ++++++++--
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index e9842af..66bee57 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -56,8 +56,10 @@ static sqfs_err sqfs_dir_md_read(sqfs *fs, sqfs_dir *dir, void *buf,
 
 sqfs_err sqfs_dir_open(sqfs *fs, sqfs_inode *inode, sqfs_dir *dir,
 		off_t offset) {
-	if (!S_ISDIR(inode->base.mode))
+	if (!S_ISDIR(inode->base.mode)) {
+		errno = ENOTDIR;
 		return SQFS_ERR;
+	}
 
 	memset(dir, 0, sizeof(*dir));
 	dir->cur.block = inode->xtra.dir.start_block +
@@ -216,7 +218,10 @@ static sqfs_err sqfs_dir_ff_offset(sqfs *fs, sqfs_inode *inode, sqfs_dir *dir,
 	
 	if (err)
 		return err;
-	return dir->offset == offset ? SQFS_OK : SQFS_ERR;
+	if (dir->offset == offset)
+		return SQFS_OK;
+	errno = EINVAL;
+	return SQFS_ERR;
 }
 
 
diff --git a/src/file.c b/src/file.c
index 562553e..87a6441 100644
--- a/src/file.c
+++ b/src/file.c
@@ -26,6 +26,7 @@
 
 #include "squash/fs.h"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -33,8 +34,10 @@ sqfs_err sqfs_frag_entry(sqfs *fs, struct squashfs_fragment_entry *frag,
 		uint32_t idx) {
 	sqfs_err err = SQFS_OK;
 	
-	if (idx == SQUASHFS_INVALID_FRAG)
+	if (idx == SQUASHFS_INVALID_FRAG) {
+		errno = EIO;
 		return SQFS_ERR;
+	}
 	
 	err = sqfs_table_get(&fs->frag_table, fs, idx, frag);
 	return err;
@@ -86,8 +89,10 @@ sqfs_err sqfs_blocklist_next(sqfs_blocklist *bl) {
 	sqfs_err err = SQFS_OK;
 	short compressed;
 	
-	if (bl->remain == 0)
+	if (bl->remain == 0) {
+		errno = EIO;
 		return SQFS_ERR;
+	}
 	--(bl->remain);
 	
 	err = sqfs_md_read(bl->fs, &bl->cur, &bl->header,
@@ -116,14 +121,18 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	size_t read_off;
 	char *buf_orig;
 	
-	if (!S_ISREG(inode->base.mode))
+	if (!S_ISREG(inode->base.mode)) {
+		errno = S_ISDIR(inode->base.mode) ? EISDIR : EINVAL;
 		return SQFS_ERR;
+	}
 	
 	file_size = inode->xtra.reg.file_size;
 	block_size = fs->sb->block_size;
 	
-	if (*size < 0 || start < 0)
+	if (*size < 0 || start < 0) {
+		errno = EINVAL;
 		return SQFS_ERR;
+	}
 	if (*size == 0 || start >= file_size) {
 		*size = 0;
 		return SQFS_OK;
@@ -186,7 +195,10 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	}
 	
 	*size = (char*)buf - buf_orig;
-	return *size ? SQFS_OK : SQFS_ERR;
+	if (*size)
+		return SQFS_OK;
+	errno = EIO;
+	return SQFS_ERR;
 }
 
 
diff --git a/src/fs.c b/src/fs.c
index 2ca01fe..e1453c3 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -27,6 +27,7 @@
 #include "squash/file.h"
 
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -129,6 +130,7 @@ sqfs_err sqfs_block_read(sqfs *fs, sqfs_off_t pos, short compressed,
 		
 		err = fs->decompressor((*block)->data, size, decomp, &outsize);
 		if (err) {
+			errno = EIO;
 			free(decomp);
 			goto error;
 		}
@@ -298,8 +300,10 @@ sqfs_err sqfs_readlink(sqfs *fs, sqfs_inode *inode, char *buf, size_t *size) {
 	size_t want;
 	sqfs_md_cursor cur;
 	sqfs_err err;
-	if (!S_ISLNK(inode->base.mode))
+	if (!S_ISLNK(inode->base.mode)) {
+		errno = EINVAL;
 		return SQFS_ERR;
+	}
 
 	want = inode->xtra.symlink_size;
 	if (!buf) {
@@ -446,7 +450,9 @@ sqfs_err sqfs_inode_get(sqfs *fs, sqfs_inode *inode, sqfs_inode_id id) {
 			break;
 		}
 		
-		default: return SQFS_ERR;
+		default:
+			errno = EIO;
+			return SQFS_ERR;
 	}
 	
 	return SQFS_OK;
-- 
2.43.0


From be18a8dfb9e3ead82ce747ca57e2e7255701c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 13/56] fix: interpret dot-dot next to empty, dot and leading
 path components

---
 src/dir.c | 50 ++++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index 66bee57..7e9f332 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -282,37 +282,39 @@ sqfs_err sqfs_dir_lookup(sqfs *fs, sqfs_inode *inode,
 
 static sqfs_err clear_dot_dot(char *path)
 {
-	char *dot_dot, *dot_dot_left;
-	
+	char *start = path + ('/' == *path ? 1 : 0);
+	char *in = start;
+	char *out = start; /* always at the beginning of a component */
+	size_t len;
+
 	// we might get a path like /a/b/../../c/d
 	// in which case we need to interpret dot-dot's
-	while ((dot_dot = strstr(path, "/../"))) {
-		dot_dot_left = dot_dot - 1;
-		do {
-			if (dot_dot_left < path) {
+	while (1) {
+		while ('/' == *in) {
+			++in;
+		}
+		len = strcspn(in, "/");
+		if (0 == len) {
+			break;
+		}
+		if (2 == len && '.' == in[0] && '.' == in[1]) {
+			if (out == start) {
 				return SQFS_ERR;
 			}
-			if ('/' == *dot_dot_left) {
-				break;
+			--out;
+			while (out > start && '/' != out[-1]) {
+				--out;
 			}
-			--dot_dot_left;
-		} while (1);
-		memmove(dot_dot_left, dot_dot + 3, strlen(dot_dot + 3) + 1);
-	}
-	// what about /a/b/c/d/..
-	if (strlen(path) >= 3 && 0 == strcmp(path + strlen(path) - 3, "/..")) {
-		dot_dot_left = path + strlen(path) - 4;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
+		} else if (!(1 == len && '.' == in[0])) {
+			memmove(out, in, len);
+			out += len;
+			if ('/' == in[len]) {
+				*out++ = '/';
 			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
-		*dot_dot_left = '\0';
+		}
+		in += len;
 	}
+	*out = '\0';
 	return SQFS_OK;
 }
 
-- 
2.43.0


From 96706cfc94f7fdb4fb74722b8bc78afea5bcdd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 14/56] fix: resolve nested, relative and looping links without
 overrunning buffers

A link met while another one was followed recursed without a limit, a
relative target was appended to a path buffer without a length check, and
it was taken relative to the path used instead of the directory holding
the link.
---
 src/dir.c | 136 +++++++++++++++++++++++++-----------------------------
 1 file changed, 62 insertions(+), 74 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index 7e9f332..af7b32e 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -322,78 +322,57 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 
 	sqfs_err error;
 	short found;
-	char base_path[SQUASHFS_PATH_LEN];
-	char new_path[SQUASHFS_PATH_LEN];
-	int inode_num;
 
-	if(strlen(path) > SQUASHFS_PATH_LEN){
-		errno = ENAMETOOLONG;
+	if (!S_ISLNK(node->base.mode)) {
+		errno = EINVAL;
 		return SQFS_ERR;
 	}
 
-	strncpy(base_path, path, SQUASHFS_PATH_LEN);
-	inode_num = 0;
-	do {
-		char buf_link[SQUASHFS_PATH_LEN]; // is enough for path?
-		ssize_t link_length = squash_readlink_inode(fs, node, buf_link, sizeof(buf_link));
-		if (link_length > 0) {
-			if (buf_link[0] == '/') { // is Absolute Path
-				// find node from /
-				error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
-				if (SQFS_OK != error) {
-					return error;
-				}
-				error = sqfs_lookup_path(fs, node, buf_link, &found);
-				strncpy(new_path, buf_link, SQUASHFS_PATH_LEN);
-				if (SQFS_OK != error) {
-					return error;
-				} else if (!found) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-			} else { // is Relative Path
-				size_t pos = strlen(base_path) - 1;
-				// find the last /  "/a/b/cb"
-				while (base_path[pos--] != '/') { }
-
-				memcpy(new_path, base_path, pos + 2);
-				memcpy(new_path + pos + 2, buf_link, link_length);
-				new_path[pos + 2 + link_length] = '\0';
-				
-				error = clear_dot_dot(new_path);
-				if (SQFS_OK != error) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-				
-				// find node from /
-				error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
-				if (SQFS_OK != error) {
-					return error;
-				}
-				error = sqfs_lookup_path(fs, node, new_path, &found);
-				if (SQFS_OK != error) {
-					return error;
-				} else if (!found) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-			}
-
-			inode_num++;
-			if (inode_num > SQUASHFS_MAX_LINK_LEVEL) {
-				errno = ELOOP;
-				return SQFS_ERR;
-			}
-			strncpy(base_path, new_path, SQUASHFS_PATH_LEN);
-
-		} else {
-			return SQFS_ERR;
-		}
-
+	// find node from /
+	error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
+	if (SQFS_OK != error) {
+		return error;
+	}
+	error = sqfs_lookup_path_inner(fs, node, path, &found, 1);
+	if (SQFS_OK != error) {
+		return error;
+	} else if (!found) {
+		errno = ENOENT;
+		return SQFS_ERR;
+	}
 
-	} while (S_ISLNK(node->base.mode));
+	return SQFS_OK;
+}
 
+/* Replace the link `node`, whose name starts at `name` and ends at `rest` in
+	 `path`, with what it points to: everything before it is a directory already
+	 cleared of links, so that is what a relative link starts from. */
+static sqfs_err squash_expand_link(sqfs *fs, sqfs_inode *node, const char *path,
+		const char *name, const char *rest, char **expanded) {
+	char buf_link[SQUASHFS_PATH_LEN]; // is enough for path?
+	size_t base_length;
+	ssize_t link_length;
+	char *new_path;
+
+	link_length = squash_readlink_inode(fs, node, buf_link, sizeof(buf_link));
+	if (link_length <= 0) {
+		return SQFS_ERR;
+	}
+	base_length = '/' == buf_link[0] ? 0 : name - path;
+	new_path = malloc(base_length + link_length + strlen(rest) + 1);
+	if (NULL == new_path) {
+		return SQFS_ERR;
+	}
+	memcpy(new_path, path, base_length);
+	memcpy(new_path + base_length, buf_link, link_length);
+	new_path[base_length + link_length] = '\0';
+	if (SQFS_OK != clear_dot_dot(new_path)) {
+		free(new_path);
+		errno = ENOENT;
+		return SQFS_ERR;
+	}
+	strcat(new_path, rest);
+	*expanded = new_path;
 	return SQFS_OK;
 }
 
@@ -401,9 +380,9 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 		short *found, short follow_link) {
 	sqfs_err err, ret;
 	sqfs_name buf;
-	sqfs_path path_here;
 	sqfs_dir_entry entry;
-	char *path, *path0;
+	char *path, *path0, *expanded;
+	int link_num = 0;
 	short is_last_component;
 	memset(&buf, 0, sizeof(sqfs_name));
 	memset(&entry, 0, sizeof(sqfs_dir_entry));
@@ -466,13 +445,22 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 
 		if (S_ISLNK(inode->base.mode)) {
 			if (!(is_last_component && !follow_link)) {
-				size_t size_here = path - path0;
-				if (size_here > SQUASHFS_PATH_LEN) {
-					size_here = SQUASHFS_PATH_LEN;
+				link_num++;
+				if (link_num > SQUASHFS_MAX_LINK_LEVEL) {
+					errno = ELOOP;
+					ret = SQFS_ERR;
+					goto exit;
+				}
+				err = squash_expand_link(fs, inode, path0, name, path, &expanded);
+				if (SQFS_OK != err) {
+					ret = err;
+					goto exit;
 				}
-				memcpy(path_here, path0, size_here);
-				path_here[size_here] = '\0';
-				err = squash_follow_link(fs, path_here, inode);
+				free(path0);
+				path = path0 = expanded;
+				/* find node from / */
+				*found = 0;
+				err = sqfs_inode_get(fs, inode, sqfs_inode_root(fs));
 				if (SQFS_OK != err) {
 					ret = err;
 					goto exit;
-- 
2.43.0


From d6fb022a8300194e4a3bc5d69f20e0b40db9d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 15/56] fix: squash_extract must not leak its vfd or leave a
 partial file behind

A failed extraction left a truncated temporary file and a virtual file
descriptor, a successful one the descriptor; a failing fclose() went
unnoticed, and something other than a regular file was extracted as one.
---
 src/extract.c | 56 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 7a11fc7..afea19b 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -145,6 +145,30 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 }
 #endif // _WIN32
 
+/* Close the vfd of a failed extraction, keeping the reason of the failure. */
+static void squash_extract_close(int fd)
+{
+	int saved_errno = errno;
+	squash_close(fd);
+	errno = saved_errno;
+}
+
+/* Drop an incomplete temporary file, keeping the reason of the failure. */
+static void squash_extract_discard(FILE *fp, SQUASH_OS_PATH tmpf)
+{
+	int saved_errno = errno;
+	if (NULL != fp) {
+		fclose(fp);
+	}
+#ifdef _WIN32
+	DeleteFileW(tmpf);
+#else
+	unlink(tmpf);
+#endif
+	free((void *)tmpf);
+	errno = saved_errno;
+}
+
 static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	static SQUASH_OS_PATH tmpdir = NULL;
@@ -161,14 +185,22 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	if (-1 == fd) {
 		return NULL;
 	}
+	file = SQUASH_VFD_FILE(fd);
+	if (!S_ISREG(file->st.st_mode)) {
+		errno = S_ISDIR(file->st.st_mode) ? EISDIR : EINVAL;
+		squash_extract_close(fd);
+		return NULL;
+	}
 	if (NULL == tmpdir) {
 		tmpdir = squash_tmpdir();
 	}
 	if (NULL == tmpdir) {
+		squash_extract_close(fd);
 		return NULL;
 	}
 	tmpf = squash_tmpf(tmpdir, ext_name);
 	if (NULL == tmpf) {
+		squash_extract_close(fd);
 		return NULL;
 	}
 #ifdef _WIN32
@@ -177,29 +209,35 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	fp = fopen(tmpf, "wb");
 #endif
 	if (NULL == fp) {
-		free(tmpf);
+		squash_extract_close(fd);
+		free((void *)tmpf);
 		return NULL;
 	}
-	file = SQUASH_VFD_FILE(fd);
 	offset = file->node.xtra.reg.file_size;
 	while (offset > 0) {
 		ssize = squash_read(fd, buffer, 16 * 1024);
 		if (ssize <= 0) {
-			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto failure;
 		}
 		offset -= ssize;
 		size = fwrite(buffer, ssize, 1, fp);
 		if (size != 1) {
-			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto failure;
 		}
 	}
 	assert(0 == offset);
-	fclose(fp);
+	size = fclose(fp);
+	fp = NULL;
+	if (0 != size) {
+		goto failure;
+	}
+	squash_close(fd);
 	return tmpf;
+
+failure:
+	squash_extract_close(fd);
+	squash_extract_discard(fp, tmpf);
+	return NULL;
 }
 
 struct SquashExtractEntry {
-- 
2.43.0


From 6b11279d5caf0bea80c5c34502c6fbb2d78df913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 16/56] fix: squash_tmpf must not reseed rand() for every name

The same three names came up within a second, so that only three files
could be extracted; also report why no name could be made.
---
 src/extract.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index afea19b..cb02008 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -13,6 +13,23 @@
 #ifdef _WIN32
 #include <Windows.h>
 #include <Shlwapi.h>
+#else
+#include <unistd.h>
+#endif
+
+/* Seed rand() once per process: doing so for every name would give
+   the same few names again and again within a second. */
+static void squash_tmpf_seed()
+{
+	static int seeded_pid = 0;
+	int pid = getpid();
+	if (seeded_pid != pid) {
+		srand(time(NULL) * pid);
+		seeded_pid = pid;
+	}
+}
+
+#ifdef _WIN32
 SQUASH_OS_PATH squash_tmpdir()
 {
 	const int squash_win32_buf_sz = 32767;
@@ -58,7 +75,7 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 	wchar_t squash_win32_buf[32767 + 1];
 	size_t curlen, size_ret;
 	int ret, try_cnt = 0;
-	srand(time(NULL) * getpid());
+	squash_tmpf_seed();
 	squash_win32_buf[squash_win32_buf_sz] = 0;
 	while (try_cnt < 3) {
 		squash_win32_buf[0] = 0;
@@ -113,6 +130,9 @@ SQUASH_OS_PATH squash_tmpdir()
 	try_try = "/tmp";
 out:
 	try_try = strdup(try_try);
+	if (NULL == try_try) {
+		return NULL;
+	}
 	length = strlen(try_try);
 	if (length >= 2 && '/' == try_try[length - 1]) {
 		try_try[length - 1] = 0;
@@ -126,14 +146,15 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 	int ret, try_cnt = 0;
 	struct stat statbuf;
 
-	srand(time(NULL) * getpid());
+	squash_tmpf_seed();
 	while (try_cnt < 3) {
 		if (ext_name) {
 			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d.%s", tmpdir, rand(), ext_name);
 		} else {
 			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d", tmpdir, rand());
 		}
-		if (-1 == ret) {
+		if (ret < 0 || ret >= squash_buf_sz) {
+			errno = ENAMETOOLONG;
 			return NULL;
 		}
 		if (-1 == stat(squash_buf, &statbuf)) {
@@ -141,6 +162,7 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 		}
 		++try_cnt;
 	}
+	errno = EEXIST;
 	return NULL;
 }
 #endif // _WIN32
-- 
2.43.0


From 6c59ba21ca4ed52c12555cc579a7763995e996fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:57 +0000
Subject: [PATCH 17/56] fix: the extraction cache must own its keys and be
 emptied with its files

It kept the caller's path pointer, went on returning the files it had
deleted, and answered for another file system opened at the same address.
---
 include/squash.h |  1 +
 src/extract.c    | 60 ++++++++++++++++++++++++++++++++++++------------
 src/fs.c         |  3 +++
 3 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/include/squash.h b/include/squash.h
index 00b70a2..b9ec00b 100644
--- a/include/squash.h
+++ b/include/squash.h
@@ -241,5 +241,6 @@ SQUASH_OS_PATH squash_tmpdir();
 SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name);
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name);
 void squash_extract_clear_cache();
+void squash_extract_forget(sqfs *fs);
 
 #endif
diff --git a/src/extract.c b/src/extract.c
index cb02008..4708eac 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -264,7 +264,7 @@ failure:
 
 struct SquashExtractEntry {
 	sqfs *fs;
-	const char *path;
+	char *path;
 	SQUASH_OS_PATH ret;
 	struct SquashExtractEntry *next;
 };
@@ -273,53 +273,83 @@ static struct SquashExtractEntry* squash_extract_cache = NULL;
 
 static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, const char *path)
 {
-	struct SquashExtractEntry* ptr = squash_extract_cache;
+	struct SquashExtractEntry* ptr;
+	MUTEX_LOCK(&squash_global_mutex);
+	ptr = squash_extract_cache;
 	while (NULL != ptr) {
 		if (fs == ptr->fs && 0 == strcmp(path, ptr->path)) {
-			return ptr;
+			break;
 		}
 		ptr = ptr->next;
 	}
+	MUTEX_UNLOCK(&squash_global_mutex);
 	return ptr;
 }
-static void squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
+static int squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
 {
 	struct SquashExtractEntry* ptr = malloc(sizeof(struct SquashExtractEntry));
 	if (NULL == ptr) {
-		return;
+		return -1;
 	}
 	ptr->fs = fs;
-	ptr->path = path;
+	ptr->path = strdup(path);
+	if (NULL == ptr->path) {
+		free(ptr);
+		return -1;
+	}
 	ptr->ret = ret;
+	MUTEX_LOCK(&squash_global_mutex);
 	ptr->next = squash_extract_cache;
 	squash_extract_cache = ptr;
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return 0;
 }
 
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	SQUASH_OS_PATH ret;
-	static struct SquashExtractEntry* found;
+	const struct SquashExtractEntry* found;
 
 	found = squash_extract_cache_find(fs, path);
 	if (NULL != found) {
 		return found->ret;
 	}
 	ret = squash_uncached_extract(fs, path, ext_name);
-	if (NULL != ret) {
-		squash_extract_cache_insert(fs, path, ret);
+	if (NULL != ret && 0 != squash_extract_cache_insert(fs, path, ret)) {
+		errno = ENOMEM;
+		squash_extract_discard(NULL, ret);
+		return NULL;
 	}
 	return ret;
 }
 
 void squash_extract_clear_cache()
 {
-	struct SquashExtractEntry* ptr = squash_extract_cache;
+	struct SquashExtractEntry* ptr;
+	struct SquashExtractEntry* next;
+	MUTEX_LOCK(&squash_global_mutex);
+	ptr = squash_extract_cache;
+	squash_extract_cache = NULL;
+	MUTEX_UNLOCK(&squash_global_mutex);
 	while (NULL != ptr) {
-#ifdef _WIN32
-		DeleteFileW(ptr->ret);
-#else
-		unlink(ptr->ret);
-#endif
+		next = ptr->next;
+		squash_extract_discard(NULL, ptr->ret);
+		free(ptr->path);
+		free(ptr);
+		ptr = next;
+	}
+}
+
+void squash_extract_forget(sqfs *fs)
+{
+	struct SquashExtractEntry* ptr;
+	MUTEX_LOCK(&squash_global_mutex);
+	ptr = squash_extract_cache;
+	while (NULL != ptr) {
+		if (fs == ptr->fs) {
+			ptr->fs = NULL;
+		}
 		ptr = ptr->next;
 	}
+	MUTEX_UNLOCK(&squash_global_mutex);
 }
diff --git a/src/fs.c b/src/fs.c
index e1453c3..e252cb3 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -26,6 +26,8 @@
 
 #include "squash/file.h"
 
+#include "squash.h"
+
 
 #include <errno.h>
 #include <stdlib.h>
@@ -91,6 +93,7 @@ sqfs_err sqfs_init(sqfs *fs, sqfs_fd_t fd, size_t offset) {
 }
 
 void sqfs_destroy(sqfs *fs) {
+	squash_extract_forget(fs);
 	sqfs_table_destroy(&fs->id_table);
 	sqfs_table_destroy(&fs->frag_table);
 	if (sqfs_export_ok(fs))
-- 
2.43.0


From 466a9d1c7d975e2c7d96a6da3154f7753b69f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 18/56] fix: squash_scandir must return every entry or fail

It stopped at 1024 entries, returned a dangling array for none at all,
took a read error for the end, and did not check its allocations.
---
 src/scandir.c | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/scandir.c b/src/scandir.c
index 1aa5504..8dd9245 100644
--- a/src/scandir.c
+++ b/src/scandir.c
@@ -17,42 +17,60 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 	int (*compar)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **))
 {
 	SQUASH_DIR * openeddir = 0;
-	size_t n = 0;
-	struct SQUASH_DIRENT **list = NULL;
+	size_t n = 0, capacity = MAX_DIR_ENT;
+	struct SQUASH_DIRENT **list = NULL, **grown;
 	struct SQUASH_DIRENT *ent = 0 ,*p = 0;
+	int saved_errno;
 
 	if((dirname == NULL) || (namelist == NULL))
+	{
+		errno = EINVAL;
 		return -1;
+	}
 
 	openeddir = squash_opendir(fs, dirname);
 	if(openeddir == NULL)
 		return -1;
 
 
-	list = (struct SQUASH_DIRENT **)malloc(MAX_DIR_ENT*sizeof(struct SQUASH_DIRENT *));
+	list = (struct SQUASH_DIRENT **)malloc(capacity*sizeof(struct SQUASH_DIRENT *));
+	if(list == NULL)
+		goto failure;
 
-
-	while(( ent = squash_readdir(openeddir)) != NULL)
+	// readdir only touches errno when it fails
+	saved_errno = errno;
+	while(( errno = 0, ent = squash_readdir(openeddir)) != NULL)
 	{
 		if( select && !select(ent))
 			continue;
 
+		if(n >= capacity)
+		{
+			capacity *= 2;
+			grown = realloc((void *)list,capacity*sizeof(struct SQUASH_DIRENT *));
+			if(grown == NULL)
+				goto failure;
+			list = grown;
+		}
+
 		p = (struct SQUASH_DIRENT *)malloc(sizeof(struct SQUASH_DIRENT));
+		if(p == NULL)
+			goto failure;
 
 		memcpy((void *)p,(void *)ent,sizeof(struct SQUASH_DIRENT));
 		list[n] = p;
 
 		n++;
-		if(n >= MAX_DIR_ENT)
-			break;
-
 	}
+	if(errno)
+		goto failure;
+	errno = saved_errno;
 
 	//close the squash_dir
 	squash_closedir(openeddir);
 
 	//realloc the array
-	*namelist = realloc((void *)list,n*sizeof(struct SQUASH_DIRENT *));
+	*namelist = n ? realloc((void *)list,n*sizeof(struct SQUASH_DIRENT *)) : NULL;
 	if(*namelist == NULL)
 		*namelist = list;
 
@@ -63,4 +81,13 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 
 	return n;
 
+failure:
+	saved_errno = errno ? errno : ENOMEM;
+	squash_closedir(openeddir);
+	while(n > 0)
+		free(list[--n]);
+	free(list);
+	errno = saved_errno;
+	return -1;
+
 }
\ No newline at end of file
-- 
2.43.0


From 289c6c38a07394f98e528f55ebf320c9796d7340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 19/56] fix: do not free the caches twice when opening an image
 runs out of memory

---
 src/cache.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cache.c b/src/cache.c
index 5a999cc..f65f6eb 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -62,6 +62,8 @@ void sqfs_cache_destroy(sqfs_cache *cache) {
 	}
 	free(cache->buf);
 	free(cache->idxs);
+	cache->buf = NULL;
+	cache->idxs = NULL;
 }
 
 void *sqfs_cache_get(sqfs_cache *cache, sqfs_cache_idx idx) {
-- 
2.43.0


From d16f47cb95f26446f5b084e64889a66850b5d9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 20/56] fix: closing a traversal that failed to open must not
 use an unset size

---
 src/stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack.c b/src/stack.c
index fe748c3..dc29c29 100644
--- a/src/stack.c
+++ b/src/stack.c
@@ -80,7 +80,7 @@ sqfs_err sqfs_stack_create(sqfs_stack *s, size_t vsize, size_t initial,
 
 void sqfs_stack_init(sqfs_stack *s) {
 	s->items = NULL;
-	s->capacity = 0;
+	s->capacity = s->size = 0;
 }
 
 void sqfs_stack_destroy(sqfs_stack *s) {
-- 
2.43.0


From 9aefdf4c1b334148a6f8bcfd322fa30c6e4e9bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 21/56] fix: the hash table must keep its entries when it
 cannot grow

---
 src/hash.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 2996a24..3d957f2 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -45,20 +45,24 @@ static sqfs_err sqfs_hash_add_internal(sqfs_hash *h, int doubling,
 static sqfs_err sqfs_hash_double(sqfs_hash *h) {
 	sqfs_hash_bucket **ob = h->buckets;
 	size_t oc = h->capacity;
+	sqfs_hash old = *h;
 	size_t i;
 	sqfs_err err;
 	
-	if ((err = sqfs_hash_init(h, h->value_size, oc * 2)))
+	if ((err = sqfs_hash_init(h, h->value_size, oc * 2))) {
+		*h = old;
 		return err;
+	}
 	
+	/* move the buckets over, so that nothing can fail half way through */
 	for (i = 0; i < oc; ++i) {
 		sqfs_hash_bucket *b = ob[i];
 		while (b) {
-			sqfs_hash_bucket *n;
-			if (!err)
-				err = sqfs_hash_add_internal(h, 1, b->key, &b->value);
-			n = b->next;
-			free(b);
+			sqfs_hash_bucket *n = b->next;
+			size_t hash = (b->key & (h->capacity - 1));
+			b->next = h->buckets[hash];
+			h->buckets[hash] = b;
+			++h->size;
 			b = n;
 		}
 	}
-- 
2.43.0


From 7caaefc1d1cf96dc172353e9f6b1d69a12e3c5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 22/56] fix: do not keep the global lock or part of the overlay
 directory behind

Failing to make the overlay directory returned with the lock held, and
the callback removing it at exit did not say to go on.
---
 sample/enclose_io_unix.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 75c0782..1a8a302 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -73,6 +73,7 @@ static int mkdir_workdir_halt_rm(const char *arg1, const struct stat *ptr, int f
 	} else {
 		unlink(arg1);
 	}
+	return 0; // go on with the rest
 }
 #endif
 
@@ -93,7 +94,7 @@ static char * enclose_io_mkdir_workdir()
 			generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
 			if (NULL == generic_mkdir_workdir) {
 				mkdir_workdir = NULL;
-				return NULL;
+				goto exit;
 			}
 #ifdef _WIN32
 			mkdir_workdir = malloc(MAX_PATH * 3);
@@ -101,28 +102,28 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto exit;
 			}
 			if ((size_t)-1 == wcstombs(mkdir_workdir, generic_mkdir_workdir, MAX_PATH)) {
 				free(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto exit;
 			}
 			if (mkdir(mkdir_workdir)) {
 				free(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto exit;
 			}
 			if (atexit(mkdir_workdir_halt)) {
 				free(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto exit;
 			}
 #else
 			mkdir_workdir = generic_mkdir_workdir;
@@ -130,16 +131,18 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto exit;
 			}
 			if (atexit(mkdir_workdir_halt)) {
+				rmdir(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto exit;
 			}
 #endif
 		}
+exit:
 		MUTEX_UNLOCK(&squash_global_mutex);
 	}
 	return mkdir_workdir;
-- 
2.43.0


From f62c33fa57493ed4c8c0d24de4925308a74e4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:11 +0000
Subject: [PATCH 23/56] fix: open with O_CREAT must not write into the caller's
 path

---
 sample/enclose_io_unix.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 1a8a302..4a84ad9 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1072,12 +1072,18 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			va_start(args, flags);
 			mode = va_arg(args, mode_t);
 			va_end(args);
-			char *dir_thereof_ptr = strrchr(pathname, '/');
+			char *dir_thereof = strdup(pathname);
+			char *dir_thereof_ptr;
+			if (NULL == dir_thereof) {
+				errno = ENOMEM;
+				return enclose_io_dos_return(-1);
+			}
+			dir_thereof_ptr = strrchr(dir_thereof, '/');
 			if (dir_thereof_ptr) {
 				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(pathname, 0777);
-				*dir_thereof_ptr = '/';
+				enclose_io_mkdir(dir_thereof, 0777);
 			}
+			free(dir_thereof);
 			if (mkdir_workdir) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
-- 
2.43.0


From 78f942ed4b7c289b1b8ae32925cf92c07263211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 24/56] fix: mkdir of something that exists in the image must
 leave no trace

It failed with EEXIST, but made a directory in the overlay all the same,
which from then on hid the file or the entries of the image.
---
 sample/enclose_io_unix.c | 80 +++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 46 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 4a84ad9..f8e9809 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -205,6 +205,34 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 #endif
 }
 
+static int enclose_io_mkdir_overlay(const char *path, mode_t mode)
+{
+	struct stat buf;
+	int ret;
+	const char* workdir;
+	char* workdir_path;
+
+	if (0 == squash_stat(enclose_io_fs, path, &buf) && !S_ISDIR(buf.st_mode)) {
+		errno = ENOTDIR; // which a directory of the overlay must not hide
+		return -1;
+	}
+	workdir = enclose_io_mkdir_workdir();
+	if (NULL == workdir) {
+		errno = ENOENT;
+		return -1;
+	}
+	workdir_path = malloc(strlen(workdir) + strlen(path) + 1);
+	if (NULL == workdir_path) {
+		errno = ENOMEM;
+		return -1;
+	}
+	strcpy(workdir_path, workdir);
+	strcat(workdir_path, path);
+	ret = enclose_io_mkdir_consult(workdir_path, mode);
+	free(workdir_path);
+	return ret;
+}
+
 int enclose_io_mkdir(const char *path, mode_t mode)
 {
 	if (enclose_io_cwd[0] && '/' != *path) {
@@ -212,61 +240,21 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		int ret;
-		int ret_inner;
-		const char* workdir;
-		const char* workdir_path;
 
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
-		ret = squash_stat(enclose_io_fs, enclose_io_expanded, &buf);
-		workdir = enclose_io_mkdir_workdir();
-		if (NULL == workdir) {
-			errno = ENOENT;
-			return -1;
-		}
-		workdir_path = malloc(strlen(workdir) + strlen(enclose_io_expanded) + 1);
-		if (NULL == workdir_path) {
-			errno = ENOMEM;
-			return -1;
-		}
-		strcpy(workdir_path, workdir);
-		strcat(workdir_path, enclose_io_expanded);
-		ret_inner = enclose_io_mkdir_consult(workdir_path, mode);
-		free(workdir_path);
-		if (0 == ret) {
+		if (0 == squash_stat(enclose_io_fs, enclose_io_expanded, &buf)) {
 			errno = EEXIST;
 			return -1;
-		} else {
-			return ret_inner;
 		}
+		return enclose_io_mkdir_overlay(enclose_io_expanded, mode);
 	} else if (enclose_io_is_path(path)) {
 		struct stat buf;
-		int ret;
-		int ret_inner;
-		const char* workdir;
-		const char* workdir_path;
 
-		ret = squash_stat(enclose_io_fs, path, &buf);
-		workdir = enclose_io_mkdir_workdir();
-		if (NULL == workdir) {
-			errno = ENOENT;
-			return -1;
-		}
-		workdir_path = malloc(strlen(workdir) + strlen(path) + 1);
-		if (NULL == workdir_path) {
-			errno = ENOMEM;
-			return -1;
-		}
-		strcpy(workdir_path, workdir);
-		strcat(workdir_path, path);
-		ret_inner = enclose_io_mkdir_consult(workdir_path, mode);
-		free(workdir_path);
-		if (0 == ret) {
+		if (0 == squash_stat(enclose_io_fs, path, &buf)) {
 			errno = EEXIST;
 			return -1;
-		} else {
-			return ret_inner;
 		}
+		return enclose_io_mkdir_overlay(path, mode);
 	} else {
 		return mkdir(path, mode);
 	}
@@ -1024,7 +1012,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			char *dir_thereof_ptr = strrchr(enclose_io_expanded, '/');
 			if (dir_thereof_ptr) {
 				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(enclose_io_expanded, 0777);
+				enclose_io_mkdir_overlay(enclose_io_expanded, 0777);
 				*dir_thereof_ptr = '/';
 			}
 			if (mkdir_workdir) {
@@ -1081,7 +1069,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			dir_thereof_ptr = strrchr(dir_thereof, '/');
 			if (dir_thereof_ptr) {
 				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(dir_thereof, 0777);
+				enclose_io_mkdir_overlay(dir_thereof, 0777);
 			}
 			free(dir_thereof);
 			if (mkdir_workdir) {
-- 
2.43.0


From 9cfb159fdc71d496660e07282e67a02f8ab83ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 25/56] fix: do not squeeze file offsets through an int

---
 sample/enclose_io_unix.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index f8e9809..3901f00 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1129,7 +1129,11 @@ int enclose_io_close(int fildes)
 ssize_t enclose_io_read(int fildes, void *buf, size_t nbyte)
 {
 	if (SQUASH_VALID_VFD(fildes)) {
-		return enclose_io_dos_return(squash_read(fildes, buf, nbyte));
+		ssize_t ret = squash_read(fildes, buf, nbyte);
+		if (-1 == ret) {
+			enclose_io_dos_return(-1);
+		}
+		return ret;
 	} else {
 		return read(fildes, buf, nbyte);
 	}
@@ -1138,7 +1142,11 @@ ssize_t enclose_io_read(int fildes, void *buf, size_t nbyte)
 off_t enclose_io_lseek(int fildes, off_t offset, int whence)
 {
 	if (SQUASH_VALID_VFD(fildes)) {
-		return enclose_io_dos_return(squash_lseek(fildes, offset, whence));
+		off_t ret = squash_lseek(fildes, offset, whence);
+		if (-1 == ret) {
+			enclose_io_dos_return(-1);
+		}
+		return ret;
 	} else {
 		return lseek(fildes, offset, whence);
 	}
-- 
2.43.0


From e14187e154dfb14a31eed9181afc594eb6dce8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 26/56] fix: pread and readv must keep the position and the
 data when a read fails

pread left the position at its offset, readv dropped what it had read and
stopped at an empty buffer.
---
 sample/enclose_io_unix.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 3901f00..e66f30a 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -573,6 +573,7 @@ ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 	if (SQUASH_VALID_VFD(d)) {
 		off_t lseek_off, backup_off;
 		ssize_t read_ssize;
+		int read_errno;
 		backup_off = squash_lseek(d, 0, SQUASH_SEEK_CUR);
 		if (-1 == backup_off) {
 			return -1;
@@ -582,11 +583,10 @@ ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 			return -1;
 		}
 		read_ssize = squash_read(d, buf, nbyte);
-		if (-1 == read_ssize) {
-			return -1;
-		}
+		read_errno = errno;
 		lseek_off = squash_lseek(d, backup_off, SQUASH_SEEK_SET);
 		assert(backup_off == lseek_off);
+		errno = read_errno;
 		return read_ssize;
 	} else {
 		return pread(d, buf, nbyte, offset);
@@ -602,11 +602,12 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 		for (i = 0; i < iovcnt; ++i) {
 			i_ssize = squash_read(d, iov[i].iov_base, iov[i].iov_len);
 			if (-1 == i_ssize) {
-				return -1;
-			} else if (0 == i_ssize) {
+				// what has been read already must not get lost
+				return ret > 0 ? ret : -1;
+			}
+			ret += i_ssize;
+			if ((size_t)i_ssize < iov[i].iov_len) {
 				break;
-			} else {
-				ret += i_ssize;
 			}
 		}
 		return ret;
-- 
2.43.0


From dafedddfe1e752d2b94d991b7fa5d7ecf854b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 27/56] fix: pass the mode to access() for a file in the
 overlay directory

---
 sample/enclose_io_unix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index e66f30a..b135034 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -632,14 +632,14 @@ int enclose_io_access(const char *path, int mode)
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_stat(enclose_io_fs, enclose_io_expanded, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else if (enclose_io_is_path(path)) {
 		struct stat buf;
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			path,
 			squash_stat(enclose_io_fs, path, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else {
 		return access(path, mode);
-- 
2.43.0


From 701c92925c8479234572dbbb1db2edffe7d9da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 28/56] fix: getcwd must fail with ERANGE instead of truncating
 the directory

---
 sample/enclose_io_unix.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index b135034..4dc14dd 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -782,10 +782,13 @@ char *enclose_io_getcwd(char *buf, size_t size)
 				#endif
 				return NULL;
 			}
-		} else {
-			if (size - 1 < memcpy_len) {
-				memcpy_len = size - 1;
-			}
+		} else if (size < memcpy_len) {
+			// the slash at the end makes room for the terminating null
+			errno = 0 == size ? EINVAL : ERANGE;
+			#ifdef _WIN32
+			ENCLOSE_IO_SET_LAST_ERROR;
+			#endif
+			return NULL;
 		}
 		memcpy(buf, enclose_io_cwd, memcpy_len);
 		assert(memcpy_len - 1 >= 0);
-- 
2.43.0


From f64e26731cc2ca601a8423dc5df9248d3fb4d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 29/56] fix: chdir to a relative path starts from the virtual
 current directory

---
 sample/enclose_io_unix.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 4dc14dd..dc9eb6a 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -706,7 +706,13 @@ void enclose_io_chdir_helper(const char *path)
 
 int enclose_io_chdir(const char *path)
 {
-	if (enclose_io_is_path(path)) {
+	if (enclose_io_cwd[0] && *path && '/' != *path) {
+		sqfs_path enclose_io_expanded;
+		size_t enclose_io_cwd_len;
+		size_t memcpy_len;
+		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		return enclose_io_chdir(enclose_io_expanded);
+	} else if (enclose_io_is_path(path)) {
 		if (mkdir_workdir) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
-- 
2.43.0


From d276f684ffae9baf02af27507a3d928fe86a6ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 30/56] fix: openat with O_CREAT must not abort on a path in
 the image

---
 sample/enclose_io_unix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index dc9eb6a..9998672 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1274,7 +1274,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
     if (3 == nargs) {
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(nargs - 1, pathname, flags);
         }
 
         // If the pathname given in pathname is relative,
@@ -1282,7 +1282,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(nargs - 1, pathname, flags);
         }
 
         return openat(dirfd, pathname, flags);
@@ -1297,7 +1297,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
 
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(nargs - 1, pathname, flags, mode);
         }
 
         // If the pathname given in pathname is relative,
@@ -1305,7 +1305,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(nargs - 1, pathname, flags, mode);
         }
 
         return openat(dirfd, pathname, flags, mode);
-- 
2.43.0


From 1835266c02b42b116420409f1d0f151f6db05dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 31/56] fix: dlopen of a missing file must not open the main
 program instead

---
 sample/enclose_io_unix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 9998672..9391fb2 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -618,7 +618,9 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 
 void* enclose_io_dlopen(const char* path, int mode)
 {
-    return dlopen(enclose_io_ifextract(path, NULL), mode);
+    const char* extracted = path ? enclose_io_ifextract(path, NULL) : NULL;
+    // a null path would open the main program
+    return dlopen(extracted ? extracted : path, mode);
 }
 
 int enclose_io_access(const char *path, int mode)
-- 
2.43.0


From 43ce41eb3509eaf9e7a43ad80b07755c84fb8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 32/56] fix: fdopendir must not leak when it fails

---
 sample/enclose_io_unix.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 9391fb2..e88a9ff 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -424,7 +424,7 @@ DIR * enclose_io_fdopendir(int fd)
 		return fdopendir(fd);
 	}
 
-	file = squash_global_fdtable.fds[fd];
+	file = SQUASH_VFD_FILE(fd);
 
 	dir = calloc(1, sizeof(SQUASH_DIR));
 
@@ -440,6 +440,11 @@ DIR * enclose_io_fdopendir(int fd)
 	dir->entries = NULL;
 	dir->nr = 0;
 	dir->filename = strdup(file->filename);
+	if (NULL == dir->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	dir->fd = fd;
 	dir->actual_nr = 0;
 	dir->loc = 0;
@@ -465,9 +470,8 @@ DIR * enclose_io_fdopendir(int fd)
 		goto failure;
 	}
 	
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
-
 	MUTEX_LOCK(&squash_global_mutex);
+	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
 	free(handle);
 	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
 	MUTEX_UNLOCK(&squash_global_mutex);
@@ -477,6 +481,7 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From bbc7f6e47d604d011263b956c8aca1db2d1a1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 33/56] fix: only paths below /__enclose_io_memfs__ belong to
 the image

---
 sample/enclose_io_unix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index e88a9ff..c37086c 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1172,7 +1172,8 @@ off_t enclose_io_lseek(int fildes, off_t offset, int whence)
 short enclose_io_is_path(char *pathname)
 {
 	if (strnlen((pathname), 21) >= 21) {
-		if (0 == strncmp((pathname), "/__enclose_io_memfs__", 21)
+		if ((0 == strncmp((pathname), "/__enclose_io_memfs__", 21)
+				&& ('\0' == pathname[21] || '/' == pathname[21] || '\\' == pathname[21]))
 #ifdef _WIN32
 			|| 0 == strncmp((pathname), "\\__enclose_io_memfs__", 21)
 #endif
-- 
2.43.0


From e9fa5474b18b69e189784a3c068a1ddb77c90f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 34/56] fix: squash_readdir must not write past d_name for a
 name of 256 bytes

---
 src/dirent.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index b4e4f87..44defda 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -147,8 +147,8 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			if (SQUASHFS_NAME_LEN < minsize) {
 				minsize = SQUASHFS_NAME_LEN;
 			}
-			if (sizeof(sysentry->d_name) < minsize) {
-				minsize = sizeof(sysentry->d_name);
+			if (sizeof(sysentry->d_name) - 1 < minsize) {
+				minsize = sizeof(sysentry->d_name) - 1;
 			}
 			memcpy(sysentry->d_name, dirp->entries[dirp->actual_nr].name, minsize);
 #ifndef __linux__
-- 
2.43.0


From 59ea0e271a6ff7f1da48f7f7a11605710115425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 35/56] fix: clear the extraction cache before destroying the
 mutex it takes

---
 src/fd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fd.c b/src/fd.c
index 1f2db16..d11dd4e 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -235,8 +235,8 @@ static void squash_halt()
 	if (squash_global_fdtable.fds) {
 		free(squash_global_fdtable.fds);
 	}
-	MUTEX_DESTORY(&squash_global_mutex);
 	squash_extract_clear_cache();
+	MUTEX_DESTORY(&squash_global_mutex);
 }
 
 sqfs_err squash_start()
-- 
2.43.0


From 04270d102af8a397c28d02b8cc553edf7d7bdd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 36/56] fix: a failed sqfs_dir_next must not move the directory
 position

---
 src/dir.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index af7b32e..e2e857b 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -127,6 +127,7 @@ short sqfs_dentry_is_dir(sqfs_dir_entry *entry) {
 short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 		sqfs_err *err) {
 	struct squashfs_dir_entry e;
+	sqfs_dir before = *dir;
 	
 	*err = SQFS_OK;
 	entry->offset = dir->offset;
@@ -136,12 +137,12 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 			return 0;
 		
 		if ((*err = sqfs_dir_md_read(fs, dir, &dir->header, sizeof(dir->header))))
-			return 0;
+			goto error;
 		++(dir->header.count); /* biased by one */
 	}
 	
 	if ((*err = sqfs_dir_md_read(fs, dir, &e, sizeof(e))))
-		return 0;
+		goto error;
 	--(dir->header.count);
 	
 	entry->type = e.type;
@@ -152,11 +153,16 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 	
 	*err = sqfs_dir_md_read(fs, dir, entry->name, sqfs_dentry_name_size(entry));
 	if (*err)
-		return 0;
+		goto error;
 	
 	entry->next_offset = dir->offset;
 
 	return 1;
+
+error:
+	/* stay in front of the entry, so that it can be tried again */
+	*dir = before;
+	return 0;
 }
 
 
-- 
2.43.0


From b723375ccae658a255d2d67a208ffb670dfad253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:12 +0000
Subject: [PATCH 37/56] fix: directories that only lead to a created one must
 let it be created

---
 sample/enclose_io_unix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index c37086c..c4d6623 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -182,7 +182,8 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 #ifdef _WIN32
 					mkdir(path2);
 #else
-					mkdir(path2, mode);
+					// it has to hold what is being created, whatever the mode of that
+					mkdir(path2, S_IRWXU | mode);
 #endif
 					free(path2);
 				}
-- 
2.43.0


From b9ec1d63d0401c6f74959fbcf91d16067ad9473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 38/56] fix: two threads extracting at once could choose the
 same temporary file

The generator was seeded, and the name checked and created, without a lock:
both threads could get the same name and write into one file.
---
 src/extract.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/extract.c b/src/extract.c
index 4708eac..d2fd4c9 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -213,15 +213,20 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 		squash_extract_close(fd);
 		return NULL;
 	}
+	// from choosing a name to creating the file no other thread may choose
+	MUTEX_LOCK(&squash_global_mutex);
 	if (NULL == tmpdir) {
 		tmpdir = squash_tmpdir();
 	}
 	if (NULL == tmpdir) {
+		MUTEX_UNLOCK(&squash_global_mutex);
 		squash_extract_close(fd);
 		return NULL;
 	}
+
 	tmpf = squash_tmpf(tmpdir, ext_name);
 	if (NULL == tmpf) {
+		MUTEX_UNLOCK(&squash_global_mutex);
 		squash_extract_close(fd);
 		return NULL;
 	}
@@ -230,6 +235,7 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 #else
 	fp = fopen(tmpf, "wb");
 #endif
+	MUTEX_UNLOCK(&squash_global_mutex);
 	if (NULL == fp) {
 		squash_extract_close(fd);
 		free((void *)tmpf);
-- 
2.43.0


From 5962852f43f61fb4ed9c41fd7036ee64603f6c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 39/56] fix: two threads extracting the same file each kept a
 file of their own

The second to finish is now given the file of the first.
---
 src/extract.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index d2fd4c9..e0592f3 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -291,29 +291,44 @@ static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, cons
 	MUTEX_UNLOCK(&squash_global_mutex);
 	return ptr;
 }
-static int squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
+/* Returns what is cached afterwards: `ret`, or the file of another thread
+   that extracted the same path meanwhile. NULL if there is no memory. */
+static SQUASH_OS_PATH squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
 {
+	struct SquashExtractEntry* found;
 	struct SquashExtractEntry* ptr = malloc(sizeof(struct SquashExtractEntry));
 	if (NULL == ptr) {
-		return -1;
+		return NULL;
 	}
 	ptr->fs = fs;
 	ptr->path = strdup(path);
 	if (NULL == ptr->path) {
 		free(ptr);
-		return -1;
+		return NULL;
 	}
 	ptr->ret = ret;
 	MUTEX_LOCK(&squash_global_mutex);
-	ptr->next = squash_extract_cache;
-	squash_extract_cache = ptr;
+	found = squash_extract_cache;
+	while (NULL != found && (fs != found->fs || 0 != strcmp(path, found->path))) {
+		found = found->next;
+	}
+	if (NULL == found) {
+		ptr->next = squash_extract_cache;
+		squash_extract_cache = ptr;
+	}
 	MUTEX_UNLOCK(&squash_global_mutex);
-	return 0;
+	if (NULL != found) {
+		free(ptr->path);
+		free(ptr);
+		return found->ret;
+	}
+	return ret;
 }
 
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	SQUASH_OS_PATH ret;
+	SQUASH_OS_PATH cached;
 	const struct SquashExtractEntry* found;
 
 	found = squash_extract_cache_find(fs, path);
@@ -321,12 +336,17 @@ SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 		return found->ret;
 	}
 	ret = squash_uncached_extract(fs, path, ext_name);
-	if (NULL != ret && 0 != squash_extract_cache_insert(fs, path, ret)) {
+	if (NULL == ret) {
+		return NULL;
+	}
+	cached = squash_extract_cache_insert(fs, path, ret);
+	if (NULL == cached) {
 		errno = ENOMEM;
+	}
+	if (cached != ret) {
 		squash_extract_discard(NULL, ret);
-		return NULL;
 	}
-	return ret;
+	return cached;
 }
 
 void squash_extract_clear_cache()
-- 
2.43.0


From 48766e121a961b6a71f1c02a0c19d15e8592bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 40/56] fix: dlopen relative to the virtual directory could
 load a file of the real one

---
 sample/enclose_io_unix.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index c4d6623..503f3fd 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -625,6 +625,14 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 void* enclose_io_dlopen(const char* path, int mode)
 {
     const char* extracted = path ? enclose_io_ifextract(path, NULL) : NULL;
+    if (path && !extracted && enclose_io_cwd[0] && '/' != *path && strchr(path, '/')) {
+        // relative to the virtual directory, so not to the real one
+        sqfs_path enclose_io_expanded;
+        size_t enclose_io_cwd_len;
+        size_t memcpy_len;
+        ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+        return dlopen(enclose_io_expanded, mode);
+    }
     // a null path would open the main program
     return dlopen(extracted ? extracted : path, mode);
 }
-- 
2.43.0


From 15afa86a0375a32fcffa2d7ca5ef1d484e342fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 41/56] fix: dots in a path must not lead beside the overlay
 directory

---
 sample/enclose_io_common.h |  3 ++-
 sample/enclose_io_unix.c   | 42 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index be4eaad..e62333f 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -69,6 +69,7 @@ extern sqfs_path enclose_io_cwd;
 short enclose_io_is_path(char *pathname);
 short enclose_io_is_path_w(wchar_t *pathname);
 short enclose_io_is_relative_w(wchar_t *pathname);
+short enclose_io_overlay_tail(char *tail);
 
 #define ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(PATH, RETURN1, RETURN2) \
 	if (mkdir_workdir) { \
@@ -88,7 +89,7 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 		mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope); \
 		if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) { \
 			memmove(mkdir_workdir_expanded_head, mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope), strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1); \
-			if (0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) { \
+			if (enclose_io_overlay_tail(mkdir_workdir_expanded_head) && 0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) { \
 				return(RETURN2); \
 			} \
 		} \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 503f3fd..cb836f7 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -148,6 +148,35 @@ exit:
 	return mkdir_workdir;
 }
 
+/* Interpret the dots of what follows the scope in a path (it starts with a
+   slash), as the image does. Returns 0 if they lead out of the overlay. */
+short enclose_io_overlay_tail(char *tail)
+{
+	char *in = tail;
+	char *out = tail;
+	size_t len;
+
+	while (*in) {
+		len = strcspn(in + 1, "/");
+		if (2 == len && '.' == in[1] && '.' == in[2]) {
+			if (out == tail) {
+				return 0;
+			}
+			while ('/' != *--out) {
+			}
+		} else if (!(1 == len && '.' == in[1]) && (len || !in[1])) {
+			memmove(out, in, len + 1);
+			out += len + 1;
+		}
+		in += len + 1;
+	}
+	if (out == tail) {
+		*out++ = '/';
+	}
+	*out = '\0';
+	return 1;
+}
+
 static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 	int ret;
 	char *head = NULL;
@@ -161,7 +190,8 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 	}
 
 	head = strstr(path, enclose_io_mkdir_scope);
-	if (NULL == head || '/' != head[strlen(enclose_io_mkdir_scope)]) {
+	if (NULL == head || '/' != head[strlen(enclose_io_mkdir_scope)]
+			|| !enclose_io_overlay_tail(head + strlen(enclose_io_mkdir_scope))) {
 		errno = ENOENT;
 		return -1;
 	}
@@ -750,7 +780,7 @@ int enclose_io_chdir(const char *path)
 					mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
 					strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
 				);
-				if (0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) {
+				if (enclose_io_overlay_tail(mkdir_workdir_expanded_head) && 0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) {
 					int ret = chdir(mkdir_workdir_expanded);
 					if (0 == ret) {
 						enclose_io_chdir_helper(path);
@@ -1062,6 +1092,10 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 						mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
 						strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
 					);
+					if (!enclose_io_overlay_tail(mkdir_workdir_expanded_head)) {
+						errno = ENOENT;
+						return enclose_io_dos_return(-1);
+					}
 					return enclose_io_dos_return(open(mkdir_workdir_expanded, flags, mode));
 				} else {
 					errno = ENOENT;
@@ -1119,6 +1153,10 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 						mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
 						strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
 					);
+					if (!enclose_io_overlay_tail(mkdir_workdir_expanded_head)) {
+						errno = ENOENT;
+						return enclose_io_dos_return(-1);
+					}
 					return enclose_io_dos_return(open(mkdir_workdir_expanded, flags, mode));
 				} else {
 					errno = ENOENT;
-- 
2.43.0


From 7444dd1fa1e0828a38a0d2462399767e9faa5439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 42/56] fix: leave nothing of the overlay behind that cannot be
 listed

---
 sample/enclose_io_unix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index cb836f7..6182f04 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -68,7 +68,10 @@ static void mkdir_workdir_halt_rm(const wchar_t *sPath)
 #else
 static int mkdir_workdir_halt_rm(const char *arg1, const struct stat *ptr, int flag, struct FTW *ftwarg)
 {
-	if (FTW_D == flag || FTW_DNR == flag || FTW_DP == flag) {
+	if (FTW_DNR == flag && S_IRWXU != (ptr->st_mode & S_IRWXU) && 0 == chmod(arg1, S_IRWXU)) {
+		// created without the permission to list it, yet it may hold something
+		nftw(arg1, mkdir_workdir_halt_rm, 20, FTW_PHYS | FTW_MOUNT | FTW_DEPTH);
+	} else if (FTW_D == flag || FTW_DNR == flag || FTW_DP == flag) {
 		rmdir(arg1);
 	} else {
 		unlink(arg1);
-- 
2.43.0


From 9244d4996560a4e2a85cae11cf574869ade73be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 43/56] fix: read the overlay's directory under the lock

A thread could see mkdir_workdir set before the directory existed, or read it
while another thread set it.
---
 sample/enclose_io_common.h |   3 +-
 sample/enclose_io_unix.c   | 127 ++++++++++++++++++++-----------------
 sample/enclose_io_win32.c  |   6 +-
 3 files changed, 75 insertions(+), 61 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index e62333f..f14b4ec 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -70,9 +70,10 @@ short enclose_io_is_path(char *pathname);
 short enclose_io_is_path_w(wchar_t *pathname);
 short enclose_io_is_relative_w(wchar_t *pathname);
 short enclose_io_overlay_tail(char *tail);
+char * enclose_io_workdir();
 
 #define ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(PATH, RETURN1, RETURN2) \
-	if (mkdir_workdir) { \
+	if (enclose_io_workdir()) { \
 		sqfs_path mkdir_workdir_expanded; \
 		char *mkdir_workdir_expanded_head; \
 		size_t mkdir_workdir_len; \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 6182f04..fc9ab1d 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -89,66 +89,79 @@ static void mkdir_workdir_halt()
 #endif
 }
 
+/* The directory of the overlay, NULL when there is none so far. Once made it
+   stays: mkdir_workdir itself may be used after this has returned it. */
+char * enclose_io_workdir()
+{
+	char *ret;
+
+	MUTEX_LOCK(&squash_global_mutex);
+	ret = mkdir_workdir;
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return ret;
+}
+
 static char * enclose_io_mkdir_workdir()
 {
+	char *ret;
+
+	MUTEX_LOCK(&squash_global_mutex);
 	if (NULL == mkdir_workdir) {
-		MUTEX_LOCK(&squash_global_mutex);
-		if (NULL == mkdir_workdir) {
-			generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
-			if (NULL == generic_mkdir_workdir) {
-				mkdir_workdir = NULL;
-				goto exit;
-			}
+		generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
+		if (NULL == generic_mkdir_workdir) {
+			mkdir_workdir = NULL;
+			goto exit;
+		}
 #ifdef _WIN32
-			mkdir_workdir = malloc(MAX_PATH * 3);
-			if (NULL == mkdir_workdir) {
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				goto exit;
-			}
-			if ((size_t)-1 == wcstombs(mkdir_workdir, generic_mkdir_workdir, MAX_PATH)) {
-				free(mkdir_workdir);
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				goto exit;
-			}
-			if (mkdir(mkdir_workdir)) {
-				free(mkdir_workdir);
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				goto exit;
-			}
-			if (atexit(mkdir_workdir_halt)) {
-				free(mkdir_workdir);
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				goto exit;
-			}
+		mkdir_workdir = malloc(MAX_PATH * 3);
+		if (NULL == mkdir_workdir) {
+			mkdir_workdir = NULL;
+			free(generic_mkdir_workdir);
+			generic_mkdir_workdir = NULL;
+			goto exit;
+		}
+		if ((size_t)-1 == wcstombs(mkdir_workdir, generic_mkdir_workdir, MAX_PATH)) {
+			free(mkdir_workdir);
+			mkdir_workdir = NULL;
+			free(generic_mkdir_workdir);
+			generic_mkdir_workdir = NULL;
+			goto exit;
+		}
+		if (mkdir(mkdir_workdir)) {
+			free(mkdir_workdir);
+			mkdir_workdir = NULL;
+			free(generic_mkdir_workdir);
+			generic_mkdir_workdir = NULL;
+			goto exit;
+		}
+		if (atexit(mkdir_workdir_halt)) {
+			free(mkdir_workdir);
+			mkdir_workdir = NULL;
+			free(generic_mkdir_workdir);
+			generic_mkdir_workdir = NULL;
+			goto exit;
+		}
 #else
-			mkdir_workdir = generic_mkdir_workdir;
-			if (mkdir(mkdir_workdir, S_IRWXU)) {
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				goto exit;
-			}
-			if (atexit(mkdir_workdir_halt)) {
-				rmdir(mkdir_workdir);
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				goto exit;
-			}
-#endif
+		mkdir_workdir = generic_mkdir_workdir;
+		if (mkdir(mkdir_workdir, S_IRWXU)) {
+			mkdir_workdir = NULL;
+			free(generic_mkdir_workdir);
+			generic_mkdir_workdir = NULL;
+			goto exit;
 		}
-exit:
-		MUTEX_UNLOCK(&squash_global_mutex);
+		if (atexit(mkdir_workdir_halt)) {
+			rmdir(mkdir_workdir);
+			mkdir_workdir = NULL;
+			free(generic_mkdir_workdir);
+			generic_mkdir_workdir = NULL;
+			goto exit;
+		}
+#endif
 	}
-	return mkdir_workdir;
+exit:
+	ret = mkdir_workdir;
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return ret;
 }
 
 /* Interpret the dots of what follows the scope in a path (it starts with a
@@ -762,7 +775,7 @@ int enclose_io_chdir(const char *path)
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		return enclose_io_chdir(enclose_io_expanded);
 	} else if (enclose_io_is_path(path)) {
-		if (mkdir_workdir) {
+		if (enclose_io_workdir()) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
 			size_t mkdir_workdir_len;
@@ -885,7 +898,7 @@ EncloseIOSetCurrentDirectoryW(
 
 		W_ENCLOSE_IO_PATH_CONVERT(lpPathName);
 
-		if (mkdir_workdir) {
+		if (enclose_io_workdir()) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
 			size_t mkdir_workdir_len;
@@ -1074,7 +1087,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				enclose_io_mkdir_overlay(enclose_io_expanded, 0777);
 				*dir_thereof_ptr = '/';
 			}
-			if (mkdir_workdir) {
+			if (enclose_io_workdir()) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
 				size_t mkdir_workdir_len;
@@ -1135,7 +1148,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				enclose_io_mkdir_overlay(dir_thereof, 0777);
 			}
 			free(dir_thereof);
-			if (mkdir_workdir) {
+			if (enclose_io_workdir()) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
 				size_t mkdir_workdir_len;
diff --git a/sample/enclose_io_win32.c b/sample/enclose_io_win32.c
index 2929257..9436ad0 100644
--- a/sample/enclose_io_win32.c
+++ b/sample/enclose_io_win32.c
@@ -104,7 +104,7 @@ int enclose_io_wchdir(const wchar_t *path)
 
 		W_ENCLOSE_IO_PATH_CONVERT(path);
 
-		if (mkdir_workdir) {
+		if (enclose_io_workdir()) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
 			size_t mkdir_workdir_len;
@@ -310,7 +310,7 @@ EncloseIOCreateFileW(
 				enclose_io_mkdir(enclose_io_expanded, 0777);
 				*dir_thereof_ptr = '/';
 			}
-			if (mkdir_workdir) {
+			if (enclose_io_workdir()) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
 				size_t mkdir_workdir_len;
@@ -383,7 +383,7 @@ EncloseIOCreateFileW(
 				enclose_io_mkdir(enclose_io_converted, 0777);
 				*dir_thereof_ptr = '/';
 			}
-			if (mkdir_workdir) {
+			if (enclose_io_workdir()) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
 				size_t mkdir_workdir_len;
-- 
2.43.0


From 8974b92c829231564d3aa0d38e99bc0e9903dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 44/56] fix: mkdir of a symbolic link of the image fails with
 EEXIST, wherever it leads

---
 sample/enclose_io_unix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index fc9ab1d..65fcc34 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -289,7 +289,7 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		size_t memcpy_len;
 
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
-		if (0 == squash_stat(enclose_io_fs, enclose_io_expanded, &buf)) {
+		if (0 == squash_lstat(enclose_io_fs, enclose_io_expanded, &buf)) {
 			errno = EEXIST;
 			return -1;
 		}
@@ -297,7 +297,7 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 	} else if (enclose_io_is_path(path)) {
 		struct stat buf;
 
-		if (0 == squash_stat(enclose_io_fs, path, &buf)) {
+		if (0 == squash_lstat(enclose_io_fs, path, &buf)) {
 			errno = EEXIST;
 			return -1;
 		}
-- 
2.43.0


From 97d9bc1d073939653394c8d068d381107344bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 45/56] fix: sqfs_readlink with a size of 0 writes nothing

---
 src/fs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fs.c b/src/fs.c
index e252cb3..41d66b3 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -314,6 +314,10 @@ sqfs_err sqfs_readlink(sqfs *fs, sqfs_inode *inode, char *buf, size_t *size) {
 		return SQFS_OK;
 	}
 
+	if (!*size) { // not even room for the null
+		errno = EINVAL;
+		return SQFS_ERR;
+	}
 	if (want > *size - 1)
 		want = *size - 1;
 	cur = inode->next;
-- 
2.43.0


From 10b8f01f5fcc46d75d8ebda44578ad0a7063192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 46/56] fix: the virtual working directory does not grow with
 every '..'

chdir("..") kept the dots, so that the path of the working directory grew
until it was cut off at SQUASHFS_PATH_LEN and meant another directory.
---
 sample/enclose_io_unix.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 65fcc34..0176bda 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -754,11 +754,22 @@ SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name)
 
 void enclose_io_chdir_helper(const char *path)
 {
+        sqfs_path cleared;
+        size_t scope_len = strlen(enclose_io_mkdir_scope);
         size_t memcpy_len = strlen(path);
         if (SQUASHFS_PATH_LEN - 1 < memcpy_len) {
         	memcpy_len = SQUASHFS_PATH_LEN - 1;
         }
         memcpy(enclose_io_cwd, path, memcpy_len);
+        enclose_io_cwd[memcpy_len] = '\0';
+        if (0 == strncmp(enclose_io_cwd, enclose_io_mkdir_scope, scope_len)) {
+        	// without the dots, or every step back would make it longer
+        	strcpy(cleared, enclose_io_cwd);
+        	if (enclose_io_overlay_tail(cleared + scope_len)) {
+        		strcpy(enclose_io_cwd, cleared);
+        		memcpy_len = strlen(enclose_io_cwd);
+        	}
+        }
         while ('/' == enclose_io_cwd[memcpy_len - 1]) {
         	memcpy_len--;
         }
-- 
2.43.0


From 6f41ef8035da695e9d616aa957917b2a22833813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 47/56] fix: a path that is too long below the virtual working
 directory names nothing

It was cut off at SQUASHFS_PATH_LEN, and then could name something else.
---
 sample/enclose_io_common.h | 7 ++++++-
 sample/enclose_io_unix.c   | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index f14b4ec..b68560e 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -101,7 +101,12 @@ char * enclose_io_workdir();
 			enclose_io_cwd_len = strlen(enclose_io_cwd); \
 			memcpy(enclose_io_expanded, enclose_io_cwd, enclose_io_cwd_len); \
 			memcpy_len = strlen(path); \
-			if (SQUASHFS_PATH_LEN - enclose_io_cwd_len < memcpy_len) { memcpy_len = SQUASHFS_PATH_LEN - enclose_io_cwd_len; } \
+			if (SQUASHFS_PATH_LEN - enclose_io_cwd_len < memcpy_len) { \
+				/* cut off, it could name something else: this names nothing */ \
+				memset(&enclose_io_expanded[1], 'x', SQUASHFS_PATH_LEN - 1); \
+				enclose_io_cwd_len = SQUASHFS_PATH_LEN; \
+				memcpy_len = 0; \
+			} \
 			memcpy(&enclose_io_expanded[enclose_io_cwd_len], (path), memcpy_len); \
 			enclose_io_expanded[enclose_io_cwd_len + memcpy_len] = '\0'
 
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 0176bda..cb865ad 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -786,6 +786,13 @@ int enclose_io_chdir(const char *path)
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		return enclose_io_chdir(enclose_io_expanded);
 	} else if (enclose_io_is_path(path)) {
+		if (SQUASHFS_PATH_LEN - 1 < strlen(path)) {
+			errno = ENAMETOOLONG; // cut off, it could be another directory
+			#ifdef _WIN32
+			ENCLOSE_IO_SET_LAST_ERROR;
+			#endif
+			return -1;
+		}
 		if (enclose_io_workdir()) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
-- 
2.43.0


From c1a94e159cf08550f8c94892e4c7bb1e67ffc10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 48/56] fix: an overlay path that does not fit is refused

The path of the overlay's directory was copied into a buffer of
SQUASHFS_PATH_LEN bytes however long it was (TMPDIR decides), and what is
below a long one was cut off, so that different files became one.
---
 sample/enclose_io_common.h |  2 +-
 sample/enclose_io_unix.c   | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index b68560e..7fdb1fe 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -83,7 +83,7 @@ char * enclose_io_workdir();
 		memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len); \
 		memcpy_len = strlen(PATH); \
 		if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) { \
-			memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len; \
+			memcpy_len = 0; /* the overlay cannot hold it */ \
 		} \
 		memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (PATH), memcpy_len); \
 		mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0'; \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index cb865ad..7d892e9 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -142,6 +142,11 @@ static char * enclose_io_mkdir_workdir()
 			goto exit;
 		}
 #else
+		if (SQUASHFS_PATH_LEN <= strlen(generic_mkdir_workdir)) {
+			free(generic_mkdir_workdir);
+			generic_mkdir_workdir = NULL;
+			goto exit; // no room for what is below it
+		}
 		mkdir_workdir = generic_mkdir_workdir;
 		if (mkdir(mkdir_workdir, S_IRWXU)) {
 			mkdir_workdir = NULL;
@@ -268,6 +273,10 @@ static int enclose_io_mkdir_overlay(const char *path, mode_t mode)
 		errno = ENOENT;
 		return -1;
 	}
+	if (SQUASHFS_PATH_LEN < strlen(workdir) + strlen(path)) {
+		errno = ENAMETOOLONG; // it would not be found again
+		return -1;
+	}
 	workdir_path = malloc(strlen(workdir) + strlen(path) + 1);
 	if (NULL == workdir_path) {
 		errno = ENOMEM;
@@ -803,7 +812,7 @@ int enclose_io_chdir(const char *path)
 			memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
 			memcpy_len = strlen(path);
 			if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-				memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+				memcpy_len = 0; // the overlay cannot hold it
 			}
 			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (path), memcpy_len);
 			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
@@ -1115,7 +1124,8 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
 				memcpy_len = strlen(enclose_io_expanded);
 				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+					errno = ENAMETOOLONG; // cut off, it could be another file
+					return enclose_io_dos_return(-1);
 				}
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_expanded, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
@@ -1176,7 +1186,8 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
 				memcpy_len = strlen(pathname);
 				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+					errno = ENAMETOOLONG; // cut off, it could be another file
+					return enclose_io_dos_return(-1);
 				}
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], pathname, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-- 
2.43.0


From 01a9b8733d2d8e77e5d44727f02528e678ec698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 49/56] fix: a temporary file does not take the name of a
 dangling link

squash_tmpf asked stat, which fails for it, and the extracted content was
then written to where the link leads.
---
 src/extract.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extract.c b/src/extract.c
index e0592f3..fe22f99 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -157,7 +157,8 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 			errno = ENAMETOOLONG;
 			return NULL;
 		}
-		if (-1 == stat(squash_buf, &statbuf)) {
+		// a link that leads nowhere takes the name as well
+		if (-1 == lstat(squash_buf, &statbuf)) {
 			return strdup(squash_buf);
 		}
 		++try_cnt;
-- 
2.43.0


From 11dde65a44683c9325a7475713261b068a625a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 50/56] fix: a failed creation of the overlay leaks no memory

---
 sample/enclose_io_unix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 7d892e9..690c44a 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -107,7 +107,12 @@ static char * enclose_io_mkdir_workdir()
 
 	MUTEX_LOCK(&squash_global_mutex);
 	if (NULL == mkdir_workdir) {
-		generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
+		SQUASH_OS_PATH tmpdir = squash_tmpdir();
+		if (NULL == tmpdir) {
+			goto exit;
+		}
+		generic_mkdir_workdir = squash_tmpf(tmpdir, NULL);
+		free((void *)tmpdir);
 		if (NULL == generic_mkdir_workdir) {
 			mkdir_workdir = NULL;
 			goto exit;
-- 
2.43.0


From ab42f9bf7f9ae360032be2236c9e043b466988ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 51/56] fix: without memory the calls of exec fail instead of
 aborting

---
 sample/enclose_io_unix.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 690c44a..b2a2947 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -356,6 +356,10 @@ int enclose_io__exec(const char *path, char *const argv[])
 	size_t exec_path_len = 2 * PATH_MAX;
 	char* exec_path = (char*)(malloc(exec_path_len));
 
+	if (NULL == exec_path) {
+		errno = ENOMEM;
+		return -1;
+	}
 	ret = enclose_io_exepath(exec_path, &exec_path_len);
 	assert(0 == ret);
 
@@ -366,7 +370,11 @@ int enclose_io__exec(const char *path, char *const argv[])
 	argc = 1;
 	while (argv[argc]) { ++argc; }
 	new_argv = (char **)malloc( (2 + argc) * sizeof(char *));
-	assert(new_argv);
+	if (NULL == new_argv) {
+		free(exec_path);
+		errno = ENOMEM;
+		return -1;
+	}
 	new_argv[0] = argv[0];
 	new_argv[1] = path;
 	for (i = 1; i < argc; ++i) {
-- 
2.43.0


From 14a19e3482064de0d33a12fa22d0991938bc2672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 52/56] fix: mkdir does not hide what cannot be looked up

---
 sample/enclose_io_unix.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index b2a2947..c4c13fa 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -269,9 +269,13 @@ static int enclose_io_mkdir_overlay(const char *path, mode_t mode)
 	const char* workdir;
 	char* workdir_path;
 
-	if (0 == squash_stat(enclose_io_fs, path, &buf) && !S_ISDIR(buf.st_mode)) {
-		errno = ENOTDIR; // which a directory of the overlay must not hide
-		return -1;
+	if (0 == squash_stat(enclose_io_fs, path, &buf)) {
+		if (!S_ISDIR(buf.st_mode)) {
+			errno = ENOTDIR; // which a directory of the overlay must not hide
+			return -1;
+		}
+	} else if (ENOENT != errno && ENOTDIR != errno) {
+		return -1; // it may be there
 	}
 	workdir = enclose_io_mkdir_workdir();
 	if (NULL == workdir) {
@@ -306,6 +310,8 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		if (0 == squash_lstat(enclose_io_fs, enclose_io_expanded, &buf)) {
 			errno = EEXIST;
 			return -1;
+		} else if (ENOENT != errno && ENOTDIR != errno) {
+			return -1; // it may be there
 		}
 		return enclose_io_mkdir_overlay(enclose_io_expanded, mode);
 	} else if (enclose_io_is_path(path)) {
@@ -314,6 +320,8 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		if (0 == squash_lstat(enclose_io_fs, path, &buf)) {
 			errno = EEXIST;
 			return -1;
+		} else if (ENOENT != errno && ENOTDIR != errno) {
+			return -1; // it may be there
 		}
 		return enclose_io_mkdir_overlay(path, mode);
 	} else {
-- 
2.43.0


From c472bffd37eeefce5a3f739222ab5d3419cd562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 53/56] fix: dlopen of a name in the virtual directory does not
 open another one

---
 sample/enclose_io_unix.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index c4c13fa..0d586c3 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -701,13 +701,19 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 void* enclose_io_dlopen(const char* path, int mode)
 {
     const char* extracted = path ? enclose_io_ifextract(path, NULL) : NULL;
-    if (path && !extracted && enclose_io_cwd[0] && '/' != *path && strchr(path, '/')) {
-        // relative to the virtual directory, so not to the real one
+    if (path && !extracted && enclose_io_cwd[0] && '/' != *path) {
+        struct stat buf;
+        int ret;
         sqfs_path enclose_io_expanded;
         size_t enclose_io_cwd_len;
         size_t memcpy_len;
         ENCLOSE_IO_GEN_EXPANDED_NAME(path);
-        return dlopen(enclose_io_expanded, mode);
+        ret = squash_stat(enclose_io_fs, enclose_io_expanded, &buf);
+        // relative to the virtual directory, so not to the real one; and a bare name
+        // is only searched for elsewhere when it is no file of the virtual directory
+        if (strchr(path, '/') || (0 == ret ? S_ISREG(buf.st_mode) : ENOENT != errno && ENOTDIR != errno)) {
+            return dlopen(enclose_io_expanded, mode);
+        }
     }
     // a null path would open the main program
     return dlopen(extracted ? extracted : path, mode);
-- 
2.43.0


From 7f4e95a7c72a62188f00109a8cc01bf186b6e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 54/56] fix: the end of a child leaves the files its parent
 extracted

---
 src/extract.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/extract.c b/src/extract.c
index fe22f99..733e26a 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -273,6 +273,7 @@ struct SquashExtractEntry {
 	sqfs *fs;
 	char *path;
 	SQUASH_OS_PATH ret;
+	int pid; /* of the process that made the file, and is to remove it */
 	struct SquashExtractEntry *next;
 };
 
@@ -308,6 +309,7 @@ static SQUASH_OS_PATH squash_extract_cache_insert(sqfs *fs, const char *path, SQ
 		return NULL;
 	}
 	ptr->ret = ret;
+	ptr->pid = getpid();
 	MUTEX_LOCK(&squash_global_mutex);
 	found = squash_extract_cache;
 	while (NULL != found && (fs != found->fs || 0 != strcmp(path, found->path))) {
@@ -360,7 +362,11 @@ void squash_extract_clear_cache()
 	MUTEX_UNLOCK(&squash_global_mutex);
 	while (NULL != ptr) {
 		next = ptr->next;
-		squash_extract_discard(NULL, ptr->ret);
+		if (getpid() == ptr->pid) {
+			squash_extract_discard(NULL, ptr->ret);
+		} else {
+			free((void *)ptr->ret);
+		}
 		free(ptr->path);
 		free(ptr);
 		ptr = next;
-- 
2.43.0


From edf4acc03fbcbd593de9914e1184aa26a8da29bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 55/56] fix: the end of a child leaves its parent's overlay

---
 sample/enclose_io_unix.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 0d586c3..467fb21 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -80,11 +80,18 @@ static int mkdir_workdir_halt_rm(const char *arg1, const struct stat *ptr, int f
 }
 #endif
 
+#ifndef _WIN32
+static pid_t mkdir_workdir_pid; /* of the process that made it, and is to remove it */
+#endif
+
 static void mkdir_workdir_halt()
 {
 #ifdef _WIN32
 	mkdir_workdir_halt_rm(generic_mkdir_workdir);
 #else
+	if (getpid() != mkdir_workdir_pid) {
+		return;
+	}
 	nftw(mkdir_workdir, mkdir_workdir_halt_rm, 20, FTW_PHYS | FTW_MOUNT | FTW_DEPTH);
 #endif
 }
@@ -166,6 +173,7 @@ static char * enclose_io_mkdir_workdir()
 			generic_mkdir_workdir = NULL;
 			goto exit;
 		}
+		mkdir_workdir_pid = getpid();
 #endif
 	}
 exit:
-- 
2.43.0


From 1843d776dd70a0a23b09336f636b019b952d97b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:06 +0000
Subject: [PATCH 56/56] fix: pread of a virtual file leaves its position alone
 throughout

---
 sample/enclose_io_unix.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 467fb21..b887fca 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -661,23 +661,22 @@ int enclose_io_scandir(const char *dirname, struct SQUASH_DIRENT ***namelist,
 ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 {
 	if (SQUASH_VALID_VFD(d)) {
-		off_t lseek_off, backup_off;
-		ssize_t read_ssize;
-		int read_errno;
-		backup_off = squash_lseek(d, 0, SQUASH_SEEK_CUR);
-		if (-1 == backup_off) {
+		// moving the position there and back would disturb other threads
+		sqfs_err error;
+		sqfs_off_t nr = nbyte;
+		struct squash_file *file = SQUASH_VFD_FILE(d);
+		if (offset < 0) {
+			errno = EINVAL;
 			return -1;
 		}
-		lseek_off = squash_lseek(d, offset, SQUASH_SEEK_SET);
-		if (-1 == lseek_off) {
+		error = sqfs_read_range(file->fs, &file->node, offset, &nr, buf);
+		if (SQFS_OK != error) {
+			if (!errno) {
+				errno = EBADF;
+			}
 			return -1;
 		}
-		read_ssize = squash_read(d, buf, nbyte);
-		read_errno = errno;
-		lseek_off = squash_lseek(d, backup_off, SQUASH_SEEK_SET);
-		assert(backup_off == lseek_off);
-		errno = read_errno;
-		return read_ssize;
+		return nr;
 	} else {
 		return pread(d, buf, nbyte, offset);
 	}
-- 
2.43.0

