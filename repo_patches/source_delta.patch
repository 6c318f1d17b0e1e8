From 48a0257e4331df6db57ded2f770fdc9cf7eca15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:46 +0000
Subject: [PATCH 1/7] fix: list_insert_sorted() walks forward to find the
 insertion point

_list_prepend_new_sorted() moved on with &(*ptr)->prev->next, which is a
NULL pointer dereference for the first item and an endless loop for every
other item. Inserting anything that belongs neither in front of the first
nor behind the last item crashed or never returned.
---
 list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.c b/list.c
index b38535e..287d59f 100644
--- a/list.c
+++ b/list.c
@@ -215,7 +215,7 @@ _list_prepend_new_sorted(List *list, void *data)
 		}
 		else
 		{
-			ptr = &(*ptr)->prev->next;
+			ptr = &(*ptr)->next;
 		}
 	}
 
-- 
2.43.0


From 6cdb8d16ca6359d03647e1b9c427d74ad6024a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:46 +0000
Subject: [PATCH 2/7] fix: initialize the stack of an iterator over an empty
 tree

rbtree_iter_init() left iter->stack untouched if the tree is empty. The
following rbtree_iter_free() or rbtree_iter_reuse() then released or resized
an indeterminate pointer.
---
 rbtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rbtree.c b/rbtree.c
index 6fbaa6c..a0d23a9 100644
--- a/rbtree.c
+++ b/rbtree.c
@@ -874,6 +874,7 @@ rbtree_iter_init(const RBTree *tree, RBTreeIter *iter)
 
 	iter->tree = tree;
 	iter->stack_size = tree->count + 1;
+	iter->stack = NULL;
 	iter->sp = NULL;
 	iter->finished = false;
 
-- 
2.43.0


From d932113438a1b51f9f0c76131d3e6ea448703efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:46 +0000
Subject: [PATCH 3/7] fix: respect sub-second part of timeout when popping from
 AsyncQueue

The deadline was built from whole seconds only: both the fraction of the
current second and ms % 1000 were dropped, so async_queue_pop_timeout()
returned up to two seconds too early and timeouts below one second didn't
block at all.
---
 asyncqueue.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 05a517f..2cbf121 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -150,7 +150,13 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 			gettimeofday(&now, NULL);
 
 			val.tv_sec = now.tv_sec + (ms / 1000);
-			val.tv_nsec = 0;
+			val.tv_nsec = now.tv_usec * 1000 + (long)(ms % 1000) * 1000000;
+
+			if(val.tv_nsec >= 1000000000)
+			{
+				++val.tv_sec;
+				val.tv_nsec -= 1000000000;
+			}
 
 			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
 		}
-- 
2.43.0


From 96eed9275c1bd1383da4418a1c0794714e7a8a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:01 +0000
Subject: [PATCH 4/7] fix: keep waiting in AsyncQueue until there's an element
 or time is over

A consumer waited once and gave up if the queue was still (or again) empty
after the wakeup, so async_queue_pop() returned without an element after a
spurious wakeup or when another consumer was faster. A consumer timing out
while its condition was signaled didn't look at the queue again: the element
stayed in the queue although another consumer might sleep.

Wait in a loop with a fixed deadline and check the queue after each wakeup.
---
 asyncqueue.c | 54 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 2cbf121..4ee4626 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -131,8 +131,27 @@ _async_queue_try_lock(AsyncQueue *queue)
 	return !rc;
 }
 
+static void
+_async_queue_get_deadline(struct timespec *val, uint32_t ms)
+{
+	assert(val != NULL);
+
+	struct timeval now;
+
+	gettimeofday(&now, NULL);
+
+	val->tv_sec = now.tv_sec + (ms / 1000);
+	val->tv_nsec = now.tv_usec * 1000 + (long)(ms % 1000) * 1000000;
+
+	if(val->tv_nsec >= 1000000000)
+	{
+		++val->tv_sec;
+		val->tv_nsec -= 1000000000;
+	}
+}
+
 static bool
-_async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
+_async_queue_cond_wait(AsyncQueue *queue, const struct timespec *deadline)
 {
 	assert(queue != NULL);
 
@@ -142,23 +161,9 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 	{
 		++queue->waiting;
 
-		if(ms)
+		if(deadline)
 		{
-			struct timespec val;
-			struct timeval now;
-
-			gettimeofday(&now, NULL);
-
-			val.tv_sec = now.tv_sec + (ms / 1000);
-			val.tv_nsec = now.tv_usec * 1000 + (long)(ms % 1000) * 1000000;
-
-			if(val.tv_nsec >= 1000000000)
-			{
-				++val.tv_sec;
-				val.tv_nsec -= 1000000000;
-			}
-
-			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
+			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, deadline);
 		}
 		else
 		{
@@ -181,11 +186,22 @@ _async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
 	assert(queue != NULL);
 
 	bool success = false;
+	struct timespec deadline;
+
+	if(ms)
+	{
+		_async_queue_get_deadline(&deadline, ms);
+	}
 
 	if(_async_queue_try_lock(queue))
 	{
-		success = queue_pop(&queue->queue, data)
-			|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));
+		bool waiting = true;
+
+		/* a wakeup doesn't guarantee an element & a timeout might coincide with one */
+		while(!(success = queue_pop(&queue->queue, data)) && waiting)
+		{
+			waiting = _async_queue_cond_wait(queue, ms ? &deadline : NULL);
+		}
 
 		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
 	}
-- 
2.43.0


From 2e0b868d3a19f987b2721c5cb26ee193a057b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 5/7] fix: the sizes of a growing hash table are strictly
 increasing

---
 hashtable.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hashtable.c b/hashtable.c
index 7887f53..9caccbe 100644
--- a/hashtable.c
+++ b/hashtable.c
@@ -63,9 +63,6 @@ static const size_t PRIMES[] =
 	138595367657,
 	277190735317,
 	554381470637,
-	110876294129,
-	221752588259,
-	443505176519,
 	887010353059,
 	1774020706189,
 	3548041412411,
-- 
2.43.0


From f2e8bff27e552cbece0b2b077cef39e7bb516eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:54 +0000
Subject: [PATCH 6/7] fix: buffer_fill_from_fd() keeps what it reads on the
 heap, not on the stack

---
 buffer.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/buffer.c b/buffer.c
index 8c218b5..89783ee 100644
--- a/buffer.c
+++ b/buffer.c
@@ -195,7 +195,13 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 	RETURN_VAL_IF_INVALID(buf, 0);
 
 	ssize_t bytes;
-	char data[count];
+	char *data = (char *)malloc(count ? count : 1);
+
+	if(!data)
+	{
+		perror("malloc()");
+		abort();
+	}
 
 	if((bytes = read(fd, data, count)) > 0)
 	{
@@ -209,6 +215,8 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 		perror("read()");
 	}
 
+	free(data);
+
 	return bytes;
 }
 
-- 
2.43.0


From 2767f0fbf1c2e3c64f071d9c742fc65e9676fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:32 +0000
Subject: [PATCH 7/7] fix: removing list items by data frees them after the
 last comparison

The data to look for may be the one stored in an item, which was freed
while further items were still compared with it.
---
 list.c  | 17 ++++++++++++++++-
 slist.c | 22 +++++++++++++++++-----
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/list.c b/list.c
index 287d59f..55fde6c 100644
--- a/list.c
+++ b/list.c
@@ -301,6 +301,7 @@ list_remove_by_data(List *list, void *data, bool remove_all)
 	assert(list->compare != NULL);
 
 	ListItem *iter = list->head;
+	ListItem *removed = NULL;
 	bool completed = false;
 
 	while(iter && !completed)
@@ -311,11 +312,25 @@ list_remove_by_data(List *list, void *data, bool remove_all)
 		{
 			completed = !remove_all;
 
-			list_remove(list, iter);
+			_list_detach(list, iter);
+			--list->count;
+
+			iter->next = removed;
+			removed = iter;
 		}
 
 		iter = next;
 	}
+
+	/* data may be stored in the list, so nothing is freed before the last comparison */
+	while(removed)
+	{
+		ListItem *item = removed;
+
+		removed = removed->next;
+
+		_list_item_free(list, item);
+	}
 }
 
 void *
diff --git a/slist.c b/slist.c
index 76f323e..aef9f42 100644
--- a/slist.c
+++ b/slist.c
@@ -293,6 +293,7 @@ slist_remove_by_data(SList *list, void *data, bool remove_all)
 
 	SListItem **ptr = &list->head;
 	SListItem *tail = NULL;
+	SListItem *removed = NULL;
 	bool completed = false;
 
 	while(*ptr && !completed)
@@ -301,17 +302,18 @@ slist_remove_by_data(SList *list, void *data, bool remove_all)
 		{
 			completed = !remove_all;
 
-			SListItem *next = (*ptr)->next;
+			SListItem *item = *ptr;
 
-			if(!next)
+			if(!item->next)
 			{
 				list->tail = tail;
 			}
 
-			_slist_item_free(list, *ptr);
-			*ptr = next;
-
+			*ptr = item->next;
 			--list->count;
+
+			item->next = removed;
+			removed = item;
 		}
 		else
 		{
@@ -319,6 +321,16 @@ slist_remove_by_data(SList *list, void *data, bool remove_all)
 			ptr = &(*ptr)->next;
 		}
 	}
+
+	/* data may be stored in the list, so nothing is freed before the last comparison */
+	while(removed)
+	{
+		SListItem *item = removed;
+
+		removed = removed->next;
+
+		_slist_item_free(list, item);
+	}
 }
 
 void *
-- 
2.43.0

