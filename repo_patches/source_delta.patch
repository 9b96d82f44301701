From 0ff1f222098108d29c7cd6147c2f4aa5fd5c055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 001/111] fix: accept coordinates in the border half cells and
 never return a row or column outside the raster

GetPositionByCoordinate compared with the centre of the lower left cell, so the
left and lower half cells were reported as outside, and a coordinate on the
right or lower border gave column n_cols or row n_rows.
---
 src/data_raster.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6d9218c..6d2cb18 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3792,10 +3792,15 @@ ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const
 
     double y_min = yll_center - dy / 2.;
     double y_max = y_min + dy * n_rows;
-    if ((x > x_max || x < xll_center) || (y > y_max || y < yll_center)) {
+    if ((x > x_max || x < x_min) || (y > y_max || y < y_min)) {
         return ROW_COL(-1, -1);
     }
-    return ROW_COL(CVT_INT((y_max - y) / dy), CVT_INT((x - x_min) / dx));
+    int row = CVT_INT((y_max - y) / dy);
+    int col = CVT_INT((x - x_min) / dx);
+    if (row < 0 || row >= n_rows || col < 0 || col >= n_cols) { // on the lower or right border
+        return ROW_COL(-1, -1);
+    }
+    return ROW_COL(row, col);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 3c3cceef3c31cbde9867e18483d6773b791fe191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 002/111] fix: GetAppPath keeps no static buffer shared between
 threads

---
 src/utils_filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index abb769a..be0a16d 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -268,7 +268,7 @@ string GetAppPath() {
     }
     root_path = pathbuf;
 #else /* other linux/unix-like OS */
-    static char buf[PATH_MAX];
+    char buf[PATH_MAX];
     int rslt = readlink("/proc/self/exe", buf, PATH_MAX);
     if (rslt < 0 || rslt >= PATH_MAX) {
         buf[0] = '\0';
-- 
2.43.0


From be92d55101ec35853cb6f007d5d8d1cfe8748f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 003/111] fix: DateTime::ToLocalTime does not use the static
 result of gmtime

---
 src/utils_time.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index bbc6692..a50cb49 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -450,7 +450,13 @@ DateTime DateTime::ToLocalTime() {
     return SystemTimeToDateTime(local_time);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
     time_t local_timer = time(nullptr);
-    time_t utc_timer = mktime(gmtime(&local_timer));
+    struct tm utc_info;
+#if defined MINGW
+    gmtime_s(&utc_info, &local_timer);
+#else
+    gmtime_r(&local_timer, &utc_info);
+#endif
+    time_t utc_timer = mktime(&utc_info);
     time_t timer = static_cast<time_t>(filetime / 1000) + local_timer - utc_timer;
     struct tm* time_info = new tm();
 #if defined MINGW
-- 
2.43.0


From 9858dc19a9f2b782dece516cb3aefbce2e4ba683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 004/111] fix: DateTime::ToLocalTime and ToUTCTime release
 their tm

---
 src/utils_time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index a50cb49..4e1887f 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -465,7 +465,7 @@ DateTime DateTime::ToLocalTime() {
     localtime_r(&timer, time_info);
 #endif
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
@@ -486,7 +486,7 @@ DateTime DateTime::ToUTCTime() {
 #endif
 
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
-- 
2.43.0


From 6dfc00a220d5d38b3311e5dbbe7264cd5b71d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 005/111] fix: DateTime::Forward and Backward shift by the
 given milliseconds

---
 src/utils_time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 4e1887f..cecb240 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -493,17 +493,17 @@ DateTime DateTime::ToUTCTime() {
 
 DateTime DateTime::Forward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime + milliseconds * 10000);
+    return FromFileTime(filetime + imilliseconds * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime + milliseconds);
+    return FromFileTime(filetime + imilliseconds);
 #endif
 }
 
 DateTime DateTime::Backward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime - milliseconds * 10000);
+    return FromFileTime(filetime - imilliseconds * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime - milliseconds);
+    return FromFileTime(filetime - imilliseconds);
 #endif
 }
 
-- 
2.43.0


From 9e06966e0177b500742d5df9a76667260bd174d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 006/111] fix: ConvertToTime reports a text that does not match
 the format instead of using unset fields

---
 src/utils_time.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index cecb240..23c6439 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -125,9 +125,15 @@ time_t ConvertToTime(const string& str_date, string const& format, const bool in
 
     try {
         if (include_hour) {
-            stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy, &hr, &min, &sec);
+            if (stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy, &hr, &min, &sec) != 6) {
+                cout << "Error: " << str_date << " does not match the format " << format << endl;
+                return t;
+            }
         } else {
-            stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy);
+            if (stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy) != 3) {
+                cout << "Error: " << str_date << " does not match the format " << format << endl;
+                return t;
+            }
         }
         struct tm* time_info = new tm();
         time_info->tm_year = yr - 1900;
-- 
2.43.0


From f92c05b4b2cee0056f0c59fa7eb1916f8df6088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 007/111] fix: dates beyond the year 9999 fit the buffers they
 are written to

---
 src/utils_time.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 23c6439..4e8fd6a 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -33,8 +33,8 @@ string ConvertToString(const time_t date, const bool utc_time /* = true */) {
     if (date_info->tm_isdst > 0) {
         date_info->tm_hour -= 1;
     }
-    char date_string[11];
-    strftime(date_string, 11, "%Y-%m-%d", date_info);
+    char date_string[64];
+    strftime(date_string, 64, "%Y-%m-%d", date_info);
     delete date_info;
     return string(date_string);
 }
@@ -66,8 +66,8 @@ string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
             }
         }
     }
-    char date_string[30];
-    strftime(date_string, 30, "%Y-%m-%d %X", date_info);
+    char date_string[64];
+    strftime(date_string, 64, "%Y-%m-%d %X", date_info);
     string s(date_string);
     delete date_info;
     return s;
@@ -103,8 +103,8 @@ string ConvertToString3(const time_t date, const bool utc_time /* = true */) {
 			}
 		}
 	}
-	char date_string[30];
-	strftime(date_string, 30, "%Y_%m_%d_%H%M%S", date_info);
+	char date_string[64];
+	strftime(date_string, 64, "%Y_%m_%d_%H%M%S", date_info);
 	string s(date_string);
 	delete date_info;
 	return s;
@@ -192,10 +192,9 @@ int GetDateInfoFromTimet(const time_t t, int* year, int* month, int* day, const
         date_info->tm_hour -= 1;
     }
 
-    char date_string[30];
-    strftime(date_string, 30, "%Y-%m-%d %X", date_info);
-    int hour, min, sec;
-    stringscanf(date_string, "%4d-%2d-%2d %2d:%2d:%2d", year, month, day, &hour, &min, &sec);
+    *year = date_info->tm_year + 1900;
+    *month = date_info->tm_mon + 1;
+    *day = date_info->tm_mday;
     delete date_info;
     return 0;
 }
-- 
2.43.0


From d67f6da230fc50d8d8c65234aea7fa797ea6d8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 008/111] fix: never ask OpenMP for less than one thread

---
 src/basic.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/basic.cpp b/src/basic.cpp
index e416444..63f1504 100644
--- a/src/basic.cpp
+++ b/src/basic.cpp
@@ -118,14 +118,15 @@ void SetDefaultOpenMPThread() {
     // omp thread have not been set
     if (omp_get_num_threads() <= 1) {
         // set one half of the available threads as default
-        omp_set_num_threads(GetAvailableThreadNum() / 2);
+        int n = GetAvailableThreadNum() / 2;
+        omp_set_num_threads(n < 1 ? 1 : n);
     }
 #endif /* SUPPORT_OMP */
     /// do nothing if OMP is not supported
 }
 
 void SetOpenMPThread(const int n) {
-    if (n < 0) return;
+    if (n < 1) return;
 #ifdef SUPPORT_OMP
     // omp_set_nested(1); // Enable nest omp loops. BUT, not recommended!
     omp_set_num_threads(n);
-- 
2.43.0


From eb52baaac58071ca1ad36604acab44d562b0ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 009/111] fix: MongoClient::GetCollection releases the database
 handle when the collection does not exist

---
 src/db_mongoc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index b4d71b3..26f9343 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -156,6 +156,7 @@ mongoc_collection_t* MongoClient::GetCollection(string const& dbname, string con
     if (!mongoc_database_has_collection(db, collectionname.c_str(), &err)) {
         cout << "MongoClient::GetCollection (" << dbname << ": " << collectionname
                 << ") failed! Error message: " << err.message << endl;
+        mongoc_database_destroy(db);
         return NULL;
     }
     mongoc_database_destroy(db);
-- 
2.43.0


From 7000f7fd586570d3d265933059a680a6718a3116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 010/111] fix: MongoCollection::QueryRecordsCount releases its
 query document

---
 src/db_mongoc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 26f9343..ced7d44 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -280,7 +280,7 @@ mongoc_cursor_t* MongoCollection::ExecuteQuery(const bson_t* b, const bson_t* op
 }
 
 vint MongoCollection::QueryRecordsCount() {
-    const bson_t* q_count = bson_new();
+    bson_t* q_count = bson_new();
     bson_error_t err;
 #if MONGOC_CHECK_VERSION(1, 11, 0)
     int64_t count = mongoc_collection_count_documents(collection_, q_count,
@@ -288,6 +288,7 @@ vint MongoCollection::QueryRecordsCount() {
 #else
     int64_t count = mongoc_collection_count(collection_, MONGOC_QUERY_NONE, q_count, 0, 0, NULL, &err);
 #endif
+    bson_destroy(q_count);
     if (count < 0) {
         cout << "MongoCollection::QueryRecordsCount failed: " << err.message << endl;
         return -1;
-- 
2.43.0


From 57cf80e627d36b1eb7270924b0ec31e2c8d12694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 011/111] fix: MongoGridFs::GetFileNames returns when no GridFS
 is given

---
 src/db_mongoc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index ced7d44..2df9df1 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -375,6 +375,7 @@ void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* g
     if (gfs_ != NULL) { gfs = gfs_; }
     if (NULL == gfs) {
         StatusMessage("mongoc_gridfs_t must be provided for MongoGridFs!");
+        return;
     }
     //vector<string> filesExisted;
     bson_t* query = bson_new();
-- 
2.43.0


From d01b7a78fda54eebca1df61b7a79fb7c91c46936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 012/111] fix: MongoGridFs::GetFileNames does not re-initialise
 a heap document, which made bson_destroy leak it

---
 src/db_mongoc.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 2df9df1..8ee4742 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -379,7 +379,6 @@ void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* g
     }
     //vector<string> filesExisted;
     bson_t* query = bson_new();
-    bson_init(query);
     mongoc_gridfs_file_list_t* glist = mongoc_gridfs_find_with_opts(gfs, query, NULL);
     mongoc_gridfs_file_t* file;
     while ((file = mongoc_gridfs_file_list_next(glist))) {
-- 
2.43.0


From 001cff9862e7b4379eef0f8f23ae09da9d2ee867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 013/111] fix: MongoGridFs::GetStreamData allocates with new[]
 the buffer that its callers delete[]

---
 src/db_mongoc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 8ee4742..99a9b4b 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -13,6 +13,7 @@
 #include "db_mongoc.h"
 
 #include <cassert>
+#include <new>
 #include <utility>
 #include "basic.h"
 #include "utils_string.h"
@@ -429,7 +430,11 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
         return false;
     }
     datalength = mongoc_gridfs_file_get_length(gfile);
-    databuf = static_cast<char *>(malloc(datalength));
+    databuf = new(std::nothrow) char[datalength]; // released by delete[]
+    if (nullptr == databuf) {
+        mongoc_gridfs_file_destroy(gfile);
+        return false;
+    }
     mongoc_iovec_t iov;
     iov.iov_base = databuf;
     iov.iov_len = static_cast<u_long>(datalength);
-- 
2.43.0


From db3fa39c43ae57379a437ed3336b941246654eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 014/111] fix: MongoGridFs::GetStreamData releases its buffer
 when reading the stream fails

---
 src/db_mongoc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 99a9b4b..a9de8fd 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -443,7 +443,12 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
     vint flag = mongoc_stream_readv(stream, &iov, 1, -1, 10);
     mongoc_stream_destroy(stream);
     mongoc_gridfs_file_destroy(gfile);
-    return flag >= 0;
+    if (flag < 0) {
+        delete[] databuf;
+        databuf = NULL;
+        return false;
+    }
+    return true;
 }
 
 bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
-- 
2.43.0


From 3b4a2b113e29b0bb6ddd34a2ab63b7431851cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 015/111] fix: MongoGridFs::WriteStreamData checks that the
 file was created

---
 src/db_mongoc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index a9de8fd..3dbd970 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -466,6 +466,10 @@ bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
     gopt.content_type = "NumericStream";
     gopt.metadata = p;
     gfile = mongoc_gridfs_create_file(gfs, &gopt);
+    if (NULL == gfile) {
+        StatusMessage(("MongoGridFs::WriteStreamData(" + gfilename + ") failed!").c_str());
+        return false;
+    }
     mongoc_iovec_t ovec;
     ovec.iov_base = buf;
     ovec.iov_len = static_cast<u_long>(length);
-- 
2.43.0


From 6fd06f9795feb95330f6096759a818751c9a5908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 016/111] fix: MongoGridFs::WriteStreamData reports a failed
 write

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 3dbd970..fbae5b3 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -483,7 +483,7 @@ bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
                           ". ERROR: " + gfileerr.message).c_str());
     }
     mongoc_gridfs_file_destroy(gfile);
-    return gfilestatus;
+    return writesize != -1 && gfilestatus;
 }
 
 ///////////////////////////////////////////////////
-- 
2.43.0


From b6a6e384e8ff20bf506aeefee17b29dba8de6f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 017/111] fix: MongoGridFs::RemoveFile reports a file that
 could not be removed

---
 src/db_mongoc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index fbae5b3..3d28bdc 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -353,6 +353,7 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
     // }
     mongoc_gridfs_file_list_t* filelist;
     mongoc_gridfs_file_t* gfile = NULL;
+    bool removed = true;
     filelist = mongoc_gridfs_find_with_opts(gfs, &filter, NULL);
     while ((gfile = mongoc_gridfs_file_list_next(filelist))) {
         const bson_value_t* tmpid = mongoc_gridfs_file_get_id(gfile);
@@ -361,6 +362,7 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
         string strid = charid;
         if (!mongoc_gridfs_file_remove(gfile, &err)) {
             StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
+            removed = false;
         } else {
             StatusMessage(("Removed GridFs: " + gfilename + ", _id: " + strid).c_str());
         }
@@ -369,7 +371,7 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
 
     mongoc_gridfs_file_list_destroy(filelist);
     bson_destroy(&filter);
-    return true;
+    return removed;
 }
 
 void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* gfs /* = NULL */) {
-- 
2.43.0


From 667dd6cfe0b0a8b51d9e082153ead1ed602aa916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 018/111] fix: MongoClient built from a connection initialises
 all its members

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 3d28bdc..db71782 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -54,7 +54,7 @@ MongoClient::MongoClient(const char* host, const vuint16_t port) : host_(host),
     mongoc_uri_destroy(uri);
 }
 
-MongoClient::MongoClient(mongoc_client_t* conn): conn_(conn) {
+MongoClient::MongoClient(mongoc_client_t* conn): host_(nullptr), port_(0), conn_(conn) {
     // Do nothing
 }
 
-- 
2.43.0


From cb9c5ec19f46bbfd523a557febafa90da4bde864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 019/111] fix: MongoClient::Destroy forgets the connection it
 has released

---
 src/db_mongoc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index db71782..5d3b4a1 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -105,6 +105,7 @@ void MongoClient::Destroy() {
     // Invoke this function ONLY if you know what you are doing. -LJ.
     if (conn_) {
         mongoc_client_destroy(conn_);
+        conn_ = nullptr;
     }
     // Note that mongoc_init() does not reinitialize the driver after mongoc_cleanup().
     //   So, mongoc_cleanup() can only be invoked once in an application!
-- 
2.43.0


From 749873e36ead5b07f8c2b2c8198b1aeb7f07efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 020/111] fix: GetBoolFromBsonIterator reads boolean fields and
 takes non-zero numbers for true

---
 src/db_mongoc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 5d3b4a1..3ca7d90 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -555,6 +555,8 @@ bool GetBoolFromBsonIterator(bson_iter_t* iter) {
         fltvalue = CVT_FLT(vv->value.v_int64);
     } else if (vv->value_type == BSON_TYPE_DOUBLE) {
         fltvalue = CVT_FLT(vv->value.v_double);
+    } else if (vv->value_type == BSON_TYPE_BOOL) {
+        return vv->value.v_bool;
     } else if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp = vv->value.v_utf8.str;
         return StringMatch(tmp.c_str(), "TRUE");
@@ -562,7 +564,7 @@ bool GetBoolFromBsonIterator(bson_iter_t* iter) {
         StatusMessage("Failed in get Boolean value.");
         return false;
     }
-    return utils_math::FloatEqual(fltvalue, 0.f);
+    return !utils_math::FloatEqual(fltvalue, 0.f);
 }
 
 bool GetBoolFromBson(bson_t* bmeta, const char* key) {
-- 
2.43.0


From 21aac8a5edbe48aa1f546519132ded08f70353bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 021/111] fix: GetDatetimeFromBsonIterator keeps dates that
 need more than 32 bits and dates near the epoch

---
 src/db_mongoc.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 3ca7d90..97907a0 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -579,10 +579,7 @@ bool GetBoolFromBson(bson_t* bmeta, const char* key) {
 time_t GetDatetimeFromBsonIterator(bson_iter_t* iter) {
     const bson_value_t* vv = bson_iter_value(iter);
     if (vv->value_type == BSON_TYPE_DATE_TIME) {
-		string str_milisec = std::to_string(vv->value.v_datetime);
-		string str_second = str_milisec.substr(0, str_milisec.length() - 3);
-		int intStr = atoi(str_second.c_str());
-        return CVT_TIMET(intStr);
+        return CVT_TIMET(vv->value.v_datetime / 1000); // milliseconds since the Unix epoch
     }
     if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp_time_str = vv->value.v_utf8.str;
-- 
2.43.0


From 3aaf7aa451eaad1f073c38cf249745ccbd64eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 022/111] fix: AppendStringOptionsToBson does not squeeze
 integral values beyond 32 bits into an int32 field

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 97907a0..3010ec7 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -510,7 +510,7 @@ void AppendStringOptionsToBson(bson_t* bson_opts, const STRING_MAP& opts,
             BSON_APPEND_UTF8(bson_opts, meta_field.c_str(), iter->second.c_str());
         } else {
             double intpart; // https://stackoverflow.com/a/1521682/4837280
-            if (std::modf(dbl_value, &intpart) == 0.0) {
+            if (std::modf(dbl_value, &intpart) == 0.0 && dbl_value >= INT32_MIN && dbl_value <= INT32_MAX) {
                 BSON_APPEND_INT32(bson_opts, meta_field.c_str(), CVT_INT(dbl_value));
             } else {
                 BSON_APPEND_DOUBLE(bson_opts, meta_field.c_str(), dbl_value);
-- 
2.43.0


From f16cc6a3bff21291ae4c222f8a54d7f7e3ded143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 023/111] fix: MongoCollection and MongoGridFs, which release
 their handle, cannot be copied

---
 src/db_mongoc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db_mongoc.h b/src/db_mongoc.h
index 1f8134b..b8054f6 100644
--- a/src/db_mongoc.h
+++ b/src/db_mongoc.h
@@ -117,7 +117,7 @@ private:
 * \class MongoCollection
 * \brief A simple wrapper of the class of MongoDB Collection `mongoc_collection_t`.
 */
-class MongoCollection {
+class MongoCollection: NotCopyable {
 public:
     /*! Constructor by a `mongoc_collection_t` pointer */
     explicit MongoCollection(mongoc_collection_t* coll);
@@ -138,7 +138,7 @@ private:
  * \class MongoGridFs
  * \brief A simple wrapper of the class of MongoDB database `mongoc_gridfs_t`.
  */
-class MongoGridFs {
+class MongoGridFs: NotCopyable {
 public:
     /*! Constructor by a `mongoc_gridfs_t` pointer or NULL */
     explicit MongoGridFs(mongoc_gridfs_t* gfs = NULL);
-- 
2.43.0


From fe678c3b6ba9ebe237aec22d0d2dd4738b08decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 024/111] fix: a text field is read as a number only if all of
 it is a number

---
 src/db_mongoc.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/db_mongoc.h b/src/db_mongoc.h
index b8054f6..5239022 100644
--- a/src/db_mongoc.h
+++ b/src/db_mongoc.h
@@ -23,6 +23,7 @@
 #include <mongoc.h>
 
 #include "basic.h"
+#include "utils_string.h"
 
 using std::string;
 using std::vector;
@@ -198,12 +199,13 @@ bool GetNumericFromBsonIterator(bson_iter_t* iter, T& numericvalue) {
         numericvalue = static_cast<T>(vv->value.v_double);
     } else if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp = vv->value.v_utf8.str;
-        if (tmp.find_first_of("0123456789") == string::npos) {
+        bool is_number = false;
+        double value = utils_string::IsDouble(tmp, is_number);
+        if (!is_number) {
             cout << "bson iterator isn't or not contains a numeric value." << endl;
             return false;
         }
-        char* end = nullptr;
-        numericvalue = static_cast<T>(strtod(tmp.c_str(), &end));
+        numericvalue = static_cast<T>(value);
     } else {
         cout << "bson iterator isn't or not contains a numeric value." << endl;
         return false;
-- 
2.43.0


From b270dc41beb0bd0a00684e5314fd7097771f1147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 025/111] fix: a shallow copy of SubsetPositions no longer
 releases the data of its source

---
 src/data_raster.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index d9b6bb0..cae2961 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -262,8 +262,13 @@ SubsetPositions::SubsetPositions(SubsetPositions*& src, const bool deep_copy) {
         global_ = src->global_;
         local_pos_ = src->local_pos_;
         local_posidx_ = src->local_posidx_;
-        if (nullptr != src->data_) { data_ = src->data_; }
-        if (nullptr != src->data2d_) { data2d_ = src->data2d_; }
+        // Data arrays are always owned and released by each instance
+        if (nullptr != src->data_) {
+            Initialize1DArray(n_cells, data_, src->data_);
+        }
+        if (nullptr != src->data2d_) {
+            Initialize2DArray(n_cells, n_lyrs, data2d_, src->data2d_);
+        }
     }
 }
 
-- 
2.43.0


From 5f024f3bd010d39c9e14f5bde74d3f4bd4aa0ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 026/111] fix: ReadRasterFileByGdal releases its buffer when
 RasterIO fails

---
 src/data_raster.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6d2cb18..d90fe96 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -408,6 +408,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Byte, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(uchar_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -431,6 +432,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                        n_cols, n_rows, GDT_Int8, 0, 0);
             if (result != CE_None) {
                 StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+                CPLFree(char_data);
                 GDALClose(po_dataset);
                 return false;
             }
@@ -445,6 +447,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_UInt16, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(uint16_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -458,6 +461,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Int16, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(int16_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -471,6 +475,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_UInt32, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(uint32_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -484,6 +489,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Int32, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(int32_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -498,6 +504,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_UInt64, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(uint64_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -511,6 +518,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Int64, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(int64_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -525,6 +533,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Float32, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(float_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -538,6 +547,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Float64, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(double_data);
             GDALClose(po_dataset);
             return false;
         }
-- 
2.43.0


From bb3f28850926f616b4835b72ea7bcfccc25869ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 027/111] fix: ReadRasterFileByGdal reports a dataset without
 raster bands

---
 src/data_raster.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d90fe96..16912c9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -366,6 +366,11 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         return false;
     }
     GDALRasterBand* po_band = po_dataset->GetRasterBand(1);
+    if (nullptr == po_band) {
+        StatusMessage("File " + filename + " has no raster band.");
+        GDALClose(po_dataset);
+        return false;
+    }
     int n_rows = po_band->GetYSize();
     int n_cols = po_band->GetXSize();
     int get_value_flag = false;
-- 
2.43.0


From 058838f55d16c113e20013968b81b9e2f36e8358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 028/111] fix: ReadRasterFileByGdal does not use an undefined
 value range

---
 src/data_raster.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 16912c9..6fe3256 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -403,7 +403,10 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         //
         // Update (08/09/2023): GDAL>=3.7 added the support of GDT_Int8. Keep this code for compatibility!
         //
-        po_band->ComputeRasterMinMax(approx_minmax, minmax);
+        if (po_band->ComputeRasterMinMax(approx_minmax, minmax) != CE_None) {
+            minmax[0] = 0.; // no valid cells, i.e., range is unknown
+            minmax[1] = UINT8_MAX;
+        }
         if ((minmax[1] <= 127 && minmax[0] < 0)
             || (minmax[1] <= 127 && minmax[0] >= 0 && (!get_value_flag || (get_value_flag && nodata < 0)))) {
             read_as_signedbyte = true;
-- 
2.43.0


From 41b2d92a84d0046be11c1e8ebeb549d2ece879fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 029/111] fix: ReadRasterFileByGdal reports when no memory is
 left for the data

---
 src/data_raster.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6fe3256..da8f0d3 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -569,6 +569,11 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         return false;
     }
 
+    if (nullptr == tmprasterdata) {
+        StatusMessage("Error: Allocate memory for " + filename + " failed.");
+        GDALClose(po_dataset);
+        return false;
+    }
     if (!get_value_flag) { // NoData value is not defined!
         nodata = DefaultNoDataByType(in_type);
     }
-- 
2.43.0


From 75131d76d46bc66541ce17bccc43a7312c6084e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 030/111] fix: WriteSingleGeotiff releases options and
 converted data when the file cannot be created

---
 src/data_raster.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index da8f0d3..464374f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -805,12 +805,20 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         return false;
     }
     GDALDriver* po_driver = GetGDALDriverManager()->GetDriverByName("GTiff");
-    if (nullptr == po_driver) { return false; }
+    if (nullptr == po_driver) {
+        if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
+        if (new_values != nullptr) { CPLFree(new_values); }
+        return false;
+    }
     string dirname = GetPathFromFullName(filename);
     if (!PathExists(dirname)) { MakeDirectory(dirname); }
     GDALDataset* po_dst_ds = po_driver->Create(filename.c_str(), n_cols, n_rows, 1,
                                                CvtToGDALDataType(outtype), papsz_options);
-    if (nullptr == po_dst_ds) { return false; }
+    if (nullptr == po_dst_ds) {
+        if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
+        if (new_values != nullptr) { CPLFree(new_values); }
+        return false;
+    }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     CPLErr result = CE_None;
     if (!recreate_flag) {
-- 
2.43.0


From 68f784dd9bbb711a8b75535ba196c9f628736ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 031/111] fix: WriteSingleGeotiff checks the band before
 writing to it

---
 src/data_raster.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 464374f..4f52f88 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -821,7 +821,10 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     CPLErr result = CE_None;
-    if (!recreate_flag) {
+    if (nullptr == po_dst_band) {
+        result = CE_Failure;
+    }
+    else if (!recreate_flag) {
         result = po_dst_band->RasterIO(GF_Write, 0, 0, n_cols, n_rows, values,
                                        n_cols, n_rows, CvtToGDALDataType(outtype), 0, 0);
     }
@@ -829,7 +832,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         result = po_dst_band->RasterIO(GF_Write, 0, 0, n_cols, n_rows, new_values,
                                        n_cols, n_rows, CvtToGDALDataType(outtype), 0, 0);
     }
-    if (result != CE_None || nullptr == po_dst_band) {
+    if (result != CE_None) {
         StatusMessage("RaterIO Error: " + string(CPLGetLastErrorMsg()));
         if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
         if (new_values != nullptr) { CPLFree(new_values); }
-- 
2.43.0


From 8b4f66ce7afe3133d2d1fdc938cd4f0f8a51bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 032/111] fix: ReadAscFile reads exactly rows * cols values and
 allocates only for a complete file

---
 src/data_raster.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4f52f88..408d1fb 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -228,7 +228,7 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
     bool yllcorner = false;
     int rows = -1;
     int cols = -1;
-    int vidx = 0;
+    vector<T> cells; // stored in `values` after all checks
     for (auto iter = content_strs.begin(); iter != content_strs.end(); ++iter) {
         vector<string> tokens = SplitString(*iter);
         if (tokens.empty()) { continue; }
@@ -268,31 +268,31 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             if (!str2value) { return false; }
         }
         else {
-            if (rows < 0 || cols < 0) {
-                StatusMessage("Warning: NCOLS and NROWS should be defined first!");
+            if (rows <= 0 || cols <= 0) {
+                StatusMessage("Error: NCOLS and NROWS should be defined first!");
+                return false;
             }
-            if (nullptr == values) { Initialize1DArray(rows * cols, values, nodata); }
             for (auto it_value = tokens.begin(); it_value != tokens.end(); ++it_value) {
                 double tmpv = IsDouble(*it_value, str2value);
                 if (!str2value) {
                     StatusMessage("Error: No value occurred in Raster data matrix!");
-                    if (nullptr != values) { Release1DArray(values); }
-                    return false;
-                }
-                if (vidx == rows * cols) {
-                    StatusMessage("Error: Count of values MUST equal to rows * cols!");
-                    if (nullptr != values) { Release1DArray(values); }
                     return false;
                 }
-                values[vidx++] = static_cast<T>(tmpv);
+                cells.emplace_back(static_cast<T>(tmpv));
             }
         }
     }
-    if (rows < 0 || cols < 0 || cellsize < 0 ||
+    if (rows <= 0 || cols <= 0 || cellsize < 0 ||
         FloatEqual(xll, MISSINGFLOAT) || FloatEqual(yll, MISSINGFLOAT)) {
         StatusMessage("Error: Header information incomplete!");
         return false;
     }
+    if (cells.size() != static_cast<size_t>(rows) * cols) {
+        StatusMessage("Error: Count of values MUST equal to rows * cols!");
+        return false;
+    }
+    if (nullptr == values && !Initialize1DArray(rows * cols, values, nodata)) { return false; }
+    for (int i = 0; i < rows * cols; i++) { values[i] = cells[i]; }
     // default is center, if corner, then:
     if (xllcorner) { xll += 0.5 * cellsize; }
     if (yllcorner) { yll += 0.5 * cellsize; }
-- 
2.43.0


From 9992942a2bfd686ca9eeff56941b76e4c8806df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 033/111] fix: Initialize1DArray leaves no uninitialised array
 behind when there is nothing to copy

---
 src/utils_array.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index f0027af..e23790c 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -360,16 +360,20 @@ bool Initialize1DArray(const int row, T*& data, INI_T* const init_data) {
         cout << "The input 1D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
+    if (nullptr == init_data) {
+        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
+        return false;
+    }
+    if (row <= 0) {
+        cout << "The data length MUST be greater than 0!" << endl;
+        return false;
+    }
     data = new(nothrow) T[row];
     if (nullptr == data) {
         delete[] data;
         cout << "Bad memory allocated during 1D array initialization!" << endl;
         return false;
     }
-    if (nullptr == init_data) {
-        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
-        return false;
-    }
 #pragma omp parallel for
     for (int i = 0; i < row; i++) {
         data[i] = static_cast<T>(init_data[i]);
-- 
2.43.0


From 2d4baaa3ef4398962cdfc16588a76a48caca624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 034/111] fix: Initialize2DArray releases its row pointers when
 the data pool cannot be allocated

---
 src/utils_array.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index e23790c..3e31083 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -388,6 +388,10 @@ bool Initialize2DArray(const int row, const int col, T**& data,
         cout << "The input 2D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
+    if (row <= 0 || col <= 0) {
+        cout << "The data length MUST be greater than 0!" << endl;
+        return false;
+    }
     data = new(nothrow) T*[row];
     if (nullptr == data) {
         delete[] data;
@@ -397,7 +401,8 @@ bool Initialize2DArray(const int row, const int col, T**& data,
     T* pool = nullptr;
     pool = new(nothrow) T[row * col];
     if (nullptr == pool) {
-        delete[] pool;
+        delete[] data;
+        data = nullptr;
         cout << "Bad memory allocated during initialize data pool of the 2D array!" << endl;
         return false;
     }
-- 
2.43.0


From f8882cf9a800761b8a024d9b1ce71fcb8d20161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 035/111] fix: Initialize2DArray reports a missing source array

---
 src/utils_array.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils_array.h b/src/utils_array.h
index 3e31083..38ecbef 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -422,6 +422,10 @@ bool Initialize2DArray(const int row, const int col, T**& data,
 template <typename T, typename INI_T>
 bool Initialize2DArray(const int row, const int col, T**& data,
                        INI_T** const init_data) {
+    if (nullptr == init_data) {
+        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
+        return false;
+    }
     bool flag = Initialize2DArray(row, col, data, init_data[0][0]);
     if (!flag) { return false; }
 #pragma omp parallel for
-- 
2.43.0


From f1d47c83fdfc148c669ee7795c228b7769d2a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 036/111] fix: the irregular Initialize2DArray reports what it
 cannot initialise

---
 src/utils_array.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 38ecbef..0fc3043 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -439,8 +439,20 @@ bool Initialize2DArray(const int row, const int col, T**& data,
 
 template <typename T1, typename T2>
 bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
+    if (nullptr != data) {
+        cout << "The input 2D array pointer is not nullptr. No initialization performed!" << endl;
+        return false;
+    }
+    if (nullptr == init_data) {
+        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
+        return false;
+    }
     int idx = 0;
     rows = CVT_INT(init_data[idx++]);
+    if (rows <= 0) {
+        cout << "The data length MUST be greater than 0!" << endl;
+        return false;
+    }
     data = new(nothrow) T2* [rows];
     if (nullptr == data) {
         delete[] data;
@@ -458,7 +470,12 @@ bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
     }
     int length = idx - 1;
     // New a 1d array to store data
-    Initialize1DArray(length, pool, init_data + 1);
+    if (!Initialize1DArray(length, pool, init_data + 1)) {
+        delete[] cols;
+        delete[] data;
+        data = nullptr;
+        return false;
+    }
     // Now point the row pointers to the appropriate positions in the data pool
     int pos = 0;
     for (int i = 0; i < rows; ++i) {
-- 
2.43.0


From 8a44f3fb215153b633b1de935fc3e52123cc75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 037/111] fix: BatchRelease2DArray calls the existing
 Release2DArray

---
 src/utils_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 0fc3043..000a8e5 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -518,13 +518,13 @@ void BatchRelease1DArray(T*& data, ...) {
 }
 
 template <typename T>
-void BatchRelease2DArray(const int nrows, T**& data, ...) {
+void BatchRelease2DArray(const int /* nrows */, T**& data, ...) {
     va_list arg_ptr;
     va_start(arg_ptr, data);
-    Release2DArray(nrows, data);
+    Release2DArray(data);
     T** arg_value = va_arg(arg_ptr, T**);
     while (nullptr != arg_value) {
-        Release2DArray(nrows, arg_value);
+        Release2DArray(arg_value);
         arg_value = va_arg(arg_ptr, T**);
     }
     va_end(arg_ptr);
-- 
2.43.0


From e9353454947cab328645dfb406d47b3cf1e93ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 038/111] fix: utils_array.h includes the standard headers it
 uses

---
 src/utils_array.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 000a8e5..ac152f2 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -12,7 +12,9 @@
 #ifndef CCGL_UTILS_ARRAY_H
 #define CCGL_UTILS_ARRAY_H
 
+#include <algorithm> // std::find, std::copy, std::swap
 #include <new> // std::nothrow
+#include <stdexcept> // std::invalid_argument
 #include <cstdarg> // variable arguments
 #include <iostream>
 #include <vector>
@@ -535,7 +537,7 @@ bool ValueInVector(const T val, const vector<T>& vec) {
     if (vec.empty()) {
         return false;
     }
-    if (find(vec.begin(), vec.end(), val) == vec.end()) {
+    if (std::find(vec.begin(), vec.end(), val) == vec.end()) {
         return false;
     }
     return true;
-- 
2.43.0


From 23cfaaff0b6f7e0bf427a552cf47af7dbeb0a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 039/111] fix: Array2D returns nothing instead of an undefined
 pointer when memory is exhausted

---
 src/utils_array.h | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index ac152f2..7a819c5 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -234,23 +234,21 @@ class Array2D {
     vuint32_t m_cols;
 
     T** create2DArray(vuint32_t nrows, vuint32_t ncols, const T& val = T()) {
-        T** ptr = nullptr;
-        T* pool = nullptr;
-        try {
-            ptr = new(nothrow) T*[nrows];  // allocate pointers (Do not throw here)
-            pool = new(nothrow) T[nrows*ncols];  // allocate pool (Do not throw here)
-            for (vuint32_t i = 0; i < nrows * ncols; i++) {
-                pool[i] = val;
-            }
-            // now point the row pointers to the appropriate positions in the memory pool
-            for (vuint32_t i = 0; i < nrows; ++i, pool += ncols) {
-                ptr[i] = pool;
-            }
-            return ptr;
-        } catch (std::bad_alloc& ex) {
-            delete[] ptr; // either this is nullptr or it was allocated
-            // throw ex;  // memory allocation error
+        T** ptr = new(nothrow) T*[nrows];  // allocate pointers (Do not throw here)
+        T* pool = new(nothrow) T[nrows*ncols];  // allocate pool (Do not throw here)
+        if (nullptr == ptr || nullptr == pool) {
+            delete[] ptr;
+            delete[] pool;
+            return nullptr;
         }
+        for (vuint32_t i = 0; i < nrows * ncols; i++) {
+            pool[i] = val;
+        }
+        // now point the row pointers to the appropriate positions in the memory pool
+        for (vuint32_t i = 0; i < nrows; ++i, pool += ncols) {
+            ptr[i] = pool;
+        }
+        return ptr;
     }
 
 public:
-- 
2.43.0


From 7a554fb0296bce6d139f523e4e83734890b6b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 040/111] fix: copying an empty Array2D does not dereference a
 null pointer

---
 src/utils_array.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils_array.h b/src/utils_array.h
index 7a819c5..a94ffa7 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -280,7 +280,12 @@ public:
     }
 
     Array2D(const Array2D& rhs) : m_rows(rhs.m_rows), m_cols(rhs.m_cols) {
+        if (nullptr == rhs.data_ptr) {
+            data_ptr = nullptr;
+            return;
+        }
         data_ptr = create2DArray(m_rows, m_cols);
+        if (nullptr == data_ptr) { return; }
         std::copy(&rhs.data_ptr[0][0], &rhs.data_ptr[m_rows - 1][m_cols], &data_ptr[0][0]);
     }
 
-- 
2.43.0


From cace4efb74ef5405802b7579b002b4be26c85ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 041/111] fix: the templates that read arrays from text are
 defined in the header, where clients can instantiate them

---
 src/utils_array.cpp | 48 -------------------------------------------
 src/utils_array.h   | 50 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 48 deletions(-)

diff --git a/src/utils_array.cpp b/src/utils_array.cpp
index c735e0b..aa62be7 100644
--- a/src/utils_array.cpp
+++ b/src/utils_array.cpp
@@ -1,6 +1,5 @@
 #include "utils_array.h"
 
-#include <sstream>
 #include <fstream>
 
 namespace ccgl {
@@ -23,53 +22,6 @@ void Output2DArrayToTxtFile(const int rows, const int cols, const float** data,
     }
     ofs.close();
 }
-
-template <typename T>
-void Read1DArrayFromTxtFile(const char* filename, int& rows, T*& data) {
-    std::ifstream ifs(filename);
-    string tmp;
-    ifs >> tmp >> rows;
-    data = new T[rows];
-    for (int i = 0; i < rows; i++) {
-        ifs >> data[i];
-    }
-    ifs.close();
-}
-
-template <typename T>
-void Read2DArrayFromTxtFile(const char* filename, int& rows, T**& data) {
-    std::ifstream ifs(filename);
-    string tmp;
-    ifs >> tmp >> rows;
-    data = new T*[rows];
-    int n;
-    for (int i = 0; i < rows; i++) {
-        ifs >> n;
-        data[i] = new T[n + 1];
-        data[i][0] = n;
-        for (int j = 1; j <= n; j++) {
-            ifs >> data[i][j];
-        }
-    }
-    ifs.close();
-}
-
-template <typename T>
-void Read2DArrayFromString(const char* s, int& rows, T**& data) {
-    std::istringstream ifs(s);
-    string tmp;
-    ifs >> tmp >> rows;
-    data = new T*[rows];
-    int n;
-    for (int i = 0; i < rows; i++) {
-        ifs >> n;
-        data[i] = new T[n + 1];
-        data[i][0] = n;
-        for (int j = 1; j <= n; j++) {
-            ifs >> data[i][j];
-        }
-    }
-}
 } /* namespace: utils_array */
 
 } /* namespace: ccgl */
diff --git a/src/utils_array.h b/src/utils_array.h
index a94ffa7..902e182 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -16,7 +16,10 @@
 #include <new> // std::nothrow
 #include <stdexcept> // std::invalid_argument
 #include <cstdarg> // variable arguments
+#include <fstream>
 #include <iostream>
+#include <sstream>
+#include <string>
 #include <vector>
 
 #include "basic.h"
@@ -557,6 +560,53 @@ void RemoveValueInVector(const T val, vector<T>& vec) {
     }
 }
 
+template <typename T>
+void Read1DArrayFromTxtFile(const char* filename, int& rows, T*& data) {
+    std::ifstream ifs(filename);
+    std::string tmp;
+    ifs >> tmp >> rows;
+    data = new T[rows];
+    for (int i = 0; i < rows; i++) {
+        ifs >> data[i];
+    }
+    ifs.close();
+}
+
+template <typename T>
+void Read2DArrayFromTxtFile(const char* filename, int& rows, T**& data) {
+    std::ifstream ifs(filename);
+    std::string tmp;
+    ifs >> tmp >> rows;
+    data = new T*[rows];
+    int n;
+    for (int i = 0; i < rows; i++) {
+        ifs >> n;
+        data[i] = new T[n + 1];
+        data[i][0] = n;
+        for (int j = 1; j <= n; j++) {
+            ifs >> data[i][j];
+        }
+    }
+    ifs.close();
+}
+
+template <typename T>
+void Read2DArrayFromString(const char* s, int& rows, T**& data) {
+    std::istringstream ifs(s);
+    std::string tmp;
+    ifs >> tmp >> rows;
+    data = new T*[rows];
+    int n;
+    for (int i = 0; i < rows; i++) {
+        ifs >> n;
+        data[i] = new T[n + 1];
+        data[i][0] = n;
+        for (int j = 1; j <= n; j++) {
+            ifs >> data[i][j];
+        }
+    }
+}
+
 } /* utils_array */
 } /* namespace: ccgl */
 
-- 
2.43.0


From 36376be78e1ddf8ff0cadf1affc9c9fdaede4a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 042/111] fix: remove the declaration of
 Initialize1DArray4ItpWeight, which is defined nowhere

---
 src/utils_array.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 902e182..19eeca2 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -55,8 +55,7 @@ bool Initialize1DArray(int row, T*& data, INI_T init_value);
 template <typename T, typename INI_T>
 bool Initialize1DArray(int row, T*& data, INI_T* init_data);
 
-template <typename T, typename INI_T>
-bool Initialize1DArray4ItpWeight(int row, T*& data, INI_T* init_data, int itp_weight_data_length);
+
 /*!
  * \brief Initialize DT_Array2D data
  *
-- 
2.43.0


From 55614ffee8e8037168b9652830b97275d3460c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 043/111] fix: arrays read from text never take their size or
 values from unset variables

---
 src/utils_array.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 19eeca2..2dc598f 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -563,8 +563,11 @@ template <typename T>
 void Read1DArrayFromTxtFile(const char* filename, int& rows, T*& data) {
     std::ifstream ifs(filename);
     std::string tmp;
-    ifs >> tmp >> rows;
-    data = new T[rows];
+    if (!(ifs >> tmp >> rows) || rows <= 0) {
+        rows = 0;
+        return;
+    }
+    data = new T[rows]();
     for (int i = 0; i < rows; i++) {
         ifs >> data[i];
     }
@@ -575,12 +578,15 @@ template <typename T>
 void Read2DArrayFromTxtFile(const char* filename, int& rows, T**& data) {
     std::ifstream ifs(filename);
     std::string tmp;
-    ifs >> tmp >> rows;
+    if (!(ifs >> tmp >> rows) || rows <= 0) {
+        rows = 0;
+        return;
+    }
     data = new T*[rows];
-    int n;
     for (int i = 0; i < rows; i++) {
-        ifs >> n;
-        data[i] = new T[n + 1];
+        int n = 0;
+        if (!(ifs >> n) || n < 0) { n = 0; }
+        data[i] = new T[n + 1]();
         data[i][0] = n;
         for (int j = 1; j <= n; j++) {
             ifs >> data[i][j];
@@ -593,12 +599,15 @@ template <typename T>
 void Read2DArrayFromString(const char* s, int& rows, T**& data) {
     std::istringstream ifs(s);
     std::string tmp;
-    ifs >> tmp >> rows;
+    if (!(ifs >> tmp >> rows) || rows <= 0) {
+        rows = 0;
+        return;
+    }
     data = new T*[rows];
-    int n;
     for (int i = 0; i < rows; i++) {
-        ifs >> n;
-        data[i] = new T[n + 1];
+        int n = 0;
+        if (!(ifs >> n) || n < 0) { n = 0; }
+        data[i] = new T[n + 1]();
         data[i][0] = n;
         for (int j = 1; j <= n; j++) {
             ifs >> data[i][j];
-- 
2.43.0


From 0b21d8d75b50f42c7f7515fdb8d894fde72d284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 044/111] fix: the constructors of clsRasterData that take an
 SRS construct the object instead of a discarded temporary

---
 src/data_raster.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 408d1fb..33308f8 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1883,6 +1883,15 @@ public:
     ROW_COL GetPositionByCoordinate(double x, double y, STRDBL_MAP* header = nullptr);
 
 private:
+    /*!
+     * \brief Options that hold the given SRS only
+     */
+    static STRING_MAP SrsOptions(const string& srs) {
+        STRING_MAP opts = InitialStrHeader();
+        UpdateStrHeader(opts, HEADER_RS_SRS, srs);
+        return opts;
+    }
+
     /*!
      * \brief Initialize all raster related variables.
      */
@@ -2112,10 +2121,8 @@ clsRasterData<T, MASK_T>::clsRasterData(bool is_2d /* = false */) {
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T* data, int cols, int rows, T nodata,
                                         double dx, double xll, double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data, cols, rows, nodata, dx, xll, yll, opts);
+                                        const string& srs)
+    : clsRasterData(data, cols, rows, nodata, dx, xll, yll, SrsOptions(srs)) {
 }
 
 template <typename T, typename MASK_T>
@@ -2142,10 +2149,8 @@ clsRasterData<T, MASK_T>::clsRasterData(T* data, const int cols, const int rows,
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T** data2d, const int cols, const int rows, const int nlayers,
                                         T nodata, const double dx, const double xll, const double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, opts);
+                                        const string& srs)
+    : clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, SrsOptions(srs)) {
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From fb8a4c5088ca3e22229d00879f9c51c8824d5477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 045/111] fix: the multi-file constructor of clsRasterData
 initialises the object before any return

---
 src/data_raster.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 33308f8..8511bb6 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2209,6 +2209,7 @@ clsRasterData<T, MASK_T>::clsRasterData(vector<string>& filenames,
                                         const bool use_mask_ext /* = true */,
                                         double default_value /* = NODATA_VALUE */,
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
+    InitializeRasterClass();
     if (!FilesExist(filenames)) {
         StatusMessage("Please make sure all file path existed!");
         return;
@@ -2216,6 +2217,7 @@ clsRasterData<T, MASK_T>::clsRasterData(vector<string>& filenames,
     if (filenames.size() == 1) {
         ReadFromFile(filenames[0], calc_pos, mask,
                      use_mask_ext, default_value, opts);
+        return;
     }
     ReadFromFiles(filenames, calc_pos, mask,
                   use_mask_ext, default_value, opts);
-- 
2.43.0


From 4d214a639e99209b28c3e62bd8e3881e96bb5703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 046/111] fix: positions borrowed from a mask or the caller are
 never released by the borrowing raster

---
 src/data_raster.hpp | 54 +++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8511bb6..1573ed3 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1919,6 +1919,19 @@ private:
                                  bool use_mask_ext = true, double default_value = NODATA_VALUE,
                                  const STRING_MAP& opts = STRING_MAP());
 
+    /*!
+     * \brief Release positions data if owned by this raster, otherwise just forget the pointers.
+     */
+    void ReleasePositions() {
+        if (store_pos_) {
+            Release2DArray(pos_data_);
+            Release1DArray(pos_idx_);
+        }
+        pos_data_ = nullptr;
+        pos_idx_ = nullptr;
+        store_pos_ = false;
+    }
+
     /*!
      * \brief Extract by mask data and calculate position index, if necessary.
      * \return integer values to represent different situations
@@ -2368,8 +2381,7 @@ template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::~clsRasterData() {
     if (!core_name_.empty()) { StatusMessage(("Release raster: " + core_name_).c_str()); }
     if (nullptr != raster_) { Release1DArray(raster_); }
-    if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
-    if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
+    ReleasePositions();
     if (nullptr != raster_2d_ && is_2draster) { Release2DArray(raster_2d_); }
     if (is_2draster && stats_calculated_) { ReleaseStatsMap2D(); }
     ReleaseSubset();
@@ -2855,25 +2867,31 @@ bool clsRasterData<T, MASK_T>::SetCalcPositions() {
 
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::SetPositions(int len, int** pdata) {
-    if (nullptr != pos_data_) {
-        if (len != n_cells_) { return false; } // cannot change origin n_cells_
+    if (nullptr != pos_data_ && len != n_cells_) { return false; } // cannot change origin n_cells_
+    if (store_pos_) { // both positions arrays are owned, keep owning them
+        int** owned = nullptr;
+        if (!Initialize2DArray(len, 2, owned, pdata)) { return false; }
         Release2DArray(pos_data_);
+        pos_data_ = owned;
+    } else {
+        pos_data_ = pdata;
     }
-    pos_data_ = pdata;
     calc_pos_ = true;
-    store_pos_ = false;
     return true;
 }
 
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::SetPositions(int len, int* pdata) {
-    if (nullptr != pos_idx_) {
-        if (len != n_cells_) { return false; } // cannot change origin n_cells_
+    if (nullptr != pos_idx_ && len != n_cells_) { return false; } // cannot change origin n_cells_
+    if (store_pos_) { // both positions arrays are owned, keep owning them
+        int* owned = nullptr;
+        if (!Initialize1DArray(len, owned, pdata)) { return false; }
         Release1DArray(pos_idx_);
+        pos_idx_ = owned;
+    } else {
+        pos_idx_ = pdata;
     }
-    pos_idx_ = pdata;
     calc_pos_ = true;
-    store_pos_ = false;
     return true;
 }
 
@@ -3693,12 +3711,7 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     if (!is_2draster && nullptr != raster_) {
         Release1DArray(raster_);
     }
-    if (nullptr != pos_data_) {
-        Release2DArray(pos_data_);
-    }
-    if (nullptr != pos_idx_) {
-        Release1DArray(pos_idx_);
-    }
+    ReleasePositions();
     if (stats_calculated_) {
         ReleaseStatsMap2D();
         stats_calculated_ = false;
@@ -3891,7 +3904,7 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
         Release1DArray(raster_);
         Initialize1DArray(n_cells_, raster_, no_data_value_);
     }
-    // pos_data_ is nullptr till now.
+    ReleasePositions();
     Initialize2DArray(n_cells_, 2, pos_data_, 0);
     Initialize1DArray(n_cells_, pos_idx_, 0);
     store_pos_ = true;
@@ -4150,10 +4163,9 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         vector<int>(pos_rows).swap(pos_rows);
         vector<int>(pos_cols).swap(pos_cols);
 
+        ReleasePositions();
         store_pos_ = true;
         n_cells_ = CVT_INT(values.size());
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
         Initialize2DArray(n_cells_, 2, pos_data_, 0);
         Initialize1DArray(n_cells_, pos_idx_, 0);
         for (size_t k = 0; k < pos_rows.size(); ++k) {
@@ -4166,13 +4178,11 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
         }
     } else {
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+        ReleasePositions();
         if (calc_pos_) {
             mask_->GetRasterPositionData(&n_cells_, &pos_data_);
             mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
         }
-        store_pos_ = false;
     }
 
     // Release the original raster values, and create new
-- 
2.43.0


From 40ba068dec7b03ffbbe122f570fd96db49090de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 047/111] fix: recalculating a subset releases the subset data
 it replaces

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 1573ed3..dd8b012 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4302,8 +4302,8 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                     it->second->local_pos_[ii][1] = local_col;
                     it->second->local_posidx_[ii] = local_row * local_ncols + local_col;
                 }
-                it->second->data_ = nullptr;
-                it->second->data2d_ = nullptr;
+                Release1DArray(it->second->data_);
+                Release2DArray(it->second->data2d_);
                 it->second->alloc_ = true;
             }
             ++it;
-- 
2.43.0


From 73ff2b04f184a1554d826483813238540e80a283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 048/111] fix: clsRasterData, which owns raw arrays, is not
 copyable

---
 src/data_raster.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index dd8b012..3be56e0 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1210,7 +1210,7 @@ public:
  *        Support I/O among ASCII file, TIFF, and MongoDB database.
  */
 template <typename T, typename MASK_T = T>
-class clsRasterData {
+class clsRasterData: NotCopyable {
 public:
     /************* Construct functions ***************/
 
@@ -1994,11 +1994,6 @@ private:
         }
     }
 
-    /*!
-     * \brief Operator= without implementation
-     */
-    clsRasterData& operator=(const clsRasterData&) { }
-
     /*! cell number of raster data, i.e. the data length of \sa raster_data_ or \sa raster_2d_
      * 1. all grid cell number, i.e., ncols * nrows, when m_calcPositions is False
      * 2. valid cell number excluding NoDATA, when m_calcPositions is True and m_useMaskExtent is False.
-- 
2.43.0


From 7bf759333abcb10df810f5b2d05288ff1a39dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 049/111] fix: reading or copying into a raster releases and
 resets what it held before

---
 src/data_raster.hpp | 54 +++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3be56e0..15f50e8 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -291,8 +291,10 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
         StatusMessage("Error: Count of values MUST equal to rows * cols!");
         return false;
     }
-    if (nullptr == values && !Initialize1DArray(rows * cols, values, nodata)) { return false; }
-    for (int i = 0; i < rows * cols; i++) { values[i] = cells[i]; }
+    T* newvalues = nullptr;
+    if (!Initialize1DArray(rows * cols, newvalues, nodata)) { return false; }
+    for (int i = 0; i < rows * cols; i++) { newvalues[i] = cells[i]; }
+    values = newvalues;
     // default is center, if corner, then:
     if (xllcorner) { xll += 0.5 * cellsize; }
     if (yllcorner) { yll += 0.5 * cellsize; }
@@ -1932,6 +1934,17 @@ private:
         store_pos_ = false;
     }
 
+    /*!
+     * \brief Release raster data and their statistics
+     */
+    void ReleaseRasterData() {
+        Release1DArray(raster_);
+        Release2DArray(raster_2d_);
+        ReleaseStatsMap2D();
+        InitialStatsMap(stats_, stats_2d_);
+        stats_calculated_ = false;
+    }
+
     /*!
      * \brief Extract by mask data and calculate position index, if necessary.
      * \return integer values to represent different situations
@@ -2343,6 +2356,11 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
                                                        const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeReadFunction(filename, calc_pos, mask, use_mask_ext, default_value, opts);
 
+    // the object may already hold data
+    ReleaseRasterData();
+    ReleasePositions();
+    ReleaseSubset();
+
     bool readflag = false;
     string srs = string();
     if (StringMatch(GetUpper(GetSuffix(filename)), ASCIIExtension)) {
@@ -2375,10 +2393,10 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::~clsRasterData() {
     if (!core_name_.empty()) { StatusMessage(("Release raster: " + core_name_).c_str()); }
-    if (nullptr != raster_) { Release1DArray(raster_); }
     ReleasePositions();
-    if (nullptr != raster_2d_ && is_2draster) { Release2DArray(raster_2d_); }
-    if (is_2draster && stats_calculated_) { ReleaseStatsMap2D(); }
+    Release1DArray(raster_);
+    Release2DArray(raster_2d_);
+    ReleaseStatsMap2D();
     ReleaseSubset();
 }
 
@@ -3582,6 +3600,9 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         UpdateStringMap(opts_upd, HEADER_INC_NODATA, "TRUE");
     }
     if (!ReadGridFsFile(gfs, filename, dbdata, header_dbl, header_str, opts_upd)) { return false; }
+    // the object may already hold data
+    ReleaseRasterData();
+    ReleaseSubset();
 
     if (headers_.at(HEADER_RS_NROWS) > 0 && headers_.at(HEADER_RS_NCOLS) > 0
         && headers_.at(HEADER_RS_LAYERS) > 0 && headers_.at(HEADER_RS_CELLSNUM) > 0) {
@@ -3699,21 +3720,11 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<T, MASK_T>* another) {
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
+    if (nullptr == orgraster || this == orgraster) { return; }
     // Release current data
-    if (is_2draster && nullptr != raster_2d_ && n_cells_ > 0) {
-        Release2DArray(raster_2d_);
-    }
-    if (!is_2draster && nullptr != raster_) {
-        Release1DArray(raster_);
-    }
+    ReleaseRasterData();
     ReleasePositions();
-    if (stats_calculated_) {
-        ReleaseStatsMap2D();
-        stats_calculated_ = false;
-    }
-    if (!subset_.empty()) {
-        ReleaseSubset();
-    }
+    ReleaseSubset();
     // Initialize now Raster and copy data
     InitializeReadFunction(orgraster->GetFilePath(), orgraster->PositionsCalculated(),
                            orgraster->GetMask(), orgraster->MaskExtented(),
@@ -3723,14 +3734,14 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     rs_type_ = orgraster->GetDataType();
     rs_type_out_ = orgraster->GetOutDataType();
     no_data_value_ = orgraster->GetNoDataValue();
-    if (orgraster->Is2DRaster()) {
-        is_2draster = true;
+    is_2draster = orgraster->Is2DRaster();
+    if (is_2draster) {
         Initialize2DArray(n_cells_, n_lyrs_, raster_2d_,
                           orgraster->Get2DRasterDataPointer());
     } else {
         Initialize1DArray(n_cells_, raster_, orgraster->GetRasterDataPointer());
     }
-    if (calc_pos_) {
+    if (nullptr != orgraster->GetRasterPositionDataPointer() && nullptr != orgraster->GetRasterPositionIndexPointer()) {
         store_pos_ = true;
         Initialize2DArray(n_cells_, 2, pos_data_, orgraster->GetRasterPositionDataPointer());
         Initialize1DArray(n_cells_, pos_idx_, orgraster->GetRasterPositionIndexPointer());
@@ -3740,6 +3751,7 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
         if (is_2draster) {
             map<string, double *> stats2D = orgraster->GetStatistics2D();
             for (auto iter = stats2D.begin(); iter != stats2D.end(); ++iter) {
+                if (nullptr == iter->second) { continue; }
                 double* tmpstatvalues = nullptr;
                 Initialize1DArray(n_lyrs_, tmpstatvalues, iter->second);
                 stats_2d_.at(iter->first) = tmpstatvalues;
-- 
2.43.0


From 42d0b9c68474779a5160c464318ead42f8cdd3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 050/111] fix: reading several layers fails when any layer
 cannot be read

---
 src/data_raster.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 15f50e8..326df8a 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3524,12 +3524,13 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
     full_path_ = GetPathFromFullName(filenames[0]) + core_name_ + "_%d." + GetSuffix(filenames[0]);
     // 3. initialize raster_2d_ and read the other layers according to position data if stated,
     //     or just read by row and col
-    Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
+    if (!Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_)) { return false; }
 #pragma omp parallel for
     for (int i = 0; i < n_cells_; i++) {
         raster_2d_[i][0] = raster_[i];
     }
     Release1DArray(raster_);
+    is_2draster = true;
     int rows = GetRows();
     int cols = GetCols();
     // take the first layer as mask, and use_mask_ext is true, and no need to calculate position data
@@ -3538,13 +3539,13 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
         T* tmplyrdata = nullptr;
         string curfilename = filenames[fileidx];
         if (StringMatch(GetUpper(GetSuffix(curfilename)), string(ASCIIExtension))) {
-            ReadAscFile(curfilename, tmpheader, tmplyrdata);
+            if (!ReadAscFile(curfilename, tmpheader, tmplyrdata)) { return false; }
         }
         else {
 #ifdef USE_GDAL
             RasterDataType tmpintype;
             string tmpsrs;
-            ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
+            if (!ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs)) { return false; }
 #else
             StatusMessage("Warning: Only ASC format is supported without GDAL!");
             return false;
@@ -3575,7 +3576,6 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
         }
         Release1DArray(tmplyrdata);
     }
-    if(!is_2draster) is_2draster = true;
     UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_); // repair layers count in headers
     return true;
 }
-- 
2.43.0


From b03fb11d917bac1e0d05480ff31c0d3db260fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 051/111] fix: GetStatistics of all layers is available for 2D
 rasters

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 326df8a..7cf2d46 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2581,7 +2581,7 @@ double clsRasterData<T, MASK_T>::GetStatistics(string sindex, const int lyr /* =
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::GetStatistics(string sindex, int* lyrnum, double** values) {
-    if (!is_2draster || nullptr != raster_2d_) {
+    if (!is_2draster || nullptr == raster_2d_) {
         StatusMessage("Please initialize the raster object first.");
         *values = nullptr;
         return;
-- 
2.43.0


From 189cf031c78d1efc108cfde418ce7345bac27a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 052/111] fix: GetSrs returns a string owned by the raster
 instead of a dangling pointer

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 7cf2d46..dd8d34f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2741,7 +2741,7 @@ void clsRasterData<T, MASK_T>::GetRasterPositionData(int* datalength, int** posi
 
 template <typename T, typename MASK_T>
 const char* clsRasterData<T, MASK_T>::GetSrs() {
-    return GetSrsString().c_str();
+    return options_[HEADER_RS_SRS].c_str(); // lives as long as this raster
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 8e8f38afd6f91dc71b74dfad3b8b5411a172d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 053/111] fix: masking stores the default value in the layer it
 was computed for

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index dd8d34f..a9bca97 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4010,7 +4010,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 if (FloatEqual(tmp_values[lyr - 1], no_data_value_)
                     && !FloatEqual(default_value_, no_data_value_)) {
                     tmp_values[lyr - 1] = static_cast<T>(default_value_);
-                    SetValue(tmp_pos.first, tmp_pos.second, tmp_values[lyr - 1], lyr - 1);
+                    SetValue(tmp_pos.first, tmp_pos.second, tmp_values[lyr - 1], lyr + 1);
                 }
             }
             values_2d[i] = tmp_values;
-- 
2.43.0


From 3b6c79001ba1da3771bfe57915efab7ebe004aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:18 +0000
Subject: [PATCH 054/111] fix: GetSrs does not insert options

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a9bca97..345e4d8 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2741,7 +2741,7 @@ void clsRasterData<T, MASK_T>::GetRasterPositionData(int* datalength, int** posi
 
 template <typename T, typename MASK_T>
 const char* clsRasterData<T, MASK_T>::GetSrs() {
-    return options_[HEADER_RS_SRS].c_str(); // lives as long as this raster
+    return options_.at(HEADER_RS_SRS).c_str(); // lives as long as this raster
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 8f0453386d776683cae2127eed3dc7ad73bd7bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:18 +0000
Subject: [PATCH 055/111] fix: Reclassify maps values without a new class to
 NoData instead of throwing

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 345e4d8..baf16a0 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3813,7 +3813,7 @@ void clsRasterData<T, MASK_T>::Reclassify(const map<int, T> reclass_map) {
             T curv = is_2draster && nullptr != raster_2d_
                          ? CVT_INT(raster_2d_[i][lyr])
                          : CVT_INT(raster_[i]);
-            if (recls.count(curv) < 0) {
+            if (recls.count(curv) == 0) {
 #ifdef HAS_VARIADIC_TEMPLATES
                 recls.emplace(curv, no_data_value_);
 #else
-- 
2.43.0


From 63925556434156a27dd26982b7c25ddaa2ab9caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 056/111] fix: an incomplete header given by the caller is
 reported instead of throwing std::out_of_range

---
 src/data_raster.cpp | 10 ++++++++++
 src/data_raster.hpp | 14 ++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index cae2961..2418417 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -118,6 +118,12 @@ STRDBL_MAP InitialHeader() {
     return headinfo;
 }
 
+bool HasGridHeader(const STRDBL_MAP& header) {
+    return header.find(HEADER_RS_NROWS) != header.end() && header.find(HEADER_RS_NCOLS) != header.end()
+            && header.find(HEADER_RS_XLL) != header.end() && header.find(HEADER_RS_YLL) != header.end()
+            && header.find(HEADER_RS_CELLSIZE) != header.end() && header.find(HEADER_RS_NODATA) != header.end();
+}
+
 void CopyHeader(const STRDBL_MAP& refers, STRDBL_MAP& dst) {
     if (refers.empty()) { return; }
     for (auto it = refers.begin(); it != refers.end(); ++it) {
@@ -187,6 +193,10 @@ void InitialStatsMap(STRDBL_MAP& stats, map<string, double*>& stats2d) {
 }
 
 bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
+    if (!HasGridHeader(header)) {
+        StatusMessage("Error: Header information incomplete!");
+        return false;
+    }
     DeleteExistedFile(filename);
     string abs_filename = GetAbsolutePath(filename);
     std::ofstream raster_file(abs_filename.c_str(), std::ios::app | std::ios::out);
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index baf16a0..d4a36cd 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -163,6 +163,11 @@ GDALDataType CvtToGDALDataType(RasterDataType type);
  */
 STRDBL_MAP InitialHeader();
 
+/*!
+ * \brief Does the header define the grid, i.e., its extent, cell size, and NoData?
+ */
+bool HasGridHeader(const STRDBL_MAP& header);
+
 /*!
  * \brief Copy header information from one to another
  * \param[in] refers Reference header
@@ -325,6 +330,10 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header);
  */
 template <typename T>
 bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values) {
+    if (!HasGridHeader(header)) {
+        StatusMessage("Error: Header information incomplete!");
+        return false;
+    }
     string abs_filename = GetAbsolutePath(filename);
     string dirname = GetPathFromFullName(abs_filename);
     if (!PathExists(dirname)) { MakeDirectory(dirname); }
@@ -609,6 +618,10 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
 template <typename T>
 bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                         const STRING_MAP& opts, T* values) {
+    if (!HasGridHeader(header)) {
+        StatusMessage("Error: Header information incomplete!");
+        return false;
+    }
     int n_rows = CVT_INT(header.at(HEADER_RS_NROWS));
     int n_cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     char** papsz_options = nullptr;
@@ -3841,6 +3854,7 @@ template <typename T, typename MASK_T>
 ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const double y,
                                                           STRDBL_MAP* header /* = nullptr */) {
     if (nullptr == header) { header = &headers_; }
+    if (!HasGridHeader(*header)) { return ROW_COL(-1, -1); }
     double xll_center = (*header).at(HEADER_RS_XLL);
     double yll_center = (*header).at(HEADER_RS_YLL);
     double dx = (*header).at(HEADER_RS_CELLSIZE);
-- 
2.43.0


From f17812e18905dad2eba3739bedc307c2bfbc5eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 057/111] fix: failing to write an ASC file is reported

---
 src/data_raster.cpp |  4 ++++
 src/data_raster.hpp | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 2418417..5f4dd2e 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -213,6 +213,10 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     raster_file << HEADER_RS_CELLSIZE << " " << header.at(HEADER_RS_CELLSIZE) << endl;
     raster_file << HEADER_RS_NODATA << " " << setprecision(6) << header.at(HEADER_RS_NODATA) << endl;
     raster_file.close();
+    if (raster_file.fail()) {
+        StatusMessage("Error writing file: " + abs_filename);
+        return false;
+    }
     return true;
 }
 
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d4a36cd..aee8806 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -353,6 +353,10 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     }
     raster_file << endl;
     raster_file.close();
+    if (raster_file.fail()) {
+        StatusMessage("Error writing file: " + abs_filename);
+        return false;
+    }
     return true;
 }
 
@@ -3263,6 +3267,10 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                 raster_file << endl;
             }
             raster_file.close();
+            if (raster_file.fail()) {
+                StatusMessage("Error writing file: " + tmpfilename);
+                return false;
+            }
         }
     } else { // 1D raster data
         if (!WriteAscHeaders(abs_filename, headers_)) { return false; }
@@ -3289,6 +3297,10 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
             raster_file << endl;
         }
         raster_file.close();
+        if (raster_file.fail()) {
+            StatusMessage("Error writing file: " + abs_filename);
+            return false;
+        }
     }
     position = nullptr;
     return true;
-- 
2.43.0


From 899ef4e1eab1075f27964191db7f3bd2660a78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 058/111] fix: OutputAscFile writes the NoData value of its own
 header and one file only

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index aee8806..b21891b 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3262,7 +3262,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                     if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {
                         raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
                         index++;
-                    } else { raster_file << setprecision(6) << NODATA_VALUE << " "; }
+                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
                 }
                 raster_file << endl;
             }
@@ -3274,7 +3274,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
         }
     } else { // 1D raster data
         if (!WriteAscHeaders(abs_filename, headers_)) { return false; }
-        std::ofstream raster_file(filename.c_str(), std::ios::app | std::ios::out);
+        std::ofstream raster_file(abs_filename.c_str(), std::ios::app | std::ios::out);
         if (!raster_file.is_open()) {
             StatusMessage("Error opening file: " + abs_filename);
             return false;
-- 
2.43.0


From e97dbe0f0218cb6f8eb2efdb558321461dc518d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 059/111] fix: ASC files keep all digits of coordinates,
 NoData, and cell values

---
 src/data_raster.cpp |  3 ++-
 src/data_raster.hpp | 17 +++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 5f4dd2e..40d1ce3 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -206,12 +206,13 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     }
     int rows = CVT_INT(header.at(HEADER_RS_NROWS));
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
+    raster_file << setprecision(std::numeric_limits<double>::max_digits10); // header must not lose digits
     raster_file << HEADER_RS_NCOLS << " " << cols << endl;
     raster_file << HEADER_RS_NROWS << " " << rows << endl;
     raster_file << HEADER_RS_XLL << " " << header.at(HEADER_RS_XLL) << endl;
     raster_file << HEADER_RS_YLL << " " << header.at(HEADER_RS_YLL) << endl;
     raster_file << HEADER_RS_CELLSIZE << " " << header.at(HEADER_RS_CELLSIZE) << endl;
-    raster_file << HEADER_RS_NODATA << " " << setprecision(6) << header.at(HEADER_RS_NODATA) << endl;
+    raster_file << HEADER_RS_NODATA << " " << header.at(HEADER_RS_NODATA) << endl;
     raster_file.close();
     if (raster_file.fail()) {
         StatusMessage("Error writing file: " + abs_filename);
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index b21891b..e4a684f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -32,6 +32,7 @@
 #define CCGL_DATA_RASTER_H
 
 // include base headers
+#include <limits>
 #include <string>
 #include <map>
 #include <set>
@@ -347,7 +348,7 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     for (int i = 0; i < rows; i++) {
         for (int j = 0; j < cols; j++) {
-            raster_file << setprecision(6) << values[i * cols + j] << " ";
+            raster_file << setprecision(std::numeric_limits<T>::max_digits10) << values[i * cols + j] << " ";
         }
         raster_file << endl;
     }
@@ -3256,13 +3257,13 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                 for (int j = 0; j < cols; ++j) {
                     if (outputdirectly) {
                         index = i * cols + j;
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
+                        raster_file << setprecision(std::numeric_limits<T>::max_digits10) << raster_2d_[index][lyr] << " ";
                         continue;
                     }
                     if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
+                        raster_file << setprecision(std::numeric_limits<T>::max_digits10) << raster_2d_[index][lyr] << " ";
                         index++;
-                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
+                    } else { raster_file << setprecision(std::numeric_limits<T>::max_digits10) << no_data_value_ << " "; }
                 }
                 raster_file << endl;
             }
@@ -3284,15 +3285,15 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
             for (int j = 0; j < cols; ++j) {
                 if (outputdirectly) {
                     index = i * cols + j;
-                    raster_file << setprecision(6) << raster_[index] << " ";
+                    raster_file << setprecision(std::numeric_limits<T>::max_digits10) << raster_[index] << " ";
                     continue;
                 }
                 if (index < n_cells_) {
                     if (position[index][0] == i && position[index][1] == j) {
-                        raster_file << setprecision(6) << raster_[index] << " ";
+                        raster_file << setprecision(std::numeric_limits<T>::max_digits10) << raster_[index] << " ";
                         index++;
-                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
-                } else { raster_file << setprecision(6) << no_data_value_ << " "; }
+                    } else { raster_file << setprecision(std::numeric_limits<T>::max_digits10) << no_data_value_ << " "; }
+                } else { raster_file << setprecision(std::numeric_limits<T>::max_digits10) << no_data_value_ << " "; }
             }
             raster_file << endl;
         }
-- 
2.43.0


From 3d5c0f3a8b00392873bc1abf495c6cbf9f8c2af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 060/111] fix: ASC files hold numbers, not characters, for
 8-bit cell types

---
 src/data_raster.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index e4a684f..ef189e1 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -348,7 +348,7 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     for (int i = 0; i < rows; i++) {
         for (int j = 0; j < cols; j++) {
-            raster_file << setprecision(std::numeric_limits<T>::max_digits10) << values[i * cols + j] << " ";
+            raster_file << setprecision(std::numeric_limits<T>::max_digits10) << +values[i * cols + j] << " ";
         }
         raster_file << endl;
     }
@@ -3257,13 +3257,13 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                 for (int j = 0; j < cols; ++j) {
                     if (outputdirectly) {
                         index = i * cols + j;
-                        raster_file << setprecision(std::numeric_limits<T>::max_digits10) << raster_2d_[index][lyr] << " ";
+                        raster_file << setprecision(std::numeric_limits<T>::max_digits10) << +raster_2d_[index][lyr] << " ";
                         continue;
                     }
                     if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {
-                        raster_file << setprecision(std::numeric_limits<T>::max_digits10) << raster_2d_[index][lyr] << " ";
+                        raster_file << setprecision(std::numeric_limits<T>::max_digits10) << +raster_2d_[index][lyr] << " ";
                         index++;
-                    } else { raster_file << setprecision(std::numeric_limits<T>::max_digits10) << no_data_value_ << " "; }
+                    } else { raster_file << setprecision(std::numeric_limits<T>::max_digits10) << +no_data_value_ << " "; }
                 }
                 raster_file << endl;
             }
@@ -3285,15 +3285,15 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
             for (int j = 0; j < cols; ++j) {
                 if (outputdirectly) {
                     index = i * cols + j;
-                    raster_file << setprecision(std::numeric_limits<T>::max_digits10) << raster_[index] << " ";
+                    raster_file << setprecision(std::numeric_limits<T>::max_digits10) << +raster_[index] << " ";
                     continue;
                 }
                 if (index < n_cells_) {
                     if (position[index][0] == i && position[index][1] == j) {
-                        raster_file << setprecision(std::numeric_limits<T>::max_digits10) << raster_[index] << " ";
+                        raster_file << setprecision(std::numeric_limits<T>::max_digits10) << +raster_[index] << " ";
                         index++;
-                    } else { raster_file << setprecision(std::numeric_limits<T>::max_digits10) << no_data_value_ << " "; }
-                } else { raster_file << setprecision(std::numeric_limits<T>::max_digits10) << no_data_value_ << " "; }
+                    } else { raster_file << setprecision(std::numeric_limits<T>::max_digits10) << +no_data_value_ << " "; }
+                } else { raster_file << setprecision(std::numeric_limits<T>::max_digits10) << +no_data_value_ << " "; }
             }
             raster_file << endl;
         }
-- 
2.43.0


From 8639d46632e0306468fe9fed6b4734b5ccf93d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 061/111] fix: subset data of another layer count is
 reallocated, and failed allocations are reported

---
 src/data_raster.cpp | 15 ++++++++++-----
 src/data_raster.hpp | 15 +++++++++------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 40d1ce3..0f6cd8e 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -319,15 +319,19 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
         Release1DArray(dbdata);
         return false;
     }
-    n_lyrs = db_nlyrs;
+    if (n_lyrs != db_nlyrs) { // existing 2D data has a different number of layers
+        Release2DArray(data2d_);
+        n_lyrs = db_nlyrs;
+    }
     if (n_lyrs == 1) {
         if (n_cells == db_ncells) {
             bool set_success = SetData(db_ncells, dbdata);
             Release1DArray(dbdata);
             return set_success;
         }
-        if (nullptr == data_) {
-            Initialize1DArray(n_cells, data_, NODATA_VALUE);
+        if (nullptr == data_ && !Initialize1DArray(n_cells, data_, NODATA_VALUE)) {
+            Release1DArray(dbdata);
+            return false;
         }
         for (int i = 0; i < n_cells; i++) {
             //data_[i] = dbdata[local_pos_[i][0] * ncols + local_pos_[i][1]];
@@ -335,8 +339,9 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
         }
     }
     else {
-        if (nullptr == data2d_) {
-            Initialize2DArray(n_cells, n_lyrs, data2d_, NODATA_VALUE);
+        if (nullptr == data2d_ && !Initialize2DArray(n_cells, n_lyrs, data2d_, NODATA_VALUE)) {
+            Release1DArray(dbdata);
+            return false;
         }
         for (int i = 0; i < n_cells; i++) {
             for (int j = 0; j < n_lyrs; j++) {
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index ef189e1..549eed6 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1156,8 +1156,8 @@ public:
         if (1 != n_lyrs) { n_lyrs = 1; }
         if (nullptr != data_) {
             for (int i = 0; i < n_cells; i++) { data_[i] = CVT_DBL(data[i]); }
-        } else {
-            Initialize1DArray(n_cells, data_, data);
+        } else if (!Initialize1DArray(n_cells, data_, data)) {
+            return false;
         }
         usable = true;
         return true;
@@ -1167,15 +1167,18 @@ public:
     bool Set2DData(const int n, const int lyr, T** data2d) {
         if (n != n_cells) { return false; }
         if (nullptr == data2d) { return false; }
-        if (lyr != n_lyrs) { n_lyrs = lyr; }
+        if (lyr != n_lyrs) { // existing 2D data has a different number of layers
+            Release2DArray(data2d_);
+            n_lyrs = lyr;
+        }
         if (nullptr != data2d_) {
             for (int i = 0; i < n_cells; i++) {
                 for (int j = 0; j < n_lyrs; j++) {
                     data2d_[i][j] = CVT_DBL(data2d[i][j]);
                 }
             }
-        } else {
-            Initialize2DArray(n_cells, n_lyrs, data2d_, data2d);
+        } else if (!Initialize2DArray(n_cells, n_lyrs, data2d_, data2d)) {
+            return false;
         }
         usable = true;
         return true;
@@ -1194,7 +1197,7 @@ public:
         int fullsize = nrows * ncols;
         for (int ilyr = 0; ilyr < n_lyrs; ilyr++) {
             T* tmpdata = nullptr;
-            Initialize1DArray(fullsize, tmpdata, nodata);
+            if (!Initialize1DArray(fullsize, tmpdata, nodata)) { return; }
             for (int vi = 0; vi < n_cells; vi++) {
                 //int j = local_pos_[vi][0] * ncols + local_pos_[vi][1];
                 int j = local_posidx_[vi];
-- 
2.43.0


From 488b8464d8805a38e7e3591a2173e463106b3b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 062/111] fix: BuildSubSet reports failed allocations

---
 src/data_raster.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 549eed6..1bc1d20 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2465,16 +2465,21 @@ bool clsRasterData<T, MASK_T>::BuildSubSet(map<int, int> groups /* = map<int, in
         cursubset->n_cells += 1;
     }
     for (auto it = subset_.begin(); it != subset_.end(); ++it) {
-        Initialize1DArray(it->second->n_cells, it->second->global_, 0);
+        it->second->alloc_ = true;
+        if (!Initialize1DArray(it->second->n_cells, it->second->global_, 0)) {
+            ReleaseSubset();
+            return false;
+        }
         for (auto it2 = global_idx[it->first].begin(); it2 != global_idx[it->first].end(); ++it2) {
             it->second->global_[it2 - global_idx[it->first].begin()] = *it2;
         }
     }
     for (auto it = subset_.begin(); it != subset_.end(); ++it) {
-        Initialize2DArray(it->second->n_cells, 2, it->second->local_pos_, -1);
-        Initialize1DArray(it->second->n_cells, it->second->local_posidx_, -1);
-
-        int nrows = it->second->g_erow - it->second->g_srow + 1;
+        if (!Initialize2DArray(it->second->n_cells, 2, it->second->local_pos_, -1)
+            || !Initialize1DArray(it->second->n_cells, it->second->local_posidx_, -1)) {
+            ReleaseSubset();
+            return false;
+        }
         int local_ncols = it->second->g_ecol - it->second->g_scol + 1;
         for (int gidx = 0; gidx < it->second->n_cells; gidx++) {
             //it->second->local_pos_[gidx][0] = pos_data_[it->second->global_[gidx]][0] - it->second->g_srow;
@@ -2485,7 +2490,6 @@ bool clsRasterData<T, MASK_T>::BuildSubSet(map<int, int> groups /* = map<int, in
             it->second->local_pos_[gidx][1] = local_col;
             it->second->local_posidx_[gidx] = local_row * local_ncols + local_col;
         }
-        it->second->alloc_ = true;
     }
     return true;
 }
-- 
2.43.0


From c362944e22c2ec895d699b5e873813217e62cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 063/111] fix: outputting subsets reports each subset that
 cannot be prepared or written

---
 src/data_raster.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 1bc1d20..603b775 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3005,6 +3005,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToFile(const bool out_origin /* = fal
         int tmplyrs;
         if (!PrepareSubsetData(it->first, it->second, &tmpdata1d, &tmpdatalen, &tmplyrs,
                                out_origin, true, recls, default_value)) {
+            flag = false;
             continue;
         }
         UpdateHeader(subheader, HEADER_RS_LAYERS, tmplyrs);
@@ -3070,7 +3071,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
     }
     int gncells = include_nodata ? gnrows * gncols : n_cells_;
     int data_length = gncells * lyrs;
-    Initialize1DArray(data_length, data1d, no_data_value_);
+    if (!Initialize1DArray(data_length, data1d, no_data_value_)) { return false; }
     for (auto it = subset_.begin(); it != subset_.end(); ++it) {
         bool use_defaultv_directly = false;
         if (!it->second->usable) {
@@ -3086,8 +3087,8 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 //int tmpr = pos_data_[gidx][0];
                 //int tmpc = pos_data_[gidx][1];
                 //int tmprc = tmpr * gncols + tmpc;
-                int tmprc = pos_idx_[gidx];
-                if (!include_nodata) { tmprc = gidx; }
+                int tmprc = gidx; // full-sized data has no positions
+                if (include_nodata && nullptr != pos_idx_) { tmprc = pos_idx_[gidx]; }
                 if (!recls.empty()) { // first priority
                     double uniqe_value = default_value;
                     int recls_key = it->first; // default reclassification key is subset's ID
@@ -3161,7 +3162,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
     }
     int ncells = include_nodata ? nrows * ncols : sub->n_cells;
     int data_length = ncells * lyrs;
-    Initialize1DArray(data_length, data1d, no_data_value_);
+    if (!Initialize1DArray(data_length, data1d, no_data_value_)) { return false; }
     for (int vi = 0; vi < sub->n_cells; vi++) {
         for (int ilyr = 0; ilyr < lyrs; ilyr++) {
             //int j = sub->local_pos_[vi][0] * ncols + sub->local_pos_[vi][1];
@@ -3217,7 +3218,7 @@ bool clsRasterData<T, MASK_T>::OutputFullsizeToFiles(T* fullsizedata, const int
         return WriteRasterToFile(fullfilename, header, opts, fullsizedata);
     }
     T* tmpdata1d = nullptr;
-    Initialize1DArray(fsize, tmpdata1d, NODATA_VALUE);
+    if (!Initialize1DArray(fsize, tmpdata1d, NODATA_VALUE)) { return false; }
     bool flag = true;
     for (int ilyr = 0; ilyr < datalyrs; ilyr++) {
         for (int gi = 0; gi < fsize; gi++) {
@@ -3483,14 +3484,16 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         T* data1d = nullptr;
         int sublyrs;
         int sublen;
-        bool flag = PrepareCombSubsetData(&data1d, &sublen, &sublyrs,
-                                          out_origin, include_nodata, recls, default_value);
+        if (!PrepareCombSubsetData(&data1d, &sublen, &sublyrs,
+                                   out_origin, include_nodata, recls, default_value)) {
+            return false;
+        }
         STRDBL_MAP tmpheader;
         CopyHeader(headers_, tmpheader);
         UpdateHeader(tmpheader, HEADER_RS_LAYERS, sublyrs);
         UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, sublen / sublyrs);
-        flag = flag && WriteStreamDataAsGridfs(gfs, "0_" + outnameact,
-                                               tmpheader, data1d, sublen, options_);
+        bool flag = WriteStreamDataAsGridfs(gfs, "0_" + outnameact,
+                                            tmpheader, data1d, sublen, options_);
         Release1DArray(data1d);
         return flag;
     }
@@ -3506,6 +3509,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         int tmplyrs;
         if (!PrepareSubsetData(it->first, it->second, &tmpdata1d, &tmpdatalen, &tmplyrs,
                                out_origin, include_nodata, recls, default_value)) {
+            flag = false;
             continue;
         }
         UpdateHeader(subheader, HEADER_RS_LAYERS, tmplyrs);
@@ -3514,7 +3518,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         flag = flag && WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_);
         if (nullptr != tmpdata1d) { Release1DArray(tmpdata1d); }
     }
-    return true;
+    return flag;
 }
 
 #endif /* USE_MONGODB */
-- 
2.43.0


From ec0083750baff1fb5811897efebf4d51af6e84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 064/111] fix: writing a raster reports missing data and failed
 allocations

---
 src/data_raster.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 603b775..4c25ff3 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3330,15 +3330,15 @@ bool clsRasterData<T, MASK_T>::OutputFileByGdal(const string& filename) {
         for (int lyr = 0; lyr < n_lyrs_; lyr++) {
             string tmpfilename = AppendCoreFileName(abs_filename, lyr + 1);
             if (outputdirectly) {
-                if (nullptr == data_1d) {
-                    Initialize1DArray(n_rows * n_cols, data_1d, no_data_value_);
+                if (nullptr == data_1d && !Initialize1DArray(n_rows * n_cols, data_1d, no_data_value_)) {
+                    return false;
                 }
                 for (int gi = 0; gi < n_rows * n_cols; gi++) {
                     data_1d[gi] = raster_2d_[gi][lyr];
                 }
             } else {
-                if (nullptr == data_1d) {
-                    Initialize1DArray(n_rows * n_cols, data_1d, no_data_value_);
+                if (nullptr == data_1d && !Initialize1DArray(n_rows * n_cols, data_1d, no_data_value_)) {
+                    return false;
                 }
                 for (int vi = 0; vi < n_cells_; vi++) {
                     //data_1d[pos_data_[vi][0] * n_cols + pos_data_[vi][1]] = raster_2d_[vi][lyr];
@@ -3356,7 +3356,7 @@ bool clsRasterData<T, MASK_T>::OutputFileByGdal(const string& filename) {
         if (outputdirectly) {
             outflag = WriteSingleGeotiff(abs_filename, headers_, options_, raster_);
         } else {
-            Initialize1DArray(n_rows * n_cols, data_1d, no_data_value_);
+            if (!Initialize1DArray(n_rows * n_cols, data_1d, no_data_value_)) { return false; }
             for (int vi = 0; vi < n_cells_; vi++) {
                 //data_1d[pos_data_[vi][0] * n_cols + pos_data_[vi][1]] = raster_[vi];
                 data_1d[pos_idx_[vi]] = raster_[vi];
@@ -3377,6 +3377,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
                                                bool include_nodata /* = true */,
                                                bool out_origin /* true */) {
     if (nullptr == gfs) { return false; }
+    if (!ValidateRasterData()) { return false; }
     if (!out_origin) { // Output subset's data
         return OutputSubsetToMongoDB(gfs, filename, opts, include_nodata, false, true);
     }
@@ -3418,7 +3419,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
             datalength = n_lyrs_ * n_cells_; // can be n_lyrs_ * (n_rows*n_cols or valid cells' number)
         } else {
             datalength = n_lyrs_ * n_fullsize;
-            Initialize1DArray(datalength, data_1d, no_data_value);
+            if (!Initialize1DArray(datalength, data_1d, no_data_value)) { return false; }
             for (int idx = 0; idx < n_cells_; idx++) {
                 int rowcol_index = pos[idx][0] * n_cols + pos[idx][1];
                 for (int k = 0; k < n_lyrs_; k++) {
@@ -3432,7 +3433,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
             datalength = n_cells_; // can be n_rows*n_cols or valid cells' number
         } else {
             datalength = n_fullsize;
-            Initialize1DArray(datalength, data_1d, no_data_value);
+            if (!Initialize1DArray(datalength, data_1d, no_data_value)) { return false; }
             for (int idx = 0; idx < n_cells_; idx++) {
                 data_1d[pos[idx][0] * n_cols + pos[idx][1]] = raster_[idx];
             }
-- 
2.43.0


From eb79c340fc193ba4fdbab9687c7127c148d36d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 065/111] fix: ReadFromMongoDB releases the downloaded data on
 every failure

---
 src/data_raster.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4c25ff3..d87edc0 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3667,7 +3667,10 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     no_data_value_ = static_cast<T>(headers_.at(HEADER_RS_NODATA));
     n_cells_ = CVT_INT(headers_.at(HEADER_RS_CELLSNUM));
 
-    if (include_nodata && n_cells_ != fullsize) { return false; }
+    if (include_nodata && n_cells_ != fullsize) {
+        Release1DArray(dbdata);
+        return false;
+    }
     if (n_cells_ != fullsize) { calc_pos_ = true; }
 
     // check the valid values count and determine whether we can read directly.
@@ -3691,12 +3694,18 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         mask_pos_subset = false;
     }
 
-    if (!include_nodata && (nullptr == pos_data_ || nullptr == pos_idx_)) { return false; }
+    if (!include_nodata && (nullptr == pos_data_ || nullptr == pos_idx_)) {
+        Release1DArray(dbdata);
+        return false;
+    }
 
     if (n_lyrs_ == 1) {
         is_2draster = false;
         if (include_nodata && !mask_pos_subset) {
-            Initialize1DArray(n_cells_, raster_, no_data_value_);
+            if (!Initialize1DArray(n_cells_, raster_, no_data_value_)) {
+                Release1DArray(dbdata);
+                return false;
+            }
 #pragma omp parallel for
             for (int i = 0; i < n_cells_; i++) {
                 //int tmpidx = pos_data_[i][0] * n_cols + pos_data_[i][1];
@@ -3708,7 +3717,10 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
             raster_ = dbdata;
         }
     } else {
-        Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
+        if (!Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_)) {
+            Release1DArray(dbdata);
+            return false;
+        }
 #pragma omp parallel for
         for (int i = 0; i < n_cells_; i++) {
             int tmpidx = i;
-- 
2.43.0


From ceab4170ef282c3039cfad8c923038e096ba8a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 066/111] fix: ReadGridFsFile checks the file system, the
 metadata, and the length of the data

---
 src/data_raster.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d87edc0..22c59dc 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -926,6 +926,7 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
                     STRING_MAP& header_str,
                     const STRING_MAP& opts /* = STRING_MAP() */) {
     // Get stream data and metadata by file name
+    if (nullptr == gfs) { return false; }
     vint length;
     char* buf = nullptr;
     if (!gfs->GetStreamData(filename, buf, length, nullptr, &opts) ||
@@ -947,18 +948,19 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
             }
         }
     }
-    bson_destroy(bmeta); // Destroy bson of metadata immediately after use
+    if (nullptr != bmeta) { bson_destroy(bmeta); } // Destroy bson of metadata immediately after use
 
     int n_rows = CVT_INT(header.at(HEADER_RS_NROWS));
     int n_cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     int n_lyrs = CVT_INT(header.at(HEADER_RS_LAYERS));
     int n_cells = CVT_INT(header.at(HEADER_RS_CELLSNUM));
-    if (n_rows < 0 || n_cols < 0 || n_lyrs < 0) { // missing essential metadata
+    if (n_rows < 0 || n_cols < 0 || n_lyrs <= 0 || n_cells <= 0) { // missing essential metadata
         delete[] buf;
         return false;
     }
     int value_count = n_cells * n_lyrs;
     size_t size_dtype = length / value_count;
+    if (length % value_count != 0) { size_dtype = 0; } // truncated data
 
     RasterDataType rstype = RDT_Unknown;
     if (header_str.find(HEADER_RSOUT_DATATYPE) != header_str.end()) {
-- 
2.43.0


From 314f31f8cb474d069e1ff981a09275005f7d4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 067/111] fix: ReadGridFsFile reports failed allocations

---
 src/data_raster.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 22c59dc..c0f05e1 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -972,54 +972,55 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
         return false;
     }
 
+    bool read = false;
     if (rstype == RDT_Double && size_dtype == sizeof(double)) {
         double* data_dbl = reinterpret_cast<double*>(buf);
-        Initialize1DArray(value_count, data, data_dbl);
+        read = Initialize1DArray(value_count, data, data_dbl);
         //Release1DArray(data_dbl);
     }
     else if (rstype == RDT_Float && size_dtype == sizeof(float)) {
         float* data_flt = reinterpret_cast<float*>(buf);
-        Initialize1DArray(value_count, data, data_flt);
+        read = Initialize1DArray(value_count, data, data_flt);
         //Release1DArray(data_flt);
     }
     else if (rstype == RDT_Int32 && size_dtype == sizeof(vint32_t)) {
         vint32_t* data_int32 = reinterpret_cast<vint32_t*>(buf);
-        Initialize1DArray(value_count, data, data_int32);
+        read = Initialize1DArray(value_count, data, data_int32);
         //Release1DArray(data_int32);
     }
     else if (rstype == RDT_UInt32 && size_dtype == sizeof(vuint32_t)) {
         vuint32_t* data_uint32 = reinterpret_cast<vuint32_t*>(buf);
-        Initialize1DArray(value_count, data, data_uint32);
+        read = Initialize1DArray(value_count, data, data_uint32);
         //Release1DArray(data_uint32);
     }
     else if (rstype == RDT_Int64 && size_dtype == sizeof(vint64_t)) {
         vint64_t* data_int64 = reinterpret_cast<vint64_t*>(buf);
-        Initialize1DArray(value_count, data, data_int64);
+        read = Initialize1DArray(value_count, data, data_int64);
         //Release1DArray(data_int64);
     }
     else if (rstype == RDT_UInt64 && size_dtype == sizeof(vuint64_t)) {
         vuint64_t* data_uint64 = reinterpret_cast<vuint64_t*>(buf);
-        Initialize1DArray(value_count, data, data_uint64);
+        read = Initialize1DArray(value_count, data, data_uint64);
         //Release1DArray(data_uint64);
     }
     else if (rstype == RDT_Int16 && size_dtype == sizeof(vint16_t)) {
         vint16_t* data_int16 = reinterpret_cast<vint16_t*>(buf);
-        Initialize1DArray(value_count, data, data_int16);
+        read = Initialize1DArray(value_count, data, data_int16);
         //Release1DArray(data_int16);
     }
     else if (rstype == RDT_UInt16 && size_dtype == sizeof(vuint16_t)) {
         vuint16_t* data_uint16 = reinterpret_cast<vuint16_t*>(buf);
-        Initialize1DArray(value_count, data, data_uint16);
+        read = Initialize1DArray(value_count, data, data_uint16);
         //Release1DArray(data_uint16);
     }
     else if (rstype == RDT_Int8 && size_dtype == sizeof(vint8_t)) {
         vint8_t* data_int8 = reinterpret_cast<vint8_t*>(buf);
-        Initialize1DArray(value_count, data, data_int8);
+        read = Initialize1DArray(value_count, data, data_int8);
         //Release1DArray(data_int8);
     }
     else if (rstype == RDT_UInt8 && size_dtype == sizeof(vuint8_t)) {
         vuint8_t* data_uint8 = reinterpret_cast<vuint8_t*>(buf);
-        Initialize1DArray(value_count, data, data_uint8);
+        read = Initialize1DArray(value_count, data, data_uint8);
         //Release1DArray(data_uint8);
     }
     else {
@@ -1028,7 +1029,7 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
         return false;
     }
     delete[] buf;
-    return true;
+    return read;
 }
 
 /*!
-- 
2.43.0


From 09b327ce505e9219ae9182c65e03d4435e93efb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 068/111] fix: calculating and masking positions stops at a
 failed allocation or an empty mask

---
 src/data_raster.hpp | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c0f05e1..c8056a4 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2308,7 +2308,10 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
         initialized_ = false;
         return;
     }
-    Initialize1DArray(n_cells_, raster_, values); // DO NOT ASSIGN ARRAY DIRECTLY!
+    if (!Initialize1DArray(n_cells_, raster_, values)) { // DO NOT ASSIGN ARRAY DIRECTLY!
+        initialized_ = false;
+        return;
+    }
     default_value_ = mask_->GetDefaultValue();
     CopyHeader(mask_->GetRasterHeader(), headers_);
     no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
@@ -2331,7 +2334,10 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const v
         initialized_ = false;
         return;
     }
-    Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, values); // DO NOT ASSIGN ARRAY DIRECTLY!
+    if (!Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, values)) { // DO NOT ASSIGN ARRAY DIRECTLY!
+        initialized_ = false;
+        return;
+    }
     CopyHeader(mask_->GetRasterHeader(), headers_);
     no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
     UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);
@@ -3958,17 +3964,18 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
     // reCreate raster data array
     n_cells_ = CVT_INT(values.size());
     UpdateHeader(headers_, HEADER_RS_CELLSNUM, n_cells_);
+    ReleasePositions();
+    store_pos_ = true;
+    calc_pos_ = true;
     if (is_2draster) {
         Release2DArray(raster_2d_);
-        Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
+        if (!Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_)) { return; }
     } else {
         Release1DArray(raster_);
-        Initialize1DArray(n_cells_, raster_, no_data_value_);
+        if (!Initialize1DArray(n_cells_, raster_, no_data_value_)) { return; }
     }
-    ReleasePositions();
-    Initialize2DArray(n_cells_, 2, pos_data_, 0);
-    Initialize1DArray(n_cells_, pos_idx_, 0);
-    store_pos_ = true;
+    if (!Initialize2DArray(n_cells_, 2, pos_data_, 0)) { return; }
+    if (!Initialize1DArray(n_cells_, pos_idx_, 0)) { return; }
 #pragma omp parallel for
     for (int i = 0; i < n_cells_; ++i) {
         if (is_2draster) {
@@ -3985,7 +3992,6 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
         pos_data_[i][1] = pos_cols.at(i);
         pos_idx_[i] = pos_rows.at(i) * ncols + pos_cols.at(i);
     }
-    calc_pos_ = true;
 }
 
 template <typename T, typename MASK_T>
@@ -4013,6 +4019,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     // Get the position data from mask
     if (!mask_->PositionsCalculated()) { mask_->SetCalcPositions(); }
     mask_->GetRasterPositionData(&mask_ncells, &valid_pos);
+    if (nullptr == valid_pos || mask_ncells <= 0) { return -1; } // mask has no valid cell
     // Masked raster data have the same size with mask's valid positions
     vector<T> values(mask_ncells);             // store layer 1 data
     vector<vector<T> > values_2d(mask_ncells); // store layer 2~n data (excluding the first layer)
@@ -4227,8 +4234,8 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         ReleasePositions();
         store_pos_ = true;
         n_cells_ = CVT_INT(values.size());
-        Initialize2DArray(n_cells_, 2, pos_data_, 0);
-        Initialize1DArray(n_cells_, pos_idx_, 0);
+        if (!Initialize2DArray(n_cells_, 2, pos_data_, 0)) { return -1; }
+        if (!Initialize1DArray(n_cells_, pos_idx_, 0)) { return -1; }
         for (size_t k = 0; k < pos_rows.size(); ++k) {
             pos_data_[k][0] = pos_rows.at(k);
             pos_data_[k][1] = pos_cols.at(k);
@@ -4261,10 +4268,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     if (release_origin) {
         if (is_2draster && nullptr != raster_2d_) { // multiple layers
             Release2DArray(raster_2d_);
-            Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
+            if (!Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_)) { return -1; }
         } else { // single layer
             Release1DArray(raster_);
-            Initialize1DArray(n_cells_, raster_, no_data_value_);
+            if (!Initialize1DArray(n_cells_, raster_, no_data_value_)) { return -1; }
         }
         // Loop the masked raster values
         size_t synthesis_idx = 0;
@@ -4343,9 +4350,11 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 it->second->local_pos_ = nullptr;
                 it->second->local_posidx_ = nullptr;
                 it->second->alloc_ = true;
-                Initialize1DArray(count, it->second->global_, -1);
-                Initialize2DArray(count, 2, it->second->local_pos_, -1);
-                Initialize1DArray(count, it->second->local_posidx_, -1);
+                if (!Initialize1DArray(count, it->second->global_, -1)
+                    || !Initialize2DArray(count, 2, it->second->local_pos_, -1)
+                    || !Initialize1DArray(count, it->second->local_posidx_, -1)) {
+                    return -1;
+                }
                 for (int ii = 0; ii < count; ii++) {
                     it->second->global_[ii] = globalpos[ii];
                     int local_row = -1;
-- 
2.43.0


From 5d5242b254c3acccf11824cb1e2423324e6284f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 069/111] fix: GridFS data is converted into a buffer of its
 own, for all data types

---
 src/data_raster.hpp | 71 ++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 43 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c8056a4..efb8a08 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1032,6 +1032,17 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
     return read;
 }
 
+/*!
+ * \brief Convert array to the bytes of an array of type `OUT_T`
+ */
+template <typename OUT_T, typename T>
+void ConvertToBytes(const T* values, const int datalength, vector<char>& bytes) {
+    if (nullptr == values || datalength <= 0) { return; }
+    bytes.resize(datalength * sizeof(OUT_T));
+    OUT_T* converted = reinterpret_cast<OUT_T*>(&bytes[0]);
+    for (int i = 0; i < datalength; i++) { converted[i] = static_cast<OUT_T>(values[i]); }
+}
+
 /*!
  * \brief Write array data (both valid and full-sized raster data) as GridFS file.
  *        If the file exists, delete it first.
@@ -1069,54 +1080,29 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     // Check DATATYPE in metadata is consistent with T, transform if necessary
     char* buf = nullptr;
     vint buflength = -1;
-    bool transformed = true;
+    vector<char> newdata;
     RasterDataType opt_type = StringToRasterDataType(curopts.at(HEADER_RSOUT_DATATYPE));
     if (opt_type == temp_type) {
         buf = reinterpret_cast<char*>(values);
         buflength = datalength * sizeof(T);
-        transformed = false;
     } else {
-        if (opt_type == RDT_UInt8) {
-            vuint8_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint8_t);
-        } else if (opt_type == RDT_Int8) {
-            vint8_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint8_t);
-        } else if (opt_type == RDT_UInt16) {
-            vuint16_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint16_t);
-        } else if (opt_type == RDT_Int16) {
-            vint16_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint16_t);
-        } else if (opt_type == RDT_UInt32) {
-            vuint32_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint32_t);
-        } else if (opt_type == RDT_Int32) {
-            vint32_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint32_t);
-        } else if (opt_type == RDT_Float) {
-            float* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(float);
-        } else if (opt_type == RDT_Double) {
-            double* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(double);
+        if (opt_type == RDT_UInt8) { ConvertToBytes<vuint8_t>(values, datalength, newdata); }
+        else if (opt_type == RDT_Int8) { ConvertToBytes<vint8_t>(values, datalength, newdata); }
+        else if (opt_type == RDT_UInt16) { ConvertToBytes<vuint16_t>(values, datalength, newdata); }
+        else if (opt_type == RDT_Int16) { ConvertToBytes<vint16_t>(values, datalength, newdata); }
+        else if (opt_type == RDT_UInt32) { ConvertToBytes<vuint32_t>(values, datalength, newdata); }
+        else if (opt_type == RDT_Int32) { ConvertToBytes<vint32_t>(values, datalength, newdata); }
+        else if (opt_type == RDT_UInt64) { ConvertToBytes<vuint64_t>(values, datalength, newdata); }
+        else if (opt_type == RDT_Int64) { ConvertToBytes<vint64_t>(values, datalength, newdata); }
+        else if (opt_type == RDT_Float) { ConvertToBytes<float>(values, datalength, newdata); }
+        else if (opt_type == RDT_Double) { ConvertToBytes<double>(values, datalength, newdata); }
+        if (newdata.empty()) {
+            StatusMessage("Error: The specific raster output data type is not allowed!");
+            bson_destroy(&p);
+            return false;
         }
+        buf = &newdata[0];
+        buflength = CVT_INT(newdata.size());
     }
     // Add user-specific key-values into metadata
     AppendStringOptionsToBson(&p, curopts);
@@ -1130,7 +1116,6 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
         try_times++;
     }
     bson_destroy(&p);
-    if (transformed) { delete[] buf; }
     return gstatus;
 }
 
-- 
2.43.0


From d1bb288a9409d9003c605df69d8026c25e7ee6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 070/111] fix: GridFS metadata keeps header values that do not
 fit into int32

---
 src/data_raster.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index efb8a08..5a15d6a 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1057,6 +1057,7 @@ template <typename T>
 bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
                              STRDBL_MAP& header, T* values, const int datalength,
                              const STRING_MAP& opts = STRING_MAP()) {
+    if (nullptr == gfs) { return false; }
     STRING_MAP curopts;
     CopyStringMap(opts, curopts);
     RasterDataType temp_type = TypeToRasterDataType(typeid(T));
@@ -1068,7 +1069,8 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     double intpart; // https://stackoverflow.com/a/1521682/4837280
     for (auto iter = header.begin(); iter != header.end(); ++iter) {
         if (!StringMatch(HEADER_RS_NODATA, iter->first)
-            && std::modf(iter->second, &intpart) == 0.0) {
+            && std::modf(iter->second, &intpart) == 0.0
+            && iter->second >= INT32_MIN && iter->second <= INT32_MAX) {
             // std::modf consider inf as an integer,
             // hence cannot handle -3.40282346639e+38 which is one of commonly used Nodata
             BSON_APPEND_INT32(&p, iter->first.c_str(), CVT_INT(iter->second));
-- 
2.43.0


From 6f847531ff86d0f663c6a9dae3a667240aeb8ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 071/111] fix: ReadGridFsFile does not throw when the given
 header lacks a key

---
 src/data_raster.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5a15d6a..b65d7f8 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -950,6 +950,11 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
     }
     if (nullptr != bmeta) { bson_destroy(bmeta); } // Destroy bson of metadata immediately after use
 
+    if (!HasGridHeader(header) || header.find(HEADER_RS_LAYERS) == header.end()
+        || header.find(HEADER_RS_CELLSNUM) == header.end()) {
+        delete[] buf;
+        return false;
+    }
     int n_rows = CVT_INT(header.at(HEADER_RS_NROWS));
     int n_cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     int n_lyrs = CVT_INT(header.at(HEADER_RS_LAYERS));
-- 
2.43.0


From 90939225006d63d9587b51d3b60935afb665779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 072/111] fix: mask_rasterio skips inputs that cannot be read
 instead of dereferencing a null raster

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index efb32d0..650f32b 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -530,7 +530,7 @@ int main(const int argc, const char** argv) {
                                      false,            // No need to calculate valid positions
                                      mask_layer, true, // Use entire extent of Mask
                                      default_values.at(in_idx));
-                if (out_types.at(in_idx) != RDT_Unknown) { rs->SetOutDataType(out_types.at(in_idx)); }
+                if (nullptr != rs && out_types.at(in_idx) != RDT_Unknown) { rs->SetOutDataType(out_types.at(in_idx)); }
             }
             else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-- 
2.43.0


From 8caefc53fe234214fbfc227d1417370cab1017ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 073/111] fix: mask_rasterio does not read past its arguments

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 650f32b..1dc5e13 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -206,7 +206,7 @@ int main(const int argc, const char** argv) {
     vector<int> arg_sep;
     for (int idx = 1; idx < argc; idx++) {
         if (argv[idx] == nullptr || argv[idx][0] != '-') { continue; }
-        if (StringMatch(argv[idx], "-configfile") && argc > idx && argv[idx + 1][0] != '-') {
+        if (StringMatch(argv[idx], "-configfile") && argc > idx + 1 && argv[idx + 1][0] != '-') {
             config_path = argv[idx + 1];
         }
         bool tmp_dbl_flag = false;
-- 
2.43.0


From f68cb886f1db940f32c12cc86e604b89bf7687f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 074/111] fix: mask_rasterio rejects an unparsable mask
 argument

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 1dc5e13..70d4005 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -296,7 +296,7 @@ int main(const int argc, const char** argv) {
         else if (itkv->first == "MASK") {
             vector<string> tmppaths;
             if (!parse_fmt_paths("MASK", itkv->second, mask_fmt, tmppaths)
-                && tmppaths.empty()) {
+                || tmppaths.empty()) {
                 return 2;
             }
             mask_path = tmppaths[0];
-- 
2.43.0


From 7e5b152d5450bac80a90e1d48914c0ba2404df2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 075/111] fix: parse_fmt_paths is declared with the signature
 it is defined with

---
 apps/mask_rasterio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.h b/apps/mask_rasterio.h
index 4f55129..f16ed09 100644
--- a/apps/mask_rasterio.h
+++ b/apps/mask_rasterio.h
@@ -43,7 +43,7 @@ void Usage(const string& appname, const string& error_msg = std::string());
  *     7. tag: IN, strs: {"file"} or {"gfs"}
  * 
  */ 
-bool parse_fmt_paths(string& tag, vector<string>& strs, DATAFMT& fmt, vector<string>& paths);
+bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt, vector<string>& paths);
 
 bool parse_key_values(string& kvstrs, map<vint, vector<double> >& kv);
 
-- 
2.43.0


From 914966250ef688eccf2ae3aff11e2a3a746821e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 076/111] fix: LoadPlainTextFile reports an unreadable file
 instead of looping forever

---
 src/utils_filesystem.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index be0a16d..41ecda3 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -378,18 +378,14 @@ bool LoadPlainTextFile(const string& filepath, vector<string>& content_strs) {
         // open the file
         myfile.open(abspath.c_str(), std::ios::in);
         if (myfile.is_open()) {
-            while (!myfile.eof()) {
-                if (myfile.good()) {
-                    getline(myfile, line);
-                    line = utils_string::Trim(line);
-                    if (!line.empty() && line[0] != '#') {
-                        // ignore comments and empty lines
-                        content_strs.emplace_back(line);
-                        b_status = true; // consider this a success
-                    }
+            while (getline(myfile, line)) {
+                line = utils_string::Trim(line);
+                if (!line.empty() && line[0] != '#') {
+                    // ignore comments and empty lines
+                    content_strs.emplace_back(line);
                 }
             }
-            b_status = true;
+            b_status = !myfile.bad(); // stop at a failed read, e.g., of a directory
             myfile.close();
             vector<string>(content_strs).swap(content_strs);
             // content_strs.shrink_to_fit();
-- 
2.43.0


From 5a3126f07829777fca146d3e1c630a3112b7cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 077/111] fix: FindFiles and CleanDirectory report a directory
 that cannot be read

---
 src/utils_filesystem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 41ecda3..a4ef2da 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -115,6 +115,8 @@ int FindFiles(const char* lp_path, const char* expression, vector<string>& vec_f
             }
         }
         closedir(dir);
+    } else {
+        return -1;
     }
 #endif /* WINDOWS */
     return 0;
@@ -153,7 +155,7 @@ bool CleanDirectory(const string& dirpath) {
         if (DirectoryExists(abspath)) {
             /// empty the directory
             vector<string> existed_files;
-            FindFiles(abspath.c_str(), "*.*", existed_files);
+            if (FindFiles(abspath.c_str(), "*.*", existed_files) != 0) { return false; }
             int err_count = 0;
             for (auto it = existed_files.begin(); it != existed_files.end(); ++it) {
                 if (remove((*it).c_str()) < 0) { err_count += 1; }
-- 
2.43.0


From cba8d656f2920e7326972ce7539c1c8e7c1efc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 078/111] fix: DeleteDirectory reports failures, keeps
 subdirectories unless asked, and never truncates a path

---
 src/utils_filesystem.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index a4ef2da..489268c 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -224,28 +224,31 @@ bool DeleteDirectory(const string& dirpath, bool del_subdirs/* = true */) {
 #else
     DIR *dir;
     struct dirent *entry;
-    char path[PATH_MAX];
+    bool deleted = true;
 
     dir = opendir(abspath.c_str());
     if (dir == nullptr) {
         perror("Error opendir()");
-        return true;
+        return false;
     }
 
     while ((entry = readdir(dir)) != nullptr) {
         if (strcmp(entry->d_name, ".") && strcmp(entry->d_name, "..")) {
-            snprintf(path, (size_t) PATH_MAX, "%s/%s", abspath.c_str(), entry->d_name);
-            if (entry->d_type == DT_DIR && del_subdirs) {
-                DeleteDirectory(path, del_subdirs);
+            string path = abspath + SEP + entry->d_name;
+            struct stat file_stat;
+            if (lstat(path.c_str(), &file_stat) == 0 && S_ISDIR(file_stat.st_mode)) {
+                // subdirectories are deleted recursively, or kept
+                if (!del_subdirs || !DeleteDirectory(path, del_subdirs)) { deleted = false; }
+                continue;
             }
-            printf("Deleting: %s\n", path);
-            remove(path);
+            printf("Deleting: %s\n", path.c_str());
+            if (remove(path.c_str()) != 0) { deleted = false; }
         }
     }
     closedir(dir);
+    if (!deleted) { return false; }
     printf("Deleting: %s\n", abspath.c_str());
-    remove(abspath.c_str());
-    return true;
+    return remove(abspath.c_str()) == 0;
 #endif /* WINDOWS */
 }
 
-- 
2.43.0


From eba6dfe23ccb66e0a06f385329330e92cdc22b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 079/111] fix: DeleteExistedFile deletes the given link instead
 of the file it points to

---
 src/utils_filesystem.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 489268c..f05d148 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -55,9 +55,8 @@ bool PathExists(string const& fullpath) {
 }
 
 int DeleteExistedFile(const string& filepath) {
-    string abspath = GetAbsolutePath(filepath);
-    if (FileExists(abspath)) {
-        return remove(abspath.c_str());
+    if (FileExists(filepath)) {
+        return remove(filepath.c_str()); // a symbolic link itself is deleted, not its target
     }
     return -1;
 }
-- 
2.43.0


From 63c8a6aa1311c28e04241e696ac964644130a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 080/111] fix: wtoa and atow do not overflow an empty buffer
 when the text cannot be converted

---
 src/utils_string.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index d612483..faf676b 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -221,6 +221,7 @@ vint _wtoa(const wchar_t* w, char* a, vint chars) {
 
 string wtoa(const wstring& wstr) {
     vint len = _wtoa(wstr.c_str(), 0, 0);
+    if (len <= 0) { return string(); } // cannot be converted
     char* buffer = new char[len];
     memset(buffer, 0, len * sizeof(*buffer));
     _wtoa(wstr.c_str(), buffer, int(len));
@@ -239,6 +240,7 @@ vint _atow(const char* a, wchar_t* w, vint chars) {
 
 wstring atow(const string& astr) {
     vint len = _atow(astr.c_str(), 0, 0);
+    if (len <= 0) { return wstring(); } // cannot be converted
     wchar_t* buffer = new wchar_t[len];
     memset(buffer, 0, len * sizeof(*buffer));
     _atow(astr.c_str(), buffer, int(len));
-- 
2.43.0


From cbd8e7ab95826a27badfdc7fed3116855e8e04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 081/111] fix: an empty text is not a number

---
 src/utils_string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index faf676b..fca935c 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -308,14 +308,14 @@ vuint64_t IsUInt64(const wstring& num_str, bool& success) {
 double IsDouble(const string& num_str, bool& success) {
     char* endptr = 0;
     double result = strtod(num_str.c_str(), &endptr);
-    success = endptr == num_str.c_str() + num_str.length();
+    success = !num_str.empty() && endptr == num_str.c_str() + num_str.length();
     return result;
 }
 
 double IsDouble(const wstring& num_str, bool& success) {
     wchar_t* endptr = 0;
     double result = wcstod(num_str.c_str(), &endptr);
-    success = endptr == num_str.c_str() + num_str.length();
+    success = !num_str.empty() && endptr == num_str.c_str() + num_str.length();
     return result;
 }
 } /* namespace: utils_string */
-- 
2.43.0


From 9e07ac3a6441717906e1bae0e28356fc8983827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 082/111] fix: SplitString does not repeat the last token of a
 text that ends with spaces

---
 src/utils_string.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index fca935c..2bfd7f1 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -49,12 +49,9 @@ vector<string> SplitString(const string& item) {
     std::istringstream iss(item);
     vector<string> tokens;
     string field;
-    iss >> field;
-    while (!iss.eof()) {
+    while (iss >> field) {
         tokens.emplace_back(field);
-        iss >> field;
     }
-    tokens.emplace_back(field);
     return tokens;
 }
 
-- 
2.43.0


From 1b557a8093a7afaea7629f4e9bb2d1c6a72e7fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 083/111] fix: IsIpAddress rejects text after the fourth number

---
 src/basic.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/basic.cpp b/src/basic.cpp
index 63f1504..940d1e0 100644
--- a/src/basic.cpp
+++ b/src/basic.cpp
@@ -50,9 +50,10 @@ const char* ModelException::what() const NOEXCEPT {
 bool IsIpAddress(const char* ip) {
     bool rv = true;
     int tmp1, tmp2, tmp3, tmp4;
+    int length = 0; // nothing is allowed after the fourth number
     while (true) {
-        int i = stringscanf(ip, "%d.%d.%d.%d", &tmp1, &tmp2, &tmp3, &tmp4);
-        if (i != 4) {
+        int i = stringscanf(ip, "%d.%d.%d.%d%n", &tmp1, &tmp2, &tmp3, &tmp4, &length);
+        if (i != 4 || ip[length] != '\0') {
             rv = false;
             //cout << "IP Address format is not correct!" << endl;
             break;
-- 
2.43.0


From eb483a05d933e44c765e727c7917eeeffd4c6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 084/111] fix: SplitStringForValues accepts only fields that
 are numbers as a whole

---
 src/utils_string.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utils_string.h b/src/utils_string.h
index 1fe0910..e886a84 100644
--- a/src/utils_string.h
+++ b/src/utils_string.h
@@ -360,12 +360,14 @@ bool SplitStringForValues(const string& items, const char delimiter, vector<T>&
     vector<string> value_strs = SplitString(items, delimiter);
     if (value_strs.empty()) { return false; }
     values.clear();
-    char* end = nullptr;
+    bool is_number = false;
     for (auto it = value_strs.begin(); it != value_strs.end(); ++it) {
-        if ((*it).find_first_of("0123456789") == string::npos) {
+        string field = *it;
+        double value = IsDouble(Trim(field), is_number);
+        if (!is_number) {
             continue;
         }
-        values.emplace_back(static_cast<T>(strtod((*it).c_str(), &end)));
+        values.emplace_back(static_cast<T>(value));
     }
     vector<T>(values).swap(values);
     return value_strs.size() == values.size();
-- 
2.43.0


From cdb8ccf2a6796fe968f4acfdc9e358f8c6276e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 085/111] fix: mask_rasterio rejects a port that is not a
 number

---
 apps/mask_rasterio.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 70d4005..ec027d8 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -276,7 +276,6 @@ int main(const int argc, const char** argv) {
         io_strs.emplace_back(tmpconfig);
     }
     // Parse mixed arguments
-    char* strend = nullptr;
     bool str2num_flag = false;
     for (auto itkv = key_args.begin(); itkv != key_args.end(); ++itkv) {
         if (itkv->first == "MODE") {
@@ -334,8 +333,11 @@ int main(const int argc, const char** argv) {
                 return 1;
             }
             mongo_host = itkv->second.at(0);
-            mongo_port = static_cast<vint16_t>(strtol(itkv->second.at(1).c_str(),
-                                                      &strend, 10));
+            mongo_port = static_cast<vint16_t>(IsInt(itkv->second.at(1), str2num_flag));
+            if (!str2num_flag) {
+                cout << "Warning: Illegal port number of MongoDB!\n";
+                return 1;
+            }
             dbname = itkv->second.at(2);
             gfsname = itkv->second.at(3);
             client = MongoClient::Init(mongo_host.c_str(), mongo_port);
-- 
2.43.0


From 44666b68ddd340d3c1a4302bb8722f73df74365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 086/111] fix: RemoveFile reads the file id as ObjectId only if
 it is one

---
 src/db_mongoc.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 3010ec7..ea9b276 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -358,9 +358,12 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
     filelist = mongoc_gridfs_find_with_opts(gfs, &filter, NULL);
     while ((gfile = mongoc_gridfs_file_list_next(filelist))) {
         const bson_value_t* tmpid = mongoc_gridfs_file_get_id(gfile);
-        char charid[25];
-        bson_oid_to_string(&tmpid->value.v_oid, charid);
-        string strid = charid;
+        string strid = "not an ObjectId";
+        if (tmpid->value_type == BSON_TYPE_OID) {
+            char charid[25];
+            bson_oid_to_string(&tmpid->value.v_oid, charid);
+            strid = charid;
+        }
         if (!mongoc_gridfs_file_remove(gfile, &err)) {
             StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
             removed = false;
-- 
2.43.0


From 2d60161d474004adc3269a997dda444ff5c18249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 087/111] fix: MongoClient must not abort on a host that gives
 no valid URI

---
 src/db_mongoc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index ea9b276..a15b6fc 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -49,7 +49,7 @@ MongoClient::MongoClient(const char* host, const vuint16_t port) : host_(host),
     assert(IsIpAddress(host));
     // mongoc_init();
     mongoc_uri_t* uri = mongoc_uri_new_for_host_port(host_, port_);
-    conn_ = mongoc_client_new_from_uri(uri);
+    conn_ = nullptr == uri ? nullptr : mongoc_client_new_from_uri(uri);
 
     mongoc_uri_destroy(uri);
 }
@@ -84,6 +84,7 @@ MongoClient* MongoClient::Init(const char* host, const vuint16_t port) {
     // }
     mongoc_init();
     mongoc_uri_t* uri = mongoc_uri_new_for_host_port(host, port);
+    if (nullptr == uri) { return nullptr; } // the host is not valid
     mongoc_client_t* conn = mongoc_client_new_from_uri(uri);
     if (!conn) {
         mongoc_uri_destroy(uri);
-- 
2.43.0


From 2eeeeefb0e4301bfa81a7bb34683acf4bfb6dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 088/111] fix: GetFileNames must not crash on a GridFS file
 without a filename

---
 src/db_mongoc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index a15b6fc..4d9a581 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -390,7 +390,8 @@ void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* g
     mongoc_gridfs_file_list_t* glist = mongoc_gridfs_find_with_opts(gfs, query, NULL);
     mongoc_gridfs_file_t* file;
     while ((file = mongoc_gridfs_file_list_next(glist))) {
-        files_existed.emplace_back(string(mongoc_gridfs_file_get_filename(file)));
+        const char* gfilename = mongoc_gridfs_file_get_filename(file);
+        if (nullptr != gfilename) { files_existed.emplace_back(string(gfilename)); } // the filename is optional
         mongoc_gridfs_file_destroy(file);
     }
     mongoc_gridfs_file_list_destroy(glist);
-- 
2.43.0


From 41932d746d1dcf62b30063c61944f152f633ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 089/111] fix: GetFileMetadata must not crash on a GridFS file
 without metadata

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 4d9a581..5808d6e 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -414,7 +414,7 @@ bson_t* MongoGridFs::GetFileMetadata(string const& gfilename,
     }
     // `mongoc_gridfs_file_get_metadata` returns a bson_t that should not be modified or freed.
     const bson_t* bmata = mongoc_gridfs_file_get_metadata(gfile);
-    bson_t* mata = bson_copy(bmata);
+    bson_t* mata = nullptr == bmata ? NULL : bson_copy(bmata); // the metadata is optional
     mongoc_gridfs_file_destroy(gfile);
     return mata;
 }
-- 
2.43.0


From 2d5338a072590ff98d8d70864e1d396c797514e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 090/111] fix: release positions owned by a raster before it
 borrows those of the mask when reading from MongoDB

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index b65d7f8..41c8706 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3677,7 +3677,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     // check the valid values count and determine whether we can read directly.
     bool mask_pos_subset = true;
     if (nullptr != mask_ && calc_pos_ && use_mask_ext_ && n_cells_ == mask_->GetValidNumber()) {
-        store_pos_ = false;
+        ReleasePositions();
         mask_->GetRasterPositionData(&n_cells_, &pos_data_);
         mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
         if (!mask->GetSubset().empty()) {
-- 
2.43.0


From b383bb6291255be7ac0d875b723fc50504aaee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 091/111] fix: report failure of flushing the GeoTIFF when it
 is closed

---
 src/data_raster.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 41c8706..f3535d3 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -876,8 +876,12 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     }
     if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
     if (new_values != nullptr) { CPLFree(new_values); }
-    GDALClose(po_dst_ds);
-
+    CPLErrorReset();
+    GDALClose(po_dst_ds); // Cached blocks and metadata are written to the file until now
+    if (CPLGetLastErrorType() == CE_Failure) {
+        StatusMessage("Error writing file: " + string(CPLGetLastErrorMsg()));
+        return false;
+    }
     return true;
 }
 #endif /* USE_GDAL */
-- 
2.43.0


From faece7b18cdc3a2a96dab1020cb9e3576d2709ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 092/111] fix: fail to read a GridFS file whose header values
 are not numeric

---
 src/data_raster.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index f3535d3..8199e00 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -941,11 +941,12 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
 
     // Retrieve raster header values
     bson_iter_t iter; // Loop the metadata, add to `header_str` or `header`
+    bool numeric_header = true;
     if (nullptr != bmeta && bson_iter_init(&iter, bmeta)) {
         while (bson_iter_next(&iter)) {
             const char* key = bson_iter_key(&iter);
             if (header.find(key) != header.end()) {
-                GetNumericFromBsonIterator(&iter, header[key]);
+                if (!GetNumericFromBsonIterator(&iter, header[key])) { numeric_header = false; }
             }
             else {
                 header_str[key] = GetStringFromBsonIterator(&iter);
@@ -954,7 +955,7 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
     }
     if (nullptr != bmeta) { bson_destroy(bmeta); } // Destroy bson of metadata immediately after use
 
-    if (!HasGridHeader(header) || header.find(HEADER_RS_LAYERS) == header.end()
+    if (!numeric_header || !HasGridHeader(header) || header.find(HEADER_RS_LAYERS) == header.end()
         || header.find(HEADER_RS_CELLSNUM) == header.end()) {
         delete[] buf;
         return false;
-- 
2.43.0


From 337b44f6474f062315ce47e27f81fb00ced60a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 093/111] fix: do not write a GridFS file next to one that
 could not be removed

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8199e00..164732b 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1074,7 +1074,7 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     if (curopts.find(HEADER_RSOUT_DATATYPE) == curopts.end()) {
         UpdateStringMap(curopts, HEADER_RSOUT_DATATYPE, RasterDataTypeToString(temp_type));
     }
-    gfs->RemoveFile(filename, nullptr, curopts);
+    if (!gfs->RemoveFile(filename, nullptr, curopts)) { return false; }
     bson_t p = BSON_INITIALIZER;
     double intpart; // https://stackoverflow.com/a/1521682/4837280
     for (auto iter = header.begin(); iter != header.end(); ++iter) {
-- 
2.43.0


From bbabe690ec1768b5c5135126edbc8b630c3639c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 094/111] fix: report failure of calculating positions when
 writing to MongoDB

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 164732b..b57b54c 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3403,7 +3403,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
         GetRasterPositionData(&cnt, &pos);
     }
     if ((nullptr == pos_data_ || nullptr == pos_idx_) && !include_nodata) {
-        SetCalcPositions();
+        if (!SetCalcPositions() && nullptr == pos_data_ && nullptr == pos_idx_) { return false; }
         GetRasterPositionData(&cnt, &pos);
     }
     int n_rows = GetRows();
-- 
2.43.0


From 1c4b38b8bd7e66704dad4bbe273ae8e4ad4bbddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 095/111] fix: do not use the last part of a collection name
 that has no parts

---
 src/db_mongoc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 5808d6e..ddaccf0 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -238,6 +238,7 @@ void MongoDatabase::GetCollectionNames(vector<string>& collnames) {
         vector<string> realnames; // e.g., SPATIAL.files and SPATIAL.chunks has the real GridFS name: SPATIAL
         for (auto it = collnames.begin(); it != collnames.end(); ++it) {
             vector<string> splitstrs = SplitString((*it), '.');
+            if (splitstrs.empty()) { continue; } // nothing but separators
             if (splitstrs.back() == "files" || splitstrs.back() == "chunks") {
                 string realname;
                 // Refers to https://stackoverflow.com/a/18703743/4837280
-- 
2.43.0


From b0d72ceaa5993efa3100461622065ab8a637fc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 096/111] fix: do not append an ASCII raster to a file that
 cannot be replaced

---
 src/data_raster.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 0f6cd8e..b3daffc 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -197,7 +197,10 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
         StatusMessage("Error: Header information incomplete!");
         return false;
     }
-    DeleteExistedFile(filename);
+    if (FileExists(filename) && DeleteExistedFile(filename) != 0) { // otherwise the header is appended to it
+        StatusMessage("Error: Existing file cannot be replaced!");
+        return false;
+    }
     string abs_filename = GetAbsolutePath(filename);
     std::ofstream raster_file(abs_filename.c_str(), std::ios::app | std::ios::out);
     if (!raster_file.is_open()) {
-- 
2.43.0


From 7fd23251916e9e7e6c5e3ec23b5103bbdaa702c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 097/111] fix: ReadRasterFileByGdal names the unsupported data
 type instead of reading its unset output argument

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index b57b54c..4780da9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -580,7 +580,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         in_type = RDT_Double;
         break;
     default:
-        StatusMessage("Unexpected GDALDataType: " + string(RasterDataTypeToString(in_type)));
+        StatusMessage("Unexpected GDALDataType: " + string(GDALGetDataTypeName(po_band->GetRasterDataType())));
         GDALClose(po_dataset);
         return false;
     }
-- 
2.43.0


From 3653aed5907240aece5827ecfe95fdb7b1532b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 098/111] fix: WriteStreamData reports the GridFS error text
 only when there is one

---
 src/db_mongoc.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index ddaccf0..3670399 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -485,11 +485,12 @@ bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
     // Modifying GridFS files is NOT thread-safe. Only one thread or process
     //   can access a GridFS file while it is being modified!
     ssize_t writesize = mongoc_gridfs_file_writev(gfile, &ovec, 1, 0);
-    bool gfilestatus = mongoc_gridfs_file_save(gfile) && // Returns true if successful
-            !mongoc_gridfs_file_error(gfile, &gfileerr); // Returns false if no registered error
+    bool gfilestatus = mongoc_gridfs_file_save(gfile); // Returns true if successful
+    bool haserror = mongoc_gridfs_file_error(gfile, &gfileerr); // Returns false if no registered error
+    gfilestatus = gfilestatus && !haserror;
     if (writesize == -1 || !gfilestatus) { // Failed to save GridFS file data
         StatusMessage(("MongoGridFs::WriteStreamData(" + gfilename + ") failed!" +
-                          ". ERROR: " + gfileerr.message).c_str());
+                          ". ERROR: " + (haserror ? gfileerr.message : "unknown")).c_str());
     }
     mongoc_gridfs_file_destroy(gfile);
     return writesize != -1 && gfilestatus;
-- 
2.43.0


From 15de882eacd3ada1bbb9a8e2a552bd353d6bbe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 099/111] fix: statistics, replacing, reclassifying and writing
 need a raster that holds data

---
 src/data_raster.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4780da9..c64ed68 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2535,6 +2535,7 @@ void clsRasterData<T, MASK_T>::SetOutDataType(const string& strtype) {
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::CalculateStatistics() {
     if (stats_calculated_) { return; }
+    if (!ValidateRasterData()) { return; }
     if (stats_.empty() || stats_2d_.empty()) { InitialStatsMap(stats_, stats_2d_); }
     if (is_2draster && nullptr != raster_2d_) {
         double** derivedvs = nullptr;
@@ -3239,6 +3240,7 @@ bool clsRasterData<T, MASK_T>::OutputFullsizeToFiles(T* fullsizedata, const int
 
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
+    if (!ValidateRasterData()) { return false; }
     string abs_filename = GetAbsolutePath(filename);
     // Is there need to calculate valid position index?
     int count;
@@ -3324,6 +3326,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
 #ifdef USE_GDAL
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::OutputFileByGdal(const string& filename) {
+    if (!ValidateRasterData()) { return false; }
     string abs_filename = GetAbsolutePath(filename);
     bool outputdirectly = (nullptr == pos_data_ || nullptr == pos_idx_);
     int n_rows = CVT_INT(headers_.at(HEADER_RS_NROWS));
@@ -3835,6 +3838,7 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::ReplaceNoData(T replacedv) {
+    if (!ValidateRasterData()) { return; }
 #pragma omp parallel for
     for (int i = 0; i < n_cells_; i++) {
         for (int lyr = 0; lyr < n_lyrs_; lyr++) {
@@ -3856,6 +3860,7 @@ void clsRasterData<T, MASK_T>::ReplaceNoData(T replacedv) {
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::Reclassify(const map<int, T> reclass_map) {
+    if (!ValidateRasterData()) { return; }
     map<int, T> recls;
     for(auto it = reclass_map.begin(); it != reclass_map.end(); ++it) {
 #ifdef HAS_VARIADIC_TEMPLATES
-- 
2.43.0


From 7c058027c7c68d313b6633f9c193bb8ae3ba80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 100/111] fix: valid positions keep the mask's rows and columns
 when the extent of the mask is kept

---
 src/data_raster.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c64ed68..523da40 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4223,8 +4223,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 cit = pos_cols.begin();
                 vit = values.begin();
             } else {
-                pos_rows[idx] -= min_row; // get new column and row number
-                pos_cols[idx] -= min_col;
+                if (upd_header_rowcol) { // get new column and row number
+                    pos_rows[idx] -= min_row;
+                    pos_cols[idx] -= min_col;
+                }
                 ++it;
             }
         }
-- 
2.43.0


From ac8387264408907a3c2c5b8ecd274b8ddb196ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 101/111] fix: masking fails when no valid cell gives the
 extent of the result

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 523da40..8361c8b 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4084,6 +4084,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         masked_count++;
     }
     if (masked_count == 0) { return -1; }
+    if (matched_count == 0 && !use_mask_ext_) { return -1; } // no valid cell, i.e., no valid extent
     n_cells_ = masked_count;
 
     // Priority Copy header of mask data, and update NoData, SRS, and Layers' count
-- 
2.43.0


From e6df95f473c550f08462ee666a727c7d8961b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 102/111] fix: a raster built from the values of a mask's valid
 cells looks them up by these positions

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8361c8b..1fb65bf 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2294,7 +2294,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(false);
     rs_type_out_ = RasterDataTypeInOptionals(opts);
-    calc_pos_ = false;
+    calc_pos_ = true; // values are stored by the valid positions of the mask
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = 1;
@@ -2320,7 +2320,7 @@ template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const values, const int len,
                                         const int lyrs, const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(true);
-    calc_pos_ = false;
+    calc_pos_ = true; // values are stored by the valid positions of the mask
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = lyrs;
-- 
2.43.0


From b415507f9d1c8119287565ccaf27708126ed32cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:29 +0000
Subject: [PATCH 103/111] fix: writing a text raster uses the positions it has
 and never recalculates them

---
 src/data_raster.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 1fb65bf..67102a9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3243,16 +3243,11 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
     if (!ValidateRasterData()) { return false; }
     string abs_filename = GetAbsolutePath(filename);
     // Is there need to calculate valid position index?
-    int count;
     int** position = nullptr;
-    int* position_idx = nullptr;
     bool outputdirectly = true;
-    if ((nullptr != pos_data_ || nullptr != pos_idx_)) {
-        GetRasterPositionData(&count, &position);
-        GetRasterPositionData(&count, &position_idx);
+    if (nullptr != pos_data_ && nullptr != pos_idx_) {
+        position = pos_data_;
         outputdirectly = false;
-        assert(nullptr != position);
-        assert(nullptr != position_idx);
     }
     // Begin to write raster data
     int rows = CVT_INT(headers_.at(HEADER_RS_NROWS));
-- 
2.43.0


From b7b77c0b14565f44a4d363af5bec238d4f2e33fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 104/111] fix: an empty path argument of mask_rasterio is
 refused instead of throwing

---
 apps/mask_rasterio.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index ec027d8..6aa7f3f 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -85,6 +85,7 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
     int path_idx = tmpcount > 1 ? 1 : 0;
     DATAFMT tmpfmt = StringToDataFormat(strs[0]);
     vector<string> file_paths = SplitString(strs[path_idx], ',');
+    if (file_paths.empty()) { return false; }
     if (!StringMatch(tag, "OUT") && FilesExist(file_paths)) {
         // 1: {"/path/to/single_file.tif"},
         // 3: {"file", "/path/to/single_file.tif"}
-- 
2.43.0


From d13d68d67a82382d00c0a06a66d059f1be281902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 105/111] fix: mask_rasterio reads the configuration file given
 as its only argument

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 6aa7f3f..17f38ff 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -215,7 +215,6 @@ int main(const int argc, const char** argv) {
         if (tmp_dbl_flag) { continue; }
         arg_sep.push_back(idx);
     }
-    arg_sep.push_back(argc);
 
     map<string, vector<string> > key_args;
     if (arg_sep.empty()) {
@@ -230,6 +229,7 @@ int main(const int argc, const char** argv) {
         }
     }
     else {
+        arg_sep.push_back(argc);
         for (auto arg_idx = arg_sep.begin(); arg_idx != arg_sep.end() - 1; ++arg_idx) {
             vector<string> tmpargs(argv + *arg_idx + 1, argv + *(arg_idx + 1));
             if (tmpargs.empty()) { continue; }
-- 
2.43.0


From 3fee3fa3be94ea0b2806dc5fd44076bb790f20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 106/111] fix: mask_rasterio decomposes rasters into files, as
 it does into MongoDB

---
 apps/mask_rasterio.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 17f38ff..13c54b7 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -567,7 +567,10 @@ int main(const int argc, const char** argv) {
                                                default_values.at(in_idx));
                     }
                 } else {
-                    if (output_subset) { rs->OutputToFile(out_paths.at(in_idx), false); }
+                    if (output_subset) {
+                        if (nullptr == mask_layer) { rs->BuildSubSet(); }
+                        rs->OutputSubsetToFile(true, false, out_paths.at(in_idx));
+                    }
                     if (output_all) { rs->OutputToFile(out_paths.at(in_idx), true); }
                 }
             } else if (out_fmts.at(in_idx) == GFS && use_mongo) {
-- 
2.43.0


From 1deb131170e0e1ca34864872d399ca831eed5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 107/111] fix: mask_rasterio reports failures in its exit
 status

---
 apps/mask_rasterio.cpp | 106 ++++++++++++++++++++++++-----------------
 1 file changed, 61 insertions(+), 45 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 13c54b7..7b31d7b 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -98,6 +98,7 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
             if (tmpfmt == GFS || tmpfmt == SFILE) {
                 // 7: {"file"} or {"gfs"}
                 fmt = tmpfmt;
+                return true; // no paths
             }
             else if (file_paths.at(path_idx).find_first_of(SEP) != string::npos) {
                 fmt = SFILE;
@@ -161,6 +162,7 @@ bool parse_key_values(string& kvstrs, map<vint, vector<double> >& kv) {
  *   1. Format error of input arguments
  *   2. File specified but not existed, including configuration file and input data files
  *   3. File content loaded failed or wrong format
+ *   4. Any of the inputs could not be loaded, processed, or output
  *
  */
 int main(const int argc, const char** argv) {
@@ -303,11 +305,12 @@ int main(const int argc, const char** argv) {
         }
         else if (itkv->first == "OUT" || itkv->first == "OUTPUT") {
             vector<string> tmppaths;
-            if (parse_fmt_paths("OUT", itkv->second, global_outfmt, tmppaths)) {
-                if (!tmppaths.empty()) {
-                    out_paths.emplace_back(tmppaths[0]);
-                    out_fmts.emplace_back(global_outfmt);
-                }
+            if (!parse_fmt_paths("OUT", itkv->second, global_outfmt, tmppaths)) {
+                return 1;
+            }
+            if (!tmppaths.empty()) {
+                out_paths.emplace_back(tmppaths[0]);
+                out_fmts.emplace_back(global_outfmt);
             }
         }
         else if (itkv->first == "OUTDATATYPE") {
@@ -417,6 +420,7 @@ int main(const int argc, const char** argv) {
         if (!reclass_data.empty()) { vector<bool>().swap(reclass_data); }
         if (!reclass_keyvalues.empty()) { vector<map<vint, vector<double> > >().swap(reclass_keyvalues); }
     }
+    bool succeed = true; // Are all inputs loaded, processed, and output?
     // Parse input and output settings in configuration file
     for (auto ioit = io_strs.begin(); ioit != io_strs.end(); ++ioit) {
         size_t item_count = (*ioit).size(); // item_count has been checked to be sure >=1
@@ -474,6 +478,9 @@ int main(const int argc, const char** argv) {
             out_types.emplace_back(tmpouttype);
             reclass_data.push_back(do_recls);
             reclass_keyvalues.emplace_back(tmp_recls);
+        } else {
+            cout << "Error: Input of the data item does not exist: " << (*ioit).at(inidx) << "\n";
+            succeed = false;
         }
     }
 
@@ -495,7 +502,8 @@ int main(const int argc, const char** argv) {
             if (nullptr == mask_layer) { return 3; }
 #endif
         } else {
-            // No mask layer
+            cout << "Error: The mask does not exist: " << mask_path << "\n";
+            return 2;
         }
     }
 
@@ -505,7 +513,11 @@ int main(const int argc, const char** argv) {
     bool output_subset = false;
     bool combine_subset = false;
     if (mode != MASK) {
-        if (mask_layer != nullptr) { mask_layer->BuildSubSet(); }
+        if (mask_layer != nullptr && !mask_layer->BuildSubSet()) {
+            cout << "Error: Failed to build subsets of the mask!\n";
+            delete mask_layer;
+            return 3;
+        }
         output_all = mode == MASKDEC;
         output_subset = mode == DEC || mode == MASKDEC;
         combine_subset = mode == COM;
@@ -543,67 +555,68 @@ int main(const int argc, const char** argv) {
                                      default_values.at(in_idx), opts);
 #endif
             }
-            else {
+            if (nullptr == rs) {
+                cout << "Error: Failed to load " << (in_it->empty() ? string() : in_it->front()) << "\n";
+                succeed = false;
                 continue;
             }
-            if (nullptr == rs) { continue; }
 
             if (update_nodata.at(in_idx)) { rs->ReplaceNoData(nodata_values.at(in_idx)); }
 
             if (reclass_data.at(in_idx)) {
-                rs->BuildSubSet();
+                if (!rs->BuildSubSet()) { succeed = false; }
             }
 
             if (out_fmts.at(in_idx) == SFILE) {
                 if (reclass_data.at(in_idx)) {
                     if (output_subset) {
-                        rs->OutputSubsetToFile(true, false,
-                                               out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
-                                               default_values.at(in_idx));
+                        if (!rs->OutputSubsetToFile(true, false,
+                                                    out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
+                                                    default_values.at(in_idx))) { succeed = false; }
                     }
                     if (output_all) {
-                        rs->OutputSubsetToFile(true, true,
-                                               out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
-                                               default_values.at(in_idx));
+                        if (!rs->OutputSubsetToFile(true, true,
+                                                    out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
+                                                    default_values.at(in_idx))) { succeed = false; }
                     }
                 } else {
                     if (output_subset) {
-                        if (nullptr == mask_layer) { rs->BuildSubSet(); }
-                        rs->OutputSubsetToFile(true, false, out_paths.at(in_idx));
+                        if (nullptr == mask_layer && !rs->BuildSubSet()) { succeed = false; }
+                        if (!rs->OutputSubsetToFile(true, false, out_paths.at(in_idx))) { succeed = false; }
+                    }
+                    if (output_all) {
+                        if (!rs->OutputToFile(out_paths.at(in_idx), true)) { succeed = false; }
                     }
-                    if (output_all) { rs->OutputToFile(out_paths.at(in_idx), true); }
                 }
             } else if (out_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
                 if (reclass_data.at(in_idx)) {
                     if (output_subset) {
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                                  inc_nodata, true, false, 
-                                                  reclass_keyvalues.at(in_idx),
-                                                  default_values.at(in_idx));
+                        if (!rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                       inc_nodata, true, false, 
+                                                       reclass_keyvalues.at(in_idx),
+                                                       default_values.at(in_idx))) { succeed = false; }
                     }
                     if (output_all) {
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                                  inc_nodata, true, true, 
-                                                  reclass_keyvalues.at(in_idx),
-                                                  default_values.at(in_idx));
+                        if (!rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                       inc_nodata, true, true, 
+                                                       reclass_keyvalues.at(in_idx),
+                                                       default_values.at(in_idx))) { succeed = false; }
                     }
                 } else {
                     if (output_subset) {
-                        if (nullptr == mask_layer) {
-                            rs->BuildSubSet();
-                        }
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                                  inc_nodata, true, false);
+                        if (nullptr == mask_layer && !rs->BuildSubSet()) { succeed = false; }
+                        if (!rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                       inc_nodata, true, false)) { succeed = false; }
                     }
                     if (output_all) {
-                        rs->OutputToMongoDB(gfs, "0_" + out_paths.at(in_idx), opts,
-                                            inc_nodata, true);
+                        if (!rs->OutputToMongoDB(gfs, "0_" + out_paths.at(in_idx), opts,
+                                                 inc_nodata, true)) { succeed = false; }
                     }
                 }
 #endif
             } else {
-                // Nothing to do
+                succeed = false; // Not supported
             }
             delete rs;
         } else if (mode == COM) {
@@ -627,33 +640,36 @@ int main(const int argc, const char** argv) {
                 if (in_fmts.at(in_idx) == SFILE && FileExists(*inf_it)) {
                     DblRaster* tmpsubrs = nullptr;
                     tmpsubrs = DblRaster::Init(*inf_it, true);
-                    if (nullptr == tmpsubrs) { continue; }
+                    if (nullptr == tmpsubrs) {
+                        succeed = false;
+                        continue;
+                    }
                     int tmpsublen;
                     double* tmpsubdata = nullptr;
-                    tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata);
-                    subset.at(subid)->SetData(tmpsublen, tmpsubdata);
+                    if (!tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata) ||
+                        !subset.at(subid)->SetData(tmpsublen, tmpsubdata)) { succeed = false; }
                     delete tmpsubrs;
                 }
                 else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-                    subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, opts);
+                    if (!subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, opts)) { succeed = false; }
 #endif
                 } else {
-                    // Nothing to do
+                    succeed = false; // Not supported
                 }
             }
             mask_layer->SetOutDataType(out_types.at(in_idx));
             if (out_fmts.at(in_idx) == SFILE) {
-                mask_layer->OutputToFile(out_paths.at(in_idx), false);
+                if (!mask_layer->OutputToFile(out_paths.at(in_idx), false)) { succeed = false; }
             }
             else if (out_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-                mask_layer->OutputToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                            inc_nodata, false);
+                if (!mask_layer->OutputToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                 inc_nodata, false)) { succeed = false; }
 #endif
             }
             else {
-                // Nothing to do
+                succeed = false; // Not supported
             }
         } else {
             // Nothing to do
@@ -667,5 +683,5 @@ int main(const int argc, const char** argv) {
         delete client;
     }
 #endif
-    return 0;
+    return succeed ? 0 : 4;
 }
-- 
2.43.0


From ca48149c07bbb87a9dcc76adb704b77fbeaa2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:53 +0000
Subject: [PATCH 108/111] fix: The month before the first of a month in
 daylight saving time

---
 src/utils_time.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 4e8fd6a..46e0967 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -52,15 +52,16 @@ string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
             if (date_info->tm_mday == 0) {
                 date_info->tm_mon -= 1;
 
-                if (date_info->tm_mon == 0) {
+                // tm_mon is counted from 0, and tm_year from 1900
+                if (date_info->tm_mon < 0) {
                     date_info->tm_year -= 1;
-                    date_info->tm_mon = 12;
+                    date_info->tm_mon = 11;
                     date_info->tm_mday = 31;
                 } else {
-                    if (IsLeapYear(date_info->tm_year)) {
-                        date_info->tm_mday = month_days[date_info->tm_mon] + 1;
+                    if (date_info->tm_mon == 1 && IsLeapYear(date_info->tm_year + 1900)) {
+                        date_info->tm_mday = 29;
                     } else {
-                        date_info->tm_mday = month_days[date_info->tm_mon];
+                        date_info->tm_mday = month_days[date_info->tm_mon + 1];
                     }
                 }
             }
@@ -87,17 +88,17 @@ string ConvertToString3(const time_t date, const bool utc_time /* = true */) {
 			if (date_info->tm_mday == 0) {
 				date_info->tm_mon -= 1;
 
-				if (date_info->tm_mon == 0) {
+				if (date_info->tm_mon < 0) {
 					date_info->tm_year -= 1;
-					date_info->tm_mon = 12;
+					date_info->tm_mon = 11;
 					date_info->tm_mday = 31;
 				}
 				else {
-					if (IsLeapYear(date_info->tm_year)) {
-						date_info->tm_mday = month_days[date_info->tm_mon] + 1;
+					if (date_info->tm_mon == 1 && IsLeapYear(date_info->tm_year + 1900)) {
+						date_info->tm_mday = 29;
 					}
 					else {
-						date_info->tm_mday = month_days[date_info->tm_mon];
+						date_info->tm_mday = month_days[date_info->tm_mon + 1];
 					}
 				}
 			}
-- 
2.43.0


From 111ded3dfbb5229ed0441588910e9bd39e8ef4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:02 +0000
Subject: [PATCH 109/111] fix: Dots of the directories do not begin the suffix
 of a file

---
 src/utils_filesystem.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index f05d148..97d21ff 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -314,11 +314,12 @@ string GetCoreFileName(string const& full_filename) {
 
 string GetSuffix(string const& full_filename) {
     string abspath = GetAbsolutePath(full_filename);
-    vector<string> tokens = utils_string::SplitString(abspath, '.');
-    if (tokens.size() >= 2) {
-        return tokens[tokens.size() - 1];
+    string::size_type sep = abspath.find_last_of(SEP);
+    string::size_type dot = abspath.find_last_of('.');
+    if (dot == string::npos || (sep != string::npos && dot < sep)) {
+        return ""; // dots of the directories do not begin a suffix
     }
-    return "";
+    return abspath.substr(dot + 1);
 }
 
 string ReplaceSuffix(string const& full_filename, string const& new_suffix) {
-- 
2.43.0


From 859ad6aac6a37fb822170da3396ce782fc0cb720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:02 +0000
Subject: [PATCH 110/111] fix: A raster built on a mask of several layers says
 in its header that it has one

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 67102a9..f848877 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2311,6 +2311,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
     }
     default_value_ = mask_->GetDefaultValue();
     CopyHeader(mask_->GetRasterHeader(), headers_);
+    UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_); // the mask may have several layers
     no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
     UpdateStrHeader(options_, HEADER_RS_SRS, mask_->GetSrsString());
     CopyStringMap(opts, options_);
-- 
2.43.0


From 4b80701d36914a4e7dde4f5dd5488c7f6ae318b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:10 +0000
Subject: [PATCH 111/111] fix: RemoveFile reports failure when the files could
 not be listed

---
 src/db_mongoc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 3670399..75876c3 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -374,6 +374,10 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
         }
         mongoc_gridfs_file_destroy(gfile);
     }
+    if (mongoc_gridfs_file_list_error(filelist, &err)) { // not all files could be listed
+        StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
+        removed = false;
+    }
 
     mongoc_gridfs_file_list_destroy(filelist);
     bson_destroy(&filter);
-- 
2.43.0

