From 0393cc7067d3ad5091887571df537907c1df593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:22 +0000
Subject: [PATCH 01/24] fix: do not read unseekable or oversized files into a
 buffer of the wrong size

ftell() returns -1 for a pipe and the int it was stored in wraps around for
files of 2 GB and more, so the contents were written past the end of a buffer
that was too small. Such files are now treated as unreadable.
---
 src/sourcefile.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 27a7327..dedc836 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -2,6 +2,7 @@
 // See COPYING for license information.
 
 #include <dirent.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -86,9 +87,16 @@ char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
       path = sourcefile->diskpath;
     FILE *f = fopen(path, "rb");
     if (f) {
-      fseek(f, 0, SEEK_END);
-      int size = ftell(f);
-      rewind(f);
+      long size = -1;
+      if (fseek(f, 0, SEEK_END) == 0)
+        size = ftell(f);
+      if (size < 0 || size >= INT_MAX || fseek(f, 0, SEEK_SET) != 0) {
+        // Not seekable (e.g. a pipe) or too large for a contents size.
+        fclose(f);
+        sourcefile->contents = NULL;
+        sourcefile->size = 0;
+        return NULL;
+      }
       sourcefile->contents = malloc(size + 1);
       if (fread(sourcefile->contents, size, 1, f) != 1) {
         free(sourcefile->contents);
-- 
2.43.0


From 303b223a91f371fab1958dd907b2cab9ec011696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:30 +0000
Subject: [PATCH 02/24] fix: skip directory entries whose status cannot be
 obtained

A failing lstat() left the status of the previous entry in place, so that a
vanished or inaccessible entry was listed, or entered, as if it were of the
previous entry's kind.
---
 src/sourcefile.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index dedc836..a00ab52 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -392,8 +392,7 @@ void ohcount_sourcefile_list_add_directory(SourceFileList *list,
       strncpy(f_p, (const char *)file->d_name, length);
       *(f_p + length) = '\0';
 
-      lstat(filepath, &st);
-      if(S_ISLNK(st.st_mode))
+      if (lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode))
         continue;
 
       if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs
-- 
2.43.0


From 56400a368a836f17471dc01bb6aaf4642ad90812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:30 +0000
Subject: [PATCH 03/24] fix: do not overflow the path buffer when scanning deep
 directories

The path of an entry was built in a FILENAME_MAX buffer on the stack without
a bound: an entry with a long name in a directory whose path is nearly of that
length overflowed it, and about 4 KB of stack per level exhausted the stack on
deeply nested trees.
---
 src/sourcefile.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index a00ab52..1d774ff 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -377,15 +377,16 @@ void ohcount_sourcefile_list_add_file(SourceFileList *list,
 
 void ohcount_sourcefile_list_add_directory(SourceFileList *list,
                                            const char *directory) {
-  char filepath[FILENAME_MAX];
-  strncpy(filepath, directory, strlen(directory));
-  *(filepath + strlen(directory)) = '/';
-  char *f_p = filepath + strlen(directory) + 1;
-
   struct dirent *file;
   DIR *d = NULL;
   d = opendir(directory);
   if (d) {
+    int dir_length = strlen(directory);
+    char *filepath = malloc(dir_length + 1 + sizeof(file->d_name));
+    memcpy(filepath, directory, dir_length);
+    *(filepath + dir_length) = '/';
+    char *f_p = filepath + dir_length + 1;
+
     while ((file = readdir(d))) {
       struct stat st;
       int length = strlen(file->d_name);
@@ -400,6 +401,7 @@ void ohcount_sourcefile_list_add_directory(SourceFileList *list,
       else if (S_ISREG(st.st_mode))
         ohcount_sourcefile_list_add_file(list, filepath);
     }
+    free(filepath);
     closedir(d);
   }
 }
-- 
2.43.0


From 3338403d2ee9b989679013f7cda6d84920a09fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:53 +0000
Subject: [PATCH 04/24] fix: do not look for a dot in front of the file name

For a name with neither a dot nor a directory separator the byte before the
allocated path was read; depending on what it was, the whole name was taken
for an extension and the file got a language because of it.
---
 src/sourcefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 1d774ff..84b6037 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -31,7 +31,8 @@ SourceFile *ohcount_sourcefile_new(const char *filepath) {
 
   while (p > sourcefile->filepath && *(p - 1) != '.' &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-  sourcefile->ext = (*(p - 1) == '.') ? p : sourcefile->filepath + length;
+  sourcefile->ext = (p > sourcefile->filepath && *(p - 1) == '.') ?
+    p : sourcefile->filepath + length;
 
   while (p > sourcefile->filepath &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-- 
2.43.0


From 473198613c514b509cba7f7947222b87b59c0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:12 +0000
Subject: [PATCH 05/24] fix: merge a delta into the entry of its own language

The search compared the language of the first entry at every step, so that only
deltas of the first language were merged; any other language got one entry per
delta and looking a language up found its first delta only.
---
 src/loc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loc.c b/src/loc.c
index bd43934..af2e7d8 100644
--- a/src/loc.c
+++ b/src/loc.c
@@ -258,7 +258,7 @@ void ohcount_loc_delta_list_add_loc_delta(LocDeltaList *list, LocDelta *delta) {
   } else {
     LocDeltaList *iter = list->head;
     while (iter) {
-      if (list->delta && strcmp(list->delta->language, delta->language) == 0) break;
+      if (iter->delta && strcmp(iter->delta->language, delta->language) == 0) break;
       iter = iter->next;
     }
     if (iter == NULL) { // new language
-- 
2.43.0


From a3ee0ba657333e2f4bb858bc956a422486c35a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:12 +0000
Subject: [PATCH 06/24] fix: do without the log when it cannot be opened

Comparing two files crashed when /tmp/ohcount.log could not be opened for
writing, for example because another user owns it.
---
 src/log.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index d28686d..9c98498 100644
--- a/src/log.c
+++ b/src/log.c
@@ -4,8 +4,10 @@
 #define LOG_FILE "/tmp/ohcount.log"
 void log_it(char *log) {
 	FILE *f = fopen(LOG_FILE, "a");
-	fputs(log, f);
-	fclose(f);
+	if (f) {
+		fputs(log, f);
+		fclose(f);
+	}
 }
 
 
-- 
2.43.0


From 904bc769b9cbaff2968ecec097791b00d48ec844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:31 +0000
Subject: [PATCH 07/24] fix: keep contents supplied by the caller after parsing

---
 src/sourcefile.c | 9 +++++++--
 src/structs.h    | 7 +++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 84b6037..fe91b6f 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -45,6 +45,7 @@ SourceFile *ohcount_sourcefile_new(const char *filepath) {
 
   sourcefile->contents = NULL;
   sourcefile->size = -1;
+  sourcefile->contents_supplied = 0;
 
   sourcefile->language = NULL;
   sourcefile->language_detected = 0;
@@ -79,6 +80,7 @@ void ohcount_sourcefile_set_contents(SourceFile *sourcefile,
   strncpy(sourcefile->contents, contents, size);
   sourcefile->contents[size] = '\0';
   sourcefile->size = size;
+  sourcefile->contents_supplied = 1;
 }
 
 char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
@@ -208,8 +210,11 @@ void ohcount_sourcefile_parse(SourceFile *sourcefile) {
     // undesirable build-up of memory until the SourceFileList is 'free'd.
     // While it is expensive to re-read the contents from the disk, it is
     // unlikely they will need to be accessed again after parsing.
-    free(sourcefile->contents); // field is guaranteed to exist
-    sourcefile->contents = NULL;
+    // Contents supplied by the caller cannot be re-read, so they are kept.
+    if (!sourcefile->contents_supplied) {
+      free(sourcefile->contents); // field is guaranteed to exist
+      sourcefile->contents = NULL;
+    }
   }
 }
 
diff --git a/src/structs.h b/src/structs.h
index 82cdfc0..76188b7 100644
--- a/src/structs.h
+++ b/src/structs.h
@@ -306,6 +306,13 @@ typedef struct {
   /** A string array of all filenames in this file's directory. */
   char **filenames;
 
+  /**
+   * Flag used internally for keeping track of whether or not the contents were
+   * supplied by ohcount_sourcefile_set_contents(), in which case they cannot be
+   * read again from the disk.
+   */
+  int contents_supplied;
+
 } SourceFile;
 
 /**
-- 
2.43.0


From bcfde3f6a2f4083fa331fe1fc3601a44568766e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:05 +0000
Subject: [PATCH 08/24] fix: report failures of the disk-based diff instead of
 counting wrong

---
 src/diff.c | 69 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 14 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index bbb96ab..0c68536 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -2,8 +2,14 @@
 #include <unistd.h>
 #include <errno.h>
 
+#ifndef _WIN32
+# include <sys/wait.h>
+#endif
+
 #ifdef _WIN32
 # include <fcntl.h>
+# define WIFEXITED(s) 1
+# define WEXITSTATUS(s) (s)
 # define mkstemp(p) _open(_mktemp(p), _O_CREAT | _O_SHORT_LIVED | _O_EXCL)
 #endif
 
@@ -619,18 +625,39 @@ static void output(int *added, int *removed) {
     change(1, 0, 1, len[1], added, removed);
 }
 
+// Report a failure of the disk-based diff and give up: its counts would be
+// wrong, and there is no way to return an error to the caller.
+static void disk_diff_failed(const char *what, const char *from_tmp,
+                             const char *to_tmp) {
+  fprintf(stderr, "src/diff.c: %s\n", what);
+  if (from_tmp)
+    unlink(from_tmp);
+  if (to_tmp)
+    unlink(to_tmp);
+  exit(1);
+}
+
 // create and return the path of a tmp_file filled with buf
 // caller must delete file if that's desired
+// returns NULL, and leaves no file behind, if the file cannot be written
 char *tmp_file_from_buf(const char *buf) {
 	char *template = "/tmp/ohcount_diff_XXXXXXX";
 	char *path = strdup(template);
 
 	int fd = mkstemp(path);
-  if (write(fd, buf, strlen(buf)) != strlen(buf)) {
+  if (fd == -1) {
+    fprintf(stderr, "src/diff.c: Could not create temporary file.\n");
+    free(path);
+    return NULL;
+  }
+  int written = write(fd, buf, strlen(buf)) == strlen(buf);
+  // A write error may only be reported on close.
+  if (close(fd) != 0 || !written) {
     fprintf(stderr, "src/diff.c: Could not write temporary file %s.\n", path);
-    exit(1);
+    unlink(path);
+    free(path);
+    return NULL;
   }
-	close(fd);
 	return path;
 }
 
@@ -645,27 +672,41 @@ void ohcount_calc_diff_with_disk(
 		int *removed) {
 	*added = *removed = 0;
 	char *from_tmp = tmp_file_from_buf(from);
+	if (!from_tmp)
+		disk_diff_failed("Could not diff.", NULL, NULL);
 	char *to_tmp = tmp_file_from_buf(to);
+	if (!to_tmp)
+		disk_diff_failed("Could not diff.", from_tmp, NULL);
 
 	char command[1000];
 	sprintf(command, "diff --normal --suppress-common-lines --new-file '%s' '%s'", from_tmp, to_tmp);
 	FILE *f = popen(command, "r");
-	if (f) {
-		char line[10000];
-		while(fgets(line, sizeof(line), f)) {
-			if (line[0] == '>')
-			 	(*added)++;
-			if (line[0] == '<')
-				(*removed)++;
-		}
+	if (!f)
+		disk_diff_failed("Could not run diff.", from_tmp, to_tmp);
+	char line[10000];
+	int line_start = 1; // does 'line' hold the start of an output line?
+	while(fgets(line, sizeof(line), f)) {
+		if (line_start && line[0] == '>')
+			(*added)++;
+		if (line_start && line[0] == '<')
+			(*removed)++;
+		line_start = line[strlen(line) - 1] == '\n';
 	}
-	pclose(f);
+	int incomplete = ferror(f);
+	int status = pclose(f);
+	// The exit status of diff is 0 (no differences), 1 (differences), or 2
+	// (trouble). Any other means that it did not run or was killed.
+	if (incomplete || (status != 0 &&
+	                   !(WIFEXITED(status) && WEXITSTATUS(status) == 1)))
+		disk_diff_failed("Could not diff.", from_tmp, to_tmp);
 	if (unlink(from_tmp)) {
-		printf("error unlinking %s: %d", from_tmp, errno);
+		fprintf(stderr, "error unlinking %s: %d\n", from_tmp, errno);
 	}
 	if (unlink(to_tmp)) {
-		printf("error unlinking %s: %d", from_tmp, errno);
+		fprintf(stderr, "error unlinking %s: %d\n", to_tmp, errno);
 	}
+	free(from_tmp);
+	free(to_tmp);
 }
 
 #define USE_DISK_IF_LARGER 100000
-- 
2.43.0


From 8b087a5aaa3bd6c9a8465a98c77253422fd515da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:05 +0000
Subject: [PATCH 09/24] fix: do not take different lines with the same hash for
 equal

---
 src/diff.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index 0c68536..8e73e34 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -278,6 +278,8 @@ struct line *file[2];
 struct line *sfile[2];  // shortened by pruning common prefix and suffix
 int slen[2];
 int pref, suff; // length of prefix and suffix
+static char *text[2]; // copies of the buffers, split into lines
+static char **lines[2]; // the lines of each buffer, from 1
 int *class; // will be overlaid on file[0]
 int *member; // will be overlaid on file[1]
 int *klist; // will be overlaid on file[0] after class
@@ -310,7 +312,8 @@ static int hash(char *line) {
     shift += 7;
   }
   sum = low(sum) + high(sum);
-  return ((short)low(sum) + (short)high(sum));
+  len = (short)low(sum) + (short)high(sum);
+  return len ? len : 1; // 0 marks lines without a match
 }
 
 /**
@@ -321,17 +324,22 @@ static int hash(char *line) {
 void prepare(int i, const char *buf) {
   struct line *p;
   int j;
-  char bufcpy[strlen(buf)];
   char *l;
 
   p = malloc(3*sizeof(struct line));
+  lines[i] = malloc(sizeof(char *));
   j = 0;
-  strncpy(bufcpy, buf, strlen(buf));
-  bufcpy[strlen(buf)] = 0;
-  l = strtok(bufcpy, "\n");
+  text[i] = strdup(buf);
+  if (text[i] == NULL) {
+    fprintf(stderr, "out of memory in ohcount_calc_diff");
+    exit(-1);
+  }
+  l = strtok(text[i], "\n");
   while (l) {
     p = realloc(p, (++j+3)*sizeof(struct line));
     p[j].value = hash(l);
+    lines[i] = realloc(lines[i], (j+1)*sizeof(char *));
+    lines[i][j] = l;
     l = strtok(NULL, "\n");
   }
   len[i] = j;
@@ -604,6 +612,15 @@ static void unravel(int p) {
     J[q->x+pref] = q->y+pref;
 }
 
+/* Breaks the matches of lines that are different but have the same hash. */
+static void check(void) {
+  int i;
+
+  for(i=1; i<=len[0]; i++)
+    if (J[i] && strcmp(lines[0][i], lines[1][J[i]]) != 0)
+      J[i] = 0;
+}
+
 static void output(int *added, int *removed) {
   int m, i0, i1, j0, j1;
 
@@ -742,6 +759,11 @@ void ohcount_calc_diff(const char *from,
   unravel(klist[k]);
   free(clist);
   free(klist);
+  check();
+  for (k = 0; k < 2; k++) {
+    free(lines[k]);
+    free(text[k]);
+  }
 
   *added = *removed = 0;
   output(added, removed);
-- 
2.43.0


From 7a7396ee6f69f5017b40ae831a8397e95e7ec884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:05 +0000
Subject: [PATCH 10/24] fix: release the memory and handles that queries leak

---
 src/detector.c   | 17 +++++++++++++----
 src/sourcefile.c |  1 +
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 1611c5b..ad8f89c 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -98,7 +98,10 @@ const char *detect_language_magic(SourceFile *sourcefile) {
     line[sizeof(line)-1] = '\0';
   } else {
     char *p = ohcount_sourcefile_get_contents(sourcefile);
-    if (!p) return NULL;
+    if (!p) {
+      magic_close(cookie);
+      return NULL;
+    }
 
     const char *magic = magic_buffer(cookie, p, strlen(p));
     if (magic == NULL) {
@@ -914,7 +917,9 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 	keyword = pcre_compile("^\\s*(ensure|content|notify|require|source)\\s+=>",
 			PCRE_MULTILINE, &error, &erroffset, NULL);
 
-	if (pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1)
+	int matched = pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1;
+	pcre_free(keyword);
+	if (matched)
 		return LANG_PUPPET;
 
 	/* check for standard puppet constructs */
@@ -922,7 +927,9 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 	construct = pcre_compile("^\\s*(define\\s+[\\w:-]+\\s*\\(|class\\s+[\\w:-]+(\\s+inherits\\s+[\\w:-]+)?\\s*[\\({]|node\\s+\\'?[\\w:\\.-]+\\'?\\s*{|import\\s+\"|include\\s+[\"']?[\\w:-][\"']?)",
 			PCRE_MULTILINE, &error, &erroffset, NULL);
 
-	if (pcre_exec(construct, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1)
+	matched = pcre_exec(construct, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1;
+	pcre_free(construct);
+	if (matched)
 		return LANG_PUPPET;
 
 	return LANG_PASCAL;
@@ -937,7 +944,9 @@ const char *disambiguate_pl(SourceFile *sourcefile) {
 	const char *error;
 	int erroffset;
 	pcre *re = pcre_compile("#![^\\n]*perl", PCRE_CASELESS, &error, &erroffset, NULL);
-  if (pcre_exec(re, NULL, contents, mystrnlen(contents, 100), 0, PCRE_ANCHORED, NULL, 0) > -1)
+  int matched = pcre_exec(re, NULL, contents, mystrnlen(contents, 100), 0, PCRE_ANCHORED, NULL, 0) > -1;
+  pcre_free(re);
+  if (matched)
     return LANG_PERL;
 
   // Check for prolog :- rules
diff --git a/src/sourcefile.c b/src/sourcefile.c
index fe91b6f..f2b5e09 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -334,6 +334,7 @@ LocDelta *ohcount_sourcefile_calc_loc_delta(SourceFile *from_file,
   else
     delta->blanks_added = to->blanks_count - from->blanks_count;
 
+  ohcount_parsed_language_free(blank);
   return delta;
 }
 
-- 
2.43.0


From 0ac8a1cc199ea4b3ece34ef46c55dd48cfb4361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:41 +0000
Subject: [PATCH 11/24] fix: do not look in front of the line buffer for C++
 keywords

---
 src/detector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index ad8f89c..7bbbd67 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -616,7 +616,8 @@ const char *disambiguate_h(SourceFile *sourcefile) {
     // Look for C++ keywords.
     p = line;
     while (p < eol) {
-      if (islower(*p) && p != bof && !isalnum(*(p - 1)) && *(p - 1) != '_') {
+      if (islower(*p) &&
+          (p == line || (!isalnum(*(p - 1)) && *(p - 1) != '_'))) {
         pe = p;
         while (islower(*pe)) pe++;
         if (!isalnum(*pe) && *pe != '_') {
-- 
2.43.0


From 20436e2ab4535ada69ef1b1114f56f5edf889a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:41 +0000
Subject: [PATCH 12/24] fix: make room for the terminator of strings copied to
 the stack

---
 src/detector.c | 20 ++++++++++----------
 src/ohcount.c  |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 7bbbd67..3187f3f 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -149,7 +149,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
     while (pe < eof) {
       // Get the contents of the first line.
       while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-      length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+      length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
       strncpy(line, p, length);
       line[length] = '\0';
       if (*line == '#' && *(line + 1) == '!') {
@@ -169,7 +169,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
       }
       pe = p;
       while (!isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
-      length = (pe - p <= sizeof(buf)) ? pe - p : sizeof(buf);
+      length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;
       strncpy(buf, p, length);
       buf[length] = '\0';
 
@@ -239,7 +239,7 @@ const char *disambiguate_aspx(SourceFile *sourcefile) {
     if (p && pe) {
       p += 3;
       const int length = pe - p;
-      char buf[length];
+      char buf[length + 1];
       strncpy(buf, p, length);
       buf[length] = '\0';
       char *eol = buf + strlen(buf);
@@ -326,7 +326,7 @@ const char *disambiguate_basic(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *line_end = pe;
@@ -553,7 +553,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
   // If the directory contains a matching *.m file, likely Objective C.
   length = strlen(sourcefile->filename);
   if (strcmp(sourcefile->ext, "h") == 0) {
-    char path[length];
+    char path[length + 1];
     strncpy(path, sourcefile->filename, length);
     path[length] = '\0';
     *(path + length - 1) = 'm';
@@ -575,7 +575,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -654,7 +654,7 @@ const char *disambiguate_in(SourceFile *sourcefile) {
   if (strstr(p, ".") <= pe) {
     // Only if the filename has an extension prior to the .in
     length = pe - p;
-    char buf[length];
+    char buf[length + 1];
     strncpy(buf, p, length);
     buf[length] = '\0';
     p = ohcount_sourcefile_get_contents(sourcefile);
@@ -745,7 +745,7 @@ const char *disambiguate_m(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -1039,7 +1039,7 @@ const char *disambiguate_st(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -1076,7 +1076,7 @@ int ohcount_is_binary_filename(const char *filename) {
     re = ohcount_hash_language_from_ext(p, length);
     if (re) return ISBINARY(re->value);
     // Try the lower-case version of this extension.
-    char lowerext[length];
+    char lowerext[length + 1];
     strncpy(lowerext, p, length);
     lowerext[length] = '\0';
     for (p = lowerext; p < lowerext + length; p++) *p = tolower(*p);
diff --git a/src/ohcount.c b/src/ohcount.c
index ccf7c35..88c04f9 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -13,7 +13,7 @@ void annotate_callback(const char *language, const char *entity, int start,
                        int end, void *userdata) {
   SourceFile *sf = (SourceFile *)userdata;
   int length = end - start;
-  char buf[length];
+  char buf[length + 1];
   strncpy(buf, (const char*)sf->contents + start, length); // field exists
   buf[length] = '\0';
   printf("%s\t%s\t%s", language, entity, buf);
-- 
2.43.0


From 5ad26e0173c496dfce001db55591bdc26a373cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:02 +0000
Subject: [PATCH 13/24] fix: do not take a regular expression that cannot be
 compiled for one that does not match

---
 src/detector.c | 29 ++++++++++++++++++-----------
 src/licenses.c | 13 +++++++++++++
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 3187f3f..df9f4c6 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -903,20 +903,29 @@ size_t mystrnlen(const char *begin, size_t maxlen) {
   return end ? (end - begin) : maxlen;
 }
 
+// Compiles a regular expression. One that cannot be compiled (out of memory)
+// must not pass for one that does not match.
+static pcre *compile_re(const char *pattern, int options) {
+	const char *error;
+	int erroffset;
+	pcre *re = pcre_compile(pattern, options, &error, &erroffset, NULL);
+	if (re == NULL) {
+		fprintf(stderr, "pcre: %s\n", error);
+		exit(1);
+	}
+	return re;
+}
+
 const char *disambiguate_pp(SourceFile *sourcefile) {
 	char *p = ohcount_sourcefile_get_contents(sourcefile);
 
 	if (!p)
 	  return NULL;
 
-	/* prepare regular expressions */
-	const char *error;
-	int erroffset;
-
 	/* try harder with optional spaces */
 	pcre *keyword;
-	keyword = pcre_compile("^\\s*(ensure|content|notify|require|source)\\s+=>",
-			PCRE_MULTILINE, &error, &erroffset, NULL);
+	keyword = compile_re("^\\s*(ensure|content|notify|require|source)\\s+=>",
+			PCRE_MULTILINE);
 
 	int matched = pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1;
 	pcre_free(keyword);
@@ -925,8 +934,8 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 
 	/* check for standard puppet constructs */
 	pcre *construct;
-	construct = pcre_compile("^\\s*(define\\s+[\\w:-]+\\s*\\(|class\\s+[\\w:-]+(\\s+inherits\\s+[\\w:-]+)?\\s*[\\({]|node\\s+\\'?[\\w:\\.-]+\\'?\\s*{|import\\s+\"|include\\s+[\"']?[\\w:-][\"']?)",
-			PCRE_MULTILINE, &error, &erroffset, NULL);
+	construct = compile_re("^\\s*(define\\s+[\\w:-]+\\s*\\(|class\\s+[\\w:-]+(\\s+inherits\\s+[\\w:-]+)?\\s*[\\({]|node\\s+\\'?[\\w:\\.-]+\\'?\\s*{|import\\s+\"|include\\s+[\"']?[\\w:-][\"']?)",
+			PCRE_MULTILINE);
 
 	matched = pcre_exec(construct, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1;
 	pcre_free(construct);
@@ -942,9 +951,7 @@ const char *disambiguate_pl(SourceFile *sourcefile) {
     return NULL;
 
   // Check for a perl shebang on first line of file
-	const char *error;
-	int erroffset;
-	pcre *re = pcre_compile("#![^\\n]*perl", PCRE_CASELESS, &error, &erroffset, NULL);
+	pcre *re = compile_re("#![^\\n]*perl", PCRE_CASELESS);
   int matched = pcre_exec(re, NULL, contents, mystrnlen(contents, 100), 0, PCRE_ANCHORED, NULL, 0) > -1;
   pcre_free(re);
   if (matched)
diff --git a/src/licenses.c b/src/licenses.c
index 6cbaae6..ce2fc0b 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -734,6 +734,15 @@ License license_map[] = {
 };
 int license_map_length = 0; // will be set dynamically
 
+/**
+ * Reports a license whose regular expressions cannot be compiled (out of
+ * memory) and gives up, because that license would never be detected.
+ */
+static void license_re_failed(License *l, const char *err) {
+  fprintf(stderr, "pcre: %s in ohcount_detect_license (%s)\n", err, l->name);
+  exit(-1);
+}
+
 /** Compiles the regular expressions defined in license_map. */
 void compile_regexps() {
   if (license_map_length == 0)
@@ -749,6 +758,8 @@ void compile_regexps() {
       if (flags & PCRE_MULTILINE)
         flags |= PCRE_DOTALL;
       l->regexp = pcre_compile(l->re, flags, &err, &erroffset, NULL);
+      if (l->regexp == NULL)
+        license_re_failed(l, err);
     }
     if (l->exclude_re) {
       flags = l->exclude_re_flags;
@@ -756,6 +767,8 @@ void compile_regexps() {
         flags |= PCRE_DOTALL;
       l->exclude_regexp = pcre_compile(l->exclude_re, flags, &err, &erroffset,
                                        NULL);
+      if (l->exclude_regexp == NULL)
+        license_re_failed(l, err);
     }
   }
 }
-- 
2.43.0


From af15295e8736132641f758bf72ded1072496463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:02 +0000
Subject: [PATCH 14/24] fix: exit with an error when the output cannot be
 written

---
 src/ohcount.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ohcount.c b/src/ohcount.c
index 88c04f9..70cf71a 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -304,5 +304,10 @@ int main(int argc, char *argv[]) {
   }
   ohcount_sourcefile_list_free(list);
 
+  // Do not report success for output that could not be written.
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fprintf(stderr, "ohcount: write error\n");
+    return 1;
+  }
   return 0;
 }
-- 
2.43.0


From a11343f045a8cfb2e1bb240ca380a3e262c4f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:53 +0000
Subject: [PATCH 15/24] fix: free the comment buffer of the license detection

---
 src/licenses.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/licenses.c b/src/licenses.c
index ce2fc0b..daf2cdb 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -866,6 +866,7 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
           }
         }
       }
+      free(buffer);
       iter_language = iter_language->next;
     }
 
-- 
2.43.0


From 016728da8031195babc28cc26e719004f4b04cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:09 +0000
Subject: [PATCH 16/24] fix: free the callback queue that the end of a text
 leaves behind

---
 src/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 358113e..1868ab9 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -9,6 +9,8 @@
 
 struct ParserMap * ohcount_hash_parser_from_language (register const char *str, register size_t len);
 
+void free_queue();
+
 int ohcount_parse(SourceFile *sourcefile, int count,
                   void (*callback) (const char *, const char *, int, int,
                                     void *),
@@ -20,8 +22,10 @@ int ohcount_parse(SourceFile *sourcefile, int count,
     if (rp) {
       char *buffer = ohcount_sourcefile_get_contents(sourcefile);
       int buffer_len = ohcount_sourcefile_get_contents_size(sourcefile);
-      if (callback)
+      if (callback) {
         rp->parser(buffer, buffer_len, count, callback, userdata);
+        free_queue(); // what the end of the text left uncommitted
+      }
       return 1;
     }
   }
-- 
2.43.0


From 56ca737160592056bed9d2da69043b73a47cd26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:58 +0000
Subject: [PATCH 17/24] fix: copy the file names that Ruby passes

The pointers were kept into strings that the garbage collector disposes of or
moves.
---
 ruby/ohcount.i | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/ruby/ohcount.i b/ruby/ohcount.i
index 38212fa..f6a7856 100644
--- a/ruby/ohcount.i
+++ b/ruby/ohcount.i
@@ -111,11 +111,26 @@
   }
 #if defined(SWIGRUBY)
   void set_filenames(VALUE filenames) {
+    // The names are copied into the block of the array, as Ruby may dispose of
+    // its strings or move them.
     int i, length = RARRAY_LEN(filenames);
-    char **fnames = calloc(length + 1, sizeof(char *));
-    VALUE *iter = RARRAY_PTR(filenames);
-    for (i = 0; i < length; i++, iter++)
-      fnames[i] = StringValuePtr(*iter);
+    size_t size = (length + 1) * sizeof(char *);
+    VALUE strings = rb_ary_new();
+    for (i = 0; i < length; i++) {
+      VALUE str = rb_ary_entry(filenames, i);
+      size += strlen(StringValuePtr(str)) + 1;
+      rb_ary_push(strings, str);
+    }
+    char **fnames = malloc(size);
+    char *p = (char *)(fnames + length + 1);
+    for (i = 0; i < length; i++) {
+      VALUE str = rb_ary_entry(strings, i);
+      fnames[i] = strcpy(p, StringValuePtr(str));
+      p += strlen(p) + 1;
+    }
+    fnames[length] = NULL;
+    RB_GC_GUARD(strings);
+    free(self->filenames);
     self->filenames = fnames;
   }
   SourceFile(const char *filepath, VALUE opt_hash=NULL) {
-- 
2.43.0


From 599888a355daa7b1b54b10eefbb7609d2ce4f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:58 +0000
Subject: [PATCH 18/24] fix: keep the owner of native memory alive in Ruby

Breakdowns, licenses, counts and list items point into the source file or list
they were obtained from, which could be disposed of before them.
---
 ruby/ohcount.i | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ruby/ohcount.i b/ruby/ohcount.i
index f6a7856..e45d3cf 100644
--- a/ruby/ohcount.i
+++ b/ruby/ohcount.i
@@ -24,6 +24,16 @@
   $result = arr;
 };
 
+// What a list or a file returns is part of its memory, so it has to live as
+// long as anything that was obtained from it.
+%typemap(out) SWIGTYPE * {
+  $result = SWIG_NewPointerObj(SWIG_as_voidptr($1), $descriptor, $owner);
+  if (!NIL_P($result) && TYPE(self) == T_DATA) {
+    VALUE owner = rb_ivar_get(self, rb_intern("owner"));
+    rb_ivar_set($result, rb_intern("owner"), NIL_P(owner) ? self : owner);
+  }
+};
+
 #elif defined(SWIGPYTHON)
 
 %typemap(in) (register const char *str, register unsigned int len) {
-- 
2.43.0


From e1d59536bbba0deb92b87e7625c429f4a0b78f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:03 +0000
Subject: [PATCH 19/24] fix: never count a line from a null start (C01)

Outside of a Ragel scanner ts is null, so a line whose first character is
met there (a string of PHP in HTML that closes a tag of its own) or whose
newline is inside an entity (</style\n>) was reported at the address 0
relative to the buffer: the text annotated or counted for it depended on
where the buffer was in memory, and the program often crashed.
---
 src/parser_macros.h   | 19 +++++++++++++------
 src/parsers/common.rl |  7 ++++---
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 4ff2988..81df345 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -160,6 +160,13 @@ void free_queue() {
   line_contains_code = 0; \
 }
 
+/**
+ * The position the current line starts at, also when only the beginning of the
+ * entity being matched has been seen of it.
+ * @note Applies only to line counting parsers.
+ */
+#define line_pos ((line_start) ? line_start : (ts) ? ts : p)
+
 /**
  * Executes standard line counting actions for INTERNAL_NL entities.
  * This is typically used in the main action for the INTERNAL_NL entity.
@@ -170,19 +177,19 @@ void free_queue() {
   if (callback && p > line_start) { \
     if (line_contains_code) { \
       if (inqueue) \
-        enqueue(lang, "lcode", cint(line_start), cint(p), userdata); \
+        enqueue(lang, "lcode", cint(line_pos), cint(p), userdata); \
       else \
-        callback(lang, "lcode", cint(line_start), cint(p), userdata); \
+        callback(lang, "lcode", cint(line_pos), cint(p), userdata); \
     } else if (whole_line_comment) { \
       if (inqueue) \
-        enqueue(lang, "lcomment", cint(line_start), cint(p), userdata); \
+        enqueue(lang, "lcomment", cint(line_pos), cint(p), userdata); \
       else \
-        callback(lang, "lcomment", cint(line_start), cint(p), userdata); \
+        callback(lang, "lcomment", cint(line_pos), cint(p), userdata); \
     } else { \
       if (inqueue) \
-        enqueue(lang, "lblank", cint(line_start), cint(p), userdata); \
+        enqueue(lang, "lblank", cint(line_pos), cint(p), userdata); \
       else \
-        callback(lang, "lblank", cint(line_start), cint(p), userdata); \
+        callback(lang, "lblank", cint(line_pos), cint(p), userdata); \
     } \
   } \
   whole_line_comment = 0; \
diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index 23a8398..d0da066 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -48,17 +48,18 @@ action commit {
   }
 }
 
-action ls { if (!line_start) line_start = ts; }
+# ts is not set outside of a scanner
+action ls { if (!line_start) line_start = (ts) ? ts : p; }
 
 action code {
-  if (!line_contains_code && !line_start) line_start = ts;
+  if (!line_contains_code && !line_start) line_start = (ts) ? ts : p;
   line_contains_code = 1;
 }
 
 action comment {
   if (!line_contains_code) {
     whole_line_comment = 1;
-    if (!line_start) line_start = ts;
+    if (!line_start) line_start = (ts) ? ts : p;
   }
 }
 
-- 
2.43.0


From e5f27013abd04c16be4beb62f0b1fa35b4fa9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:33 +0000
Subject: [PATCH 20/24] fix: undo the change to the log, which is not compiled
 in

log_it is a macro that does nothing unless log.h is edited; what a3ee0ba
repaired cannot happen in the program as built.
---
 src/log.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/log.c b/src/log.c
index 9c98498..d28686d 100644
--- a/src/log.c
+++ b/src/log.c
@@ -4,10 +4,8 @@
 #define LOG_FILE "/tmp/ohcount.log"
 void log_it(char *log) {
 	FILE *f = fopen(LOG_FILE, "a");
-	if (f) {
-		fputs(log, f);
-		fclose(f);
-	}
+	fputs(log, f);
+	fclose(f);
 }
 
 
-- 
2.43.0


From eb8f2dd3e911e83773163ca4f71fcdfa667170c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:27 +0000
Subject: [PATCH 21/24] fix: use limbo's own entity for what it does not know
 (C01)

The C constant indexes outside of limbo's entity names, so the name reported
depended on what the linker placed behind them.
---
 src/parsers/limbo.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/limbo.rl b/src/parsers/limbo.rl
index 8cd8650..227cb9c 100644
--- a/src/parsers/limbo.rl
+++ b/src/parsers/limbo.rl
@@ -109,7 +109,7 @@ enum {
     limbo_keyword_entity ${ entity = LIMBO_KEYWORD; } => limbo_ecallback;
     limbo_identifier_entity ${ entity = LIMBO_IDENTIFIER; } => limbo_ecallback;
     limbo_operator_entity ${ entity = LIMBO_OPERATOR; } => limbo_ecallback;
-    ^(space | digit)     ${ entity = C_ANY;         } => limbo_ecallback;
+    ^(space | digit)     ${ entity = LIMBO_ANY;     } => limbo_ecallback;
   *|;
 }%%
 
-- 
2.43.0


From 18bd38d363a3e0d420547b0dcfb06a40f52b2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 22/24] fix: do not take a shortage of memory for an unreadable
 file

With no memory for the contents of a file of a page or more, fread() was given
NULL, failed with EFAULT, and the file was silently reported as having nothing
in it (C12).
---
 src/sourcefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index f2b5e09..cd07bde 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -101,6 +101,10 @@ char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
         return NULL;
       }
       sourcefile->contents = malloc(size + 1);
+      if (sourcefile->contents == NULL) {
+        fprintf(stderr, "out of memory in ohcount_sourcefile_get_contents\n");
+        exit(1);
+      }
       if (fread(sourcefile->contents, size, 1, f) != 1) {
         free(sourcefile->contents);
         sourcefile->contents = NULL;
-- 
2.43.0


From 8293b341ea811c388e71f8b1300fa82722511c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:29 +0000
Subject: [PATCH 23/24] fix: free the lists the scripting interface hands out

---
 ruby/ohcount.i | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ruby/ohcount.i b/ruby/ohcount.i
index e45d3cf..accf574 100644
--- a/ruby/ohcount.i
+++ b/ruby/ohcount.i
@@ -28,12 +28,24 @@
 // long as anything that was obtained from it.
 %typemap(out) SWIGTYPE * {
   $result = SWIG_NewPointerObj(SWIG_as_voidptr($1), $descriptor, $owner);
-  if (!NIL_P($result) && TYPE(self) == T_DATA) {
-    VALUE owner = rb_ivar_get(self, rb_intern("owner"));
-    rb_ivar_set($result, rb_intern("owner"), NIL_P(owner) ? self : owner);
-  }
+  if (!NIL_P($result) && TYPE(self) == T_DATA)
+    rb_ivar_set($result, rb_intern("owner"), self);
 };
 
+// The caller is given these lists, so they have to be freed.
+%newobject SourceFile::_diff;
+%newobject SourceFileListItem::analyze_languages;
+%extend LocListItem {
+  ~LocListItem() {
+    ohcount_loc_list_free(self);
+  }
+}
+%extend LocDeltaListItem {
+  ~LocDeltaListItem() {
+    ohcount_loc_delta_list_free(self);
+  }
+}
+
 #elif defined(SWIGPYTHON)
 
 %typemap(in) (register const char *str, register unsigned int len) {
-- 
2.43.0


From fe2092f559d1b339c283894f636296c949e35b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:32 +0000
Subject: [PATCH 24/24] fix: annotate lines of any length and with any bytes

The copy of the line on the stack overflowed it for lines longer than the
stack, and cut lines at a NUL byte, newline included.
---
 src/ohcount.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ohcount.c b/src/ohcount.c
index 70cf71a..685fe80 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -12,11 +12,8 @@
 void annotate_callback(const char *language, const char *entity, int start,
                        int end, void *userdata) {
   SourceFile *sf = (SourceFile *)userdata;
-  int length = end - start;
-  char buf[length + 1];
-  strncpy(buf, (const char*)sf->contents + start, length); // field exists
-  buf[length] = '\0';
-  printf("%s\t%s\t%s", language, entity, buf);
+  printf("%s\t%s\t", language, entity);
+  fwrite(sf->contents + start, 1, end - start, stdout); // field exists
 }
 
 void annotate(SourceFileList *list) {
-- 
2.43.0

