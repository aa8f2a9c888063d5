From e965b94040d68b986fc53a5a7724e7c9d29a264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:39 +0000
Subject: [PATCH 01/10] fix: do not read past the end of an empty check id

---
 src/check_hooks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check_hooks.c b/src/check_hooks.c
index 1fd3873..56d8419 100644
--- a/src/check_hooks.c
+++ b/src/check_hooks.c
@@ -133,7 +133,7 @@ bool is_valid_severity(char check_char)
 
 int is_valid_check(const char *check_str)
 {
-	if (!check_str) {
+	if (!check_str || check_str[0] == '\0') {
 		return 0;
 	}
 
-- 
2.43.0


From 7e3d25b6b97e48272a3918cf91484534a10639d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 02/10] fix: do not scan past the end of a modules.conf token

strip_space() only stopped at white space, so for a line such as
"foo=base" it ran past the terminating NUL of the token, and past the
end of the line buffer when the line had no trailing newline.
---
 src/startup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/startup.c b/src/startup.c
index 142f89d..4e44860 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -112,7 +112,7 @@ static char *strip_space(char *str)
 
 	char *end = str;
 
-	while (!is_space(*end)) {
+	while (*end != '\0' && !is_space(*end)) {
 		end++;
 	}
 
-- 
2.43.0


From 420f5a0655dc5c3dae11f5c54ce41b01adb25d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 03/10] fix: do not read past a lone '-' object class in a file
 contexts line

---
 src/parse_fc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index cedabdb..ec477bd 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -49,7 +49,7 @@ struct fc_entry *parse_fc_line(char *line)
 	}
 
 	if (pos[0] == '-') {
-		if (pos[2] != '\0') {
+		if (pos[1] == '\0' || pos[2] != '\0') {
 			goto cleanup;
 		}
 		out->obj = pos[1];
-- 
2.43.0


From bc4bd41984695527e40d85f83c8f44def2180be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 04/10] fix: scan the category argument of gen_context from its
 start

---
 src/parse_fc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index ec477bd..4e8c86b 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -103,6 +103,7 @@ struct fc_entry *parse_fc_line(char *line)
 		}
 
 		if (maybe_c) {
+			i = 0;
 			while (maybe_c[i] != '\0' && maybe_c[i] != ')') {
 				i++;
 			}
-- 
2.43.0


From c832d22763d13d01b14b80b278a244157d757947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 05/10] fix: do not keep the line ending in file contexts

---
 src/parse_fc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 4e8c86b..18f1fea 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -62,6 +62,12 @@ struct fc_entry *parse_fc_line(char *line)
 	// overwritten by strtok
 	strcpy(line, orig_line);
 
+	// The line ending and trailing blanks are not part of the context
+	size_t context_len = strlen(pos);
+	while (context_len > 0 && strchr(" \t\r\n", pos[context_len - 1])) {
+		pos[--context_len] = '\0';
+	}
+
 	if (strncmp("gen_context(", pos, GEN_CONTEXT_LEN) == 0) {
 		pos += GEN_CONTEXT_LEN; // Next character
 		char *context_part = strtok(pos, ",");
@@ -135,8 +141,7 @@ struct fc_entry *parse_fc_line(char *line)
 		} else {
 			out->context->range = NULL;
 		}
-	} else if (strcmp("<<none>>\n", pos) == 0
-	           || strcmp("<<none>>\r\n", pos) == 0) {
+	} else if (strcmp("<<none>>", pos) == 0) {
 		out->context = NULL;
 	} else {
 		out->context = parse_context(pos);
-- 
2.43.0


From 57d6c3cc8c48b3b65b02c1e612882ce362f76697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 06/10] fix: allocate enough for repeated m4 substitutions

---
 src/template.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/template.c b/src/template.c
index 759f73f..00fb0cc 100644
--- a/src/template.c
+++ b/src/template.c
@@ -26,12 +26,20 @@
 char *replace_m4(const char *orig, const struct string_list *args)
 {
 	size_t len_to_malloc = strlen(orig) + 1;
+	size_t max_arg_len = 0;
 	const struct string_list *cur = args;
 
 	while (cur) {
-		len_to_malloc += strlen(cur->string);
+		size_t arg_len = strlen(cur->string);
+		if (arg_len > max_arg_len) {
+			max_arg_len = arg_len;
+		}
 		cur = cur->next;
 	}
+	// The same argument can be substituted more than once
+	for (const char *c = strchr(orig, '$'); c; c = strchr(c + 1, '$')) {
+		len_to_malloc += max_arg_len;
+	}
 	// len_to_malloc is now overestimated, because the length of the original
 	// arguments wasn't subtracted and not all args are necessarily substituted
 	char *ret = malloc(len_to_malloc);
-- 
2.43.0


From 376c56f0df91d71a4db61a877bd017d5b0bff5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 07/10] fix: terminate m4 substitutions ending in an argument
 not given

---
 src/template.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/template.c b/src/template.c
index 00fb0cc..80947dd 100644
--- a/src/template.c
+++ b/src/template.c
@@ -57,6 +57,7 @@ char *replace_m4(const char *orig, const struct string_list *args)
 		}
 		strncpy(ret_pos, orig_pos, (size_t)(dollar_pos - orig_pos));
 		ret_pos += dollar_pos - orig_pos;
+		*ret_pos = '\0'; // strncpy did not terminate, and there might be no argument to substitute
 		orig_pos = dollar_pos;
 
 		int ret_count =
-- 
2.43.0


From 95a2d9c3e74916717122160cce28e626eddd51aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 08/10] fix: handle calls without arguments in template
 expansion

---
 src/template.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/template.c b/src/template.c
index 80947dd..6652a9d 100644
--- a/src/template.c
+++ b/src/template.c
@@ -84,6 +84,10 @@ char *replace_m4(const char *orig, const struct string_list *args)
 struct string_list *replace_m4_list(const struct string_list *replace_with,
                                     const struct string_list *replace_from)
 {
+	if (!replace_from) {
+		return NULL;
+	}
+
 	struct string_list *ret = calloc(1, sizeof(struct string_list));
 	struct string_list *cur = ret;
 
-- 
2.43.0


From d83280c462acc0a7c479fecf7330b30d83961aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 09/10] fix: keep call arguments whose m4 substitution is not
 handled

---
 src/template.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/template.c b/src/template.c
index 6652a9d..9fec25b 100644
--- a/src/template.c
+++ b/src/template.c
@@ -81,6 +81,15 @@ char *replace_m4(const char *orig, const struct string_list *args)
 	return ret;
 }
 
+// Substitute in an argument of a nested call; one with a substitution that is
+// not handled (e.g. $*) is passed on as it is
+static char *replace_m4_argument(const char *orig, const struct string_list *args)
+{
+	char *ret = replace_m4(orig, args);
+
+	return ret ? ret : strdup(orig);
+}
+
 struct string_list *replace_m4_list(const struct string_list *replace_with,
                                     const struct string_list *replace_from)
 {
@@ -91,14 +100,14 @@ struct string_list *replace_m4_list(const struct string_list *replace_with,
 	struct string_list *ret = calloc(1, sizeof(struct string_list));
 	struct string_list *cur = ret;
 
-	cur->string = replace_m4(replace_from->string, replace_with);
+	cur->string = replace_m4_argument(replace_from->string, replace_with);
 	cur->next = NULL;
 	replace_from = replace_from->next;
 
 	while (replace_from) {
 		cur->next = calloc(1, sizeof(struct string_list));
 		cur = cur->next;
-		cur->string = replace_m4(replace_from->string, replace_with);
+		cur->string = replace_m4_argument(replace_from->string, replace_with);
 		cur->next = NULL;
 		replace_from = replace_from->next;
 	}
-- 
2.43.0


From f9a18b4db54182e91e4cfa180f010be03a505c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 10/10] fix: order type transitions by their source type

---
 src/ordering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ordering.c b/src/ordering.c
index 3cbfa56..ce945a3 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -206,7 +206,7 @@ const char *get_section(const struct policy_node *node)
 		// from an ordering standpoint?
 		// The case of multiple source types is weird.  For now
 		// just using the first one seems fine.
-		return node->data.av_data->sources->string;
+		return node->data.tt_data->sources->string;
 	case NODE_RT_RULE:
 		return SECTION_NON_ORDERED;
 	case NODE_ROLE_ALLOW:
-- 
2.43.0

